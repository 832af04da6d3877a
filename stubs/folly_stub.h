// Declaration-only stand-ins for the parts of folly the repository uses, so
// that clang can type-check the sources.  Nothing here is ever executed.
#pragma once
#include <atomic>
#include <chrono>
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#define FOLLY_NULLABLE
#define FOLLY_NONNULL
#define FOLLY_MAYBE_UNUSED [[maybe_unused]]
#define FOLLY_FALLTHROUGH [[fallthrough]]
#ifndef LIKELY
#define LIKELY(x) (__builtin_expect(!!(x), 1))
#define UNLIKELY(x) (__builtin_expect(!!(x), 0))
#endif
#define FB_LOG_EVERY_MS(severity, ms) LOG(severity)

namespace google { struct InitGoogleStub; }

namespace folly {

struct Unit { bool operator==(const Unit&) const; };
extern const Unit unit;

class StringPiece {
public:
    static constexpr size_t npos = static_cast<size_t>(-1);
    using value_type = char;
    using iterator = const char*;
    using const_iterator = const char*;
    StringPiece();
    StringPiece(const char* s);
    StringPiece(const char* s, size_t n);
    StringPiece(const char* s, const char* e);
    StringPiece(const std::string& s);
    StringPiece(std::string_view s);
    StringPiece(const std::string& s, size_t off);
    const char* data() const; const char* start() const;
    const char* begin() const;
    const char* end() const;
    size_t size() const;
    bool empty() const;
    void clear();
    void reset(const char*, size_t);
    std::string str() const;
    std::string toString() const;
    const char& operator[](size_t) const;
    char front() const;
    char back() const;
    StringPiece subpiece(size_t first, size_t length = npos) const;
    void advance(size_t);
    void subtract(size_t);
    bool startsWith(const StringPiece&) const;
    bool startsWith(char) const;
    bool endsWith(const StringPiece&) const;
    bool removePrefix(const StringPiece&);
    bool removeSuffix(const StringPiece&);
    size_t find(const StringPiece&, size_t pos = 0) const;
    size_t find(char, size_t pos = 0) const;
    size_t rfind(char) const;
    int compare(const StringPiece&) const;
    bool contains(const StringPiece&) const;
    explicit operator std::string() const;
    operator std::string_view() const;
    StringPiece split_step(char);
};
bool operator==(const StringPiece&, const StringPiece&);
bool operator!=(const StringPiece&, const StringPiece&);
bool operator<(const StringPiece&, const StringPiece&);
std::ostream& operator<<(std::ostream&, const StringPiece&);
class ByteRange {
public:
    ByteRange(); ByteRange(const unsigned char*, size_t); ByteRange(const unsigned char*, const unsigned char*); ByteRange(const StringPiece&);
    const unsigned char* data() const; const unsigned char* begin() const; const unsigned char* end() const; size_t size() const; bool empty() const; void advance(size_t);
};
using MutableStringPiece = StringPiece;
template <class T> class Range { public: Range(); Range(T, T); T begin() const; T end() const; size_t size() const; };

std::string stringPrintf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void stringAppendf(std::string*, const char*, ...);
template <class... A> std::string sformat(StringPiece, A&&...);
template <class... A> std::string to_impl_(A&&...);
template <class T, class... A> T to(const A&...);
class ConversionError : public std::range_error { public: using std::range_error::range_error; };
enum class ConversionCode { SUCCESS, };
template <class T, class E = ConversionCode> class Expected { public: bool hasValue() const; bool hasError() const; const T& value() const; T& value(); const E& error() const; explicit operator bool() const; T& operator*(); const T& operator*() const; T* operator->(); };
template <class T> Expected<T> tryTo(StringPiece);
template <class D, class C> std::string join(const D& delim, const C& c);
template <class D, class I> std::string join(const D& delim, I b, I e);
template <class D, class S, class O> void split(const D& delim, const S& s, std::vector<O>& out, bool ignoreEmpty = false);
template <bool exact = true, class D, class... O> bool split(const D& delim, StringPiece s, StringPiece& o, O&... outs);
StringPiece trimWhitespace(StringPiece); StringPiece ltrimWhitespace(StringPiece); StringPiece rtrimWhitespace(StringPiece);
void toLowerAscii(std::string&); void toLowerAscii(char*, size_t);
template <class S> std::string humanify(const S&);
template <class S> S cEscape(StringPiece); template <class S> S hexlify_(StringPiece);
std::string hexDump(const void*, size_t); std::string exceptionStr(const std::exception&);
std::string codePointToUtf8(char32_t); char32_t utf8ToCodePoint(const unsigned char*& p, const unsigned char* e, bool);

namespace hash {
uint64_t hash_128_to_64(uint64_t, uint64_t);
uint64_t fnv64(const char*, uint64_t h = 14695981039346656037ULL);
uint64_t fnv64(const std::string&, uint64_t h = 14695981039346656037ULL);
uint64_t fnv64_buf(const void*, size_t, uint64_t h = 14695981039346656037ULL);
uint32_t fnv32_buf(const void*, size_t, uint32_t h = 0);
uint32_t fnv32(const char*, uint32_t h = 0);
uint64_t SpookyHashV2_(const void*, size_t);
template <class... A> size_t hash_combine(const A&...);
struct SpookyHashV2 { static uint64_t Hash64(const void*, size_t, uint64_t seed); };
}
template <class T> struct hasher { size_t operator()(const T&) const; };
struct Random {
    static uint32_t rand32(); static uint32_t rand32(uint32_t); static uint32_t rand32(uint32_t, uint32_t);
    static uint64_t rand64(); static uint64_t rand64(uint64_t); static uint64_t rand64(uint64_t, uint64_t);
    static double randDouble(double, double); static double randDouble01();
    static bool oneIn(uint32_t);
    template <class T> static void seed(T&);
};
uint32_t randomNumberSeed();

// ---------------------------------------------------------------- sync
class SpinLock { public: void lock() const; bool try_lock() const; void unlock() const; };
template <class L> class SpinLockGuardImpl { public: explicit SpinLockGuardImpl(L&); ~SpinLockGuardImpl(); };
class SpinLockGuard { public: explicit SpinLockGuard(SpinLock&); ~SpinLockGuard(); };
class RWSpinLock {
public:
    void lock(); void unlock(); bool try_lock(); void lock_shared(); void unlock_shared(); bool try_lock_shared();
    class ReadHolder { public: explicit ReadHolder(RWSpinLock*); explicit ReadHolder(RWSpinLock&); ~ReadHolder(); void reset(RWSpinLock* = nullptr); ReadHolder(ReadHolder&&) noexcept; };
    class WriteHolder { public: explicit WriteHolder(RWSpinLock*); explicit WriteHolder(RWSpinLock&); ~WriteHolder(); void reset(RWSpinLock* = nullptr); WriteHolder(WriteHolder&&) noexcept; };
    class UpgradedHolder { public: explicit UpgradedHolder(RWSpinLock*); explicit UpgradedHolder(RWSpinLock&); ~UpgradedHolder(); };
};
using SharedMutex = RWSpinLock;
template <class T, class Tag = void> class ThreadLocal {
public: ThreadLocal(); ~ThreadLocal(); template <class F> explicit ThreadLocal(F&&) { __builtin_trap(); } T* get() const; T* operator->() const; T& operator*() const; void reset(T* = nullptr);
};
template <class T, class Tag = void> class ThreadLocalPtr { public: T* get() const; T* operator->() const; void reset(T* = nullptr); };
bool setThreadName(StringPiece);

template <class F> class ScopeGuardImpl { public: explicit ScopeGuardImpl(F&&) { __builtin_trap(); } ~ScopeGuardImpl(); void dismiss() noexcept; ScopeGuardImpl(ScopeGuardImpl&&); };
template <class F> ScopeGuardImpl<std::decay_t<F>> makeGuard(F&& f) { __builtin_trap(); }
namespace detail { enum class ScopeGuardOnExit {}; template <class F> ScopeGuardImpl<std::decay_t<F>> operator+(ScopeGuardOnExit, F&& f) { __builtin_trap(); } }
#define FB_CONCAT2_(a, b) a##b
#define FB_CONCAT_(a, b) FB_CONCAT2_(a, b)
#define SCOPE_EXIT auto FB_CONCAT_(SCOPE_EXIT_STATE, __LINE__) = ::folly::detail::ScopeGuardOnExit() + [&]() noexcept

// ---------------------------------------------------------------- exceptions / Try
class exception_wrapper {
public: exception_wrapper(); explicit exception_wrapper(std::exception_ptr); template <class E> exception_wrapper(E&&);
    std::string what() const; explicit operator bool() const; void throw_exception() const; const std::exception* get_exception() const;
    template <class E> bool is_compatible_with() const; template <class E> const E* get_exception() const; std::string class_name() const;
};
std::string exceptionStr(const exception_wrapper&);
std::ostream& operator<<(std::ostream&, const exception_wrapper&);
template <class T> class Try {
public: Try(); explicit Try(const T&); explicit Try(T&&); explicit Try(exception_wrapper);
    bool hasException() const; bool hasValue() const; T& value() &; const T& value() const&; T&& value() &&; exception_wrapper& exception(); const exception_wrapper& exception() const;
    T& operator*(); T* operator->(); const T* operator->() const; template <class E> bool withException(std::function<void(E&)>);
};
// ---------------------------------------------------------------- executors
class Executor { public: virtual ~Executor(); virtual void add(std::function<void()>) = 0; class KeepAliveImpl {};
    template <class E = Executor> class KeepAlive { public: KeepAlive(); KeepAlive(E*); E* get() const; E* operator->() const; explicit operator bool() const; }; };
template <class E> Executor::KeepAlive<E> getKeepAliveToken(E*);
class EventBase : public Executor {
public: EventBase(); ~EventBase(); void add(std::function<void()>) override;
    bool loop(); bool loopOnce(int = 0); bool loopForever(); void terminateLoopSoon();
    template <class F> bool runInEventBaseThread(F&&) { __builtin_trap(); } template <class F> bool runInEventBaseThreadAndWait(F&&) { __builtin_trap(); } template <class F> bool runImmediatelyOrRunInEventBaseThreadAndWait(F&&) { __builtin_trap(); }
    template <class F> void runInLoop(F&&) { __builtin_trap(); } template <class F> bool runAfterDelay(F&&, uint32_t) { __builtin_trap(); } template <class F> void runBeforeLoop(F&&) { __builtin_trap(); }
    bool isInEventBaseThread() const; bool isRunning() const; void setName(const std::string&); const std::string& getName();
    template <class F> void runOnDestruction(F&&) { __builtin_trap(); }
};
class EventBaseManager { public: static EventBaseManager* get(); EventBase* getEventBase() const; EventBase* getExistingEventBase() const; };
class ThreadFactory { public: virtual ~ThreadFactory(); };
class NamedThreadFactory : public ThreadFactory { public: explicit NamedThreadFactory(StringPiece); };
class IOExecutor : public Executor { public: virtual EventBase* getEventBase() = 0; };
class ThreadPoolExecutor : public Executor { public: void setNumThreads(size_t); size_t numThreads() const; void stop(); void join(); };
class IOThreadPoolExecutor : public ThreadPoolExecutor {
public: explicit IOThreadPoolExecutor(size_t, std::shared_ptr<ThreadFactory> = nullptr, EventBaseManager* = nullptr, bool = false); ~IOThreadPoolExecutor();
    void add(std::function<void()>) override; EventBase* getEventBase(); static EventBase* getEventBase(void*); std::vector<Executor::KeepAlive<EventBase>> getAllEventBases();
};
class CPUThreadPoolExecutor : public ThreadPoolExecutor { public: explicit CPUThreadPoolExecutor(size_t); void add(std::function<void()>) override; };
class InlineExecutor : public Executor { public: static InlineExecutor& instance(); void add(std::function<void()>) override; };

// ---------------------------------------------------------------- futures
template <class T> class Future;
template <class T> class SemiFuture;
template <class T> class Promise;
namespace stub {
template <class T> struct unwrap { using type = T; };
template <> struct unwrap<void> { using type = Unit; };
template <class T> struct unwrap<Future<T>> { using type = T; };
template <class T> struct unwrap<SemiFuture<T>> { using type = T; };
template <class F, class... A> using then_t = typename unwrap<std::decay_t<std::invoke_result_t<F, A...>>>::type;
template <> struct unwrap<void*> { using type = void*; };
template <class F, class A, class = void> struct res { using type = typename unwrap<std::decay_t<std::invoke_result_t<F>>>::type; };
template <class F, class A> struct res<F, A, std::enable_if_t<std::is_invocable_v<F, A>>> { using type = typename unwrap<std::conditional_t<std::is_void_v<std::invoke_result_t<F, A>>, void, std::decay_t<std::invoke_result_t<F, A>>>>::type; };
template <class T> struct tag {};
}
class FutureTimeout : public std::runtime_error { public: FutureTimeout(); };
class BrokenPromise : public std::runtime_error { public: BrokenPromise(); };
template <class T> class SemiFuture {
public:
    using value_type = T;
    SemiFuture(SemiFuture&&) noexcept; SemiFuture& operator=(SemiFuture&&) noexcept; SemiFuture(T); SemiFuture(Future<T>&&); ~SemiFuture();
    SemiFuture(const SemiFuture&) = delete;
    Future<T> via(Executor*) &&; Future<T> via(Executor::KeepAlive<>) &&; T get() &&; template <class D> T get(D) &&;
    SemiFuture<T>& wait() &; SemiFuture<T>&& wait() &&; bool isReady() const; T& value() &; T&& value() &&; const Try<T>& result() const; bool hasValue(); bool hasException(); bool valid() const;
    template <class F> SemiFuture<typename stub::res<F, Try<T>&&>::type> deferValue(F&&) && { __builtin_trap(); }
    template <class F> SemiFuture<T> deferError(F&&) && { __builtin_trap(); }
    template <class F> SemiFuture<typename stub::res<F, Try<T>&&>::type> defer(F&&) && { __builtin_trap(); }
    Future<T> toUnsafeFuture() &&;
};
template <class T> class Future {
public:
    using value_type = T;
    static Future<T> makeEmpty();
    Future(Future&&) noexcept; Future& operator=(Future&&) noexcept; Future(T); Future(SemiFuture<T>&&); ~Future();
    template <class U = T, class = std::enable_if_t<std::is_same_v<U, Unit>>> Future();
    template <class U, class = std::enable_if_t<!std::is_same_v<std::decay_t<U>, Future> && !std::is_same_v<std::decay_t<U>, T> && !std::is_same_v<std::decay_t<U>, SemiFuture<T>> && std::is_convertible_v<U, T>>> Future(U&&);
    template <class U, class = std::enable_if_t<!std::is_same_v<U, T> && std::is_convertible_v<U, T>>, class = void> Future(Future<U>&&);
    Future(const Future&) = delete;
    Future<T> via(Executor*) &&; Future<T> via(Executor::KeepAlive<>) &&;
    template <class F> Future<typename stub::res<F, T&&>::type> thenValue(F&&) && { __builtin_trap(); }
    template <class F> Future<typename stub::res<F, Try<T>&&>::type> thenTry(F&&) && { __builtin_trap(); }
    template <class F> Future<typename stub::res<F, Try<T>&&>::type> then(F&&) && { __builtin_trap(); }
    template <class E = exception_wrapper, class F> Future<T> thenError(F&&) && { __builtin_trap(); }
    template <class E, class F> Future<T> thenError(stub::tag<E>, F&&) && { __builtin_trap(); }
    template <class F> Future<T> onError(F&&) && { __builtin_trap(); }
    template <class F> Future<T> ensure(F&&) && { __builtin_trap(); }
    template <class D> Future<T> within(D) &&;
    T get() &&; template <class D> T get(D) &&; T getVia(EventBase*) &&;
    Future<T>& wait() &; Future<T>&& wait() &&; bool isReady() const; T& value() &; T&& value() &&; const T& value() const&; const Try<T>& result() const; Try<T>& result(); bool hasValue(); bool hasException(); bool valid() const;
    const Try<T>& getTry() const; Try<T>& getTry();
    template <class F> void setCallback_(F&&) { __builtin_trap(); }
    SemiFuture<T> semi() &&; Future<Unit> unit() &&; template <class U> bool poll_();
};
template <class T> class Promise {
public:
    Promise(); ~Promise(); Promise(Promise&&) noexcept; Promise& operator=(Promise&&) noexcept; Promise(const Promise&) = delete;
    SemiFuture<T> getSemiFuture(); Future<T> getFuture(); bool isFulfilled() const;
    template <class M> void setValue(M&&); template <class U = T> void setValue(); template <class E> void setException(E&&); void setTry(Try<T>&&); template <class F> void setWith(F&&) { __builtin_trap(); }
};
template <class T> std::pair<Promise<T>, SemiFuture<T>> makePromiseContract();
template <class T> Future<std::decay_t<T>> makeFuture(T&&);
Future<Unit> makeFuture();
template <class T> Future<T> makeFuture(exception_wrapper);
template <class T> SemiFuture<std::decay_t<T>> makeSemiFuture(T&&);
SemiFuture<Unit> makeSemiFuture();
template <class E> Future<Unit> via(E*);
template <class E, class F> Future<typename stub::res<F, Unit>::type> via(E*, F&&) { __builtin_trap(); }
template <class F> Future<typename stub::res<F, Unit>::type> async(F&&) { __builtin_trap(); }
template <class It> SemiFuture<std::vector<Try<typename std::iterator_traits<It>::value_type::value_type>>> collectAll(It, It);
template <class C> SemiFuture<std::vector<Try<typename C::value_type::value_type>>> collectAll(C&&);
template <class It> SemiFuture<std::vector<typename std::iterator_traits<It>::value_type::value_type>> collect(It, It);
template <class C> SemiFuture<std::vector<typename std::decay_t<C>::value_type::value_type>> collect(C&&);
template <class It> SemiFuture<std::vector<std::pair<size_t, Try<typename std::iterator_traits<It>::value_type::value_type>>>> collectN(It, It, size_t);
namespace futures { Future<Unit> sleep(std::chrono::milliseconds); template <class P, class F> Future<Unit> retrying(P, F) { __builtin_trap(); } }
class Baton { public: void wait(); void post(); };

// ---------------------------------------------------------------- net
class IPAddress { public: explicit IPAddress(StringPiece); static bool validate(StringPiece); std::string str() const; bool isV4() const; };
class SocketAddress { public: SocketAddress(); SocketAddress(const char*, uint16_t, bool = false); SocketAddress(const std::string&, uint16_t, bool = false); std::string getAddressStr() const; uint16_t getPort() const; const IPAddress& getIPAddress() const; std::string describe() const; void setFromLocalPort(uint16_t); };
class AsyncTransport { public: virtual ~AsyncTransport(); virtual bool good() const; };
class AsyncSocket : public AsyncTransport { public: static std::shared_ptr<AsyncSocket> newSocket(EventBase*, const std::string&, uint16_t, uint32_t = 0); bool hangup() const; bool good() const override; };
// ---------------------------------------------------------------- IOBuf
class fbstring : public std::string { public: std::string toStdString() const; };
class IOBuf { public: static std::unique_ptr<IOBuf> copyBuffer(StringPiece); static std::unique_ptr<IOBuf> copyBuffer(const void*, size_t); static std::unique_ptr<IOBuf> wrapBuffer(const void*, size_t); static std::unique_ptr<IOBuf> create(size_t);
    const uint8_t* data() const; uint8_t* writableData(); size_t length() const; size_t computeChainDataLength() const; fbstring moveToFbString(); void appendChain(std::unique_ptr<IOBuf>); void coalesce(); IOBuf* next(); std::unique_ptr<IOBuf> clone() const; bool empty() const; void prependChain(std::unique_ptr<IOBuf>); void append(size_t); template <class S> S to(); };
// ---------------------------------------------------------------- dynamic / json
class TypeError : public std::runtime_error { public: TypeError(const std::string&); };
class dynamic {
public:
    enum Type { NULLT, ARRAY, BOOL, DOUBLE, INT64, OBJECT, STRING };
    struct ObjectMaker { ObjectMaker(); template <class K, class V> ObjectMaker(K&&, V&&); template <class K, class V> ObjectMaker& operator()(K&&, V&&); };
    template <class... A> static dynamic array(A&&...);
    static ObjectMaker object(); template <class K, class V> static ObjectMaker object(K&&, V&&);
    dynamic(); dynamic(std::nullptr_t); dynamic(const char*); dynamic(const std::string&); dynamic(std::string&&); dynamic(StringPiece); dynamic(bool); dynamic(int); dynamic(unsigned); dynamic(long); dynamic(unsigned long); dynamic(double);
    dynamic(ObjectMaker (*)()); dynamic(const ObjectMaker&); dynamic(ObjectMaker&&); dynamic(const dynamic&); dynamic(dynamic&&) noexcept; dynamic(std::vector<bool>::reference);
    template <class... A> dynamic(dynamic (*)(A&&...)); dynamic& operator=(const dynamic&); dynamic& operator=(dynamic&&) noexcept; ~dynamic();
    bool isNull() const; bool isArray() const; bool isBool() const; bool isDouble() const; bool isInt() const; bool isNumber() const; bool isObject() const; bool isString() const; Type type() const; const char* typeName() const;
    std::string asString() const; double asDouble() const; int64_t asInt() const; bool asBool() const;
    const std::string& getString() const&; std::string& getString() &; std::string&& getString() &&; const double& getDouble() const; const int64_t& getInt() const; const bool& getBool() const; const char* c_str() const; 
    struct const_iterator { const dynamic& operator*() const; const dynamic* operator->() const; const_iterator& operator++(); const_iterator operator++(int); bool operator!=(const const_iterator&) const; bool operator==(const const_iterator&) const; using value_type = dynamic; using difference_type = long; using pointer = const dynamic*; using reference = const dynamic&; using iterator_category = std::forward_iterator_tag; };
    struct const_item_iterator { const std::pair<const dynamic, dynamic>& operator*() const; const std::pair<const dynamic, dynamic>* operator->() const; const_item_iterator& operator++(); bool operator!=(const const_item_iterator&) const; bool operator==(const const_item_iterator&) const; };
    struct IterableItems { const_item_iterator begin() const; const_item_iterator end() const; };
    struct IterableKeys { const_iterator begin() const; const_iterator end() const; };
    IterableItems items() const; IterableKeys keys() const; IterableKeys values() const; const_iterator begin() const; const_iterator end() const;
    const_item_iterator find(StringPiece) const; const dynamic* get_ptr(StringPiece) const&; const dynamic* get_ptr(size_t) const&; template <class K> size_t count(K&&) const;
    template <class K> const dynamic& at(K&&) const&; template <class K> dynamic& at(K&&) &; template <class K> dynamic& operator[](K&&) &; template <class K> const dynamic& operator[](K&&) const&; template <class K> dynamic&& operator[](K&&) &&;
    template <class K, class V> dynamic getDefault(K&&, V&&) const; size_t size() const; bool empty() const; template <class K, class V> void insert(K&&, V&&); template <class V> void push_back(V&&); template <class K> size_t erase(K&&); void resize(size_t); void merge_patch(const dynamic&); void update(const dynamic&);
    template <class K> dynamic& setDefault(K&&, dynamic); 
};
bool operator==(const dynamic&, const dynamic&); bool operator!=(const dynamic&, const dynamic&); bool operator<(const dynamic&, const dynamic&);
std::ostream& operator<<(std::ostream&, const dynamic&);
dynamic parseJson(StringPiece); std::string toJson(const dynamic&); std::string toPrettyJson(const dynamic&);
namespace json { struct serialization_opts { bool sort_keys; bool allow_non_string_keys; }; std::string serialize(const dynamic&, const serialization_opts&); struct parse_error : std::runtime_error { using std::runtime_error::runtime_error; }; }
// ---------------------------------------------------------------- stats / misc
template <class V, class C = std::chrono::steady_clock> class MultiLevelTimeSeries {
public: using TimePoint = std::chrono::time_point<C>; using Duration = typename C::duration; using ValueType = V;
    MultiLevelTimeSeries(size_t, size_t, const Duration[]); MultiLevelTimeSeries(size_t, std::initializer_list<Duration>);
    void update(TimePoint); void flush(); void addValue(TimePoint, const V&); void addValue(Duration, const V&); void update(Duration); void addValue(TimePoint, const V&, uint64_t); template <class R = double> R avg(size_t) const; template <class R = double> R rate(size_t) const; V sum(size_t) const; uint64_t count(size_t) const; uint64_t count(int) const; V sum(int) const; };
template <class V> class BucketedTimeSeries { public: BucketedTimeSeries(size_t, std::chrono::seconds); };
template <class V, class T = void, class C = MultiLevelTimeSeries<V>> class TimeseriesHistogram {
public: using ContainerType = C; using ValueType = V; using TimePoint = typename C::TimePoint; using Duration = typename C::Duration; void update(Duration); void addValue(Duration, const V&);
    TimeseriesHistogram(V, V, V, const C&); void update(TimePoint); void addValue(TimePoint, const V&); V getPercentileEstimate(double, size_t) const; V getPercentileEstimate(double, int) const; uint64_t count(int) const; uint64_t count(size_t) const; V sum(int) const; template <class R = double> R avg(int) const; template <class R = double> R rate(int) const; };
template <class K, class V, class H = std::hash<K>> class ConcurrentHashMap {
public: struct ConstIterator { const std::pair<const K, V>& operator*() const; const std::pair<const K, V>* operator->() const; ConstIterator& operator++(); bool operator==(const ConstIterator&) const; bool operator!=(const ConstIterator&) const; };
    ConstIterator find(const K&) const; ConstIterator begin() const; ConstIterator end() const; ConstIterator cend() const; ConstIterator cbegin() const; template <class A, class B> std::pair<ConstIterator, bool> insert(A&&, B&&); template <class A, class B> std::pair<ConstIterator, bool> emplace(A&&, B&&); template <class A, class B> std::pair<ConstIterator, bool> insert_or_assign(A&&, B&&); template <class A, class B> std::optional<ConstIterator> assign(A&&, B&&); template <class A, class B, class D> std::optional<ConstIterator> assign_if_equal(A&&, const B&, D&&); size_t erase(const K&); ConstIterator erase(ConstIterator&); const V operator[](const K&); const V at(const K&) const; bool empty() const; size_t size() const; void clear(); };
template <class T> T encodeVarint_(uint64_t, uint8_t*); size_t encodeVarint(uint64_t, uint8_t*); template <class T> uint64_t decodeVarint(T&); constexpr size_t kMaxVarintLength64 = 10;
void init(int*, char***, bool = true); struct Init { Init(int*, char***, bool = true); };
template <class T> void doNotOptimizeAway(const T&); void runBenchmarks();
template <class T> class Optional : public std::optional<T> { public: using std::optional<T>::optional; bool hasValue() const; };
template <class T> using small_vector_ = std::vector<T>;
template <class... T> using F14Map_ = std::unordered_map<T...>;
template <class T> class Singleton { public: static std::shared_ptr<T> try_get(); };
struct SingletonVault { static SingletonVault* singleton(); void destroyInstances(); };
template <class T> const T& constexpr_max(const T&, const T&);
namespace symbolizer { std::string getStackTraceStr(); }
template <class F> using Function = std::function<F>;
template <class... F> struct overload_ {};
}  // namespace folly
namespace std {
template <> struct hash<folly::StringPiece> { size_t operator()(const folly::StringPiece&) const; };
template <> struct hash<folly::dynamic> { size_t operator()(const folly::dynamic&) const; };
// folly/Hash.h makes pairs and tuples hashable
template <class A, class B> struct hash<std::pair<A, B>> { size_t operator()(const std::pair<A, B>&) const; };
template <class... A> struct hash<std::tuple<A...>> { size_t operator()(const std::tuple<A...>&) const; };
}
