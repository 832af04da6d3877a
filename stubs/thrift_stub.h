// Declaration-only stand-ins for the parts of fbthrift the repository uses.
#pragma once
#include "folly_stub.h"
enum CLIENT_TYPE { THRIFT_HEADER_CLIENT_TYPE, THRIFT_FRAMED_DEPRECATED, THRIFT_UNFRAMED_DEPRECATED, THRIFT_HTTP_SERVER_TYPE };
namespace apache { namespace thrift {
struct FragileConstructor {};
template <class T> struct TEnumTraits;
template <class T> class field_ref { public: std::remove_reference_t<T>& value() const; std::remove_reference_t<T>& operator*() const; std::remove_reference_t<T>* operator->() const; template <class U> field_ref& operator=(U&&); bool is_set() const; bool has_value() const; template <class... A> std::remove_reference_t<T>& emplace(A&&...); template <class K> decltype(auto) operator[](const K& k) const { return value()[k]; } std::remove_reference_t<T>& ensure(); };
template <class T> class optional_field_ref { public: std::remove_reference_t<T>& value() const; std::remove_reference_t<T>& operator*() const; std::remove_reference_t<T>* operator->() const; template <class U> optional_field_ref& operator=(U&&); bool has_value() const; explicit operator bool() const; void reset(); template <class... A> std::remove_reference_t<T>& emplace(A&&...); template <class U> std::remove_reference_t<T> value_or(U&&) const; std::remove_reference_t<T>& ensure(); };
namespace protocol {
enum TType { T_STOP = 0, T_VOID = 1, T_BOOL = 2, T_BYTE = 3, T_I08 = 3, T_DOUBLE = 4, T_I16 = 6, T_I32 = 8, T_U64 = 9, T_I64 = 10, T_STRING = 11, T_UTF7 = 11, T_STRUCT = 12, T_MAP = 13, T_SET = 14, T_LIST = 15, T_UTF8 = 16, T_UTF16 = 17, T_STREAM = 18, T_FLOAT = 19 };
enum PROTOCOL_TYPES { T_BINARY_PROTOCOL = 0, T_COMPACT_PROTOCOL = 2 };
class TProtocolException : public std::runtime_error { public: enum TProtocolExceptionType { UNKNOWN = 0, INVALID_DATA = 1, NEGATIVE_SIZE = 2, SIZE_LIMIT = 3, BAD_VERSION = 4, NOT_IMPLEMENTED = 5, MISSING_REQUIRED_FIELD = 6 };
    TProtocolException(); explicit TProtocolException(const std::string&); TProtocolException(TProtocolExceptionType, const std::string& = ""); TProtocolExceptionType getType() const;
    [[noreturn]] static void throwUnionMissingStop(); [[noreturn]] static void throwMissingRequiredField(const char*, const char*); [[noreturn]] static void throwReportedTypeMismatch(); [[noreturn]] static void throwBoolValueOutOfRange(); };
}
using TProtocolException = protocol::TProtocolException;
class TException : public std::exception {};
namespace transport { class TTransportException : public TException { public: enum TTransportExceptionType { UNKNOWN, TIMED_OUT = 4 }; TTransportExceptionType getType() const; const char* what() const noexcept override; }; }
class TApplicationException : public TException { public: const char* what() const noexcept override; int getType() const; };
struct type_class {
    struct integral {}; struct floating_point {}; struct binary {}; struct string {}; struct enumeration {}; struct structure {}; struct variant {};
    template <class T> struct list {}; template <class T> struct set {}; template <class K, class V> struct map {};
};
template <class T, class = void> class Cpp2Ops;
namespace detail {
template <class T> struct TccStructTraits;
template <class P> struct ProtocolReaderStructReadState {
    int16_t fieldId; protocol::TType fieldType;
    void readStructBegin(P*); void readStructEnd(P*); void readFieldBegin(P*); void readFieldBeginNoInline(P*); void readFieldEnd(P*);
    bool advanceToNextField(P*, int32_t currFieldId, int32_t nextFieldId, protocol::TType nextFieldType);
    folly::StringPiece fieldName(); void skip(P*); void afterAdvanceFailure(P*); 
};
namespace pm {
template <class TC, class T> struct protocol_methods {
    template <class P> static void read(P&, T&); template <class P> static uint32_t write(P&, const T&); template <bool ZC, class P> static uint32_t serializedSize(P&, const T&);
};
}
}
class RequestChannel { public: virtual ~RequestChannel(); };
class ClientChannel : public RequestChannel { public: virtual bool good(); virtual void setTimeout(uint32_t); virtual folly::AsyncTransport* getTransport(); };
class HeaderClientChannel : public ClientChannel { public: struct Deleter { void operator()(HeaderClientChannel*) const; }; using Ptr = std::unique_ptr<HeaderClientChannel, Deleter>; static Ptr newChannel(std::shared_ptr<folly::AsyncTransport>); static Ptr newChannel(std::shared_ptr<folly::AsyncSocket>); void setProtocolId(uint16_t); void setClientType(CLIENT_TYPE); };
class ServerInterface { public: virtual ~ServerInterface(); };
class ThriftServer { public: ThriftServer(); ~ThriftServer(); void setInterface(std::shared_ptr<ServerInterface>); void setPort(uint16_t); void setIdleTimeout(std::chrono::milliseconds); void serve(); void stop(); void setup(); void cleanUp(); folly::SocketAddress getAddress() const; void setIOThreadPool(std::shared_ptr<folly::IOThreadPoolExecutor>); void setNumIOWorkerThreads(size_t); void setReusePort(bool); struct EBM { folly::EventBase* getEventBase(); }; EBM* getEventBaseManager(); void setAddress(const std::string&, uint16_t); };
struct CompactSerializer { template <class T> static void serialize(const T&, std::string*); template <class S, class T> static S serialize(const T&); template <class T> static size_t deserialize(folly::StringPiece, T&); template <class T> static T deserialize(folly::StringPiece); };
struct BinarySerializer : CompactSerializer {}; struct SimpleJSONSerializer : CompactSerializer {};
namespace util { template <class E> std::string enumNameSafe(E); template <class E> const char* enumName(E); }
}}
// A stand-in protocol used to instantiate the hand-written operations.
namespace nsx_witness {
struct Proto {
    uint32_t writeStructBegin(const char*); uint32_t writeStructEnd(); uint32_t writeFieldBegin(const char*, apache::thrift::protocol::TType, int16_t); uint32_t writeFieldEnd(); uint32_t writeFieldStop();
    uint32_t writeBinary(const std::string&); uint32_t writeString(const std::string&); uint32_t writeBool(bool); uint32_t writeByte(int8_t); uint32_t writeI16(int16_t); uint32_t writeI32(int32_t); uint32_t writeI64(int64_t); uint32_t writeDouble(double); uint32_t writeFloat(float);
    uint32_t writeMapBegin(apache::thrift::protocol::TType, apache::thrift::protocol::TType, uint32_t); uint32_t writeMapEnd(); uint32_t writeListBegin(apache::thrift::protocol::TType, uint32_t); uint32_t writeListEnd(); uint32_t writeSetBegin(apache::thrift::protocol::TType, uint32_t); uint32_t writeSetEnd();
    uint32_t serializedStructSize(const char*) const; uint32_t serializedFieldSize(const char*, apache::thrift::protocol::TType, int16_t) const; uint32_t serializedSizeStop() const; uint32_t serializedSizeBinary(const std::string&) const; uint32_t serializedSizeZCBinary(const std::string&) const; uint32_t serializedSizeString(const std::string&) const; uint32_t serializedSizeZCString(const std::string&) const; uint32_t serializedSizeBool(bool) const; uint32_t serializedSizeByte(int8_t) const; uint32_t serializedSizeI16(int16_t) const; uint32_t serializedSizeI32(int32_t) const; uint32_t serializedSizeI64(int64_t) const; uint32_t serializedSizeDouble(double) const; uint32_t serializedSizeMapBegin(apache::thrift::protocol::TType, apache::thrift::protocol::TType, uint32_t) const; uint32_t serializedSizeListBegin(apache::thrift::protocol::TType, uint32_t) const;
    void readBinary(std::string&); void readString(std::string&); void readBool(bool&); void readByte(int8_t&); void readI16(int16_t&); void readI32(int32_t&); void readI64(int64_t&); void readDouble(double&);
    void readMapBegin(apache::thrift::protocol::TType&, apache::thrift::protocol::TType&, uint32_t&); void readMapEnd(); void readListBegin(apache::thrift::protocol::TType&, uint32_t&); void readListEnd(); 
    void readStructBegin(std::string&); void readStructEnd(); void readFieldBegin(std::string&, apache::thrift::protocol::TType&, int16_t&); void readFieldEnd();
    static bool kUsesFieldNames(); static bool kOmitsContainerElemTypes(); void skip(apache::thrift::protocol::TType); bool peekMap(); bool peekList(); bool peekSet(); void checkContainer_();
};
}
