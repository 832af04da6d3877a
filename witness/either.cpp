#include "common/base/Base.h"
#include "common/base/EitherOr.h"
#include "common/base/ErrorOr.h"
#include "common/base/StatusOr.h"
namespace witness {
// Element types whose every life event is a call the analysis sees
struct FromA { FromA(); FromA(const FromA&); FromA(FromA&&) noexcept; ~FromA(); int x; };
struct FromB { FromB(); FromB(const FromB&); FromB(FromB&&) noexcept; ~FromB(); int x; };
struct A {
    A(const A&); A(A&&) noexcept; ~A();
    A(const FromA&); A(FromA&&) noexcept;      // NOLINT
    A(int, const FromA&);
    int x;
};
struct B {
    B(const B&); B(B&&) noexcept; ~B();
    B(const FromB&); B(FromB&&) noexcept;      // NOLINT
    int x;
};
enum class Err { E_NONE = 0, E_ONE = -1 };
// both alternatives can be made from Both: only a tag decides
struct Both { Both(const Both&); Both(Both&&) noexcept; ~Both(); int x; };
struct L { L(const L&); L(L&&) noexcept; ~L(); L(const Both&); L(Both&&) noexcept; int x; };  // NOLINT
struct R { R(const R&); R(R&&) noexcept; ~R(); R(const Both&); R(Both&&) noexcept; int x; };  // NOLINT
}  // namespace witness

template class nebula::EitherOr<witness::A, witness::B>;
template class nebula::EitherOr<witness::Err, witness::B>;
template class nebula::StatusOr<witness::A>;

namespace witness {
using E = nebula::EitherOr<A, B>;
using F = nebula::EitherOr<FromA, FromB>;
using T = nebula::EitherOr<L, R>;
using S = nebula::StatusOr<A>;
using U = nebula::StatusOr<FromA>;
using Q = nebula::ErrorOr<Err, B>;

void useEither(const F& cf, F& f, const FromA& ca, FromA& a, const FromB& cb, FromB& b, const Both& cx, Both& x) {
    E e0;
    E e1(cf), e2(std::move(f)), e3(ca), e4(std::move(a)), e5(cb), e6(std::move(b)), e7(1, ca);
    e0 = cf;
    e0 = std::move(f);
    e0 = ca;
    e0 = std::move(a);
    e0 = cb;
    e0 = std::move(b);
    T t1(nebula::kConstructLeft, cx), t2(nebula::kConstructLeft, std::move(x));
    T t3(nebula::kConstructRight, cx), t4(nebula::kConstructRight, std::move(x));
    Q q0, q1(Err::E_ONE), q2(cb);
    q0 = Err::E_ONE;
    q0 = cb;
    (void)nebula::ok(q0);
    (void)nebula::error(q0);
    (void)nebula::hasValue(q0);
    (void)nebula::value(q0);
    const Q& cq = q0;
    (void)nebula::value(cq);
    (void)nebula::value(std::move(q0));
}
void useStatus(const U& cu, U& u, const A& ca, A& a, const FromA& cf, FromA& f, const nebula::Status& cs, nebula::Status& s) {
    S s0;
    S s1(cs), s2(std::move(s)), s3(ca), s4(std::move(a)), s5(cf), s6(std::move(f)), s7(cu), s8(std::move(u));
    s0 = std::move(u);
    s0 = ca;
    s0 = a;
    s0 = std::move(a);
    s0 = cf;
    s0 = std::move(f);
}
}  // namespace witness
