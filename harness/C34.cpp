// vf:rule=one case per tuple of arguments; distinct by their values; non-trivial when the arguments are not all zero
// vf:assume=differences lie clearly (2 %) below or above the tolerance
#include "vf.hpp"
#include <blaze/Math.h>
#include <ieompp/types/number.hpp>
namespace ty = ieompp::types;

template <typename F>
static F draw(vf::Rng& r)
{
    switch(r.below(8)) {
        case 0: return F(0);
        case 1: return F(r.range(-4, 4));
        case 2: return F(-0.0);
        case 3: return F(r.real(-1, 1) * std::pow(10., r.real(-12, 12)));
        default: return F(r.real(-3, 3));
    }
}
template <typename F>
static bool same(F a, F b) // identical values, signs of zeros included
{
    return a == b && std::signbit(a) == std::signbit(b);
}
template <typename F>
static void helpers(vf::Case& c)
{
    using C = std::complex<F>;
    using L = std::complex<long double>;
    auto& r = c.rng;
    const C a(draw<F>(r), draw<F>(r)), b(draw<F>(r), draw<F>(r));
    c.describe(vf::cat(sizeof(F), "-byte a=", a, " b=", b), a != C(0) && b != C(0));
    const C k = ty::conjugate(a);
    c.check(same(k.real(), a.real()) && k.imag() == -a.imag(), "conjugate", "conjugate(", a, ") is ", k);
    c.check(ty::conjugate(k) == a, "conjugate", "conjugating ", a, " twice gives ", ty::conjugate(k));
    c.check(same(ty::conjugate(a.real()), a.real()), "conjugate", "conjugate(", a.real(), ") is ", ty::conjugate(a.real()));
    const L la(a.real(), a.imag()), lb(b.real(), b.imag());
    const L want      = la * std::conj(lb);
    const double tol  = 8 * double(std::numeric_limits<F>::epsilon()) * double(std::abs(la) * std::abs(lb));
    const C got       = ty::multiply_with_conjugate(a, b);
    c.near(L(got.real(), got.imag()), want, tol, "product", "multiply_with_conjugate");
    const C back = ty::multiply_with_conjugate(b, a);
    c.near(L(back.real(), back.imag()), std::conj(want), tol, "product", "multiply_with_conjugate, arguments exchanged");
    const C square = ty::multiply_with_conjugate(a, a);
    c.near((long double) square.real(), std::norm(la), 8 * std::numeric_limits<F>::epsilon() * double(std::norm(la)), "product", "multiply_with_conjugate(a,a)");
    c.near(square.imag(), F(0), 8 * std::numeric_limits<F>::epsilon() * double(std::norm(la)), "product", "imaginary part of multiply_with_conjugate(a,a)");
    const F sum = ty::add_conjugate_products(a, b);
    c.near((long double) sum, 2 * want.real(), 2 * tol, "sum", "add_conjugate_products");
    c.near((long double) ty::add_conjugate_products(b, a), 2 * want.real(), 2 * tol, "sum", "add_conjugate_products, arguments exchanged");
    vf::observe("helper_calls", 8);
}
VF_GROUP(helpers_float, 20000, 20) { helpers<float>(c); }
VF_GROUP(helpers_double, 20000, 20) { helpers<double>(c); }
VF_GROUP(helpers_long_double, 10000, 20) { helpers<long double>(c); }

template <typename F>
struct Pair {
    F a, b;
    bool within;
};
// two numbers whose difference is clearly below or above the tolerance
template <typename F>
static Pair<F> draw_pair(vf::Rng& r, F tol)
{
    static const double below[] = {0., 0.1, 0.5, 0.9, 0.98}, above[] = {1.02, 1.1, 2., 10., 1e3};
    Pair<F> p;
    if(r.chance(0.25)) { // neighbours at any magnitude: the tolerance does not grow with the numbers
        for(;;) {
            p.a = F(r.real(1, 2) * std::pow(10., r.real(-10, 12)) * (r.coin() ? 1 : -1));
            p.b = p.a;
            for(auto i = r.below(4); i > 0; --i) {
                p.b = std::nextafter(p.b, F(0));
            }
            const F difference = std::abs(p.a - p.b);
            p.within           = difference < tol;
            if(std::abs(difference - tol) > F(0.01) * tol) {
                return p;
            }
        }
    }
    p.within     = r.coin();
    const F d    = F((p.within ? below[r.below(5)] : above[r.below(5)]) * (r.coin() ? 1 : -1)) * tol;
    // a such that a + d is exact to much better than the tolerance
    switch(r.below(3)) {
        case 0: p.a = 0; break;
        case 1: p.a = d * F(r.below(4)); break;
        default: p.a = F(r.range(-8, 8)) * tol;
    }
    p.b = p.a + d;
    const F real_difference = std::abs(p.a - p.b);
    p.within = real_difference < tol;
    if(std::abs(real_difference - tol) < F(0.01) * tol) { // rounding moved it onto the border
        p.a = 0;
        p.b = 3 * tol;
        p.within = false;
    }
    return p;
}
template <typename F>
static void equality(vf::Case& c)
{
    using C       = std::complex<F>;
    auto& r       = c.rng;
    const F eps   = std::numeric_limits<F>::epsilon();
    const bool with_tol = r.coin();
    const F tol   = with_tol ? (r.chance(0.2) ? F(0) : F(std::pow(10., r.real(-9, 3)))) : F(0);
    const F limit = tol + eps;
    const auto p = draw_pair<F>(r, limit), q = draw_pair<F>(r, limit);
    c.describe(vf::cat(sizeof(F), "-byte ", p.a, ",", p.b, " and ", q.a, ",", q.b, " tolerance ", tol), true);
    auto eq = [&](F a, F b) { return with_tol ? ty::IsEqual(a, b, tol) : ty::IsEqual(a, b); };
    auto ez = [&](F a) { return with_tol ? ty::IsZero(a, tol) : ty::IsZero(a); };
    auto ce = [&](C a, C b) { return with_tol ? ty::IsEqual(a, b, tol) : ty::IsEqual(a, b); };
    auto cz = [&](C a) { return with_tol ? ty::IsZero(a, tol) : ty::IsZero(a); };
    c.check(eq(p.a, p.b) == p.within && eq(p.b, p.a) == p.within, "is-equal", "IsEqual(", p.a, ",", p.b, ") is ", !p.within);
    const F d = p.b - p.a;
    c.check(ez(d) == p.within && ez(-d) == p.within, "is-zero", "IsZero(", d, ") is ", !p.within);
    const bool both = p.within && q.within;
    c.check(ce(C(p.a, q.a), C(p.b, q.b)) == both && ce(C(p.b, q.b), C(p.a, q.a)) == both, "is-equal-complex", "complex IsEqual is ", !both);
    c.check(cz(C(p.b - p.a, q.b - q.a)) == both && cz(C(q.b - q.a, p.a - p.b)) == both, "is-zero-complex", "complex IsZero is ", !both);
    c.check(eq(p.a, p.a) && ce(C(p.a, q.a), C(p.a, q.a)), "reflexive", "a number differs from itself");
    const F nan = std::numeric_limits<F>::quiet_NaN();
    c.check(!eq(nan, p.a) && !eq(p.a, nan) && !eq(nan, nan) && !ez(nan), "nan", "NaN is accepted");
    c.check(!ce(C(nan, p.a), C(p.a, p.a)) && !ce(C(p.a, p.a), C(p.a, nan)) && !cz(C(nan, 0)) && !cz(C(0, nan)) && !ce(C(0, nan), C(0, nan)), "nan",
            "complex NaN is accepted");
    const F inf = std::numeric_limits<F>::infinity();
    c.check(!eq(inf, p.a) && !eq(-inf, inf) && !ez(inf) && !ez(-inf), "infinity", "infinity is accepted");
    if(std::abs(p.a) > 1000) {
        vf::observe(p.within ? "large_within" : "large_outside");
    }
    vf::observe(p.within ? "within" : "outside");
    vf::observe(both ? "complex_within" : "complex_outside");
}
VF_GROUP(equality_float, 20000, 20) { equality<float>(c); }
VF_GROUP(equality_double, 20000, 20) { equality<double>(c); }
VF_GROUP(equality_long_double, 10000, 20) { equality<long double>(c); }

template <typename I>
static void integer(vf::Case& c)
{
    auto& r = c.rng;
    auto draw = [&]() -> I {
        switch(r.below(5)) {
            case 0: return std::numeric_limits<I>::max();
            case 1: return std::numeric_limits<I>::min();
            case 2: return I(r());
            default: return I(r.below(4));
        }
    };
    const I a = draw();
    // also integers that differ by little or in a single bit, at any magnitude
    const I b = r.chance(0.3) ? a : r.chance(0.3) ? I(uint64_t(a) + r.below(3) - 1)
                : r.chance(0.3) ? I(uint64_t(a) ^ (uint64_t(1) << r.below(8 * sizeof(I)))) : draw();
    c.describe(vf::cat(sizeof(I), "-byte integers ", +a, ", ", +b), a != 0 || b != 0);
    c.check(ty::IsEqual(a, b) == (a == b) && ty::IsEqual(b, a) == (a == b), "integer", "IsEqual(", +a, ",", +b, ")");
    c.check(ty::IsZero(a) == (a == 0), "integer", "IsZero(", +a, ")");
    c.check(ty::conjugate(a) == a, "integer", "conjugate(", +a, ")");
    vf::observe("integers");
}
VF_GROUP(integers, 8000, 10)
{
    switch(c.rng.below(6)) {
        case 0: return integer<int>(c);
        case 1: return integer<uint64_t>(c);
        case 2: return integer<int64_t>(c);
        case 3: return integer<uint8_t>(c);
        case 4: return integer<int16_t>(c);
        default: return integer<unsigned>(c);
    }
}
static_assert(ty::IsComplex<std::complex<float>>::value && !ty::IsComplex<double>::value, "");
static_assert(std::is_same<ty::RealType<std::complex<float>>::Type, float>::value && std::is_same<ty::RealType<double>::Type, double>::value, "");
VF_REQUIRE(helper_calls, 200000)
VF_REQUIRE(within, 8000)
VF_REQUIRE(outside, 8000)
VF_REQUIRE(complex_within, 4000)
VF_REQUIRE(large_outside, 1000)
VF_MAIN
