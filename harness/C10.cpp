// vf:rule=one case per printed object and stream state; distinct by the rendered object, non-trivial unless it is an empty product
// vf:assume=objects of up to five indices, eight operators and six deltas represent larger ones
#include "algen.hpp"
#include <ieompp/algebra/operator.hpp>
#include <ieompp/string.hpp>
#include <ieompp/symbolic/index.hpp>
#include <ieompp/symbolic/prefactor.hpp>
#include <ieompp/tuple.hpp>
namespace al = ieompp::algebra;
namespace sy = ieompp::symbolic;
using S      = std::string;
using cd     = std::complex<double>;

static const char* DOT = " \xe2\x8b\x85 ";

static std::string idx(bool b) { return b ? "\xe2\x86\x91" : "\xe2\x86\x93"; }
template <typename T>
static std::string idx(const T& t)
{
    std::ostringstream o;
    o << t;
    return o.str();
}
template <typename Tuple, std::size_t... K>
static std::string join(const Tuple& t, std::index_sequence<K...>)
{
    std::string s;
    (void) std::initializer_list<int>{(s += (K ? "," : "") + idx(std::get<K>(t)), 0)...};
    return s;
}
template <typename Op>
static std::string text(const Op& o)
{
    const auto t = gen::tuple_of(o);
    return S("c") + (o.creator ? "^\xe2\x80\xa0" : "") + "_{"
           + join(t, std::make_index_sequence<std::tuple_size<decltype(t)>::value>{}) + "}";
}
template <typename Ops>
static std::string text_ops(const Ops& ops)
{
    std::string s;
    bool first = true;
    for(auto& o : ops) {
        s += (first ? "" : " ") + text(o);
        first = false;
    }
    return s;
}
template <typename N>
static std::string num(const N& n)
{
    std::ostringstream o;
    o << n;
    return o.str();
}
template <typename V>
static std::string text_pref(const sy::Prefactor<V>& p)
{
    if(p.kroneckers.empty()) {
        return num(p.value);
    }
    std::string s = p.value == V(1) ? "" : p.value == V(-1) && std::is_signed<V>::value
                                                ? "-"
                                                : num(p.value) + DOT;
    bool first = true;
    for(auto& k : p.kroneckers) {
        s += (first ? "" : " ") + S("\xce\xb4_{") + k.a + "," + k.b + "}";
        first = false;
    }
    return s;
}
template <typename V>
static std::string text_pref(const V& v)
{
    return num(v);
}

// prints x into a stream holding text already and with some format state; compares everything
template <typename X>
static void printed(vf::Case& c, const X& x, const std::string& want, const char* key)
{
    c.describe(S(key) + ": " + want, want.size() > 0);
    {
        std::ostringstream o;
        o << x;
        c.check(o.str() == want, key, "printed as '", o.str(), "', expected '", want, "'");
    }
    std::ostringstream o;
    o << "<";
    const auto flags = o.flags();
    const auto prec  = o.precision();
    const auto fill  = o.fill();
    o << x << "|" << x << ">";
    c.check(o.str() == "<" + want + "|" + want + ">", key, "printed twice as '", o.str(),
            "', expected '<", want, "|", want, ">'");
    c.check(o.flags() == flags && o.precision() == prec && o.fill() == fill && o.good(), "stream",
            "stream state changed");
    // a caller's format is as it was afterwards
    for(int k = 0; k < 2; ++k) {
        std::ostringstream f;
        if(k == 0) {
            f << std::hex << std::showbase << std::scientific << std::uppercase << std::left << std::setprecision(3)
              << std::setfill('*');
        } else { // any combination of the flags
            auto& r = c.rng;
            f << (r.coin() ? std::showpoint : std::noshowpoint) << (r.coin() ? std::showpos : std::noshowpos)
              << (r.coin() ? std::boolalpha : std::noboolalpha) << (r.coin() ? std::showbase : std::noshowbase)
              << (r.coin() ? std::uppercase : std::nouppercase) << (r.coin() ? std::unitbuf : std::nounitbuf)
              << (r.coin() ? std::skipws : std::noskipws)
              << (r.chance(0.3) ? std::fixed : r.chance(0.3) ? std::scientific : r.chance(0.3) ? std::hexfloat : std::defaultfloat)
              << (r.chance(0.3) ? std::hex : r.chance(0.3) ? std::oct : std::dec)
              << (r.chance(0.3) ? std::internal : r.coin() ? std::left : std::right)
              << std::setprecision(int(r.below(20))) << std::setfill(r.coin() ? ' ' : char('!' + r.below(90)));
        }
        const auto fflags = f.flags();
        const auto fprec  = f.precision();
        const auto ffill  = f.fill();
        f << x;
        c.check(f.flags() == fflags && f.precision() == fprec && f.fill() == ffill && f.good(), "stream",
                "the caller's format changed: flags ", unsigned(fflags), " to ", unsigned(f.flags()), ", precision ", fprec,
                " to ", f.precision());
    }
    vf::observe("prints", 5);
    vf::observe("characters", want.size());
}

template <typename Op>
static void op_case(vf::Case& c)
{
    const Op o = gen::OpTraits<Op>::draw(c.rng, 6);
    const Op o0 = o;
    printed(c, o, text(o), "operator");
    c.check(o == o0, "object", "object changed");
    const auto t = gen::tuple_of(o);
    // tuples: booleans as numbers
    std::ostringstream s;
    ieompp::print_tuple(s, std::make_tuple(1, S("x"), 2.5, 'c'));
    c.check(s.str() == "(1,x,2.5,c)", "tuple", "printed as '", s.str(), "'");
    (void) t;
}
template <typename Op>
static void mono_case(vf::Case& c)
{
    using M   = al::Monomial<Op>;
    const M m = gen::draw_ops<M>(c.rng, unsigned(c.rng.below(c.rng.chance(0.1) ? 9 : 5)), 5);
    const M m0 = m;
    printed(c, m, text_ops(m), "monomial");
    c.check(m == m0, "object", "object changed");
    vf::observe(m.empty() ? "empty_products" : "products");
}
template <typename T>
struct DrawPref {
    static T draw(vf::Rng& r) { return gen::Pref<T>::draw(r); }
};
template <typename V>
struct DrawPref<sy::Prefactor<V>> {
    static sy::Prefactor<V> draw(vf::Rng& r)
    {
        sy::Prefactor<V> p{r.chance(0.5) ? (r.coin() ? V(1) : V(-1)) : gen::Pref<V>::draw(r), {}};
        for(uint64_t n = r.below(r.chance(0.2) ? 7 : 4); n > 0; --n) {
            const auto a = gen::Value<S>::draw(r, 9);
            p.kroneckers.push_back({a, gen::Value<S>::draw(r, 9)});
        }
        return p;
    }
};
template <typename T>
static void term_case(vf::Case& c)
{
    auto& r = c.rng;
    const T t{DrawPref<typename T::Prefactor>::draw(r),
              gen::draw_ops<typename T::Container>(r, unsigned(r.below(r.chance(0.1) ? 9 : 5)), 5)};
    printed(c, t, text_pref(t.prefactor) + DOT + text_ops(t.operators), "term");
    vf::observe(t.operators.empty() ? "empty_products" : "products");
}
template <typename V>
static void pref_case(vf::Case& c)
{
    const auto p = DrawPref<sy::Prefactor<V>>::draw(c.rng);
    const auto n = p.kroneckers.size();
    printed(c, p, text_pref(p), "prefactor");
    c.check(p.kroneckers.size() == n, "object", "object changed");
    vf::observe("prefactors");
}

VF_GROUP(operators, 1500, 60)
{
    switch(c.index % 8) {
        case 0: op_case<al::Operator<int>>(c); break;
        case 1: op_case<al::Operator<S>>(c); break;
        case 2: op_case<al::Operator<bool>>(c); break;
        case 3: op_case<al::Operator<uint64_t, bool>>(c); break;
        case 4: op_case<al::Operator<bool, S>>(c); break;
        case 5: op_case<al::Operator<int, uint64_t, bool>>(c); break;
        case 6: op_case<al::Operator<S, int, bool, char>>(c); break;
        default: op_case<al::Operator<bool, int, S, int64_t, bool>>(c);
    }
}
VF_GROUP(monomials, 1500, 60)
{
    switch(c.index % 4) {
        case 0: mono_case<al::Operator<int>>(c); break;
        case 1: mono_case<al::Operator<uint64_t, bool>>(c); break;
        case 2: mono_case<al::Operator<S, int, bool>>(c); break;
        default: mono_case<al::Operator<int, int, S, bool>>(c);
    }
}
VF_GROUP(terms, 2000, 60)
{
    using O2 = al::Operator<uint64_t, bool>;
    using OS = al::Operator<S, bool>;
    switch(c.index % 6) {
        case 0: term_case<al::Term<double, al::Operator<int>>>(c); break;
        case 1: term_case<al::Term<cd, O2>>(c); break;
        case 2: term_case<al::Term<sy::Prefactor<double>, OS>>(c); break;
        case 3: term_case<al::Term<sy::Prefactor<int>, al::Operator<S, int, bool>>>(c); break;
        case 4: term_case<al::Term<int, O2, vf::other_list<O2>>>(c); break;
        default: term_case<al::Term<vf::f32, OS, vf::other_deque<OS>>>(c);
    }
}
VF_GROUP(prefactors, 1500, 60)
{
    switch(c.index % 3) {
        case 0: pref_case<double>(c); break;
        case 1: pref_case<int>(c); break;
        default: pref_case<cd>(c);
    }
}
VF_GROUP(others, 600, 60)
{
    auto& r = c.rng;
    const auto a = gen::Value<S>::draw(r, 9), b = gen::Value<S>::draw(r, 9);
    printed(c, al::Kronecker{a, b}, "\xce\xb4_{" + a + "," + b + "}", "delta");
    printed(c, sy::SpaceIndex(a), a, "index");
    printed(c, sy::MomentumIndex(b), b, "index");
    const int n = int(r.range(-50, 50));
    printed(c, sy::SpaceIndex(n), "r_" + std::to_string(n), "index");
    printed(c, sy::MomentumIndex(n), "k_" + std::to_string(n), "index");
    printed(c, sy::SpinIndex(n), "\xcf\x83_" + std::to_string(n), "index");
    printed(c, sy::SpaceIndex(), "r", "index");
    printed(c, sy::MomentumIndex(), "k", "index");
    printed(c, sy::SpinIndex(), "\xcf\x83", "index");
    c.check((sy::SpaceIndex(a) == sy::SpaceIndex(b)) == (a == b)
                && (sy::SpaceIndex(a) != sy::SpaceIndex(b)) == (a != b),
            "index-equality", "equality of the indices ", a, " and ", b, " is wrong");
    // tuples with random delimiters
    const double x = double(r.range(-9, 9)) / 4;
    {
        std::ostringstream o, w;
        ieompp::print_tuple(o, std::make_tuple(n), a, b, "]");
        w << b << n << "]";
        c.check(o.str() == w.str(), "tuple", "1-tuple printed as '", o.str(), "' instead of '",
                w.str(), "'");
    }
    {
        std::ostringstream o, w;
        ieompp::print_tuple(o, std::make_tuple(n, a, x), "; ", "{", "}");
        w << "{" << n << "; " << a << "; " << x << "}";
        c.check(o.str() == w.str(), "tuple", "3-tuple printed as '", o.str(), "' instead of '",
                w.str(), "'");
    }
    {
        std::ostringstream o, w;
        ieompp::print_tuple(o, std::make_tuple(a, b, n, x, 'q'));
        w << "(" << a << "," << b << "," << n << "," << x << ",q)";
        c.check(o.str() == w.str(), "tuple", "5-tuple printed as '", o.str(), "' instead of '",
                w.str(), "'");
    }
    {
        const al::Operator<uint64_t, bool> op{r.coin(), r.below(9), r.coin()};
        std::ostringstream w;
        w << a << n << "|" << x << text(op);
        const auto got = ieompp::compose(a, n, '|', x, op);
        c.check(got == w.str(), "compose", "compose gives '", got, "' instead of '", w.str(), "'");
        c.check(ieompp::compose() == "" && ieompp::compose(n) == std::to_string(n), "compose",
                "compose of nothing or one number is wrong");
    }
    {
        std::ostringstream o, w;
        ieompp::print_tuple(o, std::make_tuple(a, b, n, x, 'q', n + 1, a), b, "<", a);
        w << "<" << a << b << b << b << n << b << x << b << "q" << b << n + 1 << b << a << a;
        c.check(o.str() == w.str(), "tuple", "7-tuple printed as '", o.str(), "' instead of '",
                w.str(), "'");
    }
    {
        // manipulators act on what follows them, in one call only
        const auto third = 1. / double(r.range(3, 90));
        std::ostringstream w, v;
        w << std::setprecision(3) << third;
        v << third;
        const auto one = ieompp::compose(std::setprecision(3), third), two = ieompp::compose(third);
        c.check(one == w.str() && two == v.str(), "compose", "compose with a manipulator gives '", one, "', then '",
                two, "' instead of '", w.str(), "', '", v.str(), "'");
        const auto m = ieompp::compose(std::setw(6), std::setfill('.'), n, std::setw(4));
        for(int t = 0; t < 2; ++t) {
            const auto p = ieompp::compose(third, std::setprecision(2), std::setw(9));
            c.check(p == v.str(), "compose", "compose gives '", p, "' instead of '", v.str(), "' in call ", t);
        }
        const auto k = ieompp::compose(n);
        c.check(k == std::to_string(n), "compose", "compose gives '", k, "' after '", m, "'");
    }
    vf::observe("tuples", 4);
}
VF_REQUIRE(prints, 10000)
VF_REQUIRE(empty_products, 200)
VF_REQUIRE(products, 1000)
VF_MAIN
