// vf:rule=one case per history of products on a pool of objects; distinct by the rendered history, non-trivial when at least one product has two non-empty factors
// vf:assume=longer histories and products behave like those generated
#include "algen.hpp"
#include <ieompp/symbolic/prefactor.hpp>
namespace al = ieompp::algebra;
namespace sy = ieompp::symbolic;
using cd = std::complex<double>;

// reference model: a prefactor value, a list of deltas, a list of operators
template <typename Op>
struct Model {
    cd w = 1;
    std::vector<std::pair<std::string, std::string>> d;
    std::vector<Op> ops;
    Model times(const Model& r) const
    {
        Model m = *this;
        m.w *= r.w;
        m.d.insert(m.d.end(), r.d.begin(), r.d.end());
        m.ops.insert(m.ops.end(), r.ops.begin(), r.ops.end());
        return m;
    }
};

template <typename P>
struct PrefOps {
    static P draw(vf::Rng& r) { return P(double(r.range(-2, 2))); }
    static cd value(const P& p) { return cd(p); }
    static std::vector<std::pair<std::string, std::string>> deltas(const P&) { return {}; }
};
template <>
struct PrefOps<cd> {
    static cd draw(vf::Rng& r) { const double a = double(r.range(-2, 2)); return {a, double(r.range(-2, 2))}; }
    static cd value(const cd& p) { return p; }
    static std::vector<std::pair<std::string, std::string>> deltas(const cd&) { return {}; }
};
template <typename V>
struct PrefOps<sy::Prefactor<V>> {
    static sy::Prefactor<V> draw(vf::Rng& r)
    {
        sy::Prefactor<V> p{PrefOps<V>::draw(r), {}};
        for(uint64_t i = r.below(4); i > 0; --i) {
            const auto a = gen::Value<std::string>::draw(r, 9);
            p.kroneckers.push_back({a, gen::Value<std::string>::draw(r, 9)});
        }
        return p;
    }
    static cd value(const sy::Prefactor<V>& p) { return PrefOps<V>::value(p.value); }
    static std::vector<std::pair<std::string, std::string>> deltas(const sy::Prefactor<V>& p)
    {
        std::vector<std::pair<std::string, std::string>> v;
        for(auto& k : p.kroneckers) {
            v.push_back({k.a, k.b});
        }
        return v;
    }
};

template <typename T>
struct Obj {
    using Op = typename T::Operator;
    static T draw(vf::Rng& r)
    {
        return T{PrefOps<typename T::Prefactor>::draw(r),
                 gen::draw_ops<typename T::Container>(r, unsigned(r.below(5)), 4)};
    }
    static Model<Op> model(const T& t)
    {
        return {PrefOps<typename T::Prefactor>::value(t.prefactor),
                PrefOps<typename T::Prefactor>::deltas(t.prefactor),
                std::vector<Op>(t.operators.begin(), t.operators.end())};
    }
};
template <typename O>
struct Obj<al::Monomial<O>> {
    using Op = O;
    static al::Monomial<O> draw(vf::Rng& r)
    {
        return gen::draw_ops<al::Monomial<O>>(r, unsigned(r.below(5)), 4);
    }
    static Model<Op> model(const al::Monomial<O>& t) { return {1, {}, {t.begin(), t.end()}}; }
};
template <typename V>
struct Obj<sy::Prefactor<V>> {
    using Op = al::Operator<int>;
    static sy::Prefactor<V> draw(vf::Rng& r) { return PrefOps<sy::Prefactor<V>>::draw(r); }
    static Model<Op> model(const sy::Prefactor<V>& t)
    {
        return {PrefOps<V>::value(t.value), PrefOps<sy::Prefactor<V>>::deltas(t), {}};
    }
};

template <typename M>
static std::string show(const M& m)
{
    std::string s = vf::cat(m.w);
    for(auto& d : m.d) {
        s += " d(" + d.first + "," + d.second + ")";
    }
    return s + gen::show_ops(m.ops);
}
template <typename M>
static bool eq(const M& a, const M& b)
{
    if(!(std::abs(a.w - b.w) <= 1e-9 * std::abs(b.w)) || a.d != b.d || a.ops.size() != b.ops.size()) {
        return false;
    }
    for(std::size_t i = 0; i < a.ops.size(); ++i) {
        if(a.ops[i].creator != b.ops[i].creator
           || gen::tuple_of(a.ops[i]) != gen::tuple_of(b.ops[i])) {
            return false;
        }
    }
    return true;
}

template <typename T>
static void history(vf::Case& c)
{
    using O = Obj<T>;
    using M = Model<typename O::Op>;
    auto& r = c.rng;
    std::vector<T> pool;
    std::vector<M> ref;
    std::string hist;
    bool nontrivial = false;
    const unsigned n = unsigned(r.range(1, 4));
    for(unsigned i = 0; i < n; ++i) {
        pool.push_back(O::draw(r));
        ref.push_back(O::model(pool.back()));
        hist += "x" + std::to_string(i) + "=" + show(ref.back()) + "; ";
    }
    auto verify = [&](const char* what) {
        for(unsigned i = 0; i < n; ++i) {
            const M m = O::model(pool[i]);
            c.check(eq(m, ref[i]), what, "after ", hist, "\n object x", i, " is ", show(m),
                    "\n expected ", show(ref[i]));
        }
    };
    for(uint64_t step = r.range(1, 7); step > 0; --step) {
        const auto i = r.below(n), j = r.chance(0.35) ? i : r.below(n);
        if(ref[i].ops.size() + ref[j].ops.size() > 300 || ref[i].d.size() + ref[j].d.size() > 300) {
            continue;
        }
        nontrivial |= (!ref[i].ops.empty() || !ref[i].d.empty())
                      && (!ref[j].ops.empty() || !ref[j].d.empty());
        switch(r.below(3)) {
            case 0: {
                hist += vf::cat("x", i, "*=x", j, "; ");
                c.describe(hist, nontrivial);
                T& res = (pool[i] *= pool[j]);
                ref[i] = ref[i].times(M(ref[j]));
                c.check(&res == &pool[i], "return", "*= does not return its object");
                vf::observe(i == j ? "self_products" : "in_place_products");
                verify("in-place");
                break;
            }
            case 1: {
                const auto k = r.below(n);
                hist += vf::cat("x", k, "=x", i, "*x", j, "; ");
                c.describe(hist, nontrivial);
                const T p   = pool[i] * pool[j];
                const M exp = ref[i].times(ref[j]), got = O::model(p);
                c.check(eq(got, exp), "by-value", "after ", hist, "\n product is ", show(got),
                        "\n expected ", show(exp));
                verify("operand-changed");
                pool[k] = p;
                ref[k]  = exp;
                vf::observe("products");
                break;
            }
            default: {
                const auto k = r.below(n);
                if(ref[k].ops.size() > 100 || ref[k].d.size() > 100) {
                    continue;
                }
                hist += vf::cat("(x", i, "*x", j, ")*x", k, "; ");
                c.describe(hist, nontrivial);
                const M a = O::model((pool[i] * pool[j]) * pool[k]);
                const M b = O::model(pool[i] * (pool[j] * pool[k]));
                const M e = ref[i].times(ref[j]).times(ref[k]);
                c.check(eq(a, e) && eq(b, e), "associativity", "after ", hist, "\n (xy)z is ",
                        show(a), "\n x(yz) is ", show(b), "\n expected ", show(e));
                verify("operand-changed");
                vf::observe("associativity");
            }
        }
    }
}

// products of a symbolic prefactor with a delta, a list of deltas (possibly its own), a number
template <typename V>
static void scalars(vf::Case& c)
{
    using P = sy::Prefactor<V>;
    auto& r = c.rng;
    P p     = Obj<P>::draw(r);
    auto m  = Obj<P>::model(p);
    std::string hist = show(m);
    for(int i = 0; i < 6 && m.d.size() < 200; ++i) {
        switch(r.below(4)) {
            case 0: {
                const al::Kronecker k{gen::Value<std::string>::draw(r, 9), "z"};
                hist += " *= d(" + k.a + ",z)";
                c.describe(hist);
                p *= k;
                m.d.push_back({k.a, k.b});
                break;
            }
            case 1: {
                std::vector<al::Kronecker> l;
                for(uint64_t n = r.below(4); n > 0; --n) {
                    l.push_back({"l" + std::to_string(n), gen::Value<std::string>::draw(r, 9)});
                }
                hist += " *= " + std::to_string(l.size()) + " deltas";
                c.describe(hist);
                p *= l;
                for(auto& k : l) {
                    m.d.push_back({k.a, k.b});
                }
                break;
            }
            case 2: {
                hist += " *= own deltas";
                c.describe(hist);
                p *= p.kroneckers;
                const auto own = m.d;
                m.d.insert(m.d.end(), own.begin(), own.end());
                vf::observe("self_products");
                break;
            }
            default: {
                const V v = PrefOps<V>::draw(r);
                hist += vf::cat(" *= ", v);
                c.describe(hist);
                p *= v;
                m.w *= cd(v);
            }
        }
        vf::observe("scalar_products");
        const auto got = Obj<P>::model(p);
        c.check(eq(got, m), "prefactor", "after ", hist, "\n prefactor is ", show(got),
                "\n expected ", show(m));
    }
}

using Op1 = al::Operator<int>;
using Op2 = al::Operator<uint64_t, bool>;
using Op3 = al::Operator<int, uint64_t, bool>;
using OpS = al::Operator<std::string, bool>;
// factors of different value types
template <typename V, typename W>
static void mixed(vf::Case& c, double scale)
{
    using P = sy::Prefactor<V>;
    using Q = sy::Prefactor<W>;
    auto& r = c.rng;
    P p{V(4 * r.range(-5, 5)), {}};
    Q q{W(scale * double(r.range(-8, 8))), {}};
    for(uint64_t i = r.below(3); i > 0; --i) {
        p.kroneckers.push_back({"p" + std::to_string(i), "x"});
    }
    for(uint64_t i = r.below(4); i > 0; --i) {
        q.kroneckers.push_back({"q" + std::to_string(i), "y"});
    }
    const auto mp = Obj<P>::model(p), mq = Obj<Q>::model(q), want = mp.times(mq);
    c.describe(show(mp) + " * " + show(mq) + " of another type", !mp.d.empty() || !mq.d.empty());
    c.check(eq(Obj<P>::model(p * q), want), "mixed", "by value: ", show(Obj<P>::model(p * q)));
    c.check(eq(Obj<P>::model(p), mp) && eq(Obj<Q>::model(q), mq), "operand-changed", "an operand changed");
    p *= q;
    c.check(eq(Obj<P>::model(p), want), "mixed", "in place: ", show(Obj<P>::model(p)), " expected ", show(want));
    P s{V(4 * r.range(-5, 5)), {}};
    const auto ms = Obj<P>::model(s);
    s *= q.value;
    c.check(std::abs(cd(s.value) - ms.w * mq.w) <= 1e-9 * std::abs(ms.w * mq.w), "mixed", ms.w, " times ", mq.w,
            " gives ", s.value);
    vf::observe("mixed_products");
}
template <>
struct PrefOps<int> {
    static int draw(vf::Rng& r) { return int(r.range(-2, 2)); }
    static cd value(const int& p) { return cd(p); }
    static std::vector<std::pair<std::string, std::string>> deltas(const int&) { return {}; }
};
VF_GROUP(mixed_types, 400, 100)
{
    switch(c.index % 4) {
        case 0: mixed<int, double>(c, 0.25); break;    // 4k * l/4: an integer
        case 1: mixed<double, int>(c, 1); break;
        case 2: mixed<cd, double>(c, 0.5); break;
        default: mixed<double, float>(c, 0.125);
    }
}
VF_REQUIRE(mixed_products, 300)
VF_GROUP(monomials, 3000, 100)
{
    switch(c.index % 4) {
        case 0: history<al::Monomial<Op1>>(c); break;
        case 1: history<al::Monomial<Op2>>(c); break;
        case 2: history<al::Monomial<Op3>>(c); break;
        default: history<al::Monomial<OpS>>(c);
    }
}
VF_GROUP(terms, 4000, 100)
{
    switch(c.index % 6) {
        case 0: history<al::Term<double, Op1>>(c); break;
        case 1: history<al::Term<cd, Op2>>(c); break;
        case 2: history<al::Term<sy::Prefactor<double>, OpS>>(c); break;
        case 3: history<al::Term<cd, Op2, vf::other_deque<Op2>>>(c); break;
        case 4: history<al::Term<cd, OpS, vf::other_list<OpS>>>(c); break;
        default: history<al::Term<sy::Prefactor<cd>, Op3>>(c);
    }
}
VF_GROUP(prefactors, 2000, 100)
{
    switch(c.index % 4) {
        case 0: history<sy::Prefactor<double>>(c); break;
        case 1: history<sy::Prefactor<cd>>(c); break;
        case 2: scalars<double>(c); break;
        default: scalars<cd>(c);
    }
}
VF_REQUIRE(self_products, 1000)
VF_REQUIRE(in_place_products, 1000)
VF_REQUIRE(products, 1000)
VF_REQUIRE(associativity, 1000)
VF_REQUIRE(scalar_products, 1000)
VF_MAIN
