// vf:rule=one case per pair of symbolic terms, decided under every partition of its symbols into equal ones (complete: only equality of indices matters); distinct by the rendered pair, non-trivial when some assignment gives a non-zero commutator
// vf:assume=at most 5 different symbols and products of at most 5 operators represent longer ones
#include "algen.hpp"
#include <ieompp/algebra/commutator.hpp>
#include <ieompp/symbolic/prefactor.hpp>
namespace al = ieompp::algebra;
namespace sy = ieompp::symbolic;
using gen::show_ops;

template <typename V>
static std::string show(const sy::Prefactor<V>& p)
{
    std::string s = vf::cat(p.value);
    for(auto& k : p.kroneckers) {
        s += " d(" + k.a + "," + k.b + ")";
    }
    return s;
}
template <typename T>
static std::string show_t(const T& t)
{
    return show(t.prefactor) + show_ops(t.operators);
}

using Assign = std::map<std::string, int>;

// value of an index under an assignment: symbols by class, numbers as they are (with a tag)
static std::pair<int, long> val(const std::string& s, const Assign& a)
{
    auto it = a.find(s);
    return {0, it == a.end() ? -1000 : it->second};
}
template <typename T>
static typename std::enable_if<std::is_arithmetic<T>::value, std::pair<int, long>>::type
val(const T& t, const Assign&)
{
    return {1, long(t)};
}
template <typename Tuple, std::size_t... K>
static std::vector<std::pair<int, long>> vals(const Tuple& t, const Assign& a,
                                              std::index_sequence<K...>)
{
    return {val(std::get<K>(t), a)...};
}
using ModeMap = fock::Modes<std::vector<std::pair<int, long>>>;
template <typename Ops>
static fock::Product product(const Ops& ops, const Assign& a, ModeMap& m)
{
    fock::Product p;
    for(auto& o : ops) {
        auto t = gen::tuple_of(o);
        p.push_back({o.creator,
                     m(vals(t, a, std::make_index_sequence<std::tuple_size<decltype(t)>::value>{}))});
    }
    return p;
}

static void names_of(const std::string& s, std::set<std::string>& n) { n.insert(s); }
template <typename T>
static typename std::enable_if<std::is_arithmetic<T>::value>::type names_of(const T&,
                                                                            std::set<std::string>&)
{
}
template <typename Tuple, std::size_t... K>
static void collect(const Tuple& t, std::set<std::string>& n, std::index_sequence<K...>)
{
    (void) std::initializer_list<int>{(names_of(std::get<K>(t), n), 0)...};
}

// value of the deltas under an assignment
template <typename P>
static double deltas(const P& p, const Assign& a)
{
    for(auto& k : p.kroneckers) {
        if(a.at(k.a) != a.at(k.b)) {
            return 0;
        }
    }
    return 1;
}

template <typename Term, typename Out>
static void one(vf::Case& c)
{
    using Op    = typename Term::Operator;
    using Ops   = typename Term::Container;
    using Tuple = typename gen::OpTraits<Op>::Tuple;
    using Pref  = typename Term::Prefactor;
    using V     = typename Pref::Value;
    auto& r     = c.rng;
    const unsigned maxlen = vf::st().thorough ? 5 : 4;
    auto draw_term        = [&](unsigned n) {
        Term t;
        t.prefactor.value = gen::Pref<V>::draw(r);
        t.operators       = gen::draw_ops<Ops>(r, n, unsigned(r.range(1, 5)));
        return t;
    };
    unsigned n = unsigned(r.range(r.chance(0.05) ? 0 : 1, maxlen)), m = unsigned(r.range(r.chance(0.05) ? 0 : 1, maxlen));
    if(n * m % 2) {
        (r.coin() ? n : m) += 1;
    }
    Term a = draw_term(n), b = draw_term(m);
    if(r.chance(0.3) && n > 0 && m > 0) {
        // make a pair with equal indices likely
        const auto k   = r.below(n), l = r.below(m);
        b.operators[l] = a.operators[k];
        b.operators[l].creator = !a.operators[k].creator;
    }
    std::set<std::string> names;
    for(auto* t : {&a, &b}) {
        for(auto& o : t->operators) {
            collect(gen::tuple_of(o), names, std::make_index_sequence<std::tuple_size<Tuple>::value>{});
        }
    }
    while(names.size() > 5) {
        // replace surplus names, keeping the structure
        return;
    }
    const std::vector<std::string> sym(names.begin(), names.end());
    if(r.chance(0.3) && sym.size() > 1) {
        for(auto* t : {&a, &b}) {
            for(uint64_t i = r.below(3); i > 0; --i) {
                const std::string x = r.pick(sym), y = r.pick(sym);
                if(x != y) {
                    t->prefactor.kroneckers.push_back({x, y});
                }
            }
        }
    }
    const Term a0 = a, b0 = b;
    Out out;
    std::vector<Term> before;
    for(uint64_t i = r.below(2); i > 0; --i) {
        before.push_back(draw_term(unsigned(r.below(3))));
        out.push_back(before.back());
    }
    c.describe("[ " + show_t(a) + " , " + show_t(b) + " ]", false);
    al::commutate(a, b, out);
    auto same = [](const Term& x, const Term& y) {
        return x.prefactor.value == y.prefactor.value
               && x.prefactor.kroneckers == y.prefactor.kroneckers && x.operators == y.operators;
    };
    c.check(same(a, a0) && same(b, b0), "input-changed", "an input changed");
    c.check(out.size() >= before.size(), "container", "entries lost");
    auto it = out.begin();
    for(auto& x : before) {
        c.check(same(*it, x), "container", "entry already in the container changed");
        ++it;
    }
    const std::vector<Term> res(it, out.end());
    std::string shown;
    for(auto& t : res) {
        shown += "\n    " + show_t(t);
        for(auto& k : t.prefactor.kroneckers) {
            c.check(k.a != k.b, "trivial-delta", "delta between equally spelled indices in", shown);
            c.check(names.count(k.a) && names.count(k.b), "foreign-name",
                    "delta with a name of no input in", shown);
        }
        vf::observe("deltas_produced", t.prefactor.kroneckers.size());
    }
    vf::observe("terms_produced", res.size());
    const auto w = fock::cplx(a.prefactor.value) * fock::cplx(b.prefactor.value);
    // all partitions of the symbols: restricted growth strings
    std::vector<int> cls(sym.size(), 0);
    bool nontrivial = false;
    do {
        Assign as;
        for(std::size_t i = 0; i < sym.size(); ++i) {
            as[sym[i]] = cls[i];
        }
        ModeMap modes;
        const auto pa = product(a.operators, as, modes), pb = product(b.operators, as, modes);
        const double ab = deltas(a.prefactor, as) * deltas(b.prefactor, as);
        fock::Sum want, got;
        for(auto& t : fock::commutator({{fock::cplx(1.), pa}}, {{fock::cplx(1.), pb}})) {
            want.push_back({w * t.w * ab, t.ops});
        }
        for(auto& t : res) {
            const double d = deltas(t.prefactor, as);
            if(d != 0) {
                got.push_back({fock::cplx(t.prefactor.value) * d, product(t.operators, as, modes)});
            }
        }
        vf::observe("assignments");
        c.check(modes.size() <= 12, "foreign-operator", "operators of no input in", shown);
        const double dev = fock::distance(got, want, modes.size());
        if(!(dev <= 1e-9 * (1 + std::abs(w)))) {
            std::string s;
            for(auto& x : as) {
                s += x.first + "=" + std::to_string(x.second) + " ";
            }
            c.fail("wrong-commutator", "sum of the produced terms is not AB-BA for " + s
                                           + "; produced:" + shown);
        }
        if(!nontrivial && !fock::is_null(want, modes.size())) {
            nontrivial = true;
        }
        // next restricted growth string
        std::size_t i = cls.size();
        bool more     = false;
        while(i-- > 1) {
            int mx = 0;
            for(std::size_t j = 0; j < i; ++j) {
                mx = std::max(mx, cls[j]);
            }
            if(cls[i] <= mx) {
                ++cls[i];
                for(std::size_t j = i + 1; j < cls.size(); ++j) {
                    cls[j] = 0;
                }
                more = true;
                break;
            }
        }
        if(!more) {
            break;
        }
    } while(true);
    if(nontrivial) {
        vf::observe("nonzero_commutators");
        c.describe(c.desc, true);
    }
}

using S = std::string;
template <typename V, typename... I>
using T = al::Term<sy::Prefactor<V>, al::Operator<I...>>;

VF_GROUP(symbol, 300 * 3, 60) { one<T<double, S>, std::vector<T<double, S>>>(c); }
VF_GROUP(symbol_spin, 800 * 3, 60) { one<T<double, S, bool>, std::vector<T<double, S, bool>>>(c); }
VF_GROUP(spin_symbol, 300 * 3, 60) { one<T<int, bool, S>, vf::other_list<T<int, bool, S>>>(c); }
VF_GROUP(two_symbols, 300 * 3, 60)
{
    one<T<std::complex<double>, S, S>, std::vector<T<std::complex<double>, S, S>>>(c);
}
VF_GROUP(symbol_number_spin, 300 * 3, 60)
{
    one<T<double, S, int, bool>, std::vector<T<double, S, int, bool>>>(c);
}
VF_GROUP(spin_symbol_symbol, 300 * 3, 60)
{
    one<T<double, bool, S, S>, std::vector<T<double, bool, S, S>>>(c);
}
VF_REQUIRE(nonzero_commutators, 600)
VF_REQUIRE(deltas_produced, 1000)
VF_REQUIRE(assignments, 10000)
VF_MAIN
