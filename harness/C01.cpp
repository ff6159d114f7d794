// vf:rule=one case per pair of terms (operators, prefactors, output container); distinct by the rendered pair, non-trivial when the commutator is not the zero operator
// vf:assume=operators of at most 3 arithmetic indices and products of at most 6 operators (7 in the thorough tier), some of up to 40, represent longer ones
// vf:assume=the output container does not contain the input terms
#include "algen.hpp"
#include <ieompp/algebra/commutator.hpp>
namespace al = ieompp::algebra;
using gen::show_term;

static unsigned st_len() { return vf::st().thorough ? 7 : 6; }

// a product of many operators on few modes that does not annihilate every state
template <typename Ops>
static Ops walk(vf::Rng& r, unsigned n, unsigned domain)
{
    using Op = typename Ops::value_type;
    std::map<typename gen::OpTraits<Op>::Tuple, bool> filled;
    std::vector<Op> l;
    for(; n > 0; --n) {
        Op o     = gen::OpTraits<Op>::draw(r, domain);
        auto at  = filled.emplace(gen::tuple_of(o), r.coin()).first;
        o.creator  = !at->second;
        at->second = o.creator;
        l.push_back(o);
    }
    return Ops(l.rbegin(), l.rend());
}
template <typename Term, typename Out>
static void one(vf::Case& c, unsigned maxlen)
{
    const bool longer = maxlen > 12;
    using Op    = typename Term::Operator;
    using Ops   = typename Term::Container;
    using Tuple = typename gen::OpTraits<Op>::Tuple;
    auto& r     = c.rng;
    Term a, b;
    fock::Sum expected;
    fock::Modes<Tuple> modes;
    bool trivial       = true;
    const int attempts = r.chance(0.15) ? 1 : 25;
    for(int attempt = 0; attempt < attempts && trivial; ++attempt) {
        unsigned n = unsigned(r.below(maxlen + 1)), m = unsigned(r.below(maxlen + 1));
        if(n * m % 2) {
            (r.coin() ? n : m) += 1;
        }
        const unsigned domain = unsigned(r.range(longer ? 2 : 1, 4));
        a = Term{gen::Pref<typename Term::Prefactor>::draw(r), longer ? walk<Ops>(r, n, domain) : gen::draw_ops<Ops>(r, n, domain)};
        b = Term{gen::Pref<typename Term::Prefactor>::draw(r), longer ? walk<Ops>(r, m, domain) : gen::draw_ops<Ops>(r, m, domain)};
        if(r.chance(0.2)) {
            // adjoint-like pairs and identical terms
            b.operators = a.operators;
            if(b.operators.size() % 2) {
                b.operators.push_back(gen::OpTraits<Op>::draw(r, domain));
            }
            if(r.coin()) {
                std::reverse(b.operators.begin(), b.operators.end());
                for(auto& o : b.operators) {
                    o.creator = !o.creator;
                }
            }
        }
        modes = fock::Modes<Tuple>();
        auto pa = gen::product(a.operators, modes), pb = gen::product(b.operators, modes);
        if(modes.size() > 9) {
            a.operators.clear();
            continue;
        }
        expected = fock::commutator({{fock::cplx(1.), pa}}, {{fock::cplx(1.), pb}});
        trivial  = fock::is_null(expected, modes.size());
    }
    if(modes.size() > 9) {
        return;
    }

    Out out;
    std::vector<Term> before;
    for(uint64_t i = r.below(3); i > 0; --i) {
        before.push_back(Term{gen::Pref<typename Term::Prefactor>::draw(r),
                              gen::draw_ops<Ops>(r, unsigned(r.below(4)), 3)});
        out.push_back(before.back());
    }
    c.describe("[ " + show_term(a) + " , " + show_term(b) + " ] with "
                   + std::to_string(before.size()) + " entries already in the container",
               !trivial);
    vf::observe(trivial ? "vanishing_commutators" : "nonzero_commutators");
    const Term a0 = a, b0 = b;
    al::commutate(a, b, out);
    vf::observe("terms_produced", out.size() - before.size());
    c.check(a.prefactor == a0.prefactor && a.operators == a0.operators, "input-changed",
            "left input changed to ", show_term(a));
    c.check(b.prefactor == b0.prefactor && b.operators == b0.operators, "input-changed",
            "right input changed to ", show_term(b));
    c.check(out.size() >= before.size(), "container", "entries lost from the container");
    auto it = out.begin();
    for(auto& x : before) {
        c.check(it->prefactor == x.prefactor && it->operators == x.operators, "container",
                "entry already in the container changed from ", show_term(x), " to ",
                show_term(*it));
        ++it;
    }
    fock::Sum got, want;
    std::string shown;
    double scale = 1;
    for(; it != out.end(); ++it) {
        got.push_back({fock::cplx(it->prefactor), gen::product(it->operators, modes)});
        shown += "\n    " + show_term(*it);
    }
    c.check(modes.size() < 20, "foreign-operator", "result contains operators of no input", shown);
    const auto w = fock::cplx(a.prefactor) * fock::cplx(b.prefactor);
    scale += std::abs(w);
    for(auto& t : expected) {
        want.push_back({w * t.w, t.ops});
    }
    c.near(fock::distance(got, want, modes.size()), 0., 1e-5 * scale
               * (sizeof(typename ieompp::types::RealType<typename Term::Prefactor>::Type) < 8 ? 1 : 1e-6),
           "wrong-commutator", "sum of the produced terms is not AB-BA; produced:", shown, "\n deviation");
}

using Op1 = al::Operator<int>;
using Op2 = al::Operator<uint64_t, bool>;
using Op3 = al::Operator<int, uint64_t, bool>;
using cd  = std::complex<double>;

VF_GROUP(one_index, 400 * 3, 200) { one<al::Term<double, Op1>, std::vector<al::Term<double, Op1>>>(c, st_len()); }
VF_GROUP(two_indices, 900 * 3, 200)
{
    one<al::Term<cd, Op2>, std::vector<al::Term<cd, Op2>>>(c, st_len());
}
VF_GROUP(two_indices_real_list, 300 * 3, 200)
{
    one<al::Term<double, Op2>, vf::other_list<al::Term<double, Op2>>>(c, st_len());
}
VF_GROUP(three_indices, 300 * 3, 200) { one<al::Term<cd, Op3>, std::vector<al::Term<cd, Op3>>>(c, st_len()); }
VF_GROUP(long_products, 100, 40) { one<al::Term<cd, Op1>, std::vector<al::Term<cd, Op1>>>(c, 40); }
VF_GROUP(deque_operators, 150 * 3, 200)
{
    using T = al::Term<vf::f32, Op2, vf::other_deque<Op2>>;
    one<T, vf::other_deque<T>>(c, 4);
}
VF_GROUP(integer_prefactor, 150 * 3, 200)
{
    using T = al::Term<int, Op2>;
    one<T, std::vector<T>>(c, 5);
}
VF_REQUIRE(nonzero_commutators, 800)
VF_REQUIRE(vanishing_commutators, 50)
VF_MAIN
