// vf:rule=one case per operator, product, term or basis; distinct by the rendered object, non-trivial when it holds at least one operator
// vf:assume=products of at most 12 operators represent longer ones; bases of at most 7 sites represent larger ones
#include "algen.hpp"
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard_momentum_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
namespace al = ieompp::algebra;
using gen::show_ops;
using cd = std::complex<double>;

template <typename Op>
static Op adjoint(const Op& o)
{
    return gen::OpTraits<Op>::make(!o.creator, gen::tuple_of(o));
}
template <typename Op>
static bool same(const Op& a, const Op& b)
{
    return a.creator == b.creator && gen::tuple_of(a) == gen::tuple_of(b);
}
template <typename A, typename B>
static bool same_all(const A& a, const B& b)
{
    if(a.size() != b.size()) {
        return false;
    }
    auto i = a.begin();
    auto j = b.begin();
    for(; i != a.end(); ++i, ++j) {
        if(!same(*i, *j)) {
            return false;
        }
    }
    return true;
}
template <typename C>
static std::vector<typename C::value_type> adjoint_ops(const C& c)
{
    std::vector<typename C::value_type> v(c.begin(), c.end()), r;
    for(std::size_t i = v.size(); i-- > 0;) {
        r.push_back(adjoint(v[i]));
    }
    return r;
}

// change exactly one component of an operator
template <typename Op>
static Op variant(vf::Rng& r, const Op& o)
{
    if(r.chance(0.3)) {
        return adjoint(o);
    }
    return gen::OpTraits<Op>::make(o.creator, gen::OpTraits<Op>::draw_tuple(r, 6));
}

template <typename Op>
static void op_case(vf::Case& c)
{
    auto& r = c.rng;
    const Op a = gen::OpTraits<Op>::draw(r, 5);
    Op b       = r.coin() ? adjoint(a) : variant(r, a);
    c.describe(gen::show(a) + " and " + gen::show(b));
    Op x = a;
    x.conjugate();
    c.check(same(x, adjoint(a)), "operator", "conjugate() gives ", gen::show(x));
    c.check(same(a.get_conjugate(), adjoint(a)), "operator", "get_conjugate() gives ",
            gen::show(a.get_conjugate()));
    x.conjugate();
    c.check(same(x, a), "involution", "conjugating twice gives ", gen::show(x));
    c.check(a.is_conjugate(b) == same(b, adjoint(a)), "is_conjugate", "is_conjugate gives ",
            a.is_conjugate(b));
    c.check(b.is_conjugate(a) == same(b, adjoint(a)), "is_conjugate", "is_conjugate gives ",
            b.is_conjugate(a));
    vf::observe(same(b, adjoint(a)) ? "adjoint_pairs" : "other_pairs");
}

template <typename Op>
static void mono_case(vf::Case& c)
{
    using M = al::Monomial<Op>;
    auto& r = c.rng;
    const unsigned n = unsigned(r.below(r.chance(0.1) ? 60 : r.chance(0.2) ? 13 : 6)), d = unsigned(r.range(1, 5));
    const M a   = gen::draw_ops<M>(r, n, d);
    const auto want = adjoint_ops(a);
    c.describe(show_ops(a), n > 0);
    M x = a;
    x.conjugate();
    c.check(same_all(x, want), "monomial", "conjugate() gives ", show_ops(x));
    const M y = a.get_conjugate();
    c.check(same_all(y, want), "monomial", "get_conjugate() gives ", show_ops(y));
    x.conjugate();
    c.check(same_all(x, a), "involution", "conjugating twice gives ", show_ops(x));
    c.check(a.is_conjugate(y) && y.is_conjugate(a), "is_conjugate",
            "the adjoint is not recognised");
    // near misses
    M z = y;
    switch(r.below(4)) {
        case 0:
            if(!z.empty()) {
                auto& o = z[r.below(z.size())];
                o       = variant(r, o);
            }
            break;
        case 1: z.push_back(gen::OpTraits<Op>::draw(r, d)); break;
        case 2:
            if(!z.empty()) {
                z.pop_back();
            }
            break;
        default:
            if(z.size() > 1) {
                std::swap(z[r.below(z.size())], z[r.below(z.size())]);
            }
    }
    c.check(a.is_conjugate(z) == same_all(z, want), "is_conjugate", "is_conjugate(", show_ops(z),
            ") gives ", a.is_conjugate(z));
    c.check(z.is_conjugate(a) == same_all(z, want), "is_conjugate", "is_conjugate of ", show_ops(z),
            " gives ", z.is_conjugate(a));
    vf::observe(same_all(z, want) ? "adjoint_pairs" : "near_misses");
    // (ab)+ = b+ a+
    const M b   = gen::draw_ops<M>(r, unsigned(r.below(5)), d);
    const M l   = (a * b).get_conjugate();
    const M rr  = b.get_conjugate() * a.get_conjugate();
    auto l_want = adjoint_ops(b);
    for(auto& o : want) {
        l_want.push_back(o);
    }
    c.check(same_all(l, l_want), "product", "(ab)+ gives ", show_ops(l), " for b = ", show_ops(b));
    c.check(same_all(rr, l_want), "product", "b+ a+ gives ", show_ops(rr), " for b = ", show_ops(b));
    // matrix adjoint on the Fock space: <x|A|y> = conj(<y|A+|x>)
    fock::Modes<typename gen::OpTraits<Op>::Tuple> modes;
    const auto p = gen::product(a, modes), q = gen::product(y, modes);
    if(modes.size() <= 8) {
        for(uint64_t m = 0; m < (1u << modes.size()); ++m) {
            uint64_t t = m;
            int s      = fock::apply(p, t);
            if(s) {
                uint64_t back = t;
                int s2        = fock::apply(q, back);
                c.check(s2 == s && back == m, "matrix-adjoint",
                        "matrix element of the conjugate differs");
                vf::observe("matrix_elements");
            }
        }
    }
}

template <typename T>
static void term_case(vf::Case& c)
{
    using Op = typename T::Operator;
    auto& r  = c.rng;
    const unsigned n = unsigned(r.below(r.chance(0.1) ? 60 : r.chance(0.2) ? 13 : 6));
    T a{gen::Pref<typename T::Prefactor>::draw(r),
        gen::draw_ops<typename T::Container>(r, n, unsigned(r.range(1, 5)))};
    const T a0      = a;
    const auto want = adjoint_ops(a.operators);
    const auto pc   = typename T::Prefactor(ieompp::types::conjugate(a.prefactor));
    const cd pw     = std::conj(cd(a.prefactor));
    (void) pc;
    c.describe(gen::show_term(a), n > 0);
    const T g = a.get_conjugate();
    c.check(a.prefactor == a0.prefactor && same_all(a.operators, a0.operators), "input-changed",
            "get_conjugate changed its object");
    c.check(same_all(g.operators, want), "term", "get_conjugate() gives ", gen::show_term(g));
    c.check(cd(g.prefactor) == pw, "term-prefactor", "get_conjugate() gives ", gen::show_term(g));
    a.conjugate();
    c.check(same_all(a.operators, want), "term", "conjugate() gives ", gen::show_term(a));
    c.check(cd(a.prefactor) == pw, "term-prefactor", "conjugate() gives ", gen::show_term(a));
    a.conjugate();
    c.check(a.prefactor == a0.prefactor && same_all(a.operators, a0.operators), "involution",
            "conjugating twice gives ", gen::show_term(a));
    T b{gen::Pref<typename T::Prefactor>::draw(r),
        gen::draw_ops<typename T::Container>(r, unsigned(r.below(5)), 3)};
    const T l = (a * b).get_conjugate(), rr = b.get_conjugate() * a.get_conjugate();
    c.check(same_all(l.operators, rr.operators)
                && std::abs(cd(l.prefactor) - cd(rr.prefactor)) <= 1e-5 * (1 + std::abs(cd(l.prefactor))),
            "product", "(ab)+ = ", gen::show_term(l), " but b+a+ = ", gen::show_term(rr));
    vf::observe("terms_conjugated");
    (void) sizeof(Op);
}

template <typename Basis>
static void check_basis(vf::Case& c, const Basis& basis)
{
    const Basis copy(basis);
    const Basis conj = basis.get_conjugate();
    c.check(conj.size() == basis.size(), "basis", "conjugated basis has ", conj.size(), " of ",
            basis.size(), " elements");
    c.check(conj.N == basis.N, "basis", "N changed");
    for(std::size_t i = 0; i < basis.size(); ++i) {
        c.check(same_all(conj[i], adjoint_ops(basis[i])), "basis", "element ", i, " of the ",
                basis.size(), ": ", show_ops(basis[i]), " conjugates to ", show_ops(conj[i]));
        c.check(same_all(copy[i], basis[i]), "input-changed", "element ", i, " changed");
        vf::observe("basis_elements");
    }
    const Basis twice = conj.get_conjugate();
    for(std::size_t i = 0; i < basis.size(); ++i) {
        c.check(same_all(twice[i], basis[i]), "involution", "element ", i, " conjugated twice is ",
                show_ops(twice[i]));
    }
}

using Op1 = al::Operator<int>;
using Op2 = al::Operator<uint64_t, bool>;
using Op3 = al::Operator<int, uint64_t, bool>;
using OpS = al::Operator<std::string, bool>;
using Mon = al::Monomial<Op2>;

VF_GROUP(operators, 1500, 100)
{
    switch(c.index % 5) {
        case 0: op_case<Op1>(c); break;
        case 1: op_case<Op2>(c); break;
        case 2: op_case<Op3>(c); break;
        case 3: op_case<OpS>(c); break;
        default: op_case<al::Operator<char, int, std::string, bool>>(c);
    }
}
VF_GROUP(monomials, 3000, 100)
{
    switch(c.index % 4) {
        case 0: mono_case<Op1>(c); break;
        case 1: mono_case<Op2>(c); break;
        case 2: mono_case<Op3>(c); break;
        default: mono_case<OpS>(c);
    }
}
VF_GROUP(terms, 3000, 100)
{
    switch(c.index % 5) {
        case 0: term_case<al::Term<double, Op1>>(c); break;
        case 1: term_case<al::Term<cd, Op2>>(c); break;
        case 2: term_case<al::Term<std::complex<vf::f32>, Op3>>(c); break;
        case 3: term_case<al::Term<cd, OpS, vf::other_list<OpS>>>(c); break;
        default: term_case<al::Term<cd, Op2, vf::other_deque<Op2>>>(c);
    }
}
VF_GROUP(real_space_bases, 40, 2)
{
    const auto n = unsigned(1 + c.index % 7);
    if(c.index % 3 == 2) {
        const auto m = unsigned(1 + c.rng.below(3)), k = unsigned(1 + c.rng.below(3));
        c.describe(vf::cat("real-space bases of the ", m, "x", k, " lattice"));
        const ieompp::lattices::PeriodicSquareLattice<double> l(m, k, 1., 1.);
        check_basis(c, ieompp::models::hubbard_real_space::Basis1Operator<Mon>(l));
        check_basis(c, ieompp::models::hubbard_real_space::Basis3Operator<Mon>(l));
    } else {
        c.describe(vf::cat("real-space bases of ", n, " sites"));
        const ieompp::lattices::PeriodicChain<double> l(n, 1.);
        check_basis(c, ieompp::models::hubbard_real_space::Basis1Operator<Mon>(l));
        check_basis(c, ieompp::models::hubbard_real_space::Basis3Operator<Mon>(l));
    }
}
VF_GROUP(momentum_bases, 40, 2)
{
    const auto n = unsigned(1 + c.index % 9);
    const auto q = uint64_t(c.rng.below(n));
    c.describe(vf::cat("momentum-space basis of ", n, " sites, q = ", q));
    const ieompp::lattices::PeriodicChain<double> l(n);
    ieompp::models::hubbard_momentum_space::Basis3Operator<Mon> b(q, l);
    check_basis(c, b);
    const auto conj = b.get_conjugate(), orig = b;
    b.conjugate();
    for(std::size_t i = 0; i < b.size(); ++i) {
        c.check(same_all(b[i], adjoint_ops(orig[i])), "basis-in-place", "element ", i,
                " conjugates in place to ", show_ops(b[i]));
    }
}
VF_REQUIRE(adjoint_pairs, 500)
VF_REQUIRE(near_misses, 500)
VF_REQUIRE(matrix_elements, 1000)
VF_REQUIRE(terms_conjugated, 1000)
VF_REQUIRE(basis_elements, 1000)
VF_MAIN
