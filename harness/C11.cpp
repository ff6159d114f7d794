// vf:rule=one case per term, pair of terms or commutator; distinct by the rendered input, non-trivial when the term has operators (conservation: the commutator has terms)
// vf:assume=momentum spaces of up to 2^40 momenta represent larger ones; the conserved quantities of commutators are checked on up to 9 momenta
#include "algen.hpp"
#include <blaze/Math.h>
#include <ieompp/algebra/commutator.hpp>
#include <ieompp/algebra/term/checks.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard_momentum_space/basis.hpp>
namespace al  = ieompp::algebra;
namespace lat = ieompp::lattices;
using gen::show_term;
using Op1   = al::Operator<uint64_t>;
using Op2   = al::Operator<uint64_t, bool>;
using Op3   = al::Operator<int, uint64_t, bool>;
using Op3u  = al::Operator<uint64_t, uint64_t, bool>;
using Op2r  = al::Operator<bool, uint64_t>;
using Chain = lat::PeriodicChain<double>;
using Square = lat::PeriodicSquareLattice<double>;

template <typename Op>
static al::Term<double, Op> draw_term(vf::Rng& r, uint64_t sites, unsigned maxlen, double creators = 0.5)
{
    al::Term<double, Op> t;
    t.prefactor = r.number();
    for(uint64_t n = r.below(maxlen + 1); n > 0; --n) {
        if(creators > 0.9 && !t.operators.empty() && r.chance(0.99)) { // large spins and numbers of creators
            t.operators.push_back(t.operators.back());
            continue;
        }
        auto tup = gen::OpTraits<Op>::draw_tuple(r, 3);
        t.operators.push_back(gen::OpTraits<Op>::make(r.chance(creators), tup));
    }
    (void) sites;
    return t;
}

template <std::size_t S, typename Op>
static void counting(vf::Case& c)
{
    auto& r = c.rng;
    auto a  = draw_term<Op>(r, 3, r.chance(0.05) ? 600 : r.chance(0.2) ? 30 : 6, r.chance(0.3) ? 0.98 : 0.5);
    auto b  = draw_term<Op>(r, 3, 6);
    c.describe(show_term(a) + " * " + show_term(b), !a.operators.empty());
    auto spin = [](const al::Term<double, Op>& t) {
        int s = 0;
        for(auto& o : t.operators) {
            const int x = std::get<S>(gen::tuple_of(o)) ? 1 : -1;
            s += o.creator ? x : -x;
        }
        return s;
    };
    auto crea = [](const al::Term<double, Op>& t) {
        int s = 0;
        for(auto& o : t.operators) {
            s += o.creator ? 1 : -1;
        }
        return s;
    };
    auto check = [&](const al::Term<double, Op>& t, const char* what) {
        c.check(al::total_creations(t) == crea(t), "creations", what, ": total_creations is ",
                al::total_creations(t), " instead of ", crea(t), " for ", show_term(t));
        vf::observe("above_127", std::abs(crea(t)) > 127 && std::abs(spin(t)) > 127);
        c.check(al::total_spin<S>(t) == spin(t), "spin", what, ": total_spin is ",
                al::total_spin<S>(t), " instead of ", spin(t), " for ", show_term(t));
    };
    check(a, "term");
    check(b, "term");
    auto conj = a.get_conjugate();
    check(conj, "conjugate");
    c.check(al::total_creations(conj) == -al::total_creations(a)
                && al::total_spin<S>(conj) == -al::total_spin<S>(a),
            "conjugation", "quantities do not change sign under conjugation of ", show_term(a));
    auto p = a * b;
    check(p, "product");
    c.check(al::total_creations(p) == al::total_creations(a) + al::total_creations(b)
                && al::total_spin<S>(p) == al::total_spin<S>(a) + al::total_spin<S>(b),
            "products", "quantities do not add under products");
    vf::observe("terms_counted", 4);
}

static double periodic(double x)
{
    return std::abs(std::remainder(x, 2 * M_PI));
}

VF_GROUP(spin_second_index, 800, 60) { counting<1, Op2>(c); }
VF_GROUP(spin_first_index, 400, 60) { counting<0, Op2r>(c); }
VF_GROUP(spin_third_index, 400, 60) { counting<2, Op3>(c); }

// operators whose index I is the momentum; the other indices must not count
struct KSpin {
    using Op = Op2;
    static constexpr std::size_t I = 0;
    static Op make(vf::Rng& r, bool cr, uint64_t k, uint64_t space_size) { return Op{cr, k, r.coin()}; }
};
struct OnlyK {
    using Op = Op1;
    static constexpr std::size_t I = 0;
    static Op make(vf::Rng&, bool cr, uint64_t k, uint64_t) { return Op{cr, k}; }
};
struct BandKSpin {
    using Op = Op3u;
    static constexpr std::size_t I = 1;
    static Op make(vf::Rng& r, bool cr, uint64_t k, uint64_t space_size)
    {
        return Op{cr, std::make_tuple(uint64_t(r.below(std::min<uint64_t>(3, space_size))), k, r.coin())};
    }
};
struct SiteK {
    using Op = al::Operator<uint64_t, uint64_t>;
    static constexpr std::size_t I = 1;
    static Op make(vf::Rng& r, bool cr, uint64_t k, uint64_t space_size) { return Op{cr, r.below(std::min<uint64_t>(3, space_size)), k}; }
};

template <typename Make, typename Space, typename Vec>
static void momentum_of(vf::Case& c, const Space& space, const std::string& name)
{
    using Op                = typename Make::Op;
    constexpr std::size_t I = Make::I;
    auto& r = c.rng;
    auto draw = [&] {
        al::Term<double, Op> t;
        t.prefactor = 1.;
        for(uint64_t n = r.below(r.chance(0.1) ? 25 : 7); n > 0; --n) {
            const bool cr = r.coin();
            const auto k  = uint64_t(r.below(space.size()));
            t.operators.push_back(Make::make(r, cr, k, space.size()));
        }
        return t;
    };
    auto a = draw(), b = draw();
    c.describe(name + ": " + show_term(a) + " * " + show_term(b), !a.operators.empty());
    auto sum = [&](const al::Term<double, Op>& t) {
        std::vector<double> s{0, 0};
        for(auto& o : t.operators) {
            auto v = Vec::get(space, std::get<I>(gen::tuple_of(o)));
            for(int d = 0; d < 2; ++d) {
                s[d] += o.creator ? v[d] : -v[d];
            }
        }
        return s;
    };
    auto check = [&](const al::Term<double, Op>& t, const char* what) {
        const auto want = sum(t);
        const auto got  = Vec::read(al::total_momentum<I>(t, space));
        for(int d = 0; d < 2; ++d) {
            c.near(got[d], want[d], 1e-10, "momentum", what, " momentum component ", d, " of ",
                   show_term(t));
        }
    };
    check(a, "term's");
    check(b, "term's");
    check(a.get_conjugate(), "conjugate's");
    const auto p = a * b;
    check(p, "product's");
    const auto x = Vec::read(al::total_momentum<I>(a, space)),
               y = Vec::read(al::total_momentum<I>(b, space)),
               z = Vec::read(al::total_momentum<I>(p, space)),
               w = Vec::read(al::total_momentum<I>(a.get_conjugate(), space));
    for(int d = 0; d < 2; ++d) {
        c.near(z[d], x[d] + y[d], 1e-10, "products", "momentum does not add");
        c.near(w[d], -x[d], 1e-10, "conjugation", "momentum does not change sign");
    }
    vf::observe("momenta_counted", 4);
}
template <typename Space, typename Vec>
static void momentum(vf::Case& c, const Space& space, const std::string& name)
{
    switch(c.rng.below(4)) {
        case 1: momentum_of<BandKSpin, Space, Vec>(c, space, name + ", middle index"); break;
        case 2: momentum_of<OnlyK, Space, Vec>(c, space, name + ", only index"); break;
        case 0: momentum_of<SiteK, Space, Vec>(c, space, name + ", second integer index"); break;
        default: momentum_of<KSpin, Space, Vec>(c, space, name);
    }
}
struct V1 {
    static std::vector<double> get(const Chain& s, uint64_t i)
    {
        return {s.x_min() + double(i) * s.dx(), 0.};
    }
    static std::vector<double> read(double v) { return {v, 0.}; }
};
struct V2 {
    static std::vector<double> get(const Square& s, uint64_t i)
    {
        return {s.x_min() + double(i / s.size_y()) * s.dx(),
                s.y_min() + double(i % s.size_y()) * s.dy()};
    }
    template <typename T>
    static std::vector<double> read(const T& v)
    {
        return {v[0], v[1]};
    }
};
VF_GROUP(momentum_chain, 500, 60)
{
    const bool large = c.rng.chance(0.15);
    const uint64_t n = large ? c.rng.range(5000, uint64_t(1) << c.rng.range(14, 40)) : c.rng.range(1, 9);
    const bool real  = !large && c.rng.chance(0.3);
    const double dx  = c.rng.real(0.2, 2.);
    if(real) {
        momentum<Chain, V1>(c, Chain(n, dx), vf::cat("real chain ", n, " dx ", dx));
    } else {
        momentum<Chain, V1>(c, Chain(n), vf::cat("chain ", n));
    }
}
VF_GROUP(momentum_square, 400, 60)
{
    const bool large  = c.rng.chance(0.15);
    const uint64_t nx = c.rng.range(1, large ? 70000 : 6), ny = c.rng.range(1, large ? 70000 : 6);
    momentum<Square, V2>(c, Square(nx, ny), vf::cat("square ", nx, "x", ny));
}

// every term of [H, L] keeps the charges of L
VF_GROUP(conservation, 300, 60)
{
    auto& r          = c.rng;
    const uint64_t n = r.range(2, 9);
    const Chain k(n);
    using T          = al::Term<double, Op2>;
    const uint64_t q = r.below(n);
    ieompp::models::hubbard_momentum_space::Basis3Operator<al::Monomial<Op2>> basis(q, k);
    const auto& m = basis[r.below(basis.size())];
    T l;
    l.prefactor = 1.;
    l.operators.assign(m.begin(), m.end());
    T h;
    h.prefactor = r.real(-2, 2);
    if(r.chance(0.4)) {
        // take an operator of L, so that the commutator does not vanish
        const uint64_t i = m[r.below(m.size())].index1;
        const bool s     = r.coin();
        h.operators      = {Op2{true, i, s}, Op2{false, i, s}};
    } else {
        const uint64_t k1 = m[r.below(m.size())].index1, k2 = r.below(n),
                       k3 = r.below(n);
        // k1 - k2 + k3 - k4 = 0 modulo the grid (grid points are -pi + i*dk)
        const uint64_t k4 = (k1 + 2 * n - k2 + k3) % n;
        h.operators = {Op2{true, k1, true}, Op2{false, k2, true}, Op2{true, k3, false},
                       Op2{false, k4, false}};
        if(r.coin()) {
            std::swap(h.operators[0], h.operators[2]);
            std::swap(h.operators[1], h.operators[3]);
        }
    }
    std::vector<T> out;
    al::commutate(h, l, out);
    c.describe(vf::cat("N=", n, " [", show_term(h), ", ", show_term(l), "]"), !out.empty());
    c.check(std::abs(al::total_momentum<0>(h, k)) < 1e-9 || periodic(al::total_momentum<0>(h, k)) < 1e-9,
            "hamiltonian", "Hamiltonian term carries momentum ", al::total_momentum<0>(h, k));
    c.check(al::total_creations(h) == 0 && al::total_spin<1>(h) == 0, "hamiltonian",
            "Hamiltonian term carries charge");
    const double p = al::total_momentum<0>(l, k);
    c.check(periodic(p - (k.x_min() + double(q) * k.dx())) < 1e-9, "basis",
            "basis element carries momentum ", p);
    c.check(al::total_creations(l) == 1 && al::total_spin<1>(l) == 1, "basis",
            "basis element does not carry one spin-up particle");
    for(auto& t : out) {
        vf::observe("conserving_terms");
        c.check(al::total_creations(t) == 1, "conservation", "particle number not conserved by ",
                show_term(t));
        c.check(al::total_spin<1>(t) == 1, "conservation", "spin not conserved by ", show_term(t));
        c.check(periodic(al::total_momentum<0>(t, k) - p) < 1e-9, "conservation",
                "momentum not conserved by ", show_term(t));
    }
}
VF_REQUIRE(above_127, 10)
VF_REQUIRE(conserving_terms, 100)
VF_REQUIRE(momenta_counted, 1000)
VF_MAIN
