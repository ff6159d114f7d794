// vf:rule=one case per (chain or square lattice, q, level energies, Fermi energy); distinct by that description, all pairs of basis elements compared per case; non-trivial when the sea is neither empty nor full
// vf:assume=chains of at most 9, some of up to 18 (24 in the thorough tier), momenta and square lattices of at most 8, some of up to 16, represent larger ones
#include "sea.hpp"
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <blaze/Math.h>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard/dispersion.hpp>
#include <ieompp/models/hubbard_momentum_space/non_vanishing_expectation_values.hpp>
namespace al = ieompp::algebra;
namespace mm = ieompp::models::hubbard_momentum_space;
using M      = al::Monomial<al::Operator<uint64_t, bool>>;
using Chain  = ieompp::lattices::PeriodicChain<double, uint64_t>;
using Square = ieompp::lattices::PeriodicSquareLattice<double, uint64_t>;
using Table  = mm::NonVanishingExpectationValues<uint64_t, double>;
// single precision values
using SmallTable = mm::NonVanishingExpectationValues<uint64_t, vf::f32>;

template <typename Table>
static void compare(vf::Case& c, const Table& t, const sea::Setup& s, const char* what)
{
    const auto g = sea::gram(s.nx, s.ny, s.q, s.filled);
    std::map<std::pair<uint64_t, uint64_t>, double> got;
    for(auto& e : t) {
        c.check(e.left_index < g.size() && e.right_index < g.size(), "range", what, ": entry (", e.left_index,
                ",", e.right_index, ") is no pair of basis elements");
        c.check(got.emplace(std::make_pair(e.left_index, e.right_index), e.value).second, "duplicate", what,
                ": pair (", e.left_index, ",", e.right_index, ") is listed twice");
    }
    uint64_t nonzero = 0;
    for(std::size_t i = 0; i < g.size(); ++i) {
        for(std::size_t j = 0; j < g.size(); ++j) {
            const auto it = got.find({i, j});
            if(g[i][j] != 0.) {
                ++nonzero;
                c.check(it != got.end(), "missing", what, ": pair (", i, ",", j, ") with value ", g[i][j],
                        " is not listed");
                c.near(it->second, g[i][j], 1e-12, "value", what, ": value of pair (", i, ",", j, ")");
                const auto o = got.find({j, i});
                c.check(o != got.end() && o->second == it->second, "symmetry", what, ": pair (", i, ",", j,
                        ") is listed without its mirror image");
            } else {
                c.check(it == got.end(), "superfluous", what, ": pair (", i, ",", j, ") is listed with value ",
                        it == got.end() ? 0. : it->second);
            }
        }
    }
    vf::observe("nonzero_pairs", nonzero);
    vf::observe("pairs", g.size() * g.size());
}

template <typename Table>
static void tables(vf::Case& c, const mm::Basis3Operator<M>& basis, const sea::Setup& s)
{
    const auto conj = basis.get_conjugate();
    Table t(basis, conj, s.levels, typename Table::Contribution::Float(s.fermi));
    compare(c, t, s, "table");
    if(s.fermi == 0.) {
        Table d(basis, conj, s.levels);
        compare(c, d, s, "table with default Fermi energy");
    }
    compare(c, vf::passed(c.rng, t), s, "copied table");
    t.sort();
    compare(c, t, s, "sorted table");
    for(std::size_t i = 1; i < t.size(); ++i) {
        const auto &a = t[i - 1], &b = t[i];
        c.check(a.left_index < b.left_index || (a.left_index == b.left_index && a.right_index < b.right_index),
                "sort", "entries ", i - 1, " and ", i, " are not in order");
    }
    vf::observe("tables");
}
static void one(vf::Case& c, unsigned maxn, bool square = false)
{
    auto s     = sea::draw(c.rng, maxn, square);
    uint64_t f = 0;
    for(bool b : s.filled) {
        f += b;
    }
    const bool small = c.rng.chance(0.15);
    if(small) { // energies that single precision represents exactly
        s.fermi = std::round(s.fermi * 8) / 8;
        for(uint64_t i = 0; i < s.n; ++i) {
            s.levels.e[i] = std::round(s.levels.e[i] * 8) / 8;
            s.filled[i]   = s.levels.e[i] < s.fermi;
        }
    }
    c.describe(s.text + (small ? " single precision" : ""), f > 0 && f < s.n);
    const auto basis = square ? mm::Basis3Operator<M>(s.q, Square(s.nx, s.ny)) : mm::Basis3Operator<M>(s.q, Chain(s.n));
    vf::observe("square_tables", square);
    if(small) {
        tables<SmallTable>(c, basis, s);
    } else {
        tables<Table>(c, basis, s);
    }
}
VF_GROUP(random_seas, 500, 30) { one(c, 6); }
VF_GROUP(larger_seas, 40, 12) { one(c, c.index % 8 == 3 && vf::st().scale > 0.2 ? vf::st().thorough ? 24 : 18 : vf::st().thorough ? 11 : 9); }
VF_GROUP(square_seas, 200, 30) { one(c, c.index % 40 == 7 && vf::st().scale > 0.2 ? vf::st().thorough ? 24 : 16 : 8, true); }
VF_GROUP(half_filled_band, 36, 1)
{
    // the configuration of the programs: tight-binding band, filled below zero
    uint64_t n = 1, q = c.index;
    while(q >= n) {
        q -= n++;
    }
    sea::Setup s;
    s.n = s.nx = n, s.ny = 1, s.q = q, s.fermi = 0.;
    const ieompp::lattices::PeriodicChain<double, uint64_t> space(n), lattice(n, 1.);
    const auto disp = ieompp::models::hubbard::make_dispersion(space, lattice, 1.);
    for(uint64_t k = 0; k < n; ++k) {
        s.filled.push_back(disp(k) < 0.);
    }
    c.describe(vf::cat("half-filled band N=", n, " q=", q));
    const mm::Basis3Operator<M> basis(q, space);
    compare(c, Table(basis, basis.get_conjugate(), disp), s, "table");
    vf::observe("tables");
}
VF_GROUP(half_filled_square_band, 36, 1)
{
    const uint64_t nx = 1 + c.index / 3 % 4, ny = 1 + c.index / 12;
    sea::Setup s;
    s.n = nx * ny, s.nx = nx, s.ny = ny, s.q = c.rng.below(s.n), s.fermi = 0.;
    const Square space(nx, ny), lattice(nx, ny, 1., 1.);
    const auto disp = ieompp::models::hubbard::make_dispersion(space, lattice, 1.);
    for(uint64_t k = 0; k < s.n; ++k) {
        s.filled.push_back(disp(k) < 0.);
    }
    c.describe(vf::cat("half-filled band ", nx, "x", ny, " q=", s.q));
    const mm::Basis3Operator<M> basis(s.q, space);
    compare(c, Table(basis, basis.get_conjugate(), disp), s, "table");
    vf::observe("tables");
    vf::observe("square_tables");
}
VF_REQUIRE(square_tables, 150)
VF_REQUIRE(tables, 500)
VF_REQUIRE(nonzero_pairs, 5000)
VF_MAIN
