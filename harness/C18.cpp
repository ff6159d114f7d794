// vf:rule=one case per (chain or square lattice, q); distinct by that, every basis element checked per case; non-trivial from two sites on
// vf:assume=chains of at most 28 momenta completely, up to 370 (thorough: 950) sampled, and square lattices of at most 7x7, some of up to 24x12, represent larger ones
#include "algen.hpp"
#include "sea.hpp"
#include <blaze/Math.h>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard_momentum_space/basis.hpp>
namespace al = ieompp::algebra;
namespace mm = ieompp::models::hubbard_momentum_space;

using Op    = al::Operator<uint64_t, bool>;
using Basis = mm::Basis3Operator<al::Monomial<Op>>;
// a grid of nx times ny momenta; a chain is n times 1
template <typename Space>
static void basis_of(vf::Case& c, const Space& space, uint64_t nx, uint64_t ny, uint64_t q)
{
    const uint64_t n = nx * ny;
    static_assert(mm::IsThreeOperatorBasis<Basis>::value && !mm::IsOneOperatorBasis<Basis>::value, "");
    const Basis b(q, space);
    c.check(b.size() == n * n + 1, "size", "basis has ", b.size(), " elements");
    c.check(b.N == n, "size", "N is ", b.N);
    auto show = [&](uint64_t i) { return gen::show_ops(b[i]); };
    c.check(b[0].size() == 1 && b[0][0] == Op{true, q, true}, "first", "first element is ", show(0));
    // copies and the conjugated basis are numbered the same way
    const Basis copy(b), conj = b.get_conjugate(), twice = conj.get_conjugate();
    c.check(twice == b && twice.N == n, "twice", "the conjugate of the conjugated basis is another basis");
    Basis place(b);
    place.conjugate();
    c.check(place == conj, "in-place", "conjugating in place gives another basis");
    place.conjugate();
    c.check(place == b, "in-place", "conjugating twice in place gives another basis");
    c.check(copy == b && copy.N == n, "copy", "copied basis has ", copy.size(), " elements, N=", copy.N);
    c.check(conj.size() == b.size() && conj.N == n, "conjugate", "conjugated basis has ", conj.size(), " elements, N=", conj.N);
    c.check(conj[0].size() == 1 && conj[0][0] == Op{false, q, true}, "conjugate", "first element of the conjugated basis is ", gen::show_ops(conj[0]));
    std::vector<char> seen(n * n, 0);
    std::vector<char> hit(n * n + 1, 0);
    for(uint64_t i = 1; i < b.size(); ++i) {
        c.check(b[i].size() == 3, "shape", "element ", i, " is ", show(i));
        const Op &x = b[i][0], &y = b[i][1], &z = b[i][2];
        c.check(x.creator && x.index2 && y.creator && !y.index2 && !z.creator && !z.index2, "shape",
                "element ", i, " is ", show(i));
        c.check(x.index1 < n && y.index1 < n && z.index1 < n, "range", "element ", i, " is ", show(i));
        // grid points are -pi + index*dk, so k3 = k1 + k2 - q reads as below for the indices
        c.check(z.index1 == sea::third(nx, ny, x.index1, y.index1, q), "momentum", "element ", i, " = ",
                show(i), " does not carry momentum ", q, " on ", nx, "x", ny);
        const bool first = !seen[x.index1 * n + y.index1]++;
        c.check(first, "duplicate", "element ", i, " = ", show(i),
                " occurs twice");
        const uint64_t at = b.get_3op_index(x.index1, y.index1);
        c.check(at == i, "lookup", "get_3op_index(", x.index1, ",", y.index1, ") is ", at, " instead of ", i);
        hit[i] = 1;
        c.check(copy.get_3op_index(x.index1, y.index1) == i && conj.get_3op_index(x.index1, y.index1) == i, "lookup",
                "get_3op_index(", x.index1, ",", y.index1, ") of a copy is not ", i);
        auto& w = conj[i];
        c.check(w.size() == 3 && w[0] == Op{true, z.index1, false} && w[1] == Op{false, y.index1, false} && w[2] == Op{false, x.index1, true},
                "conjugate", "element ", i, " of the conjugated basis is ", gen::show_ops(w));
        vf::observe("basis_elements");
    }
    for(uint64_t i1 = 0; i1 < n; ++i1) {
        for(uint64_t i2 = 0; i2 < n; ++i2) {
            const uint64_t at = b.get_3op_index(i1, i2);
            c.check(at >= 1 && at < b.size() && b[at][0].index1 == i1 && b[at][1].index1 == i2, "lookup",
                    "get_3op_index(", i1, ",", i2, ") is ", at);
        }
    }
}
template <typename F>
static void one(vf::Case& c, uint64_t n, uint64_t q)
{
    c.describe(vf::cat("N=", n, " q=", q, sizeof(F) == 4 ? " float" : " double"), n > 1);
    basis_of(c, ieompp::lattices::PeriodicChain<F, uint64_t>(n), n, 1, q);
}
template <typename F>
static void square(vf::Case& c, uint64_t nx, uint64_t ny, uint64_t q)
{
    c.describe(vf::cat(nx, "x", ny, " q=", q, sizeof(F) == 4 ? " float" : " double"), nx * ny > 1);
    basis_of(c, ieompp::lattices::PeriodicSquareLattice<F, uint64_t>(nx, ny), nx, ny, q);
    vf::observe("square_bases");
}
static std::pair<uint64_t, uint64_t> nq(uint64_t index)
{
    uint64_t n = 1;
    while(index >= n) {
        index -= n++;
    }
    return {n, index};
}
VF_GROUP(every_small, 28 * 29 / 2, 1)
{
    const auto p = nq(c.index);
    one<double>(c, p.first, p.second);
}
VF_GROUP(single_precision, 16 * 17 / 2, 1)
{
    const auto p = nq(c.index);
    one<vf::f32>(c, p.first, p.second);
}
VF_GROUP(small_squares, 49 * 6, 4)
{
    const uint64_t nx = 1 + c.index % 7, ny = 1 + c.index / 7 % 7;
    square<double>(c, nx, ny, c.rng.below(nx * ny));
}
VF_GROUP(single_precision_squares, 36, 4)
{
    const uint64_t nx = 1 + c.index % 6, ny = 1 + c.index / 6 % 6;
    square<vf::f32>(c, nx, ny, c.rng.below(nx * ny));
}
VF_GROUP(large_squares, 8, 12)
{
    const uint64_t nx = c.rng.range(1, 24), ny = c.rng.range(1, vf::st().scale < 0.2 ? 3 : vf::st().thorough ? 24 : 12);
    square<double>(c, nx, ny, c.rng.below(nx * ny));
}
VF_GROUP(sampled_large, 40, 40)
{
    const uint64_t n = c.rng.range(29, 70);
    one<double>(c, n, c.rng.below(n));
}
// more than 2^16 elements, more than 2^8 momenta
VF_GROUP(huge, 4, 12)
{
    const uint64_t n = vf::st().scale < 0.2 ? 17 : c.rng.range(257, 257 + (vf::st().thorough ? 700 : 120));
    one<double>(c, n, c.rng.below(n));
}
// a basis is an ordinary vector: reordered or changed, its conjugate has the conjugates of what it holds
VF_GROUP(changed_bases, 60, 20)
{
    auto& r          = c.rng;
    const uint64_t n = r.range(1, 6), q = r.below(n);
    c.describe(vf::cat("changed basis ", c.index, " N=", n, " q=", q));
    Basis b(q, ieompp::lattices::PeriodicChain<double, uint64_t>(n));
    for(int step = 0; step < 4; ++step) {
        const auto kind = b.empty() ? 4 : r.below(7);
        if(kind < 2) {
            std::swap(b[r.below(b.size())], b[r.below(b.size())]);
        } else if(kind == 2) {
            b.erase(b.begin() + long(r.below(b.size())));
        } else if(kind == 3) {
            b.resize(r.below(b.size()) + (r.coin() ? 0 : b.size()));
        } else if(kind == 4) { // appended or inserted, of any length
            Basis::Monomial m;
            for(auto k = r.below(6); k > 0; --k) {
                m.push_back({r.coin(), r.below(9), r.coin()});
            }
            b.insert(b.begin() + long(r.coin() ? b.size() : r.below(b.size() + 1)), m);
        } else if(b[r.below(b.size())].empty()) {
            b.clear();
        } else {
            auto& m = b[r.below(b.size())];
            if(!m.empty()) {
                m[r.below(m.size())].index1 = r.below(n);
            }
        }
        const Basis conj = b.get_conjugate();
        c.check(conj.size() == b.size(), "changed", "conjugate has ", conj.size(), " elements");
        for(uint64_t i = 0; i < b.size(); ++i) {
            auto want = b[i];
            want.conjugate();
            c.check(conj[i] == want, "changed", "conjugate of element ", i, " = ", gen::show_ops(b[i]), " is ", gen::show_ops(conj[i]));
        }
        vf::observe("changed_bases");
    }
}
VF_REQUIRE(changed_bases, 200)
VF_REQUIRE(square_bases, 200)
VF_REQUIRE(basis_elements, 80000)
VF_MAIN
