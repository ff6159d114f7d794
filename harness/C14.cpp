// vf:rule=one case per square lattice (edge lengths, spacings, index type); distinct by that description, all pairs of sites checked per case; non-trivial when both edges have more than one site
// vf:assume=edges of up to 12 sites plus sampled lattices with up to 1500 sites (every pair of sites) and sampled pairs of sites on lattices of up to 2^50 sites represent all sizes
#include "vf.hpp"
#include <algorithm>
#include <array>
#include <blaze/Math.h>
#include <ieompp/lattices/periodic_square_lattice.hpp>

static unsigned ring(unsigned n, unsigned a, unsigned b)
{
    // shortest path on a ring, by walking
    unsigned fwd = 0, back = 0;
    for(unsigned x = a; x != b; x = (x + 1) % n) {
        ++fwd;
    }
    for(unsigned x = a; x != b; x = (x + n - 1) % n) {
        ++back;
    }
    return fwd < back ? fwd : back;
}

template <typename L>
static void iterate(vf::Case& c, L& l, unsigned n, const char* what)
{
    unsigned at = 0;
    std::vector<char> seen(n, 0);
    for(auto i : l) {
        c.check(uint64_t(i) < n && !seen[uint64_t(i)], "iteration", what, ": visits ", i,
                " twice or out of range");
        seen[uint64_t(i)] = 1;
        ++at;
        c.check(at <= n, "iteration", what, ": goes on past the last site");
    }
    c.check(at == n, "iteration", what, ": ends after ", at, " of ", n);
    c.check(uint64_t(l.end() - l.begin()) == n, "iteration", what, ": end()-begin()");
}

template <typename F, typename I>
static void one(vf::Case& c, unsigned nx, unsigned ny, const char* name)
{
    using L      = ieompp::lattices::PeriodicSquareLattice<F, I>;
    const bool k = c.rng.coin();
    const F dx = F(c.rng.real(0.01, 5.)), dy = F(c.rng.real(0.01, 5.));
    c.describe(vf::cat(nx, "x", ny, " lattice, ", name, k ? ", momentum space" : ", real space"),
               nx > 1 && ny > 1);
    const L l = vf::passed(c.rng, k ? L(I(nx), I(ny)) : L(I(nx), I(ny), dx, dy));
    L mut(l);
    const unsigned n = nx * ny;
    vf::observe("lattices");
    c.check(l.size() == I(n) && l.size_x() == I(nx) && l.size_y() == I(ny), "size", "sizes are ",
            l.size(), " = ", l.size_x(), "x", l.size_y());
    c.check(l.first() == I(0) && l.last() == I(n - 1), "first-last", "first/last are ", l.first(), ",",
            l.last());
    iterate(c, l, n, "const lattice");
    iterate(c, mut, n, "lattice");
    {
        unsigned at = 0;
        for(auto it = l.cbegin(); it != l.cend() && at <= n; ++it) {
            ++at;
        }
        c.check(at == n, "iteration", "cbegin/cend visit ", at);
    }
    std::vector<unsigned> xs(n, ~0u), ys(n, ~0u);
    for(unsigned x = 0; x < nx; ++x) {
        for(unsigned y = 0; y < ny; ++y) {
            const I i = l.index(I(x), I(y));
            c.check(i >= I(0) && i < I(n), "index", "index(", x, ",", y, ") = ", i, " is no site");
            c.check(xs[i] == ~0u, "index", "index(", x, ",", y, ") = ", i, " is the index of another site");
            xs[i] = x;
            ys[i] = y;
            c.check(l.x_index(i) == I(x) && l.y_index(i) == I(y), "index-inverse", "site ", i, " = (",
                    x, ",", y, ") has coordinates (", l.x_index(i), ",", l.y_index(i), ")");
        }
    }
    std::multiset<std::pair<I, I>> bonds, want;
    for(unsigned a = 0; a < n; ++a) {
        const unsigned x = xs[a], y = ys[a];
        std::array<I, 4> w{{l.index(I((x + nx - 1) % nx), I(y)), l.index(I(x), I((y + ny - 1) % ny)),
                            l.index(I((x + 1) % nx), I(y)), l.index(I(x), I((y + 1) % ny))}};
        std::array<I, 4> nb = l.neighbors(I(a));
        const std::string shown = vf::cat(nb[0], " ", nb[1], " ", nb[2], " ", nb[3]);
        auto sorted_w = w, sorted_n = nb;
        std::sort(sorted_w.begin(), sorted_w.end());
        std::sort(sorted_n.begin(), sorted_n.end());
        c.check(sorted_w == sorted_n, "neighbors", "neighbours of ", a, " are ", shown,
                " instead of ", w[0], " ", w[1], " ", w[2], " ", w[3]);
        auto un = l.unique_neighbors(I(a));
        c.check(un.size() == 2, "unique-neighbors", "entries");
        for(auto u : un) {
            bonds.insert({std::min(I(a), I(u)), std::max(I(a), I(u))});
        }
        want.insert({std::min(I(a), w[2]), std::max(I(a), w[2])});
        want.insert({std::min(I(a), w[3]), std::max(I(a), w[3])});
        for(unsigned b = 0; b < n; ++b) {
            c.check(l.lattice_distance_x(I(a), I(b)) == I(ring(nx, x, xs[b])), "distance",
                    "lattice_distance_x(", a, ",", b, ") is ", l.lattice_distance_x(I(a), I(b)));
            c.check(l.lattice_distance_y(I(a), I(b)) == I(ring(ny, y, ys[b])), "distance",
                    "lattice_distance_y(", a, ",", b, ") is ", l.lattice_distance_y(I(a), I(b)));
            if(a != b) {
                const bool is = std::find(w.begin(), w.end(), I(b)) != w.end();
                c.check(l.neighboring(I(a), I(b)) == is, "neighboring", "neighboring(", a, ",", b,
                        ") is ", !is);
            }
        }
        vf::observe("pairs_of_sites", n);
    }
    c.check(bonds == want, "unique-neighbors", "unique_neighbors does not cover each bond once");
}

static void dispatch(vf::Case& c, unsigned x, unsigned y)
{
    switch(c.rng.below(4)) {
        case 0: return one<double, vf::u32>(c, x, y, "uint32");
        case 1: return one<vf::f32, vf::i32>(c, x, y, "int");
        default: return one<double, uint64_t>(c, x, y, "uint64");
    }
}
VF_GROUP(every_size, 144 * 2, 1)
{
    dispatch(c, 1 + unsigned(c.index) / 2 % 12, 1 + unsigned(c.index) / 2 / 12);
}
VF_GROUP(sampled_size, 24, 6)
{
    const unsigned x = unsigned(c.rng.range(1, 60));
    dispatch(c, x, unsigned(c.rng.range(1, (vf::st().thorough ? 1500 : 600) / x)));
}

// large lattices: the same relations in closed form on sampled pairs
template <typename F, typename I>
static void large(vf::Case& c, double bits, const char* name)
{
    using L = ieompp::lattices::PeriodicSquareLattice<F, I>;
    auto& r = c.rng;
    const double first = r.real(1., bits - 2.);
    const uint64_t nx = uint64_t(std::pow(2., first)), ny = uint64_t(std::pow(2., r.real(1., bits - first)));
    const L l = vf::passed(r, r.coin() ? L(I(nx), I(ny)) : L(I(nx), I(ny), F(0.5), F(2)));
    const uint64_t n = nx * ny;
    c.describe(vf::cat("large ", nx, "x", ny, " lattice, ", name));
    c.check(uint64_t(l.size()) == n && uint64_t(l.size_x()) == nx && uint64_t(l.size_y()) == ny, "size", "sizes are ", l.size(),
            " = ", l.size_x(), "x", l.size_y());
    c.check(l.first() == I(0) && uint64_t(l.last()) == n - 1, "first-last", "first/last are ", l.first(), ",", l.last());
    auto along = [&](uint64_t m) {
        const uint64_t near = std::min<uint64_t>(m - 1, r.below(3)), k = r.below(4);
        return k == 0 ? near : k == 1 ? m - 1 - near : k == 2 ? std::min(m - 1, m / 2 + near) : r.below(m);
    };
    // sites are numbered consistently with index(); which axis runs faster is the lattice's choice
    auto at = [&](uint64_t x, uint64_t y) { return l.index(I(x), I(y)); };
    for(int q = 0; q < 50; ++q) {
        const uint64_t x = along(nx), y = along(ny);
        uint64_t u = along(nx), v = along(ny);
        switch(r.below(6)) {
            case 0: u = x, v = (y + 1) % ny; break;
            case 1: u = x, v = (y + ny - 1) % ny; break;
            case 2: u = (x + 1) % nx, v = y; break;
            case 3: u = (x + nx - 1) % nx, v = y; break;
        }
        const I a = at(x, y), b = at(u, v);
        c.check(a >= I(0) && uint64_t(a) < n, "index", "index(", x, ",", y, ") = ", a, " is no site");
        c.check(uint64_t(l.x_index(a)) == x && uint64_t(l.y_index(a)) == y, "index-inverse", "site ", a, " = (", x, ",", y,
                ") has coordinates (", l.x_index(a), ",", l.y_index(a), ")");
        std::array<I, 4> w{{at((x + nx - 1) % nx, y), at(x, (y + ny - 1) % ny), at((x + 1) % nx, y), at(x, (y + 1) % ny)}};
        std::array<I, 4> nb = l.neighbors(a);
        std::sort(w.begin(), w.end());
        std::sort(nb.begin(), nb.end());
        c.check(w == nb, "neighbors", "neighbours of site ", a, " = (", x, ",", y, ") are ", nb[0], " ", nb[1], " ", nb[2], " ", nb[3]);
        auto un = l.unique_neighbors(a);
        for(auto s : un) {
            c.check(std::find(w.begin(), w.end(), s) != w.end(), "unique-neighbors", "unique neighbour ", s, " of ", a);
        }
        const uint64_t dx = x < u ? u - x : x - u, dy = y < v ? v - y : y - v;
        const uint64_t ex = std::min(dx, nx - dx), ey = std::min(dy, ny - dy);
        c.check(uint64_t(l.lattice_distance_x(a, b)) == ex, "distance", "lattice_distance_x(", a, ",", b, ") is ",
                l.lattice_distance_x(a, b), " instead of ", ex);
        c.check(uint64_t(l.lattice_distance_y(a, b)) == ey, "distance", "lattice_distance_y(", a, ",", b, ") is ",
                l.lattice_distance_y(a, b), " instead of ", ey);
        if(a != b) {
            c.check(l.neighboring(a, b) == (ex + ey == 1), "neighboring", "neighboring(", a, ",", b, ")");
        }
    }
    vf::observe("pairs_on_large_lattices", 50);
}
VF_GROUP(large_lattice, 200, 20)
{
    switch(c.rng.below(3)) {
        case 0: return large<double, vf::u32>(c, 29., "uint32");
        case 1: return large<vf::f32, vf::i32>(c, 28., "int");
        default: return large<double, uint64_t>(c, 50., "uint64");
    }
}
VF_REQUIRE(lattices, 250)
VF_REQUIRE(pairs_on_large_lattices, 4000)
VF_REQUIRE(pairs_of_sites, 500000)
VF_MAIN
