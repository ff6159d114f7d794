// vf:rule=one case per chain (length, spacing kind, index type); distinct by that description, all pairs of sites checked per case; non-trivial from two sites on
// vf:assume=chain lengths up to 48 plus sampled lengths up to 400 (1500 in the thorough tier) (every pair of sites) and sampled pairs of sites on chains of up to 2^50 sites represent all lengths
#include "vf.hpp"
#include <algorithm>
#include <queue>
#include <ieompp/lattices/periodic_chain.hpp>

// distances on the ring by breadth-first search over the bonds {i, i+1 mod N}
static std::vector<unsigned> bfs(unsigned n, unsigned start)
{
    std::vector<unsigned> d(n, ~0u);
    std::queue<unsigned> q;
    d[start] = 0;
    q.push(start);
    while(!q.empty()) {
        const unsigned x = q.front();
        q.pop();
        for(unsigned y : {x + 1 == n ? 0 : x + 1, x == 0 ? n - 1 : x - 1}) {
            if(d[y] == ~0u) {
                d[y] = d[x] + 1;
                q.push(y);
            }
        }
    }
    return d;
}

template <typename Chain>
static void iterate(vf::Case& c, Chain& l, unsigned n, const char* what)
{
    using I     = typename Chain::SiteIndex;
    unsigned at = 0;
    for(auto i : l) {
        c.check(uint64_t(i) == at, "iteration", what, ": element ", at, " is ", i);
        ++at;
        c.check(at <= n, "iteration", what, ": iteration goes on past the last site");
    }
    c.check(at == n, "iteration", what, ": iteration ends after ", at, " of ", n);
    c.check(uint64_t(l.end() - l.begin()) == n, "iteration", what, ": end()-begin() is not the size");
    std::vector<I> seen(l.begin(), l.end());
    c.check(seen.size() == n, "iteration", what, ": range has ", seen.size(), " elements");
}

template <typename F, typename I>
static void one(vf::Case& c, unsigned n, const char* name)
{
    using L      = ieompp::lattices::PeriodicChain<F, I>;
    const bool k = c.rng.coin();
    const F dx   = F(c.rng.real(0.01, 5.));
    c.describe(vf::cat("chain of ", n, " sites, ", name, k ? ", momentum space" : ", real space"), n > 1);
    const L lattice = vf::passed(c.rng, k ? L(I(n)) : L(I(n), dx));
    L mut(lattice);
    vf::observe("chains");
    c.check(lattice.size() == I(n), "size", "size is ", lattice.size());
    c.check(lattice.first() == I(0), "first", "first is ", lattice.first());
    c.check(lattice.last() == I(n - 1), "last", "last is ", lattice.last());
    c.check(L::coordination_number + 0 == 2, "coordination", "coordination number");
    iterate(c, lattice, n, "const chain");
    iterate(c, mut, n, "chain");
    {
        unsigned at = 0;
        for(auto it = lattice.cbegin(); it != lattice.cend() && at <= n; ++it) {
            c.check(uint64_t(*it) == at++, "iteration", "cbegin/cend element");
        }
        c.check(at == n, "iteration", "cbegin/cend visit ", at);
        at      = n;
        auto it = lattice.end();
        while(at > 0) {
            --it;
            --at;
            c.check(uint64_t(*it) == at, "iteration", "backwards element ", at, " is ", *it);
        }
        c.check(it == lattice.begin(), "iteration", "backwards iteration does not reach begin()");
    }
    std::multiset<std::pair<I, I>> bonds, want;
    for(unsigned a = 0; a < n; ++a) {
        const I left = I(a ? a - 1 : n - 1), right = I(a + 1 == n ? 0 : a + 1);
        auto nb = lattice.neighbors(I(a));
        std::sort(nb.begin(), nb.end());
        c.check(nb.size() == 2 && nb[0] == std::min(left, right) && nb[1] == std::max(left, right),
                "neighbors", "neighbours of ", a, " are ", nb[0], ",", nb[1]);
        auto un = lattice.unique_neighbors(I(a));
        c.check(un.size() == 1, "unique-neighbors", "unique_neighbors has ", un.size(), " entries");
        bonds.insert({std::min(I(a), un[0]), std::max(I(a), un[0])});
        want.insert({std::min(I(a), right), std::max(I(a), right)});
        const auto d = bfs(n, a);
        for(unsigned b = 0; b < n; ++b) {
            c.check(lattice.lattice_distance(I(a), I(b)) == I(d[b]), "distance",
                    "lattice_distance(", a, ",", b, ") is ", lattice.lattice_distance(I(a), I(b)),
                    " instead of ", d[b]);
            if(a != b) {
                c.check(lattice.neighboring(I(a), I(b)) == (d[b] == 1), "neighboring",
                        "neighboring(", a, ",", b, ") is ", lattice.neighboring(I(a), I(b)));
            }
        }
        vf::observe("pairs_of_sites", n);
    }
    c.check(bonds == want, "unique-neighbors", "unique_neighbors does not list each bond once");
}

static void dispatch(vf::Case& c, unsigned n)
{
    switch(c.index % 4) {
        case 0: return one<double, uint64_t>(c, n, "uint64");
        case 1: return one<double, vf::u32>(c, n, "uint32");
        case 2: return one<vf::f32, vf::i32>(c, n, "int");
        default: return one<vf::f80, vf::i64>(c, n, "int64");
    }
}
VF_GROUP(every_length, 48 * 4, 1) { dispatch(c, 1 + unsigned(c.index) / 4); }
VF_GROUP(sampled_length, 40, 4)
{
    dispatch(c, unsigned(c.rng.range(49, vf::st().thorough ? 1500 : 400)));
}

// long chains: no exhaustive search, the ring distance in closed form on sampled pairs
template <typename F, typename I>
static void large(vf::Case& c, uint64_t limit, const char* name)
{
    using L = ieompp::lattices::PeriodicChain<F, I>;
    auto& r = c.rng;
    uint64_t n = uint64_t(std::pow(2., r.real(9., std::log2(double(limit)))));
    if(r.chance(0.3)) { // around powers of two
        n = (uint64_t(1) << r.below(uint64_t(std::log2(double(limit))))) + r.below(3) + 2;
    }
    n       = std::min(n, limit);
    const L l = vf::passed(r, r.coin() ? L(I(n)) : L(I(n), F(0.5)));
    c.describe(vf::cat("long chain of ", n, " sites, ", name));
    c.check(uint64_t(l.size()) == n && l.first() == I(0) && uint64_t(l.last()) == n - 1, "size", "size/first/last are ", l.size(),
            ",", l.first(), ",", l.last());
    c.check(uint64_t(l.end() - l.begin()) == n, "iteration", "end()-begin() is ", l.end() - l.begin());
    auto site = [&] {
        const uint64_t k = r.below(4);
        const uint64_t near = std::min<uint64_t>(n - 1, r.below(5));
        return k == 0 ? near : k == 1 ? n - 1 - near : k == 2 ? std::min(n - 1, n / 2 + near) : r.below(n);
    };
    for(int q = 0; q < 60; ++q) {
        const uint64_t a = site();
        uint64_t b       = site();
        if(r.chance(0.3)) {
            b = r.coin() ? (a + 1) % n : (a + n - 1) % n;
        }
        const uint64_t left = a ? a - 1 : n - 1, right = a + 1 == n ? 0 : a + 1, d = a < b ? b - a : a - b;
        auto nb = l.neighbors(I(a));
        std::sort(nb.begin(), nb.end());
        c.check(uint64_t(nb[0]) == std::min(left, right) && uint64_t(nb[1]) == std::max(left, right), "neighbors",
                "neighbours of ", a, " are ", nb[0], ",", nb[1]);
        const uint64_t un = uint64_t(l.unique_neighbors(I(a))[0]);
        const uint64_t other = uint64_t(l.unique_neighbors(I(left))[0]), third = uint64_t(l.unique_neighbors(I(right))[0]);
        c.check(un == right ? (n == 2 || (other == a && third != a)) : (un == left && third == a && other != a),
                "unique-neighbors", "unique neighbours of ", left, ",", a, ",", right, " are ", other, ",", un, ",", third);
        c.check(uint64_t(l.lattice_distance(I(a), I(b))) == std::min(d, n - d), "distance", "lattice_distance(", a, ",", b,
                ") is ", l.lattice_distance(I(a), I(b)), " instead of ", std::min(d, n - d));
        if(a != b) {
            c.check(l.neighboring(I(a), I(b)) == (std::min(d, n - d) == 1), "neighboring", "neighboring(", a, ",", b, ")");
        }
    }
    vf::observe("pairs_in_long_chains", 60);
}
VF_GROUP(long_chain, 240, 20)
{
    switch(c.index % 4) {
        case 0: return large<double, uint64_t>(c, uint64_t(1) << 50, "uint64");
        case 1: return large<double, vf::u32>(c, uint64_t(1) << 29, "uint32");
        case 2: return large<vf::f32, vf::i32>(c, uint64_t(1) << 28, "int");
        default: return large<vf::f80, vf::i64>(c, uint64_t(1) << 50, "int64");
    }
}
VF_REQUIRE(chains, 200)
VF_REQUIRE(pairs_in_long_chains, 5000)
VF_REQUIRE(pairs_of_sites, 100000)
VF_MAIN
