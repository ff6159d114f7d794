// vf:rule=one case per chain and batch of positions; distinct by chain (length, spacing, precision) and positions, every case non-trivial
// vf:assume=positions within 131000 periods (60 in single precision) of the chain represent all finite positions
#include "vf.hpp"
#include <ieompp/lattices/periodic_chain.hpp>
using ld = long double;

template <typename F>
static long double periodic_distance(long double a, long double b, long double period)
{
    return std::abs(std::remainder(a - b, period));
}

template <typename F, typename I>
static void one(vf::Case& c, const char* name)
{
    using L     = ieompp::lattices::PeriodicChain<F, I>;
    auto& r     = c.rng;
    const F eps = std::numeric_limits<F>::epsilon();
    const unsigned n
        = r.chance(0.2) ? unsigned(r.range(1, 3)) : r.chance(0.2) ? unsigned(r.range(60, 1200)) : unsigned(r.range(1, 60));
    const bool k = r.coin();
    F dx         = F(std::exp(r.real(-5., 5.)));
    if(r.chance(0.4)) {
        dx = F(r.one_of({1., 0.5, 0.1, 2., 0.25, 1. / 3, 0.7}));
    }
    const L l = vf::passed(r, k ? L(I(n)) : L(I(n), dx));
    if(k) {
        dx = F(2 * acosl(-1.L) / n);
    }
    const long double x0 = k ? -acosl(-1.L) : 0.L, period = k ? 2 * acosl(-1.L) : (long double) (dx) *n,
                      step = k ? period / n : (long double) (dx);
    c.describe(vf::cat(name, k ? " momentum" : " real", " chain, ", n, " sites, dx ", double(dx),
                       " seed ", c.index));
    // description of the grid
    c.near((long double) (l.x_min()), x0, 4 * eps, "grid", "x_min");
    c.near((long double) (l.x_length()), period, 4 * eps * period, "grid", "x_length");
    c.near((long double) (l.dx()), step, 4 * eps * step, "grid", "dx");
    c.check(l.lattice_vectors().size() == 1, "grid", "number of lattice vectors");
    c.near((long double) (l.lattice_vectors()[0]), step, 4 * eps * step, "grid", "lattice vector");
    c.near((long double) (l.x_max()), k ? -x0 : step * (n - 1), 4 * eps * (period + 1), "grid", "x_max");
    for(int q = 0; q < 60; ++q) {
        const int far = sizeof(F) < 8 ? (r.chance(0.3) ? 60 : 7) : r.chance(0.03) ? 131000 : r.chance(0.2) ? 2999 : 38;
        const I i   = I(r.below(n));
        const F pos = l[i];
        c.near((long double) (pos), x0 + step * i, 8 * eps * (period + std::abs(x0)), "position",
               "position of site ", i);
        const long double m = r.chance(0.3) ? 0 : r.range(-1, 1) + (r.chance(0.5) ? r.range(-far, far) : 0);
        // rounding of the shift and of wrapping it back
        const long double tol = 4 * eps * (std::abs(m) + 2) * (std::abs(m) + 2) * (period + std::abs(x0));
        if(tol < 0.3L * step) {
            // exact grid positions, shifted and perturbed by rounding-size errors
            F v            = F(pos + F(m * period));
            const int ulps = int(r.range(-3, 3));
            for(int u = 0; u < std::abs(ulps); ++u) {
                v = std::nextafter(v, ulps < 0 ? F(-1e30) : F(1e30));
            }
            const I got = l(v);
            c.check(got == i, "lookup", "operator()(", (long double) v, ") is ", got,
                    " instead of site ", i, " (position ", (long double) pos, ", ", m, " periods, ", ulps,
                    " ulps)");
            const I cl = l.closest(v);
            c.check(cl == i, "closest", "closest(", (long double) v, ") is ", cl, " instead of ", i);
            vf::observe("grid_lookups");
        }
        // arbitrary positions, biased to the boundaries
        long double y;
        switch(r.below(5)) {
            case 0: y = x0 + period * r.unit(); break;
            case 1: y = x0 + (r.chance(0.5) ? 0 : period) + step * r.real(-1., 1.); break;
            case 2: y = x0 + step * ((long double) (i) + 0.5L + r.real(-1e-3, 1e-3)); break;
            case 3: y = x0 + period - step * (0.5L + (r.coin() ? 1e-6L : -1e-6L)); break;
            default: y = x0 + step * ((long double) (i) + r.real(-1, 1) * 1e-7L); break;
        }
        const F v = F(y + m * period);
        long double best = period;
        for(unsigned s = 0; s < n; ++s) {
            best = std::min(best, periodic_distance<F>(v, x0 + step * s, period));
        }
        const long double t2 = 8 * eps * (std::abs(m) + 3) * (std::abs(m) + 3) * (period + std::abs(x0));
        const I a = l(v), b = l.closest(v);
        c.check(a >= I(0) && a < I(n), "lookup-valid", "operator()(", (long double) v, ") is ", a,
                ", no site");
        c.check(b >= I(0) && b < I(n), "closest-valid", "closest(", (long double) v, ") is ", b, ", no site");
        const long double da = periodic_distance<F>(v, x0 + step * a, period),
                          db = periodic_distance<F>(v, x0 + step * b, period);
        c.check(da <= best + t2, "lookup-nearest", "operator()(", (long double) v, ") is site ", a,
                " at distance ", da, ", nearest is at ", best);
        // closest() compares squares
        c.check(db <= best + t2 + 4 * eps * (period + std::abs(x0)), "closest-nearest", "closest(",
                (long double) v, ") is site ", b, " at distance ", db, ", nearest is at ", best);
        vf::observe("position_lookups");
    }
}
// long chains: lookup only, closest() walks through all sites
template <typename F, typename I>
static void large(vf::Case& c, double bits, const char* name)
{
    using L           = ieompp::lattices::PeriodicChain<F, I>;
    auto& r           = c.rng;
    const ld eps      = std::numeric_limits<F>::epsilon();
    const uint64_t n  = uint64_t(std::pow(2., r.real(8., bits)));
    const bool k      = r.coin();
    const F dx        = F(std::pow(2., double(r.range(-4, 4))));
    const L l         = vf::passed(r, k ? L(I(n)) : L(I(n), dx));
    const ld x0 = k ? -acosl(-1.L) : 0.L, period = k ? 2 * acosl(-1.L) : ld(dx) * n, step = period / n;
    c.describe(vf::cat(name, k ? " momentum" : " real", " long chain, ", n, " sites, dx ", double(dx)));
    for(int q = 0; q < 40; ++q) {
        const uint64_t near = r.below(3), i = r.below(3) == 0 ? near : r.coin() ? n - 1 - near : r.below(n);
        const ld m          = r.range(-3, 3);
        const ld tol        = 4 * eps * (std::abs(m) + 2) * (std::abs(m) + 2) * (period + std::abs(x0));
        if(tol > 0.2L * step) {
            continue;
        }
        c.near(ld(l[I(i)]), x0 + step * i, 8 * eps * (period + std::abs(x0)), "position", "position of site ", i);
        const F v   = F(l[I(i)] + F(m * period + r.real(-0.2, 0.2) * step));
        const I got = l(v);
        c.check(uint64_t(got) == i, "lookup", "operator()(", ld(v), ") is ", got, " instead of site ", i);
        vf::observe("lookups_on_long_chains");
    }
}
VF_GROUP(long_chain, 120, 20)
{
    switch(c.index % 3) {
        case 0: return large<double, uint64_t>(c, 36., "double/uint64");
        case 1: return large<double, vf::u32>(c, 29., "double/uint32");
        default: return large<vf::f32, vf::i32>(c, 14., "float/int");
    }
}
VF_GROUP(double_precision, 500, 60) { one<double, uint64_t>(c, "double/uint64"); }
VF_GROUP(double_int, 200, 60) { one<double, vf::i32>(c, "double/int"); }
VF_GROUP(single_precision, 200, 60) { one<vf::f32, vf::u32>(c, "float/uint32"); }
VF_GROUP(extended_precision, 150, 60) { one<vf::f80, uint64_t>(c, "long double/uint64"); }
VF_REQUIRE(lookups_on_long_chains, 2000)
VF_REQUIRE(grid_lookups, 10000)
VF_REQUIRE(position_lookups, 20000)
VF_MAIN
