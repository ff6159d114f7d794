// vf:rule=one case per square lattice and batch of positions; distinct by lattice (edges, spacings, precision) and batch, every case non-trivial
// vf:assume=positions within 131000 periods (60 in single precision) of the lattice represent all finite positions
#include "vf.hpp"
#include <blaze/Math.h>
#include <ieompp/lattices/periodic_square_lattice.hpp>
using ld = long double;

struct Axis {
    unsigned n;
    ld x0, period, step;
    ld pos(unsigned i) const { return x0 + step * i; }
    ld dist(ld v, unsigned i) const { return std::abs(std::remainder(v - pos(i), period)); }
    ld best(ld v) const
    {
        ld b = period;
        for(unsigned i = 0; i < n; ++i) {
            b = std::min(b, dist(v, i));
        }
        return b;
    }
};
static Axis axis(vf::Rng& r, bool k, double& d)
{
    Axis a;
    a.n = unsigned(r.chance(0.2) ? r.range(1, 3) : r.range(1, 24));
    d   = r.chance(0.4) ? r.one_of({1., 0.5, 0.1, 2., 0.25, 1. / 3, 0.7}) : std::exp(r.real(-4., 4.));
    a.x0     = k ? -acosl(-1.L) : 0.L;
    a.period = k ? 2 * acosl(-1.L) : ld(d) * a.n;
    a.step   = a.period / a.n;
    return a;
}

template <typename F, typename I>
static void one(vf::Case& c, const char* name)
{
    using L      = ieompp::lattices::PeriodicSquareLattice<F, I>;
    using V      = typename L::Vector;
    auto& r      = c.rng;
    const F eps  = std::numeric_limits<F>::epsilon();
    const bool k = r.coin();
    double dx, dy;
    Axis X = axis(r, k, dx), Y = axis(r, k, dy);
    if(!k) { // what the lattice is given
        dx = double(F(dx));
        dy = double(F(dy));
        X.period = ld(dx) * X.n, X.step = dx, Y.period = ld(dy) * Y.n, Y.step = dy;
    }
    const L l = vf::passed(r, k ? L(I(X.n), I(Y.n)) : L(I(X.n), I(Y.n), F(dx), F(dy)));
    c.describe(vf::cat(name, k ? " momentum " : " real ", X.n, "x", Y.n, " dx ", dx, " dy ", dy, " batch ", c.index));
    c.near(ld(l.x_min()), X.x0, 4 * eps, "grid", "x_min");
    c.near(ld(l.y_min()), Y.x0, 4 * eps, "grid", "y_min");
    c.near(ld(l.x_length()), X.period, 4 * eps * X.period, "grid", "x_length");
    c.near(ld(l.y_length()), Y.period, 4 * eps * Y.period, "grid", "y_length");
    c.near(ld(l.dx()), X.step, 4 * eps * X.step, "grid", "dx");
    c.near(ld(l.dy()), Y.step, 4 * eps * Y.step, "grid", "dy");
    c.near(ld(l.x_max()), k ? -X.x0 : X.step * (X.n - 1), 4 * eps * (1 + X.period), "grid", "x_max");
    c.near(ld(l.y_max()), k ? -Y.x0 : Y.step * (Y.n - 1), 4 * eps * (1 + Y.period), "grid", "y_max");
    c.check(l.lattice_vectors().size() == 2, "grid", "number of lattice vectors");
    c.near(ld(l.lattice_vectors()[0][0]), X.step, 4 * eps * X.step, "grid", "lattice vector 1");
    c.near(ld(l.lattice_vectors()[0][1]), 0.L, 0, "grid", "lattice vector 1, y");
    c.near(ld(l.lattice_vectors()[1][0]), 0.L, 0, "grid", "lattice vector 2, x");
    c.near(ld(l.lattice_vectors()[1][1]), Y.step, 4 * eps * Y.step, "grid", "lattice vector 2");
    for(int q = 0; q < 40; ++q) {
        const int far    = sizeof(F) < 8 ? (r.chance(0.3) ? 60 : 7) : r.chance(0.02) ? 131000 : r.chance(0.2) ? 2999 : 38;
        const unsigned x = unsigned(r.below(X.n)), y = unsigned(r.below(Y.n));
        const I i   = l.index(I(x), I(y));
        const V pos = l[i];
        const ld sx = X.period + std::abs(X.x0), sy = Y.period + std::abs(Y.x0);
        c.near(ld(pos[0]), X.pos(x), 8 * eps * sx, "position", "x of site ", i);
        c.near(ld(pos[1]), Y.pos(y), 8 * eps * sy, "position", "y of site ", i);
        const ld m1 = r.chance(0.3) ? 0 : r.range(-1, 1) + (r.coin() ? r.range(-far, far) : 0),
                 m2 = r.chance(0.3) ? 0 : r.range(-1, 1) + (r.coin() ? r.range(-far, far) : 0);
        const ld w1 = (std::abs(m1) + 3) * (std::abs(m1) + 3), w2 = (std::abs(m2) + 3) * (std::abs(m2) + 3);
        const ld t1 = 8 * eps * w1 * sx, t2 = 8 * eps * w2 * sy;
        if(t1 < 0.3L * X.step && t2 < 0.3L * Y.step) {
            F a = F(pos[0] + F(m1 * X.period)), b = F(pos[1] + F(m2 * Y.period));
            const int u = int(r.range(-2, 2)), w = int(r.range(-2, 2));
            for(int s = 0; s < std::abs(u); ++s) {
                a = std::nextafter(a, u < 0 ? F(-1e30) : F(1e30));
            }
            for(int s = 0; s < std::abs(w); ++s) {
                b = std::nextafter(b, w < 0 ? F(-1e30) : F(1e30));
            }
            const I got = l(V{a, b});
            c.check(got == i, "lookup", "operator()(", ld(a), ",", ld(b), ") is ", got,
                    " instead of site ", i, " = (", x, ",", y, ")");
            const I cl = l.closest(V{a, b});
            c.check(cl == i, "closest", "closest(", ld(a), ",", ld(b), ") is ", cl, " instead of ", i);
            vf::observe("grid_lookups");
        }
        auto where = [&](const Axis& A, unsigned s, ld m) {
            ld z;
            switch(r.below(5)) {
                case 0: z = A.x0 + A.period * r.unit(); break;
                case 1: z = A.x0 + (r.coin() ? 0 : A.period) + A.step * r.real(-1, 1); break;
                case 2: z = A.x0 + A.step * (s + 0.5L + r.real(-1e-3, 1e-3)); break;
                case 3: z = A.x0 + A.period - A.step * (0.5L + (r.coin() ? 1e-6L : -1e-6L)); break;
                default: z = A.x0 + A.step * (s + r.real(-1, 1) * 1e-7L); break;
            }
            return F(z + m * A.period);
        };
        const F a = where(X, x, m1), b = where(Y, y, m2);
        const I s = l(V{a, b}), t = l.closest(V{a, b});
        const ld bx = X.best(a), by = Y.best(b);
        c.check(s >= I(0) && s < l.size(), "lookup-valid", "operator()(", ld(a), ",", ld(b), ") is ", s);
        c.check(t >= I(0) && t < l.size(), "closest-valid", "closest(", ld(a), ",", ld(b), ") is ", t);
        const ld ax = X.dist(a, unsigned(l.x_index(s))), ay = Y.dist(b, unsigned(l.y_index(s)));
        c.check(ax <= bx + t1 && ay <= by + t2, "lookup-nearest", "operator()(", ld(a), ",", ld(b),
                ") is site ", s, " at distance (", ax, ",", ay, "), nearest is at (", bx, ",", by, ")");
        // closest() compares the sum of the squares, in the precision of F
        const ld cx = X.dist(a, unsigned(l.x_index(t))), cy = Y.dist(b, unsigned(l.y_index(t)));
        const ld d2 = cx * cx + cy * cy, b2 = bx * bx + by * by;
        c.check(d2 <= b2 + 8 * eps * b2 + 2 * (t1 * X.step + t2 * Y.step) + t1 * t1 + t2 * t2
                         + 8 * eps * (sx * X.step + sy * Y.step),
                "closest-nearest", "closest(", ld(a), ",", ld(b), ") is site ", t, " at squared distance ",
                d2, ", nearest is at ", b2);
        vf::observe("position_lookups");
    }
}
// large lattices: lookup only, closest() walks through all sites
template <typename F, typename I>
static void large(vf::Case& c, double bits, const char* name)
{
    using L          = ieompp::lattices::PeriodicSquareLattice<F, I>;
    using V          = typename L::Vector;
    auto& r          = c.rng;
    const ld eps     = std::numeric_limits<F>::epsilon();
    const double b1  = r.real(std::max(1., bits - 31.), std::min(bits - 1., 31.)); // Axis::n has 32 bits
    const bool k     = r.coin();
    Axis A[2];
    const F d[2] = {F(std::pow(2., double(r.range(-3, 3)))), F(std::pow(2., double(r.range(-3, 3))))};
    for(int s = 0; s < 2; ++s) {
        A[s].n      = unsigned(std::pow(2., s ? r.real(1., bits - b1) : b1));
        A[s].x0     = k ? -acosl(-1.L) : 0.L;
        A[s].period = k ? 2 * acosl(-1.L) : ld(d[s]) * A[s].n;
        A[s].step   = A[s].period / A[s].n;
    }
    const L l = vf::passed(r, k ? L(I(A[0].n), I(A[1].n)) : L(I(A[0].n), I(A[1].n), d[0], d[1]));
    c.describe(vf::cat(name, k ? " momentum" : " real", " large ", A[0].n, "x", A[1].n, " dx ", double(d[0]), " dy ", double(d[1])));
    for(int q = 0; q < 30; ++q) {
        uint64_t at[2];
        F v[2];
        bool fine = true;
        for(int s = 0; s < 2; ++s) {
            const uint64_t near = std::min<uint64_t>(A[s].n - 1, r.below(3));
            at[s]               = r.below(3) == 0 ? near : r.coin() ? A[s].n - 1 - near : r.below(A[s].n);
            const ld m          = r.range(-3, 3);
            const ld tol        = 4 * eps * (std::abs(m) + 2) * (std::abs(m) + 2) * (A[s].period + std::abs(A[s].x0));
            fine                = fine && tol <= 0.2L * A[s].step;
            v[s]                = F(A[s].pos(unsigned(at[s])) + m * A[s].period + r.real(-0.2, 0.2) * A[s].step);
        }
        if(!fine) {
            continue;
        }
        const I i   = l.index(I(at[0]), I(at[1]));
        const V pos = l[i];
        for(int s = 0; s < 2; ++s) {
            c.near(ld(pos[s]), A[s].pos(unsigned(at[s])), 8 * eps * (A[s].period + std::abs(A[s].x0)), "position", "position of site ", i);
        }
        const I got = l(V{v[0], v[1]});
        c.check(got == i, "lookup", "operator()(", ld(v[0]), ",", ld(v[1]), ") is ", got, " instead of site ", i, " = (", at[0],
                ",", at[1], ")");
        vf::observe("lookups_on_large_lattices");
    }
}
VF_GROUP(large_lattice, 90, 20)
{
    switch(c.index % 3) {
        case 0: return large<double, uint64_t>(c, 40., "double/uint64");
        case 1: return large<double, vf::u32>(c, 29., "double/uint32");
        default: return large<vf::f32, vf::u32>(c, 14., "float/uint32");
    }
}
VF_GROUP(double_precision, 350, 60) { one<double, uint64_t>(c, "double/uint64"); }
VF_GROUP(double_uint32, 150, 60) { one<double, vf::u32>(c, "double/uint32"); }
VF_GROUP(single_precision, 150, 60) { one<vf::f32, vf::u32>(c, "float/uint32"); }
VF_REQUIRE(lookups_on_large_lattices, 1000)
VF_REQUIRE(grid_lookups, 10000)
VF_REQUIRE(position_lookups, 15000)
VF_MAIN
