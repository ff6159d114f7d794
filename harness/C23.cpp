// vf:rule=one case per (lattice, spacing, filling, k_F, number of threads); distinct by that description, all pairs of sites checked per case; non-trivial from two sites on
// vf:assume=chains of at most 120, some of up to 700, sites and square lattices of at most 225, some of up to 625, sites represent larger ones
#include "vf.hpp"
#include <omp.h>
#include <blaze/Math.h>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard_real_space/expectation_value.hpp>
namespace rs = ieompp::models::hubbard_real_space;

// (1/pi) * integral of cos(k d) over [0, kf], composite Gauss-Legendre
static double sea_1d(double kf, double d)
{
    static const double x[] = {-0.9061798459386640, -0.5384693101056831, 0., 0.5384693101056831, 0.9061798459386640};
    static const double w[] = {0.2369268850561891, 0.4786286704993665, 0.5688888888888889, 0.4786286704993665, 0.2369268850561891};
    const int pieces        = 8 + int(std::abs(kf * d));
    double sum              = 0;
    for(int p = 0; p < pieces; ++p) {
        const double a = kf * p / pieces, b = kf * (p + 1) / pieces;
        for(int i = 0; i < 5; ++i) {
            sum += w[i] * (b - a) / 2 * std::cos(((a + b) / 2 + x[i] * (b - a) / 2) * d);
        }
    }
    return sum / M_PI;
}

template <typename F, typename I>
static void chain(vf::Case& c, const char* name)
{
    using L          = ieompp::lattices::PeriodicChain<F, I>;
    auto& r          = c.rng;
    const unsigned n = unsigned(c.index % 120 == 11 && vf::st().scale > 0.2 ? r.range(400, 700) : r.chance(0.15) ? r.range(40, 120) : r.range(1, 24));
    const F dx       = r.chance(0.5) ? F(1) : F(r.real(0.1, 3.));
    const F filling  = r.chance(0.4) ? F(0.5) : r.chance(0.2) ? F(r.below(2)) : F(r.unit());
    const F kf       = r.chance(0.6) ? F(double(filling) * M_PI) : r.chance(0.3) ? F(r.real(3., 40.)) : F(r.real(0., 3.1));
    const int threads = int(r.range(1, 8));
    c.describe(vf::cat(name, " N=", n, " dx=", double(dx), " filling=", double(filling), " k_F=", double(kf),
                       " threads=", threads), n > 1);
    const L lat(I(n), dx);
    omp_set_num_threads(threads);
    const auto ev = vf::passed(r, rs::ExpectationValue1DHalfFilled<F, L>(lat, filling, kf));
    omp_set_num_threads(1);
    const rs::ExpectationValue1DHalfFilled<F, L> serial(lat, filling, kf);
    const double eps = double(std::numeric_limits<F>::epsilon());
    std::map<I, F> by_distance;
    std::vector<double> exact{double(filling)};
    for(unsigned d = 1; d <= n / 2; ++d) {
        exact.push_back(sea_1d(double(kf), double(dx) * d));
    }
    for(unsigned a = 0; a < n; ++a) {
        for(unsigned b = 0; b < n; ++b) {
            const unsigned d = std::min((a + n - b) % n, (b + n - a) % n);
            const F got      = ev(I(a), I(b));
            const double want = exact[d];
            c.near(double(got), want, 1e-12 + 16 * eps * (1 + double(kf) * d), "value", "<c+_", a, " c_", b, ">");
            c.check(got == ev(I(b), I(a)), "symmetry", "<c+_", a, " c_", b, "> is not symmetric");
            c.check(by_distance.emplace(I(d), got).first->second == got, "translation", "<c+_", a, " c_", b,
                    "> differs from that of another pair at the same distance");
            c.check(got == serial(I(a), I(b)), "threads", "<c+_", a, " c_", b, "> depends on the number of threads");
            c.check(ev.lattice_distance(I(a), I(b)) == I(d), "distance", "lattice_distance(", a, ",", b, ") is ",
                    ev.lattice_distance(I(a), I(b)));
            vf::observe("pairs");
        }
    }
}

static double sea_2d(unsigned x, unsigned y)
{
    // 1/(8 pi^2) * int du int dv cos(u (x+y)/2) cos(v (x-y)/2) over [-pi,pi]^2
    const double s = (double(x) + y) / 2, t = (double(x) - y) / 2;
    return 0.5 * sea_1d(M_PI, s) * sea_1d(M_PI, t);
}

template <typename F, typename I>
static void square(vf::Case& c, const char* name)
{
    using L           = ieompp::lattices::PeriodicSquareLattice<F, I>;
    auto& r           = c.rng;
    const unsigned most = c.index % 60 == 11 && vf::st().scale > 0.2 ? 25 : 15;
    const unsigned nx = unsigned(r.range(most > 15 ? 18 : 1, most)), ny = most > 15 || r.chance(0.3) ? nx : unsigned(r.range(1, most));
    const int threads = int(r.range(1, 8));
    const F dx = F(r.chance(0.5) ? 1. : r.real(0.1, 3.)), dy = F(r.chance(0.5) ? 1. : r.real(0.1, 3.));
    c.describe(vf::cat(name, " ", nx, "x", ny, " dx=", double(dx), " dy=", double(dy), " threads=", threads), nx * ny > 1);
    const L lat(I(nx), I(ny), dx, dy);
    omp_set_num_threads(threads);
    const auto ev = vf::passed(r, rs::ExpectationValue2DHalfFilled<F, L>(lat));
    omp_set_num_threads(1);
    const rs::ExpectationValue2DHalfFilled<F, L> serial(lat);
    const double eps = double(std::numeric_limits<F>::epsilon());
    std::map<std::pair<unsigned, unsigned>, double> table;
    for(I a = 0; a < I(nx * ny); ++a) {
        for(I b = 0; b < I(nx * ny); ++b) {
            const unsigned xa = unsigned(lat.x_index(a)), xb = unsigned(lat.x_index(b)), ya = unsigned(lat.y_index(a)),
                           yb = unsigned(lat.y_index(b));
            const unsigned x = std::min((xa + nx - xb) % nx, (xb + nx - xa) % nx),
                           y = std::min((ya + ny - yb) % ny, (yb + ny - ya) % ny);
            const F got = ev(a, b);
            auto it     = table.find({x, y});
            if(it == table.end()) {
                it = table.emplace(std::make_pair(x, y), sea_2d(x, y)).first;
            }
            c.near(double(got), it->second, 1e-12 + 16 * eps, "value", "<c+_", a, " c_", b, "> at distance (", x, ",", y, ")");
            c.check(got == ev(b, a), "symmetry", "<c+_", a, " c_", b, "> is not symmetric");
            c.check(got == serial(a, b), "threads", "<c+_", a, " c_", b, "> depends on the number of threads");
            vf::observe("pairs");
        }
    }
}
VF_GROUP(chain_double, 250, 40) { chain<double, uint64_t>(c, "double"); }
VF_GROUP(chain_float, 80, 40) { chain<vf::f32, vf::u32>(c, "float"); }
VF_GROUP(square_double, 60, 20) { square<double, uint64_t>(c, "double"); }
VF_GROUP(square_float, 20, 20) { square<vf::f32, vf::u32>(c, "float"); }
#ifndef VF_PLAIN
// the closed forms, to the precision of long double
using ld = long double;
VF_GROUP(extended_precision, 60, 20)
{
    auto& r  = c.rng;
    const ld pi = acosl(-1.L), eps = std::numeric_limits<ld>::epsilon();
    if(c.index % 2) {
        using L          = ieompp::lattices::PeriodicChain<ld, uint64_t>;
        const unsigned n = unsigned(r.range(1, 60));
        const ld dx = r.coin() ? 1.L : ld(r.real(0.1, 3.)) / 3, filling = r.coin() ? 0.5L : ld(r.unit()) / 3, kf = r.coin() ? filling * pi : ld(r.real(0., 9.)) / 3;
        c.describe(vf::cat("long double N=", n, " dx=", double(dx), " filling=", double(filling), " k_F=", double(kf)), n > 1);
        const L lat(n, dx);
        const rs::ExpectationValue1DHalfFilled<ld, L> ev(lat, filling, kf);
        for(unsigned a = 0; a < n; ++a) {
            for(unsigned b = 0; b < n; ++b) {
                const unsigned d = std::min((a + n - b) % n, (b + n - a) % n);
                const ld want = d ? sinl(kf * d * dx) / (pi * d * dx) : filling;
                c.check(fabsl(ev(a, b) - want) <= 16 * eps * (1 + kf * d * dx), "value-extended", "<c+_", a, " c_", b, "> is off by ", double(ev(a, b) - want));
                vf::observe("extended_pairs");
            }
        }
    } else {
        using L           = ieompp::lattices::PeriodicSquareLattice<ld, uint64_t>;
        const unsigned nx = unsigned(r.range(1, 9)), ny = unsigned(r.range(1, 9));
        c.describe(vf::cat("long double ", nx, "x", ny, " #", c.index), nx * ny > 1);
        const L lat(nx, ny, 1.L, 1.L);
        const rs::ExpectationValue2DHalfFilled<ld, L> ev(lat);
        for(uint64_t a = 0; a < lat.size(); ++a) {
            for(uint64_t b = 0; b < lat.size(); ++b) {
                const unsigned xa = unsigned(a / ny), xb = unsigned(b / ny), ya = unsigned(a % ny), yb = unsigned(b % ny);
                const int x = int(std::min((xa + nx - xb) % nx, (xb + nx - xa) % nx)), y = int(std::min((ya + ny - yb) % ny, (yb + ny - ya) % ny));
                auto f = [&](int s) { return s ? sinl(pi / 2 * s) / s : pi / 2; };
                const ld want = 2 / (pi * pi) * f(x + y) * f(x - y);
                c.check(fabsl(ev(a, b) - want) <= 32 * eps, "value-extended", "<c+_", a, " c_", b, "> is off by ", double(ev(a, b) - want));
                vf::observe("extended_pairs");
            }
        }
    }
}
VF_REQUIRE(extended_pairs, 10000)
#endif
VF_REQUIRE(pairs, 100000)
VF_MAIN
