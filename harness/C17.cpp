// vf:rule=one case per (lattice, spacing, J, precision, number of threads); distinct by that description, all momenta checked per case; non-trivial when J is not zero
// vf:assume=lattices of at most 3000, some of up to 70000, sites represent larger ones
#include "vf.hpp"
#include <omp.h>
#include <blaze/Math.h>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard/dispersion.hpp>
namespace hub = ieompp::models::hubbard;
using ld      = long double;

template <typename F>
static F draw_j(vf::Rng& r)
{
    switch(r.below(7)) {
        case 5: return F((r.coin() ? 1 : -1) * std::pow(10., r.real(-28, 28)));
        case 0: return F(1);
        case 1: return F(0);
        case 2: return F(-1);
        case 3: return F(r.real(-1e4, 1e4));
        default: return F(r.real(-3, 3));
    }
}
static double draw_dx(vf::Rng& r)
{
    return r.chance(0.5) ? 1. : r.chance(0.5) ? r.one_of({0.5, 2., 0.1, 3.}) : r.real(0.05, 4.);
}

template <typename F, typename I>
static void chain(vf::Case& c, const char* name)
{
    using L          = ieompp::lattices::PeriodicChain<F, I>;
    auto& r          = c.rng;
    const unsigned n = unsigned(r.chance(0.01) ? r.range(60000, 70000) : r.chance(0.1) ? r.range(200, 3000) : r.range(1, 40));
    const F dx = F(draw_dx(r)), J = draw_j<F>(r), z = F(r.real(-3, 3));
    const int threads = int(r.range(1, 8));
    const bool real_k = r.chance(0.2); // momentum space given as an arbitrary grid
    c.describe(vf::cat(name, " chain N=", n, " dx=", double(dx), " J=", double(J), " threads=", threads,
                       real_k ? " grid" : ""), J != F(0));
    const L space = vf::passed(r, real_k ? L(I(n), F(0.37)) : L(I(n)));
    const L lat   = vf::passed(r, L(I(n), dx));
    omp_set_num_threads(threads);
    const auto d  = vf::passed(r, hub::make_dispersion(space, lat, J));
    const hub::Dispersion<F> d1(space, lat), dz(space, lat, z), dzj(space, lat, F(z * J));
    const auto dd = hub::make_dispersion(space, lat);
    omp_set_num_threads(1);
    const auto ds = hub::make_dispersion(space, lat, J);
    const ld eps  = std::numeric_limits<F>::epsilon();
    for(unsigned i = 0; i < n; ++i) {
        const ld k    = ld(space.x_min()) + ld(i) * ld(space.dx());
        const ld want = -2.L * ld(J) * std::cos(k * ld(dx));
        const ld tol  = 8 * eps * std::abs(ld(J)) * (2 + 4 * std::abs(k * ld(dx)) + ld(dx) * ld(n) * ld(space.dx())) + 1e-300L;
        c.near(ld(d(i)), want, tol, "dispersion", "value at momentum ", i);
        c.check(d(i) == ds(i), "threads", "value at ", i, " depends on the number of threads");
        c.check(std::abs(ld(d(i))) <= 2 * std::abs(ld(J)) * (1 + 4 * eps), "bound", "value at ", i, " is ", ld(d(i)));
        c.near(ld(d(i)), ld(J) * ld(d1(i)), tol, "linear", "value at ", i, " is not J times the value for J=1");
        c.near(ld(dzj(i)), ld(J) * ld(dz(i)), tol * (1 + std::abs(ld(z))), "linear", "linearity at ", i);
        c.check(dd(i) == d1(i), "default", "default hopping is not 1 at ", i);
        if(!real_k && i > 0) {
            c.near(ld(d(i)), ld(d(n - i)), 2 * tol, "even", "values at k and -k, index ", i);
        }
        vf::observe("momenta");
    }
}

template <typename F, typename I>
static void square(vf::Case& c, const char* name)
{
    using L           = ieompp::lattices::PeriodicSquareLattice<F, I>;
    auto& r           = c.rng;
    const unsigned nx = unsigned(r.range(1, r.chance(0.02) ? 300 : 12)), ny = unsigned(r.range(1, r.chance(0.1) ? 60 : 12));
    const F dx = F(draw_dx(r)), dy = F(draw_dx(r)), J = draw_j<F>(r);
    const int threads = int(r.range(1, 8));
    c.describe(vf::cat(name, " square ", nx, "x", ny, " dx=", double(dx), " dy=", double(dy), " J=",
                       double(J), " threads=", threads), J != F(0));
    const L space = vf::passed(r, L(I(nx), I(ny))), lat = vf::passed(r, L(I(nx), I(ny), dx, dy));
    omp_set_num_threads(threads);
    const auto d = vf::passed(r, hub::make_dispersion(space, lat, J));
    const hub::Dispersion<F> d1(space, lat);
    omp_set_num_threads(1);
    const auto ds = hub::make_dispersion(space, lat, J);
    const ld eps  = std::numeric_limits<F>::epsilon();
    for(unsigned x = 0; x < nx; ++x) {
        for(unsigned y = 0; y < ny; ++y) {
            const I i     = space.index(I(x), I(y));
            const ld kx   = ld(space.x_min()) + ld(x) * ld(space.dx()),
                     ky   = ld(space.y_min()) + ld(y) * ld(space.dy());
            const ld want = -2.L * ld(J) * (std::cos(kx * ld(dx)) + std::cos(ky * ld(dy)));
            const ld tol  = 16 * eps * std::abs(ld(J)) * (4 + 8 * (ld(dx) + ld(dy)) * 4) + 1e-300L;
            c.near(ld(d(i)), want, tol, "dispersion", "value at momentum (", x, ",", y, ")");
            c.check(d(i) == ds(i), "threads", "value at ", i, " depends on the number of threads");
            c.check(std::abs(ld(d(i))) <= 4 * std::abs(ld(J)) * (1 + 4 * eps), "bound", "value at ", i, " is ", ld(d(i)));
            c.near(ld(d(i)), ld(J) * ld(d1(i)), tol, "linear", "value at ", i, " is not J times the value for J=1");
            if(x > 0 && y > 0) {
                const I m = space.index(I(nx - x), I(ny - y));
                c.near(ld(d(i)), ld(d(m)), 2 * tol, "even", "values at k and -k, index ", i);
            }
            vf::observe("momenta");
        }
    }
}
VF_GROUP(chain_double, 300, 60) { chain<double, uint64_t>(c, "double"); }
VF_GROUP(chain_float, 120, 60) { chain<vf::f32, vf::u32>(c, "float"); }
VF_GROUP(chain_long_double, 120, 60) { chain<vf::f80, vf::i32>(c, "long double"); }
VF_GROUP(square_double, 250, 60) { square<double, uint64_t>(c, "double"); }
VF_GROUP(square_float, 100, 60) { square<vf::f32, vf::u32>(c, "float"); }
VF_GROUP(fermi_momentum, 200, 50)
{
    const double n = c.rng.chance(0.2) ? c.rng.one_of({0., 0.5, 1.}) : c.rng.unit();
    c.describe(vf::cat("filling ", n), n > 0);
    c.near(hub::calculate_fermi_momentum_1d<double>(n), n * M_PI, 1e-15 * 4, "fermi-momentum", "double");
    c.near(hub::calculate_fermi_momentum_1d<vf::f32>(vf::f32(n)), vf::f32(n) * vf::f32(M_PI), vf::f32(1e-6), "fermi-momentum", "float");
    c.near(hub::calculate_fermi_momentum_1d<vf::f80>(vf::f80(n)), vf::f80(ld(n) * acosl(-1.L)), vf::f80(sizeof(vf::f80) > 8 ? 1e-18L : 1e-15L), "fermi-momentum", "long double");
}
VF_REQUIRE(momenta, 20000)
VF_MAIN
