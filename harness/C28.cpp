// vf:rule=harness: one case per lattice, hopping, initial vector, step size and number of steps, distinct by these, non-trivial above one site; program: one case per line of theory.txt and thread count
// vf:assume=rings of up to 160 and tori of up to 8x8 sites represent all
#include "vf.hpp"
#include <blaze/Math.h>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/constants.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard/dispersion.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/blaze_sparse.hpp>
#include <ieompp/models/hubbard_real_space/expectation_value.hpp>
#include <ieompp/models/hubbard_real_space/liouvillian.hpp>
#include <ieompp/models/hubbard_real_space/site_occupation.hpp>
#include <ieompp/ode/rk4.hpp>
#include <ieompp/types/blaze.hpp>
namespace rs = ieompp::models::hubbard_real_space;
using Op     = ieompp::algebra::Operator<uint64_t, bool>;
using M      = ieompp::algebra::Monomial<Op>;
using B1     = rs::Basis1Operator<M>;
using Chain  = ieompp::lattices::PeriodicChain<double, uint64_t>;
using Square = ieompp::lattices::PeriodicSquareLattice<double, uint64_t>;
using cd     = std::complex<double>;
using cl     = std::complex<long double>;
static const long double PI = 3.14159265358979323846264338327950288L;

// e^{i t eps_k} on an n1 x n2 torus, eps_k = -2J (cos k1 + cos k2) (second term only if n2 > 0)
struct Free {
    unsigned n1, n2;
    bool two;
    long double J;
    long double eps(unsigned a, unsigned b) const
    {
        return -2 * J * (std::cos(2 * PI * a / n1) + (two ? std::cos(2 * PI * b / n2) : 0.L));
    }
    std::vector<cl> transform(const std::vector<cl>& v, int sign) const
    {
        // along each direction separately
        std::vector<cl> w(v.size()), z(v.size());
        for(unsigned x = 0; x < n1; ++x) {
            for(unsigned q = 0; q < n2; ++q) {
                cl s = 0;
                for(unsigned y = 0; y < n2; ++y) {
                    s += v[x * n2 + y] * std::polar(1.L, sign * 2 * PI * ((uint64_t(q) * y) % n2) / n2);
                }
                w[x * n2 + q] = s;
            }
        }
        for(unsigned q = 0; q < n1; ++q) {
            for(unsigned y = 0; y < n2; ++y) {
                cl s = 0;
                for(unsigned x = 0; x < n1; ++x) {
                    s += w[x * n2 + y] * std::polar(1.L, sign * 2 * PI * ((uint64_t(q) * x) % n1) / n1);
                }
                z[q * n2 + y] = s;
            }
        }
        return z;
    }
    std::vector<cl> evolve(const std::vector<cl>& v, long double t) const
    {
        auto f = transform(v, 1);
        for(unsigned a = 0; a < n1; ++a) {
            for(unsigned b = 0; b < n2; ++b) {
                f[a * n2 + b] *= std::polar(1.L, t * eps(a, b)) / cl(n1 * n2);
            }
        }
        return transform(f, -1);
    }
};

static long double norm(const std::vector<cl>& v)
{
    long double s = 0;
    for(auto& x : v) {
        s += std::norm(x);
    }
    return std::sqrt(s);
}

template <typename Lattice>
static void evolve(vf::Case& c, const Lattice& lattice, const Free& free, const std::string& name)
{
    auto& r = c.rng;
    const B1 basis(lattice);
    const auto n = basis.size();
    blaze::CompressedMatrix<cd, blaze::rowMajor> m(n, n);
    rs::init_kinetic_matrix(rs::make_liouvillian(double(free.J), r.coin() ? 0. : r.real(-3, 3)), m, basis,
                            lattice);
    m *= cd(0, 1);
    const double lambda = 2 * std::abs(double(free.J)) * (free.two ? 2 : 1);
    const double h      = (r.chance(0.2) ? -1 : 1) * r.real(0.002, 0.06) / std::max(lambda, 0.5);
    const unsigned steps = unsigned(r.range(1, vf::st().thorough ? 400 : 120));
    const bool unit      = r.coin();
    blaze::DynamicVector<cd> v(n);
    std::vector<cl> u(n);
    for(uint64_t i = 0; i < n; ++i) {
        v[i] = unit ? cd(i == 0) : cd(r.real(-1, 1), r.real(-1, 1));
        u[i] = cl(v[i].real(), v[i].imag());
    }
    c.describe(vf::cat(name, " J=", double(free.J), " h=", h, " steps=", steps, unit ? " unit" : " random",
                       " vector"), n > 1);
    const long double start = norm(u);
    const ieompp::ode::RK4<double> rk(n, h);
    // error of one step: remainder of the exponential series, |P| <= 1 + remainder
    const long double x = std::abs(h) * lambda;
    const long double rem = x * x * x * x * x / 120 * std::exp(x);
    for(unsigned s = 1; s <= steps; ++s) {
        rk.step(m, v);
        vf::observe("steps");
        if(s != steps && !r.chance(0.05)) {
            continue;
        }
        const auto want = free.evolve(u, (long double) h * s);
        const long double tol = start * (s * rem * std::pow(1 + rem, s) + 1e-13 * (s + 10));
        long double dev = 0, now = 0;
        for(uint64_t i = 0; i < n; ++i) {
            const cl z(v[i].real(), v[i].imag());
            dev += std::norm(z - want[i]);
            now += std::norm(z);
        }
        c.check(std::sqrt(dev) <= tol, "propagator", "after ", s, " steps the vector is ",
                double(std::sqrt(dev)), " away from the free-fermion solution (allowed ", double(tol), ")");
        // |P(ix)|^2 = 1 - x^6/72 + x^8/576
        const long double loss = s * x * x * x * x * x * x / 72 + 1e-13 * (s + 10);
        c.check(std::abs(std::sqrt(now) - start) <= start * loss, "norm", "after ", s,
                " steps the norm changed by ", double(std::sqrt(now) - start), " from ", double(start));
        vf::observe("comparisons");
    }
}

VF_GROUP(ring, 260, 6)
{
    const unsigned n = unsigned(c.rng.chance(0.1) ? c.rng.range(60, 160) : c.rng.range(1, 30));
    const double dx  = c.rng.coin() ? 1. : c.rng.real(0.3, 3);
    const double J   = c.rng.chance(0.05) ? 0. : c.rng.real(-2, 2);
    evolve(c, Chain{uint64_t(n), dx}, Free{n, 1, false, J}, vf::cat("ring ", n));
}
VF_GROUP(torus, 160, 6)
{
    const unsigned nx = unsigned(c.rng.range(1, 8)), ny = unsigned(c.rng.range(1, 8));
    const double J    = c.rng.real(-2, 2);
    evolve(c, Square{uint64_t(nx), uint64_t(ny), 1., 1.}, Free{nx, ny, true, J},
           vf::cat("torus ", nx, "x", ny));
}

// the ring's site occupation follows the infinite chain as long as nothing went around it
VF_GROUP(occupation, 60, 6)
{
    auto& r          = c.rng;
    const uint64_t n = r.range(40, 90);
    const double J   = r.real(0.4, 1.6);
    const Chain lattice{n, 1.};
    const B1 basis(lattice);
    const auto conj = basis.get_conjugate();
    const rs::ExpectationValue1DHalfFilled<double, Chain> ev(lattice, 0.5, ieompp::HalfPi<double>::value);
    const rs::SiteOccupation<double, B1> occ{
        [&ev](const Op& a, const Op& b) { return ev(a.index1, b.index1); }, std::cref(basis),
        std::cref(conj)};
    blaze::CompressedMatrix<cd, blaze::rowMajor> m(n, n);
    rs::init_kinetic_matrix(rs::make_liouvillian(J, 0.), m, basis, lattice);
    m *= cd(0, 1);
    blaze::DynamicVector<cd> v(n);
    v.reset();
    v[0] = 1.;
    const double h = 0.01 / J, t_max = double(n) / (16 * J);
    const unsigned steps = unsigned(t_max / h);
    c.describe(vf::cat("occupation on ring ", n, " J=", J), true);
    const ieompp::ode::RK4<double> rk(n, h);
    c.near(occ(v), 0.5, 1e-12, "start", "occupation at t=0");
    for(unsigned s = 1; s <= steps; ++s) {
        rk.step(m, v);
        if(s % 97 && s != steps) {
            continue;
        }
        const double t = s * h;
        // n(t) = sum_ij <..> h_i conj(h_j) over the infinite chain, |i| <= reach
        const int reach = int(n / 2) - 1;
        std::vector<cd> f(2 * reach + 1);
        for(int i = -reach; i <= reach; ++i) {
            static const cd p[4] = {1., cd(0, -1), -1., cd(0, 1)};
            f[i + reach] = p[std::abs(i) % 4] * ::jn(std::abs(i), 2 * J * t);
            // (-i)^|i| J_|i|(2Jt); the hopping -J turns i^|i| into (-i)^|i|
        }
        long double want = 0;
        for(int i = -reach; i <= reach; ++i) {
            for(int j = -reach; j <= reach; ++j) {
                const int d = std::min<int>(std::abs(i - j), int(n) - std::abs(i - j));
                const double g = d == 0 ? 0.5 : std::sin(M_PI / 2 * d) / (M_PI * d);
                want += g * (f[i + reach] * std::conj(f[j + reach])).real();
            }
        }
        c.near(occ(v), double(want), 1e-7, "occupation", "occupation at t=", t);
        vf::observe("occupations");
    }
}
VF_REQUIRE(comparisons, 400)
VF_REQUIRE(occupations, 60)
VF_MAIN
