// vf:rule=one case per (chain or square lattice, q, sea, batch of coefficient vectors); distinct by that description; non-trivial when the sea is neither empty nor full
// vf:assume=chains of at most 8, some of up to 16, momenta, square lattices of as many and coefficients of modulus 1e-120 to 1e120 represent all of them
#include "sea.hpp"
#include <blaze/Math.h>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard/dispersion.hpp>
#include <ieompp/models/hubbard_momentum_space/particle_number.hpp>
namespace al = ieompp::algebra;
namespace mm = ieompp::models::hubbard_momentum_space;
using M      = al::Monomial<al::Operator<uint64_t, bool>>;
using B      = mm::Basis3Operator<M>;
using cd     = std::complex<double>;

template <typename V>
static V draw_vector(vf::Rng& r, std::size_t d, double scale, int kind)
{
    V v(d);
    for(std::size_t i = 0; i < d; ++i) {
        double a = r.real(-1, 1), b = r.real(-1, 1);
        if(kind == 1) { // widely different components
            const double w = std::pow(10., r.real(-8, 0));
            a *= w, b *= w;
        } else if(kind == 2 && r.chance(0.7)) {
            a = b = 0;
        } else if(kind == 3) {
            b = 0;
        }
        v[i] = cd(a, b) * scale;
    }
    vf::shape(r, v);
    return v;
}

template <typename V>
static void one(vf::Case& c, bool square = false)
{
    auto& r      = c.rng;
    const auto s = sea::draw(r, c.index % 60 == 9 && vf::st().scale > 0.2 ? 16 : 8, square);
    uint64_t f   = 0;
    for(bool b : s.filled) {
        f += b;
    }
    c.describe(s.text + vf::cat(" batch ", c.index), f > 0 && f < s.n);
    const B basis = square ? B(s.q, ieompp::lattices::PeriodicSquareLattice<double, uint64_t>(s.nx, s.ny))
                           : B(s.q, ieompp::lattices::PeriodicChain<double, uint64_t>(s.n));
    vf::observe("square_lattices", square);
    const B conj = basis.get_conjugate();
    const auto number = mm::make_particle_number(basis, conj, s.levels, s.fermi);
    const auto g      = sea::gram(s.nx, s.ny, s.q, s.filled);
    const std::size_t d = basis.size();
    for(int k = 0; k < 6; ++k) {
        const double scale = r.chance(0.6) ? 1. : std::pow(10., r.real(-120, 120));
        const V h          = draw_vector<V>(r, d, scale, int(r.below(4)));
        std::complex<long double> want = 0;
        long double size = 0;
        for(std::size_t i = 0; i < d; ++i) {
            for(std::size_t j = 0; j < d; ++j) {
                const std::complex<long double> x(h[i].real(), h[i].imag()), y(h[j].real(), h[j].imag());
                want += x * std::conj(y) * (long double) (g[i][j]);
                size += std::abs(x * y) * std::abs((long double) (g[i][j]));
            }
        }
        const V before   = h;
        const double got = number(h);
        const double tol = double(size) * 1e-13 + 1e-295;
        c.near(got, double(want.real()), tol, "value", "particle number at scale ", scale);
        c.check(got >= -tol, "negative", "particle number is ", got);
        for(std::size_t i = 0; i < d; ++i) {
            c.check(h[i] == before[i], "input-changed", "coefficient ", i, " changed");
        }
        // quadratic form: scaling by z scales by |z|^2
        const cd z(r.real(-2, 2), r.real(-2, 2));
        V zh(h);
        for(std::size_t i = 0; i < d; ++i) {
            zh[i] = zh[i] * z;
        }
        c.near(number(zh), got * std::norm(z), 4 * tol * (1 + std::norm(z)), "scaling",
               "scaling by ", z.real(), "+", z.imag(), "i");
        vf::observe("vectors");
    }
    // right after the start
    V e(d);
    for(std::size_t i = 0; i < d; ++i) {
        e[i] = cd(0.);
    }
    e[0] = cd(1.);
    c.check(number(e) == (s.filled[s.q] ? 1. : 0.), "initial", "initial particle number is ", number(e));
    // zero vector
    e[0] = cd(0.);
    c.check(number(e) == 0., "zero", "particle number of the zero vector is ", number(e));
}
VF_GROUP(std_vector, 400, 60) { one<std::vector<cd>>(c); }
VF_GROUP(blaze_vector, 200, 60) { one<blaze::DynamicVector<cd>>(c); }
VF_GROUP(square, 150, 60) { one<blaze::DynamicVector<cd>>(c, true); }
// single precision, with level energies it represents exactly
VF_GROUP(single_precision, 100, 40)
{
    using cf = std::complex<vf::f32>;
    auto& r  = c.rng;
    auto s   = sea::draw(r, 6, r.coin());
    s.fermi  = std::round(s.fermi * 8) / 8;
    for(uint64_t i = 0; i < s.n; ++i) {
        s.levels.e[i] = std::round(s.levels.e[i] * 8) / 8;
        s.filled[i]   = s.levels.e[i] < s.fermi;
    }
    c.describe(s.text + vf::cat(" single precision ", c.index));
    const B basis = s.ny > 1 ? B(s.q, ieompp::lattices::PeriodicSquareLattice<double, uint64_t>(s.nx, s.ny))
                             : B(s.q, ieompp::lattices::PeriodicChain<double, uint64_t>(s.n));
    const B conj = basis.get_conjugate();
    const auto number = vf::passed(r, mm::ParticleNumber<vf::f32, B>(basis, conj, s.levels, vf::f32(s.fermi)));
    const auto g        = sea::gram(s.nx, s.ny, s.q, s.filled);
    const std::size_t d = basis.size();
    const float scale   = r.chance(0.6) ? 1.f : float(std::pow(10., r.real(-10, 10)));
    std::vector<cf> h(d);
    for(auto& x : h) {
        x = cf(float(r.real(-1, 1)) * scale, float(r.real(-1, 1)) * scale);
    }
    vf::shape(r, h);
    double want = 0, size = 0;
    for(std::size_t i = 0; i < d; ++i) {
        for(std::size_t j = 0; j < d; ++j) {
            const auto x = cd(h[i]) * std::conj(cd(h[j])) * g[i][j];
            want += x.real(), size += std::abs(x);
        }
    }
    c.near(double(number(h)), want, size * 1e-5 + 1e-35, "value", "particle number at scale ", scale);
    vf::observe("single_precision");
}
// scripted use: the library's own dispersion, evaluators of different sizes alive together
VF_GROUP(interleaved, 60, 60)
{
    auto& r = c.rng;
    std::vector<std::unique_ptr<B>> bases;
    std::vector<mm::ParticleNumber<double, B>> numbers;
    std::vector<std::vector<std::vector<double>>> grams;
    std::string text;
    for(int k = 0; k < 3; ++k) {
        const uint64_t n = r.range(2, 6), q = r.below(n);
        const double J   = r.one_of({1., -1., 2.});
        text += vf::cat("N=", n, " q=", q, " J=", J, "; ");
        const ieompp::lattices::PeriodicChain<double, uint64_t> space(n), lat(n, 1.);
        const auto disp = ieompp::models::hubbard::make_dispersion(space, lat, J);
        std::vector<bool> filled;
        for(uint64_t i = 0; i < n; ++i) {
            filled.push_back(disp(i) < 0.25);
        }
        bases.emplace_back(new B(q, space));
        const B conj = bases.back()->get_conjugate();
        numbers.emplace_back(*bases.back(), conj, disp, 0.25);
        grams.push_back(sea::gram(n, 1, q, filled));
    }
    c.describe(text);
    for(int k = 0; k < 9; ++k) {
        const std::size_t w = r.below(3), d = grams[w].size();
        const auto h = draw_vector<std::vector<cd>>(r, d, 1., 0);
        cd want      = 0;
        for(std::size_t i = 0; i < d; ++i) {
            for(std::size_t j = 0; j < d; ++j) {
                want += h[i] * std::conj(h[j]) * grams[w][i][j];
            }
        }
        c.near(numbers[w](h), want.real(), 1e-11 * double(d), "value", "evaluator ", w, " of ", text);
        vf::observe("vectors");
    }
}
VF_REQUIRE(square_lattices, 100)
VF_REQUIRE(single_precision, 80)
VF_REQUIRE(vectors, 3000)
VF_MAIN
