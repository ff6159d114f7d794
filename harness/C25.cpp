// vf:rule=one case per set of evaluators of different sizes and a history of evaluations; distinct by that description; always non-trivial
// vf:assume=lattices of at most 8, some of up to 24 (thorough: 36), sites (three-operator basis) or 24, some of up to 3000, sites (one-operator basis) represent larger ones
// vf:threads=4
#include "vf.hpp"
#include <omp.h>
#include <blaze/Math.h>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump/1d.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump/2d.hpp>
namespace al = ieompp::algebra;
namespace rs = ieompp::models::hubbard_real_space;
using Op     = al::Operator<uint64_t, bool>;
using M      = al::Monomial<Op>;
using B1     = rs::Basis1Operator<M>;
using B3     = rs::Basis3Operator<M>;
using cd     = std::complex<double>;
using ld     = long double;
using cl     = std::complex<long double>;
using Chain  = ieompp::lattices::PeriodicChain<double, uint64_t>;
using Square = ieompp::lattices::PeriodicSquareLattice<double, uint64_t>;
using Matrix = std::vector<std::vector<double>>;
// number type of a vector's complex elements
template <typename V>
using Real = typename std::decay<decltype(std::declval<V&>()[0])>::type::value_type;
template <typename V>
using ChainOf = ieompp::lattices::PeriodicChain<Real<V>, uint64_t>;
template <typename V>
using SquareOf = ieompp::lattices::PeriodicSquareLattice<Real<V>, uint64_t>;
// rounding errors in units of those of double precision
template <typename V>
static double units() { return double(std::numeric_limits<Real<V>>::epsilon()) / std::numeric_limits<double>::epsilon(); }

template <typename F>
static Matrix draw_g(vf::Rng& r, uint64_t n)
{
    Matrix g(n, std::vector<double>(n));
    for(auto& x : g) {
        for(auto& y : x) {
            y = double(F(r.chance(0.1) ? 0.5 : r.real(-1, 1)));
        }
    }
    return g;
}
template <typename V>
static V draw_vector(vf::Rng& r, std::size_t d)
{
    V v(d);
    using F            = Real<V>;
    const double most  = sizeof(F) == 4 ? 12 : 120;
    const double scale = r.chance(0.7) ? 1. : std::pow(10., r.real(-most, most));
    for(std::size_t i = 0; i < d; ++i) {
        v[i] = std::complex<F>(F(r.real(-1, 1) * scale), F(r.real(-1, 1) * scale));
    }
    vf::shape(r, v);
    return v;
}
// |sum_i phase_i h_i^NO|^2 and a bound on the rounding errors
template <typename V>
static double direct(const V& h, const std::vector<ld>& angle, const Matrix* g, double& tol)
{
    const std::size_t n = angle.size();
    cl sum              = 0;
    ld size             = 0;
    for(std::size_t i = 0; i < n; ++i) {
        cl x(h[i].real(), h[i].imag());
        size += std::abs(x) * (1 + std::abs(angle[i]));
        if(g) {
            for(std::size_t j = 0; j < n; ++j) {
                for(std::size_t k = 0; k < n; ++k) {
                    const auto& y = h[n + n * n * i + n * j + k];
                    const ld w    = 2.L * (*g)[j][k] - (j == k ? 1 : 0);
                    x += w * cl(y.real(), y.imag());
                    size += 3 * ld(std::abs(y)) * (1 + std::abs(angle[i]));
                }
            }
        }
        sum += x * std::polar(1.L, angle[i]);
    }
    tol = double(size * size * 1e-14L) * units<V>() + (sizeof(Real<V>) == 4 ? 1e-35 : 1e-295); // below, numbers lose precision
    return double(std::norm(sum));
}

// lattices begin at the origin, or at -pi like the Brillouin zone
static ld origin(double first) { return first == 0 ? 0 : -acosl(-1.L); }

struct Evaluator {
    std::string text;
    virtual ~Evaluator() {}
    virtual void use(vf::Case& c) = 0;
};

template <typename F, typename V>
static void check_value(vf::Case& c, F&& f, const V& h, const std::vector<ld>& angle, const Matrix* g, const std::string& text)
{
    double tol;
    const double want = direct(h, angle, g, tol);
    const V before(h);
    const int a = int(c.rng.range(1, 8)), b = int(c.rng.range(1, 8));
    omp_set_num_threads(a);
    const double x = double(f(h));
    omp_set_num_threads(b);
    const double y = double(f(h));
    c.near(x, want, tol, "value", text, " with ", a, " threads");
    c.near(y, want, tol, "value", text, " again with ", b, " threads");
    for(std::size_t i = 0; i < h.size(); ++i) {
        c.check(h[i] == before[i], "input-changed", text, " changed coefficient ", i);
    }
    vf::observe("jumps", 2);
}

template <typename V>
struct Chain1 : Evaluator { // one-operator basis
    using F = Real<V>;
    ChainOf<V> lattice;
    Matrix g;
    F kf;
    B1 basis;
    rs::FermiJump1D<F, B1> jump;
    std::vector<ld> angle;
    Chain1(vf::Rng& r, uint64_t n, const ChainOf<V>& l, F k)
        : lattice(l), g(draw_g<Real<V>>(r, n)), kf(k), basis(lattice),
          jump(lattice, [this](const Op& a, const Op& b) { return F(g[a.index1][b.index1]); }, kf)
    {
        for(uint64_t i = 0; i < n; ++i) {
            angle.push_back(ld(kf) * (origin(l.x_min()) + ld(i) * ld(l.dx())));
        }
        text = vf::cat("1d/one N=", n, " x_0=", l.x_min(), " dx=", l.dx(), " k_F=", kf);
    }
    void use(vf::Case& c) override
    {
        const auto h = draw_vector<V>(c.rng, basis.size());
        check_value(c, [&](const V& v) { return jump(basis, v); }, h, angle, nullptr, text);
        if(c.rng.chance(0.3)) {
            const auto copy = vf::passed(c.rng, jump);
            check_value(c, [&](const V& v) { return copy(basis, v); }, h, angle, nullptr, text + " (copied)");
        }
        const std::size_t i = c.rng.below(angle.size()), j = c.rng.below(angle.size());
        c.near(cd(jump.fourier_coefficient(i)), cd(std::polar(1.L, angle[i])), 1e-14 * units<V>() * (2 + std::abs(double(angle[i]))),
               "coefficient", text, " phase of site ", i);
        c.check(jump.expectation_value(basis[i][0], basis[j][0]) == F(g[i][j]), "expectation", text,
                " expectation value of ", i, ",", j);
    }
};

template <typename V>
struct Chain3 : Evaluator {
    using F = Real<V>;
    ChainOf<V> lattice;
    Matrix g;
    B3 basis;
    rs::FermiJump1D<F, B3> jump;
    std::vector<ld> angle;
    Chain3(vf::Rng& r, uint64_t n, const ChainOf<V>& l, F kf)
        : lattice(l), g(draw_g<Real<V>>(r, n)), basis(lattice),
          jump(basis, lattice, [this](const Op& a, const Op& b) { return F(g[a.index1][b.index1]); }, kf)
    {
        for(uint64_t i = 0; i < n; ++i) {
            angle.push_back(ld(kf) * (origin(l.x_min()) + ld(i) * ld(l.dx())));
        }
        text = vf::cat("1d/three N=", n, " x_0=", l.x_min(), " dx=", l.dx(), " k_F=", kf);
    }
    void use(vf::Case& c) override
    {
        const auto h = draw_vector<V>(c.rng, basis.size());
        check_value(c, jump, h, angle, &g, text);
        if(c.rng.chance(0.3)) {
            check_value(c, vf::passed(c.rng, jump), h, angle, &g, text + " (copied)");
        }
        const auto& same = jump;
        c.check(same.fourier_coefficients().size() == angle.size(), "coefficient", text, " number of phases");
        for(std::size_t i = 0; i < angle.size(); ++i) {
            c.near(cd(same.fourier_coefficients()[i]), cd(std::polar(1.L, angle[i])),
                   1e-14 * units<V>() * (2 + std::abs(double(angle[i]))), "coefficient", text, " phase of site ", i);
        }
    }
};

template <typename V>
struct Square3 : Evaluator {
    using F = Real<V>;
    SquareOf<V> lattice;
    Matrix g;
    B3 basis;
    rs::FermiJump2D<F, B3> jump;
    std::vector<ld> angle;
    Square3(vf::Rng& r, uint64_t nx, uint64_t ny, const SquareOf<V>& l, F kx, F ky)
        : lattice(l), g(draw_g<Real<V>>(r, nx * ny)), basis(lattice),
          jump(basis, lattice, [this](const Op& a, const Op& b) { return F(g[a.index1][b.index1]); },
               typename SquareOf<V>::Vector{kx, ky})
    {
        for(uint64_t i = 0; i < nx * ny; ++i) {
            angle.push_back(ld(kx) * (origin(l.x_min()) + ld(i / ny) * ld(l.dx())) + ld(ky) * (origin(l.y_min()) + ld(i % ny) * ld(l.dy())));
        }
        text = vf::cat("2d/three ", nx, "x", ny, " r_0=(", l.x_min(), ",", l.y_min(), ") d=(", l.dx(), ",", l.dy(), ") k_F=(", kx, ",", ky, ")");
    }
    void use(vf::Case& c) override
    {
        const auto h = draw_vector<V>(c.rng, basis.size());
        check_value(c, jump, h, angle, &g, text);
        if(c.rng.chance(0.3)) {
            check_value(c, vf::passed(c.rng, jump), h, angle, &g, text + " (copied)");
        }
        const auto& same = jump;
        c.check(same.fourier_coefficients().size() == angle.size(), "coefficient", text, " number of phases");
        for(std::size_t i = 0; i < angle.size(); ++i) {
            c.near(cd(same.fourier_coefficients()[i]), cd(std::polar(1.L, angle[i])),
                   1e-14 * units<V>() * (2 + std::abs(double(angle[i]))), "coefficient", text, " phase of site ", i);
        }
    }
};

template <typename V>
static std::unique_ptr<Evaluator> draw(vf::Rng& r, unsigned max3)
{
    using F    = Real<V>;
    const F dx = F(r.chance(0.5) ? 1. : r.real(0.1, 3)), dy = F(r.chance(0.5) ? 1. : r.real(0.1, 3)),
            kx = F(r.chance(0.4) ? M_PI / 2 : r.real(-4, 4)), ky = F(r.chance(0.4) ? M_PI / 2 : r.real(-4, 4));
    using Chain  = ChainOf<V>;
    using Square = SquareOf<V>;
    const bool zone = r.chance(0.3);
    auto chain = [&](uint64_t n) { return zone ? Chain(n) : Chain(n, dx); };
    switch(r.below(4)) {
        case 0: {
            const uint64_t n = r.range(1, 24);
            return std::unique_ptr<Evaluator>(new Chain1<V>(r, n, chain(n), kx));
        }
        case 1: {
            const uint64_t nx = r.range(1, 4), ny = r.range(1, max3 / nx);
            return std::unique_ptr<Evaluator>(new Square3<V>(r, nx, ny, zone ? Square(nx, ny) : Square(nx, ny, dx, dy), kx, ky));
        }
        default: {
            const uint64_t n = r.range(1, max3);
            return std::unique_ptr<Evaluator>(new Chain3<V>(r, n, chain(n), kx));
        }
    }
}
template <typename V>
static void history(vf::Case& c, unsigned max3)
{
    auto& r = c.rng;
    std::vector<std::unique_ptr<Evaluator>> alive;
    std::string log;
    for(uint64_t k = r.range(3, 8); k > 0; --k) {
        const auto what = alive.empty() ? 0 : r.below(4);
        if(what == 0) {
            alive.push_back(draw<V>(r, max3));
            log += " new(" + alive.back()->text + ")";
            c.describe(log);
            alive.back()->use(c);
        } else if(what == 1 && alive.size() > 1) {
            const auto i = r.below(alive.size());
            log += " delete " + alive[i]->text;
            alive.erase(alive.begin() + long(i));
        } else {
            const auto i = r.below(alive.size());
            log += " use(" + alive[i]->text + ")";
            c.describe(log);
            alive[i]->use(c);
        }
    }
    for(auto& e : alive) {
        e->use(c);
    }
    c.describe(log);
    vf::observe("histories");
}
VF_GROUP(histories, 260, 40) { history<std::vector<cd>>(c, 6); }
VF_GROUP(histories_blaze, 160, 40) { history<blaze::DynamicVector<cd>>(c, 5); }
#ifndef VF_PLAIN
VF_GROUP(histories_single, 120, 40) { history<std::vector<std::complex<vf::f32>>>(c, 6); }
VF_GROUP(histories_extended, 80, 40) { history<blaze::DynamicVector<cl>>(c, 5); }
#endif
VF_GROUP(larger, 12, 20) { history<std::vector<cd>>(c, vf::st().thorough ? 12 : 8); }
VF_GROUP(much_larger, 6, 6)
{
    using V             = std::vector<cd>;
    auto& r             = c.rng;
    const unsigned most = vf::st().scale < 0.2 ? 9 : vf::st().thorough ? 36 : 24;
    const double kx = r.real(-4, 4), ky = r.real(-4, 4);
    const uint64_t nx = r.range(3, 4);
    const uint64_t na = r.range(300, 3000), nb = r.range(9, most), ny = r.range(3, most / nx);
    Chain1<V> a(r, na, Chain(na, r.real(0.1, 3)), kx);
    Chain3<V> b(r, nb, r.coin() ? Chain(nb) : Chain(nb, r.real(0.1, 3)), kx);
    Square3<V> d(r, nx, ny, r.coin() ? Square(nx, ny) : Square(nx, ny, r.real(0.1, 3), r.real(0.1, 3)), kx, ky);
    c.describe(vf::cat(a.text, " ", b.text, " ", d.text));
    a.use(c);
    b.use(c);
    d.use(c);
    c.index % 2 ? b.use(c) : d.use(c);
    vf::observe("large_evaluators", 3);
}
VF_REQUIRE(jumps, 3000)
VF_REQUIRE(histories, 400)
VF_MAIN
