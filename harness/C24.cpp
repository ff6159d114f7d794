// vf:rule=one case per (lattice, correlation function, symmetry mode, threads, batch of vectors); distinct by that description; non-trivial from two sites on
// vf:assume=lattices of at most 12 sites (three-operator basis) or 300 sites (one-operator basis) and coefficients of modulus 1e-120 to 1e120 represent all of them
// vf:threads=4
#include "wick.hpp"
#include <omp.h>
#include <blaze/Math.h>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard_real_space/expectation_value.hpp>
#include <ieompp/models/hubbard_real_space/site_occupation.hpp>
namespace al = ieompp::algebra;
namespace rs = ieompp::models::hubbard_real_space;
using Op     = al::Operator<uint64_t, bool>;
using M      = al::Monomial<Op>;
using B1     = rs::Basis1Operator<M>;
using B3     = rs::Basis3Operator<M>;
using cd     = std::complex<double>;
using Chain  = ieompp::lattices::PeriodicChain<double, uint64_t>;
using wick::Matrix;

struct State {
    Matrix g;
    std::string text;
    Matrix orbitals; // of the Slater determinant, if it is one
    bool symmetric = true;
};

static State draw_state(vf::Rng& r, unsigned n, bool may_be_asymmetric)
{
    State s;
    s.g = Matrix(n, std::vector<double>(n, 0.));
    switch(r.below(may_be_asymmetric ? 5 : 4)) {
        case 0: {
            const double filling = r.chance(0.5) ? 0.5 : r.unit(), dx = r.chance(0.5) ? 1. : r.real(0.3, 2);
            const Chain lat(n, dx);
            const rs::ExpectationValue1DHalfFilled<double, Chain> ev(lat, filling, filling * M_PI);
            for(unsigned i = 0; i < n; ++i) {
                for(unsigned j = 0; j < n; ++j) {
                    s.g[i][j] = ev(i, j);
                }
            }
            s.text = vf::cat("half-filled chain values, filling ", filling, " dx ", dx);
            break;
        }
        case 1: {
            for(unsigned i = 0; i < n; ++i) {
                for(unsigned j = 0; j <= i; ++j) {
                    s.g[i][j] = s.g[j][i] = r.real(-0.5, 1);
                }
            }
            s.text = "symmetric values";
            break;
        }
        case 2: {
            std::vector<double> f(n);
            for(auto& x : f) {
                x = r.real(-0.5, 1);
            }
            for(unsigned i = 0; i < n; ++i) {
                for(unsigned j = 0; j < n; ++j) {
                    const unsigned d = i > j ? i - j : j - i;
                    s.g[i][j]        = f[std::min(d, n - d)];
                }
            }
            s.text = "translation-invariant values";
            break;
        }
        case 3: {
            s.orbitals = wick::orthonormal(r, n);
            s.orbitals.resize(r.below(n + 1));
            for(unsigned i = 0; i < n; ++i) {
                for(unsigned j = 0; j < n; ++j) {
                    for(auto& o : s.orbitals) {
                        s.g[i][j] += o[i] * o[j];
                    }
                }
            }
            s.text = vf::cat("Slater determinant of ", s.orbitals.size(), " orbitals");
            break;
        }
        default:
            for(auto& row : s.g) {
                for(auto& x : row) {
                    x = r.real(-0.5, 1);
                }
            }
            s.symmetric = false;
            s.text      = "asymmetric values";
    }
    return s;
}
static double draw_scale(vf::Rng& r)
{
    return r.chance(0.6) ? 1. : std::pow(10., r.real(-120, 120));
}
template <typename V>
static V draw_vector(vf::Rng& r, std::size_t d, double scale)
{
    V v(d);
    const auto kind = r.below(4);
    for(std::size_t i = 0; i < d; ++i) {
        double a = r.real(-1, 1), b = r.real(-1, 1);
        if(kind == 1) {
            const double w = std::pow(10., r.real(-8, 0));
            a *= w, b *= w;
        } else if(kind == 2 && r.chance(0.8)) {
            a = b = 0;
        }
        v[i] = cd(a, b) * scale;
    }
    vf::shape(r, v);
    return v;
}
template <typename V>
static double form(const V& h, const Matrix& gram, double& size)
{
    std::complex<long double> sum = 0;
    long double s = 0;
    for(std::size_t i = 0; i < gram.size(); ++i) {
        const std::complex<long double> x(h[i].real(), h[i].imag());
        for(std::size_t j = 0; j < gram.size(); ++j) {
            const std::complex<long double> y(h[j].real(), h[j].imag());
            const auto p = x * std::conj(y);
            sum += p * (long double) (gram[i][j]);
            s += std::abs(p) * std::max(1.L, std::abs((long double) (gram[i][j])));
        }
    }
    size = double(s);
    return double(sum.real()) / 2;
}

template <typename Occ, typename V>
static void evaluate(vf::Case& c, const Occ& occ, const Matrix& gram, const std::string& what, int vectors)
{
    auto& r = c.rng;
    for(int k = 0; k < vectors; ++k) {
        const double scale = draw_scale(r);
        const V h          = draw_vector<V>(r, gram.size(), scale), before(h);
        double size;
        const double want = form(h, gram, size), tol = 1e-13 * size + 1e-295;
        int threads = int(r.range(1, 8));
        omp_set_num_threads(threads);
        const double got = occ(h);
        c.near(got, want, tol, "value", what, " at scale ", scale, " with ", threads, " threads");
        for(std::size_t i = 0; i < gram.size(); ++i) {
            c.check(h[i] == before[i], "input-changed", what, " changed coefficient ", i);
        }
        threads = int(r.range(1, 8));
        omp_set_num_threads(threads);
        c.near(occ(h), got, tol, "threads", what, " again, with ", threads, " threads");
        vf::observe("occupations");
    }
}

static auto function(const Matrix& g)
{
    return [&g](const Op& a, const Op& b) { return g[a.index1][b.index1]; };
}

template <typename V>
static void three(vf::Case& c, unsigned maxn)
{
    auto& r          = c.rng;
    const unsigned n = unsigned(r.range(1, maxn));
    const State s    = draw_state(r, n, false);
    const bool square = n > 1 && n % 2 == 0 && r.coin();
    c.describe(vf::cat("three-operator basis, ", square ? "square" : "chain", " of ", n, " sites, ", s.text,
                       " batch ", c.index), n > 1);
    const B3 basis = square ? B3(ieompp::lattices::PeriodicSquareLattice<double, uint64_t>(2, n / 2)) : B3(Chain(n, 1.));
    const B3 conj  = basis.get_conjugate();
    std::vector<wick::Poly> el;
    for(unsigned i = 0; i < n; ++i) {
        el.push_back(wick::element1(i));
    }
    for(unsigned i = 0; i < n; ++i) {
        for(unsigned j = 0; j < n; ++j) {
            for(unsigned k = 0; k < n; ++k) {
                el.push_back(wick::element3(i, j, k));
            }
        }
    }
    Matrix gram(el.size(), std::vector<double>(el.size()));
    for(std::size_t i = 0; i < el.size(); ++i) {
        for(std::size_t j = 0; j < el.size(); ++j) {
            gram[i][j] = wick::expect(el[i] * wick::adjoint(el[j]), s.g);
        }
    }
    using Occ = rs::SiteOccupation<double, B3>;
    Occ half{function(s.g), std::cref(basis), std::cref(conj)};
    c.check(half.exploit_inversion_symmetry, "default", "inversion symmetry is not exploited by default");
    Occ full{function(s.g), std::cref(basis), std::cref(conj), false};
    for(int k = 0; k < 200; ++k) {
        const std::size_t i = r.below(el.size()), j = r.below(el.size());
        c.near(full.expectation_value(basis[i], conj[j]), gram[i][j], 1e-12, "matrix-element",
               "expectation value of elements ", i, " and ", j);
        vf::observe("matrix_elements");
    }
    evaluate<Occ, V>(c, vf::passed(r, half), gram, "occupation (exploiting symmetry)", 2);
    evaluate<Occ, V>(c, vf::passed(r, full), gram, "occupation (full sum)", 2);
    full.exploit_inversion_symmetry = true;
    half.exploit_inversion_symmetry = false;
    evaluate<Occ, V>(c, full, gram, "occupation (exploiting symmetry from now on)", 1);
    evaluate<Occ, V>(c, half, gram, "occupation (full sum from now on)", 1);
    // another state for the same evaluator
    const State other = draw_state(r, n, false);
    for(std::size_t i = 0; i < el.size(); ++i) {
        for(std::size_t j = 0; j < el.size(); ++j) {
            gram[i][j] = wick::expect(el[i] * wick::adjoint(el[j]), other.g);
        }
    }
    auto& changed = r.coin() ? half : full;
    changed.expectation_value_function = function(other.g);
    evaluate<Occ, V>(c, changed, gram, "occupation in another state", 1);
}
VF_GROUP(three_operators, 110, 25) { three<std::vector<cd>>(c, 4); }
VF_GROUP(three_operators_blaze, 60, 25) { three<blaze::DynamicVector<cd>>(c, 3); }
VF_GROUP(three_operators_large, 3, 8) { three<std::vector<cd>>(c, vf::st().thorough ? 6 : 5); }

// <element1/element3 times an adjoint> in closed form: the spins decouple
struct Sum { // w0 c^+_i + w1 c^+_i n_{jk}: an element
    unsigned i, j, k;
    double w0, w1;
};
static double closed(const Sum& a, const Sum& b, const Matrix& g)
{
    const double up = g[a.i][b.i];
    double down     = a.w0 * b.w0;
    if(a.w1 != 0) {
        down += a.w1 * b.w0 * g[a.j][a.k];
    }
    if(b.w1 != 0) {
        down += b.w1 * a.w0 * g[b.k][b.j];
    }
    if(a.w1 != 0 && b.w1 != 0) {
        down += a.w1 * b.w1 * (g[a.j][a.k] * g[b.k][b.j] + g[a.j][b.j] * ((a.k == b.k ? 1. : 0.) - g[b.k][a.k]));
    }
    return up * down;
}
VF_GROUP(three_operators_closed, 5, 3)
{
    auto& r           = c.rng;
    const bool square = r.coin();
    const unsigned nx = square ? unsigned(r.range(2, 3)) : unsigned(r.range(5, vf::st().scale < 0.2 ? 5 : vf::st().thorough ? 12 : 9));
    const unsigned ny = square ? unsigned(r.range(2, vf::st().scale < 0.2 ? 2 : vf::st().thorough ? 4 : 3)) : 1, n = nx * ny;
    const State s     = draw_state(r, n, false);
    c.describe(vf::cat("three-operator basis, ", nx, "x", ny, " sites, closed form, ", s.text, " batch ", c.index));
    const B3 basis = square ? B3(ieompp::lattices::PeriodicSquareLattice<double, uint64_t>(nx, ny)) : B3(Chain(n, 1.));
    const B3 conj  = basis.get_conjugate();
    std::vector<Sum> el;
    for(unsigned i = 0; i < n; ++i) {
        el.push_back({i, 0, 0, std::sqrt(2.), 0.});
    }
    for(unsigned i = 0; i < n; ++i) {
        for(unsigned j = 0; j < n; ++j) {
            for(unsigned k = 0; k < n; ++k) {
                el.push_back({i, j, k, j == k ? -std::sqrt(2.) : 0., 2 * std::sqrt(2.)});
            }
        }
    }
    auto poly = [&](const Sum& e) { return e.w1 == 0 ? wick::element1(e.i) : wick::element3(e.i, e.j, e.k); };
    using Occ = rs::SiteOccupation<double, B3>;
    Occ half{function(s.g), std::cref(basis), std::cref(conj)};
    Occ full{function(s.g), std::cref(basis), std::cref(conj), false};
    for(int k = 0; k < 300; ++k) {
        const std::size_t i = r.below(el.size()), j = r.below(el.size());
        const double exact = wick::expect(poly(el[i]) * wick::adjoint(poly(el[j])), s.g);
        if(std::abs(closed(el[i], el[j], s.g) - exact) > 1e-12) {
            throw std::logic_error("the closed form is wrong");
        }
        c.near(full.expectation_value(basis[i], conj[j]), exact, 1e-12, "matrix-element", "expectation value of elements ", i, " and ", j);
        vf::observe("matrix_elements");
    }
    Matrix gram(el.size(), std::vector<double>(el.size()));
    for(std::size_t i = 0; i < el.size(); ++i) {
        for(std::size_t j = 0; j < el.size(); ++j) {
            gram[i][j] = closed(el[i], el[j], s.g);
        }
    }
    evaluate<Occ, std::vector<cd>>(c, half, gram, "occupation (exploiting symmetry)", 1);
    evaluate<Occ, blaze::DynamicVector<cd>>(c, full, gram, "occupation (full sum)", 1);
    vf::observe("large_bases");
}

VF_GROUP(one_operator, 200, 60)
{
    auto& r          = c.rng;
    const unsigned n = unsigned(c.index % 60 == 7 && vf::st().scale > 0.2 ? r.range(60, 300) : r.range(1, 12));
    const State s    = draw_state(r, n, false);
    c.describe(vf::cat("one-operator basis of ", n, " sites, ", s.text, " batch ", c.index), n > 1);
    const B1 basis = B1(Chain(n, 1.)), conj = basis.get_conjugate();
    Matrix gram(n, std::vector<double>(n));
    for(unsigned i = 0; i < n; ++i) {
        for(unsigned j = 0; j < n; ++j) {
            gram[i][j] = wick::expect(wick::element1(i) * wick::adjoint(wick::element1(j)), s.g);
        }
    }
    using Occ = rs::SiteOccupation<double, B1>;
    const Occ occ = vf::passed(r, Occ{function(s.g), std::cref(basis), std::cref(conj)});
    for(int k = 0; k < 20; ++k) {
        const std::size_t i = r.below(n), j = r.below(n);
        c.near(occ.expectation_value(basis[i], conj[j]), gram[i][j], 1e-13, "matrix-element",
               "expectation value of elements ", i, " and ", j);
    }
    evaluate<Occ, std::vector<cd>>(c, occ, gram, "occupation", 3);
    evaluate<Occ, blaze::DynamicVector<cd>>(c, occ, gram, "occupation", 3);
}

// single matrix elements for correlation functions that need not be symmetric
VF_GROUP(matrix_elements, 300, 60)
{
    auto& r          = c.rng;
    const unsigned n = unsigned(r.range(1, 7));
    const State s    = draw_state(r, n, true);
    c.describe(vf::cat("matrix elements, ", n, " sites, ", s.text, " batch ", c.index), n > 1);
    const B3 basis = B3(Chain(n, 1.)), conj = basis.get_conjugate();
    rs::SiteOccupation<double, B3> occ{function(s.g), std::cref(basis), std::cref(conj)};
    auto element = [&](std::size_t i) {
        return basis[i].size() == 1
                   ? wick::element1(unsigned(basis[i][0].index1))
                   : wick::element3(unsigned(basis[i][0].index1), unsigned(basis[i][1].index1), unsigned(basis[i][2].index1));
    };
    for(int k = 0; k < 30; ++k) {
        auto draw = [&]() -> std::size_t {
            if(r.chance(0.2)) {
                return r.below(n);
            }
            const uint64_t a = r.below(n), b = r.below(n), d = r.chance(0.4) ? b : r.below(n);
            return basis.get_3op_index(a, b, d);
        };
        const std::size_t i = draw(), j = draw();
        c.near(occ.expectation_value(basis[i], conj[j]), wick::expect(element(i) * wick::adjoint(element(j)), s.g),
               1e-12, "matrix-element", "expectation value of ", i, " and ", j);
        vf::observe("matrix_elements");
    }
}

// the oracle's Wick expansion and the occupation itself against a Slater determinant on a Fock space
VF_GROUP(slater_determinants, 40, 30)
{
    auto& r          = c.rng;
    const unsigned n = unsigned(r.range(1, 4));
    auto orbitals    = wick::orthonormal(r, n);
    orbitals.resize(r.below(n + 1));
    c.describe(vf::cat("Slater determinant of ", orbitals.size(), " orbitals on ", n, " sites, batch ", c.index), n > 1);
    const auto state = wick::slater(orbitals, n);
    Matrix g(n, std::vector<double>(n, 0.));
    for(unsigned i = 0; i < n; ++i) {
        for(unsigned j = 0; j < n; ++j) {
            for(auto& o : orbitals) {
                g[i][j] += o[i] * o[j];
            }
        }
    }
    const B3 basis = B3(Chain(n, 1.)), conj = basis.get_conjugate();
    rs::SiteOccupation<double, B3> occ{function(g), std::cref(basis), std::cref(conj)};
    auto element = [&](std::size_t i) {
        return basis[i].size() == 1
                   ? wick::element1(unsigned(basis[i][0].index1))
                   : wick::element3(unsigned(basis[i][0].index1), unsigned(basis[i][1].index1), unsigned(basis[i][2].index1));
    };
    for(int k = 0; k < 20; ++k) {
        const std::size_t i = r.below(basis.size()), j = r.below(basis.size());
        const double exact = wick::expect_in(state, element(i) * wick::adjoint(element(j)), n);
        c.near(occ.expectation_value(basis[i], conj[j]), exact, 1e-11, "matrix-element", "exact value of ", i, " and ", j);
        vf::observe("exact_matrix_elements");
    }
    // the occupation of sum_i h_i B_i in the state, divided by the normalisation
    std::vector<cd> h(basis.size(), cd(0.));
    std::map<uint64_t, cd> v;
    for(int k = 0; k < 6; ++k) {
        const std::size_t i = r.below(basis.size());
        const cd w(r.real(-1, 1), r.real(-1, 1));
        h[i] += w;
        for(auto& x : state) { // h_i^* B_i^+ |state>
            for(auto& t : wick::adjoint(element(i))) {
                fock::Product p;
                for(auto& o : t.second) {
                    p.push_back({o.creator, o.site + (o.up ? 0 : n)});
                }
                uint64_t m  = x.first;
                const int s = fock::apply(p, m);
                if(s) {
                    v[m] += std::conj(w) * t.first * double(s) * x.second;
                }
            }
        }
    }
    double norm = 0;
    for(auto& x : v) {
        norm += std::norm(x.second);
    }
    omp_set_num_threads(int(r.range(1, 4)));
    c.near(occ(h), norm / 2, 1e-10, "value", "occupation of an exactly evaluated operator");
    vf::observe("exact_occupations");
}
VF_REQUIRE(occupations, 1200)
VF_REQUIRE(matrix_elements, 20000)
VF_REQUIRE(exact_matrix_elements, 500)
VF_MAIN
