// vf:rule=one case per (lattice, J, U, correlation function, element type); distinct by that description, every row compared with a Wick expansion of the commutator; non-trivial from two sites and U not zero
// vf:assume=lattices of up to 6, some of up to 12 and a few of up to 43 (sampled rows), sites (three-operator basis) and 200, some of up to 4000, sites (one-operator basis), and real translation-invariant symmetric correlation functions, represent all
#include "liou.hpp"
#include <blaze/Math.h>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/types/blaze.hpp>
#include <ieompp/types/number.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/blaze_sparse_no.hpp>
#include <ieompp/models/hubbard_real_space/expectation_value.hpp>
#ifndef VF_PLAIN
#include <hubbard/real_space/matrix_no.hpp>
#endif
namespace al = ieompp::algebra;
namespace rs = ieompp::models::hubbard_real_space;
using Op     = al::Operator<uint64_t, bool>;
using M      = al::Monomial<Op>;
using B1     = rs::Basis1Operator<M>;
using B3     = rs::Basis3Operator<M>;
using cd     = std::complex<double>;
using Chain  = ieompp::lattices::PeriodicChain<double, uint64_t>;
using Square = ieompp::lattices::PeriodicSquareLattice<double, uint64_t>;

struct Shape {
    unsigned nx, ny; // ny = 0: chain
    unsigned size() const { return ny ? nx * ny : nx; }
    liou::Sites sites() const { return ny ? liou::torus(nx, ny) : liou::ring(nx); }
    std::string text() const { return ny ? vf::cat(nx, "x", ny, " lattice") : vf::cat("chain of ", nx); }
};
static Shape draw_shape(vf::Rng& r, unsigned maxsites, bool big = false)
{
    if(big) { // at least about half of maxsites
        if(r.coin()) {
            return {unsigned(r.range(maxsites / 2, maxsites)), 0};
        }
        const unsigned a = unsigned(r.range(2, unsigned(std::sqrt(double(maxsites))))), b = unsigned(r.range((maxsites / a + 1) / 2, maxsites / a));
        return r.coin() ? Shape{a, b} : Shape{b, a};
    }
    if(r.coin()) {
        return {unsigned(r.range(1, maxsites)), 0};
    }
    const unsigned nx = unsigned(r.range(1, maxsites));
    return {nx, unsigned(r.range(1, std::max(1u, maxsites / nx)))};
}
static double coupling(vf::Rng& r)
{
    switch(r.below(5)) {
        case 0: return r.coin() ? 0. : 1.;
        case 1: return -r.real(0.01, 5);
        case 2: return (r.coin() ? 1 : -1) * std::pow(10., r.real(-11, 4));
        default: return r.real(0.01, 8);
    }
}
// translation-invariant, symmetric values g(a, b) = f(a - b) = f(b - a)
struct Values {
    std::vector<std::vector<double>> g;
    std::string text;
    double operator()(uint64_t a, uint64_t b) const { return g.at(a).at(b); }
};
static Values draw_values(vf::Rng& r, const Shape& s)
{
    Values v;
    const unsigned n = s.size(), nx = s.nx, ny = s.ny ? s.ny : 1;
    const auto kind  = r.below(5);
    const double hole = r.chance(0.5) ? 0.5 : r.unit();
    std::vector<double> f(n);
    for(auto& x : f) {
        x = kind == 0 ? 0. : kind == 1 ? (r.coin() ? 0. : r.real(-0.5, 0.5)) : r.real(-0.5, 1);
    }
    if(kind != 3) {
        f[0] = hole;
    }
    v.g.assign(n, std::vector<double>(n));
    for(unsigned a = 0; a < n; ++a) {
        for(unsigned b = 0; b < n; ++b) {
            const unsigned dx = (a / ny + nx - b / ny) % nx, dy = (a % ny + ny - b % ny) % ny;
            const unsigned d = dx * ny + dy, e = ((nx - dx) % nx) * ny + (ny - dy) % ny;
            v.g[a][b] = f[std::min(d, e)];
        }
    }
    v.text = vf::cat(kind == 0 ? "on-site" : kind == 1 ? "sparse" : "general", " values, filling ", f[0]);
    return v;
}

template <typename Mat>
static void compare(vf::Case& c, const Mat& m, uint64_t row, const liou::Normal& normal, uint64_t n, double tol,
                    const std::string& what)
{
    std::map<uint64_t, double> want;
    for(auto& x : normal) {
        if(x.first.size() == 1) {
            c.check(x.first[0].creator && x.first[0].up, "oracle", "unexpected one-operator product");
            want[x.first[0].site] += x.second;
        } else if(x.first.size() == 3) {
            // c+_up c+_down c_down in the order of the normal-ordered product
            if(std::abs(x.second) <= 1e-14) {
                continue;
            }
            const auto &o1 = x.first[0], &o2 = x.first[1], &o3 = x.first[2];
            c.check(o1.creator && o1.up && o2.creator && !o3.creator && o2.up == o3.up, "oracle",
                    "unexpected three-operator product");
            if(o2.up) {
                continue; // three operators of equal spin are not in the basis
            }
            want[n + (uint64_t(x.first[0].site) * n + x.first[1].site) * n + x.first[2].site] += x.second;
        }
    }
    for(auto it = m.begin(row); it != m.end(row); ++it) {
        const auto w = want.find(it->index());
        c.near(cd(it->value()), cd(w == want.end() ? 0. : w->second), tol, "entry", what, " entry (", row, ",",
               it->index(), ")");
        vf::observe("entries");
        if(w != want.end()) {
            want.erase(w);
        }
    }
    for(auto& w : want) {
        c.near(0., w.second, tol, "missing", what, " has no entry at (", row, ",", w.first, ")");
    }
}
template <typename T, typename Lat, typename G>
static void three(vf::Case& c, const Lat& lat, const Shape& s, double J, double U, const G& g)
{
    const uint64_t n = s.size();
    const B3 b(lat);
    blaze::CompressedMatrix<T, blaze::rowMajor> m;
    rs::init_matrix_no(rs::make_liouvillian<double>(J, U), m, b, lat, g);
    c.check(m.rows() == b.size() && m.columns() == b.size(), "shape", "matrix is ", m.rows(), "x", m.columns());
    const auto sites = s.sites();
    const liou::Corr corr = [&](unsigned x, unsigned y) { return g(x, y); };
    const double prec = std::numeric_limits<typename ieompp::types::RealType<T>::Type>::epsilon();
    const double tol  = 200 * prec * std::max(1., 12 * std::abs(J) + 8 * std::abs(U));
    const bool all    = b.size() < 70;
    for(uint64_t row = 0; row < b.size(); ++row) {
        if(!all && row >= n && c.rng.below(b.size() > 230 ? b.size() / 60 : 3)) {
            continue;
        }
        liou::Poly p;
        if(row < n) {
            p = {{1., {{true, unsigned(row), true}}}};
        } else {
            const unsigned k = unsigned((row - n) % n), j = unsigned((row - n) / n % n), i = unsigned((row - n) / n / n);
            p = {{1., {{true, i, true}, {true, j, false}, {false, k, false}}}, {-corr(j, k), {{true, i, true}}}};
        }
        compare(c, m, row, liou::commutator(sites, J, U, p, corr), n, tol, "matrix");
        vf::observe("rows");
    }
    vf::observe("matrices");
}
template <typename F>
static void on_lattice(const Shape& s, double dx, double dy, const F& f)
{
    if(s.ny) {
        f(Square(uint64_t(s.nx), uint64_t(s.ny), dx, dy));
    } else {
        f(Chain(uint64_t(s.nx), dx));
    }
}
VF_GROUP(generated, 80, 12)
{
    auto& r        = c.rng;
    const Shape s  = draw_shape(r, c.index % 20 == 3 && vf::st().scale > 0.2 ? 12 : c.index % 4 ? 4 : 6, c.index % 20 == 3);
    const double J = coupling(r), U = coupling(r);
    const Values v = draw_values(r, s);
    const auto z   = r.below(5);
    static const char* names[] = {"double", "double", "complex", "float", "complex<float>"};
    c.describe(vf::cat(s.text(), " J=", J, " U=", U, " ", v.text, " ", names[z], " #", c.index), s.size() > 1 && U != 0);
    on_lattice(s, 1., 1., [&](const auto& lat) {
        switch(z) {
            case 2: return three<cd>(c, lat, s, J, U, v);
            case 3: return three<vf::f32>(c, lat, s, J, U, v);
            case 4: return three<std::complex<vf::f32>>(c, lat, s, J, U, v);
            default: return three<double>(c, lat, s, J, U, v);
        }
    });
}
// more elements of the basis than 16 bits count
VF_GROUP(large, 2, 6)
{
    auto& r        = c.rng;
    static const Shape shapes[] = {{6, 7}, {7, 6}, {3, 14}, {14, 3}, {2, 21}, {21, 2}};
    const Shape s  = c.index % 2 ? shapes[r.below(6)] : Shape{unsigned(r.range(41, 43)), 0};
    const double J = r.real(0.3, 3), U = r.real(0.3, 5);
    const Values v = draw_values(r, s);
    c.describe(vf::cat("large ", s.text(), " J=", J, " U=", U, " ", v.text, " #", c.index), true);
    on_lattice(s, 1., 1., [&](const auto& lat) { three<double>(c, lat, s, J, U, v); });
    vf::observe("large_matrices");
}
// the Wick expansion the rows are compared with, against the Fock space: the commutator is the sum of all its
// normal-ordered products, written out by subtracting contractions
static void spell_out(double w, const liou::Product& done, const liou::Product& rest, const liou::Corr& g,
                      std::vector<std::pair<double, liou::Product>>& out)
{
    if(rest.empty()) {
        out.emplace_back(w, done);
        return;
    }
    // :x y z...: = x :y z...: - sum of the contractions of x with the others
    liou::Product d = done;
    d.push_back(rest[0]);
    spell_out(w, d, liou::Product(rest.begin() + 1, rest.end()), g, out);
    for(std::size_t j = 1; j < rest.size(); ++j) {
        const double x = liou::contraction(rest[0], rest[j], g);
        if(x != 0.) {
            liou::Product r;
            for(std::size_t k = 1; k < rest.size(); ++k) {
                if(k != j) {
                    r.push_back(rest[k]);
                }
            }
            spell_out(-w * x * ((j - 1) % 2 ? -1. : 1.), done, r, g, out);
        }
    }
}
VF_GROUP(wick_oracle, 8, 4)
{
    auto& r        = c.rng;
    const Shape s{unsigned(1 + c.index % 3), 0};
    const unsigned n = s.size();
    const double J = r.real(0.5, 2), U = r.real(0.5, 4);
    const Values v = draw_values(r, s);
    c.describe(vf::cat("expansion on the Fock space, chain of ", n, " #", c.index), false);
    const liou::Corr g = [&](unsigned x, unsigned y) { return v(x, y); };
    const unsigned i = unsigned(r.below(n)), j = unsigned(r.below(n)), k = unsigned(r.below(n));
    const liou::Poly p = {{1., {{true, i, true}, {true, j, false}, {false, k, false}}}, {-g(j, k), {{true, i, true}}}};
    auto tofock = [&](const liou::Product& x) {
        fock::Product q;
        for(auto& o : x) {
            q.push_back({o.creator, o.site + (o.up ? 0 : n)});
        }
        return q;
    };
    fock::Sum b, got;
    for(auto& t : p) {
        b.push_back({t.first, tofock(t.second)});
    }
    for(auto& t : liou::commutator(s.sites(), J, U, p, g)) {
        std::vector<std::pair<double, liou::Product>> out;
        spell_out(t.second, {}, t.first, g, out);
        for(auto& o : out) {
            got.push_back({o.first, tofock(o.second)});
        }
    }
    const double d = fock::distance(got, fock::commutator(liou::hubbard(s.sites(), J, U), b), 2 * n);
    c.check(d < 1e-10, "oracle", "the Wick expansion misses the commutator by ", d);
    vf::observe("oracle_checks");
}
VF_GROUP(ground_state_1d, 16, 10)
{
    auto& r          = c.rng;
    const unsigned n = unsigned(r.range(1, 6));
    const double J = coupling(r), U = coupling(r), filling = r.chance(0.5) ? 0.5 : r.real(0.1, 0.9);
    c.describe(vf::cat("chain of ", n, " J=", J, " U=", U, " ground-state values, filling ", filling, " #", c.index),
               n > 1 && U != 0);
    const Chain lat{uint64_t(n), 1.};
    const rs::ExpectationValue1DHalfFilled<double, Chain> ev(lat, filling, filling * M_PI);
    three<double>(c, lat, Shape{n, 0}, J, U, [&](uint64_t a, uint64_t b) { return ev(a, b); });
}
VF_GROUP(ground_state_2d, 8, 10)
{
    auto& r           = c.rng;
    const unsigned nx = unsigned(r.range(1, 3)), ny = unsigned(r.range(1, 6 / nx));
    const double J = coupling(r), U = coupling(r);
    c.describe(vf::cat(nx, "x", ny, " lattice J=", J, " U=", U, " ground-state values #", c.index), nx * ny > 1 && U != 0);
    const Square lat{uint64_t(nx), uint64_t(ny)};
    const rs::ExpectationValue2DHalfFilled<double, Square> ev(lat);
    three<double>(c, lat, Shape{nx, ny}, J, U, [&](uint64_t a, uint64_t b) { return ev(a, b); });
}
VF_GROUP(kinetic, 300, 10)
{
    auto& r        = c.rng;
    const Shape s  = draw_shape(r, c.index % 60 == 17 ? 4000 : c.index % 4 ? 20 : 200, c.index % 60 == 17);
    const double J = coupling(r), U = coupling(r);
    const bool z   = r.coin();
    c.describe(vf::cat("kinetic ", s.text(), " J=", J, " U=", U, z ? " complex" : " double"), s.size() > 1 && J != 0);
    const auto want = liou::kinetic(s.sites(), J);
    on_lattice(s, r.real(0.3, 2), r.real(0.3, 2), [&](const auto& lat) {
        const B1 b(lat);
        auto run = [&](auto&& m) {
            rs::init_kinetic_matrix_no(rs::make_liouvillian<double>(J, U), m, b, lat);
            c.check(m.rows() == b.size() && m.columns() == b.size(), "shape", "matrix is ", m.rows(), "x", m.columns());
            for(uint64_t i = 0; i < m.rows(); ++i) {
                for(auto it = m.begin(i); it != m.end(i); ++it) {
                    c.check(want.count({i, it->index()}), "extra-entry", "kinetic entry at (", i, ",", it->index(), ")");
                    vf::observe("kinetic_entries");
                }
            }
            for(auto& w : want) {
                c.near(cd(m(w.first.first, w.first.second)), cd(w.second), 1e-14 * std::max(1., std::abs(J)), "kinetic",
                       "entry (", w.first.first, ",", w.first.second, ")");
            }
        };
        if(z) {
            run(blaze::CompressedMatrix<cd, blaze::rowMajor>());
        } else {
            run(blaze::CompressedMatrix<double, blaze::rowMajor>());
        }
    });
}
#ifndef VF_PLAIN
// the matrices handed to the integrator: i times the ones above
static void quiet_loggers()
{
    static const std::vector<spdlog::sink_ptr> none;
    auto& l = get_loggers();
    if(!l.main) {
        l.main = std::make_shared<spdlog::logger>("main", none.begin(), none.end());
        l.io   = l.main;
        l.ode  = l.main;
    }
}
template <typename Z, typename R>
static void rotated(vf::Case& c, const Z& z, const R& m, const char* what)
{
    c.check(z.rows() == m.rows() && z.columns() == m.columns(), "shape", what, " is ", z.rows(), "x", z.columns());
    c.check(z.nonZeros() == m.nonZeros(), "helper-entries", what, " has ", z.nonZeros(), " entries instead of ", m.nonZeros());
    for(uint64_t i = 0; i < m.rows(); ++i) {
        auto y = z.begin(i);
        for(auto x = m.begin(i); x != m.end(i); ++x, ++y) {
            c.check(y->index() == x->index() && y->value() == cd(0, 1) * cd(x->value()), "helper-value", what, " entry (", i, ",",
                    y->index(), ") is ", y->value(), " instead of i times ", x->value());
            vf::observe("rotated_entries");
        }
    }
}
VF_GROUP(helpers, 40, 10)
{
    auto& r        = c.rng;
    const Shape s  = draw_shape(r, 5);
    const double J = coupling(r), U = coupling(r);
    const auto g   = draw_values(r, s);
    c.describe(vf::cat("program matrices, ", s.text(), " J=", J, " U=", U, " ", g.text), s.size() > 1);
    quiet_loggers();
    on_lattice(s, r.real(0.3, 2), r.real(0.3, 2), [&](const auto& lat) {
        const auto L = rs::make_liouvillian<double>(J, U);
        const B3 b(lat);
        const B1 b1(lat);
        blaze::CompressedMatrix<cd, blaze::rowMajor> m;
        rs::init_matrix_no(L, m, b, lat, g);
        rotated(c, compute_matrix(L, b, lat, g), m, "matrix");
        rs::init_kinetic_matrix_no(L, m, b1, lat);
        rotated(c, compute_kinetic_matrix(L, b1, lat), m, "kinetic matrix");
    });
}
VF_REQUIRE(rotated_entries, 3000)
#endif
VF_REQUIRE(rows, 3000)
VF_REQUIRE(entries, 20000)
VF_REQUIRE(kinetic_entries, 5000)
VF_MAIN
