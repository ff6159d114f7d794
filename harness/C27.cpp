// vf:rule=one case per (lattice, J, U, element type, history of the matrix object); distinct by that description, every entry of the matrix compared per case; non-trivial from two sites and J, U not zero
// vf:assume=the closed form of the entries, compared with traces over the Fock space on every lattice of up to 5 sites, holds on the larger lattices, too; lattices of up to 9, some of up to 18 and a few of up to 43, sites (three-operator basis) and 200, some of up to 4000, sites (one-operator basis) represent all
#include "liou.hpp"
#include <blaze/Math.h>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/types/blaze.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/blaze_sparse.hpp>
namespace al = ieompp::algebra;
namespace rs = ieompp::models::hubbard_real_space;
using Op     = al::Operator<uint64_t, bool>;
using M      = al::Monomial<Op>;
using B1     = rs::Basis1Operator<M>;
using B3     = rs::Basis3Operator<M>;
using Chain  = ieompp::lattices::PeriodicChain<double, uint64_t>;
using Square = ieompp::lattices::PeriodicSquareLattice<double, uint64_t>;

struct Shape {
    unsigned nx, ny; // ny = 0: chain
    unsigned size() const { return ny ? nx * ny : nx; }
    liou::Sites sites() const { return ny ? liou::torus(nx, ny) : liou::ring(nx); }
    std::string text() const { return ny ? vf::cat(nx, "x", ny, " lattice") : vf::cat("chain of ", nx); }
};
static double coupling(vf::Rng& r)
{
    switch(r.below(6)) {
        case 0: return 0.;
        case 1: return 1.;
        case 2: return -r.real(0.01, 5);
        case 3: return (r.coin() ? 1 : -1) * std::pow(10., r.real(-11, 6));
        default: return r.real(0.01, 8);
    }
}

template <typename T, typename Mat>
static void compare(vf::Case& c, const Mat& m, const liou::Entries& want, double scale, uint64_t size,
                    const std::string& what)
{
    c.check(m.rows() == size && m.columns() == size, "shape", what, " is ", m.rows(), "x", m.columns());
    const double eps = std::numeric_limits<typename ieompp::types::RealType<T>::Type>::epsilon();
    uint64_t stored  = 0;
    for(uint64_t i = 0; i < size; ++i) {
        for(auto it = m.begin(i); it != m.end(i); ++it) {
            const auto w = want.find({i, it->index()});
            c.check(w != want.end(), "extra-entry", what, " has an entry ", it->value(), " at (", i, ",", it->index(),
                    "), where the commutator vanishes");
            ++stored;
        }
    }
    for(auto& w : want) {
        const std::complex<double> got(m(w.first.first, w.first.second));
        c.near(got, std::complex<double>(w.second), 8 * eps * std::max(scale, 1.), "entry", what, " entry (",
               w.first.first, ",", w.first.second, ")");
        const std::complex<double> other(m(w.first.second, w.first.first));
        c.near(other, std::conj(got), 16 * eps * std::max(scale, 1.), "hermitian", what, " at (", w.first.first, ",",
               w.first.second, ")");
    }
    vf::observe("entries", stored);
}

// what the assembly protocol leaves undefined is reported by the check on assembly (C31)
template <typename T, typename Basis, typename Lat, typename Pref>
static void build3(vf::Case& c, const Basis& basis, const Lat& lat, Pref J, Pref U, const liou::Entries& want,
                   double scale, const std::string& what)
{
    blaze::CompressedMatrix<T, blaze::rowMajor> m;
    // omitted couplings are 1
    const auto l = U != Pref(1) ? rs::make_liouvillian<Pref>(J, U) : J != Pref(1) ? rs::make_liouvillian<Pref>(J)
                                                                               : rs::make_liouvillian<Pref>();
    vf::observe("default_couplings", U == Pref(1));
    rs::init_matrix(l, m, basis, lat);
    compare<T>(c, m, want, scale, basis.size(), what);
    vf::observe("matrices");
}
template <typename T, typename Basis, typename Lat, typename Pref>
static void build1(vf::Case& c, const Basis& basis, const Lat& lat, Pref J, Pref U, const liou::Entries& want,
                   double scale, const std::string& what)
{
    blaze::CompressedMatrix<T, blaze::rowMajor> m;
    rs::init_kinetic_matrix(rs::make_liouvillian<Pref>(J, U), m, basis, lat);
    compare<T>(c, m, want, scale, basis.size(), what);
    vf::observe("matrices");
}
template <typename Lat>
static void types(vf::Case& c, const Lat& lat, const Shape& s, double J, double U, unsigned type, bool three)
{
    const double scale = 8 * std::abs(J) + std::abs(U);
    using cd           = std::complex<double>;
    using cf           = std::complex<vf::f32>;
    if(three) {
        const B3 b(lat);
        switch(type) {
            case 0: return build3<double, B3, Lat, double>(c, b, lat, J, U, liou::real_space(s.sites(), J, U), scale, "matrix of double");
            case 1: return build3<cd, B3, Lat, double>(c, b, lat, J, U, liou::real_space(s.sites(), J, U), scale, "matrix of complex<double>");
            case 2: return build3<cd, B3, Lat, cd>(c, b, lat, J, U, liou::real_space(s.sites(), J, U), scale, "complex matrix with complex couplings");
            case 3: return build3<vf::f32, B3, Lat, vf::f32>(c, b, lat, J, U, liou::real_space(s.sites(), vf::f32(J), vf::f32(U)), scale, "matrix of float");
            default: return build3<cf, B3, Lat, vf::f32>(c, b, lat, J, U, liou::real_space(s.sites(), vf::f32(J), vf::f32(U)), scale, "matrix of complex<float>");
        }
    }
    const B1 b(lat);
    switch(type) {
        case 0: return build1<double, B1, Lat, double>(c, b, lat, J, U, liou::kinetic(s.sites(), J), scale, "kinetic matrix of double");
        case 1: return build1<cd, B1, Lat, double>(c, b, lat, J, U, liou::kinetic(s.sites(), J), scale, "kinetic matrix of complex<double>");
        case 2: return build1<cd, B1, Lat, cd>(c, b, lat, J, U, liou::kinetic(s.sites(), J), scale, "complex kinetic matrix with complex couplings");
        case 3: return build1<vf::f32, B1, Lat, vf::f32>(c, b, lat, J, U, liou::kinetic(s.sites(), vf::f32(J)), scale, "kinetic matrix of float");
        default: return build1<cf, B1, Lat, vf::f32>(c, b, lat, J, U, liou::kinetic(s.sites(), vf::f32(J)), scale, "kinetic matrix of complex<float>");
    }
}
static void any(vf::Case& c, const Shape& s, double J, double U, unsigned type, bool three, double dx, double dy)
{
    if(s.ny) {
        const Square lat(uint64_t(s.nx), uint64_t(s.ny), dx, dy);
        types(c, lat, s, J, U, type, three);
    } else {
        const Chain lat(uint64_t(s.nx), dx);
        types(c, lat, s, J, U, type, three);
    }
}
static Shape draw_shape(vf::Rng& r, unsigned maxsites, bool big = false)
{
    if(big) { // at least about half of maxsites
        if(r.coin()) {
            return {unsigned(r.range(maxsites / 2, maxsites)), 0};
        }
        const unsigned a = unsigned(r.range(2, unsigned(std::sqrt(double(maxsites))))), b = unsigned(r.range((maxsites / a + 1) / 2, maxsites / a));
        return r.coin() ? Shape{a, b} : Shape{b, a};
    }
    if(r.coin()) {
        return {unsigned(r.range(1, maxsites)), 0};
    }
    const unsigned nx = unsigned(r.range(1, maxsites));
    return {nx, unsigned(r.range(1, std::max(1u, maxsites / nx)))};
}
static const char* type_name(unsigned t)
{
    static const char* n[] = {"double", "complex<double>", "complex couplings", "float", "complex<float>"};
    return n[t];
}
VF_GROUP(generated, 400, 20)
{
    auto& r       = c.rng;
    const Shape s = draw_shape(r, c.index % 100 == 17 && vf::st().scale > 0.2 ? 18 : c.index % 8 == 0 ? 9 : 6, c.index % 100 == 17);
    const double J = coupling(r), U = coupling(r), dx = r.coin() ? 1. : r.real(0.2, 3), dy = r.coin() ? 1. : r.real(0.2, 3);
    const unsigned type = unsigned(r.below(5));
    c.describe(vf::cat(s.text(), " J=", J, " U=", U, " spacing ", dx, ",", dy, " ", type_name(type)),
               s.size() > 1 && J != 0 && U != 0);
    any(c, s, J, U, type, true, dx, dy);
}
// more elements of the basis than 16 bits count
VF_GROUP(large, 2, 6)
{
    auto& r = c.rng;
    static const Shape shapes[] = {{6, 7}, {7, 6}, {3, 14}, {14, 3}, {2, 21}, {21, 2}};
    const Shape s  = c.index % 2 ? shapes[r.below(6)] : Shape{unsigned(r.range(41, 43)), 0};
    const double J = r.real(0.3, 3), U = r.real(0.3, 5);
    const unsigned type = unsigned(r.below(2));
    c.describe(vf::cat("large ", s.text(), " J=", J, " U=", U, " ", type_name(type)), true);
    any(c, s, J, U, type, true, 1., 1.);
    vf::observe("large_matrices");
}
VF_GROUP(kinetic, 200, 10)
{
    auto& r       = c.rng;
    const Shape s = draw_shape(r, c.index % 50 == 17 ? 4000 : c.index % 4 ? 20 : 200, c.index % 50 == 17);
    const double J = coupling(r), U = coupling(r), dx = r.coin() ? 1. : r.real(0.2, 3), dy = r.coin() ? 1. : r.real(0.2, 3);
    const unsigned type = unsigned(r.below(5));
    c.describe(vf::cat("kinetic ", s.text(), " J=", J, " U=", U, " spacing ", dx, ",", dy, " ", type_name(type)),
               s.size() > 1 && J != 0);
    any(c, s, J, U, type, false, dx, dy);
}
// the definition itself: scalar products at infinite temperature
static void by_traces(vf::Case& c, const Shape& s)
{
    auto& r          = c.rng;
    const unsigned n = s.size();
    const double J = r.real(0.3, 2), U = r.real(0.3, 6) * (r.chance(0.3) ? -1 : 1);
    c.describe(vf::cat("traces over the Fock space, ", s.text(), " J=", J, " U=", U), n > 1);
    std::vector<fock::Sum> basis;
    for(unsigned i = 0; i < n; ++i) {
        basis.push_back(liou::orthonormal1(i));
    }
    for(unsigned i = 0; i < n; ++i) {
        for(unsigned j = 0; j < n; ++j) {
            for(unsigned k = 0; k < n; ++k) {
                basis.push_back(liou::orthonormal3(n, i, j, k));
            }
        }
    }
    const auto t = liou::traces(liou::hubbard(s.sites(), J, U), basis, 2 * n);
    liou::Entries want;
    for(std::size_t i = 0; i < t.size(); ++i) {
        for(std::size_t j = 0; j < t.size(); ++j) {
            c.near(t[i][j].imag(), 0., 1e-12, "oracle", "traces are real");
            if(std::abs(t[i][j]) > 1e-9) {
                want[{i, j}] = t[i][j].real();
            }
        }
    }
    const double scale = 100 * (8 * std::abs(J) + std::abs(U)); // of rounding of the traces
    auto run           = [&](auto&& lat) {
        const B3 b(lat);
        build3<double>(c, b, lat, J, U, want, scale, "matrix of double");
        liou::Entries kin;
        for(auto& w : want) {
            if(w.first.first < n && w.first.second < n) {
                kin.insert(w);
            }
        }
        for(unsigned i = 0; i < n; ++i) {
            kin[{i, i}] -= U / 2;
            if(std::abs(kin[{i, i}]) < 1e-9) {
                kin.erase({i, i});
            }
        }
        const B1 b1(lat);
        build1<double>(c, b1, lat, J, U, kin, scale, "kinetic matrix of double");
    };
    if(s.ny) {
        run(Square(uint64_t(s.nx), uint64_t(s.ny)));
    } else {
        run(Chain(uint64_t(n), 1.));
    }
    vf::observe("trace_matrices");
}
VF_GROUP(traces_small, 12, 6)
{
    static const Shape s[] = {{1, 0}, {2, 0}, {3, 0}, {1, 1}, {2, 1}, {1, 2}, {3, 1}, {1, 3}, {4, 0}, {2, 2}, {4, 1}, {1, 4}};
    by_traces(c, s[c.index % 12]);
}
VF_GROUP(traces_five, 1, 4)
{
    static const Shape s[] = {{5, 0}, {5, 1}, {1, 5}};
    by_traces(c, s[c.index % 3]);
}
VF_REQUIRE(entries, 200000)
VF_REQUIRE(trace_matrices, 12)
VF_REQUIRE(default_couplings, 20)
VF_MAIN
