// vf:rule=one case per (chain or square lattice, q, dispersion, U, element type); distinct by that description, every entry of the matrix compared per case; non-trivial from two sites and U not zero
// vf:assume=chains of up to 24, some of up to 70 and a few of up to 400, momenta and square lattices of up to 6x6 represent all of them; the closed form of the entries is compared with traces over the Fock space for up to 4 momenta
#include "liou.hpp"
#include "sea.hpp"
#include <blaze/Math.h>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/types/blaze.hpp>
#include <ieompp/types/number.hpp>
#include <ieompp/models/hubbard_momentum_space/basis.hpp>
#include <ieompp/models/hubbard_momentum_space/blaze_sparse.hpp>
namespace al = ieompp::algebra;
namespace ms = ieompp::models::hubbard_momentum_space;
using Op     = al::Operator<uint64_t, bool>;
using M      = al::Monomial<Op>;
using B3     = ms::Basis3Operator<M>;
using cd     = std::complex<double>;
template <typename F>
using Chain = ieompp::lattices::PeriodicChain<F, uint64_t>;

struct Table { // an arbitrary dispersion
    std::vector<double> e;
    double operator()(uint64_t k) const { return e.at(k); }
};
// entries from the elements of the basis, whatever their order, in closed form
template <typename Basis, typename E>
static liou::Entries closed(const Basis& b, const E& eps, double U, uint64_t n)
{
    liou::Entries e;
    for(uint64_t i = 0; i < b.size(); ++i) {
        if(i == 0) {
            e[{0, 0}] = eps(b[0][0].index1) + U / 2;
        } else {
            e[{i, i}] = eps(b[i][0].index1) + eps(b[i][1].index1) - eps(b[i][2].index1) + U / 2;
            e[{0, i}] = e[{i, 0}] = U / (2. * double(n));
        }
    }
    return e;
}
template <typename Mat>
static void compare(vf::Case& c, const Mat& m, const liou::Entries& want, double tol, uint64_t size)
{
    c.check(m.rows() == size && m.columns() == size, "shape", "matrix is ", m.rows(), "x", m.columns());
    for(uint64_t i = 0; i < size; ++i) {
        for(auto it = m.begin(i); it != m.end(i); ++it) {
            c.check(want.count({i, it->index()}), "extra-entry", "entry ", it->value(), " at (", i, ",", it->index(),
                    "), where the commutator vanishes");
            vf::observe("entries");
        }
    }
    for(auto& w : want) {
        c.near(cd(m(w.first.first, w.first.second)), cd(w.second), tol, "entry", "entry (", w.first.first, ",",
               w.first.second, ")");
        c.near(cd(m(w.first.second, w.first.first)), std::conj(cd(m(w.first.first, w.first.second))), 2 * tol,
               "hermitian", "entries (", w.first.first, ",", w.first.second, ")");
    }
    vf::observe("matrices");
}
template <typename T, typename F, typename Liou, typename Lat, typename E>
static void build(vf::Case& c, const Liou& l, const B3& b, const Lat& lat, const E& eps, double U, double scale)
{
    blaze::CompressedMatrix<T, blaze::rowMajor> m;
    ms::init_matrix(l, m, b, lat);
    const double prec = std::numeric_limits<typename ieompp::types::RealType<T>::Type>::epsilon();
    compare(c, m, closed(b, eps, U, lat.size()), 40 * std::max(prec, double(std::numeric_limits<F>::epsilon())) * scale,
            b.size());
}
static double coupling(vf::Rng& r)
{
    switch(r.below(5)) {
        case 0: return r.coin() ? 0. : 1.;
        case 1: return -r.real(0.01, 5);
        case 2: return std::pow(10., r.real(-6, 6));
        default: return r.real(0.01, 8);
    }
}
VF_GROUP(band, 400, 12)
{
    auto& r          = c.rng;
    const uint64_t n = r.range(c.index % 100 == 13 ? 8 : 1, c.index % 100 == 13 && vf::st().scale > 0.2 ? 70 : c.index % 10 ? 10 : 24), q = r.below(n);
    const double J = coupling(r), U = coupling(r), a = r.coin() ? 1. : r.real(0.2, 3);
    const unsigned type = unsigned(r.below(3));
    c.describe(vf::cat("band, N=", n, " q=", q, " J=", J, " U=", U, " spacing ", a, " type ", type), n > 1 && U != 0);
    auto eps = [&](uint64_t k) { return -2 * J * std::cos((-M_PI + 2 * M_PI * double(k) / double(n)) * a); };
    const double scale = 8 * std::abs(J) + std::abs(U);
    if(type == 2) {
        const Chain<vf::f32> space(n), lat(n, vf::f32(a));
        const B3 b(q, space);
        // single precision: the band itself is only that exact
        const auto l = ms::make_liouvillian<vf::f32>(space, lat, vf::f32(J), vf::f32(U));
        build<vf::f32, vf::f32>(c, l, b, lat, eps, U, 20 * scale);
    } else {
        const Chain<double> space(n), lat(n, a);
        const B3 b(q, space);
        // omitted couplings are 1
        const auto l = U != 1. ? ms::make_liouvillian<double>(space, lat, J, U)
                               : J != 1. ? ms::make_liouvillian<double>(space, lat, J) : ms::make_liouvillian<double>(space, lat);
        vf::observe("default_couplings", U == 1.);
        if(type) {
            build<cd, double>(c, l, b, lat, eps, U, 8 * scale);
        } else {
            build<double, double>(c, l, b, lat, eps, U, 8 * scale);
        }
    }
}
VF_GROUP(any_dispersion, 400, 12)
{
    auto& r          = c.rng;
    const uint64_t n = r.range(c.index % 100 == 13 ? 8 : 1, c.index % 100 == 13 && vf::st().scale > 0.2 ? 70 : c.index % 10 ? 10 : 24), q = r.below(n);
    const double U   = coupling(r);
    Table t;
    double s = std::abs(U);
    for(uint64_t i = 0; i < n; ++i) {
        t.e.push_back(r.number() * (r.chance(0.2) ? 1000 : 1));
        s = std::max(s, std::abs(t.e.back()));
    }
    const bool cplx = r.coin();
    c.describe(vf::cat("tabulated dispersion ", c.index, ", N=", n, " q=", q, " U=", U, cplx ? " complex" : " double"),
               n > 1 && U != 0);
    const Chain<double> space(n), lat(n, 1.);
    const B3 b(q, space);
    const ms::Liouvillian<double, Table> l{t, U};
    if(cplx) {
        build<cd, double>(c, l, b, lat, t, U, s);
    } else {
        build<double, double>(c, l, b, lat, t, U, s);
    }
}
template <typename F>
using Square = ieompp::lattices::PeriodicSquareLattice<F, uint64_t>;
VF_GROUP(square_band, 200, 12)
{
    auto& r           = c.rng;
    const uint64_t nx = r.range(1, 6), ny = r.range(1, c.index % 10 ? 3 : 6), n = nx * ny, q = r.below(n);
    const double J = coupling(r), U = coupling(r), ax = r.coin() ? 1. : r.real(0.2, 3), ay = r.coin() ? 1. : r.real(0.2, 3);
    const bool cplx = r.coin();
    c.describe(vf::cat("band, ", nx, "x", ny, " q=", q, " J=", J, " U=", U, " spacings ", ax, ",", ay, cplx ? " complex" : " double"), n > 1 && U != 0);
    auto eps = [&](uint64_t k) {
        return -2 * J * (std::cos((-M_PI + 2 * M_PI * double(k / ny) / double(nx)) * ax) + std::cos((-M_PI + 2 * M_PI * double(k % ny) / double(ny)) * ay));
    };
    const double scale = 16 * std::abs(J) + std::abs(U);
    const Square<double> space(nx, ny), lat(nx, ny, ax, ay);
    const B3 b(q, space);
    const auto l = U != 1. ? ms::make_liouvillian<double>(space, lat, J, U) : ms::make_liouvillian<double>(space, lat, J);
    if(cplx) {
        build<cd, double>(c, l, b, lat, eps, U, 8 * scale);
    } else {
        build<double, double>(c, l, b, space, eps, U, 8 * scale);
    }
    vf::observe("square_matrices");
}
// more sites than a byte counts: entries compared as they come, without a table of all expected
VF_GROUP(large, 4, 8)
{
    auto& r          = c.rng;
    const uint64_t n = r.range(257, c.index % 4 == 3 ? 400 : 290), q = r.below(n);
    const double J = coupling(r), U = coupling(r);
    c.describe(vf::cat("large, N=", n, " q=", q, " J=", J, " U=", U), U != 0);
    const Chain<double> space(n), lat(n, 1.);
    const B3 b(q, space);
    const auto l = ms::make_liouvillian<double>(space, lat, J, U);
    blaze::CompressedMatrix<double, blaze::rowMajor> m;
    ms::init_matrix(l, m, b, lat);
    const uint64_t size = 1 + n * n;
    c.check(b.size() == size && m.rows() == size && m.columns() == size, "shape", "basis of ", b.size(), ", matrix ", m.rows(), "x", m.columns());
    std::vector<double> e(n);
    for(uint64_t k = 0; k < n; ++k) {
        e[k] = -2 * J * std::cos(-M_PI + 2 * M_PI * double(k) / double(n));
    }
    const double tol = 40 * std::numeric_limits<double>::epsilon() * 8 * (8 * std::abs(J) + std::abs(U)), off = U / (2. * double(n));
    uint64_t seen = 0;
    for(uint64_t i = 0; i < size; ++i) {
        bool diagonal = false, coupled = false;
        uint64_t first_row = 0;
        for(auto it = m.begin(i); it != m.end(i); ++it) {
            const uint64_t j = it->index();
            const bool diag = i == j;
            const double want = diag ? (i == 0 ? e[b[0][0].index1] : e[b[i][0].index1] + e[b[i][1].index1] - e[b[i][2].index1]) + U / 2 : off;
            c.check(diag || i == 0 || j == 0, "extra-entry", "entry ", it->value(), " at (", i, ",", j, "), where the commutator vanishes");
            c.near(it->value(), want, tol, "entry", "entry (", i, ",", j, ")");
            diagonal = diagonal || diag;
            coupled  = coupled || j == 0;
            ++first_row;
            ++seen;
        }
        // an entry that vanishes need not be stored
        c.check(diagonal || std::abs((i == 0 ? e[b[0][0].index1] : e[b[i][0].index1] + e[b[i][1].index1] - e[b[i][2].index1]) + U / 2) <= tol, "entry", "no diagonal entry in row ", i);
        c.check(i == 0 ? first_row == size || off == 0. : coupled || off == 0., "entry", "row ", i, " lacks a coupling");
    }
    vf::observe("entries", seen);
    vf::observe("large_matrices");
}
// from the definition: scalar products at infinite temperature, modes being momenta
VF_GROUP(traces, 30, 6)
{
    auto& r           = c.rng;
    const bool square = c.index % 5 == 4;
    const uint64_t nx = square ? 2 : 1 + c.index % 5 % 4, ny = square ? 2 : 1, n = nx * ny, q = r.below(n);
    const double U   = r.real(0.3, 5) * (r.coin() ? 1 : -1);
    Table t;
    for(uint64_t i = 0; i < n; ++i) {
        t.e.push_back(r.real(-3, 3));
    }
    c.describe(vf::cat("traces, ", square ? "square " : "", "N=", n, " q=", q, " U=", U, " case ", c.index), n > 1);
    const unsigned N = unsigned(n);
    fock::Sum h;
    for(unsigned k = 0; k < N; ++k) {
        h.push_back({t.e[k], {{true, k}, {false, k}}});
        h.push_back({t.e[k], {{true, k + N}, {false, k + N}}});
        for(unsigned p = 0; p < N; ++p) {
            for(unsigned d = 0; d < N; ++d) {
                // k + d and p - d on the grid
                const unsigned kd = unsigned(sea::third(nx, ny, k, d, 0)), pd = unsigned(sea::third(nx, ny, p, 0, d));
                h.push_back({U / N, {{true, kd}, {false, k}, {true, pd + N}, {false, p + N}}});
            }
        }
    }
    const Chain<double> lat(n, 1.);
    const B3 b = square ? B3(q, Square<double>(nx, ny)) : B3(q, Chain<double>(n));
    std::vector<fock::Sum> basis;
    for(uint64_t i = 0; i < b.size(); ++i) {
        basis.push_back(i == 0 ? liou::orthonormal1(unsigned(b[0][0].index1))
                               : liou::orthonormal3(N, unsigned(b[i][0].index1), unsigned(b[i][1].index1), unsigned(b[i][2].index1)));
    }
    const auto tr = liou::traces(h, basis, 2 * N);
    liou::Entries want;
    for(std::size_t i = 0; i < tr.size(); ++i) {
        for(std::size_t j = 0; j < tr.size(); ++j) {
            // stored entries may vanish for accidental reasons on the diagonal only
            if(std::abs(tr[i][j]) > 1e-9 || i == j) {
                want[{i, j}] = tr[i][j].real();
            }
        }
    }
    blaze::CompressedMatrix<double, blaze::rowMajor> m;
    ms::init_matrix(ms::Liouvillian<double, Table>{t, U}, m, b, lat);
    compare(c, m, want, 1e-11, b.size());
    vf::observe("trace_matrices");
}
VF_REQUIRE(square_matrices, 150)
VF_REQUIRE(entries, 60000)
VF_REQUIRE(trace_matrices, 24)
VF_REQUIRE(default_couplings, 10)
VF_MAIN
