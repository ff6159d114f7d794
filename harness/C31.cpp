// vf:rule=assembly: one case per (builder, history of lattices built into the same matrix object), distinct by that; lists: one case per generated triplet list, distinct by its entries; non-trivial when the list has several entries or the lattice several sites
// vf:assume=the stand-in for Blaze's CompressedMatrix enforces the documented preconditions of reserve/append/finalize; lattices of up to 8, some of up to 14 and a few of more than 40, sites (three-operator bases) and 60, some of up to 2000, sites (one-operator bases) represent all
#include "vf.hpp"
#include <algorithm>
#include <blaze/Math.h>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/types/blaze.hpp>
#include <ieompp/types/number.hpp>
#include <ieompp/types/triplet.hpp>
#include <ieompp/models/hubbard_momentum_space/basis.hpp>
#include <ieompp/models/hubbard_momentum_space/blaze_sparse.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/blaze_sparse.hpp>
#include <ieompp/models/hubbard_real_space/blaze_sparse_no.hpp>
namespace al = ieompp::algebra;
namespace rs = ieompp::models::hubbard_real_space;
namespace ms = ieompp::models::hubbard_momentum_space;
using Op     = al::Operator<uint64_t, bool>;
using M      = al::Monomial<Op>;
using cd     = std::complex<double>;
using Chain  = ieompp::lattices::PeriodicChain<double, uint64_t>;
using Square = ieompp::lattices::PeriodicSquareLattice<double, uint64_t>;

// ------------------------------------------------------------------ assembly
struct Job {
    unsigned builder; // 0 kinetic, 1 three-operator, 2 kinetic NO, 3 three-operator NO, 4 momentum space
    unsigned nx, ny;  // ny = 0: chain
    double J, U, g;
    std::string text() const
    {
        static const char* n[] = {"init_kinetic_matrix", "init_matrix", "init_kinetic_matrix_no", "init_matrix_no",
                                  "momentum-space init_matrix"};
        return vf::cat(n[builder], "(", ny ? vf::cat(nx, "x", ny) : vf::cat(nx), " J=", J, " U=", U, " g=", g, ")");
    }
};
static Job draw(vf::Rng& r)
{
    Job j;
    j.builder = unsigned(r.below(5));
    const unsigned max = j.builder == 0 || j.builder == 2 ? (r.below(20) ? 60 : 2000) : r.below(6) ? 4 : r.below(8) || vf::st().scale < 0.2 ? 8 : 14;
    j.nx = unsigned(r.range(1, max));
    j.ny = j.builder == 4 || r.coin() ? 0 : unsigned(r.range(1, std::max(1u, max / j.nx)));
    j.J  = r.chance(0.15) ? 0. : r.real(-2, 2);
    j.U  = r.chance(0.15) ? 0. : r.chance(0.2) ? 4 * j.J : r.real(-5, 5); // 4J: entries that cancel on two sites
    j.g  = r.real(-0.5, 1);
    return j;
}
template <typename Mat, typename Lat>
static void build_on(Mat& m, const Job& j, const Lat& lat)
{
    const auto l = rs::make_liouvillian<double>(j.J, j.U);
    const auto g = [&](uint64_t a, uint64_t b) { return a == b ? 0.5 : j.g / double(1 + std::min(a, b) + std::max(a, b) * 7); };
    switch(j.builder) {
        case 0: rs::init_kinetic_matrix(l, m, rs::Basis1Operator<M>(lat), lat); break;
        case 1: rs::init_matrix(l, m, rs::Basis3Operator<M>(lat), lat); break;
        case 2: rs::init_kinetic_matrix_no(l, m, rs::Basis1Operator<M>(lat), lat); break;
        default: rs::init_matrix_no(l, m, rs::Basis3Operator<M>(lat), lat, g);
    }
}
template <typename Mat>
static void build(Mat& m, const Job& j)
{
    if(j.builder == 4) {
        const Chain space{uint64_t(j.nx)}, lat{uint64_t(j.nx), 1.};
        ms::init_matrix(ms::make_liouvillian<double>(space, lat, j.J, j.U), m, ms::Basis3Operator<M>(0, space), lat);
    } else if(j.ny) {
        build_on(m, j, Square{uint64_t(j.nx), uint64_t(j.ny)});
    } else {
        build_on(m, j, Chain{uint64_t(j.nx), 1.});
    }
}
static uint64_t expected_size(const Job& j)
{
    const uint64_t n = j.ny ? uint64_t(j.nx) * j.ny : j.nx;
    return j.builder == 4 ? 1 + n * n : j.builder == 0 || j.builder == 2 ? n : n + n * n * n;
}
template <typename Mat>
static void inspect(vf::Case& c, const Mat& m, const Job& j, bool reused)
{
    auto& mon = blaze::shim::monitor();
    const std::string what = vf::cat(j.text(), reused ? " into a used matrix" : " into a fresh matrix");
    c.check(mon.breaches.empty(), "protocol", what, ": ", mon.breaches.empty() ? "" : mon.breaches[0]);
    const uint64_t n = expected_size(j);
    c.check(m.rows() == n && m.columns() == n, "shape", what, " gives a ", m.rows(), "x", m.columns(), " matrix");
    // only what was appended has to be finalised
    if(mon.appends || !mon.inserts) {
        c.check(m.finalized_rows() == n, "finalize", what, " finalised ", m.finalized_rows(), " of ", n, " rows");
        c.check(mon.finalizes == n, "finalize", what, " called finalize ", mon.finalizes, " times for ", n, " rows");
    }
    c.check(mon.appends + mon.inserts == m.nonZeros(), "stale", what, " put in ", mon.appends + mon.inserts,
            " entries, the matrix holds ", m.nonZeros());
    c.check(mon.appends <= m.capacity(), "capacity", what, " appended ", mon.appends, " entries to a capacity of ", m.capacity());
    vf::observe("appends", mon.appends);
    vf::observe("finalized_rows", mon.finalizes);
    vf::observe(reused ? "matrices_reused" : "matrices_fresh");
}
template <typename T>
static void history(vf::Case& c, int large = -1)
{
    auto& r            = c.rng;
    const unsigned len = large >= 0 ? 1 : unsigned(r.range(1, 4));
    std::vector<Job> jobs;
    std::string text;
    bool big = false;
    for(unsigned i = 0; i < len; ++i) {
        jobs.push_back(i && r.chance(0.3) ? jobs.back() : draw(r));
        if(large >= 0) { // more rows than 16 bits count
            static const unsigned side[][2] = {{41, 0}, {6, 7}, {3, 14}, {42, 0}, {7, 6}};
            static const unsigned which[]   = {1, 3, 4};
            auto& j   = jobs.back();
            j.builder = which[large % 3];
            const auto& s = side[r.below(5)];
            j.nx = j.builder == 4 ? unsigned(r.range(257, 270)) : s[0];
            j.ny = j.builder == 4 ? 0 : s[1];
            vf::observe("large_assemblies");
        }
        if(i && r.coin()) { // same lattice, other couplings
            const Job k        = draw(r);
            jobs.back().J      = k.J;
            jobs.back().U      = k.U;
        }
        text += (i ? ", then " : "") + jobs.back().text();
        big |= jobs.back().nx > 1;
    }
    c.describe(text, big);
    auto& mon = blaze::shim::monitor();
    blaze::CompressedMatrix<T, blaze::rowMajor> m;
    for(unsigned i = 0; i < len; ++i) {
        mon = blaze::shim::Monitor();
        build(m, jobs[i]);
        inspect(c, m, jobs[i], i != 0);
        mon = blaze::shim::Monitor();
        blaze::CompressedMatrix<T, blaze::rowMajor> fresh;
        build(fresh, jobs[i]);
        inspect(c, fresh, jobs[i], false);
        for(uint64_t row = 0; row < m.rows(); ++row) {
            c.check(m.nonZeros(row) == fresh.nonZeros(row), "reuse", jobs[i].text(), " leaves ", m.nonZeros(row),
                    " entries in row ", row, " of a used matrix and ", fresh.nonZeros(row), " in a fresh one");
            auto a = m.begin(row);
            for(auto b = fresh.begin(row); b != fresh.end(row); ++a, ++b) {
                c.check(a->index() == b->index() && std::abs(a->value() - b->value()) <= 1e-13 * (1 + std::abs(b->value())), "reuse",
                        jobs[i].text(), " differs between used and fresh matrix in row ", row);
            }
        }
    }
}
VF_GROUP(assembly_real, 220, 15) { history<double>(c); }
VF_GROUP(assembly_complex, 120, 15) { history<cd>(c); }
VF_GROUP(assembly_large, 3, 6) { history<double>(c, int(c.index)); }

// ------------------------------------------------------------------ triplet lists
template <typename S, typename I>
static S value(vf::Rng& r, std::vector<S>& used);
template <typename T>
struct Draw {
    static T get(vf::Rng& r) { return T(r.below(4) ? r.real(-4, 4) : r.range(-3, 3)); }
};
template <typename F>
struct Draw<std::complex<F>> {
    static std::complex<F> get(vf::Rng& r) { return {Draw<F>::get(r), Draw<F>::get(r)}; }
};
template <typename T>
struct Eps {
    static double get() { return std::is_integral<T>::value ? 0. : double(std::numeric_limits<T>::epsilon()); }
};
template <typename F>
struct Eps<std::complex<F>> {
    static double get() { return Eps<F>::get(); }
};
template <typename S, typename I>
static void list(vf::Case& c, const char* type)
{
    using List = ieompp::types::TripletList<S, I>;
    auto& r    = c.rng;
    const unsigned n = unsigned(c.index % 10 == 0 ? r.below(3) : c.index % 10 == 1 ? r.range(17, 400) : r.below(24));
    const unsigned cols = unsigned(r.range(1, r.coin() ? 5 : 60));
    const I row      = I(r.coin() ? r.below(100) : r.below(uint64_t(std::numeric_limits<I>::max())));
    // columns of matrices of every size: anywhere in the range of the index type
    const uint64_t most   = uint64_t(std::numeric_limits<I>::max());
    const uint64_t stride = r.chance(0.6) ? 1 : r.range(1, std::max<uint64_t>(1, most / cols >> r.below(30)));
    const uint64_t base   = r.chance(0.6) ? 0 : r.below(most - stride * (cols - 1));
    if(base + stride * (cols - 1) > most / 2) {
        vf::observe("lists_of_large_columns");
    }
    List l;
    std::string text;
    for(unsigned i = 0; i < n; ++i) {
        I col = I(base + stride * r.below(cols));
        S v   = Draw<S>::get(r);
        if(i && r.chance(0.3)) { // cancel or repeat an earlier entry
            const auto& o = l[r.below(l.size())];
            col           = o.column;
            v             = r.coin() ? S(-o.value) : o.value;
            if(r.chance(0.3)) { // cancels except for something small, though not vanishing
                v += S(r.real(-1, 1) * std::pow(10., -r.real(2, 13)));
            }
        } else if(r.chance(0.1)) {
            v = S(0);
        }
        l.emplace_back(row, col, v);
        if(i < 20) {
            text += vf::cat(" ", uint64_t(col), ":", v);
        }
    }
    c.describe(vf::cat("TripletList<", type, "> of ", n, " entries", text), n > 1);
    List sorted(l);
    sorted.sort();
    c.check(sorted.size() == l.size(), "sort", "sort() changes the number of entries to ", sorted.size());
    auto key = [](const List& x) {
        std::vector<std::tuple<uint64_t, uint64_t, double, double>> k;
        for(auto& t : x) {
            const cd v(t.value);
            k.emplace_back(uint64_t(t.row), uint64_t(t.column), v.real(), v.imag());
        }
        std::sort(k.begin(), k.end());
        return k;
    };
    c.check(key(sorted) == key(l), "sort", "sort() changes entries");
    for(unsigned i = 1; i < sorted.size(); ++i) {
        c.check(!(sorted[i].column < sorted[i - 1].column), "sort", "columns are not ascending after sort() at ", i);
    }
    std::map<I, std::pair<cd, double>> want; // sum and size
    for(auto& t : l) {
        auto& w = want[t.column];
        w.first += cd(t.value);
        w.second += std::abs(cd(t.value));
    }
    const bool unique = want.size() == l.size();
    c.check(sorted.has_unique_columns() == unique, "has-unique", "has_unique_columns() is ", sorted.has_unique_columns());
    const List before(sorted);
    const List merged = sorted.make_columns_unique();
    c.check(sorted.size() == before.size() && key(sorted) == key(before), "input-changed", "make_columns_unique() changes its list");
    c.check(merged.has_unique_columns(), "unique", "columns repeat after make_columns_unique()");
    for(unsigned i = 0; i < merged.size(); ++i) {
        const auto& t = merged[i];
        c.check(i == 0 || merged[i - 1].column < t.column, "order", "columns are not strictly ascending at ", i);
        c.check(t.row == row, "row", "entry ", i, " has row ", uint64_t(t.row));
        const auto w = want.find(t.column);
        c.check(w != want.end(), "extra", "column ", uint64_t(t.column), " was not in the list");
        c.check(t.value != S(0), "zero", "a vanishing entry stays in column ", uint64_t(t.column));
        c.near(cd(t.value), w->second.first, 8 * Eps<S>::get() * (n + 1) * w->second.second, "sum", "sum of column ", uint64_t(t.column));
        want.erase(w);
        vf::observe("merged_entries");
    }
    for(auto& w : want) { // dropped: must vanish to precision
        c.near(w.second.first, cd(0), Eps<S>::get() * (1.5 + 8 * (n + 1) * w.second.second), "dropped", "column ", uint64_t(w.first), " is missing");
        vf::observe("dropped_columns");
    }
    // unsorted input must still be sorted by sort() and merging must be idempotent
    const List again = merged.make_columns_unique();
    c.check(key(again) == key(merged), "idempotent", "merging twice changes the list");
    // assigning the result to the list itself, as the builders do
    sorted = sorted.make_columns_unique();
    c.check(key(sorted) == key(merged), "self-assign", "assigning the merged list to itself gives something else");
    vf::observe("lists");
}
VF_GROUP(lists_double, 4000, 20) { list<double, uint64_t>(c, "double"); }
VF_GROUP(lists_float, 2000, 20) { list<vf::f32, vf::u32>(c, "float"); }
VF_GROUP(lists_complex, 3000, 20) { list<cd, std::size_t>(c, "complex<double>"); }
VF_GROUP(lists_integer, 2000, 20) { list<int64_t, vf::i32>(c, "int64_t"); }
VF_REQUIRE(lists, 10000)
VF_REQUIRE(lists_of_large_columns, 1000)
VF_REQUIRE(appends, 100000)
VF_REQUIRE(matrices_reused, 200)
VF_REQUIRE(dropped_columns, 500)
VF_MAIN
