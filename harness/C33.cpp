// vf:rule=one case per matrix (shape, structure, perturbation, element type); distinct by that; every predicate and product of the case compared with the definition; non-trivial above 1x1
// vf:assume=matrices of up to 24, some of up to 130, rows represent all; entries differ either by less than 0.9 or by more than 1.1 of the tolerance
#include "vf.hpp"
#include <algorithm>
#include <omp.h>
#include <blaze/Math.h>
#include <Eigen/Dense>
#include <ieompp/types/blaze.hpp>
#include <ieompp/types/dot_product.hpp>
#include <ieompp/types/eigen/multiply_assign.hpp>
#include <ieompp/types/eigen/traits.hpp>
#include <ieompp/types/function_matrix.hpp>
#include <ieompp/types/matrix_check.hpp>
#include <ieompp/types/multiply_assign.hpp>
#include <ieompp/types/number.hpp>
namespace ty = ieompp::types;
using cd = std::complex<double>;

template <typename T>
struct Num {
    using Real = T;
    static constexpr bool cplx = false;
    static T draw(vf::Rng& r) { return T(r.range(-16, 16)) / T(4); }
    static T bump(vf::Rng& r, double d) { return T(r.coin() ? d : -d); }
    static T conj(T x) { return x; }
    static bool close(T a, T b) { return std::abs(a - b) < std::numeric_limits<T>::epsilon(); }
};
template <typename F>
struct Num<std::complex<F>> {
    using Real = F;
    using C    = std::complex<F>;
    static constexpr bool cplx = true;
    static C draw(vf::Rng& r) { return {Num<F>::draw(r), Num<F>::draw(r)}; }
    static C bump(vf::Rng& r, double d)
    {
        switch(r.below(3)) {
            case 0: return {Num<F>::bump(r, d), 0};
            case 1: return {0, Num<F>::bump(r, d)};
            default: return {Num<F>::bump(r, d), Num<F>::bump(r, d)};
        }
    }
    static C conj(C x) { return std::conj(x); }
    static bool close(C a, C b) { return Num<F>::close(a.real(), b.real()) && Num<F>::close(a.imag(), b.imag()); }
};
template <typename T>
using Rows = std::vector<std::vector<T>>;

// entries are multiples of 1/4 up to 4 (or tiny), so that differences of perturbed entries are exact up to 2 ulp
template <typename T>
static Rows<T> draw(vf::Rng& r, unsigned& rows, unsigned& cols, std::string& text)
{
    using N   = Num<T>;
    rows      = unsigned(r.chance(0.003) ? r.range(200, 450) : r.chance(0.002) ? r.range(60, 130) : r.chance(0.1) ? r.range(10, 24) : r.range(0, 7));
    cols      = rows;
    if(r.chance(0.15)) {
        cols = unsigned(r.range(0, 7));
    }
    Rows<T> m(rows, std::vector<T>(cols, T(0)));
    const unsigned kind = unsigned(r.below(7));
    static const char* names[] = {"general", "symmetric", "hermitian", "zero", "diagonal", "antisymmetric", "antihermitian"};
    for(unsigned i = 0; i < rows; ++i) {
        for(unsigned j = 0; j < cols; ++j) {
            const T x = N::draw(r);
            if(kind == 0) {
                m[i][j] = x;
            } else if(kind == 4 && i == j) {
                m[i][j] = x;
            } else if(kind == 1 || kind == 2 || kind == 5 || kind == 6) {
                const bool back = j < rows && i < cols && j < i;
                const T sign    = kind > 4 ? T(-1) : T(1);
                m[i][j] = !back ? x : sign * (kind == 2 || kind == 6 ? N::conj(m[j][i]) : m[j][i]);
                if(i == j && kind == 2) {
                    m[i][j] = (x + N::conj(x)) / T(2);
                } else if(i == j && kind == 5) {
                    m[i][j] = T(0);
                } else if(i == j && kind == 6) {
                    m[i][j] = (x - N::conj(x)) / T(2);
                }
            }
        }
    }
    text = vf::cat(names[kind], " ", rows, "x", cols);
    if(rows && cols && r.chance(0.7)) { // disturb one entry by some multiple of the tolerance
        static const double f[] = {0.25, 0.5, 0.75, 2., 4., 1e3, 1e10};
        const double factor     = f[r.below(7)];
        unsigned i = unsigned(r.below(rows)), j = unsigned(r.below(cols));
        if(r.chance(0.3)) { // corners and last rows
            i = r.coin() ? rows - 1 : 0;
            j = r.coin() ? cols - 1 : 0;
        }
        const double d = factor * double(std::numeric_limits<typename N::Real>::epsilon());
        // around zero every multiple of the tolerance is representable
        const bool sym = r.coin();
        if(factor < 1e3) {
            m[i][j] = T(0);
            if(sym && j < rows && i < cols) {
                m[j][i] = T(0);
            }
        }
        m[i][j] += N::bump(r, d);
        text += vf::cat(", entry (", i, ",", j, ") off by ", factor, " eps", sym ? " of zero" : "");
    }
    return m;
}
template <typename T>
static blaze::DynamicMatrix<T> dense(const Rows<T>& m, unsigned rows, unsigned cols)
{
    blaze::DynamicMatrix<T> d(rows, cols, T(0));
    for(unsigned i = 0; i < rows; ++i) {
        for(unsigned j = 0; j < cols; ++j) {
            d(i, j) = m[i][j];
        }
    }
    return d;
}
template <typename T>
static blaze::CompressedMatrix<T> sparse(const Rows<T>& m, unsigned rows, unsigned cols, vf::Rng& r)
{
    blaze::CompressedMatrix<T> d(rows, cols);
    const bool explicit_zeros = r.chance(0.3);
    for(unsigned i = 0; i < rows; ++i) {
        for(unsigned j = 0; j < cols; ++j) {
            if(m[i][j] != T(0) || (explicit_zeros && r.coin())) {
                d.insert(i, j, m[i][j]);
            }
        }
    }
    return d;
}
template <typename T, typename I>
static ty::FunctionMatrix<T, I> function(const Rows<T>& m, unsigned rows, unsigned cols)
{
    return ty::FunctionMatrix<T, I>(I(rows), I(cols), [m](I i, I j) { return m.at(std::size_t(i)).at(std::size_t(j)); });
}
template <typename T>
struct Truth {
    bool quadratic, symmetric = true, hermitian = true, zero = true;
    Truth(const Rows<T>& m, unsigned rows, unsigned cols) : quadratic(rows == cols)
    {
        for(unsigned i = 0; i < rows; ++i) {
            for(unsigned j = 0; j < cols; ++j) {
                zero &= Num<T>::close(m[i][j], T(0));
                if(quadratic) {
                    symmetric &= Num<T>::close(m[i][j], m[j][i]);
                    hermitian &= Num<T>::close(m[i][j], Num<T>::conj(m[j][i]));
                }
            }
        }
        symmetric &= quadratic;
        hermitian &= quadratic;
    }
};
template <typename Mat, typename T>
static void predicates(vf::Case& c, const Mat& m, const Truth<T>& t, const char* what)
{
    c.check(ty::is_quadratic(m) == t.quadratic, "quadratic", what, ": is_quadratic is ", !t.quadratic);
    c.check(ty::is_symmetric(m) == t.symmetric, "symmetric", what, ": is_symmetric is ", !t.symmetric);
    c.check(ty::is_hermitian(m) == t.hermitian, "hermitian", what, ": is_hermitian is ", !t.hermitian);
    vf::observe("predicates", 3);
    vf::observe(t.symmetric ? "symmetric" : "not_symmetric");
    vf::observe(t.hermitian ? "hermitian" : "not_hermitian");
}
template <typename T>
static void one(vf::Case& c, const char* type)
{
    auto& r = c.rng;
    unsigned rows, cols;
    std::string text;
    const Rows<T> m = draw<T>(r, rows, cols, text);
    c.describe(vf::cat(text, " of ", type, " #", c.index), rows > 1 && cols > 1);
    const Truth<T> t(m, rows, cols);
    const auto d = dense(m, rows, cols);
    const auto s = sparse(m, rows, cols, r);
    const auto f = vf::passed(r, function<T, std::size_t>(m, rows, cols));
    const auto g = function<T, int>(m, rows, cols);
    predicates(c, d, t, "dense matrix");
    predicates(c, s, t, "compressed matrix");
    predicates(c, f, t, "function matrix");
    predicates(c, g, t, "function matrix with int indices");
    c.check(ty::IsZero(d) == t.zero, "zero", "IsZero(dense) is ", !t.zero);
    c.check(ty::IsZero(s) == t.zero, "zero", "IsZero(compressed) is ", !t.zero);
    vf::observe(t.zero ? "zero" : "not_zero");
    // entries and dimensions
    c.check(f.rows() == rows && f.cols() == cols && g.rows() == int(rows) && g.cols() == int(cols), "dimensions",
            "function matrix reports ", f.rows(), "x", f.cols());
    using DI = ty::MatrixDimensionInfo<ty::FunctionMatrix<T, std::size_t>>;
    c.check(DI::rows(f) == rows && DI::columns(f) == cols, "dimensions", "MatrixDimensionInfo");
    static_assert(ty::is_function_matrix<ty::FunctionMatrix<T, int>>::value && !ty::is_function_matrix<blaze::DynamicMatrix<T>>::value, "");
    for(unsigned i = 0; i < rows; ++i) {
        for(unsigned j = 0; j < cols; ++j) {
            c.check(f(i, j) == m[i][j] && g(int(i), int(j)) == m[i][j], "entry", "entry (", i, ",", j, ")");
        }
    }
    // comparison with dense matrices and other function matrices
    using E = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
    E e(rows, cols);
    for(unsigned i = 0; i < rows; ++i) {
        for(unsigned j = 0; j < cols; ++j) {
            e(i, j) = m[i][j];
        }
    }
    c.check(f == e && !(f != e) && f == g && !(f != g) && g == f, "equality", "function matrix differs from its own entries");
    if(rows && cols) {
        const unsigned i = unsigned(r.below(rows)), j = unsigned(r.below(cols));
        auto o   = m;
        o[i][j] += Num<T>::bump(r, r.coin() ? 1. : 0.25);
        const auto x = function<T, std::size_t>(o, rows, cols);
        e(i, j)      = o[i][j];
        c.check(!(f == e) && f != e && !(f == x) && f != x && !(x == f), "equality", "matrices differing at (", i, ",", j, ") compare equal");
        vf::observe("inequalities");
    }
    {
        auto o = m;
        o.push_back(std::vector<T>(cols, T(0)));
        const auto x = function<T, std::size_t>(o, rows + 1, cols);
        c.check(!(f == x) && f != x && !(x == f) && x != f, "equality", "matrices with different numbers of rows compare equal");
        auto p = m;
        for(auto& row : p) {
            row.push_back(T(0));
        }
        const auto y = function<T, std::size_t>(p, rows, cols + 1);
        c.check(!(f == y) && f != y && !(y == f) && y != f, "equality", "matrices with different numbers of columns compare equal");
    }
    // printing
    {
        std::ostringstream got, want;
        got << f;
        want << std::fixed << std::setprecision(1) << std::showpos;
        for(unsigned i = 0; i < rows; ++i) {
            for(unsigned j = 0; j < cols; ++j) {
                want << m[i][j] << ' ';
            }
            want << '\n';
        }
        c.check(got.str() == want.str(), "print", "prints ", got.str(), " instead of ", want.str());
    }
    // products
    if(rows == cols) {
        omp_set_num_threads(int(r.range(1, 7)));
        const unsigned n = rows;
        blaze::DynamicVector<T, blaze::columnVector> v(n), v2(n), vd(n), vs(n);
        Eigen::Matrix<T, Eigen::Dynamic, 1> w(n);
        for(unsigned i = 0; i < n; ++i) {
            w(i) = v[i] = v2[i] = vd[i] = vs[i] = Num<T>::draw(r);
        }
        std::vector<T> want(n, T(0));
        double size = 0;
        for(unsigned i = 0; i < n; ++i) {
            double sum = 0;
            for(unsigned j = 0; j < n; ++j) {
                want[i] += m[i][j] * v[j];
                sum += std::abs(m[i][j]) * std::abs(v[j]);
            }
            size = std::max(size, sum);
        }
        ty::multiply_assign(f, v);
        ty::multiply_assign(g, v2);
        ty::multiply_assign(d, vd);
        ty::multiply_assign(s, vs);
        ty::multiply_assign(f, w);
        const double tol = size * (n + 4) * std::numeric_limits<typename Num<T>::Real>::epsilon();
        c.check(v.size() == n && v2.size() == n && vd.size() == n && vs.size() == n && w.size() == int(n), "product-size", "size after multiply_assign");
        for(unsigned i = 0; i < n; ++i) {
            c.near(v[i], want[i], tol, "product", "function matrix times Blaze vector, component ", i);
            c.near(v2[i], want[i], tol, "product", "function matrix (int) times Blaze vector, component ", i);
            c.near(vd[i], want[i], tol, "product", "dense matrix times vector, component ", i);
            c.near(vs[i], want[i], tol, "product", "compressed matrix times vector, component ", i);
            c.near(w(i), want[i], tol, "product", "function matrix times Eigen vector, component ", i);
        }
        vf::observe("products", 5);
    }
    {
        const unsigned n = unsigned(r.range(0, 30));
        blaze::DynamicVector<T, blaze::columnVector> a(n), b(n);
        T want(0);
        double size = 0;
        for(unsigned i = 0; i < n; ++i) {
            a[i] = Num<T>::draw(r);
            b[i] = Num<T>::draw(r);
            want += a[i] * b[i];
            size += std::abs(a[i] * b[i]);
        }
        c.near(ty::dot_product(a, b), want, size * (n + 4) * std::numeric_limits<typename Num<T>::Real>::epsilon(), "dot", "dot_product of ", n, " components");
    }
}
VF_GROUP(real_double, 6000, 20) { one<double>(c, "double"); }
VF_GROUP(real_float, 3000, 20) { one<float>(c, "float"); }
VF_GROUP(complex_double, 6000, 20) { one<cd>(c, "complex<double>"); }
VF_GROUP(complex_float, 3000, 20) { one<std::complex<float>>(c, "complex<float>"); }
VF_REQUIRE(predicates, 40000)
VF_REQUIRE(hermitian, 4000)
VF_REQUIRE(not_hermitian, 4000)
VF_REQUIRE(symmetric, 4000)
VF_REQUIRE(not_symmetric, 4000)
VF_REQUIRE(zero, 500)
VF_REQUIRE(products, 10000)
VF_MAIN
