// vf:rule=one case per type and trait, or per generated matrix, vector, message or list of arguments; distinct by that description; non-trivial unless empty
// vf:assume=Blaze replaced by a stand-in; scalars float, double, long double, complex and integers represent all of them
#include "vf.hpp"
#include <type_traits>
#include <typeinfo>
#include <blaze/Math.h>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/exception.hpp>
#include <ieompp/io/exception.hpp>
#include <ieompp/models/hubbard/operator_traits.hpp>
#include <ieompp/string.hpp>
#include <ieompp/types/blaze.hpp>
#include <ieompp/types/eigen/traits.hpp>
#include <ieompp/types/matrix_check.hpp>
#include <ieompp/types/names.hpp>
#include <ieompp/types/number.hpp>
namespace ty = ieompp::types;
namespace al = ieompp::algebra;
namespace hb = ieompp::models::hubbard;
using cd = std::complex<double>;
using cf = std::complex<float>;

// ---------------------------------------------------------------- names of numbers
template <typename T>
static void name(vf::Case& c, const std::string& cpp)
{
    const std::string got = ty::type_name<T>::name;
    c.check(got == cpp, "type-name", "type_name of ", cpp, " is ", got);
    // a signed, unsigned or floating-point name of the right width
    if(std::is_integral<T>::value && !std::is_same<T, bool>::value) {
        const auto want = vf::cat(std::is_signed<T>::value ? "" : "u", "int", 8 * sizeof(T), "_t");
        c.check(got == want, "type-name", "type_name of a ", sizeof(T), " byte integer is ", got);
    }
    vf::observe("names");
}
VF_GROUP(names, 12, 1)
{
    c.describe(vf::cat("name of number type ", c.index % 12), true);
    switch(c.index % 12) {
        case 0: name<bool>(c, "bool"); break;
        case 1: name<uint8_t>(c, "uint8_t"); break;
        case 2: name<uint16_t>(c, "uint16_t"); break;
        case 3: name<uint32_t>(c, "uint32_t"); break;
        case 4: name<uint64_t>(c, "uint64_t"); break;
        case 5: name<int8_t>(c, "int8_t"); break;
        case 6: name<int16_t>(c, "int16_t"); break;
        case 7: name<int32_t>(c, "int32_t"); break;
        case 8: name<int64_t>(c, "int64_t"); break;
        case 9: name<float>(c, "float"); break;
        case 10: name<double>(c, "double"); break;
        default: name<long double>(c, "long double"); break;
    }
}

// ---------------------------------------------------------------- matrices and vectors
enum Kind { none = 0, dense_matrix = 1, sparse_matrix = 2, row = 4, column = 8, sparse_vector = 16 };
template <typename T>
static void traits(vf::Case& c, const std::string& what, unsigned kind)
{
    c.describe("traits of " + what, true);
    const bool matrix = kind & (dense_matrix | sparse_matrix), vector = kind & (row | column);
    auto one = [&](bool got, bool want, const char* trait) {
        c.check(got == want, "trait", trait, " of ", what, " is ", got);
        vf::observe("traits");
        vf::observe(want ? "true_traits" : "false_traits");
    };
    one(ty::IsMatrix<T>::value, matrix, "IsMatrix");
    one(ty::IsVector<T>::value, vector, "IsVector");
    one(ty::IsRowVector<T>::value, kind & row, "IsRowVector");
    one(ty::IsColumnVector<T>::value, kind & column, "IsColumnVector");
    one(ty::IsBlazeDenseMatrix<T>::value, kind & dense_matrix, "IsBlazeDenseMatrix");
    one(ty::IsBlazeSparseMatrix<T>::value, kind & sparse_matrix, "IsBlazeSparseMatrix");
    one(ty::IsBlazeMatrix<T>::value, matrix, "IsBlazeMatrix");
    one(ty::IsBlazeVector<T>::value, vector, "IsBlazeVector");
}
template <typename T, typename S>
static void element(vf::Case& c, const std::string& what)
{
    c.check((std::is_same<typename ty::ScalarType<T>::Type, S>::value), "scalar", "ScalarType of ", what, " is ",
            typeid(typename ty::ScalarType<T>::Type).name());
    vf::observe("traits");
}
template <typename T>
static void index(vf::Case& c, const std::string& what)
{
    c.check((std::is_same<typename ty::IndexType<T>::Type, blaze::size_t>::value), "index", "IndexType of ", what, " is ",
            typeid(typename ty::IndexType<T>::Type).name());
    vf::observe("traits");
}
template <typename S>
static void all_of(vf::Case& c, const std::string& s, unsigned which)
{
    using namespace blaze;
    switch(which) {
#define VF_TYPE(n, kind, ...)                                       \
    case n:                                                         \
        traits<__VA_ARGS__>(c, #__VA_ARGS__ " with S = " + s, kind); \
        element<__VA_ARGS__, S>(c, #__VA_ARGS__ " with S = " + s);   \
        break;
        VF_TYPE(0, dense_matrix, DynamicMatrix<S, rowMajor>)
        VF_TYPE(1, dense_matrix, DynamicMatrix<S, columnMajor>)
        VF_TYPE(2, sparse_matrix, CompressedMatrix<S, rowMajor>)
        VF_TYPE(3, sparse_matrix, CompressedMatrix<S, columnMajor>)
        VF_TYPE(4, row, DynamicVector<S, rowVector>)
        VF_TYPE(5, column, DynamicVector<S, columnVector>)
        VF_TYPE(6, row, CompressedVector<S, rowVector>)
        VF_TYPE(7, column, CompressedVector<S, columnVector>)
        VF_TYPE(8, row, StaticVector<S, 3, rowVector>)
        VF_TYPE(9, column, StaticVector<S, 3, columnVector>)
        VF_TYPE(10, none, S)
#undef VF_TYPE
        default:
            c.describe("index types of containers of " + s, true);
            index<DynamicMatrix<S, rowMajor>>(c, "DynamicMatrix");
            index<DynamicMatrix<S, columnMajor>>(c, "DynamicMatrix");
            index<CompressedMatrix<S, rowMajor>>(c, "CompressedMatrix");
            index<CompressedMatrix<S, columnMajor>>(c, "CompressedMatrix");
            index<DynamicVector<S, rowVector>>(c, "DynamicVector");
            index<DynamicVector<S, columnVector>>(c, "DynamicVector");
            index<CompressedVector<S, rowVector>>(c, "CompressedVector");
            index<CompressedVector<S, columnVector>>(c, "CompressedVector");
    }
}
VF_GROUP(containers, 60, 1)
{
    const unsigned which = unsigned(c.index % 12);
    switch(c.index / 12 % 5) {
        case 0: all_of<double>(c, "double", which); break;
        case 1: all_of<cd>(c, "complex<double>", which); break;
        case 2: all_of<float>(c, "float", which); break;
        case 3: all_of<cf>(c, "complex<float>", which); break;
        default: all_of<int64_t>(c, "int64_t", which); break;
    }
}
VF_GROUP(eigen, 6, 1)
{
    auto one = [&](bool got, bool want, const char* trait) {
        c.check(got == want, "trait", trait, " is ", got);
        vf::observe("traits");
    };
    using namespace Eigen;
#define VF_TYPE(n, matrix, row, column, sparse, ...)                                              \
    case n:                                                                                       \
        c.describe("traits of Eigen " #__VA_ARGS__, true);                                        \
        one(ty::IsMatrix<__VA_ARGS__>::value, matrix, "IsMatrix of " #__VA_ARGS__);               \
        one(ty::IsVector<__VA_ARGS__>::value, row || column, "IsVector of " #__VA_ARGS__);        \
        one(ty::IsRowVector<__VA_ARGS__>::value, row, "IsRowVector of " #__VA_ARGS__);            \
        one(ty::IsColumnVector<__VA_ARGS__>::value, column, "IsColumnVector of " #__VA_ARGS__);   \
        one(ty::IsEigenSparseMatrix<__VA_ARGS__>::value, sparse, "IsEigenSparseMatrix of " #__VA_ARGS__); \
        break;
    switch(c.index % 6) {
        VF_TYPE(0, true, false, false, false, MatrixXd)
        VF_TYPE(1, true, false, false, false, Matrix<cd, 3, 4>)
        VF_TYPE(2, false, false, true, false, VectorXd)
        VF_TYPE(3, false, true, false, false, RowVectorXcd)
        VF_TYPE(4, true, false, false, true, SparseMatrix<double>)
        VF_TYPE(5, true, false, false, true, SparseMatrix<cd, RowMajor, long>)
    }
#undef VF_TYPE
}

// ---------------------------------------------------------------- dimensions, insertion
template <typename T>
static void dimensions(vf::Case& c, const T& m, std::size_t rows, std::size_t columns, const char* what)
{
    c.check(ty::MatrixDimensionInfo<T>::rows(m) == rows && ty::MatrixDimensionInfo<T>::columns(m) == columns, "dimensions",
            what, " of ", rows, " rows and ", columns, " columns is said to be ", ty::MatrixDimensionInfo<T>::rows(m), " x ",
            ty::MatrixDimensionInfo<T>::columns(m));
    vf::observe("dimensions");
}
VF_GROUP(sizes, 400, 20)
{
    auto& r = c.rng;
    using namespace blaze;
    const std::size_t m = r.below(12), n = r.chance(0.2) ? m : r.below(40);
    c.describe(vf::cat(m, " x ", n), m > 0 && n > 0);
    const DynamicMatrix<double, rowMajor> a(m, n);
    const DynamicMatrix<cd, columnMajor> b(m, n);
    const CompressedMatrix<cd, rowMajor> d(m, n);
    dimensions(c, a, m, n, "dense matrix");
    dimensions(c, b, m, n, "dense matrix");
    dimensions(c, d, m, n, "sparse matrix");
    c.check(ty::is_quadratic(a) == (m == n) && ty::is_quadratic(d) == (m == n), "quadratic", "is_quadratic of ", m, " x ", n);
    const DynamicVector<double, columnVector> v(n);
    const DynamicVector<cd, rowVector> w(n);
    dimensions(c, v, n, 1, "column vector");
    dimensions(c, w, 1, n, "row vector");
    CompressedVector<double, columnVector> x(n);
    CompressedVector<cd, rowVector> y(n);
    dimensions(c, x, n, 1, "sparse column vector");
    dimensions(c, y, 1, n, "sparse row vector");
}
template <typename T, typename I>
static void inserted(vf::Case& c)
{
    auto& r = c.rng;
    const std::size_t m = r.range(1, 12), n = r.range(1, 20);
    blaze::CompressedMatrix<T, blaze::rowMajor> a(m, n);
    std::map<std::pair<std::size_t, std::size_t>, T> want;
    for(uint64_t k = r.below(m * n + 1); k > 0; --k) {
        const std::size_t i = r.below(m), j = r.below(n);
        if(want.count({i, j})) {
            continue;
        }
        const T x       = T(r.real(-3, 3));
        want[{i, j}] = x;
        ty::matrix_insert(a, I(i), I(j), x);
    }
    c.describe(vf::cat(want.size(), " entries inserted into a ", m, " x ", n, " matrix of ", typeid(T).name(), ", index ", typeid(I).name()),
               !want.empty());
    c.check(a.nonZeros() == want.size(), "insert", a.nonZeros(), " entries instead of ", want.size());
    for(std::size_t i = 0; i < m; ++i) {
        for(std::size_t j = 0; j < n; ++j) {
            const auto w = want.find({i, j});
            c.check(static_cast<const blaze::CompressedMatrix<T, blaze::rowMajor>&>(a)(i, j) == (w == want.end() ? T() : w->second),
                    "insert", "entry (", i, ",", j, ")");
        }
    }
    vf::observe("entries_inserted", want.size());
}
VF_GROUP(insertion, 200, 20)
{
    switch(c.rng.below(3)) {
        case 0: inserted<double, uint64_t>(c); break;
        case 1: inserted<cd, uint32_t>(c); break;
        default: inserted<float, int>(c); break;
    }
}

// ---------------------------------------------------------------- operators of the Hubbard model
struct Nothing {
};
template <typename O, typename Space>
struct Spatial {
    static bool same() { return std::is_same<typename hb::SpatialIndexType<O>::Type, Space>::value; }
};
template <typename O>
struct Spatial<O, Nothing> {
    static bool same() { return true; }
};
template <typename Space, typename... I>
static void operators(vf::Case& c, const std::string& what, bool chain, bool square)
{
    using O = al::Operator<I...>;
    c.describe("Hubbard traits of Operator<" + what + ">", true);
    c.check(hb::Is1dHubbardOperator<O>::value == chain, "hubbard", "Is1dHubbardOperator of Operator<", what, ">");
    c.check(hb::Is2dHubbardOperator<O>::value == square, "hubbard", "Is2dHubbardOperator of Operator<", what, ">");
    c.check(hb::IsHubbardOperator<O>::value == (chain || square), "hubbard", "IsHubbardOperator of Operator<", what, ">");
    c.check(Spatial<O, Space>::same(), "spatial", "SpatialIndexType of Operator<", what, ">");
    vf::observe("operators");
}
VF_GROUP(hubbard, 21, 1)
{
    using std::string;
    switch(c.index % 21) {
#define VF_OP(n, chain, square, space, ...) \
    case n: operators<space, __VA_ARGS__>(c, #__VA_ARGS__, chain, square); break;
#define VF_PAIR(a, b) std::pair<a VF_COMMA b>
#define VF_COMMA ,
        VF_OP(0, true, false, uint64_t, uint64_t, bool)
        VF_OP(1, true, false, int, int, bool)
        VF_OP(2, true, false, uint8_t, uint8_t, bool)
        VF_OP(3, false, false, Nothing, string, bool)
        VF_OP(4, false, false, Nothing, double, bool)
        VF_OP(5, false, false, Nothing, int, int)
        VF_OP(6, false, false, Nothing, bool, int)
        VF_OP(7, false, false, Nothing, int)
        VF_OP(8, false, true, VF_PAIR(int, int), int, int, bool)
        VF_OP(9, false, true, VF_PAIR(uint64_t, int32_t), uint64_t, int32_t, bool)
        VF_OP(10, false, false, Nothing, int, string, bool)
        VF_OP(11, false, false, Nothing, string, int, bool)
        VF_OP(12, false, false, Nothing, int, int, int)
        VF_OP(13, false, false, Nothing, int, bool, char)
        VF_OP(14, false, false, Nothing, int, int, int, bool)
        VF_OP(15, false, false, Nothing, double, int, bool)
        VF_OP(16, false, false, Nothing, int, double, bool)
        VF_OP(17, false, false, Nothing, uint64_t, string)
        VF_OP(18, false, false, Nothing, uint64_t, uint64_t, char)
        VF_OP(19, false, true, VF_PAIR(uint8_t, long), uint8_t, long, bool)
        VF_OP(20, false, false, Nothing, float, float, bool)
    }
}

// ---------------------------------------------------------------- exceptions and composed strings
static std::string text(vf::Rng& r, std::size_t max, bool zero = false)
{
    std::string s(r.below(max + 1), ' ');
    for(auto& ch : s) {
        ch = char(r.chance(0.8) ? r.range(32, 126) : r.range(zero ? 0 : 1, 255));
    }
    return s;
}
template <typename E>
static void exceptions(vf::Case& c)
{
    auto& r         = c.rng;
    const auto file = text(r, 40), msg = text(r, r.chance(0.1) ? 3000 : 60);
    const std::size_t line = r.chance(0.1) ? ~std::size_t(0) : r.below(100000);
    const auto want = file + ":" + std::to_string(line) + ": " + msg;
    c.describe(vf::cat("exception of type ", typeid(E).name(), " with message ", want), true);
    auto caught = [&](const std::exception& e, const std::string& w, const char* how) {
        c.check(e.what() == w, "message", "exception ", how, " says '", e.what(), "' instead of '", w, "'");
        vf::observe("exceptions");
    };
    const auto e = ieompp::create_exception<E>(file, line, msg);
    caught(e, want, "created");
    const E copy(e);
    caught(copy, want, "copied");
    try {
        throw copy;
    } catch(const ieompp::Exception& x) {
        caught(x, want, "thrown");
        c.check(typeid(x) == typeid(E), "type", "caught as ", typeid(x).name());
    }
    const unsigned here = __LINE__ + 2;
    try {
        THROW(E, msg);
    } catch(const std::exception& x) {
        caught(x, vf::cat(__FILE__, ":", here, ": ", msg), "of THROW");
        c.check(typeid(x) == typeid(E), "type", "caught as ", typeid(x).name());
    }
    const E direct(msg), literal(msg.c_str());
    caught(direct, msg, "made of a string");
    caught(literal, msg, "made of a literal");
}
VF_GROUP(throwing, 300, 40)
{
    switch(c.rng.below(3)) {
        case 0: exceptions<ieompp::Exception>(c); break;
        case 1: exceptions<ieompp::NotImplemented>(c); break;
        default: exceptions<ieompp::io::IOException>(c); break;
    }
}
VF_GROUP(composed, 600, 40)
{
    auto& r      = c.rng;
    const auto a = text(r, 20, true), b = text(r, 300, true);
    const int64_t i  = int64_t(r()) >> r.below(64);
    const uint16_t u = uint16_t(r());
    const bool flag  = r.coin();
    const char ch    = char(r.range(33, 126));
    const double x   = double(r.range(-1000, 1000)) / 8;
    c.describe(vf::cat("compose of strings of ", a.size(), " and ", b.size(), " characters, ", i, ", ", u, ", ", ch, ", ", x), true);
    c.check(ieompp::compose() == "", "compose", "nothing gives something");
    c.check(ieompp::compose(a) == a, "compose", "a string alone is changed");
    c.check(ieompp::compose(a, i) == a + std::to_string(i), "compose", "gives ", ieompp::compose(a, i));
    c.check(ieompp::compose(i, a, u, b) == std::to_string(i) + a + std::to_string(u) + b, "compose", "string, integers");
    c.check(ieompp::compose(ch, '.', flag, "|", b.c_str()) == std::string(1, ch) + "." + (flag ? "1" : "0") + "|" + b.c_str(),
            "compose", "gives ", ieompp::compose(ch, '.', flag, "|", b.c_str()));
    const auto s = ieompp::compose(x);
    c.check(std::strtod(s.c_str(), nullptr) == x, "compose", x, " gives ", s);
    vf::observe("composed");
}

VF_REQUIRE(traits, 500)
VF_REQUIRE(true_traits, 100)
VF_REQUIRE(false_traits, 100)
VF_REQUIRE(dimensions, 1000)
VF_REQUIRE(entries_inserted, 1000)
VF_REQUIRE(operators, 21)
VF_REQUIRE(exceptions, 1000)
VF_REQUIRE(composed, 300)
VF_REQUIRE(names, 12)
VF_MAIN
