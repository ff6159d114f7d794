// vf:properties=C44
#include <ieompp/types/blaze.hpp>
#include <ieompp/types/eigen/traits.hpp>
#include <ieompp/types/matrix_check.hpp>
#include <ieompp/types/names.hpp>
#include <ieompp/types/number.hpp>

#include <complex>

using namespace ieompp::types;
using Dense  = blaze::DynamicMatrix<std::complex<double>, blaze::rowMajor>;
using Sparse = blaze::CompressedMatrix<double, blaze::rowMajor>;
using Vector = blaze::DynamicVector<double, blaze::columnVector>;
static_assert(IsMatrix<Dense>::value && IsMatrix<Sparse>::value && !IsMatrix<Vector>::value, "");
static_assert(IsVector<Vector>::value && !IsVector<Dense>::value, "");
static_assert(IsMatrix<Eigen::MatrixXd>::value && IsVector<Eigen::VectorXd>::value, "");
int main()
{
    Sparse a(3, 3);
    matrix_insert(a, 1, 2, 0.5);
    return is_quadratic(a) && MatrixDimensionInfo<Dense>::rows(Dense(2, 3)) == 2 ? 0 : 1;
}
