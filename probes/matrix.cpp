// vf:properties=C33
#include <blaze/Math.h>
#include <ieompp/types/blaze.hpp>
#include <ieompp/types/matrix_check.hpp>
#include <complex>
int main()
{
    blaze::DynamicMatrix<std::complex<double>> m(1, 1);
    return ieompp::types::is_hermitian(m) + ieompp::types::IsZero(m);
}
