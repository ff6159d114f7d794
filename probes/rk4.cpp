// vf:properties=C32
#include <blaze/Math.h>
#include <ieompp/types/blaze.hpp>
#include <ieompp/types/function_matrix.hpp>
#include <ieompp/ode/rk4.hpp>
#include <complex>
#include <cstddef>
int main()
{
    using cd = std::complex<double>;
    const ieompp::types::FunctionMatrix<cd, std::size_t> f(1, 1, [](std::size_t, std::size_t) { return cd(0, 1); });
    const blaze::DynamicMatrix<cd> m(1, 1);
    blaze::DynamicVector<cd> u(1);
    ieompp::ode::RK4<double> rk4(1, 0.1);
    rk4.step(f, u);
    rk4.step(m, u);
}
