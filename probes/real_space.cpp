// vf:properties=C24
#include <ieompp/models/hubbard_real_space/fermi_jump/2d.hpp>
#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/site_occupation.hpp>
#include <complex>
#include <cstdint>
#include <vector>
namespace rs = ieompp::models::hubbard_real_space;
using Op     = ieompp::algebra::Operator<std::uint64_t, bool>;
using Basis  = rs::Basis3Operator<ieompp::algebra::Monomial<Op>>;
int main()
{
    const ieompp::lattices::PeriodicChain<double, std::uint64_t> l(2, 1.);
    const Basis b(l), c(b.get_conjugate());
    auto g = [](const Op&, const Op&) { return 0.; };
    const rs::SiteOccupation<double, Basis> s{g, b, c, true};
    std::vector<std::complex<double>> v(b.size());
    return int(s(v)) + int(s.expectation_value(b[3], c[4]));
}
