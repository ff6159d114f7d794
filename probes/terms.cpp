// vf:properties=C04,C08,C11
// the public operations on terms can be instantiated
#include <ieompp/algebra/operator.hpp>
#include <ieompp/algebra/term.hpp>
#include <ieompp/algebra/term/checks.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <complex>
#include <cstdint>
#include <list>
using namespace ieompp::algebra;
using Op = Operator<std::uint64_t, bool>;
using T  = Term<std::complex<double>, Op>;
int main()
{
    T t{1., {Op{true, 0, true}}};
    t.conjugate();
    std::list<T> in{t}, out;
    copy_as_unique_terms(in, out);
    const ieompp::lattices::PeriodicChain<double, std::uint64_t> k(4);
    return int(total_momentum<0>(t, k)) + total_spin<1>(t);
}
