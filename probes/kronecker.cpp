// vf:properties=C02,C09
// deltas of numbers and of names
#include <ieompp/algebra/kronecker.hpp>
#include <string>
int main()
{
    const auto a = ieompp::algebra::make_kronecker(1, 2);
    const auto b = ieompp::algebra::make_kronecker(std::string("a"), std::string("b"));
    return a.a == b.a;
}
