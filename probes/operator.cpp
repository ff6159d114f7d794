// vf:properties=C06
// access to the indices of operators and temporaries, index types
#include <ieompp/algebra/operator.hpp>
#include <string>
using namespace ieompp::algebra;
static_assert(HasIndexOfType<Operator<int, bool>, bool>::value, "");
static_assert(!HasIndexOfType<Operator<int, bool>, std::string>::value, "");
int main()
{
    auto a = make_creator(1, 2, 3);
    return get_index<2>(a) + get_index<1>(make_creator(1, 2, 3)) + get_index<0>(make_annihilator(1, 2))
           + get_index<0>(make_annihilator(1));
}
