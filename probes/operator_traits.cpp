// vf:properties=C44
#include <ieompp/algebra/operator.hpp>
#include <ieompp/exception.hpp>
#include <ieompp/io/exception.hpp>
#include <ieompp/models/hubbard/operator_traits.hpp>
#include <ieompp/string.hpp>

#include <cstdint>
#include <string>
#include <type_traits>

using namespace ieompp;
using One = algebra::Operator<uint64_t, bool>;
using Two = algebra::Operator<uint64_t, uint64_t, bool>;
static_assert(models::hubbard::IsHubbardOperator<One>::value, "");
static_assert(models::hubbard::IsHubbardOperator<Two>::value, "");
static_assert(std::is_same<models::hubbard::SpatialIndexType<One>::Type, uint64_t>::value, "");
static_assert(std::is_same<models::hubbard::SpatialIndexType<Two>::Type, std::pair<uint64_t, uint64_t>>::value, "");
int main()
{
    try {
        THROW(io::IOException, compose("a", 1));
    } catch(const Exception& e) {
        return std::string(e.what()).empty();
    }
}
