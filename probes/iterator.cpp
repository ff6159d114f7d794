// vf:properties=C16
#include <ieompp/iterators/integer_iterator.hpp>
int main()
{
    ieompp::iterators::IntegerIterator<int, true> i(3), j(4);
    ++i;
    --i;
    i++;
    i--;
    const int m = *(i++) + *(++i) + *(i--) + *(--i);
    i += 2 + m;
    i -= 1;
    auto k = 2 + i;
    auto l = 2 - i;
    return int(*k) + int(*l) + int(j - i) + int(*(i + 1)) + int(*(j - 1)) + (i < j);
}
