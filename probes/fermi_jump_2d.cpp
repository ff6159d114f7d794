// vf:properties=C25
// vf:always
// the header can be used on its own
#include <ieompp/models/hubbard_real_space/fermi_jump/2d.hpp>
int main() {}
