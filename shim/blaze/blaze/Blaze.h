#include <blaze/shim.hpp>
