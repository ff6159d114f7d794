// used only when the build has not generated /repo/include/ieompp/version.hpp
#ifndef IEOMPP_VERSION_HPP_
#define IEOMPP_VERSION_HPP_
namespace ieompp
{
    constexpr auto version = "0.0.0-unknown";
} // namespace ieompp
#endif
