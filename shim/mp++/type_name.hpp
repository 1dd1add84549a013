#ifndef MPPP_TYPE_NAME_HPP
#define MPPP_TYPE_NAME_HPP
#include <boost/core/demangle.hpp>
#include <string>
#include <type_traits>
#include <typeinfo>
namespace mppp
{
template <typename T>
inline std::string type_name()
{
    using nr = std::remove_reference_t<T>;
    using np = std::remove_pointer_t<nr>;
    std::string s;
    if constexpr (std::is_pointer_v<nr>) {
        s = type_name<np>() + "*";
        if (std::is_const_v<nr>) s += " const";
        if (std::is_volatile_v<nr>) s += " volatile";
    } else {
        if constexpr (std::is_same_v<std::remove_cv_t<nr>, std::string>) {
            s = "std::string";
        } else {
            s = boost::core::demangle(typeid(nr).name());
        }
        if (std::is_const_v<nr> && std::is_volatile_v<nr>) s += " const volatile";
        else if (std::is_const_v<nr>) s += " const";
        else if (std::is_volatile_v<nr>) s += " volatile";
    }
    if (std::is_lvalue_reference_v<T>) s += " &";
    if (std::is_rvalue_reference_v<T>) s += " &&";
    return s;
}
} // namespace mppp
#endif
