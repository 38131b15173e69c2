// The checked arithmetic as it is compiled where the compiler has no built-in overflow checks.
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>

#include <obake/config.hpp>
#include <obake/detail/limits.hpp>
#include <obake/detail/to_string.hpp>
#include <obake/exceptions.hpp>
#include <obake/type_name.hpp>
#include <obake/type_traits.hpp>

#undef OBAKE_COMPILER_IS_GCC
#pragma push_macro("__has_builtin")
#undef __has_builtin
#define __has_builtin(x) 0
#include <obake/detail/safe_integral_arith.hpp>
#undef __has_builtin
#pragma pop_macro("__has_builtin")

namespace hx
{

template <typename T>
T isum(T a, T b)
{
    return obake::detail::safe_int_add(a, b);
}
template <typename T>
T idif(T a, T b)
{
    return obake::detail::safe_int_sub(a, b);
}

#define T2(T) (void)isum<T>(0, 0), (void)idif<T>(0, 0)
inline void instantiate()
{
    T2(bool), T2(char), T2(signed char), T2(unsigned char), T2(short), T2(unsigned short), T2(int), T2(unsigned), T2(long), T2(unsigned long);
    T2(long long), T2(unsigned long long), T2(__int128), T2(unsigned __int128);
}

} // namespace hx
