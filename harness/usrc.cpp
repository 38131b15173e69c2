// The library's small compiled utilities, with entry points calling only public names.
#include <src/detail/atomic_flag_array.cpp>
#include <src/detail/fw_utils.cpp>
#include <src/detail/hc.cpp>
#include <src/detail/to_string.cpp>
#include <src/cf/cf_stream_insert.cpp>
#include <src/stack_trace.cpp>

#include <string>

namespace hx
{

template <typename T>
std::string to_str(const T &n)
{
    return obake::detail::to_string(n);
}

inline unsigned hconc()
{
    return obake::detail::hc();
}

inline void flags_make(std::size_t n)
{
    obake::detail::atomic_flag_array a(n);
}

inline std::atomic_flag &flags_at(obake::detail::atomic_flag_array &a, std::size_t n)
{
    return a[n];
}
inline const std::atomic_flag &flags_cat(const obake::detail::atomic_flag_array &a, std::size_t n)
{
    return a[n];
}

inline std::pair<void *, bool> fw_get(const std::type_info &tp, std::size_t s, void (*f)(void *))
{
    return obake::detail::fw_fetch_storage(tp, s, f);
}

struct fw_value {
    fw_value();
    ~fw_value();
    char data[1000];
};

inline fw_value &fw_inst()
{
    return obake::detail::fw_holder_class<fw_value>::get();
}

inline void cfs_i128(std::ostream &os, const __int128_t &n)
{
    obake::detail::cf_stream_insert(os, n);
}
inline void cfs_u128(std::ostream &os, const __uint128_t &n)
{
    obake::detail::cf_stream_insert(os, n);
}

template <typename T>
void use_int(T n)
{
    to_str(n);
}

inline void all()
{
    use_int<char>(0);
    use_int<signed char>(0);
    use_int<unsigned char>(0);
    use_int<short>(0);
    use_int<unsigned short>(0);
    use_int<int>(0);
    use_int<unsigned>(0);
    use_int<long>(0);
    use_int<unsigned long>(0);
    use_int<long long>(0);
    use_int<unsigned long long>(0);
    use_int<__int128_t>(0);
    use_int<__uint128_t>(0);
}

} // namespace hx
