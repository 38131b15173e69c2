// Conversions, checked arithmetic and small value-level helpers; only public names are called.
#include <array>
#include <cmath>
#include <cstddef>
#include <iterator>
#include <ostream>
#include <string>
#include <type_traits>
#include <utility>

// The overloads for processors with a fast fused multiply-add.
#undef FP_FAST_FMAF
#undef FP_FAST_FMA
#undef FP_FAST_FMAL
#define FP_FAST_FMAF 1
#define FP_FAST_FMA 1
#define FP_FAST_FMAL 1

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/byte_size.hpp>
#include <obake/config.hpp>
#include <obake/detail/fcast.hpp>
#include <obake/detail/it_diff_check.hpp>
#include <obake/detail/make_array.hpp>
#include <obake/detail/safe_integral_arith.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/fma3.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/safe_cast.hpp>
#include <obake/math/safe_convert.hpp>
#include <obake/ranges.hpp>
#include <obake/tex_stream_insert.hpp>

#include <src/tex_stream_insert.cpp>

namespace hx
{

using Z = mppp::integer<1>;
using Q = mppp::rational<1>;

template <typename To, typename From>
bool conv(To &out, const From &n)
{
    return obake::safe_convert(out, n);
}
template <typename To, typename From>
To cast(const From &n)
{
    return obake::safe_cast<To>(n);
}
template <typename T>
T isum(T a, T b)
{
    return obake::detail::safe_int_add(a, b);
}
template <typename T>
T idif(T a, T b)
{
    return obake::detail::safe_int_sub(a, b);
}

// Source and target of an opaque conversion.
struct src_t {
};
struct dst_t {
    int v;
};
bool safe_convert(dst_t &, src_t &&);
bool safe_convert(dst_t &, const src_t &);
inline dst_t cast_op(const src_t &s)
{
    return obake::safe_cast<dst_t>(s);
}
inline dst_t cast_op_rv(src_t &&s)
{
    return obake::safe_cast<dst_t>(std::move(s));
}

// Iterators with given difference types.
template <typename D>
struct dit {
    using difference_type = D;
    using value_type = int;
    using pointer = int *;
    using reference = int &;
    using iterator_category = std::random_access_iterator_tag;
};
template <typename D, typename S>
void diffchk(S n)
{
    obake::detail::it_diff_check<dit<D>>(n);
}
struct cont {
    dit<short> begin();
    dit<int> begin() const;
    dit<short> end();
    dit<int> end() const;
    unsigned long size() const;
    bool empty() const;
};
inline void cdiff(cont &c)
{
    obake::detail::container_it_diff_check(c);
}
inline void ccdiff(const cont &c)
{
    obake::detail::container_it_diff_check(c);
}

inline void rng(int *b, int *e, int *&rb, int *&re)
{
    auto r = obake::detail::make_range(b, e);
    rb = obake::begin(r);
    re = obake::end(r);
}
struct box {
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
};
inline void bx(box &b, int *&rb, int *&re)
{
    rb = obake::begin(b);
    re = obake::end(b);
}
inline void bxc(const box &b, const int *&rb, const int *&re)
{
    rb = obake::begin(b);
    re = obake::end(b);
}
inline std::array<int, 3> marr(int a, int b, int c)
{
    return obake::detail::make_array(a, b, c);
}

inline std::size_t bs_z(const Z &n)
{
    return obake::byte_size(n);
}
inline std::size_t bs_q(const Q &n)
{
    return obake::byte_size(n);
}
template <typename T>
decltype(auto) dif(const T &x, const std::string &s)
{
    return obake::diff(x, s);
}
template <typename T>
void neg(T &a)
{
    obake::negate(a);
}
template <typename T>
void fma(T &a, const T &b, const T &c)
{
    obake::fma3(a, b, c);
}
template <typename T>
std::size_t bs(const T &n)
{
    return obake::byte_size(n);
}
inline void fma_z(Z &a, const Z &b, const Z &c)
{
    obake::fma3(a, b, c);
}
inline Z &neg_z(Z &a)
{
    return obake::negate(a);
}
inline Q &neg_q(Q &a)
{
    return obake::negate(a);
}
inline void neg_zr(Z &&a)
{
    obake::negate(std::move(a));
}
inline void neg_qr(Q &&a)
{
    obake::negate(std::move(a));
}
inline void tex_q(std::ostream &os, const Q &q)
{
    obake::tex_stream_insert(os, q);
}
inline void tex_i128(std::ostream &os, const __int128_t &n)
{
    obake::tex_stream_insert(os, n);
}
inline void tex_u128(std::ostream &os, const __uint128_t &n)
{
    obake::tex_stream_insert(os, n);
}

template <typename F, typename... Ts>
void each(F f)
{
    (f.template operator()<Ts>(), ...);
}
#define ALLINT                                                                                                             \
    bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long,          \
        unsigned long long, __int128_t, __uint128_t

struct arith_use {
    template <typename T>
    void operator()() const
    {
        isum<T>(T(0), T(0));
        idif<T>(T(0), T(0));
    }
};
template <typename T>
struct conv_from {
    template <typename To>
    void operator()() const
    {
        To t{};
        conv<To, T>(t, T(0));
    }
};
struct conv_use {
    template <typename T>
    void operator()() const
    {
        each<conv_from<T>, ALLINT>(conv_from<T>{});
        T t{};
        Z z;
        Q q;
        conv<Z, T>(z, t);
        conv<T, Z>(t, z);
        conv<Q, T>(q, t);
        conv<T, Q>(t, q);
        if constexpr (!std::is_same_v<T, bool>) {
            dif<T>(t, std::string());
            neg<T>(t);
        }
        bs<T>(t);
    }
};

inline void all()
{
    each<arith_use, ALLINT>(arith_use{});
    each<conv_use, ALLINT>(conv_use{});
    Z z;
    Q q;
    conv<Z, Q>(z, q);
    conv<Q, Z>(q, z);
    conv<Z, Z>(z, z);
    dif<Z>(z, std::string());
    dif<Q>(q, std::string());
    float f{};
    double d{};
    long double l{};
    neg<float>(f);
    neg<double>(d);
    neg<long double>(l);
    fma<float>(f, f, f);
    fma<double>(d, d, d);
    fma<long double>(l, l, l);
    bs<float>(f);
    bs<double>(d);
    bs<long double>(l);
    dif<float>(0, std::string());
    dif<double>(0, std::string());
    dif<long double>(0, std::string());
    cast<int, long>(0);
    cast<unsigned char, int>(0);
    cast<long, unsigned long>(0);
    cast<unsigned long, int>(0);
    cast<short, short>(0);
    cast<Z, int>(0);
    cast<int, Z>(z);
    cast<Z, Q>(q);
    diffchk<signed char, unsigned long>(0);
    diffchk<short, unsigned char>(0);
    diffchk<short, unsigned short>(0);
    diffchk<int, unsigned long>(0);
    diffchk<long, unsigned>(0);
    diffchk<long, unsigned long>(0);
    diffchk<long long, unsigned long long>(0);
}

} // namespace hx
