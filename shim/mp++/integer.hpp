// GMP-backed stand-in for mppp::integer (see config.hpp).
#ifndef MPPP_INTEGER_HPP
#define MPPP_INTEGER_HPP

#include <cmath>
#include <cstddef>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>

#include <gmp.h>

#include <mp++/config.hpp>

namespace mppp
{

namespace detail
{
template <typename T>
struct is_int : std::is_integral<T> {
};
#if defined(MPPP_HAVE_GCC_INT128)
template <>
struct is_int<__int128_t> : std::true_type {
};
template <>
struct is_int<__uint128_t> : std::true_type {
};
#endif
template <typename T>
concept cpp_int = is_int<std::remove_cv_t<T>>::value;
template <typename T>
concept cpp_fp = std::is_same_v<T, float> || std::is_same_v<T, double>;
template <typename T>
concept cpp_num = cpp_int<T> || cpp_fp<T>;
} // namespace detail

template <std::size_t SSize>
class integer
{
    mpz_t m_z;

    template <typename T>
    static void set_int(mpz_t z, T n)
    {
        const bool neg = n < T(0);
        using u_t = unsigned __int128;
        u_t u = neg ? (u_t(0) - static_cast<u_t>(n)) : static_cast<u_t>(n);
        mpz_set_ui(z, static_cast<unsigned long>(u >> 64));
        mpz_mul_2exp(z, z, 64);
        mpz_add_ui(z, z, static_cast<unsigned long>(u));
        if (neg) {
            mpz_neg(z, z);
        }
    }

public:
    integer()
    {
        mpz_init(m_z);
    }
    integer(const integer &o)
    {
        mpz_init_set(m_z, o.m_z);
    }
    integer(integer &&o) noexcept
    {
        mpz_init(m_z);
        mpz_swap(m_z, o.m_z);
    }
    template <detail::cpp_int T>
    explicit integer(T n)
    {
        mpz_init(m_z);
        set_int(m_z, n);
    }
    template <detail::cpp_fp T>
    explicit integer(T x)
    {
        if (!std::isfinite(x)) {
            throw std::domain_error("non-finite value");
        }
        mpz_init_set_d(m_z, static_cast<double>(x));
    }
    explicit integer(const std::string &s)
    {
        if (mpz_init_set_str(m_z, s.c_str(), 10) != 0) {
            mpz_clear(m_z);
            throw std::invalid_argument("bad integer string");
        }
    }
    explicit integer(const char *s) : integer(std::string(s)) {}
    ~integer()
    {
        mpz_clear(m_z);
    }
    integer &operator=(const integer &o)
    {
        if (this != &o) {
            mpz_set(m_z, o.m_z);
        }
        return *this;
    }
    integer &operator=(integer &&o) noexcept
    {
        mpz_swap(m_z, o.m_z);
        return *this;
    }
    template <detail::cpp_num T>
    integer &operator=(T n)
    {
        return *this = integer(n);
    }

    bool is_static() const
    {
        return mpz_size(m_z) <= SSize;
    }
    std::size_t size() const
    {
        return mpz_size(m_z);
    }
    std::size_t nbits() const
    {
        return mpz_sgn(m_z) == 0 ? 0u : mpz_sizeinbase(m_z, 2);
    }
    int sgn() const
    {
        return mpz_sgn(m_z);
    }
    bool is_zero() const
    {
        return mpz_sgn(m_z) == 0;
    }
    bool is_one() const
    {
        return mpz_cmp_ui(m_z, 1) == 0;
    }
    bool is_dynamic() const
    {
        return !is_static();
    }
    bool is_negative_one() const
    {
        return mpz_cmp_si(m_z, -1) == 0;
    }
    bool odd_p() const
    {
        return mpz_odd_p(m_z) != 0;
    }
    bool even_p() const
    {
        return mpz_even_p(m_z) != 0;
    }
    bool promote()
    {
        return is_static();
    }
    bool demote()
    {
        return !is_static();
    }
    const mpz_t &get_mpz_t() const
    {
        return m_z;
    }
    integer &abs()
    {
        mpz_abs(m_z, m_z);
        return *this;
    }
    integer &neg()
    {
        mpz_neg(m_z, m_z);
        return *this;
    }
    const mpz_t &z() const
    {
        return m_z;
    }
    mpz_t &z()
    {
        return m_z;
    }
    std::string to_string() const
    {
        char *p = mpz_get_str(nullptr, 10, m_z);
        std::string s(p);
        void (*fr)(void *, std::size_t);
        mp_get_memory_functions(nullptr, nullptr, &fr);
        fr(p, s.size() + 1u);
        return s;
    }
    template <detail::cpp_int T>
    bool get(T &out) const
    {
        if (nbits() > 128u) {
            return false;
        }
        mpz_t a, lo;
        mpz_init(a);
        mpz_init(lo);
        mpz_abs(a, m_z);
        mpz_fdiv_r_2exp(lo, a, 64);
        mpz_fdiv_q_2exp(a, a, 64);
        const unsigned __int128 u
            = (static_cast<unsigned __int128>(mpz_get_ui(a)) << 64) | static_cast<unsigned __int128>(mpz_get_ui(lo));
        mpz_clear(a);
        mpz_clear(lo);
        const bool neg = sgn() < 0;
        const T cand = static_cast<T>(neg ? (static_cast<unsigned __int128>(0) - u) : u);
        if (integer(cand) == *this) {
            out = cand;
            return true;
        }
        return false;
    }
    template <detail::cpp_int T>
    explicit operator T() const
    {
        T r{};
        if (!get(r)) {
            throw std::overflow_error("integer conversion failure");
        }
        return r;
    }
    explicit operator double() const
    {
        return mpz_get_d(m_z);
    }
    explicit operator float() const
    {
        return static_cast<float>(mpz_get_d(m_z));
    }

    integer operator-() const
    {
        integer r(*this);
        r.neg();
        return r;
    }
    integer operator+() const
    {
        return *this;
    }
    integer &operator++()
    {
        mpz_add_ui(m_z, m_z, 1);
        return *this;
    }
    integer &operator--()
    {
        mpz_sub_ui(m_z, m_z, 1);
        return *this;
    }
    integer operator++(int)
    {
        integer r(*this);
        ++*this;
        return r;
    }
    integer operator--(int)
    {
        integer r(*this);
        --*this;
        return r;
    }

#define MPPP_SHIM_OP(op, fn)                                                                                           \
    integer &operator op##=(const integer &o)                                                                          \
    {                                                                                                                  \
        fn(m_z, m_z, o.m_z);                                                                                           \
        return *this;                                                                                                  \
    }                                                                                                                  \
    template <detail::cpp_int T>                                                                                       \
    integer &operator op##=(T o)                                                                                       \
    {                                                                                                                  \
        return *this op## = integer(o);                                                                                \
    }                                                                                                                  \
    template <detail::cpp_fp T>                                                                                        \
    integer &operator op##=(T o)                                                                                       \
    {                                                                                                                  \
        return *this = static_cast<T>(*this) op o;                                                                     \
    }                                                                                                                  \
    friend integer operator op(const integer &a, const integer &b)                                                     \
    {                                                                                                                  \
        integer r(a);                                                                                                  \
        r op## = b;                                                                                                    \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <detail::cpp_int T>                                                                                       \
    friend integer operator op(const integer &a, T b)                                                                  \
    {                                                                                                                  \
        return a op integer(b);                                                                                        \
    }                                                                                                                  \
    template <detail::cpp_int T>                                                                                       \
    friend integer operator op(T a, const integer &b)                                                                  \
    {                                                                                                                  \
        return integer(a) op b;                                                                                        \
    }                                                                                                                  \
    template <detail::cpp_fp T>                                                                                        \
    friend T operator op(const integer &a, T b)                                                                        \
    {                                                                                                                  \
        return static_cast<T>(a) op b;                                                                                 \
    }                                                                                                                  \
    template <detail::cpp_fp T>                                                                                        \
    friend T operator op(T a, const integer &b)                                                                        \
    {                                                                                                                  \
        return a op static_cast<T>(b);                                                                                 \
    }

    MPPP_SHIM_OP(+, mpz_add)
    MPPP_SHIM_OP(-, mpz_sub)
    MPPP_SHIM_OP(*, mpz_mul)
#undef MPPP_SHIM_OP

    integer &operator/=(const integer &o)
    {
        if (o.is_zero()) {
            throw std::domain_error("division by zero");
        }
        mpz_tdiv_q(m_z, m_z, o.m_z);
        return *this;
    }
    template <detail::cpp_int T>
    integer &operator/=(T o)
    {
        return *this /= integer(o);
    }
    friend integer operator/(const integer &a, const integer &b)
    {
        integer r(a);
        r /= b;
        return r;
    }
    template <detail::cpp_int T>
    friend integer operator/(const integer &a, T b)
    {
        return a / integer(b);
    }
    template <detail::cpp_int T>
    friend integer operator/(T a, const integer &b)
    {
        return integer(a) / b;
    }
    template <detail::cpp_fp T>
    friend T operator/(const integer &a, T b)
    {
        return static_cast<T>(a) / b;
    }
    template <detail::cpp_fp T>
    friend T operator/(T a, const integer &b)
    {
        return a / static_cast<T>(b);
    }
    integer &operator%=(const integer &o)
    {
        if (o.is_zero()) {
            throw std::domain_error("division by zero");
        }
        mpz_tdiv_r(m_z, m_z, o.m_z);
        return *this;
    }
    friend integer operator%(const integer &a, const integer &b)
    {
        integer r(a);
        r %= b;
        return r;
    }
    friend integer operator>>(const integer &a, unsigned n)
    {
        integer r;
        mpz_fdiv_q_2exp(r.m_z, a.m_z, n);
        return r;
    }
    friend integer operator<<(const integer &a, unsigned n)
    {
        integer r;
        mpz_mul_2exp(r.m_z, a.m_z, n);
        return r;
    }

    integer &operator>>=(unsigned n)
    {
        return *this = *this >> n;
    }
    integer &operator<<=(unsigned n)
    {
        return *this = *this << n;
    }
    template <detail::cpp_int T>
    integer &operator%=(T n)
    {
        return *this %= integer(n);
    }
    template <detail::cpp_int T>
    friend integer operator%(const integer &a, T b)
    {
        return a % integer(b);
    }

    static int cmp(const integer &a, const integer &b)
    {
        const int r = mpz_cmp(a.m_z, b.m_z);
        return (r > 0) - (r < 0);
    }

#define MPPP_SHIM_CMP(op)                                                                                              \
    friend bool operator op(const integer &a, const integer &b)                                                        \
    {                                                                                                                  \
        return cmp(a, b) op 0;                                                                                         \
    }                                                                                                                  \
    template <detail::cpp_int T>                                                                                       \
    friend bool operator op(const integer &a, T b)                                                                     \
    {                                                                                                                  \
        return cmp(a, integer(b)) op 0;                                                                                \
    }                                                                                                                  \
    template <detail::cpp_int T>                                                                                       \
    friend bool operator op(T a, const integer &b)                                                                     \
    {                                                                                                                  \
        return cmp(integer(a), b) op 0;                                                                                \
    }                                                                                                                  \
    template <detail::cpp_fp T>                                                                                        \
    friend bool operator op(const integer &a, T b)                                                                     \
    {                                                                                                                  \
        return static_cast<T>(a) op b;                                                                                 \
    }                                                                                                                  \
    template <detail::cpp_fp T>                                                                                        \
    friend bool operator op(T a, const integer &b)                                                                     \
    {                                                                                                                  \
        return a op static_cast<T>(b);                                                                                 \
    }

    MPPP_SHIM_CMP(==)
    MPPP_SHIM_CMP(!=)
    MPPP_SHIM_CMP(<)
    MPPP_SHIM_CMP(<=)
    MPPP_SHIM_CMP(>)
    MPPP_SHIM_CMP(>=)
#undef MPPP_SHIM_CMP

    friend std::ostream &operator<<(std::ostream &os, const integer &n)
    {
        return os << n.to_string();
    }

    template <typename Archive>
    void save(Archive &ar, unsigned) const
    {
        const std::string s = to_string();
        ar << s;
    }
    template <typename Archive>
    void load(Archive &ar, unsigned)
    {
        std::string s;
        ar >> s;
        *this = integer(s);
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned v)
    {
        if constexpr (Archive::is_saving::value) {
            save(ar, v);
        } else {
            load(ar, v);
        }
    }
};

template <detail::cpp_int T, std::size_t S>
inline bool get(T &out, const integer<S> &n)
{
    return n.get(out);
}

template <std::size_t S>
inline integer<S> &addmul(integer<S> &r, const integer<S> &a, const integer<S> &b)
{
    mpz_addmul(r.z(), a.z(), b.z());
    return r;
}

#define MPPP_SHIM_F3(nm, impl)                                                                                         \
    template <std::size_t S>                                                                                           \
    inline integer<S> &nm(integer<S> &r, const integer<S> &a, const integer<S> &b)                                     \
    {                                                                                                                  \
        impl(r.z(), a.z(), b.z());                                                                                     \
        return r;                                                                                                      \
    }
MPPP_SHIM_F3(submul, mpz_submul)
MPPP_SHIM_F3(add, mpz_add)
MPPP_SHIM_F3(sub, mpz_sub)
MPPP_SHIM_F3(mul, mpz_mul)
MPPP_SHIM_F3(tdiv_q, mpz_tdiv_q)
MPPP_SHIM_F3(divexact, mpz_divexact)
MPPP_SHIM_F3(gcd, mpz_gcd)
#undef MPPP_SHIM_F3
template <std::size_t S>
inline void tdiv_qr(integer<S> &q, integer<S> &r, const integer<S> &n, const integer<S> &d)
{
    mpz_tdiv_qr(q.z(), r.z(), n.z(), d.z());
}
template <std::size_t S>
inline integer<S> gcd(const integer<S> &a, const integer<S> &b)
{
    integer<S> r;
    mpz_gcd(r.z(), a.z(), b.z());
    return r;
}
template <std::size_t S>
inline integer<S> divexact(const integer<S> &a, const integer<S> &b)
{
    integer<S> r;
    mpz_divexact(r.z(), a.z(), b.z());
    return r;
}
template <std::size_t S>
inline integer<S> &neg(integer<S> &r, const integer<S> &a)
{
    mpz_neg(r.z(), a.z());
    return r;
}
template <std::size_t S>
inline integer<S> neg(const integer<S> &a)
{
    return -a;
}
template <std::size_t S>
inline integer<S> &abs(integer<S> &r, const integer<S> &a)
{
    mpz_abs(r.z(), a.z());
    return r;
}
template <std::size_t S>
inline integer<S> abs(const integer<S> &a)
{
    integer<S> r(a);
    r.abs();
    return r;
}
template <std::size_t S>
inline int cmp(const integer<S> &a, const integer<S> &b)
{
    return integer<S>::cmp(a, b);
}
template <std::size_t S>
inline int sgn(const integer<S> &a)
{
    return a.sgn();
}
template <std::size_t S>
inline bool is_zero(const integer<S> &a)
{
    return a.is_zero();
}
template <std::size_t S>
inline bool is_one(const integer<S> &a)
{
    return a.is_one();
}
template <std::size_t S>
inline bool is_negative_one(const integer<S> &a)
{
    return a.is_negative_one();
}
template <std::size_t S>
inline bool odd_p(const integer<S> &a)
{
    return a.odd_p();
}
template <std::size_t S>
inline bool even_p(const integer<S> &a)
{
    return a.even_p();
}
template <std::size_t S>
inline integer<S> &pow_ui(integer<S> &r, const integer<S> &b, unsigned long e)
{
    mpz_pow_ui(r.z(), b.z(), e);
    return r;
}
template <std::size_t S>
inline void swap(integer<S> &a, integer<S> &b) noexcept
{
    mpz_swap(a.z(), b.z());
}

template <std::size_t S>
inline std::size_t hash(const integer<S> &n)
{
    std::size_t r = static_cast<std::size_t>(n.sgn());
    for (std::size_t i = 0; i < n.size(); ++i) {
        r ^= static_cast<std::size_t>(mpz_getlimbn(n.z(), static_cast<mp_size_t>(i)));
    }
    return r;
}

namespace detail
{
template <std::size_t S>
inline integer<S> ipow(const integer<S> &b, const integer<S> &e)
{
    if (e.sgn() < 0) {
        if (b.is_zero()) {
            throw std::domain_error("zero to a negative power");
        }
        if (b.is_one()) {
            return b;
        }
        if ((-b).is_one()) {
            return mpz_odd_p(e.z()) ? b : -b;
        }
        return integer<S>{};
    }
    unsigned long u = 0;
    if (!e.get(u)) {
        throw std::overflow_error("exponent too large");
    }
    integer<S> r;
    mpz_pow_ui(r.z(), b.z(), u);
    return r;
}
} // namespace detail

template <std::size_t S>
inline integer<S> pow(const integer<S> &b, const integer<S> &e)
{
    return detail::ipow(b, e);
}
template <std::size_t S, detail::cpp_int T>
inline integer<S> pow(const integer<S> &b, const T &e)
{
    return detail::ipow(b, integer<S>(e));
}
template <std::size_t S, detail::cpp_int T>
inline integer<S> pow(const T &b, const integer<S> &e)
{
    return detail::ipow(integer<S>(b), e);
}
template <std::size_t S, detail::cpp_fp T>
inline T pow(const integer<S> &b, const T &e)
{
    return std::pow(static_cast<T>(b), e);
}
template <std::size_t S, detail::cpp_fp T>
inline T pow(const T &b, const integer<S> &e)
{
    return std::pow(b, static_cast<T>(e));
}

} // namespace mppp

namespace std
{
template <size_t S>
struct hash<mppp::integer<S>> {
    size_t operator()(const mppp::integer<S> &n) const
    {
        return mppp::hash(n);
    }
};
} // namespace std

#if __has_include(<fmt/format.h>)
#include <fmt/format.h>
#include <fmt/ostream.h>
template <std::size_t S>
struct fmt::formatter<mppp::integer<S>> : fmt::ostream_formatter {
};
#endif

#endif
