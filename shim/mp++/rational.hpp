// Stand-in for mppp::rational (see config.hpp).
#ifndef MPPP_RATIONAL_HPP
#define MPPP_RATIONAL_HPP

#include <mp++/integer.hpp>

namespace mppp
{

template <std::size_t SSize>
class rational
{
    integer<SSize> m_num, m_den;

public:
    using int_t = integer<SSize>;

    rational() : m_num(), m_den(1) {}
    rational(const rational &) = default;
    rational(rational &&o) : m_num(o.m_num), m_den(o.m_den) {}
    rational &operator=(const rational &) = default;
    rational &operator=(rational &&o)
    {
        return *this = static_cast<const rational &>(o);
    }
    template <detail::cpp_int T>
    explicit rational(T n) : m_num(n), m_den(1)
    {
    }
    template <detail::cpp_fp T>
    explicit rational(T x) : m_num(), m_den(1)
    {
        mpq_t q;
        mpq_init(q);
        mpq_set_d(q, static_cast<double>(x));
        mpz_set(m_num.z(), mpq_numref(q));
        mpz_set(m_den.z(), mpq_denref(q));
        mpq_clear(q);
    }
    explicit rational(const int_t &n) : m_num(n), m_den(1) {}
    template <typename A, typename B>
    requires((detail::cpp_int<A> || std::is_same_v<A, int_t>)&&(detail::cpp_int<B> || std::is_same_v<B, int_t>)) explicit rational(
        const A &n, const B &d)
        : m_num(n), m_den(d)
    {
        canonicalise();
    }
    rational &canonicalise()
    {
        if (m_den.is_zero()) {
            throw std::domain_error("zero denominator");
        }
        if (m_den.sgn() < 0) {
            m_num.neg();
            m_den.neg();
        }
        int_t g;
        mpz_gcd(g.z(), m_num.z(), m_den.z());
        if (!g.is_one()) {
            m_num /= g;
            m_den /= g;
        }
        return *this;
    }
    template <typename T>
    requires(detail::cpp_num<T> || std::is_same_v<T, int_t>) rational &operator=(const T &n)
    {
        return *this = rational(n);
    }
    const int_t &get_num() const
    {
        return m_num;
    }
    const int_t &get_den() const
    {
        return m_den;
    }
    int sgn() const
    {
        return m_num.sgn();
    }
    bool is_zero() const
    {
        return m_num.is_zero();
    }
    bool is_one() const
    {
        return m_num.is_one() && m_den.is_one();
    }
    bool is_negative_one() const
    {
        return m_num.is_negative_one() && m_den.is_one();
    }
    int_t &_get_num()
    {
        return m_num;
    }
    int_t &_get_den()
    {
        return m_den;
    }
    rational &abs()
    {
        m_num.abs();
        return *this;
    }
    rational &inv()
    {
        return *this = rational(m_den, m_num);
    }
    rational &neg()
    {
        m_num.neg();
        return *this;
    }
    rational operator-() const
    {
        rational r(*this);
        r.neg();
        return r;
    }
    explicit operator double() const
    {
        return static_cast<double>(m_num) / static_cast<double>(m_den);
    }
    friend rational operator+(const rational &a, const rational &b)
    {
        return rational(a.m_num * b.m_den + b.m_num * a.m_den, a.m_den * b.m_den);
    }
    friend rational operator-(const rational &a, const rational &b)
    {
        return rational(a.m_num * b.m_den - b.m_num * a.m_den, a.m_den * b.m_den);
    }
    friend rational operator*(const rational &a, const rational &b)
    {
        return rational(a.m_num * b.m_num, a.m_den * b.m_den);
    }
    friend rational operator/(const rational &a, const rational &b)
    {
        return rational(a.m_num * b.m_den, a.m_den * b.m_num);
    }
    friend bool operator==(const rational &a, const rational &b)
    {
        return a.m_num == b.m_num && a.m_den == b.m_den;
    }
    friend bool operator<(const rational &a, const rational &b)
    {
        return a.m_num * b.m_den < b.m_num * a.m_den;
    }
    friend bool operator!=(const rational &a, const rational &b)
    {
        return !(a == b);
    }
    friend bool operator>(const rational &a, const rational &b)
    {
        return b < a;
    }
    friend bool operator<=(const rational &a, const rational &b)
    {
        return !(b < a);
    }
    friend bool operator>=(const rational &a, const rational &b)
    {
        return !(a < b);
    }
#define MPPP_SHIM_QOP(op, rett)                                                                                        \
    template <typename T>                                                                                              \
    requires(detail::cpp_int<T> || std::is_same_v<T, int_t>) friend rett operator op(const rational &a, const T &b)    \
    {                                                                                                                  \
        return a op rational(b);                                                                                       \
    }                                                                                                                  \
    template <typename T>                                                                                              \
    requires(detail::cpp_int<T> || std::is_same_v<T, int_t>) friend rett operator op(const T &a, const rational &b)    \
    {                                                                                                                  \
        return rational(a) op b;                                                                                       \
    }
    MPPP_SHIM_QOP(+, rational)
    MPPP_SHIM_QOP(-, rational)
    MPPP_SHIM_QOP(*, rational)
    MPPP_SHIM_QOP(/, rational)
    MPPP_SHIM_QOP(==, bool)
    MPPP_SHIM_QOP(!=, bool)
    MPPP_SHIM_QOP(<, bool)
    MPPP_SHIM_QOP(<=, bool)
    MPPP_SHIM_QOP(>, bool)
    MPPP_SHIM_QOP(>=, bool)
#undef MPPP_SHIM_QOP
#define MPPP_SHIM_QFOP(op)                                                                                             \
    template <detail::cpp_fp T>                                                                                        \
    friend T operator op(const rational &a, T b)                                                                       \
    {                                                                                                                  \
        return static_cast<T>(static_cast<double>(a)) op b;                                                            \
    }                                                                                                                  \
    template <detail::cpp_fp T>                                                                                        \
    friend T operator op(T a, const rational &b)                                                                       \
    {                                                                                                                  \
        return a op static_cast<T>(static_cast<double>(b));                                                            \
    }
    MPPP_SHIM_QFOP(+)
    MPPP_SHIM_QFOP(-)
    MPPP_SHIM_QFOP(*)
    MPPP_SHIM_QFOP(/)
#undef MPPP_SHIM_QFOP
#define MPPP_SHIM_QIP(op)                                                                                              \
    template <typename T>                                                                                              \
    requires(detail::cpp_int<T> || std::is_same_v<T, int_t> || std::is_same_v<T, rational>) rational &operator op##=(  \
        const T &b)                                                                                                    \
    {                                                                                                                  \
        return *this = *this op b;                                                                                     \
    }
    MPPP_SHIM_QIP(+)
    MPPP_SHIM_QIP(-)
    MPPP_SHIM_QIP(*)
    MPPP_SHIM_QIP(/)
#undef MPPP_SHIM_QIP
    friend std::ostream &operator<<(std::ostream &os, const rational &q)
    {
        os << q.m_num;
        if (!q.m_den.is_one()) {
            os << '/' << q.m_den;
        }
        return os;
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_num;
        ar &m_den;
    }
};

#define MPPP_SHIM_Q3(nm, op)                                                                                           \
    template <std::size_t S>                                                                                           \
    inline rational<S> &nm(rational<S> &r, const rational<S> &a, const rational<S> &b)                                 \
    {                                                                                                                  \
        return r = a op b;                                                                                             \
    }
MPPP_SHIM_Q3(add, +)
MPPP_SHIM_Q3(sub, -)
MPPP_SHIM_Q3(mul, *)
MPPP_SHIM_Q3(div, /)
#undef MPPP_SHIM_Q3
template <std::size_t S>
inline rational<S> neg(const rational<S> &a)
{
    return -a;
}
template <std::size_t S>
inline rational<S> abs(const rational<S> &a)
{
    rational<S> r(a);
    r.abs();
    return r;
}
template <std::size_t S>
inline rational<S> inv(const rational<S> &a)
{
    rational<S> r(a);
    r.inv();
    return r;
}
template <std::size_t S>
inline int sgn(const rational<S> &a)
{
    return a.sgn();
}
template <std::size_t S>
inline bool is_zero(const rational<S> &a)
{
    return a.is_zero();
}
template <std::size_t S>
inline bool is_one(const rational<S> &a)
{
    return a.is_one();
}

template <std::size_t S>
inline std::size_t hash(const rational<S> &q)
{
    return hash(q.get_num()) + hash(q.get_den());
}

template <std::size_t S, typename T>
requires(detail::cpp_int<T> || std::is_same_v<T, integer<S>>) inline rational<S> pow(const rational<S> &b, const T &e)
{
    if (e >= T(0)) {
        return rational<S>(pow(b.get_num(), e), pow(b.get_den(), e));
    }
    return rational<S>(pow(b.get_den(), -integer<S>(e)), pow(b.get_num(), -integer<S>(e)));
}

} // namespace mppp

#endif
