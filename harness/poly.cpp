// Operations on polynomials over archetypes of monomials and coefficients; only public names are called.
#include <src/series.cpp>

#include <ostream>
#include <string>
#include <utility>
#include <vector>

#include <obake/byte_size.hpp>
#include <obake/hash.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/fma3.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_homomorphic_hash.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/monomial_subs.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/series.hpp>
#include <obake/symbols.hpp>

namespace hx
{

using obake::symbol_idx;
using obake::symbol_idx_map;
using obake::symbol_idx_set;
using obake::symbol_map;
using obake::symbol_set;

// The scalars which come out of operations on monomials.
struct num {
    num();
    explicit num(int);
    num(const num &);
    num(num &&) noexcept;
    num &operator=(const num &);
    num &operator=(num &&) noexcept;
    ~num();
    num &operator+=(const num &);
    num &operator+=(num &&);
};
num operator*(const num &, const num &);
bool is_zero(const num &);

// Degrees.
struct deg {
    deg();
    explicit deg(int);
    deg(const deg &);
    deg(deg &&) noexcept;
    deg &operator=(const deg &);
    deg &operator=(deg &&) noexcept;
    ~deg();
};
bool operator<(const deg &, const deg &);
deg operator+(const deg &, const deg &);
struct lim {
};
bool operator<(const lim &, const deg &);
bool operator<(const deg &, const lim &);

// A monomial archetype.
#define HX_MONO(K)                                                                                                     \
    struct K {                                                                                                         \
        K();                                                                                                           \
        explicit K(const symbol_set &);                                                                                \
        K(const int *, const int *);                                                                                   \
        K(const K &);                                                                                                  \
        K(K &&) noexcept;                                                                                              \
        K &operator=(const K &);                                                                                       \
        K &operator=(K &&) noexcept;                                                                                   \
        ~K();                                                                                                          \
    };                                                                                                                 \
    std::size_t hash(const K &);                                                                                       \
    bool operator==(const K &, const K &);                                                                             \
    bool operator!=(const K &, const K &);                                                                             \
    bool key_is_zero(const K &, const symbol_set &);                                                                   \
    bool key_is_one(const K &, const symbol_set &);                                                                    \
    bool key_is_compatible(const K &, const symbol_set &);                                                             \
    void key_stream_insert(std::ostream &, const K &, const symbol_set &);                                             \
    K key_merge_symbols(const K &, const symbol_idx_map<symbol_set> &, const symbol_set &);                            \
    deg key_degree(const K &, const symbol_set &);                                                                     \
    deg key_p_degree(const K &, const symbol_idx_set &, const symbol_set &);                                           \
    void monomial_mul(K &, const K &, const K &, const symbol_set &);                                                  \
    K monomial_pow(const K &, const int &, const symbol_set &);                                                        \
    std::pair<num, K> monomial_subs(const K &, const symbol_idx_map<num> &, const symbol_set &);                       \
    std::pair<num, K> monomial_diff(const K &, const symbol_idx &, const symbol_set &);                                \
    std::pair<num, K> monomial_integrate(const K &, const symbol_idx &, const symbol_set &)

HX_MONO(mono);
HX_MONO(monh);
bool fit(const mono &, const mono &, const symbol_set &);
bool fit(const monh &, const monh &, const symbol_set &);
template <typename R1, typename R2>
bool monomial_range_overflow_check(R1 &&r1, R2 &&r2, const symbol_set &ss)
{
    return fit(*begin(r1), *begin(r2), ss);
}
std::size_t byte_size(const monh &);

} // namespace hx

namespace obake
{
template <>
inline constexpr bool monomial_hash_is_homomorphic<hx::monh> = true;
}

namespace hx
{

// Coefficients.
#define HX_CF(C)                                                                                                       \
    struct C {                                                                                                         \
        C();                                                                                                           \
        explicit C(int);                                                                                               \
        C(const C &);                                                                                                  \
        C(C &&) noexcept;                                                                                              \
        C &operator=(const C &);                                                                                       \
        C &operator=(C &&) noexcept;                                                                                   \
        ~C();                                                                                                          \
        C &operator+=(const C &);                                                                                      \
        C &operator+=(C &&);                                                                                           \
        C &operator-=(const C &);                                                                                      \
        C &operator*=(const C &);                                                                                      \
        C &operator*=(const num &);                                                                                    \
        C &operator-=(C &&);                                                                                           \
    };                                                                                                                 \
    bool is_zero(const C &);                                                                                           \
    void negate(C &);                                                                                                  \
    bool operator==(const C &, const C &);                                                                             \
    bool operator!=(const C &, const C &);                                                                             \
    std::ostream &operator<<(std::ostream &, const C &);                                                               \
    C operator*(const C &, const C &);                                                                                 \
    C operator+(const C &, const C &);                                                                                 \
    C operator*(const C &, const num &);                                                                               \
    C operator*(const num &, const C &);                                                                               \
    C pow(const C &, const int &);                                                                                     \
    C subs(const C &, const symbol_map<num> &);                                                                        \
    std::size_t byte_size(const C &)

// ca: its derivative is of another type, and so is its quotient by a scalar; cb: of the same type.
// ca has no fused multiplication and addition.
HX_CF(ca);
HX_CF(cb);
void fma3(cb &, const cb &, const cb &);
num diff(const ca &, const std::string &);
cb diff(const cb &, const std::string &);
cb operator/(const cb &, const num &);
num operator/(const ca &, const num &);

template <typename C>
using poly = obake::polynomial<mono, C>;
using pa = poly<ca>;
using pb = poly<cb>;
using ph = obake::polynomial<monh, cb>;

template <typename S>
auto gens_ss(const symbol_set &ss, const std::string &a)
{
    return obake::make_polynomials<S>(ss, a);
}
template <typename S>
auto gens_ss2(const symbol_set &ss, const std::string &a, const std::string &b)
{
    return obake::make_polynomials<S>(ss, a, b);
}
template <typename S>
auto gens_ssc(const symbol_set &ss, const char *a)
{
    return obake::make_polynomials<S>(ss, a);
}
template <typename S>
auto gens(const std::string &a)
{
    return obake::make_polynomials<S>(a);
}
template <typename S>
auto gens2(const std::string &a, const std::string &b)
{
    return obake::make_polynomials<S>(a, b);
}
template <typename S>
auto gensc(const char *a)
{
    return obake::make_polynomials<S>(a);
}

template <typename S>
auto mul(const S &x, const S &y)
{
    return x * y;
}
template <typename S>
auto tmul(const S &x, const S &y, const lim &d)
{
    return truncated_mul(x, y, d);
}
template <typename S>
auto tpmul(const S &x, const S &y, const lim &d, const symbol_set &s)
{
    return truncated_mul(x, y, d, s);
}
template <typename S>
auto pow_s(const S &x, const int &n)
{
    return obake::pow(x, n);
}
template <typename S>
auto subs_s(const S &x, const symbol_map<num> &m)
{
    return obake::subs(x, m);
}
template <typename S>
auto subs_m(S &&x, const symbol_map<num> &m)
{
    return obake::subs(std::move(x), m);
}
template <typename S>
void trunc(S &x, const lim &d)
{
    obake::truncate_degree(x, d);
}
template <typename S>
void ptrunc(S &x, const lim &d, const symbol_set &s)
{
    obake::truncate_p_degree(x, d, s);
}
template <typename S>
auto diff_s(const S &x, const std::string &s)
{
    return obake::diff(x, s);
}
template <typename S>
auto diff_m(S &&x, const std::string &s)
{
    return obake::diff(std::move(x), s);
}
template <typename S>
auto int_s(const S &x, const std::string &s)
{
    return obake::integrate(x, s);
}
template <typename S>
auto int_m(S &&x, const std::string &s)
{
    return obake::integrate(std::move(x), s);
}

#define HX_ALL(S)                                                                                                      \
    template auto gens_ss<S>(const symbol_set &, const std::string &);                                                 \
    template auto gens_ss2<S>(const symbol_set &, const std::string &, const std::string &);                           \
    template auto gens_ssc<S>(const symbol_set &, const char *);                                                       \
    template auto gens<S>(const std::string &);                                                                        \
    template auto gens2<S>(const std::string &, const std::string &);                                                  \
    template auto gensc<S>(const char *);                                                                              \
    template auto mul<S>(const S &, const S &);                                                                        \
    template auto tmul<S>(const S &, const S &, const lim &);                                                          \
    template auto tpmul<S>(const S &, const S &, const lim &, const symbol_set &);                                     \
    template auto pow_s<S>(const S &, const int &);                                                                    \
    template auto subs_s<S>(const S &, const symbol_map<num> &);                                                       \
    template auto subs_m<S>(S &&, const symbol_map<num> &);                                                            \
    template void trunc<S>(S &, const lim &);                                                                          \
    template void ptrunc<S>(S &, const lim &, const symbol_set &);                                                     \
    template auto diff_s<S>(const S &, const std::string &);                                                           \
    template auto diff_m<S>(S &&, const std::string &);                                                                \
    template auto int_s<S>(const S &, const std::string &);                                                            \
    template auto int_m<S>(S &&, const std::string &);

HX_ALL(pa)
HX_ALL(pb)
HX_ALL(ph)

} // namespace hx
