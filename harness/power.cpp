// Operations on power series over archetypes of monomials and coefficients; only public names are called.
#include <src/series.cpp>

#include <ostream>
#include <string>
#include <utility>


#include <obake/byte_size.hpp>
#include <obake/hash.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/safe_convert.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/monomial_subs.hpp>
#include <obake/power_series/power_series.hpp>
#include <obake/s11n.hpp>
#include <obake/series.hpp>
#include <obake/symbols.hpp>
#include <obake/tex_stream_insert.hpp>

namespace hx
{

using obake::symbol_idx;
using obake::symbol_idx_map;
using obake::symbol_idx_set;
using obake::symbol_map;
using obake::symbol_set;

struct num {
    num();
    explicit num(int);
    num(const num &);
    num(num &&) noexcept;
    num &operator=(const num &);
    num &operator=(num &&) noexcept;
    ~num();
    num &operator+=(const num &);
    num &operator+=(num &&);
};
num operator*(const num &, const num &);
bool is_zero(const num &);

// Degrees.
struct deg {
    deg();
    explicit deg(int);
    deg(const deg &);
    deg(deg &&) noexcept;
    deg &operator=(const deg &);
    deg &operator=(deg &&) noexcept;
    ~deg();
};
bool operator<(const deg &, const deg &);
bool operator==(const deg &, const deg &);
bool operator!=(const deg &, const deg &);
deg operator+(const deg &, const deg &);
deg operator-(const deg &, const deg &);
std::size_t hash(const deg &);
std::ostream &operator<<(std::ostream &, const deg &);
void tex_stream_insert(std::ostream &, const deg &);
template <typename A>
void serialize(A &, deg &, unsigned);
// What a degree can be given as.
struct lim {
};
bool safe_convert(deg &, const lim &);

struct mono {
    mono();
    explicit mono(const symbol_set &);
    mono(const int *, const int *);
    mono(const mono &);
    mono(mono &&) noexcept;
    mono &operator=(const mono &);
    mono &operator=(mono &&) noexcept;
    ~mono();
};
std::size_t hash(const mono &);
bool operator==(const mono &, const mono &);
bool operator!=(const mono &, const mono &);
bool key_is_zero(const mono &, const symbol_set &);
bool key_is_one(const mono &, const symbol_set &);
bool key_is_compatible(const mono &, const symbol_set &);
void key_stream_insert(std::ostream &, const mono &, const symbol_set &);
void key_tex_stream_insert(std::ostream &, const mono &, const symbol_set &);
mono key_merge_symbols(const mono &, const symbol_idx_map<symbol_set> &, const symbol_set &);
deg key_degree(const mono &, const symbol_set &);
deg key_p_degree(const mono &, const symbol_idx_set &, const symbol_set &);
void monomial_mul(mono &, const mono &, const mono &, const symbol_set &);
mono monomial_pow(const mono &, const int &, const symbol_set &);
std::pair<num, mono> monomial_subs(const mono &, const symbol_idx_map<num> &, const symbol_set &);
std::pair<num, mono> monomial_diff(const mono &, const symbol_idx &, const symbol_set &);
std::pair<num, mono> monomial_integrate(const mono &, const symbol_idx &, const symbol_set &);
bool fit(const mono &, const mono &, const symbol_set &);
template <typename R1, typename R2>
bool monomial_range_overflow_check(R1 &&r1, R2 &&r2, const symbol_set &ss)
{
    return fit(*begin(r1), *begin(r2), ss);
}

#define HX_CF(C)                                                                                                       \
    struct C {                                                                                                         \
        C();                                                                                                           \
        explicit C(int);                                                                                               \
        C(const C &);                                                                                                  \
        C(C &&) noexcept;                                                                                              \
        C &operator=(const C &);                                                                                       \
        C &operator=(C &&) noexcept;                                                                                   \
        ~C();                                                                                                          \
        C &operator+=(const C &);                                                                                      \
        C &operator+=(C &&);                                                                                           \
        C &operator-=(const C &);                                                                                      \
        C &operator-=(C &&);                                                                                           \
        C &operator*=(const C &);                                                                                      \
        C &operator*=(const num &);                                                                                    \
    };                                                                                                                 \
    bool is_zero(const C &);                                                                                           \
    void negate(C &);                                                                                                  \
    bool operator==(const C &, const C &);                                                                             \
    bool operator!=(const C &, const C &);                                                                             \
    std::ostream &operator<<(std::ostream &, const C &);                                                               \
    void tex_stream_insert(std::ostream &, const C &);                                                                 \
    C operator*(const C &, const C &);                                                                                 \
    C operator+(const C &, const C &);                                                                                 \
    C operator-(const C &, const C &);                                                                                 \
    C operator*(const C &, const num &);                                                                               \
    C operator*(const num &, const C &);                                                                               \
    C pow(const C &, const int &);                                                                                     \
    C subs(const C &, const symbol_map<num> &)

// cb can be integrated term by term, ca cannot.
HX_CF(ca);
HX_CF(cb);
num diff(const ca &, const std::string &);
cb diff(const cb &, const std::string &);
cb operator/(const cb &, const num &);
num operator/(const ca &, const num &);

template <typename C>
using ps_t = obake::p_series<mono, C>;
using psa = ps_t<ca>;
using psb = ps_t<cb>;
using cof = cb;

template <typename S>
auto add(const S &x, const S &y)
{
    return x + y;
}
template <typename S>
auto sub(const S &x, const S &y)
{
    return x - y;
}
template <typename S>
auto add_m(S &&x, S &&y)
{
    return std::move(x) + std::move(y);
}
template <typename S>
auto sub_m(S &&x, S &&y)
{
    return std::move(x) - std::move(y);
}
template <typename S>
void iadd(S &x, const S &y)
{
    x += y;
}
template <typename S>
void isub(S &x, const S &y)
{
    x -= y;
}
template <typename S>
void iadd_m(S &x, S &&y)
{
    x += std::move(y);
}
template <typename S>
void isub_m(S &x, S &&y)
{
    x -= std::move(y);
}
template <typename S, typename C>
auto add_c(const S &x, const C &c)
{
    return x + c;
}
template <typename S, typename C>
auto sub_c(const S &x, const C &c)
{
    return x - c;
}
template <typename S, typename C>
auto c_sub(const C &c, const S &x)
{
    return c - x;
}
template <typename S, typename C>
void iadd_c(S &x, const C &c)
{
    x += c;
}
template <typename S, typename C>
void isub_c(S &x, const C &c)
{
    x -= c;
}
template <typename S>
auto mul(const S &x, const S &y)
{
    return x * y;
}
template <typename S>
auto pow_s(const S &x, const int &n)
{
    return obake::pow(x, n);
}
template <typename S>
auto int_s(const S &x, const std::string &s)
{
    return obake::integrate(x, s);
}
template <typename S>
auto diff_s(const S &x, const std::string &s)
{
    return obake::diff(x, s);
}
template <typename S>
auto subs_s(const S &x, const symbol_map<num> &m)
{
    return obake::subs(x, m);
}
template <typename S>
void trunc_d(S &x, const deg &d)
{
    obake::truncate_degree(x, d);
}
template <typename S>
void trunc_p(S &x, const deg &d, const symbol_set &s)
{
    obake::truncate_p_degree(x, d, s);
}
template <typename S>
void trunc(S &x)
{
    obake::truncate(x);
}
template <typename S>
S &set_d(S &x, const deg &d)
{
    return obake::set_truncation(x, d);
}
template <typename S>
S &set_l(S &x, const lim &d)
{
    return obake::set_truncation(x, d);
}
template <typename S>
S &set_p(S &x, const deg &d, const symbol_set &s)
{
    return obake::set_truncation(x, d, s);
}
template <typename S>
S &set_pl(S &x, const lim &d, const symbol_set &s)
{
    return obake::set_truncation(x, d, s);
}
template <typename S>
S &unset(S &x)
{
    return obake::unset_truncation(x);
}
template <typename S>
const auto &get(const S &x)
{
    return obake::get_truncation(x);
}

template <typename S>
auto gens(const std::string &a)
{
    return obake::make_p_series<S>(a);
}
template <typename S>
auto gensc(const char *a)
{
    return obake::make_p_series<S>(a);
}
template <typename S>
auto gens_ss(const symbol_set &ss, const std::string &a)
{
    return obake::make_p_series<S>(ss, a);
}
template <typename S>
auto gens_ssc(const symbol_set &ss, const char *a)
{
    return obake::make_p_series<S>(ss, a);
}
template <typename S>
auto gens_ss2(const symbol_set &ss, const std::string &a, const std::string &b)
{
    return obake::make_p_series<S>(ss, a, b);
}
template <typename S>
auto gens_t(const lim &d, const std::string &a)
{
    return obake::make_p_series_t<S>(d, a);
}
template <typename S>
auto gens_tc(const lim &d, const char *a)
{
    return obake::make_p_series_t<S>(d, a);
}
template <typename S>
auto gens_t_ss(const symbol_set &ss, const lim &d, const std::string &a)
{
    return obake::make_p_series_t<S>(ss, d, a);
}
template <typename S>
auto gens_t_ss2(const symbol_set &ss, const lim &d, const std::string &a, const std::string &b)
{
    return obake::make_p_series_t<S>(ss, d, a, b);
}
template <typename S>
auto gens_p(const lim &d, const symbol_set &ts, const std::string &a)
{
    return obake::make_p_series_p<S>(d, ts, a);
}
template <typename S>
auto gens_pc(const lim &d, const symbol_set &ts, const char *a)
{
    return obake::make_p_series_p<S>(d, ts, a);
}
template <typename S>
auto gens_p_ss(const symbol_set &ss, const lim &d, const symbol_set &ts, const std::string &a)
{
    return obake::make_p_series_p<S>(ss, d, ts, a);
}
template <typename S>
auto gens_p_ss2(const symbol_set &ss, const lim &d, const symbol_set &ts, const std::string &a, const std::string &b)
{
    return obake::make_p_series_p<S>(ss, d, ts, a, b);
}

#define HX_ALL(S)                                                                                                      \
    template auto add<S>(const S &, const S &);                                                                        \
    template auto sub<S>(const S &, const S &);                                                                        \
    template auto add_m<S>(S &&, S &&);                                                                                \
    template auto sub_m<S>(S &&, S &&);                                                                                \
    template void iadd<S>(S &, const S &);                                                                             \
    template void isub<S>(S &, const S &);                                                                             \
    template void iadd_m<S>(S &, S &&);                                                                                \
    template void isub_m<S>(S &, S &&);                                                                                \
    template auto add_c<S, cof>(const S &, const cof &);                                                               \
    template auto sub_c<S, cof>(const S &, const cof &);                                                               \
    template auto c_sub<S, cof>(const cof &, const S &);                                                               \
    template void iadd_c<S, cof>(S &, const cof &);                                                                    \
    template void isub_c<S, cof>(S &, const cof &);                                                                    \
    template auto mul<S>(const S &, const S &);                                                                        \
    template auto pow_s<S>(const S &, const int &);                                                                    \
    template auto int_s<S>(const S &, const std::string &);                                                            \
    template auto diff_s<S>(const S &, const std::string &);                                                           \
    template auto subs_s<S>(const S &, const symbol_map<num> &);                                                       \
    template void trunc_d<S>(S &, const deg &);                                                                        \
    template void trunc_p<S>(S &, const deg &, const symbol_set &);                                                    \
    template void trunc<S>(S &);                                                                                       \
    template S &set_d<S>(S &, const deg &);                                                                            \
    template S &set_l<S>(S &, const lim &);                                                                            \
    template S &set_p<S>(S &, const deg &, const symbol_set &);                                                        \
    template S &set_pl<S>(S &, const lim &, const symbol_set &);                                                       \
    template S &unset<S>(S &);                                                                                         \
    template const auto &get<S>(const S &);                                                                            \
    template auto gens<S>(const std::string &);                                                                        \
    template auto gensc<S>(const char *);                                                                              \
    template auto gens_ss<S>(const symbol_set &, const std::string &);                                                 \
    template auto gens_ssc<S>(const symbol_set &, const char *);                                                       \
    template auto gens_ss2<S>(const symbol_set &, const std::string &, const std::string &);                           \
    template auto gens_t<S>(const lim &, const std::string &);                                                         \
    template auto gens_tc<S>(const lim &, const char *);                                                               \
    template auto gens_t_ss<S>(const symbol_set &, const lim &, const std::string &);                                  \
    template auto gens_t_ss2<S>(const symbol_set &, const lim &, const std::string &, const std::string &);            \
    template auto gens_p<S>(const lim &, const symbol_set &, const std::string &);                                     \
    template auto gens_pc<S>(const lim &, const symbol_set &, const char *);                                           \
    template auto gens_p_ss<S>(const symbol_set &, const lim &, const symbol_set &, const std::string &);              \
    template auto gens_p_ss2<S>(const symbol_set &, const lim &, const symbol_set &, const std::string &, const std::string &);

HX_ALL(psb)
template auto diff_s<psa>(const psa &, const std::string &);
template auto int_s<psa>(const psa &, const std::string &);

// The truncation itself.
using tg = obake::power_series::tag<deg>;
inline bool tag_eq(const tg &x, const tg &y)
{
    return x == y;
}
inline bool tag_ne(const tg &x, const tg &y)
{
    return x != y;
}
inline std::size_t tag_hash(const tg &x)
{
    return obake::hash(x);
}
inline void tag_swap(tg &x, tg &y)
{
    swap(x, y);
}
inline void tag_stream(std::ostream &os, const tg &x)
{
    os << x;
}
template <typename S>
void tex(std::ostream &os, const S &x)
{
    obake::tex_stream_insert(os, x);
}
template void tex<psb>(std::ostream &, const psb &);

} // namespace hx
