// Operations on series over archetypes of keys, coefficients and tags; only public names are called.
#include <src/series.cpp>

#include <functional>
#include <ostream>
#include <string>
#include <utility>
#include <vector>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <obake/byte_size.hpp>
#include <obake/hash.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/trim.hpp>
#include <obake/series.hpp>
#include <obake/symbols.hpp>
#include <obake/tex_stream_insert.hpp>

namespace hx
{

using obake::symbol_idx;
using obake::symbol_idx_map;
using obake::symbol_idx_set;
using obake::symbol_map;
using obake::symbol_set;

// A key archetype: every operation is declared only.
struct key {
    key();
    explicit key(const symbol_set &);
    key(const key &);
    key(key &&) noexcept;
    key &operator=(const key &);
    key &operator=(key &&) noexcept;
    ~key();
    template <typename Archive>
    void serialize(Archive &, unsigned);
};
std::size_t hash(const key &);
bool operator==(const key &, const key &);
bool operator!=(const key &, const key &);
bool key_is_zero(const key &, const symbol_set &);
bool key_is_one(const key &, const symbol_set &);
bool key_is_compatible(const key &, const symbol_set &);
void key_stream_insert(std::ostream &, const key &, const symbol_set &);
void key_tex_stream_insert(std::ostream &, const key &, const symbol_set &);
key key_merge_symbols(const key &, const symbol_idx_map<symbol_set> &, const symbol_set &);
int key_degree(const key &, const symbol_set &);
int key_p_degree(const key &, const symbol_idx_set &, const symbol_set &);
void key_trim_identify(std::vector<int> &, const key &, const symbol_set &);
key key_trim(const key &, const symbol_idx_set &, const symbol_set &);

// Two coefficient archetypes: cf absorbs cg.
struct cg;
struct cf {
    cf();
    explicit cf(int);
    explicit cf(const cg &);
    explicit cf(cg &&);
    cf(const cf &);
    cf(cf &&) noexcept;
    cf &operator=(const cf &);
    cf &operator=(cf &&) noexcept;
    ~cf();
    cf &operator+=(const cf &);
    cf &operator+=(cf &&);
    cf &operator-=(const cf &);
    cf &operator-=(cf &&);
    cf &operator+=(const cg &);
    cf &operator-=(const cg &);
    cf &operator*=(const cf &);
    cf &operator/=(const cf &);
    template <typename Archive>
    void serialize(Archive &, unsigned);
};
struct cg {
    cg();
    explicit cg(int);
    cg(const cg &);
    cg(cg &&) noexcept;
    cg &operator=(const cg &);
    cg &operator=(cg &&) noexcept;
    ~cg();
    cg &operator+=(const cg &);
    cg &operator+=(cg &&);
    cg &operator-=(const cg &);
    cg &operator-=(cg &&);
};
bool is_zero(const cf &);
bool is_zero(const cg &);
void negate(cf &);
void negate(cg &);
cf operator+(const cf &, const cf &);
cf operator-(const cf &, const cf &);
cf operator*(const cf &, const cf &);
cf operator/(const cf &, const cf &);
cf operator+(const cf &, const cg &);
cf operator+(const cg &, const cf &);
cf operator-(const cf &, const cg &);
cf operator-(const cg &, const cf &);
bool operator==(const cf &, const cf &);
bool operator!=(const cf &, const cf &);
bool operator==(const cf &, const cg &);
bool operator!=(const cf &, const cg &);
bool operator==(const cg &, const cf &);
bool operator!=(const cg &, const cf &);
std::ostream &operator<<(std::ostream &, const cf &);
std::ostream &operator<<(std::ostream &, const cg &);
cf pow(const cf &, const int &);
cf trim(const cf &);
// A value archetype for evaluation.
struct num {
    num();
    explicit num(int);
    num(const num &);
    num(num &&) noexcept;
    num &operator=(const num &);
    num &operator=(num &&) noexcept;
    ~num();
    num &operator+=(const num &);
    num &operator+=(num &&);
};
num operator*(const num &, const num &);
num evaluate(const cf &, const symbol_map<num> &);
num key_evaluate(const key &, const symbol_idx_map<num> &, const symbol_set &);
// cg has a degree, of a type wider than the one of keys.
long degree(const cg &);
long p_degree(const cg &, const symbol_set &);
// A predicate on terms.
struct pred {
    template <typename T>
    bool operator()(const T &) const;
};

// A tag archetype.
struct tag {
    tag();
    tag(const tag &);
    tag(tag &&) noexcept;
    tag &operator=(const tag &);
    tag &operator=(tag &&) noexcept;
    ~tag();
    bool operator==(const tag &) const;
    bool operator!=(const tag &) const;
    template <typename Archive>
    void serialize(Archive &, unsigned);
};
std::size_t hash(const tag &);

using sf = obake::series<key, cf, tag>;
using sg = obake::series<key, cg, tag>;
using sh = obake::series<key, sf, tag>;

// Series with a product and powers of the same type.
struct cp {
    cp();
    explicit cp(int);
    cp(const cp &);
    cp(cp &&) noexcept;
    cp &operator=(const cp &);
    cp &operator=(cp &&) noexcept;
    ~cp();
    cp &operator+=(const cp &);
    cp &operator+=(cp &&);
    cp &operator-=(const cp &);
    cp &operator-=(cp &&);
};
bool is_zero(const cp &);
void negate(cp &);
bool operator==(const cp &, const cp &);
bool operator!=(const cp &, const cp &);
std::ostream &operator<<(std::ostream &, const cp &);
cp pow(const cp &, const int &);
using sp = obake::series<key, cp, tag>;
sp series_mul(const sp &, const sp &);

// Degrees of a class type, and keys without a degree.
struct dg {
    dg();
    explicit dg(int);
    dg(const dg &);
    dg(dg &&) noexcept;
    dg &operator=(const dg &);
    dg &operator=(dg &&) noexcept;
    ~dg();
};
bool operator<(const dg &, const dg &);
dg operator+(const int &, const dg &);
dg operator+(const dg &, const int &);
struct cq {
    cq();
    explicit cq(int);
    cq(const cq &);
    cq(cq &&) noexcept;
    cq &operator=(const cq &);
    cq &operator=(cq &&) noexcept;
    ~cq();
    cq &operator+=(const cq &);
    cq &operator+=(cq &&);
    cq &operator-=(const cq &);
    cq &operator-=(cq &&);
};
bool is_zero(const cq &);
void negate(cq &);
bool operator==(const cq &, const cq &);
bool operator!=(const cq &, const cq &);
std::ostream &operator<<(std::ostream &, const cq &);
dg degree(const cq &);
dg p_degree(const cq &, const symbol_set &);
struct key0 {
    key0();
    explicit key0(const symbol_set &);
    key0(const key0 &);
    key0(key0 &&) noexcept;
    key0 &operator=(const key0 &);
    key0 &operator=(key0 &&) noexcept;
    ~key0();
};
std::size_t hash(const key0 &);
bool operator==(const key0 &, const key0 &);
bool key_is_zero(const key0 &, const symbol_set &);
bool key_is_one(const key0 &, const symbol_set &);
bool key_is_compatible(const key0 &, const symbol_set &);
void key_stream_insert(std::ostream &, const key0 &, const symbol_set &);
using sq = obake::series<key, cq, tag>;
using s0 = obake::series<key0, cq, tag>;


template <typename S>
using cf_of = obake::series_cf_t<S>;
// Insertion of terms.
template <typename S>
void add_term(S &s, const key &k, const cf_of<S> &c)
{
    s.add_term(k, c);
}
template <typename S>
void sub_term(S &s, const key &k, const cf_of<S> &c)
{
    s.template add_term<false>(k, c);
}
template <typename S>
void add_term_m(S &s, key k, cf_of<S> c)
{
    s.add_term(std::move(k), std::move(c));
}
template <typename S>
void add_term_i(S &s, const key &k, int n)
{
    s.add_term(k, n);
}
template <typename S>
void sub_term_i(S &s, const key &k, int n)
{
    s.template add_term<false>(k, n);
}
// Access and state.
template <typename S>
auto find(const S &s, const key &k)
{
    return s.find(k);
}
template <typename S>
auto find_mut(S &s, const key &k)
{
    return s.find(k);
}
template <typename S>
auto size(const S &s)
{
    return s.size();
}
template <typename S>
bool empty(const S &s)
{
    return s.empty();
}
template <typename S>
bool is_zero_s(const S &s)
{
    return obake::is_zero(s);
}
template <typename S>
bool single(const S &s)
{
    return s.is_single_cf();
}
template <typename S>
auto begin(const S &s)
{
    return s.begin();
}
template <typename S>
auto end(const S &s)
{
    return s.end();
}
template <typename S>
auto begin_m(S &s)
{
    return s.begin();
}
template <typename S>
auto end_m(S &s)
{
    return s.end();
}
template <typename S>
typename S::const_iterator it_conv(const typename S::iterator &it)
{
    return it;
}
template <typename S>
void incr(typename S::const_iterator &it)
{
    ++it;
}
template <typename S>
bool it_eq(const typename S::const_iterator &a, const typename S::const_iterator &b)
{
    return a == b;
}
template <typename S>
decltype(auto) deref(const typename S::const_iterator &a)
{
    return *a;
}
template <typename S>
auto get_ss(const S &s)
{
    return s.get_symbol_set();
}
template <typename S>
void set_ss(S &s, const symbol_set &ss)
{
    s.set_symbol_set(ss);
}
template <typename S>
void set_ss_fw(S &s, const S &o)
{
    s.set_symbol_set_fw(o.get_symbol_set_fw());
}
template <typename S>
void segments(S &s, unsigned l)
{
    s.set_n_segments(l);
}
template <typename S>
void reserve(S &s, typename S::size_type n)
{
    s.reserve(n);
}
template <typename S>
void clear(S &s)
{
    s.clear();
}
template <typename S>
void clear_terms(S &s)
{
    s.clear_terms();
}
template <typename S>
void swap_m(S &s, S &t)
{
    s.swap(t);
}
template <typename S>
void swap_f(S &s, S &t)
{
    using std::swap;
    swap(s, t);
}
// Construction.
template <typename S>
S def()
{
    return S();
}
template <typename S>
S copy(const S &s)
{
    return S(s);
}
template <typename S>
S move(S &s)
{
    return S(std::move(s));
}
template <typename S>
void assign(S &s, const S &t)
{
    s = t;
}
template <typename S>
void assign_m(S &s, S &t)
{
    s = std::move(t);
}
template <typename S, typename T>
S make(const T &x)
{
    return S(x);
}
template <typename S, typename T>
S make_m(T &x)
{
    return S(std::move(x));
}
template <typename S, typename T>
S make_ss(const T &x, const symbol_set &ss)
{
    return S(x, ss);
}
template <typename S, typename T>
void assign_from(S &s, const T &x)
{
    s = x;
}
template <typename T, typename S>
T conv(const S &s)
{
    return static_cast<T>(s);
}
// Arithmetic.
template <typename S>
S plus(const S &s)
{
    return +s;
}
template <typename S>
S minus(const S &s)
{
    return -s;
}
template <typename S>
S minus_m(S &s)
{
    return -std::move(s);
}
template <typename S>
void neg(S &s)
{
    obake::negate(s);
}
template <typename S, typename T>
auto add(const S &x, const T &y)
{
    return x + y;
}
template <typename S, typename T>
auto sub(const S &x, const T &y)
{
    return x - y;
}
template <typename S, typename T>
auto add_m(S &x, T &y)
{
    return std::move(x) + std::move(y);
}
template <typename S, typename T>
auto sub_m(S &x, T &y)
{
    return std::move(x) - std::move(y);
}
template <typename S, typename T>
void iadd(S &x, const T &y)
{
    x += y;
}
template <typename S, typename T>
void isub(S &x, const T &y)
{
    x -= y;
}
template <typename S, typename T>
void iadd_m(S &x, T &y)
{
    x += std::move(y);
}
template <typename S, typename T>
void isub_m(S &x, T &y)
{
    x -= std::move(y);
}
template <typename S, typename T>
auto mul(const S &x, const T &y)
{
    return x * y;
}
template <typename S, typename T>
auto mul_m(S &x, T &y)
{
    return std::move(x) * std::move(y);
}
template <typename S, typename T>
void imul(S &x, const T &y)
{
    x *= y;
}
template <typename S, typename T>
auto div(const S &x, const T &y)
{
    return x / y;
}
template <typename S, typename T>
auto div_m(S &x, T &y)
{
    return std::move(x) / std::move(y);
}
template <typename S, typename T>
void idiv(S &x, const T &y)
{
    x /= y;
}
template <typename S, typename T>
bool eq(const S &x, const T &y)
{
    return x == y;
}
template <typename S, typename T>
bool ne(const S &x, const T &y)
{
    return x != y;
}
template <typename S>
auto power(const S &s, const int &n)
{
    return obake::pow(s, n);
}
template <typename S>
void clear_powers()
{
    obake::customisation::internal::clear_series_pow_map();
}
// Queries and transformations.
template <typename S>
auto deg(const S &s)
{
    return obake::degree(s);
}
template <typename S>
auto pdeg(const S &s, const symbol_set &x)
{
    return obake::p_degree(s, x);
}
template <typename S>
auto eval(const S &s, const symbol_map<num> &sm)
{
    return obake::evaluate(s, sm);
}
template <typename S>
auto trim_s(const S &s)
{
    return obake::trim(s);
}
template <typename S>
auto filtered(const S &s, const pred &f)
{
    return obake::filtered(s, f);
}
template <typename S>
void filter(S &s, const pred &f)
{
    obake::filter(s, f);
}
template <typename S>
auto add_symbols(const S &s, const symbol_set &ss)
{
    return obake::add_symbols(s, ss);
}
template <typename S>
auto bytes(const S &s)
{
    return obake::byte_size(s);
}
template <typename S>
void stream(std::ostream &os, const S &s)
{
    os << s;
}
template <typename S>
void tex(std::ostream &os, const S &s)
{
    obake::tex_stream_insert(os, s);
}
template <typename S>
void save(boost::archive::binary_oarchive &ar, const S &s)
{
    ar << s;
}
template <typename S>
void load(boost::archive::binary_iarchive &ar, S &s)
{
    ar >> s;
}

template void add_term(sf &, const key &, const cf &);
template void sub_term(sf &, const key &, const cf &);
template void add_term_m(sf &, key, cf);
template void add_term_i(sf &, const key &, int);
template void sub_term_i(sf &, const key &, int);
template void add_term(sg &, const key &, const cg &);
template void sub_term(sg &, const key &, const cg &);
template void add_term_m(sg &, key, cg);
template void add_term_i(sg &, const key &, int);
template void sub_term_i(sg &, const key &, int);
template auto find(const sf &, const key &);
template auto find_mut(sf &, const key &);
template auto size(const sf &);
template bool empty(const sf &);
template bool is_zero_s(const sf &);
template bool single(const sf &);
template auto begin(const sf &);
template auto end(const sf &);
template auto begin_m(sf &);
template auto end_m(sf &);
template sf::const_iterator it_conv<sf>(const sf::iterator &);
template void incr<sf>(sf::const_iterator &);
template bool it_eq<sf>(const sf::const_iterator &, const sf::const_iterator &);
template decltype(auto) deref<sf>(const sf::const_iterator &);
template auto get_ss(const sf &);
template void set_ss(sf &, const symbol_set &);
template void set_ss_fw(sf &, const sf &);
template void segments(sf &, unsigned);
template void reserve(sf &, sf::size_type);
template void clear(sf &);
template void clear_terms(sf &);
template void swap_m(sf &, sf &);
template void swap_f(sf &, sf &);
template sf def();
template sf copy(const sf &);
template sf move(sf &);
template void assign(sf &, const sf &);
template void assign_m(sf &, sf &);
template sf make<sf>(const int &);
template sf make<sf>(const cf &);
template sf make_m<sf>(cf &);
template sf make<sf>(const sg &);
template sf make_m<sf>(sg &);
template sf make<sf>(const sh &);
template sf make_m<sf>(sh &);
template sf make_ss<sf>(const cf &, const symbol_set &);
template sf make_ss<sf>(const int &, const symbol_set &);
template sf make_ss<sf>(const cg &, const symbol_set &);
template sf make<sf>(const cg &);
template void assign_from(sf &, const cf &);
template cf conv<cf>(const sf &);
template sf plus(const sf &);
template sf minus(const sf &);
template sf minus_m(sf &);
template void neg(sf &);
template auto add(const sf &, const sf &);
template auto add_m(sf &, sf &);
template auto add(const sf &, const sg &);
template auto add_m(sf &, sg &);
template auto add(const sg &, const sf &);
template auto add_m(sg &, sf &);
template auto add(const sf &, const cf &);
template auto add_m(sf &, cf &);
template auto add(const cf &, const sf &);
template auto add_m(cf &, sf &);
template void iadd(sf &, const sf &);
template void iadd_m(sf &, sf &);
template void iadd(sf &, const sg &);
template void iadd_m(sf &, sg &);
template void iadd(sf &, const cf &);
template void iadd_m(sf &, cf &);
template auto sub(const sf &, const sf &);
template auto sub_m(sf &, sf &);
template auto sub(const sf &, const sg &);
template auto sub_m(sf &, sg &);
template auto sub(const sg &, const sf &);
template auto sub_m(sg &, sf &);
template auto sub(const sf &, const cf &);
template auto sub_m(sf &, cf &);
template auto sub(const cf &, const sf &);
template auto sub_m(cf &, sf &);
template void isub(sf &, const sf &);
template void isub_m(sf &, sf &);
template void isub(sf &, const sg &);
template void isub_m(sf &, sg &);
template void isub(sf &, const cf &);
template void isub_m(sf &, cf &);
template auto mul(const sf &, const cf &);
template auto mul(const cf &, const sf &);
template auto mul_m(sf &, cf &);
template auto mul_m(cf &, sf &);
template void imul(sf &, const cf &);
template auto div(const sf &, const cf &);
template auto div_m(sf &, cf &);
template void idiv(sf &, const cf &);
template bool eq(const sf &, const sf &);
template bool eq(const sf &, const sg &);
template bool eq(const sg &, const sf &);
template bool eq(const sf &, const cf &);
template bool eq(const cf &, const sf &);
template bool ne(const sf &, const sf &);
template bool ne(const sf &, const sg &);
template bool ne(const sg &, const sf &);
template bool ne(const sf &, const cf &);
template bool ne(const cf &, const sf &);
template auto power(const sf &, const int &);
template auto power(const sp &, const int &);
template void clear_powers<sp>();
template auto deg(const sf &);
template auto deg(const sg &);
template auto deg(const sq &);
template auto deg(const s0 &);
template auto pdeg(const sf &, const symbol_set &);
template auto pdeg(const sg &, const symbol_set &);
template auto pdeg(const sq &, const symbol_set &);
template auto pdeg(const s0 &, const symbol_set &);
template auto eval(const sf &, const symbol_map<num> &);
template auto trim_s(const sf &);
template auto filtered(const sf &, const pred &);
template void filter(sf &, const pred &);
template auto add_symbols(const sf &, const symbol_set &);
template auto bytes(const sf &);
template void stream(std::ostream &, const sf &);
template void tex(std::ostream &, const sf &);
template void save(boost::archive::binary_oarchive &, const sf &);
template void load(boost::archive::binary_iarchive &, sf &);

} // namespace hx
