// Operations on packed and dynamic packed monomials, for every exponent type; only public names are called.
#include <src/kpack.cpp>
#include <src/polynomials/packed_monomial.cpp>
#include <src/polynomials/d_packed_monomial.cpp>

#include <cstdint>
#include <forward_list>
#include <iterator>
#include <vector>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <obake/hash.hpp>
#include <obake/byte_size.hpp>
#include <obake/key/key_degree.hpp>
#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_p_degree.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/key/key_tex_stream_insert.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/monomial_subs.hpp>

namespace hx
{

using obake::symbol_idx;
using obake::symbol_idx_map;
using obake::symbol_idx_set;
using obake::symbol_set;

// A coefficient-like archetype for evaluation and substitution.
struct num {
    int v = 0;
    num() = default;
    explicit num(int);
    num &operator*=(const num &);
};
template <typename T>
num pow(const num &, const T &);

template <typename M>
auto degree(const M &m, const symbol_set &ss)
{
    return obake::key_degree(m, ss);
}
template <typename M>
auto p_degree(const M &m, const symbol_idx_set &si, const symbol_set &ss)
{
    return obake::key_p_degree(m, si, ss);
}
template <typename M>
M merge(const M &m, const symbol_idx_map<symbol_set> &im, const symbol_set &ss)
{
    return obake::key_merge_symbols(m, im, ss);
}
template <typename M>
M trim(const M &m, const symbol_idx_set &si, const symbol_set &ss)
{
    return obake::key_trim(m, si, ss);
}
template <typename M>
void trim_identify(std::vector<int> &v, const M &m, const symbol_set &ss)
{
    obake::key_trim_identify(v, m, ss);
}
template <typename M>
auto diff(const M &m, const symbol_idx &idx, const symbol_set &ss)
{
    return obake::monomial_diff(m, idx, ss);
}
template <typename M>
auto integrate(const M &m, const symbol_idx &idx, const symbol_set &ss)
{
    return obake::monomial_integrate(m, idx, ss);
}
template <typename M>
void mul(M &out, const M &a, const M &b, const symbol_set &ss)
{
    obake::monomial_mul(out, a, b, ss);
}
template <typename M, typename U>
M mpow(const M &m, const U &n, const symbol_set &ss)
{
    return obake::monomial_pow(m, n, ss);
}
template <typename M>
num eval(const M &m, const symbol_idx_map<num> &sm, const symbol_set &ss)
{
    return obake::key_evaluate(m, sm, ss);
}
template <typename M>
auto subs(const M &m, const symbol_idx_map<num> &sm, const symbol_set &ss)
{
    return obake::monomial_subs(m, sm, ss);
}
template <typename M>
bool is_zero(const M &m, const symbol_set &ss)
{
    return obake::key_is_zero(m, ss);
}
template <typename M>
bool is_one(const M &m, const symbol_set &ss)
{
    return obake::key_is_one(m, ss);
}
template <typename M>
bool compatible(const M &m, const symbol_set &ss)
{
    return obake::key_is_compatible(m, ss);
}
template <typename M>
bool eq(const M &a, const M &b)
{
    return a == b;
}
template <typename M>
bool ne(const M &a, const M &b)
{
    return a != b;
}
template <typename M>
std::size_t hash(const M &m)
{
    return obake::hash(m);
}
template <typename M>
std::size_t bytes(const M &m)
{
    return obake::byte_size(m);
}
template <typename M>
void stream(std::ostream &os, const M &m, const symbol_set &ss)
{
    obake::key_stream_insert(os, m, ss);
}
template <typename M>
void tex(std::ostream &os, const M &m, const symbol_set &ss)
{
    obake::key_tex_stream_insert(os, m, ss);
}
template <typename M>
M make_def()
{
    return M{};
}
template <typename M>
M make_ss(const symbol_set &ss)
{
    return M(ss);
}
template <typename M, typename It>
M make_n(It b, unsigned n)
{
    return M(b, n);
}
template <typename M, typename It>
M make_be(It b, It e)
{
    return M(b, e);
}
template <typename M, typename R>
M make_r(const R &r)
{
    return M(r);
}
template <typename M, typename U>
M make_il(std::initializer_list<U> l)
{
    return M(l);
}
template <typename M, typename R>
bool overflow(const R &r1, const R &r2, const symbol_set &ss)
{
    return obake::monomial_range_overflow_check(r1, r2, ss);
}
template <typename M>
void save(boost::archive::binary_oarchive &ar, const M &m)
{
    ar << m;
}
template <typename M>
void load(boost::archive::binary_iarchive &ar, M &m)
{
    ar >> m;
}
template <typename M>
void save_m(boost::archive::binary_oarchive &ar, M &m, unsigned v)
{
    boost::serialization::access::serialize(ar, m, v);
}
template <typename M>
void load_m(boost::archive::binary_iarchive &ar, M &m, unsigned v)
{
    boost::serialization::access::serialize(ar, m, v);
}

#define ALL(M)                                                                                                         \
    template auto degree(const M &, const symbol_set &);                                                               \
    template auto p_degree(const M &, const symbol_idx_set &, const symbol_set &);                                     \
    template M merge(const M &, const symbol_idx_map<symbol_set> &, const symbol_set &);                               \
    template M trim(const M &, const symbol_idx_set &, const symbol_set &);                                            \
    template void trim_identify(std::vector<int> &, const M &, const symbol_set &);                                    \
    template auto diff(const M &, const symbol_idx &, const symbol_set &);                                             \
    template auto integrate(const M &, const symbol_idx &, const symbol_set &);                                        \
    template void mul(M &, const M &, const M &, const symbol_set &);                                                  \
    template M mpow(const M &, const int &, const symbol_set &);                                                       \
    template M mpow(const M &, const mppp::integer<1> &, const symbol_set &);                                          \
    template M mpow(const M &, const mppp::rational<1> &, const symbol_set &);                                         \
    template num eval(const M &, const symbol_idx_map<num> &, const symbol_set &);                                     \
    template auto subs(const M &, const symbol_idx_map<num> &, const symbol_set &);                                    \
    template bool is_zero(const M &, const symbol_set &);                                                              \
    template bool is_one(const M &, const symbol_set &);                                                               \
    template bool compatible(const M &, const symbol_set &);                                                           \
    template bool eq(const M &, const M &);                                                                            \
    template bool ne(const M &, const M &);                                                                            \
    template std::size_t hash(const M &);                                                                              \
    template std::size_t bytes(const M &);                                                                             \
    template void stream(std::ostream &, const M &, const symbol_set &);                                               \
    template void tex(std::ostream &, const M &, const symbol_set &);                                                  \
    template M make_def<M>();                                                                                          \
    template M make_ss<M>(const symbol_set &);                                                                         \
    template M make_n<M>(const int *, unsigned);                                                                       \
    template M make_n<M>(std::istream_iterator<long>, unsigned);                                                       \
    template M make_be<M>(const int *, const int *);                                                                   \
    template M make_be<M>(std::forward_list<long>::const_iterator, std::forward_list<long>::const_iterator);           \
    template M make_r<M>(const std::vector<int> &);                                                                    \
    template M make_il<M>(std::initializer_list<int>);                                                                 \
    template bool overflow<M>(const std::vector<M> &, const std::vector<M> &, const symbol_set &);                     \
    template bool overflow<M>(const std::forward_list<M> &, const std::forward_list<M> &, const symbol_set &);         \
    template void save_m(boost::archive::binary_oarchive &, M &, unsigned);                                            \
    template void load_m(boost::archive::binary_iarchive &, M &, unsigned);

using pi32 = obake::packed_monomial<std::int32_t>;
using pu32 = obake::packed_monomial<std::uint32_t>;
using pi64 = obake::packed_monomial<std::int64_t>;
using pu64 = obake::packed_monomial<std::uint64_t>;
using di64 = obake::d_packed_monomial<std::int64_t, obake::polynomials::dpm_default_psize>;
using du64 = obake::d_packed_monomial<std::uint64_t, obake::polynomials::dpm_default_psize>;
using di32 = obake::d_packed_monomial<std::int32_t, 3>;
using du32 = obake::d_packed_monomial<std::uint32_t, 3>;
ALL(pi32)
ALL(pu32)
ALL(pi64)
ALL(pu64)
ALL(di64)
ALL(du64)
ALL(di32)
ALL(du32)

} // namespace hx
