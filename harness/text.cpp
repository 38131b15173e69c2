// Text output and sizes of series; only public names are called.
#include <src/series.cpp>

#include <cstddef>
#include <cstdint>
#include <ostream>
#include <string>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/byte_size.hpp>
#include <obake/cf/cf_stream_insert.hpp>
#include <obake/cf/cf_tex_stream_insert.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/series.hpp>
#include <obake/symbols.hpp>
#include <obake/tex_stream_insert.hpp>

namespace hx
{

// (Aligned such that there is padding in the terms.)
struct alignas(16) key {
    key();
    explicit key(const obake::symbol_set &);
    key(const key &);
    key(key &&) noexcept;
    key &operator=(const key &);
    key &operator=(key &&) noexcept;
    ~key();
    void *p[3];
};
std::size_t hash(const key &);
bool operator==(const key &, const key &);
bool operator!=(const key &, const key &);
bool key_is_zero(const key &, const obake::symbol_set &);
bool key_is_one(const key &, const obake::symbol_set &);
bool key_is_compatible(const key &, const obake::symbol_set &);
void key_stream_insert(std::ostream &, const key &, const obake::symbol_set &);
void key_tex_stream_insert(std::ostream &, const key &, const obake::symbol_set &);
std::size_t byte_size(const key &);
key key_merge_symbols(const key &, const obake::symbol_idx_map<obake::symbol_set> &, const obake::symbol_set &);

struct cf {
    cf();
    explicit cf(int);
    cf(const cf &);
    cf(cf &&) noexcept;
    cf &operator=(const cf &);
    cf &operator=(cf &&) noexcept;
    ~cf();
    cf &operator+=(const cf &);
    cf &operator-=(const cf &);
    void *p[1];
};
cf operator-(const cf &);
bool is_zero(const cf &);
void cf_stream_insert(std::ostream &, const cf &);
void cf_tex_stream_insert(std::ostream &, const cf &);
std::size_t byte_size(const cf &);

struct tag {
    void *p[5];
};
bool operator==(const tag &, const tag &);
bool operator!=(const tag &, const tag &);
std::ostream &operator<<(std::ostream &, const tag &);
std::size_t byte_size(const tag &);

using sr = obake::series<key, cf, tag>;

void full(std::ostream &os, const sr &s)
{
    os << s;
}
void coeff(std::ostream &os, const sr &s)
{
    obake::cf_stream_insert(os, s);
}
void tex(std::ostream &os, const sr &s)
{
    obake::tex_stream_insert(os, s);
}
void coeff_tex(std::ostream &os, const sr &s)
{
    obake::cf_tex_stream_insert(os, s);
}
std::size_t bytes(const sr &s)
{
    return obake::byte_size(s);
}
// Sizes as seen by the compiler.
std::size_t own_size()
{
    return sizeof(sr) - sizeof(tag);
}
std::size_t table_size(const sr &s)
{
    return sizeof(s._get_s_table()[0]);
}
std::size_t padding()
{
    return sizeof(obake::series_term_t<sr>) - sizeof(key) - sizeof(cf);
}
using dpm = obake::d_packed_monomial<std::int32_t, 4>;
std::size_t dpm_bytes(const dpm &m)
{
    return obake::byte_size(m);
}
std::size_t dpm_size()
{
    return sizeof(dpm);
}
std::size_t int_bytes(const mppp::integer<1> &n)
{
    return obake::byte_size(n);
}
std::size_t int_size()
{
    return sizeof(mppp::integer<1>);
}
std::size_t rat_bytes(const mppp::rational<1> &q)
{
    return obake::byte_size(q);
}
std::size_t rat_padding()
{
    return sizeof(mppp::rational<1>) - 2u * sizeof(mppp::integer<1>);
}
std::size_t plain_bytes(const double &x)
{
    return obake::byte_size(x);
}

} // namespace hx
