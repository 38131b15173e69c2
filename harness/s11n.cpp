// Saving to and loading from an archive; only public names are called.
#include <src/series.cpp>

#include <cstddef>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <boost/mpl/bool.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/split_free.hpp>
#include <boost/serialization/utility.hpp>

#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/power_series/power_series.hpp>
#include <obake/series.hpp>
#include <obake/symbols.hpp>

namespace hx
{

// Archives: every operation is declared only.
struct oar {
    using is_saving = boost::mpl::true_;
    using is_loading = boost::mpl::false_;
    template <typename T>
    oar &operator<<(const T &);
    template <typename T>
    oar &operator&(const T &);
    unsigned get_library_version() const;
};
struct iar {
    using is_saving = boost::mpl::false_;
    using is_loading = boost::mpl::true_;
    template <typename T>
    iar &operator>>(T &);
    template <typename T>
    iar &operator&(T &);
    template <typename T>
    void reset_object_address(const T *, const T *);
    void reset_object_address(const void *, const void *);
    unsigned get_library_version() const;
};

struct key {
    key();
    explicit key(const obake::symbol_set &);
    key(const key &);
    key(key &&) noexcept;
    key &operator=(const key &);
    key &operator=(key &&) noexcept;
    ~key();
    template <typename Archive>
    void serialize(Archive &, unsigned);
};
std::size_t hash(const key &);
bool operator==(const key &, const key &);
bool operator!=(const key &, const key &);
bool key_is_zero(const key &, const obake::symbol_set &);
bool key_is_one(const key &, const obake::symbol_set &);
bool key_is_compatible(const key &, const obake::symbol_set &);
void key_stream_insert(std::ostream &, const key &, const obake::symbol_set &);
key key_merge_symbols(const key &, const obake::symbol_idx_map<obake::symbol_set> &, const obake::symbol_set &);

struct cf {
    cf();
    explicit cf(int);
    cf(const cf &);
    cf(cf &&) noexcept;
    cf &operator=(const cf &);
    cf &operator=(cf &&) noexcept;
    ~cf();
    cf &operator+=(const cf &);
    cf &operator-=(const cf &);
    template <typename Archive>
    void serialize(Archive &, unsigned);
};
bool is_zero(const cf &);
void negate(cf &);
std::ostream &operator<<(std::ostream &, const cf &);

struct tag {
    template <typename Archive>
    void serialize(Archive &, unsigned);
};
bool operator==(const tag &, const tag &);
bool operator!=(const tag &, const tag &);

using sr = obake::series<key, cf, tag>;

template <typename T>
void save(oar &ar, const T &x)
{
    boost::serialization::serialize_adl(ar, const_cast<T &>(x), 0u);
}

template <typename T>
void load(iar &ar, T &x)
{
    boost::serialization::serialize_adl(ar, x, 0u);
}

#define HX_S11N(...)                                                                                                   \
    template void save<__VA_ARGS__>(oar &, const __VA_ARGS__ &);                                                       \
    template void load<__VA_ARGS__>(iar &, __VA_ARGS__ &)

HX_S11N(obake::symbol_set);
HX_S11N(obake::packed_monomial<long>);
HX_S11N(obake::packed_monomial<unsigned long>);
HX_S11N(obake::d_packed_monomial<long, 8>);
HX_S11N(obake::d_packed_monomial<unsigned long, 4>);
HX_S11N(sr);
using ps_tag = obake::power_series::tag<int>;
using trunc = std::remove_const_t<std::remove_reference_t<decltype(std::declval<ps_tag &>().trunc.get())>>;
HX_S11N(trunc);
HX_S11N(ps_tag);

} // namespace hx
