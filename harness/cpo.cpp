// Generated by gen_cpo.py.
#include <cstddef>
#include <ostream>
#include <string>
#include <utility>
#include <vector>
#include <functional>
#include <obake/symbols.hpp>
#include <obake/type_traits.hpp>
#include <obake/cf/cf_stream_insert.hpp>
#include <obake/byte_size.hpp>
#include <obake/hash.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_degree.hpp>
#include <obake/key/key_p_degree.hpp>
#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/key/key_tex_stream_insert.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/math/fma3.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/safe_convert.hpp>
#include <obake/tex_stream_insert.hpp>
#include <obake/cf/cf_tex_stream_insert.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_subs.hpp>
namespace hxc
{
struct R { int v; };
struct Y { Y(); Y(const Y &); Y(Y &&) noexcept; Y &operator=(const Y &); Y &operator=(Y &&) noexcept; ~Y(); };
struct Z { Z(); Z(const Z &); };
// All levels; all but the external one; internal and default ones; default only; none.
struct E { explicit E(int); E(); E(const E &); E(E &&) noexcept; E &operator=(const E &); E &operator=(E &&) noexcept; E &operator=(const Y &); E &operator=(Y &&); E operator-() const &; E operator-() &&; ~E(); char pad[3]; };
bool operator==(const E &, const E &);
std::ostream &operator<<(std::ostream &, const E &);
struct A { explicit A(int); A(); A(const A &); A(A &&) noexcept; A &operator=(const A &); A &operator=(A &&) noexcept; A &operator=(const Y &); A &operator=(Y &&); A operator-() const &; A operator-() &&; ~A(); char pad[5]; };
bool operator==(const A &, const A &);
std::ostream &operator<<(std::ostream &, const A &);
struct N { explicit N(int); N(); N(const N &); N(N &&) noexcept; N &operator=(const N &); N &operator=(N &&) noexcept; N &operator=(const Y &); N &operator=(Y &&); N operator-() const &; N operator-() &&; ~N(); char pad[7]; };
bool operator==(const N &, const N &);
std::ostream &operator<<(std::ostream &, const N &);
struct D { explicit D(int); D(); D(const D &); D(D &&) noexcept; D &operator=(const D &); D &operator=(D &&) noexcept; D &operator=(const Y &); D &operator=(Y &&); D operator-() const &; D operator-() &&; ~D(); char pad[24]; };
bool operator==(const D &, const D &);
std::ostream &operator<<(std::ostream &, const D &);
}
namespace std { template <> struct hash<hxc::E> { size_t operator()(const hxc::E &) const; }; }
namespace std { template <> struct hash<hxc::A> { size_t operator()(const hxc::A &) const; }; }
namespace std { template <> struct hash<hxc::N> { size_t operator()(const hxc::N &) const; }; }
namespace std { template <> struct hash<hxc::D> { size_t operator()(const hxc::D &) const; }; }

// cf_stream_insert
namespace hxc
{
void cf_stream_insert_ext_c(std::ostream &os, const E &x);
void cf_stream_insert_ext_r(std::ostream &os, E &&x);
void cf_stream_insert_adl_c(std::ostream &os, const E &x);
void cf_stream_insert_adl_r(std::ostream &os, E &&x);
void cf_stream_insert_int_c(std::ostream &os, const E &x);
void cf_stream_insert_int_r(std::ostream &os, E &&x);
void cf_stream_insert_adl_c(std::ostream &os, const A &x);
void cf_stream_insert_adl_r(std::ostream &os, A &&x);
void cf_stream_insert_int_c(std::ostream &os, const A &x);
void cf_stream_insert_int_r(std::ostream &os, A &&x);
void cf_stream_insert_int_c(std::ostream &os, const N &x);
void cf_stream_insert_int_r(std::ostream &os, N &&x);
inline void cf_stream_insert(std::ostream &os, const E &x) { return cf_stream_insert_adl_c(os, x); }
inline void cf_stream_insert(std::ostream &os, E &&x) { return cf_stream_insert_adl_r(os, std::move(x)); }
inline void cf_stream_insert(std::ostream &os, const A &x) { return cf_stream_insert_adl_c(os, x); }
inline void cf_stream_insert(std::ostream &os, A &&x) { return cf_stream_insert_adl_r(os, std::move(x)); }
struct cf_stream_insert_ext_f {
    void operator()(std::ostream &os, const E &x) const { return cf_stream_insert_ext_c(os, x); }
    void operator()(std::ostream &os, E &&x) const { return cf_stream_insert_ext_r(os, std::move(x)); }
};
struct cf_stream_insert_int_f {
    void operator()(std::ostream &os, const E &x) const { return cf_stream_insert_int_c(os, x); }
    void operator()(std::ostream &os, E &&x) const { return cf_stream_insert_int_r(os, std::move(x)); }
    void operator()(std::ostream &os, const A &x) const { return cf_stream_insert_int_c(os, x); }
    void operator()(std::ostream &os, A &&x) const { return cf_stream_insert_int_r(os, std::move(x)); }
    void operator()(std::ostream &os, const N &x) const { return cf_stream_insert_int_c(os, x); }
    void operator()(std::ostream &os, N &&x) const { return cf_stream_insert_int_r(os, std::move(x)); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto cf_stream_insert<X> = hxc::cf_stream_insert_ext_f{};
}
namespace obake::customisation::internal
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E> || obake::is_same_cvr_v<X, hxc::A> || obake::is_same_cvr_v<X, hxc::N>) inline constexpr auto cf_stream_insert<X> = hxc::cf_stream_insert_int_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) cf_stream_insert_E_c(std::ostream &os, const E &x) { return obake::cf_stream_insert(os, x); }
inline decltype(auto) cf_stream_insert_E_r(std::ostream &os, E &&x) { return obake::cf_stream_insert(os, std::move(x)); }
inline decltype(auto) cf_stream_insert_A_c(std::ostream &os, const A &x) { return obake::cf_stream_insert(os, x); }
inline decltype(auto) cf_stream_insert_A_r(std::ostream &os, A &&x) { return obake::cf_stream_insert(os, std::move(x)); }
inline decltype(auto) cf_stream_insert_N_c(std::ostream &os, const N &x) { return obake::cf_stream_insert(os, x); }
inline decltype(auto) cf_stream_insert_N_r(std::ostream &os, N &&x) { return obake::cf_stream_insert(os, std::move(x)); }
inline decltype(auto) cf_stream_insert_D_c(std::ostream &os, const D &x) { return obake::cf_stream_insert(os, x); }
inline decltype(auto) cf_stream_insert_D_r(std::ostream &os, D &&x) { return obake::cf_stream_insert(os, std::move(x)); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool cf_stream_insert_E = obake::is_stream_insertable_cf_v<const E &> == true;
inline constexpr bool cf_stream_insert_E_concept = obake::StreamInsertableCf<const E &> == true;
inline constexpr bool cf_stream_insert_A = obake::is_stream_insertable_cf_v<const A &> == true;
inline constexpr bool cf_stream_insert_A_concept = obake::StreamInsertableCf<const A &> == true;
inline constexpr bool cf_stream_insert_N = obake::is_stream_insertable_cf_v<const N &> == true;
inline constexpr bool cf_stream_insert_N_concept = obake::StreamInsertableCf<const N &> == true;
inline constexpr bool cf_stream_insert_D = obake::is_stream_insertable_cf_v<const D &> == true;
inline constexpr bool cf_stream_insert_D_concept = obake::StreamInsertableCf<const D &> == true;
inline constexpr bool cf_stream_insert_Z = obake::is_stream_insertable_cf_v<const Z &> == false;
inline constexpr bool cf_stream_insert_Z_concept = obake::StreamInsertableCf<const Z &> == false;
}

// byte_size
namespace hxc
{
std::size_t byte_size_ext_c(const E &x);
std::size_t byte_size_ext_r(E &&x);
std::size_t byte_size_adl_c(const E &x);
std::size_t byte_size_adl_r(E &&x);
std::size_t byte_size_int_c(const E &x);
std::size_t byte_size_int_r(E &&x);
std::size_t byte_size_adl_c(const A &x);
std::size_t byte_size_adl_r(A &&x);
std::size_t byte_size_int_c(const A &x);
std::size_t byte_size_int_r(A &&x);
std::size_t byte_size_int_c(const N &x);
std::size_t byte_size_int_r(N &&x);
inline std::size_t byte_size(const E &x) { return byte_size_adl_c(x); }
inline std::size_t byte_size(E &&x) { return byte_size_adl_r(std::move(x)); }
inline std::size_t byte_size(const A &x) { return byte_size_adl_c(x); }
inline std::size_t byte_size(A &&x) { return byte_size_adl_r(std::move(x)); }
struct byte_size_ext_f {
    std::size_t operator()(const E &x) const { return byte_size_ext_c(x); }
    std::size_t operator()(E &&x) const { return byte_size_ext_r(std::move(x)); }
};
struct byte_size_int_f {
    std::size_t operator()(const E &x) const { return byte_size_int_c(x); }
    std::size_t operator()(E &&x) const { return byte_size_int_r(std::move(x)); }
    std::size_t operator()(const A &x) const { return byte_size_int_c(x); }
    std::size_t operator()(A &&x) const { return byte_size_int_r(std::move(x)); }
    std::size_t operator()(const N &x) const { return byte_size_int_c(x); }
    std::size_t operator()(N &&x) const { return byte_size_int_r(std::move(x)); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto byte_size<X> = hxc::byte_size_ext_f{};
}
namespace obake::customisation::internal
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E> || obake::is_same_cvr_v<X, hxc::A> || obake::is_same_cvr_v<X, hxc::N>) inline constexpr auto byte_size<X> = hxc::byte_size_int_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) byte_size_E_c(const E &x) { return obake::byte_size(x); }
inline decltype(auto) byte_size_E_r(E &&x) { return obake::byte_size(std::move(x)); }
inline decltype(auto) byte_size_A_c(const A &x) { return obake::byte_size(x); }
inline decltype(auto) byte_size_A_r(A &&x) { return obake::byte_size(std::move(x)); }
inline decltype(auto) byte_size_N_c(const N &x) { return obake::byte_size(x); }
inline decltype(auto) byte_size_N_r(N &&x) { return obake::byte_size(std::move(x)); }
inline decltype(auto) byte_size_D_c(const D &x) { return obake::byte_size(x); }
inline decltype(auto) byte_size_D_r(D &&x) { return obake::byte_size(std::move(x)); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool byte_size_E = obake::is_size_measurable_v<const E &> == true;
inline constexpr bool byte_size_E_concept = obake::SizeMeasurable<const E &> == true;
inline constexpr bool byte_size_A = obake::is_size_measurable_v<const A &> == true;
inline constexpr bool byte_size_A_concept = obake::SizeMeasurable<const A &> == true;
inline constexpr bool byte_size_N = obake::is_size_measurable_v<const N &> == true;
inline constexpr bool byte_size_N_concept = obake::SizeMeasurable<const N &> == true;
inline constexpr bool byte_size_D = obake::is_size_measurable_v<const D &> == true;
inline constexpr bool byte_size_D_concept = obake::SizeMeasurable<const D &> == true;
inline constexpr bool byte_size_Z = obake::is_size_measurable_v<const Z &> == true;
inline constexpr bool byte_size_Z_concept = obake::SizeMeasurable<const Z &> == true;
}

// hash
namespace hxc
{
std::size_t hash_ext_c(const E &x);
std::size_t hash_ext_r(E &&x);
std::size_t hash_adl_c(const E &x);
std::size_t hash_adl_r(E &&x);
std::size_t hash_adl_c(const A &x);
std::size_t hash_adl_r(A &&x);
inline std::size_t hash(const E &x) { return hash_adl_c(x); }
inline std::size_t hash(E &&x) { return hash_adl_r(std::move(x)); }
inline std::size_t hash(const A &x) { return hash_adl_c(x); }
inline std::size_t hash(A &&x) { return hash_adl_r(std::move(x)); }
struct hash_ext_f {
    std::size_t operator()(const E &x) const { return hash_ext_c(x); }
    std::size_t operator()(E &&x) const { return hash_ext_r(std::move(x)); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto hash<X> = hxc::hash_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) hash_E_c(const E &x) { return obake::hash(x); }
inline decltype(auto) hash_E_r(E &&x) { return obake::hash(std::move(x)); }
inline decltype(auto) hash_A_c(const A &x) { return obake::hash(x); }
inline decltype(auto) hash_A_r(A &&x) { return obake::hash(std::move(x)); }
inline decltype(auto) hash_N_c(const N &x) { return obake::hash(x); }
inline decltype(auto) hash_N_r(N &&x) { return obake::hash(std::move(x)); }
inline decltype(auto) hash_D_c(const D &x) { return obake::hash(x); }
inline decltype(auto) hash_D_r(D &&x) { return obake::hash(std::move(x)); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool hash_E = obake::is_hashable_v<const E &> == true;
inline constexpr bool hash_E_concept = obake::Hashable<const E &> == true;
inline constexpr bool hash_A = obake::is_hashable_v<const A &> == true;
inline constexpr bool hash_A_concept = obake::Hashable<const A &> == true;
inline constexpr bool hash_N = obake::is_hashable_v<const N &> == true;
inline constexpr bool hash_N_concept = obake::Hashable<const N &> == true;
inline constexpr bool hash_D = obake::is_hashable_v<const D &> == true;
inline constexpr bool hash_D_concept = obake::Hashable<const D &> == true;
inline constexpr bool hash_Z = obake::is_hashable_v<const Z &> == false;
inline constexpr bool hash_Z_concept = obake::Hashable<const Z &> == false;
}

// key_is_compatible
namespace hxc
{
bool key_is_compatible_ext_c(const E &x, const obake::symbol_set &ss);
bool key_is_compatible_ext_r(E &&x, const obake::symbol_set &ss);
bool key_is_compatible_adl_c(const E &x, const obake::symbol_set &ss);
bool key_is_compatible_adl_r(E &&x, const obake::symbol_set &ss);
bool key_is_compatible_adl_c(const A &x, const obake::symbol_set &ss);
bool key_is_compatible_adl_r(A &&x, const obake::symbol_set &ss);
inline bool key_is_compatible(const E &x, const obake::symbol_set &ss) { return key_is_compatible_adl_c(x, ss); }
inline bool key_is_compatible(E &&x, const obake::symbol_set &ss) { return key_is_compatible_adl_r(std::move(x), ss); }
inline bool key_is_compatible(const A &x, const obake::symbol_set &ss) { return key_is_compatible_adl_c(x, ss); }
inline bool key_is_compatible(A &&x, const obake::symbol_set &ss) { return key_is_compatible_adl_r(std::move(x), ss); }
struct key_is_compatible_ext_f {
    bool operator()(const E &x, const obake::symbol_set &ss) const { return key_is_compatible_ext_c(x, ss); }
    bool operator()(E &&x, const obake::symbol_set &ss) const { return key_is_compatible_ext_r(std::move(x), ss); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto key_is_compatible<X> = hxc::key_is_compatible_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) key_is_compatible_E_c(const E &x, const obake::symbol_set &ss) { return obake::key_is_compatible(x, ss); }
inline decltype(auto) key_is_compatible_E_r(E &&x, const obake::symbol_set &ss) { return obake::key_is_compatible(std::move(x), ss); }
inline decltype(auto) key_is_compatible_A_c(const A &x, const obake::symbol_set &ss) { return obake::key_is_compatible(x, ss); }
inline decltype(auto) key_is_compatible_A_r(A &&x, const obake::symbol_set &ss) { return obake::key_is_compatible(std::move(x), ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool key_is_compatible_E = obake::is_compatibility_testable_key_v<const E &> == true;
inline constexpr bool key_is_compatible_E_concept = obake::CompatibilityTestableKey<const E &> == true;
inline constexpr bool key_is_compatible_A = obake::is_compatibility_testable_key_v<const A &> == true;
inline constexpr bool key_is_compatible_A_concept = obake::CompatibilityTestableKey<const A &> == true;
inline constexpr bool key_is_compatible_N = obake::is_compatibility_testable_key_v<const N &> == false;
inline constexpr bool key_is_compatible_N_concept = obake::CompatibilityTestableKey<const N &> == false;
inline constexpr bool key_is_compatible_D = obake::is_compatibility_testable_key_v<const D &> == false;
inline constexpr bool key_is_compatible_D_concept = obake::CompatibilityTestableKey<const D &> == false;
inline constexpr bool key_is_compatible_Z = obake::is_compatibility_testable_key_v<const Z &> == false;
inline constexpr bool key_is_compatible_Z_concept = obake::CompatibilityTestableKey<const Z &> == false;
}

// key_degree
namespace hxc
{
R key_degree_ext_c(const E &x, const obake::symbol_set &ss);
R key_degree_ext_r(E &&x, const obake::symbol_set &ss);
R key_degree_adl_c(const E &x, const obake::symbol_set &ss);
R key_degree_adl_r(E &&x, const obake::symbol_set &ss);
R key_degree_adl_c(const A &x, const obake::symbol_set &ss);
R key_degree_adl_r(A &&x, const obake::symbol_set &ss);
inline R key_degree(const E &x, const obake::symbol_set &ss) { return key_degree_adl_c(x, ss); }
inline R key_degree(E &&x, const obake::symbol_set &ss) { return key_degree_adl_r(std::move(x), ss); }
inline R key_degree(const A &x, const obake::symbol_set &ss) { return key_degree_adl_c(x, ss); }
inline R key_degree(A &&x, const obake::symbol_set &ss) { return key_degree_adl_r(std::move(x), ss); }
struct key_degree_ext_f {
    R operator()(const E &x, const obake::symbol_set &ss) const { return key_degree_ext_c(x, ss); }
    R operator()(E &&x, const obake::symbol_set &ss) const { return key_degree_ext_r(std::move(x), ss); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto key_degree<X> = hxc::key_degree_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) key_degree_E_c(const E &x, const obake::symbol_set &ss) { return obake::key_degree(x, ss); }
inline decltype(auto) key_degree_E_r(E &&x, const obake::symbol_set &ss) { return obake::key_degree(std::move(x), ss); }
inline decltype(auto) key_degree_A_c(const A &x, const obake::symbol_set &ss) { return obake::key_degree(x, ss); }
inline decltype(auto) key_degree_A_r(A &&x, const obake::symbol_set &ss) { return obake::key_degree(std::move(x), ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool key_degree_E = obake::is_key_with_degree_v<const E &> == true;
inline constexpr bool key_degree_E_concept = obake::KeyWithDegree<const E &> == true;
inline constexpr bool key_degree_A = obake::is_key_with_degree_v<const A &> == true;
inline constexpr bool key_degree_A_concept = obake::KeyWithDegree<const A &> == true;
inline constexpr bool key_degree_N = obake::is_key_with_degree_v<const N &> == false;
inline constexpr bool key_degree_N_concept = obake::KeyWithDegree<const N &> == false;
inline constexpr bool key_degree_D = obake::is_key_with_degree_v<const D &> == false;
inline constexpr bool key_degree_D_concept = obake::KeyWithDegree<const D &> == false;
inline constexpr bool key_degree_Z = obake::is_key_with_degree_v<const Z &> == false;
inline constexpr bool key_degree_Z_concept = obake::KeyWithDegree<const Z &> == false;
}

// key_p_degree
namespace hxc
{
R key_p_degree_ext_c(const E &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
R key_p_degree_ext_r(E &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
R key_p_degree_adl_c(const E &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
R key_p_degree_adl_r(E &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
R key_p_degree_adl_c(const A &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
R key_p_degree_adl_r(A &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
inline R key_p_degree(const E &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return key_p_degree_adl_c(x, si, ss); }
inline R key_p_degree(E &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return key_p_degree_adl_r(std::move(x), si, ss); }
inline R key_p_degree(const A &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return key_p_degree_adl_c(x, si, ss); }
inline R key_p_degree(A &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return key_p_degree_adl_r(std::move(x), si, ss); }
struct key_p_degree_ext_f {
    R operator()(const E &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) const { return key_p_degree_ext_c(x, si, ss); }
    R operator()(E &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) const { return key_p_degree_ext_r(std::move(x), si, ss); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto key_p_degree<X> = hxc::key_p_degree_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) key_p_degree_E_c(const E &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return obake::key_p_degree(x, si, ss); }
inline decltype(auto) key_p_degree_E_r(E &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return obake::key_p_degree(std::move(x), si, ss); }
inline decltype(auto) key_p_degree_A_c(const A &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return obake::key_p_degree(x, si, ss); }
inline decltype(auto) key_p_degree_A_r(A &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return obake::key_p_degree(std::move(x), si, ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool key_p_degree_E = obake::is_key_with_p_degree_v<const E &> == true;
inline constexpr bool key_p_degree_E_concept = obake::KeyWithPDegree<const E &> == true;
inline constexpr bool key_p_degree_A = obake::is_key_with_p_degree_v<const A &> == true;
inline constexpr bool key_p_degree_A_concept = obake::KeyWithPDegree<const A &> == true;
inline constexpr bool key_p_degree_N = obake::is_key_with_p_degree_v<const N &> == false;
inline constexpr bool key_p_degree_N_concept = obake::KeyWithPDegree<const N &> == false;
inline constexpr bool key_p_degree_D = obake::is_key_with_p_degree_v<const D &> == false;
inline constexpr bool key_p_degree_D_concept = obake::KeyWithPDegree<const D &> == false;
inline constexpr bool key_p_degree_Z = obake::is_key_with_p_degree_v<const Z &> == false;
inline constexpr bool key_p_degree_Z_concept = obake::KeyWithPDegree<const Z &> == false;
}

// key_evaluate
namespace hxc
{
R key_evaluate_ext_c(const E &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
R key_evaluate_ext_r(E &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
R key_evaluate_adl_c(const E &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
R key_evaluate_adl_r(E &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
R key_evaluate_adl_c(const A &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
R key_evaluate_adl_r(A &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
inline R key_evaluate(const E &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return key_evaluate_adl_c(x, sm, ss); }
inline R key_evaluate(E &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return key_evaluate_adl_r(std::move(x), sm, ss); }
inline R key_evaluate(const A &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return key_evaluate_adl_c(x, sm, ss); }
inline R key_evaluate(A &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return key_evaluate_adl_r(std::move(x), sm, ss); }
struct key_evaluate_ext_f {
    R operator()(const E &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) const { return key_evaluate_ext_c(x, sm, ss); }
    R operator()(E &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) const { return key_evaluate_ext_r(std::move(x), sm, ss); }
};
}
namespace obake::customisation
{
template <typename X, typename X1> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto key_evaluate<X, X1> = hxc::key_evaluate_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) key_evaluate_E_c(const E &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return obake::key_evaluate(x, sm, ss); }
inline decltype(auto) key_evaluate_E_r(E &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return obake::key_evaluate(std::move(x), sm, ss); }
inline decltype(auto) key_evaluate_A_c(const A &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return obake::key_evaluate(x, sm, ss); }
inline decltype(auto) key_evaluate_A_r(A &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return obake::key_evaluate(std::move(x), sm, ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool key_evaluate_E = obake::is_evaluable_key_v<const E &, Y> == true;
inline constexpr bool key_evaluate_E_concept = obake::EvaluableKey<const E &, Y> == true;
inline constexpr bool key_evaluate_A = obake::is_evaluable_key_v<const A &, Y> == true;
inline constexpr bool key_evaluate_A_concept = obake::EvaluableKey<const A &, Y> == true;
inline constexpr bool key_evaluate_N = obake::is_evaluable_key_v<const N &, Y> == false;
inline constexpr bool key_evaluate_N_concept = obake::EvaluableKey<const N &, Y> == false;
inline constexpr bool key_evaluate_D = obake::is_evaluable_key_v<const D &, Y> == false;
inline constexpr bool key_evaluate_D_concept = obake::EvaluableKey<const D &, Y> == false;
inline constexpr bool key_evaluate_Z = obake::is_evaluable_key_v<const Z &, Y> == false;
inline constexpr bool key_evaluate_Z_concept = obake::EvaluableKey<const Z &, Y> == false;
}

// key_is_zero
namespace hxc
{
bool key_is_zero_ext_c(const E &x, const obake::symbol_set &ss);
bool key_is_zero_ext_r(E &&x, const obake::symbol_set &ss);
bool key_is_zero_adl_c(const E &x, const obake::symbol_set &ss);
bool key_is_zero_adl_r(E &&x, const obake::symbol_set &ss);
bool key_is_zero_adl_c(const A &x, const obake::symbol_set &ss);
bool key_is_zero_adl_r(A &&x, const obake::symbol_set &ss);
inline bool key_is_zero(const E &x, const obake::symbol_set &ss) { return key_is_zero_adl_c(x, ss); }
inline bool key_is_zero(E &&x, const obake::symbol_set &ss) { return key_is_zero_adl_r(std::move(x), ss); }
inline bool key_is_zero(const A &x, const obake::symbol_set &ss) { return key_is_zero_adl_c(x, ss); }
inline bool key_is_zero(A &&x, const obake::symbol_set &ss) { return key_is_zero_adl_r(std::move(x), ss); }
struct key_is_zero_ext_f {
    bool operator()(const E &x, const obake::symbol_set &ss) const { return key_is_zero_ext_c(x, ss); }
    bool operator()(E &&x, const obake::symbol_set &ss) const { return key_is_zero_ext_r(std::move(x), ss); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto key_is_zero<X> = hxc::key_is_zero_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) key_is_zero_E_c(const E &x, const obake::symbol_set &ss) { return obake::key_is_zero(x, ss); }
inline decltype(auto) key_is_zero_E_r(E &&x, const obake::symbol_set &ss) { return obake::key_is_zero(std::move(x), ss); }
inline decltype(auto) key_is_zero_A_c(const A &x, const obake::symbol_set &ss) { return obake::key_is_zero(x, ss); }
inline decltype(auto) key_is_zero_A_r(A &&x, const obake::symbol_set &ss) { return obake::key_is_zero(std::move(x), ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool key_is_zero_E = obake::is_zero_testable_key_v<const E &> == true;
inline constexpr bool key_is_zero_E_concept = obake::ZeroTestableKey<const E &> == true;
inline constexpr bool key_is_zero_A = obake::is_zero_testable_key_v<const A &> == true;
inline constexpr bool key_is_zero_A_concept = obake::ZeroTestableKey<const A &> == true;
inline constexpr bool key_is_zero_N = obake::is_zero_testable_key_v<const N &> == false;
inline constexpr bool key_is_zero_N_concept = obake::ZeroTestableKey<const N &> == false;
inline constexpr bool key_is_zero_D = obake::is_zero_testable_key_v<const D &> == false;
inline constexpr bool key_is_zero_D_concept = obake::ZeroTestableKey<const D &> == false;
inline constexpr bool key_is_zero_Z = obake::is_zero_testable_key_v<const Z &> == false;
inline constexpr bool key_is_zero_Z_concept = obake::ZeroTestableKey<const Z &> == false;
}

// key_is_one
namespace hxc
{
bool key_is_one_ext_c(const E &x, const obake::symbol_set &ss);
bool key_is_one_ext_r(E &&x, const obake::symbol_set &ss);
bool key_is_one_adl_c(const E &x, const obake::symbol_set &ss);
bool key_is_one_adl_r(E &&x, const obake::symbol_set &ss);
bool key_is_one_adl_c(const A &x, const obake::symbol_set &ss);
bool key_is_one_adl_r(A &&x, const obake::symbol_set &ss);
inline bool key_is_one(const E &x, const obake::symbol_set &ss) { return key_is_one_adl_c(x, ss); }
inline bool key_is_one(E &&x, const obake::symbol_set &ss) { return key_is_one_adl_r(std::move(x), ss); }
inline bool key_is_one(const A &x, const obake::symbol_set &ss) { return key_is_one_adl_c(x, ss); }
inline bool key_is_one(A &&x, const obake::symbol_set &ss) { return key_is_one_adl_r(std::move(x), ss); }
struct key_is_one_ext_f {
    bool operator()(const E &x, const obake::symbol_set &ss) const { return key_is_one_ext_c(x, ss); }
    bool operator()(E &&x, const obake::symbol_set &ss) const { return key_is_one_ext_r(std::move(x), ss); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto key_is_one<X> = hxc::key_is_one_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) key_is_one_E_c(const E &x, const obake::symbol_set &ss) { return obake::key_is_one(x, ss); }
inline decltype(auto) key_is_one_E_r(E &&x, const obake::symbol_set &ss) { return obake::key_is_one(std::move(x), ss); }
inline decltype(auto) key_is_one_A_c(const A &x, const obake::symbol_set &ss) { return obake::key_is_one(x, ss); }
inline decltype(auto) key_is_one_A_r(A &&x, const obake::symbol_set &ss) { return obake::key_is_one(std::move(x), ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool key_is_one_E = obake::is_one_testable_key_v<const E &> == true;
inline constexpr bool key_is_one_E_concept = obake::OneTestableKey<const E &> == true;
inline constexpr bool key_is_one_A = obake::is_one_testable_key_v<const A &> == true;
inline constexpr bool key_is_one_A_concept = obake::OneTestableKey<const A &> == true;
inline constexpr bool key_is_one_N = obake::is_one_testable_key_v<const N &> == false;
inline constexpr bool key_is_one_N_concept = obake::OneTestableKey<const N &> == false;
inline constexpr bool key_is_one_D = obake::is_one_testable_key_v<const D &> == false;
inline constexpr bool key_is_one_D_concept = obake::OneTestableKey<const D &> == false;
inline constexpr bool key_is_one_Z = obake::is_one_testable_key_v<const Z &> == false;
inline constexpr bool key_is_one_Z_concept = obake::OneTestableKey<const Z &> == false;
}

// key_stream_insert
namespace hxc
{
void key_stream_insert_ext_c(std::ostream &os, const E &x, const obake::symbol_set &ss);
void key_stream_insert_ext_r(std::ostream &os, E &&x, const obake::symbol_set &ss);
void key_stream_insert_adl_c(std::ostream &os, const E &x, const obake::symbol_set &ss);
void key_stream_insert_adl_r(std::ostream &os, E &&x, const obake::symbol_set &ss);
void key_stream_insert_adl_c(std::ostream &os, const A &x, const obake::symbol_set &ss);
void key_stream_insert_adl_r(std::ostream &os, A &&x, const obake::symbol_set &ss);
inline void key_stream_insert(std::ostream &os, const E &x, const obake::symbol_set &ss) { return key_stream_insert_adl_c(os, x, ss); }
inline void key_stream_insert(std::ostream &os, E &&x, const obake::symbol_set &ss) { return key_stream_insert_adl_r(os, std::move(x), ss); }
inline void key_stream_insert(std::ostream &os, const A &x, const obake::symbol_set &ss) { return key_stream_insert_adl_c(os, x, ss); }
inline void key_stream_insert(std::ostream &os, A &&x, const obake::symbol_set &ss) { return key_stream_insert_adl_r(os, std::move(x), ss); }
struct key_stream_insert_ext_f {
    void operator()(std::ostream &os, const E &x, const obake::symbol_set &ss) const { return key_stream_insert_ext_c(os, x, ss); }
    void operator()(std::ostream &os, E &&x, const obake::symbol_set &ss) const { return key_stream_insert_ext_r(os, std::move(x), ss); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto key_stream_insert<X> = hxc::key_stream_insert_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) key_stream_insert_E_c(std::ostream &os, const E &x, const obake::symbol_set &ss) { return obake::key_stream_insert(os, x, ss); }
inline decltype(auto) key_stream_insert_E_r(std::ostream &os, E &&x, const obake::symbol_set &ss) { return obake::key_stream_insert(os, std::move(x), ss); }
inline decltype(auto) key_stream_insert_A_c(std::ostream &os, const A &x, const obake::symbol_set &ss) { return obake::key_stream_insert(os, x, ss); }
inline decltype(auto) key_stream_insert_A_r(std::ostream &os, A &&x, const obake::symbol_set &ss) { return obake::key_stream_insert(os, std::move(x), ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool key_stream_insert_E = obake::is_stream_insertable_key_v<const E &> == true;
inline constexpr bool key_stream_insert_E_concept = obake::StreamInsertableKey<const E &> == true;
inline constexpr bool key_stream_insert_A = obake::is_stream_insertable_key_v<const A &> == true;
inline constexpr bool key_stream_insert_A_concept = obake::StreamInsertableKey<const A &> == true;
inline constexpr bool key_stream_insert_N = obake::is_stream_insertable_key_v<const N &> == false;
inline constexpr bool key_stream_insert_N_concept = obake::StreamInsertableKey<const N &> == false;
inline constexpr bool key_stream_insert_D = obake::is_stream_insertable_key_v<const D &> == false;
inline constexpr bool key_stream_insert_D_concept = obake::StreamInsertableKey<const D &> == false;
inline constexpr bool key_stream_insert_Z = obake::is_stream_insertable_key_v<const Z &> == false;
inline constexpr bool key_stream_insert_Z_concept = obake::StreamInsertableKey<const Z &> == false;
}

// key_tex_stream_insert
namespace hxc
{
void key_tex_stream_insert_ext_c(std::ostream &os, const E &x, const obake::symbol_set &ss);
void key_tex_stream_insert_ext_r(std::ostream &os, E &&x, const obake::symbol_set &ss);
void key_tex_stream_insert_adl_c(std::ostream &os, const E &x, const obake::symbol_set &ss);
void key_tex_stream_insert_adl_r(std::ostream &os, E &&x, const obake::symbol_set &ss);
void key_tex_stream_insert_adl_c(std::ostream &os, const A &x, const obake::symbol_set &ss);
void key_tex_stream_insert_adl_r(std::ostream &os, A &&x, const obake::symbol_set &ss);
inline void key_tex_stream_insert(std::ostream &os, const E &x, const obake::symbol_set &ss) { return key_tex_stream_insert_adl_c(os, x, ss); }
inline void key_tex_stream_insert(std::ostream &os, E &&x, const obake::symbol_set &ss) { return key_tex_stream_insert_adl_r(os, std::move(x), ss); }
inline void key_tex_stream_insert(std::ostream &os, const A &x, const obake::symbol_set &ss) { return key_tex_stream_insert_adl_c(os, x, ss); }
inline void key_tex_stream_insert(std::ostream &os, A &&x, const obake::symbol_set &ss) { return key_tex_stream_insert_adl_r(os, std::move(x), ss); }
}
namespace hxc
{
inline void key_tex_stream_insert(obake::customisation::key_tex_stream_insert_t, std::ostream &os, const E &x, const obake::symbol_set &ss) { return key_tex_stream_insert_ext_c(os, x, ss); }
inline void key_tex_stream_insert(obake::customisation::key_tex_stream_insert_t, std::ostream &os, E &&x, const obake::symbol_set &ss) { return key_tex_stream_insert_ext_r(os, std::move(x), ss); }
}
namespace hx
{
using namespace hxc;
inline decltype(auto) key_tex_stream_insert_E_c(std::ostream &os, const E &x, const obake::symbol_set &ss) { return obake::key_tex_stream_insert(os, x, ss); }
inline decltype(auto) key_tex_stream_insert_E_r(std::ostream &os, E &&x, const obake::symbol_set &ss) { return obake::key_tex_stream_insert(os, std::move(x), ss); }
inline decltype(auto) key_tex_stream_insert_A_c(std::ostream &os, const A &x, const obake::symbol_set &ss) { return obake::key_tex_stream_insert(os, x, ss); }
inline decltype(auto) key_tex_stream_insert_A_r(std::ostream &os, A &&x, const obake::symbol_set &ss) { return obake::key_tex_stream_insert(os, std::move(x), ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool key_tex_stream_insert_E = obake::is_tex_stream_insertable_key_v<const E &> == true;
inline constexpr bool key_tex_stream_insert_E_concept = obake::tex_stream_insertable_key<const E &> == true;
inline constexpr bool key_tex_stream_insert_A = obake::is_tex_stream_insertable_key_v<const A &> == true;
inline constexpr bool key_tex_stream_insert_A_concept = obake::tex_stream_insertable_key<const A &> == true;
inline constexpr bool key_tex_stream_insert_N = obake::is_tex_stream_insertable_key_v<const N &> == false;
inline constexpr bool key_tex_stream_insert_N_concept = obake::tex_stream_insertable_key<const N &> == false;
inline constexpr bool key_tex_stream_insert_D = obake::is_tex_stream_insertable_key_v<const D &> == false;
inline constexpr bool key_tex_stream_insert_D_concept = obake::tex_stream_insertable_key<const D &> == false;
inline constexpr bool key_tex_stream_insert_Z = obake::is_tex_stream_insertable_key_v<const Z &> == false;
inline constexpr bool key_tex_stream_insert_Z_concept = obake::tex_stream_insertable_key<const Z &> == false;
}

// key_trim
namespace hxc
{
E key_trim_ext_c(const E &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
E key_trim_ext_r(E &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
E key_trim_adl_c(const E &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
E key_trim_adl_r(E &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
A key_trim_adl_c(const A &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
A key_trim_adl_r(A &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
inline E key_trim(const E &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return key_trim_adl_c(x, si, ss); }
inline E key_trim(E &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return key_trim_adl_r(std::move(x), si, ss); }
inline A key_trim(const A &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return key_trim_adl_c(x, si, ss); }
inline A key_trim(A &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return key_trim_adl_r(std::move(x), si, ss); }
struct key_trim_ext_f {
    E operator()(const E &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) const { return key_trim_ext_c(x, si, ss); }
    E operator()(E &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) const { return key_trim_ext_r(std::move(x), si, ss); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto key_trim<X> = hxc::key_trim_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) key_trim_E_c(const E &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return obake::key_trim(x, si, ss); }
inline decltype(auto) key_trim_E_r(E &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return obake::key_trim(std::move(x), si, ss); }
inline decltype(auto) key_trim_A_c(const A &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return obake::key_trim(x, si, ss); }
inline decltype(auto) key_trim_A_r(A &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss) { return obake::key_trim(std::move(x), si, ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool key_trim_E = obake::is_trimmable_key_v<const E &> == true;
inline constexpr bool key_trim_E_concept = obake::TrimmableKey<const E &> == true;
inline constexpr bool key_trim_A = obake::is_trimmable_key_v<const A &> == true;
inline constexpr bool key_trim_A_concept = obake::TrimmableKey<const A &> == true;
inline constexpr bool key_trim_N = obake::is_trimmable_key_v<const N &> == false;
inline constexpr bool key_trim_N_concept = obake::TrimmableKey<const N &> == false;
inline constexpr bool key_trim_D = obake::is_trimmable_key_v<const D &> == false;
inline constexpr bool key_trim_D_concept = obake::TrimmableKey<const D &> == false;
inline constexpr bool key_trim_Z = obake::is_trimmable_key_v<const Z &> == false;
inline constexpr bool key_trim_Z_concept = obake::TrimmableKey<const Z &> == false;
}

// key_trim_identify
namespace hxc
{
void key_trim_identify_ext_c(std::vector<int> &v, const E &x, const obake::symbol_set &ss);
void key_trim_identify_ext_r(std::vector<int> &v, E &&x, const obake::symbol_set &ss);
void key_trim_identify_adl_c(std::vector<int> &v, const E &x, const obake::symbol_set &ss);
void key_trim_identify_adl_r(std::vector<int> &v, E &&x, const obake::symbol_set &ss);
void key_trim_identify_adl_c(std::vector<int> &v, const A &x, const obake::symbol_set &ss);
void key_trim_identify_adl_r(std::vector<int> &v, A &&x, const obake::symbol_set &ss);
inline void key_trim_identify(std::vector<int> &v, const E &x, const obake::symbol_set &ss) { return key_trim_identify_adl_c(v, x, ss); }
inline void key_trim_identify(std::vector<int> &v, E &&x, const obake::symbol_set &ss) { return key_trim_identify_adl_r(v, std::move(x), ss); }
inline void key_trim_identify(std::vector<int> &v, const A &x, const obake::symbol_set &ss) { return key_trim_identify_adl_c(v, x, ss); }
inline void key_trim_identify(std::vector<int> &v, A &&x, const obake::symbol_set &ss) { return key_trim_identify_adl_r(v, std::move(x), ss); }
struct key_trim_identify_ext_f {
    void operator()(std::vector<int> &v, const E &x, const obake::symbol_set &ss) const { return key_trim_identify_ext_c(v, x, ss); }
    void operator()(std::vector<int> &v, E &&x, const obake::symbol_set &ss) const { return key_trim_identify_ext_r(v, std::move(x), ss); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto key_trim_identify<X> = hxc::key_trim_identify_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) key_trim_identify_E_c(std::vector<int> &v, const E &x, const obake::symbol_set &ss) { return obake::key_trim_identify(v, x, ss); }
inline decltype(auto) key_trim_identify_E_r(std::vector<int> &v, E &&x, const obake::symbol_set &ss) { return obake::key_trim_identify(v, std::move(x), ss); }
inline decltype(auto) key_trim_identify_A_c(std::vector<int> &v, const A &x, const obake::symbol_set &ss) { return obake::key_trim_identify(v, x, ss); }
inline decltype(auto) key_trim_identify_A_r(std::vector<int> &v, A &&x, const obake::symbol_set &ss) { return obake::key_trim_identify(v, std::move(x), ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool key_trim_identify_E = obake::is_trim_identifiable_key_v<const E &> == true;
inline constexpr bool key_trim_identify_E_concept = obake::TrimIdentifiableKey<const E &> == true;
inline constexpr bool key_trim_identify_A = obake::is_trim_identifiable_key_v<const A &> == true;
inline constexpr bool key_trim_identify_A_concept = obake::TrimIdentifiableKey<const A &> == true;
inline constexpr bool key_trim_identify_N = obake::is_trim_identifiable_key_v<const N &> == false;
inline constexpr bool key_trim_identify_N_concept = obake::TrimIdentifiableKey<const N &> == false;
inline constexpr bool key_trim_identify_D = obake::is_trim_identifiable_key_v<const D &> == false;
inline constexpr bool key_trim_identify_D_concept = obake::TrimIdentifiableKey<const D &> == false;
inline constexpr bool key_trim_identify_Z = obake::is_trim_identifiable_key_v<const Z &> == false;
inline constexpr bool key_trim_identify_Z_concept = obake::TrimIdentifiableKey<const Z &> == false;
}

// key_merge_symbols
namespace hxc
{
E key_merge_symbols_ext_c(const E &x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss);
E key_merge_symbols_ext_r(E &&x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss);
E key_merge_symbols_adl_c(const E &x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss);
E key_merge_symbols_adl_r(E &&x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss);
A key_merge_symbols_adl_c(const A &x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss);
A key_merge_symbols_adl_r(A &&x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss);
inline E key_merge_symbols(const E &x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss) { return key_merge_symbols_adl_c(x, im, ss); }
inline E key_merge_symbols(E &&x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss) { return key_merge_symbols_adl_r(std::move(x), im, ss); }
inline A key_merge_symbols(const A &x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss) { return key_merge_symbols_adl_c(x, im, ss); }
inline A key_merge_symbols(A &&x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss) { return key_merge_symbols_adl_r(std::move(x), im, ss); }
struct key_merge_symbols_ext_f {
    E operator()(const E &x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss) const { return key_merge_symbols_ext_c(x, im, ss); }
    E operator()(E &&x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss) const { return key_merge_symbols_ext_r(std::move(x), im, ss); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto key_merge_symbols<X> = hxc::key_merge_symbols_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) key_merge_symbols_E_c(const E &x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss) { return obake::key_merge_symbols(x, im, ss); }
inline decltype(auto) key_merge_symbols_E_r(E &&x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss) { return obake::key_merge_symbols(std::move(x), im, ss); }
inline decltype(auto) key_merge_symbols_A_c(const A &x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss) { return obake::key_merge_symbols(x, im, ss); }
inline decltype(auto) key_merge_symbols_A_r(A &&x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss) { return obake::key_merge_symbols(std::move(x), im, ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool key_merge_symbols_E = obake::is_symbols_mergeable_key_v<const E &> == true;
inline constexpr bool key_merge_symbols_E_concept = obake::SymbolsMergeableKey<const E &> == true;
inline constexpr bool key_merge_symbols_A = obake::is_symbols_mergeable_key_v<const A &> == true;
inline constexpr bool key_merge_symbols_A_concept = obake::SymbolsMergeableKey<const A &> == true;
inline constexpr bool key_merge_symbols_N = obake::is_symbols_mergeable_key_v<const N &> == false;
inline constexpr bool key_merge_symbols_N_concept = obake::SymbolsMergeableKey<const N &> == false;
inline constexpr bool key_merge_symbols_D = obake::is_symbols_mergeable_key_v<const D &> == false;
inline constexpr bool key_merge_symbols_D_concept = obake::SymbolsMergeableKey<const D &> == false;
inline constexpr bool key_merge_symbols_Z = obake::is_symbols_mergeable_key_v<const Z &> == false;
inline constexpr bool key_merge_symbols_Z_concept = obake::SymbolsMergeableKey<const Z &> == false;
}

// degree
namespace hxc
{
R degree_ext_c(const E &x);
R degree_ext_r(E &&x);
R degree_adl_c(const E &x);
R degree_adl_r(E &&x);
R degree_int_c(const E &x);
R degree_int_r(E &&x);
R degree_adl_c(const A &x);
R degree_adl_r(A &&x);
R degree_int_c(const A &x);
R degree_int_r(A &&x);
R degree_int_c(const N &x);
R degree_int_r(N &&x);
inline R degree(const E &x) { return degree_adl_c(x); }
inline R degree(E &&x) { return degree_adl_r(std::move(x)); }
inline R degree(const A &x) { return degree_adl_c(x); }
inline R degree(A &&x) { return degree_adl_r(std::move(x)); }
struct degree_ext_f {
    R operator()(const E &x) const { return degree_ext_c(x); }
    R operator()(E &&x) const { return degree_ext_r(std::move(x)); }
};
struct degree_int_f {
    R operator()(const E &x) const { return degree_int_c(x); }
    R operator()(E &&x) const { return degree_int_r(std::move(x)); }
    R operator()(const A &x) const { return degree_int_c(x); }
    R operator()(A &&x) const { return degree_int_r(std::move(x)); }
    R operator()(const N &x) const { return degree_int_c(x); }
    R operator()(N &&x) const { return degree_int_r(std::move(x)); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto degree<X> = hxc::degree_ext_f{};
}
namespace obake::customisation::internal
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E> || obake::is_same_cvr_v<X, hxc::A> || obake::is_same_cvr_v<X, hxc::N>) inline constexpr auto degree<X> = hxc::degree_int_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) degree_E_c(const E &x) { return obake::degree(x); }
inline decltype(auto) degree_E_r(E &&x) { return obake::degree(std::move(x)); }
inline decltype(auto) degree_A_c(const A &x) { return obake::degree(x); }
inline decltype(auto) degree_A_r(A &&x) { return obake::degree(std::move(x)); }
inline decltype(auto) degree_N_c(const N &x) { return obake::degree(x); }
inline decltype(auto) degree_N_r(N &&x) { return obake::degree(std::move(x)); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool degree_E = obake::is_with_degree_v<const E &> == true;
inline constexpr bool degree_E_concept = obake::WithDegree<const E &> == true;
inline constexpr bool degree_A = obake::is_with_degree_v<const A &> == true;
inline constexpr bool degree_A_concept = obake::WithDegree<const A &> == true;
inline constexpr bool degree_N = obake::is_with_degree_v<const N &> == true;
inline constexpr bool degree_N_concept = obake::WithDegree<const N &> == true;
inline constexpr bool degree_D = obake::is_with_degree_v<const D &> == false;
inline constexpr bool degree_D_concept = obake::WithDegree<const D &> == false;
inline constexpr bool degree_Z = obake::is_with_degree_v<const Z &> == false;
inline constexpr bool degree_Z_concept = obake::WithDegree<const Z &> == false;
}

// p_degree
namespace hxc
{
R p_degree_ext_c(const E &x, const obake::symbol_set &ss);
R p_degree_ext_r(E &&x, const obake::symbol_set &ss);
R p_degree_adl_c(const E &x, const obake::symbol_set &ss);
R p_degree_adl_r(E &&x, const obake::symbol_set &ss);
R p_degree_int_c(const E &x, const obake::symbol_set &ss);
R p_degree_int_r(E &&x, const obake::symbol_set &ss);
R p_degree_adl_c(const A &x, const obake::symbol_set &ss);
R p_degree_adl_r(A &&x, const obake::symbol_set &ss);
R p_degree_int_c(const A &x, const obake::symbol_set &ss);
R p_degree_int_r(A &&x, const obake::symbol_set &ss);
R p_degree_int_c(const N &x, const obake::symbol_set &ss);
R p_degree_int_r(N &&x, const obake::symbol_set &ss);
inline R p_degree(const E &x, const obake::symbol_set &ss) { return p_degree_adl_c(x, ss); }
inline R p_degree(E &&x, const obake::symbol_set &ss) { return p_degree_adl_r(std::move(x), ss); }
inline R p_degree(const A &x, const obake::symbol_set &ss) { return p_degree_adl_c(x, ss); }
inline R p_degree(A &&x, const obake::symbol_set &ss) { return p_degree_adl_r(std::move(x), ss); }
struct p_degree_ext_f {
    R operator()(const E &x, const obake::symbol_set &ss) const { return p_degree_ext_c(x, ss); }
    R operator()(E &&x, const obake::symbol_set &ss) const { return p_degree_ext_r(std::move(x), ss); }
};
struct p_degree_int_f {
    R operator()(const E &x, const obake::symbol_set &ss) const { return p_degree_int_c(x, ss); }
    R operator()(E &&x, const obake::symbol_set &ss) const { return p_degree_int_r(std::move(x), ss); }
    R operator()(const A &x, const obake::symbol_set &ss) const { return p_degree_int_c(x, ss); }
    R operator()(A &&x, const obake::symbol_set &ss) const { return p_degree_int_r(std::move(x), ss); }
    R operator()(const N &x, const obake::symbol_set &ss) const { return p_degree_int_c(x, ss); }
    R operator()(N &&x, const obake::symbol_set &ss) const { return p_degree_int_r(std::move(x), ss); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto p_degree<X> = hxc::p_degree_ext_f{};
}
namespace obake::customisation::internal
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E> || obake::is_same_cvr_v<X, hxc::A> || obake::is_same_cvr_v<X, hxc::N>) inline constexpr auto p_degree<X> = hxc::p_degree_int_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) p_degree_E_c(const E &x, const obake::symbol_set &ss) { return obake::p_degree(x, ss); }
inline decltype(auto) p_degree_E_r(E &&x, const obake::symbol_set &ss) { return obake::p_degree(std::move(x), ss); }
inline decltype(auto) p_degree_A_c(const A &x, const obake::symbol_set &ss) { return obake::p_degree(x, ss); }
inline decltype(auto) p_degree_A_r(A &&x, const obake::symbol_set &ss) { return obake::p_degree(std::move(x), ss); }
inline decltype(auto) p_degree_N_c(const N &x, const obake::symbol_set &ss) { return obake::p_degree(x, ss); }
inline decltype(auto) p_degree_N_r(N &&x, const obake::symbol_set &ss) { return obake::p_degree(std::move(x), ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool p_degree_E = obake::is_with_p_degree_v<const E &> == true;
inline constexpr bool p_degree_E_concept = obake::WithPDegree<const E &> == true;
inline constexpr bool p_degree_A = obake::is_with_p_degree_v<const A &> == true;
inline constexpr bool p_degree_A_concept = obake::WithPDegree<const A &> == true;
inline constexpr bool p_degree_N = obake::is_with_p_degree_v<const N &> == true;
inline constexpr bool p_degree_N_concept = obake::WithPDegree<const N &> == true;
inline constexpr bool p_degree_D = obake::is_with_p_degree_v<const D &> == false;
inline constexpr bool p_degree_D_concept = obake::WithPDegree<const D &> == false;
inline constexpr bool p_degree_Z = obake::is_with_p_degree_v<const Z &> == false;
inline constexpr bool p_degree_Z_concept = obake::WithPDegree<const Z &> == false;
}

// evaluate
namespace hxc
{
R evaluate_ext_c(const E &x, const obake::symbol_map<Y> &sm);
R evaluate_ext_r(E &&x, const obake::symbol_map<Y> &sm);
R evaluate_adl_c(const E &x, const obake::symbol_map<Y> &sm);
R evaluate_adl_r(E &&x, const obake::symbol_map<Y> &sm);
R evaluate_int_c(const E &x, const obake::symbol_map<Y> &sm);
R evaluate_int_r(E &&x, const obake::symbol_map<Y> &sm);
R evaluate_adl_c(const A &x, const obake::symbol_map<Y> &sm);
R evaluate_adl_r(A &&x, const obake::symbol_map<Y> &sm);
R evaluate_int_c(const A &x, const obake::symbol_map<Y> &sm);
R evaluate_int_r(A &&x, const obake::symbol_map<Y> &sm);
R evaluate_int_c(const N &x, const obake::symbol_map<Y> &sm);
R evaluate_int_r(N &&x, const obake::symbol_map<Y> &sm);
inline R evaluate(const E &x, const obake::symbol_map<Y> &sm) { return evaluate_adl_c(x, sm); }
inline R evaluate(E &&x, const obake::symbol_map<Y> &sm) { return evaluate_adl_r(std::move(x), sm); }
inline R evaluate(const A &x, const obake::symbol_map<Y> &sm) { return evaluate_adl_c(x, sm); }
inline R evaluate(A &&x, const obake::symbol_map<Y> &sm) { return evaluate_adl_r(std::move(x), sm); }
struct evaluate_ext_f {
    R operator()(const E &x, const obake::symbol_map<Y> &sm) const { return evaluate_ext_c(x, sm); }
    R operator()(E &&x, const obake::symbol_map<Y> &sm) const { return evaluate_ext_r(std::move(x), sm); }
};
struct evaluate_int_f {
    R operator()(const E &x, const obake::symbol_map<Y> &sm) const { return evaluate_int_c(x, sm); }
    R operator()(E &&x, const obake::symbol_map<Y> &sm) const { return evaluate_int_r(std::move(x), sm); }
    R operator()(const A &x, const obake::symbol_map<Y> &sm) const { return evaluate_int_c(x, sm); }
    R operator()(A &&x, const obake::symbol_map<Y> &sm) const { return evaluate_int_r(std::move(x), sm); }
    R operator()(const N &x, const obake::symbol_map<Y> &sm) const { return evaluate_int_c(x, sm); }
    R operator()(N &&x, const obake::symbol_map<Y> &sm) const { return evaluate_int_r(std::move(x), sm); }
};
}
namespace obake::customisation
{
template <typename X, typename X1> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto evaluate<X, X1> = hxc::evaluate_ext_f{};
}
namespace obake::customisation::internal
{
template <typename X, typename X1> requires(obake::is_same_cvr_v<X, hxc::E> || obake::is_same_cvr_v<X, hxc::A> || obake::is_same_cvr_v<X, hxc::N>) inline constexpr auto evaluate<X, X1> = hxc::evaluate_int_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) evaluate_E_c(const E &x, const obake::symbol_map<Y> &sm) { return obake::evaluate(x, sm); }
inline decltype(auto) evaluate_E_r(E &&x, const obake::symbol_map<Y> &sm) { return obake::evaluate(std::move(x), sm); }
inline decltype(auto) evaluate_A_c(const A &x, const obake::symbol_map<Y> &sm) { return obake::evaluate(x, sm); }
inline decltype(auto) evaluate_A_r(A &&x, const obake::symbol_map<Y> &sm) { return obake::evaluate(std::move(x), sm); }
inline decltype(auto) evaluate_N_c(const N &x, const obake::symbol_map<Y> &sm) { return obake::evaluate(x, sm); }
inline decltype(auto) evaluate_N_r(N &&x, const obake::symbol_map<Y> &sm) { return obake::evaluate(std::move(x), sm); }
inline decltype(auto) evaluate_D_c(const D &x, const obake::symbol_map<Y> &sm) { return obake::evaluate(x, sm); }
inline decltype(auto) evaluate_D_r(D &&x, const obake::symbol_map<Y> &sm) { return obake::evaluate(std::move(x), sm); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool evaluate_E = obake::is_evaluable_v<const E &, Y> == true;
inline constexpr bool evaluate_E_concept = obake::Evaluable<const E &, Y> == true;
inline constexpr bool evaluate_A = obake::is_evaluable_v<const A &, Y> == true;
inline constexpr bool evaluate_A_concept = obake::Evaluable<const A &, Y> == true;
inline constexpr bool evaluate_N = obake::is_evaluable_v<const N &, Y> == true;
inline constexpr bool evaluate_N_concept = obake::Evaluable<const N &, Y> == true;
inline constexpr bool evaluate_D = obake::is_evaluable_v<const D &, Y> == true;
inline constexpr bool evaluate_D_concept = obake::Evaluable<const D &, Y> == true;
inline constexpr bool evaluate_Z = obake::is_evaluable_v<const Z &, Y> == true;
inline constexpr bool evaluate_Z_concept = obake::Evaluable<const Z &, Y> == true;
}

// subs
namespace hxc
{
R subs_ext_c(const E &x, const obake::symbol_map<Y> &sm);
R subs_ext_r(E &&x, const obake::symbol_map<Y> &sm);
R subs_adl_c(const E &x, const obake::symbol_map<Y> &sm);
R subs_adl_r(E &&x, const obake::symbol_map<Y> &sm);
R subs_adl_c(const A &x, const obake::symbol_map<Y> &sm);
R subs_adl_r(A &&x, const obake::symbol_map<Y> &sm);
inline R subs(const E &x, const obake::symbol_map<Y> &sm) { return subs_adl_c(x, sm); }
inline R subs(E &&x, const obake::symbol_map<Y> &sm) { return subs_adl_r(std::move(x), sm); }
inline R subs(const A &x, const obake::symbol_map<Y> &sm) { return subs_adl_c(x, sm); }
inline R subs(A &&x, const obake::symbol_map<Y> &sm) { return subs_adl_r(std::move(x), sm); }
}
namespace hxc
{
inline R subs(obake::customisation::subs_t, const E &x, const obake::symbol_map<Y> &sm) { return subs_ext_c(x, sm); }
inline R subs(obake::customisation::subs_t, E &&x, const obake::symbol_map<Y> &sm) { return subs_ext_r(std::move(x), sm); }
}
namespace hx
{
using namespace hxc;
inline decltype(auto) subs_E_c(const E &x, const obake::symbol_map<Y> &sm) { return obake::subs(x, sm); }
inline decltype(auto) subs_E_r(E &&x, const obake::symbol_map<Y> &sm) { return obake::subs(std::move(x), sm); }
inline decltype(auto) subs_A_c(const A &x, const obake::symbol_map<Y> &sm) { return obake::subs(x, sm); }
inline decltype(auto) subs_A_r(A &&x, const obake::symbol_map<Y> &sm) { return obake::subs(std::move(x), sm); }
inline decltype(auto) subs_N_c(const N &x, const obake::symbol_map<Y> &sm) { return obake::subs(x, sm); }
inline decltype(auto) subs_N_r(N &&x, const obake::symbol_map<Y> &sm) { return obake::subs(std::move(x), sm); }
inline decltype(auto) subs_D_c(const D &x, const obake::symbol_map<Y> &sm) { return obake::subs(x, sm); }
inline decltype(auto) subs_D_r(D &&x, const obake::symbol_map<Y> &sm) { return obake::subs(std::move(x), sm); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool subs_E = obake::is_substitutable_v<const E &, Y> == true;
inline constexpr bool subs_E_concept = obake::Substitutable<const E &, Y> == true;
inline constexpr bool subs_A = obake::is_substitutable_v<const A &, Y> == true;
inline constexpr bool subs_A_concept = obake::Substitutable<const A &, Y> == true;
inline constexpr bool subs_N = obake::is_substitutable_v<const N &, Y> == true;
inline constexpr bool subs_N_concept = obake::Substitutable<const N &, Y> == true;
inline constexpr bool subs_D = obake::is_substitutable_v<const D &, Y> == true;
inline constexpr bool subs_D_concept = obake::Substitutable<const D &, Y> == true;
inline constexpr bool subs_Z = obake::is_substitutable_v<const Z &, Y> == true;
inline constexpr bool subs_Z_concept = obake::Substitutable<const Z &, Y> == true;
}

// trim
namespace hxc
{
E trim_ext_c(const E &x);
E trim_ext_r(E &&x);
E trim_adl_c(const E &x);
E trim_adl_r(E &&x);
E trim_int_c(const E &x);
E trim_int_r(E &&x);
A trim_adl_c(const A &x);
A trim_adl_r(A &&x);
A trim_int_c(const A &x);
A trim_int_r(A &&x);
N trim_int_c(const N &x);
N trim_int_r(N &&x);
inline E trim(const E &x) { return trim_adl_c(x); }
inline E trim(E &&x) { return trim_adl_r(std::move(x)); }
inline A trim(const A &x) { return trim_adl_c(x); }
inline A trim(A &&x) { return trim_adl_r(std::move(x)); }
struct trim_ext_f {
    E operator()(const E &x) const { return trim_ext_c(x); }
    E operator()(E &&x) const { return trim_ext_r(std::move(x)); }
};
struct trim_int_f {
    E operator()(const E &x) const { return trim_int_c(x); }
    E operator()(E &&x) const { return trim_int_r(std::move(x)); }
    A operator()(const A &x) const { return trim_int_c(x); }
    A operator()(A &&x) const { return trim_int_r(std::move(x)); }
    N operator()(const N &x) const { return trim_int_c(x); }
    N operator()(N &&x) const { return trim_int_r(std::move(x)); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto trim<X> = hxc::trim_ext_f{};
}
namespace obake::customisation::internal
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E> || obake::is_same_cvr_v<X, hxc::A> || obake::is_same_cvr_v<X, hxc::N>) inline constexpr auto trim<X> = hxc::trim_int_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) trim_E_c(const E &x) { return obake::trim(x); }
inline decltype(auto) trim_E_r(E &&x) { return obake::trim(std::move(x)); }
inline decltype(auto) trim_A_c(const A &x) { return obake::trim(x); }
inline decltype(auto) trim_A_r(A &&x) { return obake::trim(std::move(x)); }
inline decltype(auto) trim_N_c(const N &x) { return obake::trim(x); }
inline decltype(auto) trim_N_r(N &&x) { return obake::trim(std::move(x)); }
inline decltype(auto) trim_D_c(const D &x) { return obake::trim(x); }
inline decltype(auto) trim_D_r(D &&x) { return obake::trim(std::move(x)); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool trim_E = obake::is_trimmable_v<const E &> == true;
inline constexpr bool trim_E_concept = obake::Trimmable<const E &> == true;
inline constexpr bool trim_A = obake::is_trimmable_v<const A &> == true;
inline constexpr bool trim_A_concept = obake::Trimmable<const A &> == true;
inline constexpr bool trim_N = obake::is_trimmable_v<const N &> == true;
inline constexpr bool trim_N_concept = obake::Trimmable<const N &> == true;
inline constexpr bool trim_D = obake::is_trimmable_v<const D &> == true;
inline constexpr bool trim_D_concept = obake::Trimmable<const D &> == true;
inline constexpr bool trim_Z = obake::is_trimmable_v<const Z &> == true;
inline constexpr bool trim_Z_concept = obake::Trimmable<const Z &> == true;
}

// diff
namespace hxc
{
R diff_ext_c(const E &x, const std::string &s);
R diff_ext_r(E &&x, const std::string &s);
R diff_adl_c(const E &x, const std::string &s);
R diff_adl_r(E &&x, const std::string &s);
R diff_adl_c(const A &x, const std::string &s);
R diff_adl_r(A &&x, const std::string &s);
inline R diff(const E &x, const std::string &s) { return diff_adl_c(x, s); }
inline R diff(E &&x, const std::string &s) { return diff_adl_r(std::move(x), s); }
inline R diff(const A &x, const std::string &s) { return diff_adl_c(x, s); }
inline R diff(A &&x, const std::string &s) { return diff_adl_r(std::move(x), s); }
struct diff_ext_f {
    R operator()(const E &x, const std::string &s) const { return diff_ext_c(x, s); }
    R operator()(E &&x, const std::string &s) const { return diff_ext_r(std::move(x), s); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto diff<X> = hxc::diff_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) diff_E_c(const E &x, const std::string &s) { return obake::diff(x, s); }
inline decltype(auto) diff_E_r(E &&x, const std::string &s) { return obake::diff(std::move(x), s); }
inline decltype(auto) diff_A_c(const A &x, const std::string &s) { return obake::diff(x, s); }
inline decltype(auto) diff_A_r(A &&x, const std::string &s) { return obake::diff(std::move(x), s); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool diff_E = obake::is_differentiable_v<const E &> == true;
inline constexpr bool diff_E_concept = obake::Differentiable<const E &> == true;
inline constexpr bool diff_A = obake::is_differentiable_v<const A &> == true;
inline constexpr bool diff_A_concept = obake::Differentiable<const A &> == true;
inline constexpr bool diff_N = obake::is_differentiable_v<const N &> == false;
inline constexpr bool diff_N_concept = obake::Differentiable<const N &> == false;
inline constexpr bool diff_D = obake::is_differentiable_v<const D &> == false;
inline constexpr bool diff_D_concept = obake::Differentiable<const D &> == false;
inline constexpr bool diff_Z = obake::is_differentiable_v<const Z &> == false;
inline constexpr bool diff_Z_concept = obake::Differentiable<const Z &> == false;
}

// integrate
namespace hxc
{
R integrate_ext_c(const E &x, const std::string &s);
R integrate_ext_r(E &&x, const std::string &s);
R integrate_adl_c(const E &x, const std::string &s);
R integrate_adl_r(E &&x, const std::string &s);
R integrate_adl_c(const A &x, const std::string &s);
R integrate_adl_r(A &&x, const std::string &s);
inline R integrate(const E &x, const std::string &s) { return integrate_adl_c(x, s); }
inline R integrate(E &&x, const std::string &s) { return integrate_adl_r(std::move(x), s); }
inline R integrate(const A &x, const std::string &s) { return integrate_adl_c(x, s); }
inline R integrate(A &&x, const std::string &s) { return integrate_adl_r(std::move(x), s); }
struct integrate_ext_f {
    R operator()(const E &x, const std::string &s) const { return integrate_ext_c(x, s); }
    R operator()(E &&x, const std::string &s) const { return integrate_ext_r(std::move(x), s); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto integrate<X> = hxc::integrate_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) integrate_E_c(const E &x, const std::string &s) { return obake::integrate(x, s); }
inline decltype(auto) integrate_E_r(E &&x, const std::string &s) { return obake::integrate(std::move(x), s); }
inline decltype(auto) integrate_A_c(const A &x, const std::string &s) { return obake::integrate(x, s); }
inline decltype(auto) integrate_A_r(A &&x, const std::string &s) { return obake::integrate(std::move(x), s); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool integrate_E = obake::is_integrable_v<const E &> == true;
inline constexpr bool integrate_E_concept = obake::Integrable<const E &> == true;
inline constexpr bool integrate_A = obake::is_integrable_v<const A &> == true;
inline constexpr bool integrate_A_concept = obake::Integrable<const A &> == true;
inline constexpr bool integrate_N = obake::is_integrable_v<const N &> == false;
inline constexpr bool integrate_N_concept = obake::Integrable<const N &> == false;
inline constexpr bool integrate_D = obake::is_integrable_v<const D &> == false;
inline constexpr bool integrate_D_concept = obake::Integrable<const D &> == false;
inline constexpr bool integrate_Z = obake::is_integrable_v<const Z &> == false;
inline constexpr bool integrate_Z_concept = obake::Integrable<const Z &> == false;
}

// truncate_degree
namespace hxc
{
void truncate_degree_ext_c(const E &x, const Y &y);
void truncate_degree_ext_r(E &&x, Y &&y);
void truncate_degree_adl_c(const E &x, const Y &y);
void truncate_degree_adl_r(E &&x, Y &&y);
void truncate_degree_adl_c(const A &x, const Y &y);
void truncate_degree_adl_r(A &&x, Y &&y);
inline void truncate_degree(const E &x, const Y &y) { return truncate_degree_adl_c(x, y); }
inline void truncate_degree(E &&x, Y &&y) { return truncate_degree_adl_r(std::move(x), std::move(y)); }
inline void truncate_degree(const A &x, const Y &y) { return truncate_degree_adl_c(x, y); }
inline void truncate_degree(A &&x, Y &&y) { return truncate_degree_adl_r(std::move(x), std::move(y)); }
struct truncate_degree_ext_f {
    void operator()(const E &x, const Y &y) const { return truncate_degree_ext_c(x, y); }
    void operator()(E &&x, Y &&y) const { return truncate_degree_ext_r(std::move(x), std::move(y)); }
};
}
namespace obake::customisation
{
template <typename X, typename X1> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto truncate_degree<X, X1> = hxc::truncate_degree_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) truncate_degree_E_c(const E &x, const Y &y) { return obake::truncate_degree(x, y); }
inline decltype(auto) truncate_degree_E_r(E &&x, Y &&y) { return obake::truncate_degree(std::move(x), std::move(y)); }
inline decltype(auto) truncate_degree_A_c(const A &x, const Y &y) { return obake::truncate_degree(x, y); }
inline decltype(auto) truncate_degree_A_r(A &&x, Y &&y) { return obake::truncate_degree(std::move(x), std::move(y)); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool truncate_degree_E = obake::is_degree_truncatable_v<const E &, const Y &> == true;
inline constexpr bool truncate_degree_E_concept = obake::DegreeTruncatable<const E &, const Y &> == true;
inline constexpr bool truncate_degree_A = obake::is_degree_truncatable_v<const A &, const Y &> == true;
inline constexpr bool truncate_degree_A_concept = obake::DegreeTruncatable<const A &, const Y &> == true;
inline constexpr bool truncate_degree_N = obake::is_degree_truncatable_v<const N &, const Y &> == false;
inline constexpr bool truncate_degree_N_concept = obake::DegreeTruncatable<const N &, const Y &> == false;
inline constexpr bool truncate_degree_D = obake::is_degree_truncatable_v<const D &, const Y &> == false;
inline constexpr bool truncate_degree_D_concept = obake::DegreeTruncatable<const D &, const Y &> == false;
inline constexpr bool truncate_degree_Z = obake::is_degree_truncatable_v<const Z &, const Y &> == false;
inline constexpr bool truncate_degree_Z_concept = obake::DegreeTruncatable<const Z &, const Y &> == false;
}

// truncate_p_degree
namespace hxc
{
void truncate_p_degree_ext_c(const E &x, const Y &y, const obake::symbol_set &ss);
void truncate_p_degree_ext_r(E &&x, Y &&y, const obake::symbol_set &ss);
void truncate_p_degree_adl_c(const E &x, const Y &y, const obake::symbol_set &ss);
void truncate_p_degree_adl_r(E &&x, Y &&y, const obake::symbol_set &ss);
void truncate_p_degree_adl_c(const A &x, const Y &y, const obake::symbol_set &ss);
void truncate_p_degree_adl_r(A &&x, Y &&y, const obake::symbol_set &ss);
inline void truncate_p_degree(const E &x, const Y &y, const obake::symbol_set &ss) { return truncate_p_degree_adl_c(x, y, ss); }
inline void truncate_p_degree(E &&x, Y &&y, const obake::symbol_set &ss) { return truncate_p_degree_adl_r(std::move(x), std::move(y), ss); }
inline void truncate_p_degree(const A &x, const Y &y, const obake::symbol_set &ss) { return truncate_p_degree_adl_c(x, y, ss); }
inline void truncate_p_degree(A &&x, Y &&y, const obake::symbol_set &ss) { return truncate_p_degree_adl_r(std::move(x), std::move(y), ss); }
struct truncate_p_degree_ext_f {
    void operator()(const E &x, const Y &y, const obake::symbol_set &ss) const { return truncate_p_degree_ext_c(x, y, ss); }
    void operator()(E &&x, Y &&y, const obake::symbol_set &ss) const { return truncate_p_degree_ext_r(std::move(x), std::move(y), ss); }
};
}
namespace obake::customisation
{
template <typename X, typename X1> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto truncate_p_degree<X, X1> = hxc::truncate_p_degree_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) truncate_p_degree_E_c(const E &x, const Y &y, const obake::symbol_set &ss) { return obake::truncate_p_degree(x, y, ss); }
inline decltype(auto) truncate_p_degree_E_r(E &&x, Y &&y, const obake::symbol_set &ss) { return obake::truncate_p_degree(std::move(x), std::move(y), ss); }
inline decltype(auto) truncate_p_degree_A_c(const A &x, const Y &y, const obake::symbol_set &ss) { return obake::truncate_p_degree(x, y, ss); }
inline decltype(auto) truncate_p_degree_A_r(A &&x, Y &&y, const obake::symbol_set &ss) { return obake::truncate_p_degree(std::move(x), std::move(y), ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool truncate_p_degree_E = obake::is_p_degree_truncatable_v<const E &, const Y &> == true;
inline constexpr bool truncate_p_degree_E_concept = obake::PDegreeTruncatable<const E &, const Y &> == true;
inline constexpr bool truncate_p_degree_A = obake::is_p_degree_truncatable_v<const A &, const Y &> == true;
inline constexpr bool truncate_p_degree_A_concept = obake::PDegreeTruncatable<const A &, const Y &> == true;
inline constexpr bool truncate_p_degree_N = obake::is_p_degree_truncatable_v<const N &, const Y &> == false;
inline constexpr bool truncate_p_degree_N_concept = obake::PDegreeTruncatable<const N &, const Y &> == false;
inline constexpr bool truncate_p_degree_D = obake::is_p_degree_truncatable_v<const D &, const Y &> == false;
inline constexpr bool truncate_p_degree_D_concept = obake::PDegreeTruncatable<const D &, const Y &> == false;
inline constexpr bool truncate_p_degree_Z = obake::is_p_degree_truncatable_v<const Z &, const Y &> == false;
inline constexpr bool truncate_p_degree_Z_concept = obake::PDegreeTruncatable<const Z &, const Y &> == false;
}

// fma3
namespace hxc
{
void fma3_ext_c(const E &x, const Y &y, const Z &z);
void fma3_ext_r(E &&x, Y &&y, Z &&z);
void fma3_adl_c(const E &x, const Y &y, const Z &z);
void fma3_adl_r(E &&x, Y &&y, Z &&z);
void fma3_adl_c(const A &x, const Y &y, const Z &z);
void fma3_adl_r(A &&x, Y &&y, Z &&z);
inline void fma3(const E &x, const Y &y, const Z &z) { return fma3_adl_c(x, y, z); }
inline void fma3(E &&x, Y &&y, Z &&z) { return fma3_adl_r(std::move(x), std::move(y), std::move(z)); }
inline void fma3(const A &x, const Y &y, const Z &z) { return fma3_adl_c(x, y, z); }
inline void fma3(A &&x, Y &&y, Z &&z) { return fma3_adl_r(std::move(x), std::move(y), std::move(z)); }
struct fma3_ext_f {
    void operator()(const E &x, const Y &y, const Z &z) const { return fma3_ext_c(x, y, z); }
    void operator()(E &&x, Y &&y, Z &&z) const { return fma3_ext_r(std::move(x), std::move(y), std::move(z)); }
};
}
namespace obake::customisation
{
template <typename X, typename X1, typename X2> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto fma3<X, X1, X2> = hxc::fma3_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) fma3_E_c(const E &x, const Y &y, const Z &z) { return obake::fma3(x, y, z); }
inline decltype(auto) fma3_E_r(E &&x, Y &&y, Z &&z) { return obake::fma3(std::move(x), std::move(y), std::move(z)); }
inline decltype(auto) fma3_A_c(const A &x, const Y &y, const Z &z) { return obake::fma3(x, y, z); }
inline decltype(auto) fma3_A_r(A &&x, Y &&y, Z &&z) { return obake::fma3(std::move(x), std::move(y), std::move(z)); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool fma3_E = obake::is_mult_addable_v<const E &, const Y &, const Z &> == true;
inline constexpr bool fma3_E_concept = obake::MultAddable<const E &, const Y &, const Z &> == true;
inline constexpr bool fma3_A = obake::is_mult_addable_v<const A &, const Y &, const Z &> == true;
inline constexpr bool fma3_A_concept = obake::MultAddable<const A &, const Y &, const Z &> == true;
inline constexpr bool fma3_N = obake::is_mult_addable_v<const N &, const Y &, const Z &> == false;
inline constexpr bool fma3_N_concept = obake::MultAddable<const N &, const Y &, const Z &> == false;
inline constexpr bool fma3_D = obake::is_mult_addable_v<const D &, const Y &, const Z &> == false;
inline constexpr bool fma3_D_concept = obake::MultAddable<const D &, const Y &, const Z &> == false;
inline constexpr bool fma3_Z = obake::is_mult_addable_v<const Z &, const Y &, const Z &> == false;
inline constexpr bool fma3_Z_concept = obake::MultAddable<const Z &, const Y &, const Z &> == false;
}

// is_zero
namespace hxc
{
bool is_zero_ext_c(const E &x);
bool is_zero_ext_r(E &&x);
bool is_zero_adl_c(const E &x);
bool is_zero_adl_r(E &&x);
bool is_zero_int_c(const E &x);
bool is_zero_int_r(E &&x);
bool is_zero_adl_c(const A &x);
bool is_zero_adl_r(A &&x);
bool is_zero_int_c(const A &x);
bool is_zero_int_r(A &&x);
bool is_zero_int_c(const N &x);
bool is_zero_int_r(N &&x);
inline bool is_zero(const E &x) { return is_zero_adl_c(x); }
inline bool is_zero(E &&x) { return is_zero_adl_r(std::move(x)); }
inline bool is_zero(const A &x) { return is_zero_adl_c(x); }
inline bool is_zero(A &&x) { return is_zero_adl_r(std::move(x)); }
}
namespace hxc
{
inline bool is_zero(obake::customisation::is_zero_t, const E &x) { return is_zero_ext_c(x); }
inline bool is_zero(obake::customisation::is_zero_t, E &&x) { return is_zero_ext_r(std::move(x)); }
}
namespace hxc
{
inline bool is_zero(obake::customisation::internal::is_zero_t, const E &x) { return is_zero_int_c(x); }
inline bool is_zero(obake::customisation::internal::is_zero_t, E &&x) { return is_zero_int_r(std::move(x)); }
inline bool is_zero(obake::customisation::internal::is_zero_t, const A &x) { return is_zero_int_c(x); }
inline bool is_zero(obake::customisation::internal::is_zero_t, A &&x) { return is_zero_int_r(std::move(x)); }
inline bool is_zero(obake::customisation::internal::is_zero_t, const N &x) { return is_zero_int_c(x); }
inline bool is_zero(obake::customisation::internal::is_zero_t, N &&x) { return is_zero_int_r(std::move(x)); }
}
namespace hx
{
using namespace hxc;
inline decltype(auto) is_zero_E_c(const E &x) { return obake::is_zero(x); }
inline decltype(auto) is_zero_E_r(E &&x) { return obake::is_zero(std::move(x)); }
inline decltype(auto) is_zero_A_c(const A &x) { return obake::is_zero(x); }
inline decltype(auto) is_zero_A_r(A &&x) { return obake::is_zero(std::move(x)); }
inline decltype(auto) is_zero_N_c(const N &x) { return obake::is_zero(x); }
inline decltype(auto) is_zero_N_r(N &&x) { return obake::is_zero(std::move(x)); }
inline decltype(auto) is_zero_D_c(const D &x) { return obake::is_zero(x); }
inline decltype(auto) is_zero_D_r(D &&x) { return obake::is_zero(std::move(x)); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool is_zero_E = obake::is_zero_testable_v<const E &> == true;
inline constexpr bool is_zero_E_concept = obake::ZeroTestable<const E &> == true;
inline constexpr bool is_zero_A = obake::is_zero_testable_v<const A &> == true;
inline constexpr bool is_zero_A_concept = obake::ZeroTestable<const A &> == true;
inline constexpr bool is_zero_N = obake::is_zero_testable_v<const N &> == true;
inline constexpr bool is_zero_N_concept = obake::ZeroTestable<const N &> == true;
inline constexpr bool is_zero_D = obake::is_zero_testable_v<const D &> == true;
inline constexpr bool is_zero_D_concept = obake::ZeroTestable<const D &> == true;
inline constexpr bool is_zero_Z = obake::is_zero_testable_v<const Z &> == false;
inline constexpr bool is_zero_Z_concept = obake::ZeroTestable<const Z &> == false;
}

// negate
namespace hxc
{
void negate_ext_c(const E &x);
void negate_ext_r(E &&x);
void negate_adl_c(const E &x);
void negate_adl_r(E &&x);
void negate_int_c(const E &x);
void negate_int_r(E &&x);
void negate_adl_c(const A &x);
void negate_adl_r(A &&x);
void negate_int_c(const A &x);
void negate_int_r(A &&x);
void negate_int_c(const N &x);
void negate_int_r(N &&x);
inline void negate(const E &x) { return negate_adl_c(x); }
inline void negate(E &&x) { return negate_adl_r(std::move(x)); }
inline void negate(const A &x) { return negate_adl_c(x); }
inline void negate(A &&x) { return negate_adl_r(std::move(x)); }
}
namespace hxc
{
inline void negate(obake::customisation::negate_t, const E &x) { return negate_ext_c(x); }
inline void negate(obake::customisation::negate_t, E &&x) { return negate_ext_r(std::move(x)); }
}
namespace hxc
{
inline void negate(obake::customisation::internal::negate_t, const E &x) { return negate_int_c(x); }
inline void negate(obake::customisation::internal::negate_t, E &&x) { return negate_int_r(std::move(x)); }
inline void negate(obake::customisation::internal::negate_t, const A &x) { return negate_int_c(x); }
inline void negate(obake::customisation::internal::negate_t, A &&x) { return negate_int_r(std::move(x)); }
inline void negate(obake::customisation::internal::negate_t, const N &x) { return negate_int_c(x); }
inline void negate(obake::customisation::internal::negate_t, N &&x) { return negate_int_r(std::move(x)); }
}
namespace hx
{
using namespace hxc;
inline decltype(auto) negate_E_c(const E &x) { return obake::negate(x); }
inline decltype(auto) negate_E_r(E &&x) { return obake::negate(std::move(x)); }
inline decltype(auto) negate_A_c(const A &x) { return obake::negate(x); }
inline decltype(auto) negate_A_r(A &&x) { return obake::negate(std::move(x)); }
inline decltype(auto) negate_N_c(const N &x) { return obake::negate(x); }
inline decltype(auto) negate_N_r(N &&x) { return obake::negate(std::move(x)); }
inline decltype(auto) negate_D_c(D &x) { return obake::negate(x); }
inline decltype(auto) negate_D_r(D &&x) { return obake::negate(std::move(x)); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool negate_E = obake::is_negatable_v<const E &> == true;
inline constexpr bool negate_E_concept = obake::Negatable<const E &> == true;
inline constexpr bool negate_A = obake::is_negatable_v<const A &> == true;
inline constexpr bool negate_A_concept = obake::Negatable<const A &> == true;
inline constexpr bool negate_N = obake::is_negatable_v<const N &> == true;
inline constexpr bool negate_N_concept = obake::Negatable<const N &> == true;
inline constexpr bool negate_D = obake::is_negatable_v<D &> == true;
inline constexpr bool negate_D_concept = obake::Negatable<D &> == true;
inline constexpr bool negate_Z = obake::is_negatable_v<const Z &> == false;
inline constexpr bool negate_Z_concept = obake::Negatable<const Z &> == false;
}

// pow
namespace hxc
{
R pow_ext_c(const E &x, const Y &y);
R pow_ext_r(E &&x, Y &&y);
R pow_adl_c(const E &x, const Y &y);
R pow_adl_r(E &&x, Y &&y);
R pow_int_c(const E &x, const Y &y);
R pow_int_r(E &&x, Y &&y);
R pow_adl_c(const A &x, const Y &y);
R pow_adl_r(A &&x, Y &&y);
R pow_int_c(const A &x, const Y &y);
R pow_int_r(A &&x, Y &&y);
R pow_int_c(const N &x, const Y &y);
R pow_int_r(N &&x, Y &&y);
inline R pow(const E &x, const Y &y) { return pow_adl_c(x, y); }
inline R pow(E &&x, Y &&y) { return pow_adl_r(std::move(x), std::move(y)); }
inline R pow(const A &x, const Y &y) { return pow_adl_c(x, y); }
inline R pow(A &&x, Y &&y) { return pow_adl_r(std::move(x), std::move(y)); }
}
namespace hxc
{
inline R pow(obake::customisation::pow_t, const E &x, const Y &y) { return pow_ext_c(x, y); }
inline R pow(obake::customisation::pow_t, E &&x, Y &&y) { return pow_ext_r(std::move(x), std::move(y)); }
}
namespace hxc
{
inline R pow(obake::customisation::internal::pow_t, const E &x, const Y &y) { return pow_int_c(x, y); }
inline R pow(obake::customisation::internal::pow_t, E &&x, Y &&y) { return pow_int_r(std::move(x), std::move(y)); }
inline R pow(obake::customisation::internal::pow_t, const A &x, const Y &y) { return pow_int_c(x, y); }
inline R pow(obake::customisation::internal::pow_t, A &&x, Y &&y) { return pow_int_r(std::move(x), std::move(y)); }
inline R pow(obake::customisation::internal::pow_t, const N &x, const Y &y) { return pow_int_c(x, y); }
inline R pow(obake::customisation::internal::pow_t, N &&x, Y &&y) { return pow_int_r(std::move(x), std::move(y)); }
}
namespace hx
{
using namespace hxc;
inline decltype(auto) pow_E_c(const E &x, const Y &y) { return obake::pow(x, y); }
inline decltype(auto) pow_E_r(E &&x, Y &&y) { return obake::pow(std::move(x), std::move(y)); }
inline decltype(auto) pow_A_c(const A &x, const Y &y) { return obake::pow(x, y); }
inline decltype(auto) pow_A_r(A &&x, Y &&y) { return obake::pow(std::move(x), std::move(y)); }
inline decltype(auto) pow_N_c(const N &x, const Y &y) { return obake::pow(x, y); }
inline decltype(auto) pow_N_r(N &&x, Y &&y) { return obake::pow(std::move(x), std::move(y)); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool pow_E = obake::is_exponentiable_v<const E &, const Y &> == true;
inline constexpr bool pow_E_concept = obake::Exponentiable<const E &, const Y &> == true;
inline constexpr bool pow_A = obake::is_exponentiable_v<const A &, const Y &> == true;
inline constexpr bool pow_A_concept = obake::Exponentiable<const A &, const Y &> == true;
inline constexpr bool pow_N = obake::is_exponentiable_v<const N &, const Y &> == true;
inline constexpr bool pow_N_concept = obake::Exponentiable<const N &, const Y &> == true;
inline constexpr bool pow_D = obake::is_exponentiable_v<const D &, const Y &> == false;
inline constexpr bool pow_D_concept = obake::Exponentiable<const D &, const Y &> == false;
inline constexpr bool pow_Z = obake::is_exponentiable_v<const Z &, const Y &> == false;
inline constexpr bool pow_Z_concept = obake::Exponentiable<const Z &, const Y &> == false;
}

// safe_convert
namespace hxc
{
bool safe_convert_ext_c(const E &x, const Y &y);
bool safe_convert_ext_r(E &&x, Y &&y);
bool safe_convert_adl_c(const E &x, const Y &y);
bool safe_convert_adl_r(E &&x, Y &&y);
bool safe_convert_adl_c(const A &x, const Y &y);
bool safe_convert_adl_r(A &&x, Y &&y);
inline bool safe_convert(const E &x, const Y &y) { return safe_convert_adl_c(x, y); }
inline bool safe_convert(E &&x, Y &&y) { return safe_convert_adl_r(std::move(x), std::move(y)); }
inline bool safe_convert(const A &x, const Y &y) { return safe_convert_adl_c(x, y); }
inline bool safe_convert(A &&x, Y &&y) { return safe_convert_adl_r(std::move(x), std::move(y)); }
}
namespace hxc
{
inline bool safe_convert(obake::customisation::safe_convert_t, const E &x, const Y &y) { return safe_convert_ext_c(x, y); }
inline bool safe_convert(obake::customisation::safe_convert_t, E &&x, Y &&y) { return safe_convert_ext_r(std::move(x), std::move(y)); }
}
namespace hx
{
using namespace hxc;
inline decltype(auto) safe_convert_E_c(const E &x, const Y &y) { return obake::safe_convert(x, y); }
inline decltype(auto) safe_convert_E_r(E &&x, Y &&y) { return obake::safe_convert(std::move(x), std::move(y)); }
inline decltype(auto) safe_convert_A_c(const A &x, const Y &y) { return obake::safe_convert(x, y); }
inline decltype(auto) safe_convert_A_r(A &&x, Y &&y) { return obake::safe_convert(std::move(x), std::move(y)); }
inline decltype(auto) safe_convert_D_c(D &x, const D &y) { return obake::safe_convert(x, y); }
}

// tex_stream_insert
namespace hxc
{
void tex_stream_insert_ext_c(std::ostream &os, const E &x);
void tex_stream_insert_ext_r(std::ostream &os, E &&x);
void tex_stream_insert_adl_c(std::ostream &os, const E &x);
void tex_stream_insert_adl_r(std::ostream &os, E &&x);
void tex_stream_insert_int_c(std::ostream &os, const E &x);
void tex_stream_insert_int_r(std::ostream &os, E &&x);
void tex_stream_insert_adl_c(std::ostream &os, const A &x);
void tex_stream_insert_adl_r(std::ostream &os, A &&x);
void tex_stream_insert_int_c(std::ostream &os, const A &x);
void tex_stream_insert_int_r(std::ostream &os, A &&x);
void tex_stream_insert_int_c(std::ostream &os, const N &x);
void tex_stream_insert_int_r(std::ostream &os, N &&x);
inline void tex_stream_insert(std::ostream &os, const E &x) { return tex_stream_insert_adl_c(os, x); }
inline void tex_stream_insert(std::ostream &os, E &&x) { return tex_stream_insert_adl_r(os, std::move(x)); }
inline void tex_stream_insert(std::ostream &os, const A &x) { return tex_stream_insert_adl_c(os, x); }
inline void tex_stream_insert(std::ostream &os, A &&x) { return tex_stream_insert_adl_r(os, std::move(x)); }
}
namespace hxc
{
inline void tex_stream_insert(obake::customisation::tex_stream_insert_t, std::ostream &os, const E &x) { return tex_stream_insert_ext_c(os, x); }
inline void tex_stream_insert(obake::customisation::tex_stream_insert_t, std::ostream &os, E &&x) { return tex_stream_insert_ext_r(os, std::move(x)); }
}
namespace hxc
{
inline void tex_stream_insert(obake::customisation::internal::tex_stream_insert_t, std::ostream &os, const E &x) { return tex_stream_insert_int_c(os, x); }
inline void tex_stream_insert(obake::customisation::internal::tex_stream_insert_t, std::ostream &os, E &&x) { return tex_stream_insert_int_r(os, std::move(x)); }
inline void tex_stream_insert(obake::customisation::internal::tex_stream_insert_t, std::ostream &os, const A &x) { return tex_stream_insert_int_c(os, x); }
inline void tex_stream_insert(obake::customisation::internal::tex_stream_insert_t, std::ostream &os, A &&x) { return tex_stream_insert_int_r(os, std::move(x)); }
inline void tex_stream_insert(obake::customisation::internal::tex_stream_insert_t, std::ostream &os, const N &x) { return tex_stream_insert_int_c(os, x); }
inline void tex_stream_insert(obake::customisation::internal::tex_stream_insert_t, std::ostream &os, N &&x) { return tex_stream_insert_int_r(os, std::move(x)); }
}
namespace hx
{
using namespace hxc;
inline decltype(auto) tex_stream_insert_E_c(std::ostream &os, const E &x) { return obake::tex_stream_insert(os, x); }
inline decltype(auto) tex_stream_insert_E_r(std::ostream &os, E &&x) { return obake::tex_stream_insert(os, std::move(x)); }
inline decltype(auto) tex_stream_insert_A_c(std::ostream &os, const A &x) { return obake::tex_stream_insert(os, x); }
inline decltype(auto) tex_stream_insert_A_r(std::ostream &os, A &&x) { return obake::tex_stream_insert(os, std::move(x)); }
inline decltype(auto) tex_stream_insert_N_c(std::ostream &os, const N &x) { return obake::tex_stream_insert(os, x); }
inline decltype(auto) tex_stream_insert_N_r(std::ostream &os, N &&x) { return obake::tex_stream_insert(os, std::move(x)); }
inline decltype(auto) tex_stream_insert_D_c(std::ostream &os, const D &x) { return obake::tex_stream_insert(os, x); }
inline decltype(auto) tex_stream_insert_D_r(std::ostream &os, D &&x) { return obake::tex_stream_insert(os, std::move(x)); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool tex_stream_insert_E = obake::is_tex_stream_insertable_v<const E &> == true;
inline constexpr bool tex_stream_insert_E_concept = obake::tex_stream_insertable<const E &> == true;
inline constexpr bool tex_stream_insert_A = obake::is_tex_stream_insertable_v<const A &> == true;
inline constexpr bool tex_stream_insert_A_concept = obake::tex_stream_insertable<const A &> == true;
inline constexpr bool tex_stream_insert_N = obake::is_tex_stream_insertable_v<const N &> == true;
inline constexpr bool tex_stream_insert_N_concept = obake::tex_stream_insertable<const N &> == true;
inline constexpr bool tex_stream_insert_D = obake::is_tex_stream_insertable_v<const D &> == true;
inline constexpr bool tex_stream_insert_D_concept = obake::tex_stream_insertable<const D &> == true;
inline constexpr bool tex_stream_insert_Z = obake::is_tex_stream_insertable_v<const Z &> == false;
inline constexpr bool tex_stream_insert_Z_concept = obake::tex_stream_insertable<const Z &> == false;
}

// cf_tex_stream_insert
namespace hxc
{
void cf_tex_stream_insert_ext_c(std::ostream &os, const E &x);
void cf_tex_stream_insert_ext_r(std::ostream &os, E &&x);
void cf_tex_stream_insert_adl_c(std::ostream &os, const E &x);
void cf_tex_stream_insert_adl_r(std::ostream &os, E &&x);
void cf_tex_stream_insert_int_c(std::ostream &os, const E &x);
void cf_tex_stream_insert_int_r(std::ostream &os, E &&x);
void cf_tex_stream_insert_adl_c(std::ostream &os, const A &x);
void cf_tex_stream_insert_adl_r(std::ostream &os, A &&x);
void cf_tex_stream_insert_int_c(std::ostream &os, const A &x);
void cf_tex_stream_insert_int_r(std::ostream &os, A &&x);
void cf_tex_stream_insert_int_c(std::ostream &os, const N &x);
void cf_tex_stream_insert_int_r(std::ostream &os, N &&x);
inline void cf_tex_stream_insert(std::ostream &os, const E &x) { return cf_tex_stream_insert_adl_c(os, x); }
inline void cf_tex_stream_insert(std::ostream &os, E &&x) { return cf_tex_stream_insert_adl_r(os, std::move(x)); }
inline void cf_tex_stream_insert(std::ostream &os, const A &x) { return cf_tex_stream_insert_adl_c(os, x); }
inline void cf_tex_stream_insert(std::ostream &os, A &&x) { return cf_tex_stream_insert_adl_r(os, std::move(x)); }
}
namespace hxc
{
inline void cf_tex_stream_insert(obake::customisation::cf_tex_stream_insert_t, std::ostream &os, const E &x) { return cf_tex_stream_insert_ext_c(os, x); }
inline void cf_tex_stream_insert(obake::customisation::cf_tex_stream_insert_t, std::ostream &os, E &&x) { return cf_tex_stream_insert_ext_r(os, std::move(x)); }
}
namespace hxc
{
inline void cf_tex_stream_insert(obake::customisation::internal::cf_tex_stream_insert_t, std::ostream &os, const E &x) { return cf_tex_stream_insert_int_c(os, x); }
inline void cf_tex_stream_insert(obake::customisation::internal::cf_tex_stream_insert_t, std::ostream &os, E &&x) { return cf_tex_stream_insert_int_r(os, std::move(x)); }
inline void cf_tex_stream_insert(obake::customisation::internal::cf_tex_stream_insert_t, std::ostream &os, const A &x) { return cf_tex_stream_insert_int_c(os, x); }
inline void cf_tex_stream_insert(obake::customisation::internal::cf_tex_stream_insert_t, std::ostream &os, A &&x) { return cf_tex_stream_insert_int_r(os, std::move(x)); }
inline void cf_tex_stream_insert(obake::customisation::internal::cf_tex_stream_insert_t, std::ostream &os, const N &x) { return cf_tex_stream_insert_int_c(os, x); }
inline void cf_tex_stream_insert(obake::customisation::internal::cf_tex_stream_insert_t, std::ostream &os, N &&x) { return cf_tex_stream_insert_int_r(os, std::move(x)); }
}
namespace hx
{
using namespace hxc;
inline decltype(auto) cf_tex_stream_insert_E_c(std::ostream &os, const E &x) { return obake::cf_tex_stream_insert(os, x); }
inline decltype(auto) cf_tex_stream_insert_E_r(std::ostream &os, E &&x) { return obake::cf_tex_stream_insert(os, std::move(x)); }
inline decltype(auto) cf_tex_stream_insert_A_c(std::ostream &os, const A &x) { return obake::cf_tex_stream_insert(os, x); }
inline decltype(auto) cf_tex_stream_insert_A_r(std::ostream &os, A &&x) { return obake::cf_tex_stream_insert(os, std::move(x)); }
inline decltype(auto) cf_tex_stream_insert_N_c(std::ostream &os, const N &x) { return obake::cf_tex_stream_insert(os, x); }
inline decltype(auto) cf_tex_stream_insert_N_r(std::ostream &os, N &&x) { return obake::cf_tex_stream_insert(os, std::move(x)); }
inline decltype(auto) cf_tex_stream_insert_D_c(std::ostream &os, const D &x) { return obake::cf_tex_stream_insert(os, x); }
inline decltype(auto) cf_tex_stream_insert_D_r(std::ostream &os, D &&x) { return obake::cf_tex_stream_insert(os, std::move(x)); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool cf_tex_stream_insert_E = obake::is_tex_stream_insertable_cf_v<const E &> == true;
inline constexpr bool cf_tex_stream_insert_E_concept = obake::tex_stream_insertable_cf<const E &> == true;
inline constexpr bool cf_tex_stream_insert_A = obake::is_tex_stream_insertable_cf_v<const A &> == true;
inline constexpr bool cf_tex_stream_insert_A_concept = obake::tex_stream_insertable_cf<const A &> == true;
inline constexpr bool cf_tex_stream_insert_N = obake::is_tex_stream_insertable_cf_v<const N &> == true;
inline constexpr bool cf_tex_stream_insert_N_concept = obake::tex_stream_insertable_cf<const N &> == true;
inline constexpr bool cf_tex_stream_insert_D = obake::is_tex_stream_insertable_cf_v<const D &> == true;
inline constexpr bool cf_tex_stream_insert_D_concept = obake::tex_stream_insertable_cf<const D &> == true;
inline constexpr bool cf_tex_stream_insert_Z = obake::is_tex_stream_insertable_cf_v<const Z &> == false;
inline constexpr bool cf_tex_stream_insert_Z_concept = obake::tex_stream_insertable_cf<const Z &> == false;
}

// monomial_mul
namespace hxc
{
void monomial_mul_ext_c(const E &x, const Y &y, const Z &z, const obake::symbol_set &ss);
void monomial_mul_ext_r(E &&x, Y &&y, Z &&z, const obake::symbol_set &ss);
void monomial_mul_adl_c(const E &x, const Y &y, const Z &z, const obake::symbol_set &ss);
void monomial_mul_adl_r(E &&x, Y &&y, Z &&z, const obake::symbol_set &ss);
void monomial_mul_adl_c(const A &x, const Y &y, const Z &z, const obake::symbol_set &ss);
void monomial_mul_adl_r(A &&x, Y &&y, Z &&z, const obake::symbol_set &ss);
inline void monomial_mul(const E &x, const Y &y, const Z &z, const obake::symbol_set &ss) { return monomial_mul_adl_c(x, y, z, ss); }
inline void monomial_mul(E &&x, Y &&y, Z &&z, const obake::symbol_set &ss) { return monomial_mul_adl_r(std::move(x), std::move(y), std::move(z), ss); }
inline void monomial_mul(const A &x, const Y &y, const Z &z, const obake::symbol_set &ss) { return monomial_mul_adl_c(x, y, z, ss); }
inline void monomial_mul(A &&x, Y &&y, Z &&z, const obake::symbol_set &ss) { return monomial_mul_adl_r(std::move(x), std::move(y), std::move(z), ss); }
struct monomial_mul_ext_f {
    void operator()(const E &x, const Y &y, const Z &z, const obake::symbol_set &ss) const { return monomial_mul_ext_c(x, y, z, ss); }
    void operator()(E &&x, Y &&y, Z &&z, const obake::symbol_set &ss) const { return monomial_mul_ext_r(std::move(x), std::move(y), std::move(z), ss); }
};
}
namespace obake::customisation
{
template <typename X, typename X1, typename X2> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto monomial_mul<X, X1, X2> = hxc::monomial_mul_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) monomial_mul_E_c(const E &x, const Y &y, const Z &z, const obake::symbol_set &ss) { return obake::monomial_mul(x, y, z, ss); }
inline decltype(auto) monomial_mul_E_r(E &&x, Y &&y, Z &&z, const obake::symbol_set &ss) { return obake::monomial_mul(std::move(x), std::move(y), std::move(z), ss); }
inline decltype(auto) monomial_mul_A_c(const A &x, const Y &y, const Z &z, const obake::symbol_set &ss) { return obake::monomial_mul(x, y, z, ss); }
inline decltype(auto) monomial_mul_A_r(A &&x, Y &&y, Z &&z, const obake::symbol_set &ss) { return obake::monomial_mul(std::move(x), std::move(y), std::move(z), ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool monomial_mul_E = obake::is_multipliable_monomial_v<const E &, const Y &, const Z &> == true;
inline constexpr bool monomial_mul_E_concept = obake::MultipliableMonomial<const E &, const Y &, const Z &> == true;
inline constexpr bool monomial_mul_A = obake::is_multipliable_monomial_v<const A &, const Y &, const Z &> == true;
inline constexpr bool monomial_mul_A_concept = obake::MultipliableMonomial<const A &, const Y &, const Z &> == true;
inline constexpr bool monomial_mul_N = obake::is_multipliable_monomial_v<const N &, const Y &, const Z &> == false;
inline constexpr bool monomial_mul_N_concept = obake::MultipliableMonomial<const N &, const Y &, const Z &> == false;
inline constexpr bool monomial_mul_D = obake::is_multipliable_monomial_v<const D &, const Y &, const Z &> == false;
inline constexpr bool monomial_mul_D_concept = obake::MultipliableMonomial<const D &, const Y &, const Z &> == false;
inline constexpr bool monomial_mul_Z = obake::is_multipliable_monomial_v<const Z &, const Y &, const Z &> == false;
inline constexpr bool monomial_mul_Z_concept = obake::MultipliableMonomial<const Z &, const Y &, const Z &> == false;
}

// monomial_pow
namespace hxc
{
E monomial_pow_ext_c(const E &x, const Y &y, const obake::symbol_set &ss);
E monomial_pow_ext_r(E &&x, Y &&y, const obake::symbol_set &ss);
E monomial_pow_adl_c(const E &x, const Y &y, const obake::symbol_set &ss);
E monomial_pow_adl_r(E &&x, Y &&y, const obake::symbol_set &ss);
A monomial_pow_adl_c(const A &x, const Y &y, const obake::symbol_set &ss);
A monomial_pow_adl_r(A &&x, Y &&y, const obake::symbol_set &ss);
inline E monomial_pow(const E &x, const Y &y, const obake::symbol_set &ss) { return monomial_pow_adl_c(x, y, ss); }
inline E monomial_pow(E &&x, Y &&y, const obake::symbol_set &ss) { return monomial_pow_adl_r(std::move(x), std::move(y), ss); }
inline A monomial_pow(const A &x, const Y &y, const obake::symbol_set &ss) { return monomial_pow_adl_c(x, y, ss); }
inline A monomial_pow(A &&x, Y &&y, const obake::symbol_set &ss) { return monomial_pow_adl_r(std::move(x), std::move(y), ss); }
struct monomial_pow_ext_f {
    E operator()(const E &x, const Y &y, const obake::symbol_set &ss) const { return monomial_pow_ext_c(x, y, ss); }
    E operator()(E &&x, Y &&y, const obake::symbol_set &ss) const { return monomial_pow_ext_r(std::move(x), std::move(y), ss); }
};
}
namespace obake::customisation
{
template <typename X, typename X1> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto monomial_pow<X, X1> = hxc::monomial_pow_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) monomial_pow_E_c(const E &x, const Y &y, const obake::symbol_set &ss) { return obake::monomial_pow(x, y, ss); }
inline decltype(auto) monomial_pow_E_r(E &&x, Y &&y, const obake::symbol_set &ss) { return obake::monomial_pow(std::move(x), std::move(y), ss); }
inline decltype(auto) monomial_pow_A_c(const A &x, const Y &y, const obake::symbol_set &ss) { return obake::monomial_pow(x, y, ss); }
inline decltype(auto) monomial_pow_A_r(A &&x, Y &&y, const obake::symbol_set &ss) { return obake::monomial_pow(std::move(x), std::move(y), ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool monomial_pow_E = obake::is_exponentiable_monomial_v<const E &, const Y &> == true;
inline constexpr bool monomial_pow_E_concept = obake::ExponentiableMonomial<const E &, const Y &> == true;
inline constexpr bool monomial_pow_A = obake::is_exponentiable_monomial_v<const A &, const Y &> == true;
inline constexpr bool monomial_pow_A_concept = obake::ExponentiableMonomial<const A &, const Y &> == true;
inline constexpr bool monomial_pow_N = obake::is_exponentiable_monomial_v<const N &, const Y &> == false;
inline constexpr bool monomial_pow_N_concept = obake::ExponentiableMonomial<const N &, const Y &> == false;
inline constexpr bool monomial_pow_D = obake::is_exponentiable_monomial_v<const D &, const Y &> == false;
inline constexpr bool monomial_pow_D_concept = obake::ExponentiableMonomial<const D &, const Y &> == false;
inline constexpr bool monomial_pow_Z = obake::is_exponentiable_monomial_v<const Z &, const Y &> == false;
inline constexpr bool monomial_pow_Z_concept = obake::ExponentiableMonomial<const Z &, const Y &> == false;
}

// monomial_range_overflow_check
namespace hxc
{
bool monomial_range_overflow_check_ext_c(const E &x, const Y &y, const obake::symbol_set &ss);
bool monomial_range_overflow_check_ext_r(E &&x, Y &&y, const obake::symbol_set &ss);
bool monomial_range_overflow_check_adl_c(const E &x, const Y &y, const obake::symbol_set &ss);
bool monomial_range_overflow_check_adl_r(E &&x, Y &&y, const obake::symbol_set &ss);
bool monomial_range_overflow_check_adl_c(const A &x, const Y &y, const obake::symbol_set &ss);
bool monomial_range_overflow_check_adl_r(A &&x, Y &&y, const obake::symbol_set &ss);
inline bool monomial_range_overflow_check(const E &x, const Y &y, const obake::symbol_set &ss) { return monomial_range_overflow_check_adl_c(x, y, ss); }
inline bool monomial_range_overflow_check(E &&x, Y &&y, const obake::symbol_set &ss) { return monomial_range_overflow_check_adl_r(std::move(x), std::move(y), ss); }
inline bool monomial_range_overflow_check(const A &x, const Y &y, const obake::symbol_set &ss) { return monomial_range_overflow_check_adl_c(x, y, ss); }
inline bool monomial_range_overflow_check(A &&x, Y &&y, const obake::symbol_set &ss) { return monomial_range_overflow_check_adl_r(std::move(x), std::move(y), ss); }
struct monomial_range_overflow_check_ext_f {
    bool operator()(const E &x, const Y &y, const obake::symbol_set &ss) const { return monomial_range_overflow_check_ext_c(x, y, ss); }
    bool operator()(E &&x, Y &&y, const obake::symbol_set &ss) const { return monomial_range_overflow_check_ext_r(std::move(x), std::move(y), ss); }
};
}
namespace obake::customisation
{
template <typename X, typename X1> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto monomial_range_overflow_check<X, X1> = hxc::monomial_range_overflow_check_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) monomial_range_overflow_check_E_c(const E &x, const Y &y, const obake::symbol_set &ss) { return obake::monomial_range_overflow_check(x, y, ss); }
inline decltype(auto) monomial_range_overflow_check_E_r(E &&x, Y &&y, const obake::symbol_set &ss) { return obake::monomial_range_overflow_check(std::move(x), std::move(y), ss); }
inline decltype(auto) monomial_range_overflow_check_A_c(const A &x, const Y &y, const obake::symbol_set &ss) { return obake::monomial_range_overflow_check(x, y, ss); }
inline decltype(auto) monomial_range_overflow_check_A_r(A &&x, Y &&y, const obake::symbol_set &ss) { return obake::monomial_range_overflow_check(std::move(x), std::move(y), ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool monomial_range_overflow_check_E = obake::are_overflow_testable_monomial_ranges_v<const E &, const Y &> == true;
inline constexpr bool monomial_range_overflow_check_E_concept = obake::OverflowTestableMonomialRanges<const E &, const Y &> == true;
inline constexpr bool monomial_range_overflow_check_A = obake::are_overflow_testable_monomial_ranges_v<const A &, const Y &> == true;
inline constexpr bool monomial_range_overflow_check_A_concept = obake::OverflowTestableMonomialRanges<const A &, const Y &> == true;
inline constexpr bool monomial_range_overflow_check_N = obake::are_overflow_testable_monomial_ranges_v<const N &, const Y &> == false;
inline constexpr bool monomial_range_overflow_check_N_concept = obake::OverflowTestableMonomialRanges<const N &, const Y &> == false;
inline constexpr bool monomial_range_overflow_check_D = obake::are_overflow_testable_monomial_ranges_v<const D &, const Y &> == false;
inline constexpr bool monomial_range_overflow_check_D_concept = obake::OverflowTestableMonomialRanges<const D &, const Y &> == false;
inline constexpr bool monomial_range_overflow_check_Z = obake::are_overflow_testable_monomial_ranges_v<const Z &, const Y &> == false;
inline constexpr bool monomial_range_overflow_check_Z_concept = obake::OverflowTestableMonomialRanges<const Z &, const Y &> == false;
}

// monomial_diff
namespace hxc
{
std::pair<R, E> monomial_diff_ext_c(const E &x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
std::pair<R, E> monomial_diff_ext_r(E &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
std::pair<R, E> monomial_diff_adl_c(const E &x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
std::pair<R, E> monomial_diff_adl_r(E &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
std::pair<R, A> monomial_diff_adl_c(const A &x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
std::pair<R, A> monomial_diff_adl_r(A &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
inline std::pair<R, E> monomial_diff(const E &x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return monomial_diff_adl_c(x, ix, ss); }
inline std::pair<R, E> monomial_diff(E &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return monomial_diff_adl_r(std::move(x), ix, ss); }
inline std::pair<R, A> monomial_diff(const A &x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return monomial_diff_adl_c(x, ix, ss); }
inline std::pair<R, A> monomial_diff(A &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return monomial_diff_adl_r(std::move(x), ix, ss); }
struct monomial_diff_ext_f {
    std::pair<R, E> operator()(const E &x, const obake::symbol_idx &ix, const obake::symbol_set &ss) const { return monomial_diff_ext_c(x, ix, ss); }
    std::pair<R, E> operator()(E &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss) const { return monomial_diff_ext_r(std::move(x), ix, ss); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto monomial_diff<X> = hxc::monomial_diff_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) monomial_diff_E_c(const E &x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return obake::monomial_diff(x, ix, ss); }
inline decltype(auto) monomial_diff_E_r(E &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return obake::monomial_diff(std::move(x), ix, ss); }
inline decltype(auto) monomial_diff_A_c(const A &x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return obake::monomial_diff(x, ix, ss); }
inline decltype(auto) monomial_diff_A_r(A &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return obake::monomial_diff(std::move(x), ix, ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool monomial_diff_E = obake::is_differentiable_monomial_v<const E &> == true;
inline constexpr bool monomial_diff_E_concept = obake::DifferentiableMonomial<const E &> == true;
inline constexpr bool monomial_diff_A = obake::is_differentiable_monomial_v<const A &> == true;
inline constexpr bool monomial_diff_A_concept = obake::DifferentiableMonomial<const A &> == true;
inline constexpr bool monomial_diff_N = obake::is_differentiable_monomial_v<const N &> == false;
inline constexpr bool monomial_diff_N_concept = obake::DifferentiableMonomial<const N &> == false;
inline constexpr bool monomial_diff_D = obake::is_differentiable_monomial_v<const D &> == false;
inline constexpr bool monomial_diff_D_concept = obake::DifferentiableMonomial<const D &> == false;
inline constexpr bool monomial_diff_Z = obake::is_differentiable_monomial_v<const Z &> == false;
inline constexpr bool monomial_diff_Z_concept = obake::DifferentiableMonomial<const Z &> == false;
}

// monomial_integrate
namespace hxc
{
std::pair<R, E> monomial_integrate_ext_c(const E &x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
std::pair<R, E> monomial_integrate_ext_r(E &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
std::pair<R, E> monomial_integrate_adl_c(const E &x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
std::pair<R, E> monomial_integrate_adl_r(E &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
std::pair<R, A> monomial_integrate_adl_c(const A &x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
std::pair<R, A> monomial_integrate_adl_r(A &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
inline std::pair<R, E> monomial_integrate(const E &x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return monomial_integrate_adl_c(x, ix, ss); }
inline std::pair<R, E> monomial_integrate(E &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return monomial_integrate_adl_r(std::move(x), ix, ss); }
inline std::pair<R, A> monomial_integrate(const A &x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return monomial_integrate_adl_c(x, ix, ss); }
inline std::pair<R, A> monomial_integrate(A &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return monomial_integrate_adl_r(std::move(x), ix, ss); }
struct monomial_integrate_ext_f {
    std::pair<R, E> operator()(const E &x, const obake::symbol_idx &ix, const obake::symbol_set &ss) const { return monomial_integrate_ext_c(x, ix, ss); }
    std::pair<R, E> operator()(E &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss) const { return monomial_integrate_ext_r(std::move(x), ix, ss); }
};
}
namespace obake::customisation
{
template <typename X> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto monomial_integrate<X> = hxc::monomial_integrate_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) monomial_integrate_E_c(const E &x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return obake::monomial_integrate(x, ix, ss); }
inline decltype(auto) monomial_integrate_E_r(E &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return obake::monomial_integrate(std::move(x), ix, ss); }
inline decltype(auto) monomial_integrate_A_c(const A &x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return obake::monomial_integrate(x, ix, ss); }
inline decltype(auto) monomial_integrate_A_r(A &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss) { return obake::monomial_integrate(std::move(x), ix, ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool monomial_integrate_E = obake::is_integrable_monomial_v<const E &> == true;
inline constexpr bool monomial_integrate_E_concept = obake::IntegrableMonomial<const E &> == true;
inline constexpr bool monomial_integrate_A = obake::is_integrable_monomial_v<const A &> == true;
inline constexpr bool monomial_integrate_A_concept = obake::IntegrableMonomial<const A &> == true;
inline constexpr bool monomial_integrate_N = obake::is_integrable_monomial_v<const N &> == false;
inline constexpr bool monomial_integrate_N_concept = obake::IntegrableMonomial<const N &> == false;
inline constexpr bool monomial_integrate_D = obake::is_integrable_monomial_v<const D &> == false;
inline constexpr bool monomial_integrate_D_concept = obake::IntegrableMonomial<const D &> == false;
inline constexpr bool monomial_integrate_Z = obake::is_integrable_monomial_v<const Z &> == false;
inline constexpr bool monomial_integrate_Z_concept = obake::IntegrableMonomial<const Z &> == false;
}

// monomial_subs
namespace hxc
{
std::pair<R, E> monomial_subs_ext_c(const E &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
std::pair<R, E> monomial_subs_ext_r(E &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
std::pair<R, E> monomial_subs_adl_c(const E &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
std::pair<R, E> monomial_subs_adl_r(E &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
std::pair<R, A> monomial_subs_adl_c(const A &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
std::pair<R, A> monomial_subs_adl_r(A &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
inline std::pair<R, E> monomial_subs(const E &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return monomial_subs_adl_c(x, sm, ss); }
inline std::pair<R, E> monomial_subs(E &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return monomial_subs_adl_r(std::move(x), sm, ss); }
inline std::pair<R, A> monomial_subs(const A &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return monomial_subs_adl_c(x, sm, ss); }
inline std::pair<R, A> monomial_subs(A &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return monomial_subs_adl_r(std::move(x), sm, ss); }
struct monomial_subs_ext_f {
    std::pair<R, E> operator()(const E &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) const { return monomial_subs_ext_c(x, sm, ss); }
    std::pair<R, E> operator()(E &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) const { return monomial_subs_ext_r(std::move(x), sm, ss); }
};
}
namespace obake::customisation
{
template <typename X, typename X1> requires(obake::is_same_cvr_v<X, hxc::E>) inline constexpr auto monomial_subs<X, X1> = hxc::monomial_subs_ext_f{};
}
namespace hx
{
using namespace hxc;
inline decltype(auto) monomial_subs_E_c(const E &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return obake::monomial_subs(x, sm, ss); }
inline decltype(auto) monomial_subs_E_r(E &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return obake::monomial_subs(std::move(x), sm, ss); }
inline decltype(auto) monomial_subs_A_c(const A &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return obake::monomial_subs(x, sm, ss); }
inline decltype(auto) monomial_subs_A_r(A &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss) { return obake::monomial_subs(std::move(x), sm, ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool monomial_subs_E = obake::is_substitutable_monomial_v<const E &, Y> == true;
inline constexpr bool monomial_subs_E_concept = obake::SubstitutableMonomial<const E &, Y> == true;
inline constexpr bool monomial_subs_A = obake::is_substitutable_monomial_v<const A &, Y> == true;
inline constexpr bool monomial_subs_A_concept = obake::SubstitutableMonomial<const A &, Y> == true;
inline constexpr bool monomial_subs_N = obake::is_substitutable_monomial_v<const N &, Y> == false;
inline constexpr bool monomial_subs_N_concept = obake::SubstitutableMonomial<const N &, Y> == false;
inline constexpr bool monomial_subs_D = obake::is_substitutable_monomial_v<const D &, Y> == false;
inline constexpr bool monomial_subs_D_concept = obake::SubstitutableMonomial<const D &, Y> == false;
inline constexpr bool monomial_subs_Z = obake::is_substitutable_monomial_v<const Z &, Y> == false;
inline constexpr bool monomial_subs_Z_concept = obake::SubstitutableMonomial<const Z &, Y> == false;
}
namespace hxc
{
struct K { };
void key_stream_insert_K(std::ostream &, const K &, const obake::symbol_set &);
inline void key_stream_insert(std::ostream &os, const K &x, const obake::symbol_set &ss) { key_stream_insert_K(os, x, ss); }
}
namespace hx
{
inline void key_tex_stream_insert_K_c(std::ostream &os, const hxc::K &x, const obake::symbol_set &ss) { obake::key_tex_stream_insert(os, x, ss); }
}
namespace hxw
{
using namespace hxc;
inline constexpr bool safe_convert_Y_to_Er = obake::is_safely_convertible_v<Y, E &> == true;
inline constexpr bool safe_convert_Y_to_Er_concept = obake::SafelyConvertible<Y, E &> == true;
inline constexpr bool safe_convert_Y_to_Ar = obake::is_safely_convertible_v<Y, A &> == true;
inline constexpr bool safe_convert_Y_to_Ar_concept = obake::SafelyConvertible<Y, A &> == true;
inline constexpr bool safe_convert_D_to_Dr = obake::is_safely_convertible_v<D, D &> == true;
inline constexpr bool safe_convert_D_to_Dr_concept = obake::SafelyConvertible<D, D &> == true;
inline constexpr bool safe_convert_cDr_to_Dr = obake::is_safely_convertible_v<const D &, D &> == true;
inline constexpr bool safe_convert_cDr_to_Dr_concept = obake::SafelyConvertible<const D &, D &> == true;
inline constexpr bool safe_convert_Y_to_Dr = obake::is_safely_convertible_v<Y, D &> == false;
inline constexpr bool safe_convert_Y_to_Dr_concept = obake::SafelyConvertible<Y, D &> == false;
inline constexpr bool safe_convert_Y_to_Nr = obake::is_safely_convertible_v<Y, N &> == false;
inline constexpr bool safe_convert_Y_to_Nr_concept = obake::SafelyConvertible<Y, N &> == false;
inline constexpr bool safe_convert_D_to_cDr = obake::is_safely_convertible_v<D, const D &> == false;
inline constexpr bool safe_convert_D_to_cDr_concept = obake::SafelyConvertible<D, const D &> == false;
inline constexpr bool safe_convert_Z_to_Er = obake::is_safely_convertible_v<Z, E &> == false;
inline constexpr bool safe_convert_Z_to_Er_concept = obake::SafelyConvertible<Z, E &> == false;
}
namespace hxc
{
struct F_cf_stream_insert { F_cf_stream_insert(const F_cf_stream_insert &); F_cf_stream_insert &operator=(const F_cf_stream_insert &); F_cf_stream_insert operator-() const; };
void cf_stream_insert(std::ostream &os, const F_cf_stream_insert &x);
void cf_stream_insert(std::ostream &os, F_cf_stream_insert &&x);
struct F_byte_size { F_byte_size(const F_byte_size &); F_byte_size &operator=(const F_byte_size &); F_byte_size operator-() const; };
std::size_t byte_size(const F_byte_size &x);
std::size_t byte_size(F_byte_size &&x);
struct F_hash { F_hash(const F_hash &); F_hash &operator=(const F_hash &); F_hash operator-() const; };
std::size_t hash(const F_hash &x);
std::size_t hash(F_hash &&x);
struct F_key_is_compatible { F_key_is_compatible(const F_key_is_compatible &); F_key_is_compatible &operator=(const F_key_is_compatible &); F_key_is_compatible operator-() const; };
bool key_is_compatible(const F_key_is_compatible &x, const obake::symbol_set &ss);
bool key_is_compatible(F_key_is_compatible &&x, const obake::symbol_set &ss);
struct F_key_degree { F_key_degree(const F_key_degree &); F_key_degree &operator=(const F_key_degree &); F_key_degree operator-() const; };
R & key_degree(const F_key_degree &x, const obake::symbol_set &ss);
R & key_degree(F_key_degree &&x, const obake::symbol_set &ss);
struct F_key_p_degree { F_key_p_degree(const F_key_p_degree &); F_key_p_degree &operator=(const F_key_p_degree &); F_key_p_degree operator-() const; };
R & key_p_degree(const F_key_p_degree &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
R & key_p_degree(F_key_p_degree &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
struct F_key_evaluate { F_key_evaluate(const F_key_evaluate &); F_key_evaluate &operator=(const F_key_evaluate &); F_key_evaluate operator-() const; };
R & key_evaluate(const F_key_evaluate &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
R & key_evaluate(F_key_evaluate &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
struct F_key_is_zero { F_key_is_zero(const F_key_is_zero &); F_key_is_zero &operator=(const F_key_is_zero &); F_key_is_zero operator-() const; };
bool key_is_zero(const F_key_is_zero &x, const obake::symbol_set &ss);
bool key_is_zero(F_key_is_zero &&x, const obake::symbol_set &ss);
struct F_key_is_one { F_key_is_one(const F_key_is_one &); F_key_is_one &operator=(const F_key_is_one &); F_key_is_one operator-() const; };
bool key_is_one(const F_key_is_one &x, const obake::symbol_set &ss);
bool key_is_one(F_key_is_one &&x, const obake::symbol_set &ss);
struct F_key_stream_insert { F_key_stream_insert(const F_key_stream_insert &); F_key_stream_insert &operator=(const F_key_stream_insert &); F_key_stream_insert operator-() const; };
void key_stream_insert(std::ostream &os, const F_key_stream_insert &x, const obake::symbol_set &ss);
void key_stream_insert(std::ostream &os, F_key_stream_insert &&x, const obake::symbol_set &ss);
struct F_key_tex_stream_insert { F_key_tex_stream_insert(const F_key_tex_stream_insert &); F_key_tex_stream_insert &operator=(const F_key_tex_stream_insert &); F_key_tex_stream_insert operator-() const; };
void key_tex_stream_insert(std::ostream &os, const F_key_tex_stream_insert &x, const obake::symbol_set &ss);
void key_tex_stream_insert(std::ostream &os, F_key_tex_stream_insert &&x, const obake::symbol_set &ss);
struct F_key_trim { F_key_trim(const F_key_trim &); F_key_trim &operator=(const F_key_trim &); F_key_trim operator-() const; };
F_key_trim key_trim(const F_key_trim &x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
F_key_trim key_trim(F_key_trim &&x, const obake::symbol_idx_set &si, const obake::symbol_set &ss);
struct F_key_trim_identify { F_key_trim_identify(const F_key_trim_identify &); F_key_trim_identify &operator=(const F_key_trim_identify &); F_key_trim_identify operator-() const; };
void key_trim_identify(std::vector<int> &v, const F_key_trim_identify &x, const obake::symbol_set &ss);
void key_trim_identify(std::vector<int> &v, F_key_trim_identify &&x, const obake::symbol_set &ss);
struct F_key_merge_symbols { F_key_merge_symbols(const F_key_merge_symbols &); F_key_merge_symbols &operator=(const F_key_merge_symbols &); F_key_merge_symbols operator-() const; };
F_key_merge_symbols key_merge_symbols(const F_key_merge_symbols &x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss);
F_key_merge_symbols key_merge_symbols(F_key_merge_symbols &&x, const obake::symbol_idx_map<obake::symbol_set> &im, const obake::symbol_set &ss);
struct F_degree { F_degree(const F_degree &); F_degree &operator=(const F_degree &); F_degree operator-() const; };
R & degree(const F_degree &x);
R & degree(F_degree &&x);
struct F_p_degree { F_p_degree(const F_p_degree &); F_p_degree &operator=(const F_p_degree &); F_p_degree operator-() const; };
R & p_degree(const F_p_degree &x, const obake::symbol_set &ss);
R & p_degree(F_p_degree &&x, const obake::symbol_set &ss);
struct F_evaluate { F_evaluate(const F_evaluate &); F_evaluate &operator=(const F_evaluate &); F_evaluate operator-() const; };
R & evaluate(const F_evaluate &x, const obake::symbol_map<Y> &sm);
R & evaluate(F_evaluate &&x, const obake::symbol_map<Y> &sm);
struct F_subs { F_subs(const F_subs &); F_subs &operator=(const F_subs &); F_subs operator-() const; };
R & subs(const F_subs &x, const obake::symbol_map<Y> &sm);
R & subs(F_subs &&x, const obake::symbol_map<Y> &sm);
struct F_trim { F_trim(const F_trim &); F_trim &operator=(const F_trim &); F_trim operator-() const; };
F_trim trim(const F_trim &x);
F_trim trim(F_trim &&x);
struct F_diff { F_diff(const F_diff &); F_diff &operator=(const F_diff &); F_diff operator-() const; };
R & diff(const F_diff &x, const std::string &s);
R & diff(F_diff &&x, const std::string &s);
struct F_integrate { F_integrate(const F_integrate &); F_integrate &operator=(const F_integrate &); F_integrate operator-() const; };
R & integrate(const F_integrate &x, const std::string &s);
R & integrate(F_integrate &&x, const std::string &s);
struct F_truncate_degree { F_truncate_degree(const F_truncate_degree &); F_truncate_degree &operator=(const F_truncate_degree &); F_truncate_degree operator-() const; };
void truncate_degree(const F_truncate_degree &x, const Y &y);
void truncate_degree(F_truncate_degree &&x, Y &&y);
struct F_truncate_p_degree { F_truncate_p_degree(const F_truncate_p_degree &); F_truncate_p_degree &operator=(const F_truncate_p_degree &); F_truncate_p_degree operator-() const; };
void truncate_p_degree(const F_truncate_p_degree &x, const Y &y, const obake::symbol_set &ss);
void truncate_p_degree(F_truncate_p_degree &&x, Y &&y, const obake::symbol_set &ss);
struct F_fma3 { F_fma3(const F_fma3 &); F_fma3 &operator=(const F_fma3 &); F_fma3 operator-() const; };
void fma3(const F_fma3 &x, const Y &y, const Z &z);
void fma3(F_fma3 &&x, Y &&y, Z &&z);
struct F_is_zero { F_is_zero(const F_is_zero &); F_is_zero &operator=(const F_is_zero &); F_is_zero operator-() const; };
bool is_zero(const F_is_zero &x);
bool is_zero(F_is_zero &&x);
struct F_negate { F_negate(const F_negate &); F_negate &operator=(const F_negate &); F_negate operator-() const; };
void negate(const F_negate &x);
void negate(F_negate &&x);
struct F_pow { F_pow(const F_pow &); F_pow &operator=(const F_pow &); F_pow operator-() const; };
R & pow(const F_pow &x, const Y &y);
R & pow(F_pow &&x, Y &&y);
struct F_safe_convert { F_safe_convert(const F_safe_convert &); F_safe_convert &operator=(const F_safe_convert &); F_safe_convert operator-() const; };
bool safe_convert(const F_safe_convert &x, const Y &y);
bool safe_convert(F_safe_convert &&x, Y &&y);
struct F_tex_stream_insert { F_tex_stream_insert(const F_tex_stream_insert &); F_tex_stream_insert &operator=(const F_tex_stream_insert &); F_tex_stream_insert operator-() const; };
void tex_stream_insert(std::ostream &os, const F_tex_stream_insert &x);
void tex_stream_insert(std::ostream &os, F_tex_stream_insert &&x);
struct F_cf_tex_stream_insert { F_cf_tex_stream_insert(const F_cf_tex_stream_insert &); F_cf_tex_stream_insert &operator=(const F_cf_tex_stream_insert &); F_cf_tex_stream_insert operator-() const; };
void cf_tex_stream_insert(std::ostream &os, const F_cf_tex_stream_insert &x);
void cf_tex_stream_insert(std::ostream &os, F_cf_tex_stream_insert &&x);
struct F_monomial_mul { F_monomial_mul(const F_monomial_mul &); F_monomial_mul &operator=(const F_monomial_mul &); F_monomial_mul operator-() const; };
void monomial_mul(const F_monomial_mul &x, const Y &y, const Z &z, const obake::symbol_set &ss);
void monomial_mul(F_monomial_mul &&x, Y &&y, Z &&z, const obake::symbol_set &ss);
struct F_monomial_pow { F_monomial_pow(const F_monomial_pow &); F_monomial_pow &operator=(const F_monomial_pow &); F_monomial_pow operator-() const; };
F_monomial_pow monomial_pow(const F_monomial_pow &x, const Y &y, const obake::symbol_set &ss);
F_monomial_pow monomial_pow(F_monomial_pow &&x, Y &&y, const obake::symbol_set &ss);
struct F_monomial_range_overflow_check { F_monomial_range_overflow_check(const F_monomial_range_overflow_check &); F_monomial_range_overflow_check &operator=(const F_monomial_range_overflow_check &); F_monomial_range_overflow_check operator-() const; };
bool monomial_range_overflow_check(const F_monomial_range_overflow_check &x, const Y &y, const obake::symbol_set &ss);
bool monomial_range_overflow_check(F_monomial_range_overflow_check &&x, Y &&y, const obake::symbol_set &ss);
struct F_monomial_diff { F_monomial_diff(const F_monomial_diff &); F_monomial_diff &operator=(const F_monomial_diff &); F_monomial_diff operator-() const; };
std::pair<R, F_monomial_diff> monomial_diff(const F_monomial_diff &x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
std::pair<R, F_monomial_diff> monomial_diff(F_monomial_diff &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
struct F_monomial_integrate { F_monomial_integrate(const F_monomial_integrate &); F_monomial_integrate &operator=(const F_monomial_integrate &); F_monomial_integrate operator-() const; };
std::pair<R, F_monomial_integrate> monomial_integrate(const F_monomial_integrate &x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
std::pair<R, F_monomial_integrate> monomial_integrate(F_monomial_integrate &&x, const obake::symbol_idx &ix, const obake::symbol_set &ss);
struct F_monomial_subs { F_monomial_subs(const F_monomial_subs &); F_monomial_subs &operator=(const F_monomial_subs &); F_monomial_subs operator-() const; };
std::pair<R, F_monomial_subs> monomial_subs(const F_monomial_subs &x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
std::pair<R, F_monomial_subs> monomial_subs(F_monomial_subs &&x, const obake::symbol_idx_map<Y> &sm, const obake::symbol_set &ss);
}
namespace hxw
{
using namespace hxc;
inline constexpr bool cf_stream_insert_result_lvalue = std::is_same_v<decltype(obake::cf_stream_insert(std::declval<std::ostream &>(), std::declval<const F_cf_stream_insert &>())), void>;
inline constexpr bool cf_stream_insert_throws_lvalue = !noexcept(obake::cf_stream_insert(std::declval<std::ostream &>(), std::declval<const F_cf_stream_insert &>()));
inline constexpr bool cf_stream_insert_result_rvalue = std::is_same_v<decltype(obake::cf_stream_insert(std::declval<std::ostream &>(), std::declval<F_cf_stream_insert &&>())), void>;
inline constexpr bool cf_stream_insert_throws_rvalue = !noexcept(obake::cf_stream_insert(std::declval<std::ostream &>(), std::declval<F_cf_stream_insert &&>()));
inline constexpr bool byte_size_result_lvalue = std::is_same_v<decltype(obake::byte_size(std::declval<const F_byte_size &>())), std::size_t>;
inline constexpr bool byte_size_throws_lvalue = !noexcept(obake::byte_size(std::declval<const F_byte_size &>()));
inline constexpr bool byte_size_result_rvalue = std::is_same_v<decltype(obake::byte_size(std::declval<F_byte_size &&>())), std::size_t>;
inline constexpr bool byte_size_throws_rvalue = !noexcept(obake::byte_size(std::declval<F_byte_size &&>()));
inline constexpr bool hash_result_lvalue = std::is_same_v<decltype(obake::hash(std::declval<const F_hash &>())), std::size_t>;
inline constexpr bool hash_throws_lvalue = !noexcept(obake::hash(std::declval<const F_hash &>()));
inline constexpr bool hash_result_rvalue = std::is_same_v<decltype(obake::hash(std::declval<F_hash &&>())), std::size_t>;
inline constexpr bool hash_throws_rvalue = !noexcept(obake::hash(std::declval<F_hash &&>()));
inline constexpr bool key_is_compatible_result_lvalue = std::is_same_v<decltype(obake::key_is_compatible(std::declval<const F_key_is_compatible &>(), std::declval<const obake::symbol_set &>())), bool>;
inline constexpr bool key_is_compatible_throws_lvalue = !noexcept(obake::key_is_compatible(std::declval<const F_key_is_compatible &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_is_compatible_result_rvalue = std::is_same_v<decltype(obake::key_is_compatible(std::declval<F_key_is_compatible &&>(), std::declval<const obake::symbol_set &>())), bool>;
inline constexpr bool key_is_compatible_throws_rvalue = !noexcept(obake::key_is_compatible(std::declval<F_key_is_compatible &&>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_degree_result_lvalue = std::is_same_v<decltype(obake::key_degree(std::declval<const F_key_degree &>(), std::declval<const obake::symbol_set &>())), R &>;
inline constexpr bool key_degree_throws_lvalue = !noexcept(obake::key_degree(std::declval<const F_key_degree &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_degree_result_rvalue = std::is_same_v<decltype(obake::key_degree(std::declval<F_key_degree &&>(), std::declval<const obake::symbol_set &>())), R &>;
inline constexpr bool key_degree_throws_rvalue = !noexcept(obake::key_degree(std::declval<F_key_degree &&>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_p_degree_result_lvalue = std::is_same_v<decltype(obake::key_p_degree(std::declval<const F_key_p_degree &>(), std::declval<const obake::symbol_idx_set &>(), std::declval<const obake::symbol_set &>())), R &>;
inline constexpr bool key_p_degree_throws_lvalue = !noexcept(obake::key_p_degree(std::declval<const F_key_p_degree &>(), std::declval<const obake::symbol_idx_set &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_p_degree_result_rvalue = std::is_same_v<decltype(obake::key_p_degree(std::declval<F_key_p_degree &&>(), std::declval<const obake::symbol_idx_set &>(), std::declval<const obake::symbol_set &>())), R &>;
inline constexpr bool key_p_degree_throws_rvalue = !noexcept(obake::key_p_degree(std::declval<F_key_p_degree &&>(), std::declval<const obake::symbol_idx_set &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_evaluate_result_lvalue = std::is_same_v<decltype(obake::key_evaluate(std::declval<const F_key_evaluate &>(), std::declval<const obake::symbol_idx_map<Y> &>(), std::declval<const obake::symbol_set &>())), R &>;
inline constexpr bool key_evaluate_throws_lvalue = !noexcept(obake::key_evaluate(std::declval<const F_key_evaluate &>(), std::declval<const obake::symbol_idx_map<Y> &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_evaluate_result_rvalue = std::is_same_v<decltype(obake::key_evaluate(std::declval<F_key_evaluate &&>(), std::declval<const obake::symbol_idx_map<Y> &>(), std::declval<const obake::symbol_set &>())), R &>;
inline constexpr bool key_evaluate_throws_rvalue = !noexcept(obake::key_evaluate(std::declval<F_key_evaluate &&>(), std::declval<const obake::symbol_idx_map<Y> &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_is_zero_result_lvalue = std::is_same_v<decltype(obake::key_is_zero(std::declval<const F_key_is_zero &>(), std::declval<const obake::symbol_set &>())), bool>;
inline constexpr bool key_is_zero_throws_lvalue = !noexcept(obake::key_is_zero(std::declval<const F_key_is_zero &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_is_zero_result_rvalue = std::is_same_v<decltype(obake::key_is_zero(std::declval<F_key_is_zero &&>(), std::declval<const obake::symbol_set &>())), bool>;
inline constexpr bool key_is_zero_throws_rvalue = !noexcept(obake::key_is_zero(std::declval<F_key_is_zero &&>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_is_one_result_lvalue = std::is_same_v<decltype(obake::key_is_one(std::declval<const F_key_is_one &>(), std::declval<const obake::symbol_set &>())), bool>;
inline constexpr bool key_is_one_throws_lvalue = !noexcept(obake::key_is_one(std::declval<const F_key_is_one &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_is_one_result_rvalue = std::is_same_v<decltype(obake::key_is_one(std::declval<F_key_is_one &&>(), std::declval<const obake::symbol_set &>())), bool>;
inline constexpr bool key_is_one_throws_rvalue = !noexcept(obake::key_is_one(std::declval<F_key_is_one &&>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_stream_insert_result_lvalue = std::is_same_v<decltype(obake::key_stream_insert(std::declval<std::ostream &>(), std::declval<const F_key_stream_insert &>(), std::declval<const obake::symbol_set &>())), void>;
inline constexpr bool key_stream_insert_throws_lvalue = !noexcept(obake::key_stream_insert(std::declval<std::ostream &>(), std::declval<const F_key_stream_insert &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_stream_insert_result_rvalue = std::is_same_v<decltype(obake::key_stream_insert(std::declval<std::ostream &>(), std::declval<F_key_stream_insert &&>(), std::declval<const obake::symbol_set &>())), void>;
inline constexpr bool key_stream_insert_throws_rvalue = !noexcept(obake::key_stream_insert(std::declval<std::ostream &>(), std::declval<F_key_stream_insert &&>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_tex_stream_insert_result_lvalue = std::is_same_v<decltype(obake::key_tex_stream_insert(std::declval<std::ostream &>(), std::declval<const F_key_tex_stream_insert &>(), std::declval<const obake::symbol_set &>())), void>;
inline constexpr bool key_tex_stream_insert_throws_lvalue = !noexcept(obake::key_tex_stream_insert(std::declval<std::ostream &>(), std::declval<const F_key_tex_stream_insert &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_tex_stream_insert_result_rvalue = std::is_same_v<decltype(obake::key_tex_stream_insert(std::declval<std::ostream &>(), std::declval<F_key_tex_stream_insert &&>(), std::declval<const obake::symbol_set &>())), void>;
inline constexpr bool key_tex_stream_insert_throws_rvalue = !noexcept(obake::key_tex_stream_insert(std::declval<std::ostream &>(), std::declval<F_key_tex_stream_insert &&>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_trim_result_lvalue = std::is_same_v<decltype(obake::key_trim(std::declval<const F_key_trim &>(), std::declval<const obake::symbol_idx_set &>(), std::declval<const obake::symbol_set &>())), F_key_trim>;
inline constexpr bool key_trim_throws_lvalue = !noexcept(obake::key_trim(std::declval<const F_key_trim &>(), std::declval<const obake::symbol_idx_set &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_trim_result_rvalue = std::is_same_v<decltype(obake::key_trim(std::declval<F_key_trim &&>(), std::declval<const obake::symbol_idx_set &>(), std::declval<const obake::symbol_set &>())), F_key_trim>;
inline constexpr bool key_trim_throws_rvalue = !noexcept(obake::key_trim(std::declval<F_key_trim &&>(), std::declval<const obake::symbol_idx_set &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_trim_identify_result_lvalue = std::is_same_v<decltype(obake::key_trim_identify(std::declval<std::vector<int> &>(), std::declval<const F_key_trim_identify &>(), std::declval<const obake::symbol_set &>())), void>;
inline constexpr bool key_trim_identify_throws_lvalue = !noexcept(obake::key_trim_identify(std::declval<std::vector<int> &>(), std::declval<const F_key_trim_identify &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_trim_identify_result_rvalue = std::is_same_v<decltype(obake::key_trim_identify(std::declval<std::vector<int> &>(), std::declval<F_key_trim_identify &&>(), std::declval<const obake::symbol_set &>())), void>;
inline constexpr bool key_trim_identify_throws_rvalue = !noexcept(obake::key_trim_identify(std::declval<std::vector<int> &>(), std::declval<F_key_trim_identify &&>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_merge_symbols_result_lvalue = std::is_same_v<decltype(obake::key_merge_symbols(std::declval<const F_key_merge_symbols &>(), std::declval<const obake::symbol_idx_map<obake::symbol_set> &>(), std::declval<const obake::symbol_set &>())), F_key_merge_symbols>;
inline constexpr bool key_merge_symbols_throws_lvalue = !noexcept(obake::key_merge_symbols(std::declval<const F_key_merge_symbols &>(), std::declval<const obake::symbol_idx_map<obake::symbol_set> &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool key_merge_symbols_result_rvalue = std::is_same_v<decltype(obake::key_merge_symbols(std::declval<F_key_merge_symbols &&>(), std::declval<const obake::symbol_idx_map<obake::symbol_set> &>(), std::declval<const obake::symbol_set &>())), F_key_merge_symbols>;
inline constexpr bool key_merge_symbols_throws_rvalue = !noexcept(obake::key_merge_symbols(std::declval<F_key_merge_symbols &&>(), std::declval<const obake::symbol_idx_map<obake::symbol_set> &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool degree_result_lvalue = std::is_same_v<decltype(obake::degree(std::declval<const F_degree &>())), R &>;
inline constexpr bool degree_throws_lvalue = !noexcept(obake::degree(std::declval<const F_degree &>()));
inline constexpr bool degree_result_rvalue = std::is_same_v<decltype(obake::degree(std::declval<F_degree &&>())), R &>;
inline constexpr bool degree_throws_rvalue = !noexcept(obake::degree(std::declval<F_degree &&>()));
inline constexpr bool p_degree_result_lvalue = std::is_same_v<decltype(obake::p_degree(std::declval<const F_p_degree &>(), std::declval<const obake::symbol_set &>())), R &>;
inline constexpr bool p_degree_throws_lvalue = !noexcept(obake::p_degree(std::declval<const F_p_degree &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool p_degree_result_rvalue = std::is_same_v<decltype(obake::p_degree(std::declval<F_p_degree &&>(), std::declval<const obake::symbol_set &>())), R &>;
inline constexpr bool p_degree_throws_rvalue = !noexcept(obake::p_degree(std::declval<F_p_degree &&>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool evaluate_result_lvalue = std::is_same_v<decltype(obake::evaluate(std::declval<const F_evaluate &>(), std::declval<const obake::symbol_map<Y> &>())), R &>;
inline constexpr bool evaluate_throws_lvalue = !noexcept(obake::evaluate(std::declval<const F_evaluate &>(), std::declval<const obake::symbol_map<Y> &>()));
inline constexpr bool evaluate_result_rvalue = std::is_same_v<decltype(obake::evaluate(std::declval<F_evaluate &&>(), std::declval<const obake::symbol_map<Y> &>())), R &>;
inline constexpr bool evaluate_throws_rvalue = !noexcept(obake::evaluate(std::declval<F_evaluate &&>(), std::declval<const obake::symbol_map<Y> &>()));
inline constexpr bool subs_result_lvalue = std::is_same_v<decltype(obake::subs(std::declval<const F_subs &>(), std::declval<const obake::symbol_map<Y> &>())), R &>;
inline constexpr bool subs_throws_lvalue = !noexcept(obake::subs(std::declval<const F_subs &>(), std::declval<const obake::symbol_map<Y> &>()));
inline constexpr bool subs_result_rvalue = std::is_same_v<decltype(obake::subs(std::declval<F_subs &&>(), std::declval<const obake::symbol_map<Y> &>())), R &>;
inline constexpr bool subs_throws_rvalue = !noexcept(obake::subs(std::declval<F_subs &&>(), std::declval<const obake::symbol_map<Y> &>()));
inline constexpr bool trim_result_lvalue = std::is_same_v<decltype(obake::trim(std::declval<const F_trim &>())), F_trim>;
inline constexpr bool trim_throws_lvalue = !noexcept(obake::trim(std::declval<const F_trim &>()));
inline constexpr bool trim_result_rvalue = std::is_same_v<decltype(obake::trim(std::declval<F_trim &&>())), F_trim>;
inline constexpr bool trim_throws_rvalue = !noexcept(obake::trim(std::declval<F_trim &&>()));
inline constexpr bool diff_result_lvalue = std::is_same_v<decltype(obake::diff(std::declval<const F_diff &>(), std::declval<const std::string &>())), R &>;
inline constexpr bool diff_throws_lvalue = !noexcept(obake::diff(std::declval<const F_diff &>(), std::declval<const std::string &>()));
inline constexpr bool diff_result_rvalue = std::is_same_v<decltype(obake::diff(std::declval<F_diff &&>(), std::declval<const std::string &>())), R &>;
inline constexpr bool diff_throws_rvalue = !noexcept(obake::diff(std::declval<F_diff &&>(), std::declval<const std::string &>()));
inline constexpr bool integrate_result_lvalue = std::is_same_v<decltype(obake::integrate(std::declval<const F_integrate &>(), std::declval<const std::string &>())), R &>;
inline constexpr bool integrate_throws_lvalue = !noexcept(obake::integrate(std::declval<const F_integrate &>(), std::declval<const std::string &>()));
inline constexpr bool integrate_result_rvalue = std::is_same_v<decltype(obake::integrate(std::declval<F_integrate &&>(), std::declval<const std::string &>())), R &>;
inline constexpr bool integrate_throws_rvalue = !noexcept(obake::integrate(std::declval<F_integrate &&>(), std::declval<const std::string &>()));
inline constexpr bool truncate_degree_result_lvalue = std::is_same_v<decltype(obake::truncate_degree(std::declval<const F_truncate_degree &>(), std::declval<const Y &>())), void>;
inline constexpr bool truncate_degree_throws_lvalue = !noexcept(obake::truncate_degree(std::declval<const F_truncate_degree &>(), std::declval<const Y &>()));
inline constexpr bool truncate_degree_result_rvalue = std::is_same_v<decltype(obake::truncate_degree(std::declval<F_truncate_degree &&>(), std::declval<Y &&>())), void>;
inline constexpr bool truncate_degree_throws_rvalue = !noexcept(obake::truncate_degree(std::declval<F_truncate_degree &&>(), std::declval<Y &&>()));
inline constexpr bool truncate_p_degree_result_lvalue = std::is_same_v<decltype(obake::truncate_p_degree(std::declval<const F_truncate_p_degree &>(), std::declval<const Y &>(), std::declval<const obake::symbol_set &>())), void>;
inline constexpr bool truncate_p_degree_throws_lvalue = !noexcept(obake::truncate_p_degree(std::declval<const F_truncate_p_degree &>(), std::declval<const Y &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool truncate_p_degree_result_rvalue = std::is_same_v<decltype(obake::truncate_p_degree(std::declval<F_truncate_p_degree &&>(), std::declval<Y &&>(), std::declval<const obake::symbol_set &>())), void>;
inline constexpr bool truncate_p_degree_throws_rvalue = !noexcept(obake::truncate_p_degree(std::declval<F_truncate_p_degree &&>(), std::declval<Y &&>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool fma3_result_lvalue = std::is_same_v<decltype(obake::fma3(std::declval<const F_fma3 &>(), std::declval<const Y &>(), std::declval<const Z &>())), void>;
inline constexpr bool fma3_throws_lvalue = !noexcept(obake::fma3(std::declval<const F_fma3 &>(), std::declval<const Y &>(), std::declval<const Z &>()));
inline constexpr bool fma3_result_rvalue = std::is_same_v<decltype(obake::fma3(std::declval<F_fma3 &&>(), std::declval<Y &&>(), std::declval<Z &&>())), void>;
inline constexpr bool fma3_throws_rvalue = !noexcept(obake::fma3(std::declval<F_fma3 &&>(), std::declval<Y &&>(), std::declval<Z &&>()));
inline constexpr bool is_zero_result_lvalue = std::is_same_v<decltype(obake::is_zero(std::declval<const F_is_zero &>())), bool>;
inline constexpr bool is_zero_throws_lvalue = !noexcept(obake::is_zero(std::declval<const F_is_zero &>()));
inline constexpr bool is_zero_result_rvalue = std::is_same_v<decltype(obake::is_zero(std::declval<F_is_zero &&>())), bool>;
inline constexpr bool is_zero_throws_rvalue = !noexcept(obake::is_zero(std::declval<F_is_zero &&>()));
inline constexpr bool negate_result_lvalue = std::is_same_v<decltype(obake::negate(std::declval<const F_negate &>())), const F_negate &>;
inline constexpr bool negate_throws_lvalue = !noexcept(obake::negate(std::declval<const F_negate &>()));
inline constexpr bool negate_result_rvalue = std::is_same_v<decltype(obake::negate(std::declval<F_negate &&>())), F_negate &&>;
inline constexpr bool negate_throws_rvalue = !noexcept(obake::negate(std::declval<F_negate &&>()));
inline constexpr bool pow_result_lvalue = std::is_same_v<decltype(obake::pow(std::declval<const F_pow &>(), std::declval<const Y &>())), R &>;
inline constexpr bool pow_throws_lvalue = !noexcept(obake::pow(std::declval<const F_pow &>(), std::declval<const Y &>()));
inline constexpr bool pow_result_rvalue = std::is_same_v<decltype(obake::pow(std::declval<F_pow &&>(), std::declval<Y &&>())), R &>;
inline constexpr bool pow_throws_rvalue = !noexcept(obake::pow(std::declval<F_pow &&>(), std::declval<Y &&>()));
inline constexpr bool safe_convert_result_lvalue = std::is_same_v<decltype(obake::safe_convert(std::declval<const F_safe_convert &>(), std::declval<const Y &>())), bool>;
inline constexpr bool safe_convert_throws_lvalue = !noexcept(obake::safe_convert(std::declval<const F_safe_convert &>(), std::declval<const Y &>()));
inline constexpr bool safe_convert_result_rvalue = std::is_same_v<decltype(obake::safe_convert(std::declval<F_safe_convert &&>(), std::declval<Y &&>())), bool>;
inline constexpr bool safe_convert_throws_rvalue = !noexcept(obake::safe_convert(std::declval<F_safe_convert &&>(), std::declval<Y &&>()));
inline constexpr bool tex_stream_insert_result_lvalue = std::is_same_v<decltype(obake::tex_stream_insert(std::declval<std::ostream &>(), std::declval<const F_tex_stream_insert &>())), void>;
inline constexpr bool tex_stream_insert_throws_lvalue = !noexcept(obake::tex_stream_insert(std::declval<std::ostream &>(), std::declval<const F_tex_stream_insert &>()));
inline constexpr bool tex_stream_insert_result_rvalue = std::is_same_v<decltype(obake::tex_stream_insert(std::declval<std::ostream &>(), std::declval<F_tex_stream_insert &&>())), void>;
inline constexpr bool tex_stream_insert_throws_rvalue = !noexcept(obake::tex_stream_insert(std::declval<std::ostream &>(), std::declval<F_tex_stream_insert &&>()));
inline constexpr bool cf_tex_stream_insert_result_lvalue = std::is_same_v<decltype(obake::cf_tex_stream_insert(std::declval<std::ostream &>(), std::declval<const F_cf_tex_stream_insert &>())), void>;
inline constexpr bool cf_tex_stream_insert_throws_lvalue = !noexcept(obake::cf_tex_stream_insert(std::declval<std::ostream &>(), std::declval<const F_cf_tex_stream_insert &>()));
inline constexpr bool cf_tex_stream_insert_result_rvalue = std::is_same_v<decltype(obake::cf_tex_stream_insert(std::declval<std::ostream &>(), std::declval<F_cf_tex_stream_insert &&>())), void>;
inline constexpr bool cf_tex_stream_insert_throws_rvalue = !noexcept(obake::cf_tex_stream_insert(std::declval<std::ostream &>(), std::declval<F_cf_tex_stream_insert &&>()));
inline constexpr bool monomial_mul_result_lvalue = std::is_same_v<decltype(obake::monomial_mul(std::declval<const F_monomial_mul &>(), std::declval<const Y &>(), std::declval<const Z &>(), std::declval<const obake::symbol_set &>())), void>;
inline constexpr bool monomial_mul_throws_lvalue = !noexcept(obake::monomial_mul(std::declval<const F_monomial_mul &>(), std::declval<const Y &>(), std::declval<const Z &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool monomial_mul_result_rvalue = std::is_same_v<decltype(obake::monomial_mul(std::declval<F_monomial_mul &&>(), std::declval<Y &&>(), std::declval<Z &&>(), std::declval<const obake::symbol_set &>())), void>;
inline constexpr bool monomial_mul_throws_rvalue = !noexcept(obake::monomial_mul(std::declval<F_monomial_mul &&>(), std::declval<Y &&>(), std::declval<Z &&>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool monomial_pow_result_lvalue = std::is_same_v<decltype(obake::monomial_pow(std::declval<const F_monomial_pow &>(), std::declval<const Y &>(), std::declval<const obake::symbol_set &>())), F_monomial_pow>;
inline constexpr bool monomial_pow_throws_lvalue = !noexcept(obake::monomial_pow(std::declval<const F_monomial_pow &>(), std::declval<const Y &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool monomial_pow_result_rvalue = std::is_same_v<decltype(obake::monomial_pow(std::declval<F_monomial_pow &&>(), std::declval<Y &&>(), std::declval<const obake::symbol_set &>())), F_monomial_pow>;
inline constexpr bool monomial_pow_throws_rvalue = !noexcept(obake::monomial_pow(std::declval<F_monomial_pow &&>(), std::declval<Y &&>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool monomial_range_overflow_check_result_lvalue = std::is_same_v<decltype(obake::monomial_range_overflow_check(std::declval<const F_monomial_range_overflow_check &>(), std::declval<const Y &>(), std::declval<const obake::symbol_set &>())), bool>;
inline constexpr bool monomial_range_overflow_check_throws_lvalue = !noexcept(obake::monomial_range_overflow_check(std::declval<const F_monomial_range_overflow_check &>(), std::declval<const Y &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool monomial_range_overflow_check_result_rvalue = std::is_same_v<decltype(obake::monomial_range_overflow_check(std::declval<F_monomial_range_overflow_check &&>(), std::declval<Y &&>(), std::declval<const obake::symbol_set &>())), bool>;
inline constexpr bool monomial_range_overflow_check_throws_rvalue = !noexcept(obake::monomial_range_overflow_check(std::declval<F_monomial_range_overflow_check &&>(), std::declval<Y &&>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool monomial_diff_result_lvalue = std::is_same_v<decltype(obake::monomial_diff(std::declval<const F_monomial_diff &>(), std::declval<const obake::symbol_idx &>(), std::declval<const obake::symbol_set &>())), std::pair<R, F_monomial_diff>>;
inline constexpr bool monomial_diff_throws_lvalue = !noexcept(obake::monomial_diff(std::declval<const F_monomial_diff &>(), std::declval<const obake::symbol_idx &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool monomial_diff_result_rvalue = std::is_same_v<decltype(obake::monomial_diff(std::declval<F_monomial_diff &&>(), std::declval<const obake::symbol_idx &>(), std::declval<const obake::symbol_set &>())), std::pair<R, F_monomial_diff>>;
inline constexpr bool monomial_diff_throws_rvalue = !noexcept(obake::monomial_diff(std::declval<F_monomial_diff &&>(), std::declval<const obake::symbol_idx &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool monomial_integrate_result_lvalue = std::is_same_v<decltype(obake::monomial_integrate(std::declval<const F_monomial_integrate &>(), std::declval<const obake::symbol_idx &>(), std::declval<const obake::symbol_set &>())), std::pair<R, F_monomial_integrate>>;
inline constexpr bool monomial_integrate_throws_lvalue = !noexcept(obake::monomial_integrate(std::declval<const F_monomial_integrate &>(), std::declval<const obake::symbol_idx &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool monomial_integrate_result_rvalue = std::is_same_v<decltype(obake::monomial_integrate(std::declval<F_monomial_integrate &&>(), std::declval<const obake::symbol_idx &>(), std::declval<const obake::symbol_set &>())), std::pair<R, F_monomial_integrate>>;
inline constexpr bool monomial_integrate_throws_rvalue = !noexcept(obake::monomial_integrate(std::declval<F_monomial_integrate &&>(), std::declval<const obake::symbol_idx &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool monomial_subs_result_lvalue = std::is_same_v<decltype(obake::monomial_subs(std::declval<const F_monomial_subs &>(), std::declval<const obake::symbol_idx_map<Y> &>(), std::declval<const obake::symbol_set &>())), std::pair<R, F_monomial_subs>>;
inline constexpr bool monomial_subs_throws_lvalue = !noexcept(obake::monomial_subs(std::declval<const F_monomial_subs &>(), std::declval<const obake::symbol_idx_map<Y> &>(), std::declval<const obake::symbol_set &>()));
inline constexpr bool monomial_subs_result_rvalue = std::is_same_v<decltype(obake::monomial_subs(std::declval<F_monomial_subs &&>(), std::declval<const obake::symbol_idx_map<Y> &>(), std::declval<const obake::symbol_set &>())), std::pair<R, F_monomial_subs>>;
inline constexpr bool monomial_subs_throws_rvalue = !noexcept(obake::monomial_subs(std::declval<F_monomial_subs &&>(), std::declval<const obake::symbol_idx_map<Y> &>(), std::declval<const obake::symbol_set &>()));
}
namespace hxw
{
using namespace hxc;
inline constexpr bool negate_D_result_lvalue = std::is_same_v<decltype(obake::negate(std::declval<D &>())), D &>;
inline constexpr bool negate_D_result_rvalue = std::is_same_v<decltype(obake::negate(std::declval<D>())), D &&>;
inline constexpr bool negate_D_throws = !noexcept(obake::negate(std::declval<D &>()));
inline constexpr bool hash_D_throws = !noexcept(obake::hash(std::declval<const D &>()));
inline constexpr bool is_zero_D_throws = !noexcept(obake::is_zero(std::declval<const D &>()));
inline constexpr bool cf_stream_insert_D_throws = !noexcept(obake::cf_stream_insert(std::declval<std::ostream &>(), std::declval<const D &>()));
inline constexpr bool tex_stream_insert_D_throws = !noexcept(obake::tex_stream_insert(std::declval<std::ostream &>(), std::declval<const D &>()));
inline constexpr bool cf_tex_stream_insert_D_throws = !noexcept(obake::cf_tex_stream_insert(std::declval<std::ostream &>(), std::declval<const D &>()));
}
namespace hxw
{
struct W { W(const W &); W &operator=(const W &); };
int byte_size(const W &);
int hash(const W &);
int trim(const W &);
int key_trim(const W &, const obake::symbol_idx_set &, const obake::symbol_set &);
int key_merge_symbols(const W &, const obake::symbol_idx_map<obake::symbol_set> &, const obake::symbol_set &);
int monomial_pow(const W &, int, const obake::symbol_set &);
int monomial_diff(const W &, const obake::symbol_idx &, const obake::symbol_set &);
std::pair<int, int> monomial_integrate(const W &, const obake::symbol_idx &, const obake::symbol_set &);
std::pair<int, int> monomial_subs(const W &, const obake::symbol_idx_map<int> &, const obake::symbol_set &);
inline constexpr bool byte_size_wrong_result = obake::is_size_measurable_v<const W &> == false;
inline constexpr bool hash_wrong_result = obake::is_hashable_v<const W &> == false;
inline constexpr bool trim_wrong_result = obake::is_trimmable_v<const W &> == false;
inline constexpr bool key_trim_wrong_result = obake::is_trimmable_key_v<const W &> == false;
inline constexpr bool key_merge_symbols_wrong_result = obake::is_symbols_mergeable_key_v<const W &> == false;
inline constexpr bool monomial_pow_wrong_result = obake::is_exponentiable_monomial_v<const W &, int> == false;
inline constexpr bool monomial_diff_wrong_result = obake::is_differentiable_monomial_v<const W &> == false;
inline constexpr bool monomial_integrate_wrong_result = obake::is_integrable_monomial_v<const W &> == false;
inline constexpr bool monomial_subs_wrong_result = obake::is_substitutable_monomial_v<const W &, int> == false;
}
