// Type-level witnesses: archetypes that satisfy every clause of a requirement but one.
#include <cstddef>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <ostream>
#include <set>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include <obake/config.hpp>
#include <obake/detail/fcast.hpp>
#include <obake/detail/limits.hpp>
#include <obake/polynomials/monomial_homomorphic_hash.hpp>
#include <obake/ranges.hpp>
#include <obake/s11n.hpp>
#include <obake/type_traits.hpp>

using i128 = __int128_t;
using u128 = __uint128_t;

// Trait and concept against the required answer.
#define W1(id, trait, concept_, T, v)                                                                                      \
    inline constexpr bool id = (obake::trait<T>) == (v);                                                                   \
    inline constexpr bool id##_concept = (obake::concept_<T>) == (v);
#define W2(id, trait, concept_, T, U, v)                                                                                   \
    inline constexpr bool id = (obake::trait<T, U>) == (v);                                                                \
    inline constexpr bool id##_concept = (obake::concept_<T, U>) == (v);
#define WV(id, expr) inline constexpr bool id = (expr);

namespace hxw
{

// --- fundamental classification -------------------------------------------------------------------------------------
#define CLASSIFY(nm, T, isint, isfp, issig)                                                                                \
    W1(integral_##nm, is_integral_v, integral, T, isint)                                                                   \
    W1(arithmetic_##nm, is_arithmetic_v, Arithmetic, T, (isint) || (isfp))                                                 \
    W1(signed_##nm, is_signed_v, Signed, T, issig)                                                                         \
    WV(floating_##nm, obake::FloatingPoint<T> == (isfp))
#define CLASSIFY4(nm, T, i, f, s)                                                                                          \
    CLASSIFY(nm, T, i, f, s)                                                                                               \
    CLASSIFY(c_##nm, const T, i, f, s)                                                                                     \
    CLASSIFY(v_##nm, volatile T, i, f, s)                                                                                  \
    CLASSIFY(cv_##nm, const volatile T, i, f, s)                                                                           \
    CLASSIFY(ref_##nm, T &, false, false, false)                                                                           \
    CLASSIFY(cref_##nm, const T &, false, false, false)                                                                    \
    CLASSIFY(rref_##nm, T &&, false, false, false)                                                                         \
    CLASSIFY(ptr_##nm, T *, false, false, false)
CLASSIFY4(bool, bool, true, false, false)
CLASSIFY4(char, char, true, false, std::is_signed_v<char>)
CLASSIFY4(schar, signed char, true, false, true)
CLASSIFY4(uchar, unsigned char, true, false, false)
CLASSIFY4(wchar, wchar_t, true, false, std::is_signed_v<wchar_t>)
CLASSIFY4(char16, char16_t, true, false, false)
CLASSIFY4(char32, char32_t, true, false, false)
CLASSIFY4(short, short, true, false, true)
CLASSIFY4(ushort, unsigned short, true, false, false)
CLASSIFY4(int, int, true, false, true)
CLASSIFY4(uint, unsigned, true, false, false)
CLASSIFY4(long, long, true, false, true)
CLASSIFY4(ulong, unsigned long, true, false, false)
CLASSIFY4(llong, long long, true, false, true)
CLASSIFY4(ullong, unsigned long long, true, false, false)
CLASSIFY4(int128, i128, true, false, true)
CLASSIFY4(uint128, u128, true, false, false)
CLASSIFY4(float, float, false, true, true)
CLASSIFY4(double, double, false, true, true)
CLASSIFY4(ldouble, long double, false, true, true)
enum class en { a };
CLASSIFY(enum, en, false, false, false)
CLASSIFY(string, std::string, false, false, false)
CLASSIFY(void, void, false, false, false)
CLASSIFY(nullptr, std::nullptr_t, false, false, false)

// --- unsigned counterparts ------------------------------------------------------------------------------------------
#define MU(nm, T, U)                                                                                                       \
    WV(unsigned_##nm, (std::is_same_v<obake::make_unsigned_t<T>, U>))                                                      \
    WV(unsigned_c_##nm, (std::is_same_v<obake::make_unsigned_t<const T>, const U>))                                        \
    WV(unsigned_v_##nm, (std::is_same_v<obake::make_unsigned_t<volatile T>, volatile U>))                                  \
    WV(unsigned_cv_##nm, (std::is_same_v<obake::make_unsigned_t<const volatile T>, const volatile U>))
MU(schar, signed char, unsigned char)
MU(char, char, unsigned char)
MU(uchar, unsigned char, unsigned char)
MU(short, short, unsigned short)
MU(int, int, unsigned)
MU(uint, unsigned, unsigned)
MU(long, long, unsigned long)
MU(llong, long long, unsigned long long)
MU(ullong, unsigned long long, unsigned long long)
MU(int128, i128, u128)
MU(uint128, u128, u128)

// --- limits -----------------------------------------------------------------------------------------------------------
#define LIM(nm, T)                                                                                                         \
    WV(limits_max_##nm, obake::detail::limits_max<T> == std::numeric_limits<T>::max())                                     \
    WV(limits_min_##nm, obake::detail::limits_min<T> == std::numeric_limits<T>::min())                                     \
    WV(limits_digits_##nm, obake::detail::limits_digits<T> == std::numeric_limits<T>::digits)                              \
    WV(limits_digits10_##nm, obake::detail::limits_digits10<T> == std::numeric_limits<T>::digits10)                        \
    WV(limits_type_##nm, (std::is_same_v<std::remove_cv_t<decltype(obake::detail::limits_max<T>)>, T>                      \
                          && std::is_same_v<std::remove_cv_t<decltype(obake::detail::limits_min<T>)>, T>))
LIM(bool, bool)
LIM(char, char)
LIM(schar, signed char)
LIM(uchar, unsigned char)
LIM(short, short)
LIM(ushort, unsigned short)
LIM(int, int)
LIM(uint, unsigned)
LIM(long, long)
LIM(ulong, unsigned long)
LIM(llong, long long)
LIM(ullong, unsigned long long)
WV(limits_max_int128, obake::detail::limits_max<i128> == i128(~u128(0) >> 1) && obake::detail::limits_max<i128> > 0)
WV(limits_min_int128, obake::detail::limits_min<i128> == -i128(~u128(0) >> 1) - 1 && obake::detail::limits_min<i128> < 0)
WV(limits_max_uint128, obake::detail::limits_max<u128> == ~u128(0))
WV(limits_min_uint128, obake::detail::limits_min<u128> == u128(0))
WV(limits_digits_int128, obake::detail::limits_digits<i128> == 127)
WV(limits_digits_uint128, obake::detail::limits_digits<u128> == 128)
WV(limits_digits10_int128, obake::detail::limits_digits10<i128> == 38)
WV(limits_digits10_uint128, obake::detail::limits_digits10<u128> == 38)
WV(limits_type_int128, (std::is_same_v<std::remove_cv_t<decltype(obake::detail::limits_max<i128>)>, i128>
                        && std::is_same_v<std::remove_cv_t<decltype(obake::detail::limits_min<i128>)>, i128>
                        && std::is_same_v<std::remove_cv_t<decltype(obake::detail::limits_min<u128>)>, u128>
                        && std::is_same_v<std::remove_cv_t<decltype(obake::detail::limits_max<u128>)>, u128>))

// --- qualifiers -------------------------------------------------------------------------------------------------------
WV(cvref_plain, (std::is_same_v<obake::remove_cvref_t<const volatile int &>, int> && std::is_same_v<obake::remove_cvref_t<int &&>, int>
                 && std::is_same_v<obake::remove_cvref_t<const int>, int> && std::is_same_v<obake::remove_cvref_t<const int *&>, const int *>))
W2(same_cvr_1, is_same_cvr_v, SameCvr, int, const int &, true)
W2(same_cvr_2, is_same_cvr_v, SameCvr, volatile int &&, int &, true)
W2(same_cvr_3, is_same_cvr_v, SameCvr, int, long, false)
W2(same_cvr_4, is_same_cvr_v, SameCvr, const int *, int *, false)
W2(same_cvr_5, is_same_cvr_v, SameCvr, void, const void, true)
W1(mrr_1, is_mutable_rvalue_reference_v, MutableRvalueReference, int &&, true)
W1(mrr_2, is_mutable_rvalue_reference_v, MutableRvalueReference, const int &&, false)
W1(mrr_3, is_mutable_rvalue_reference_v, MutableRvalueReference, int &, false)
W1(mrr_4, is_mutable_rvalue_reference_v, MutableRvalueReference, int, false)
W1(mrr_5, is_mutable_rvalue_reference_v, MutableRvalueReference, const int &, false)
W1(mrr_6, is_mutable_rvalue_reference_v, MutableRvalueReference, volatile int &&, true)
W1(mrr_7, is_mutable_rvalue_reference_v, MutableRvalueReference, void, false)
// Forwarding casts: a mutable rvalue stays one, everything else becomes a reference to const.
template <typename T>
using fc = decltype(obake::detail::fcast(std::declval<T>()));
WV(fcast_rvalue, (std::is_same_v<fc<std::string &&>, std::string &&>))
WV(fcast_lvalue, (std::is_same_v<fc<std::string &>, const std::string &>))
WV(fcast_clvalue, (std::is_same_v<fc<const std::string &>, const std::string &>))
WV(fcast_crvalue, (std::is_same_v<fc<const std::string &&>, const std::string &>))

// --- strings ----------------------------------------------------------------------------------------------------------
W1(string_1, is_string_like_v, string_like, std::string, true)
W1(string_2, is_string_like_v, string_like, const std::string, true)
W1(string_3, is_string_like_v, string_like, std::string &, false)
W1(string_4, is_string_like_v, string_like, const char *, true)
W1(string_5, is_string_like_v, string_like, char *, true)
W1(string_6, is_string_like_v, string_like, char[4], true)
W1(string_7, is_string_like_v, string_like, const char[4], true)
W1(string_8, is_string_like_v, string_like, std::string_view, true)
W1(string_9, is_string_like_v, string_like, const std::string_view, true)
W1(string_10, is_string_like_v, string_like, std::wstring, false)
W1(string_11, is_string_like_v, string_like, wchar_t *, false)
W1(string_12, is_string_like_v, string_like, char, false)
W1(string_13, is_string_like_v, string_like, unsigned char *, false)
W1(string_14, is_string_like_v, string_like, char **, false)
W1(string_15, is_string_like_v, string_like, const char *&, false)
W1(string_16, is_string_like_v, string_like, void, false)
W1(string_18, is_string_like_v, string_like, int[3], false)
W1(string_19, is_string_like_v, string_like, const int[3], false)
W1(string_20, is_string_like_v, string_like, wchar_t[3], false)
W1(string_21, is_string_like_v, string_like, char[2][3], false)
W1(string_22, is_string_like_v, string_like, unsigned char[3], false)
W1(string_23, is_string_like_v, string_like, char[], true)
W1(string_24, is_string_like_v, string_like, const char[], true)
W1(string_25, is_string_like_v, string_like, char (&)[3], false)
W1(string_26, is_string_like_v, string_like, volatile char *, true)
W1(string_27, is_string_like_v, string_like, char8_t *, false)
W1(string_28, is_string_like_v, string_like, void *, false)
W1(string_29, is_string_like_v, string_like, char *[2], false)
W1(string_17, is_string_like_v, string_like, const char *const, true)

// --- object requirements ----------------------------------------------------------------------------------------------
struct sr_ok {
};
struct sr_nodef {
    explicit sr_nodef(int);
};
struct sr_nocopy {
    sr_nocopy() = default;
    sr_nocopy(const sr_nocopy &) = delete;
    sr_nocopy(sr_nocopy &&) = default;
    sr_nocopy &operator=(const sr_nocopy &) = default;
    sr_nocopy &operator=(sr_nocopy &&) = default;
};
struct sr_nomove {
    sr_nomove() = default;
    sr_nomove(const sr_nomove &) = default;
    sr_nomove(sr_nomove &&) = delete;
    sr_nomove &operator=(const sr_nomove &) = default;
    sr_nomove &operator=(sr_nomove &&) = default;
};
struct sr_nocassign {
    sr_nocassign() = default;
    sr_nocassign(const sr_nocassign &) = default;
    sr_nocassign(sr_nocassign &&) = default;
    sr_nocassign &operator=(const sr_nocassign &) = delete;
    sr_nocassign &operator=(sr_nocassign &&) = default;
};
struct sr_nomassign {
    sr_nomassign() = default;
    sr_nomassign(const sr_nomassign &) = default;
    sr_nomassign(sr_nomassign &&) = default;
    sr_nomassign &operator=(const sr_nomassign &) = default;
    sr_nomassign &operator=(sr_nomassign &&) = delete;
};
struct sr_nodtor {
    sr_nodtor() = default;
    sr_nodtor(const sr_nodtor &) = default;
    sr_nodtor(sr_nodtor &&) = default;
    sr_nodtor &operator=(const sr_nodtor &) = default;
    sr_nodtor &operator=(sr_nodtor &&) = default;
    ~sr_nodtor() = delete;
};
struct sr_noswap {
};
void swap(sr_noswap &, sr_noswap &) = delete;
// Deleted moves, with everything else (swapping included) available.
namespace srx
{
struct nomc {
    nomc();
    nomc(const nomc &);
    nomc(nomc &&) = delete;
    nomc &operator=(const nomc &);
    nomc &operator=(nomc &&);
};
void swap(nomc &, nomc &);
struct noma {
    noma();
    noma(const noma &);
    noma(noma &&);
    noma &operator=(const noma &);
    noma &operator=(noma &&) = delete;
};
void swap(noma &, noma &);
} // namespace srx
W1(semi_regular_del_mc, is_semi_regular_v, SemiRegular, srx::nomc, false)
W1(semi_regular_del_ma, is_semi_regular_v, SemiRegular, srx::noma, false)
W1(semi_regular_arr, is_semi_regular_v, SemiRegular, int[3], false)
W1(semi_regular_func, is_semi_regular_v, SemiRegular, void(), false)
W1(semi_regular_ptr, is_semi_regular_v, SemiRegular, int *, true)
W1(semi_regular_ok, is_semi_regular_v, SemiRegular, sr_ok, true)
W1(semi_regular_int, is_semi_regular_v, SemiRegular, int, true)
W1(semi_regular_string, is_semi_regular_v, SemiRegular, std::string, true)
W1(semi_regular_nodef, is_semi_regular_v, SemiRegular, sr_nodef, false)
W1(semi_regular_nocopy, is_semi_regular_v, SemiRegular, sr_nocopy, false)
W1(semi_regular_nomove, is_semi_regular_v, SemiRegular, sr_nomove, false)
W1(semi_regular_nocassign, is_semi_regular_v, SemiRegular, sr_nocassign, false)
W1(semi_regular_nomassign, is_semi_regular_v, SemiRegular, sr_nomassign, false)
W1(semi_regular_nodtor, is_semi_regular_v, SemiRegular, sr_nodtor, false)
W1(semi_regular_noswap, is_semi_regular_v, SemiRegular, sr_noswap, false)
W1(semi_regular_ref, is_semi_regular_v, SemiRegular, int &, false)
W1(semi_regular_const, is_semi_regular_v, SemiRegular, const int, false)
W1(semi_regular_void, is_semi_regular_v, SemiRegular, void, false)
struct ret_none {
    ret_none() = default;
    ret_none(const ret_none &) = delete;
    ret_none(ret_none &&) = delete;
};
W1(returnable_void, is_returnable_v, Returnable, void, true)
W1(returnable_cvoid, is_returnable_v, Returnable, const void, true)
W1(returnable_int, is_returnable_v, Returnable, int, true)
W1(returnable_ref, is_returnable_v, Returnable, int &, true)
W1(returnable_move_only, is_returnable_v, Returnable, sr_nocopy, true)
W1(returnable_none, is_returnable_v, Returnable, ret_none, false)
W1(returnable_copy_only, is_returnable_v, Returnable, sr_nomove, true)
WV(constructible_1, (obake::Constructible<std::string, const char *> && !obake::Constructible<std::string, ret_none>
                     && obake::Constructible<int> && !obake::Constructible<sr_nodef> && obake::Constructible<sr_nodef, int>
                     && !obake::Constructible<sr_nodtor>))

// --- detection --------------------------------------------------------------------------------------------------------
template <typename T>
using has_vt = typename T::value_type;
WV(detect_yes, (obake::is_detected_v<has_vt, std::string> && std::is_same_v<obake::detected_t<has_vt, std::string>, char>))
WV(detect_no, (!obake::is_detected_v<has_vt, int> && !std::is_same_v<obake::detected_t<has_vt, int>, void>
               && !obake::is_detected<has_vt, void>::value))

// --- binary operators -------------------------------------------------------------------------------------------------
#define BIN(nm, op, trait, concept_, itrait, iconcept)                                                                     \
    namespace b_##nm                                                                                                       \
    {                                                                                                                      \
    struct a {};                                                                                                           \
    struct b {};                                                                                                           \
    struct c {};                                                                                                           \
    struct d {};                                                                                                           \
    struct e {};                                                                                                           \
    /* a op a; a op b, b op a with one type; a op c only forward; d op a only backward; a op e, e op a with two types */    \
    a operator op(const a &, const a &);                                                                                   \
    a operator op(const a &, const b &);                                                                                   \
    a operator op(const b &, const a &);                                                                                   \
    a operator op(const a &, const c &);                                                                                   \
    a operator op(const d &, const a &);                                                                                   \
    a operator op(const a &, const e &);                                                                                   \
    e operator op(const e &, const a &);                                                                                   \
    struct lv {};                                                                                                          \
    lv operator op(lv &, lv &);                                                                                            \
    struct il {};                                                                                                          \
    il &operator op##=(il &, const a &);                                                                                   \
    struct ir {};                                                                                                          \
    ir &operator op##=(ir &&, const a &);                                                                                  \
    struct im {};                                                                                                          \
    im &operator op##=(im &, a &);                                                                                         \
    /* operands which tell lvalues from rvalues */                                                                         \
    struct p {};                                                                                                           \
    a operator op(p &&, const a &);                                                                                        \
    a operator op(const a &, p &&);                                                                                        \
    struct q1 {};                                                                                                          \
    a operator op(q1 &&, const a &);                                                                                       \
    b operator op(q1 &, const a &);                                                                                        \
    a operator op(const a &, q1 &&);                                                                                       \
    a operator op(const a &, q1 &);                                                                                        \
    struct q2 {};                                                                                                          \
    a operator op(q2 &&, const a &);                                                                                       \
    a operator op(q2 &, const a &);                                                                                        \
    a operator op(const a &, q2 &&);                                                                                       \
    b operator op(const a &, q2 &);                                                                                        \
    struct q3 {};                                                                                                          \
    a operator op(q3 &, const a &);                                                                                        \
    a operator op(const a &, q3 &&);                                                                                       \
    struct q4 {};                                                                                                          \
    a operator op(q4 &&, const a &);                                                                                       \
    a operator op(const a &, q4 &);                                                                                        \
    il &operator op##=(il &, p &&);                                                                                        \
    }                                                                                                                      \
    W2(nm##_same, trait, concept_, b_##nm::a, b_##nm::a, true)                                                             \
    WV(nm##_default, obake::trait<b_##nm::a> && obake::concept_<b_##nm::a>)                                                \
    W2(nm##_both, trait, concept_, b_##nm::a, b_##nm::b, true)                                                             \
    W2(nm##_both_ref, trait, concept_, const b_##nm::a &, b_##nm::b &&, true)                                              \
    W2(nm##_forward_only, trait, concept_, b_##nm::a, b_##nm::c, false)                                                    \
    W2(nm##_forward_only_swapped, trait, concept_, b_##nm::c, b_##nm::a, false)                                            \
    W2(nm##_backward_only, trait, concept_, b_##nm::a, b_##nm::d, false)                                                   \
    W2(nm##_two_types, trait, concept_, b_##nm::a, b_##nm::e, false)                                                       \
    W2(nm##_two_types_swapped, trait, concept_, b_##nm::e, b_##nm::a, false)                                               \
    W2(nm##_none, trait, concept_, b_##nm::b, b_##nm::c, false)                                                            \
    W2(nm##_void, trait, concept_, void, void, false)                                                                      \
    W2(nm##_lvalue, trait, concept_, b_##nm::lv &, b_##nm::lv &, true)                                                     \
    W2(nm##_rvalue, trait, concept_, b_##nm::lv, b_##nm::lv, false)                                                        \
    W2(nm##_clvalue, trait, concept_, const b_##nm::lv &, b_##nm::lv &, false)                                             \
    W2(nm##_moved, trait, concept_, b_##nm::p, b_##nm::a, true)                                                            \
    W2(nm##_moved_swapped, trait, concept_, b_##nm::a, b_##nm::p, true)                                                    \
    W2(nm##_moved_l, trait, concept_, b_##nm::p &, b_##nm::a, false)                                                       \
    W2(nm##_moved_swapped_l, trait, concept_, b_##nm::a, b_##nm::p &, false)                                               \
    W2(nm##_q1, trait, concept_, b_##nm::q1, b_##nm::a, true)                                                              \
    W2(nm##_q1_swapped, trait, concept_, b_##nm::a, b_##nm::q1, true)                                                      \
    W2(nm##_q1_l, trait, concept_, b_##nm::q1 &, b_##nm::a, false)                                                         \
    W2(nm##_q1_swapped_l, trait, concept_, b_##nm::a, b_##nm::q1 &, false)                                                 \
    W2(nm##_q2, trait, concept_, b_##nm::q2, b_##nm::a, true)                                                              \
    W2(nm##_q2_swapped, trait, concept_, b_##nm::a, b_##nm::q2, true)                                                      \
    W2(nm##_q2_l, trait, concept_, b_##nm::q2 &, b_##nm::a, false)                                                         \
    W2(nm##_q2_swapped_l, trait, concept_, b_##nm::a, b_##nm::q2 &, false)                                                 \
    W2(nm##_q3, trait, concept_, b_##nm::q3, b_##nm::a, false)                                                             \
    W2(nm##_q3_swapped, trait, concept_, b_##nm::a, b_##nm::q3, false)                                                     \
    W2(nm##_q4, trait, concept_, b_##nm::q4, b_##nm::a, false)                                                             \
    W2(nm##_q4_swapped, trait, concept_, b_##nm::a, b_##nm::q4, false)                                                     \
    W2(nm##_q3_l, trait, concept_, b_##nm::q3 &, b_##nm::a, false)                                                         \
    W2(nm##_q3_swapped_l, trait, concept_, b_##nm::a, b_##nm::q3 &, false)                                                 \
    W2(nm##_q4_l, trait, concept_, b_##nm::q4 &, b_##nm::a, false)                                                         \
    W2(nm##_q4_swapped_l, trait, concept_, b_##nm::a, b_##nm::q4 &, false)                                                 \
    W2(nm##_in_place_moved, itrait, iconcept, b_##nm::il &, b_##nm::p, true)                                               \
    W2(nm##_in_place_moved_l, itrait, iconcept, b_##nm::il &, b_##nm::p &, false)                                          \
    W2(nm##_in_place_mutable_r, itrait, iconcept, b_##nm::im &, b_##nm::a, false)                                          \
    W2(nm##_in_place, itrait, iconcept, b_##nm::il &, const b_##nm::a &, true)                                             \
    W2(nm##_in_place_const, itrait, iconcept, const b_##nm::il &, const b_##nm::a &, false)                                \
    W2(nm##_in_place_rvalue, itrait, iconcept, b_##nm::il, const b_##nm::a &, false)                                       \
    W2(nm##_in_place_rvalue_only, itrait, iconcept, b_##nm::ir, const b_##nm::a &, true)                                   \
    W2(nm##_in_place_rvalue_only_l, itrait, iconcept, b_##nm::ir &, const b_##nm::a &, false)                              \
    W2(nm##_in_place_mutable, itrait, iconcept, b_##nm::im &, b_##nm::a &, true)                                           \
    W2(nm##_in_place_mutable_c, itrait, iconcept, b_##nm::im &, const b_##nm::a &, false)                                  \
    W2(nm##_in_place_other, itrait, iconcept, b_##nm::il &, b_##nm::b, false)                                              \
    W2(nm##_in_place_swapped, itrait, iconcept, b_##nm::a &, b_##nm::il, false)                                            \
    W2(nm##_in_place_void, itrait, iconcept, void, void, false)
BIN(add, +, is_addable_v, Addable, is_in_place_addable_v, InPlaceAddable)
BIN(sub, -, is_subtractable_v, Subtractable, is_in_place_subtractable_v, InPlaceSubtractable)
BIN(mul, *, is_multipliable_v, Multipliable, is_in_place_multipliable_v, InPlaceMultipliable)
BIN(div, /, is_divisible_v, Divisible, is_in_place_divisible_v, InPlaceDivisible)

// --- increments -------------------------------------------------------------------------------------------------------
#define INC(nm, pre, post, trait, concept_, ptrait, pconcept)                                                              \
    namespace n_##nm                                                                                                       \
    {                                                                                                                      \
    struct a {                                                                                                             \
        a &pre;                                                                                                            \
    };                                                                                                                     \
    struct b {                                                                                                             \
        b post;                                                                                                            \
    };                                                                                                                     \
    struct l {                                                                                                             \
        l &pre &;                                                                                                          \
        l post &;                                                                                                          \
    };                                                                                                                     \
    struct m {                                                                                                             \
        m &pre &&;                                                                                                         \
        m post &&;                                                                                                         \
    };                                                                                                                     \
    }                                                                                                                      \
    W1(pre_##nm##_pre, trait, concept_, n_##nm::a &, true)                                                                 \
    W1(pre_##nm##_post, trait, concept_, n_##nm::b &, false)                                                               \
    W1(pre_##nm##_const, trait, concept_, const n_##nm::a &, false)                                                        \
    W1(pre_##nm##_rvalue, trait, concept_, n_##nm::l, false)                                                               \
    W1(pre_##nm##_lvalue, trait, concept_, n_##nm::l &, true)                                                              \
    W1(pre_##nm##_void, trait, concept_, void, false)                                                                      \
    W1(pre_##nm##_moved, trait, concept_, n_##nm::m, true)                                                                 \
    W1(pre_##nm##_moved_l, trait, concept_, n_##nm::m &, false)                                                            \
    W1(post_##nm##_moved, ptrait, pconcept, n_##nm::m, true)                                                               \
    W1(post_##nm##_moved_l, ptrait, pconcept, n_##nm::m &, false)                                                          \
    W1(post_##nm##_pre, ptrait, pconcept, n_##nm::a &, false)                                                              \
    W1(post_##nm##_post, ptrait, pconcept, n_##nm::b &, true)                                                              \
    W1(post_##nm##_const, ptrait, pconcept, const n_##nm::b &, false)                                                      \
    W1(post_##nm##_rvalue, ptrait, pconcept, n_##nm::l, false)                                                             \
    W1(post_##nm##_lvalue, ptrait, pconcept, n_##nm::l &, true)                                                            \
    W1(post_##nm##_void, ptrait, pconcept, void, false)
INC(inc, operator++(), operator++(int), is_pre_incrementable_v, PreIncrementable, is_post_incrementable_v, PostIncrementable)
INC(dec, operator--(), operator--(int), is_pre_decrementable_v, PreDecrementable, is_post_decrementable_v, PostDecrementable)

// --- comparisons ------------------------------------------------------------------------------------------------------
struct nb {
};
// Only the operators given, in both directions; results convertible to bool or not.
#define CMP(nm, op, trait, concept_)                                                                                       \
    namespace c_##nm                                                                                                       \
    {                                                                                                                      \
    struct a {};                                                                                                           \
    struct b {};                                                                                                           \
    struct c {};                                                                                                           \
    struct d {};                                                                                                           \
    struct e {};                                                                                                           \
    struct f {};                                                                                                           \
    bool operator op(const a &, const a &);                                                                                \
    int operator op(const a &, const b &);                                                                                 \
    bool operator op(const b &, const a &);                                                                                \
    bool operator op(const a &, const c &);                                                                                \
    bool operator op(const d &, const a &);                                                                                \
    nb operator op(const a &, const e &);                                                                                  \
    bool operator op(const e &, const a &);                                                                                \
    bool operator op(f &, f &);                                                                                            \
    struct p1 {};                                                                                                          \
    nb operator op(p1 &&, const a &);                                                                                      \
    bool operator op(p1 &, const a &);                                                                                     \
    bool operator op(const a &, p1 &&);                                                                                    \
    bool operator op(const a &, p1 &);                                                                                     \
    struct p2 {};                                                                                                          \
    bool operator op(p2 &&, const a &);                                                                                    \
    bool operator op(p2 &, const a &);                                                                                     \
    nb operator op(const a &, p2 &&);                                                                                      \
    bool operator op(const a &, p2 &);                                                                                     \
    struct p3 {};                                                                                                          \
    bool operator op(p3 &&, const a &);                                                                                    \
    nb operator op(p3 &, const a &);                                                                                       \
    bool operator op(const a &, p3 &&);                                                                                    \
    nb operator op(const a &, p3 &);                                                                                       \
    }                                                                                                                      \
    W2(nm##_same, trait, concept_, c_##nm::a, c_##nm::a, true)                                                             \
    WV(nm##_default, obake::trait<c_##nm::a> && obake::concept_<c_##nm::a>)                                                \
    W2(nm##_both, trait, concept_, c_##nm::a, c_##nm::b, true)                                                             \
    W2(nm##_forward_only, trait, concept_, c_##nm::a, c_##nm::c, false)                                                    \
    W2(nm##_backward_only, trait, concept_, c_##nm::a, c_##nm::d, false)                                                   \
    W2(nm##_not_bool, trait, concept_, c_##nm::a, c_##nm::e, false)                                                        \
    W2(nm##_not_bool_swapped, trait, concept_, c_##nm::e, c_##nm::a, false)                                                \
    W2(nm##_lvalue, trait, concept_, c_##nm::f &, c_##nm::f &, true)                                                       \
    W2(nm##_rvalue, trait, concept_, c_##nm::f, c_##nm::f, false)                                                          \
    W2(nm##_p1, trait, concept_, c_##nm::p1, c_##nm::a, false)                                                             \
    W2(nm##_p1_swapped, trait, concept_, c_##nm::a, c_##nm::p1, false)                                                     \
    W2(nm##_p1_l, trait, concept_, c_##nm::p1 &, c_##nm::a, true)                                                          \
    W2(nm##_p1_swapped_l, trait, concept_, c_##nm::a, c_##nm::p1 &, true)                                                  \
    W2(nm##_p2, trait, concept_, c_##nm::p2, c_##nm::a, false)                                                             \
    W2(nm##_p2_swapped, trait, concept_, c_##nm::a, c_##nm::p2, false)                                                     \
    W2(nm##_p2_l, trait, concept_, c_##nm::p2 &, c_##nm::a, true)                                                          \
    W2(nm##_p2_swapped_l, trait, concept_, c_##nm::a, c_##nm::p2 &, true)                                                  \
    W2(nm##_p3, trait, concept_, c_##nm::p3, c_##nm::a, true)                                                              \
    W2(nm##_p3_swapped, trait, concept_, c_##nm::a, c_##nm::p3, true)                                                      \
    W2(nm##_p3_l, trait, concept_, c_##nm::p3 &, c_##nm::a, false)                                                         \
    W2(nm##_p3_swapped_l, trait, concept_, c_##nm::a, c_##nm::p3 &, false)                                                 \
    W2(nm##_void, trait, concept_, void, void, false)
CMP(less, <, is_less_than_comparable_v, LessThanComparable)
CMP(greater, >, is_greater_than_comparable_v, GreaterThanComparable)
CMP(lte, <=, is_lte_comparable_v, LTEComparable)
CMP(gte, >=, is_gte_comparable_v, GTEComparable)
namespace eqs
{
// All four operators between x and y, or all but one.
#define EQ4(n, A, B, C, D)                                                                                                 \
    struct x##n {};                                                                                                        \
    struct y##n {};                                                                                                        \
    A operator==(const x##n &, const y##n &);                                                                              \
    B operator==(const y##n &, const x##n &);                                                                              \
    C operator!=(const x##n &, const y##n &);                                                                              \
    D operator!=(const y##n &, const x##n &);
EQ4(0, bool, bool, bool, bool)
EQ4(1, nb, bool, bool, bool)
EQ4(2, bool, nb, bool, bool)
EQ4(3, bool, bool, nb, bool)
EQ4(4, bool, bool, bool, nb)
EQ4(5, int, char, unsigned, long)
struct none {
};
struct ne_deleted {
};
bool operator==(const ne_deleted &, const ne_deleted &);
bool operator!=(const ne_deleted &, const ne_deleted &) = delete;
struct eq_deleted {
};
bool operator==(const eq_deleted &, const eq_deleted &) = delete;
bool operator!=(const eq_deleted &, const eq_deleted &);
// The same where one of the four answers to lvalues and rvalues differently.
#define EQ8(n, y, A, B, C, D, E, F, G, H)                                                                                  \
    struct n {};                                                                                                           \
    A operator==(n &&, const y &);                                                                                         \
    B operator==(n &, const y &);                                                                                          \
    C operator==(const y &, n &&);                                                                                         \
    D operator==(const y &, n &);                                                                                          \
    E operator!=(n &&, const y &);                                                                                         \
    F operator!=(n &, const y &);                                                                                          \
    G operator!=(const y &, n &&);                                                                                         \
    H operator!=(const y &, n &);
struct yy {
};
EQ8(v0, yy, nb, bool, bool, bool, bool, bool, bool, bool)
EQ8(v1, yy, bool, bool, nb, bool, bool, bool, bool, bool)
EQ8(v2, yy, bool, bool, bool, bool, nb, bool, bool, bool)
EQ8(v3, yy, bool, bool, bool, bool, bool, bool, nb, bool)
EQ8(v4, yy, bool, nb, bool, nb, bool, nb, bool, nb)
} // namespace eqs
W2(equality_v0, is_equality_comparable_v, EqualityComparable, eqs::v0, eqs::yy, false)
W2(equality_v0_swapped, is_equality_comparable_v, EqualityComparable, eqs::yy, eqs::v0, false)
W2(equality_v0_l, is_equality_comparable_v, EqualityComparable, eqs::v0 &, eqs::yy, true)
W2(equality_v0_swapped_l, is_equality_comparable_v, EqualityComparable, eqs::yy, eqs::v0 &, true)
W2(equality_v1, is_equality_comparable_v, EqualityComparable, eqs::v1, eqs::yy, false)
W2(equality_v1_swapped, is_equality_comparable_v, EqualityComparable, eqs::yy, eqs::v1, false)
W2(equality_v1_l, is_equality_comparable_v, EqualityComparable, eqs::v1 &, eqs::yy, true)
W2(equality_v1_swapped_l, is_equality_comparable_v, EqualityComparable, eqs::yy, eqs::v1 &, true)
W2(equality_v2, is_equality_comparable_v, EqualityComparable, eqs::v2, eqs::yy, false)
W2(equality_v2_swapped, is_equality_comparable_v, EqualityComparable, eqs::yy, eqs::v2, false)
W2(equality_v2_l, is_equality_comparable_v, EqualityComparable, eqs::v2 &, eqs::yy, true)
W2(equality_v2_swapped_l, is_equality_comparable_v, EqualityComparable, eqs::yy, eqs::v2 &, true)
W2(equality_v3, is_equality_comparable_v, EqualityComparable, eqs::v3, eqs::yy, false)
W2(equality_v3_swapped, is_equality_comparable_v, EqualityComparable, eqs::yy, eqs::v3, false)
W2(equality_v3_l, is_equality_comparable_v, EqualityComparable, eqs::v3 &, eqs::yy, true)
W2(equality_v3_swapped_l, is_equality_comparable_v, EqualityComparable, eqs::yy, eqs::v3 &, true)
W2(equality_v4, is_equality_comparable_v, EqualityComparable, eqs::v4, eqs::yy, true)
W2(equality_v4_swapped, is_equality_comparable_v, EqualityComparable, eqs::yy, eqs::v4, true)
W2(equality_v4_l, is_equality_comparable_v, EqualityComparable, eqs::v4 &, eqs::yy, false)
W2(equality_v4_swapped_l, is_equality_comparable_v, EqualityComparable, eqs::yy, eqs::v4 &, false)
W2(equality_all, is_equality_comparable_v, EqualityComparable, eqs::x0, eqs::y0, true)
W2(equality_eq, is_equality_comparable_v, EqualityComparable, eqs::x1, eqs::y1, false)
W2(equality_eq_swapped, is_equality_comparable_v, EqualityComparable, eqs::x2, eqs::y2, false)
W2(equality_ne, is_equality_comparable_v, EqualityComparable, eqs::x3, eqs::y3, false)
W2(equality_ne_swapped, is_equality_comparable_v, EqualityComparable, eqs::x4, eqs::y4, false)
W2(equality_convertible, is_equality_comparable_v, EqualityComparable, eqs::x5, eqs::y5, true)
W1(equality_none, is_equality_comparable_v, EqualityComparable, eqs::none, false)
W1(equality_ne_deleted, is_equality_comparable_v, EqualityComparable, eqs::ne_deleted, false)
W1(equality_eq_deleted, is_equality_comparable_v, EqualityComparable, eqs::eq_deleted, false)
W1(equality_void, is_equality_comparable_v, EqualityComparable, void, false)
W2(equality_string, is_equality_comparable_v, EqualityComparable, std::string, const char *, true)

// --- streams ----------------------------------------------------------------------------------------------------------
struct st_ok {
};
std::ostream &operator<<(std::ostream &, const st_ok &);
struct st_void {
};
void operator<<(std::ostream &, const st_void &);
struct st_copy {
};
const std::ostream &operator<<(std::ostream &, const st_copy &);
struct st_mut {
};
std::ostream &operator<<(std::ostream &, st_mut &);
struct st_moved {
};
std::ostream &operator<<(std::ostream &, st_moved &&);
struct st_two {
};
std::ostream &operator<<(std::ostream &, st_two &&);
void operator<<(std::ostream &, st_two &);
struct st_none {
};
W1(stream_moved, is_stream_insertable_v, StreamInsertable, st_moved, true)
W1(stream_two, is_stream_insertable_v, StreamInsertable, st_two, true)
W1(stream_two_l, is_stream_insertable_v, StreamInsertable, st_two &, false)
W1(stream_ok, is_stream_insertable_v, StreamInsertable, const st_ok &, true)
W1(stream_rvalue, is_stream_insertable_v, StreamInsertable, st_ok, true)
W1(stream_void, is_stream_insertable_v, StreamInsertable, const st_void &, false)
W1(stream_other, is_stream_insertable_v, StreamInsertable, const st_copy &, false)
W1(stream_mut, is_stream_insertable_v, StreamInsertable, st_mut &, true)
W1(stream_mut_c, is_stream_insertable_v, StreamInsertable, const st_mut &, false)
W1(stream_none, is_stream_insertable_v, StreamInsertable, st_none, false)
W1(stream_void_type, is_stream_insertable_v, StreamInsertable, void, false)

// --- iterators --------------------------------------------------------------------------------------------------------
// A random-access iterator each of whose clauses can be switched off.
enum clause {
    full,
    no_tag,
    tag_input,
    tag_output,
    tag_forward,
    tag_bidir,
    udiff,
    no_deref,
    deref_value,
    preinc_void,
    no_postinc,
    postinc_void,
    no_eq,
    no_arrow,
    arrow_wrong,
    no_default,
    no_copy,
    no_copy_assign,
    predec_void,
    no_postdec,
    postdec_void,
    no_pluseq,
    pluseq_void,
    no_plus,
    no_rplus,
    no_minuseq,
    no_minus,
    no_diff,
    diff_int,
    no_subscript,
    no_lt,
    no_gt,
    no_le,
    no_ge,
    const_ref,
    no_const_deref,
    no_const_arrow,
    postinc_deref,
    postdec_deref,
    no_reference,
    no_pointer,
    no_value_type,
    no_difference,
    no_category,
    deref_unrelated,
    no_swap,
    diff_void,
    diff_double,
    both_tags,
    const_deref_other,
    mut_deref_other,
    mut_arrow_wrong,
    const_arrow_wrong,
    postinc_noconv,
    postdec_noconv,
    postinc_proxy,
    postdec_proxy,
    postinc_other,
    mut_eq,
    mut_ne,
    mut_plus,
    mut_rplus,
    mut_minus,
    mut_diff,
    mut_subscript,
    mut_lt,
    mut_gt,
    mut_le,
    mut_ge,
    dref_pluseq,
    dref_plus,
    dref_rplus,
    dref_minuseq,
    dref_minus,
    dref_subscript,
    subscript_other,
    lval_incdec
};
struct val {
    int v;
};
struct other {
};
template <clause C, bool On>
struct tr {
};
struct two_tags : std::random_access_iterator_tag, std::output_iterator_tag {
};
template <clause C>
struct it;
template <clause C>
struct it_traits_base {
    using value_type = val;
    using difference_type = std::conditional_t<C == udiff, unsigned long,
                                               std::conditional_t<C == diff_void, void, std::conditional_t<C == diff_double, double, std::ptrdiff_t>>>;
    using pointer = std::conditional_t<C == const_ref, const val *, val *>;
    using reference = std::conditional_t<C == deref_value, val, std::conditional_t<C == const_ref, const val &, std::conditional_t<C == deref_unrelated, other &, val &>>>;
    using iterator_category = std::conditional_t<
        C == tag_input, std::input_iterator_tag,
        std::conditional_t<C == tag_output || C == diff_void, std::output_iterator_tag,
                           std::conditional_t<C == tag_forward, std::forward_iterator_tag,
                                              std::conditional_t<C == tag_bidir, std::bidirectional_iterator_tag,
                                                                 std::conditional_t<C == no_tag, other, std::conditional_t<C == both_tags, two_tags, std::random_access_iterator_tag>>>>>>;
};
template <clause C>
struct pinc {
    // result of the post-increment/decrement
    val &operator*() const;
    operator const it<C> &() const;
};
template <clause C>
struct it : it_traits_base<C> {
    using B = it_traits_base<C>;
    using D = std::ptrdiff_t;
    using R = typename B::reference;
    it() requires(C != no_default);
    explicit it(int, int, int);
    it(const it &) requires(C != no_copy) = default;
    it(it &&) = default;
    it &operator=(const it &) requires(C != no_copy_assign) = default;
    it &operator=(it &&) = default;
    R operator*() requires(C == no_const_deref);
    R operator*() const requires(C != no_deref && C != no_const_deref && C != const_deref_other);
    R operator*() requires(C == const_deref_other);
    const val &operator*() const requires(C == const_deref_other);
    const val &operator*() requires(C == mut_deref_other);
    typename B::pointer operator->() requires(C == no_const_arrow);
    typename B::pointer operator->() const requires(C != no_arrow && C != arrow_wrong && C != no_const_arrow && C != const_arrow_wrong);
    other *operator->() requires(C == mut_arrow_wrong);
    typename B::pointer operator->() requires(C == const_arrow_wrong);
    other *operator->() const requires(C == const_arrow_wrong);
    other *operator->() const requires(C == arrow_wrong);
    it &operator++() requires(C != preinc_void && C != lval_incdec);
    it &operator++() & requires(C == lval_incdec);
    it &operator--() & requires(C == lval_incdec);
    void operator++() requires(C == preinc_void);
    it operator++(int) requires(C != no_postinc && C != postinc_void && C != postinc_deref && C != postinc_noconv && C != postinc_proxy && C != postinc_other);
    void operator++(int) requires(C == postinc_void);
    struct bad {
        val operator*() const;
        operator const it &() const;
    };
    bad operator++(int) requires(C == postinc_deref);
    struct noconv {
        val &operator*() const;
    };
    noconv operator++(int) requires(C == postinc_noconv);
    struct stray {
        other &operator*() const;
        operator const it &() const;
    };
    stray operator++(int) requires(C == postinc_other);
    pinc<C> operator++(int) requires(C == postinc_proxy);
    noconv operator--(int) requires(C == postdec_noconv);
    pinc<C> operator--(int) requires(C == postdec_proxy);
    it &operator--() requires(C != predec_void && C != lval_incdec);
    void operator--() requires(C == predec_void);
    it operator--(int) requires(C != no_postdec && C != postdec_void && C != postdec_deref && C != postdec_noconv && C != postdec_proxy);
    void operator--(int) requires(C == postdec_void);
    bad operator--(int) requires(C == postdec_deref);
    it &operator+=(D) requires(C != no_pluseq && C != pluseq_void && C != dref_pluseq);
    it &operator+=(D &) requires(C == dref_pluseq);
    void operator+=(D) requires(C == pluseq_void);
    it &operator-=(D) requires(C != no_minuseq && C != dref_minuseq);
    it &operator-=(D &) requires(C == dref_minuseq);
    it operator+(D) const requires(C != no_plus && C != mut_plus && C != dref_plus);
    it operator+(D &) const requires(C == dref_plus);
    it operator+(D) requires(C == mut_plus);
    it operator-(D) const requires(C != no_minus && C != mut_minus && C != dref_minus);
    it operator-(D &) const requires(C == dref_minus);
    it operator-(D) requires(C == mut_minus);
    D operator-(const it &) const requires(C != no_diff && C != diff_int && C != mut_diff);
    D operator-(const it &) requires(C == mut_diff);
    int operator-(const it &) const requires(C == diff_int);
    R operator[](D) const requires(C != no_subscript && C != mut_subscript && C != dref_subscript && C != subscript_other);
    R operator[](D) requires(C == mut_subscript);
    R operator[](D &) const requires(C == dref_subscript);
    other &operator[](D) const requires(C == subscript_other);
    friend it operator+(D, const it &) requires(C != no_rplus && C != mut_rplus && C != dref_rplus) { throw 1; }
    friend it operator+(D &, const it &) requires(C == dref_rplus) { throw 1; }
    friend it operator+(D, it &) requires(C == mut_rplus) { throw 1; }
    bool operator==(const it &) const requires(C != no_eq && C != mut_eq);
    friend bool operator==(it &, it &) requires(C == mut_eq) { throw 1; }
    bool operator!=(const it &) const requires(C != no_eq && C != mut_ne);
    friend bool operator!=(const it &, it &) requires(C == mut_ne) { throw 1; }
    friend bool operator!=(it &, const it &) requires(C == mut_ne) { throw 1; }
    friend bool operator!=(const it &, const it &) requires(C == mut_ne) = delete;
    bool operator<(const it &) const requires(C != no_lt && C != mut_lt);
    bool operator>(const it &) const requires(C != no_gt && C != mut_gt);
    bool operator<=(const it &) const requires(C != no_le && C != mut_le);
    bool operator>=(const it &) const requires(C != no_ge && C != mut_ge);
    bool operator<(const it &) requires(C == mut_lt);
    bool operator>(const it &) requires(C == mut_gt);
    bool operator<=(const it &) requires(C == mut_le);
    bool operator>=(const it &) requires(C == mut_ge);
    friend void swap(it &, it &) requires(C == no_swap) = delete;
};
// Levels: 0 none, 1 iterator, 2 input, 3 forward, 4 bidirectional, 5 random access; mutable forward separately.
#define ITL(nm, T, level, mut)                                                                                             \
    W1(iterator_##nm, is_iterator_v, Iterator, T, (level) >= 1)                                                            \
    W1(input_iterator_##nm, is_input_iterator_v, InputIterator, T, (level) >= 2)                                           \
    W1(forward_iterator_##nm, is_forward_iterator_v, ForwardIterator, T, (level) >= 3)                                     \
    W1(mutable_forward_iterator_##nm, is_mutable_forward_iterator_v, MutableForwardIterator, T, (level) >= 3 && (mut))     \
    W1(bidirectional_iterator_##nm, is_bidirectional_iterator_v, BidirectionalIterator, T, (level) >= 4)                   \
    W1(random_access_iterator_##nm, is_random_access_iterator_v, RandomAccessIterator, T, (level) >= 5)
#define IT(c, level, mut) ITL(c, it<c>, level, mut)
IT(full, 5, true)
IT(no_tag, 0, false)
IT(tag_input, 2, false)
IT(tag_output, 1, false)
IT(tag_forward, 3, true)
IT(tag_bidir, 4, true)
IT(udiff, 0, false)
IT(no_deref, 0, false)
IT(deref_value, 2, false)
IT(preinc_void, 0, false)
IT(no_postinc, 1, false)
IT(postinc_void, 1, false)
IT(no_eq, 1, false)
IT(no_arrow, 1, false)
IT(arrow_wrong, 1, false)
IT(no_const_arrow, 1, false)
IT(no_default, 2, false)
IT(no_copy, 0, false)
IT(no_copy_assign, 0, false)
IT(predec_void, 3, true)
IT(no_postdec, 3, true)
IT(postdec_void, 3, true)
IT(postdec_deref, 3, true)
IT(postinc_deref, 2, false)
IT(no_pluseq, 4, true)
IT(pluseq_void, 4, true)
IT(no_plus, 4, true)
IT(no_rplus, 4, true)
IT(no_minuseq, 4, true)
IT(no_minus, 4, true)
IT(no_diff, 4, true)
IT(diff_int, 4, true)
IT(no_subscript, 4, true)
IT(no_lt, 4, true)
IT(no_gt, 4, true)
IT(no_le, 4, true)
IT(no_ge, 4, true)
IT(const_ref, 5, false)
IT(no_const_deref, 1, false)
IT(deref_unrelated, 1, false)
IT(no_swap, 0, false)
IT(diff_void, 1, false)
IT(diff_double, 0, false)
IT(both_tags, 5, true)
IT(const_deref_other, 1, false)
IT(mut_deref_other, 1, false)
IT(mut_arrow_wrong, 1, false)
IT(const_arrow_wrong, 1, false)
IT(postinc_noconv, 2, false)
IT(postdec_noconv, 3, true)
IT(postinc_proxy, 5, true)
IT(postdec_proxy, 5, true)
IT(postinc_other, 1, false)
IT(mut_eq, 1, false)
IT(mut_ne, 1, false)
IT(mut_plus, 4, true)
IT(mut_rplus, 4, true)
IT(mut_minus, 4, true)
IT(mut_diff, 4, true)
IT(mut_subscript, 5, true)
IT(mut_lt, 4, true)
IT(mut_gt, 4, true)
IT(mut_le, 4, true)
IT(mut_ge, 4, true)
IT(dref_pluseq, 4, true)
IT(dref_plus, 4, true)
IT(dref_rplus, 4, true)
IT(dref_minuseq, 4, true)
IT(dref_minus, 4, true)
IT(dref_subscript, 4, true)
IT(subscript_other, 4, true)
IT(lval_incdec, 5, true)
ITL(streambuf, std::istreambuf_iterator<char>, 2, false)
// An enumeration with operators, and classes whose std::iterator_traits lack one member each.
enum class enit { a };
int &operator*(enit);
enit &operator++(enit &);
enit operator++(enit &, int);
template <int Missing>
struct part {
    int &operator*() const;
    part &operator++();
    part operator++(int);
    bool operator==(const part &) const;
};
struct pt_v {
    using value_type = int;
};
struct pt_d {
    using difference_type = std::ptrdiff_t;
};
struct pt_p {
    using pointer = int *;
};
struct pt_r {
    using reference = int &;
};
struct pt_c {
    using iterator_category = std::input_iterator_tag;
};
struct nothing {
};
template <int M, int N, typename T>
using unless = std::conditional_t<M == N, std::integral_constant<int, N>, T>;
ITL(pointer, int *, 5, true)
ITL(cpointer, const int *, 5, false)
ITL(pointer_const, int *const, 0, false)
ITL(void_pointer, void *, 0, false)
ITL(int, int, 0, false)
ITL(void, void, 0, false)
ITL(vector, std::vector<int>::iterator, 5, true)
ITL(vector_c, std::vector<int>::const_iterator, 5, false)
ITL(deque, std::deque<int>::iterator, 5, true)
ITL(list, std::list<int>::iterator, 4, true)
using map_it = std::map<int, int>::iterator;
ITL(map, map_it, 4, true)
ITL(set, std::set<int>::iterator, 4, false)
ITL(flist, std::forward_list<int>::iterator, 3, true)
ITL(flist_c, std::forward_list<int>::const_iterator, 3, false)
ITL(istream, std::istream_iterator<int>, 2, false)
ITL(ostream, std::ostream_iterator<int>, 1, false)
ITL(back_inserter, std::back_insert_iterator<std::vector<int>>, 1, false)
ITL(reverse, std::reverse_iterator<int *>, 5, true)
ITL(iterator_reference, std::vector<int>::iterator &, 0, false)
} // namespace hxw
template <int M>
struct std::iterator_traits<hxw::part<M>> : hxw::unless<M, 1, hxw::pt_v>, hxw::unless<M, 2, hxw::pt_d>, hxw::unless<M, 3, hxw::pt_p>, hxw::unless<M, 4, hxw::pt_r>, hxw::unless<M, 5, hxw::pt_c> {
};
template <>
struct std::iterator_traits<hxw::enit> : hxw::pt_v, hxw::pt_d, hxw::pt_p, hxw::pt_r, hxw::pt_c {
};
namespace hxw
{
ITL(enumeration, enit, 1, false)
ITL(part_all, part<0>, 2, false)
ITL(part_difference, part<2>, 0, false)
ITL(part_pointer, part<3>, 0, false)
ITL(part_reference, part<4>, 0, false)
ITL(part_category, part<5>, 0, false)
struct mv_only {
    mv_only(mv_only &&) = default;
    mv_only &operator=(mv_only &&) = default;
};
// Assignment through the iterator itself, and through the result of the post-increment.
struct sink {
    void operator=(int) const;
    void operator=(mv_only &&) const;
};
template <bool Direct, bool Post>
struct outp {
    using value_type = void;
    using difference_type = void;
    using pointer = void;
    using reference = void;
    using iterator_category = std::output_iterator_tag;
    struct inc {
        std::conditional_t<Post, sink, nothing> operator*() const;
        operator const outp &() const;
    };
    std::conditional_t<Direct, sink, nothing> operator*();
    outp &operator++();
    inc operator++(int);
};
using outp_tt = outp<true, true>;
using outp_tf = outp<true, false>;
using outp_ft = outp<false, true>;
W2(output_1, is_output_iterator_v, OutputIterator, std::back_insert_iterator<std::vector<int>>, int, true)
W2(output_2, is_output_iterator_v, OutputIterator, std::back_insert_iterator<std::vector<int>>, std::string, false)
W2(output_3, is_output_iterator_v, OutputIterator, int *, int, true)
W2(output_4, is_output_iterator_v, OutputIterator, const int *, int, false)
W2(output_5, is_output_iterator_v, OutputIterator, std::vector<std::string>::iterator, const char *, true)
W2(output_6, is_output_iterator_v, OutputIterator, std::istream_iterator<int>, int, false)
W2(output_7, is_output_iterator_v, OutputIterator, int, int, false)
W2(output_8, is_output_iterator_v, OutputIterator, it<no_postinc>, val, false)
W2(output_9, is_output_iterator_v, OutputIterator, it<full>, val, true)
W2(output_10, is_output_iterator_v, OutputIterator, it<const_ref>, val, false)
W2(output_11, is_output_iterator_v, OutputIterator, it<diff_void>, val, true)
W2(output_12, is_output_iterator_v, OutputIterator, it<tag_output>, val, true)
W2(output_13, is_output_iterator_v, OutputIterator, it<no_eq>, val, false)
W2(output_14, is_output_iterator_v, OutputIterator, it<both_tags>, val, false)
W2(output_15, is_output_iterator_v, OutputIterator, it<postinc_noconv>, val, false)
W2(output_16, is_output_iterator_v, OutputIterator, it<postinc_proxy>, val, true)
W2(output_17, is_output_iterator_v, OutputIterator, enit, int, false)
W2(output_18, is_output_iterator_v, OutputIterator, outp_tt, mv_only, true)
W2(output_19, is_output_iterator_v, OutputIterator, outp_tt, mv_only &, false)
W2(output_20, is_output_iterator_v, OutputIterator, it<postinc_void>, val, false)
W2(output_21, is_output_iterator_v, OutputIterator, it<preinc_void>, val, false)
W2(output_22, is_output_iterator_v, OutputIterator, outp_tt, int, true)
W2(output_23, is_output_iterator_v, OutputIterator, outp_tf, int, false)
W2(output_24, is_output_iterator_v, OutputIterator, outp_ft, int, false)

// --- ranges -----------------------------------------------------------------------------------------------------------
template <typename B, typename E>
struct rg {
    B begin() const;
    E end() const;
};
namespace adlr
{
struct r {
};
it<full> begin(const r &);
it<full> end(const r &);
struct mut {
};
it<full> begin(mut &);
it<full> end(mut &);
struct only_begin {
};
it<full> begin(const only_begin &);
} // namespace adlr
template <clause C>
using rgc = rg<it<C>, it<C>>;
#define RG(nm, T, level, mut)                                                                                              \
    W1(range_##nm, is_range_v, Range, T, (level) >= 1)                                                                     \
    W1(input_range_##nm, is_input_range_v, InputRange, T, (level) >= 2)                                                    \
    W1(forward_range_##nm, is_forward_range_v, ForwardRange, T, (level) >= 3)                                              \
    W1(mutable_forward_range_##nm, is_mutable_forward_range_v, MutableForwardRange, T, (level) >= 3 && (mut))              \
    W1(bidirectional_range_##nm, is_bidirectional_range_v, BidirectionalRange, T, (level) >= 4)                            \
    W1(random_access_range_##nm, is_random_access_range_v, RandomAccessRange, T, (level) >= 5)
RG(full, rgc<full>, 5, true)
RG(bidir, rgc<tag_bidir>, 4, true)
RG(fwd, rgc<tag_forward>, 3, true)
RG(cref, rgc<const_ref>, 5, false)
RG(input, rgc<tag_input>, 2, false)
RG(outp, rgc<tag_output>, 1, false)
RG(no_it, rgc<no_tag>, 0, false)
RG(lvalue, rgc<full> &, 5, true)
RG(clvalue, const rgc<full> &, 5, true)
using rg_mixed = rg<it<full>, it<tag_bidir>>;
using rg_int = rg<int, int>;
RG(adl, adlr::r, 5, true)
RG(adl_mut, adlr::mut &, 5, true)
RG(vector, std::vector<int> &, 5, true)
RG(vector_c, const std::vector<int> &, 5, false)
RG(array, int (&)[3], 5, true)
RG(array_c, const int (&)[3], 5, false)
RG(list, std::list<int> &, 4, true)
RG(flist, std::forward_list<int> &, 3, true)
// Ill-formed in some way: only the trait has to answer.
WV(range_mixed, (!obake::is_range_v<rg_mixed> && !obake::Range<rg_mixed>))
WV(range_int, !obake::is_range_v<rg_int> && !obake::is_input_range_v<rg_int>)
WV(range_only_begin, !obake::is_range_v<adlr::only_begin>)
WV(range_adl_const, !obake::is_range_v<const adlr::mut &>)
WV(range_scalar, !obake::is_range_v<int> && !obake::is_range_v<void> && !obake::is_random_access_range_v<int>)
// begin/end results and noexcept-ness of made ranges
WV(range_begin_type, (std::is_same_v<obake::detected_t<obake::range_begin_t, std::vector<int> &>, std::vector<int>::iterator>
                      && std::is_same_v<obake::detected_t<obake::range_begin_t, const std::vector<int> &>, std::vector<int>::const_iterator>
                      && std::is_same_v<obake::detected_t<obake::range_end_t, int (&)[3]>, int *>))
template <typename T>
using hrb = obake::detected_t<obake::range_begin_t, T>;
template <typename T>
using hre = obake::detected_t<obake::range_end_t, T>;
template <typename T>
constexpr bool nothrow_begin()
{
    if constexpr (requires(T &&x) { obake::begin(std::forward<T>(x)); }) {
        return noexcept(obake::begin(std::declval<T>()));
    }
    return true;
}
template <typename T>
constexpr bool nothrow_end()
{
    if constexpr (requires(T &&x) { obake::end(std::forward<T>(x)); }) {
        return noexcept(obake::end(std::declval<T>()));
    }
    return true;
}
// An rvalue stays an rvalue.
namespace adlr
{
struct cat {
};
it<full> begin(cat &&);
it<full> end(cat &&);
it<tag_bidir> begin(const cat &);
it<tag_bidir> end(const cat &);
struct rval {
};
it<full> begin(rval &&);
it<full> end(rval &&);
struct lval {
};
it<full> begin(lval &);
it<full> end(lval &);
// Neither begin() nor end() gives an iterator.
struct voids {
};
void begin(const voids &);
void end(const voids &);
struct strs {
};
std::string begin(const strs &);
std::string end(const strs &);
// Free functions take part although there are none of the name std::begin() can use.
struct only_end {
};
it<full> end(const only_end &);
} // namespace adlr
WV(range_category, (std::is_same_v<hrb<adlr::cat>, it<full>> && std::is_same_v<hre<adlr::cat>, it<full>>
                    && std::is_same_v<hrb<adlr::cat &>, it<tag_bidir>> && std::is_same_v<hre<adlr::cat &>, it<tag_bidir>>))
WV(range_rvalue_only, (obake::is_range_v<adlr::rval> && !obake::is_range_v<adlr::rval &> && !obake::is_range_v<const adlr::rval>))
WV(range_lvalue_only, (obake::is_range_v<adlr::lval &> && !obake::is_range_v<adlr::lval> && !obake::is_range_v<const adlr::lval &>))
WV(range_voids, !obake::is_range_v<adlr::voids> && !obake::is_input_range_v<adlr::voids>)
WV(range_strs, !obake::is_range_v<adlr::strs> && !obake::is_input_range_v<adlr::strs>)
WV(range_only_end, !obake::is_range_v<adlr::only_end>)
template <typename T>
concept can_begin = requires(T &&x) { obake::begin(std::forward<T>(x)); };
template <typename T>
concept can_end = requires(T &&x) { obake::end(std::forward<T>(x)); };
WV(range_begin_iterator, (!can_begin<adlr::voids> && !can_begin<adlr::strs> && !can_begin<rg_int> && can_begin<adlr::only_begin> && can_begin<rg_mixed>))
WV(range_end_iterator, (!can_end<adlr::voids> && !can_end<adlr::strs> && !can_end<rg_int> && can_end<adlr::only_end> && can_end<rg_mixed>))
using rg_conv = rg<int *, const int *>;
using rg_conv2 = rg<const int *, int *>;
WV(range_convertible, (!obake::is_range_v<rg_conv> && !obake::Range<rg_conv> && !obake::is_range_v<rg_conv2> && !obake::Range<rg_conv2>))
// What the implementation may throw reaches the caller.
namespace adlr
{
struct thr {
};
int *begin(const thr &);
int *end(const thr &) noexcept;
struct nothr {
};
int *begin(const nothr &) noexcept;
int *end(const nothr &) noexcept(false);
} // namespace adlr
WV(range_throws, (!nothrow_begin<adlr::thr &>() && !nothrow_end<adlr::nothr &>()))
struct it_thr : it<full> {
    it_thr();
    it_thr(const it_thr &) noexcept(false);
    it_thr &operator=(const it_thr &);
    it_thr &operator++();
    it_thr operator++(int);
};
using mr_thr = decltype(obake::detail::make_range(std::declval<it_thr>(), std::declval<it_thr>()));
WV(made_range_throws, (!noexcept(obake::detail::make_range(std::declval<const it_thr &>(), std::declval<const it_thr &>())) && !nothrow_begin<const mr_thr &>() && !nothrow_end<const mr_thr &>()))
WV(made_range_noexcept, (noexcept(obake::detail::make_range(std::declval<int *>(), std::declval<int *>()))))

// --- homomorphic hashing ----------------------------------------------------------------------------------------------
namespace hh
{
struct none {};
struct in_t {};
struct in_f {};
struct ext_t {};
struct ext_f {};
struct ext_wrong {};
struct ext_wrong_in_t {};
struct in_wrong {};
} // namespace hh
} // namespace hxw
namespace obake
{
template <>
inline constexpr bool monomial_hash_is_homomorphic<hxw::hh::in_t> = true;
template <>
inline constexpr bool monomial_hash_is_homomorphic<hxw::hh::in_f> = false;
template <>
inline constexpr bool monomial_hash_is_homomorphic<hxw::hh::ext_f> = true;
template <>
inline constexpr bool monomial_hash_is_homomorphic<hxw::hh::ext_wrong_in_t> = true;
template <>
inline constexpr int monomial_hash_is_homomorphic<hxw::hh::in_wrong> = 1;
namespace customisation
{
template <>
inline constexpr bool monomial_hash_is_homomorphic<hxw::hh::ext_t> = true;
template <>
inline constexpr bool monomial_hash_is_homomorphic<hxw::hh::ext_f> = false;
template <>
inline constexpr int monomial_hash_is_homomorphic<hxw::hh::ext_wrong> = 1;
template <>
inline constexpr int monomial_hash_is_homomorphic<hxw::hh::ext_wrong_in_t> = 0;
} // namespace customisation
} // namespace obake
namespace hxw
{
#define HH(t, v) W1(homomorphic_##t, is_homomorphically_hashable_monomial_v, HomomorphicallyHashableMonomial, hh::t, v)
HH(none, false)
HH(in_t, true)
HH(in_f, false)
HH(ext_t, true)
HH(ext_f, false)
HH(ext_wrong, false)
HH(ext_wrong_in_t, true)
HH(in_wrong, false)
WV(homomorphic_void, !obake::is_homomorphically_hashable_monomial_v<void>)
} // namespace hxw
