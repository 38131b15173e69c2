// Entry points for the utilities: every function here only calls public names.
#include <cstdint>
#include <string>
#include <tuple>
#include <typeinfo>
#include <utility>

#include <obake/config.hpp>
#include <obake/detail/atomic_lock_guard.hpp>
#include <obake/detail/tuple_for_each.hpp>
#include <obake/detail/xoroshiro128_plus.hpp>
#include <obake/exceptions.hpp>
#include <obake/math/pow.hpp>
#include <obake/stack_trace.hpp>
#include <stdexcept>

namespace hx
{

using rng_t = obake::detail::xoroshiro128_plus;

inline void rng_seq(std::uint64_t a, std::uint64_t b, std::uint64_t &o0, std::uint64_t &o1, std::uint64_t &o2)
{
    rng_t g(a, b);
    o0 = g();
    o1 = g();
    o2 = g();
}
inline void rng_next(std::uint64_t a, std::uint64_t b, std::uint64_t &o0, std::uint64_t &o1)
{
    rng_t g(a, b);
    o0 = g.next();
    o1 = g.next();
}
inline std::uint64_t rng_min()
{
    return rng_t::min();
}
inline std::uint64_t rng_max()
{
    return rng_t::max();
}
template <typename T>
void rng_random(std::uint64_t a, std::uint64_t b, T &r, std::uint64_t &nxt)
{
    rng_t g(a, b);
    r = g.random<T>();
    nxt = g();
}

inline void lock_take(std::atomic_flag &f)
{
    obake::detail::atomic_lock_guard g(f);
}

// Opaque elements and visitor: which element, in which value category, is visible in the arguments of the call.
template <int>
struct el {
    el(const el &);
    el(el &&) noexcept;
    ~el();
    int v;
};

template <>
struct el<1> {
    el(const el &);
};

struct vres {
    explicit operator bool() const;
};
void operator,(const vres &, const vres &);

struct vis {
    vis(const vis &);
    vis(vis &&);
    template <typename T>
    vres operator()(T &&);
};

template <typename Tup>
void tup_visit(Tup &&t, vis &v)
{
    obake::detail::tuple_for_each(std::forward<Tup>(t), v);
}

template <typename Tup>
void tup_visit_r(Tup &&t, vis &&v)
{
    obake::detail::tuple_for_each(std::forward<Tup>(t), std::move(v));
}

template <typename T, typename U>
auto do_pow(const T &x, const U &y)
{
    return obake::pow(x, y);
}

// Exceptions: with a text, with further arguments, without a text.
struct ex_arg {
    ex_arg();
    ex_arg(const ex_arg &);
    ex_arg(ex_arg &&) noexcept;
    int v;
};
struct ex_text {
    explicit ex_text(std::string);
    ex_text(const ex_text &);
    virtual ~ex_text();
};
struct ex_more : ex_text {
    ex_more(std::string, const ex_arg & = ex_arg{}, ex_arg = ex_arg{});
    ex_more(const ex_more &);
};
struct ex_val {
    ex_val(const ex_arg &, int = 0);
    ex_val(const ex_val &);
};
struct ex_raw {
    explicit ex_raw(const char *, int = 0);
    explicit ex_raw(std::string_view);
    ex_raw(const ex_raw &);
};

template <typename E, typename S>
void do_throw(S &&s)
{
    obake_throw(E, std::forward<S>(s));
}
template <typename E>
void do_throw0()
{
    obake_throw(E, );
}
inline void do_throw_more(const std::string &s, const ex_arg &a, ex_arg &&b)
{
    obake_throw(ex_more, s, a, std::move(b));
}
inline void do_throw_val(const ex_arg &a, int n)
{
    obake_throw(ex_val, a, n);
}
inline void do_throw_raw(const char *s, int n)
{
    obake_throw(ex_raw, s, n);
}

inline std::string do_trace0()
{
    return obake::stack_trace();
}
inline bool trace_query()
{
    return obake::stack_trace_enabled();
}
inline std::string do_trace(unsigned n)
{
    return obake::stack_trace(n);
}
inline void trace_switch(bool b)
{
    obake::set_stack_trace_enabled(b);
}

struct no_arg_ex {
};

template <typename T>
void use_int(T n)
{
    std::uint64_t u = 0;
    rng_random<T>(u, u, n, u);
}

using t0 = std::tuple<>;
using t1 = std::tuple<el<0>>;
using t3 = std::tuple<el<0>, el<1>, el<2>>;
using t5 = std::tuple<el<0>, int, el<1>, const el<2>, double>;
using tr = std::tuple<el<0> &, el<1> &&, const el<2> &>;

inline void all(const std::string &cs, std::string &ms, const std::string_view &sv, const char *cp, char *mp, char (&buf)[8], t0 &a0, t1 &a1, t3 &a3, t5 &a5, tr &ar, vis &v)
{
    use_int<char>(0);
    use_int<signed char>(0);
    use_int<unsigned char>(0);
    use_int<short>(0);
    use_int<unsigned short>(0);
    use_int<int>(0);
    use_int<unsigned>(0);
    use_int<long>(0);
    use_int<unsigned long>(0);
    use_int<long long>(0);
    use_int<unsigned long long>(0);
    use_int<__int128_t>(0);
    use_int<__uint128_t>(0);

    tup_visit(a0, v);
    tup_visit(std::move(a0), v);
    tup_visit(a1, v);
    tup_visit(std::move(a1), v);
    tup_visit(a3, v);
    tup_visit(std::as_const(a3), v);
    tup_visit(std::move(a3), v);
    tup_visit_r(a3, std::move(v));
    tup_visit(a5, v);
    tup_visit(std::as_const(a5), v);
    tup_visit(std::move(a5), v);
    tup_visit(ar, v);
    tup_visit(std::move(ar), v);

    do_pow(1.f, 2);
    do_pow(2, 1.f);
    do_pow(1., 2ll);
    do_pow(2u, 1.);
    do_pow(1.l, short(2));
    do_pow(2l, 1.l);
    do_pow(1.f, __int128_t(2));
    do_pow(__uint128_t(2), 1.);
    do_pow(1.f, 1.f);
    do_pow(1., 1.f);
    do_pow(1.f, 1.);
    do_pow(1., 1.l);
    do_pow(1., true);

    do_throw<std::invalid_argument>(cs);
    do_throw<std::overflow_error>(cs);
    do_throw<std::overflow_error>(std::move(ms));
    do_throw<ex_text>(cs);
    do_throw<ex_more>(ms);
    do_throw<ex_text>(sv);
    do_throw<ex_text>(cp);
    do_throw<ex_text>(mp);
    do_throw<ex_text>("text");
    do_throw<ex_text>(buf);
    do_throw0<no_arg_ex>();
}

} // namespace hx
