// Entry points for the Kronecker packing machinery, for every supported type.
#include <cstdint>
#include <obake/kpack.hpp>
#include <src/kpack.cpp>

namespace hx
{

template <typename T>
T pk0(unsigned n)
{
    return obake::kpacker<T>(n).get();
}
template <typename T>
T pk1(unsigned n, T a)
{
    obake::kpacker<T> p(n);
    p << a;
    return p.get();
}
template <typename T>
T pk3(unsigned n, T a, T b, T c)
{
    obake::kpacker<T> p(n);
    p << a << b << c;
    return p.get();
}
template <typename T>
obake::kpacker<T> pk_make(unsigned n)
{
    return obake::kpacker<T>(n);
}
template <typename T>
void pk_step(obake::kpacker<T> &p, T a)
{
    p << a;
}
template <typename T>
T pk_get(const obake::kpacker<T> &p)
{
    return p.get();
}
template <typename T>
void up1(T v, unsigned n, T &o0)
{
    obake::kunpacker<T> u(v, n);
    u >> o0;
}
template <typename T>
void up3(T v, unsigned n, T &o0, T &o1, T &o2)
{
    obake::kunpacker<T> u(v, n);
    u >> o0 >> o1 >> o2;
}
template <typename T>
obake::kunpacker<T> up_make(T v, unsigned n)
{
    return obake::kunpacker<T>(v, n);
}
template <typename T>
void up_step(obake::kunpacker<T> &u, T &o)
{
    u >> o;
}
template <typename T>
void use(unsigned n, T v)
{
    pk0<T>(n);
    pk1<T>(n, v);
    pk3<T>(n, v, v, v);
    auto p = pk_make<T>(n);
    pk_step<T>(p, v);
    pk_get<T>(p);
    up1<T>(v, n, v);
    up3<T>(v, n, v, v, v);
    auto u = up_make<T>(v, n);
    up_step<T>(u, v);
}

inline void all(unsigned n)
{
    use<std::int32_t>(n, 0);
    use<std::uint32_t>(n, 0);
    use<std::int64_t>(n, 0);
    use<std::uint64_t>(n, 0);
}

} // namespace hx
