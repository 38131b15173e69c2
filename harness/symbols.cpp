// Symbol sets: merging, intersections, hashing, printing and serialization; only public names are called.
#include <src/symbols.cpp>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>

namespace hx
{

// Opaque mapped value.
struct val {
    int v;
};

inline auto merge(const obake::symbol_set &s1, const obake::symbol_set &s2)
{
    return obake::detail::merge_symbol_sets(s1, s2);
}
inline obake::symbol_idx_set ssi(const obake::symbol_set &s, const obake::symbol_set &r)
{
    return obake::detail::ss_intersect_idx(s, r);
}
inline obake::symbol_idx_map<val> smi(const obake::symbol_map<val> &m, const obake::symbol_set &r)
{
    return obake::detail::sm_intersect_idx(m, r);
}
inline std::size_t hash(const obake::symbol_set &s)
{
    return obake::detail::ss_fw_hasher{}(s);
}
inline std::string str(const obake::symbol_set &s)
{
    return obake::detail::to_string(s);
}
inline void save(boost::archive::binary_oarchive &ar, const obake::symbol_set &s, unsigned v)
{
    boost::serialization::save(ar, s, v);
}
inline void load(boost::archive::binary_iarchive &ar, obake::symbol_set &s, unsigned v)
{
    boost::serialization::load(ar, s, v);
}

} // namespace hx
