// Boost serialises boost::unordered_flat_map from 1.84 on; the installed Boost is 1.83. The same for older ones.
#ifndef VERIF_FLATMAP_SERIALIZATION_HPP
#define VERIF_FLATMAP_SERIALIZATION_HPP
#include <boost/version.hpp>
#include <boost/unordered/unordered_flat_map.hpp>
#include <boost/serialization/split_free.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/utility.hpp>
#if BOOST_VERSION < 108400
namespace boost::serialization {
    template<typename Archive, typename K, typename V, typename H, typename E, typename A>
    void save(Archive &ar, const boost::unordered_flat_map<K, V, H, E, A> &map, const unsigned int) {
        const std::size_t size = map.size();
        ar << size;
        for (const auto &[k, v] : map) ar << k << v;
    }
    template<typename Archive, typename K, typename V, typename H, typename E, typename A>
    void load(Archive &ar, boost::unordered_flat_map<K, V, H, E, A> &map, const unsigned int) {
        std::size_t size = 0;
        ar >> size;
        map.clear();
        map.reserve(size);
        for (; size > 0; --size) {
            K k;
            V v;
            ar >> k >> v;
            map.emplace(std::move(k), std::move(v));
        }
    }
    template<typename Archive, typename K, typename V, typename H, typename E, typename A>
    void serialize(Archive &ar, boost::unordered_flat_map<K, V, H, E, A> &map, const unsigned int version) {
        split_free(ar, map, version);
    }
}
#endif
#endif
