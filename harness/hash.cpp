// The hash functions: what the map uses by default, and what hashing/hash.hpp offers, for keys of several sizes.
#include "std.hpp"
#include <array>
#include <cstddef>
#include <cstdint>
#include "hashing/hash.hpp"
#include "containers/cliffMap/hashMap.hpp"
template <class T> struct HashOf;
template <class K, class V, class F> struct HashOf<ConcurrentHashMap<K, V, F>> { using type = F; };
template <class T> using MapHash = typename HashOf<ConcurrentHashMap<T, size_t>>::type;
extern "C" {
size_t vfh_map_8(const uint64_t &k) { return MapHash<uint64_t>{}(k); }
size_t vfh_map_4(const uint32_t &k) { return MapHash<uint32_t>{}(k); }
size_t vfh_xx_1(const uint8_t &k) { return xxhash<uint8_t>{}(k); }
size_t vfh_xx_2(const uint16_t &k) { return xxhash<uint16_t>{}(k); }
size_t vfh_xx_4(const uint32_t &k) { return xxhash<uint32_t>{}(k); }
size_t vfh_xx_8(const uint64_t &k) { return xxhash<uint64_t>{}(k); }
size_t vfh_xx_16(const std::array<uint64_t, 2> &k) { return xxhash<std::array<uint64_t, 2>>{}(k); }
size_t vfh_xx_24(const std::array<uint64_t, 3> &k) { return xxhash<std::array<uint64_t, 3>>{}(k); }
size_t vfh_xx_32(const std::array<uint64_t, 4> &k) { return xxhash<std::array<uint64_t, 4>>{}(k); }
size_t vfh_xx_44(const std::array<uint32_t, 11> &k) { return xxhash<std::array<uint32_t, 11>>{}(k); }
size_t vfh_naive_8(const uint64_t &k) { return NaiveHash<uint64_t>{}(k); }
size_t vfh_naive_4(const uint32_t &k) { return NaiveHash<uint32_t>{}(k); }
}
