// Analysis harness: one container adapter (-DNS=...). Compiled to IR, never run.
#include "std.hpp"
#include <cassert>
#include <cstddef>
#include <cstring>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <iostream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "define.hpp"
#if defined(ucfDef)
#include "containers/ucfMap.hpp"
#define NS ucf
using Map = ConcurrentHashMap<KeyT, ValT>;
#elif defined(stlDef)
#include "containers/stlMap.hpp"
#define NS stl
#elif defined(pmDef)
#include "containers/pmemMap.hpp"
#define NS pm
#elif defined(clevelDef)
#include "containers/levelMap.hpp"
#define NS clevel
#endif
using C = NS::container_type;
extern "C" {
bool vf_insert(C *c, size_t k) { return c->C::insert(k); }
bool vf_erase(C *c, size_t k) { return c->C::erase(k); }
bool vf_contains(C *c, size_t k) { return c->C::contains(k); }
size_t vf_get(C *c, size_t k) { return c->C::get(k); }
size_t vf_count(C *c) { return c->C::count(); }
size_t vf_increment(C *c, size_t k) { return c->C::increment(k); }
#ifdef ucfDef
size_t vfs_VINITIAL() { return Map::VINITIAL; }
size_t vfs_VTOMBSTONE() { return Map::VTOMBSTONE; }
size_t vfs_KINITIAL() { return Map::KINITIAL; }
size_t vfs_TOMBPRIME() { return Map::TOMBPRIME; }
size_t vfs_MATCH_ANY() { return Map::MATCH_ANY; }
size_t vfs_NO_MATCH_OLD() { return Map::NO_MATCH_OLD; }
size_t vfs_KTOMBSTONE() { return Map::KTOMBSTONE; }
#endif
}
