// Analysis harness: entry points into the persistent map. Compiled to IR, never run.
#include "std.hpp"
#include <cassert>
#include <cstring>
#include <algorithm>
#include <stdexcept>
#include <string>
#include <vector>
#include <chrono>
#include "containers/ucfMap.hpp"
using Map = ConcurrentHashMap<KeyT, ValT>;
using Table = Map::Table;
using CHM = Map::Table::CHM;
using Fn = size_t (*)(Table *, size_t, size_t, size_t);
#define OFF(n, T, f) extern "C" const size_t vfk_off_##n = offsetof(T, f);
#pragma clang diagnostic ignored "-Winvalid-offsetof"
extern "C" {
extern const size_t vfk_off_map_table = offsetof(Map, table);
extern const size_t vfk_off_pairs = offsetof(Table, pairs);
extern const size_t vfk_off_len = offsetof(Table, len);
extern const size_t vfk_off_chm = offsetof(Table, chm);
extern const size_t vfk_off_copyIdx = offsetof(Table, chm) + offsetof(CHM, copyIdx);
extern const size_t vfk_off_copyDone = offsetof(Table, chm) + offsetof(CHM, copyDone);
extern const size_t vfk_off_size = offsetof(Table, chm) + offsetof(CHM, size);
extern const size_t vfk_off_slots = offsetof(Table, chm) + offsetof(CHM, slots);
extern const size_t vfk_off_id = offsetof(Table, chm) + offsetof(CHM, id);
extern const size_t vfk_off_newTable = offsetof(Table, chm) + offsetof(CHM, newTable);
extern const size_t vfk_off_key = offsetof(Map::KVpair, key);
extern const size_t vfk_off_value = offsetof(Map::KVpair, value);
extern const size_t vfk_size_pair = sizeof(Map::KVpair);
extern const size_t vfk_size_table = sizeof(Table);
extern const size_t vfk_line = FLUSH_ALIGN;
extern const size_t vfk_dirty = DirtyFlag;
extern const size_t vfk_migr = MigrationFlag;
extern const size_t vfk_bits = Map::BITS_MARKED;
}
// Sentinels, reported by value.
extern "C" {
size_t vfs_VINITIAL() { return Map::VINITIAL; }
size_t vfs_VTOMBSTONE() { return Map::VTOMBSTONE; }
size_t vfs_TOMBPRIME() { return Map::TOMBPRIME; }
size_t vfs_MATCH_ANY() { return Map::MATCH_ANY; }
size_t vfs_NO_MATCH_OLD() { return Map::NO_MATCH_OLD; }
size_t vfs_KINITIAL() { return Map::KINITIAL; }
size_t vfs_KTOMBSTONE() { return Map::KTOMBSTONE; }
}
template <class T> struct HashOf;
template <class K, class V, class F> struct HashOf<ConcurrentHashMap<K, V, F>> { using type = F; };
extern "C" {
size_t vf_put(Map *m, size_t k, size_t v) { return m->put(k, v); }
size_t vf_putIfAbsent(Map *m, size_t k, size_t v) { return m->putIfAbsent(k, v); }
bool vf_remove(Map *m, size_t k) { return m->remove(k); }
bool vf_remove2(Map *m, size_t k, size_t v) { return m->remove(k, v); }
bool vf_replace(Map *m, size_t k, size_t o, size_t n) { return m->replace(k, o, n); }
size_t vf_update(Map *m, size_t k, size_t v, Fn f) { return m->update(k, v, f); }
size_t vf_get(Map *m, size_t k) { return m->get(k); }
bool vf_containsKey(Map *m, size_t k) { return m->containsKey(k); }
size_t vf_size(Map *m) { return m->size(); }
bool vf_isEmpty(Map *m) { return m->isEmpty(); }
bool vf_isKeyReserved(size_t k) { return Map::isKeyReserved(k); }
bool vf_isValueReserved(size_t v) { return Map::isValueReserved(v); }
size_t vf_hash(const size_t &k) { return HashOf<Map>::type{}(k); }
// ucf adapter
bool vf_ucf_insert(ucf::container_type *c, size_t k) { return c->ucf::container_type::insert(k); }
bool vf_ucf_erase(ucf::container_type *c, size_t k) { return c->ucf::container_type::erase(k); }
bool vf_ucf_contains(ucf::container_type *c, size_t k) { return c->ucf::container_type::contains(k); }
size_t vf_ucf_get(ucf::container_type *c, size_t k) { return c->ucf::container_type::get(k); }
size_t vf_ucf_increment(ucf::container_type *c, size_t k) { return c->ucf::container_type::increment(k); }
size_t vf_ucf_count(ucf::container_type *c) { return c->ucf::container_type::count(); }
// internal operations, analysed on their own and summarised at call sites
size_t vf_putIfMatch(Map *m, Table *t, size_t k, size_t n, size_t o, Fn f) { return m->putIfMatch(t, k, n, o, f); }
size_t vf_getImpl(Map *m, Table *t, size_t k, size_t h) { return m->getImpl(t, k, h); }
Table *vf_helpCopy(Map *m, Table *t) { return m->helpCopy(t); }
bool vf_copySlot(Map *m, size_t i, Table *o, Table *n) { return o->chm.copySlot(m, i, o, n); }
Table *vf_resize(Map *m, Table *t) { return t->chm.resize(m, t); }
Table *vf_mmapNew(size_t cap, size_t ex, const char *f) { return Table::mmapTable(true, cap, ex, f); }
Table *vf_mmapOld(size_t cap, size_t ex, const char *f) { return Table::mmapTable(false, cap, ex, f); }
bool vf_munmap(Table *t) { return Table::munmapTable(t); }
Map *vf_construct(const char *d, size_t s, bool r) { return new Map(d, s, r); }
void vf_PERSIST(const void *a, size_t l) { PERSIST(a, l); }
void vf_PERSIST_FLUSH_ONLY(const void *a, size_t l) { PERSIST_FLUSH_ONLY(a, l); PERSIST_BARRIER_ONLY(); }
void *vf_setMark(uintptr_t p, size_t f) { return setMark(p, f); }
void *vf_clearMark(uintptr_t p, size_t f) { return clearMark(p, f); }
void *vf_isMarked(uintptr_t p, size_t f) { return isMarked(p, f); }
}
extern "C" Fn vf_fn_CASvalue() { return &Table::CASvalue; }
extern "C" Fn vf_fn_increment() { return &Table::increment; }
