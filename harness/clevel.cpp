// Analysis harness: the clevel container. Compiled to IR, never run.
#include "std.hpp"
#include "define.hpp"
#include "containers/levelMap.hpp"
using Map = clevel::root::map_type;
using Level = Map::level_bucket;
using Meta = Map::level_meta;
extern "C" {
bool vf_insert(Map *m, const Map::value_type &v, size_t t) { return m->insert(v, t, t).found; }
bool vf_update(Map *m, const Map::value_type &v, size_t t) { return m->update(v, t).found; }
bool vf_erase(Map *m, const Map::key_type &k, size_t t) { return m->erase(k, t).found; }
bool vf_search(Map *m, const Map::key_type &k) { return m->search(k).found; }
void vf_expand(Map *m, size_t t) { auto p = m->get_pool_base(); m->expand(p, t, m->meta); }
void vf_resize(Map *m) { m->resize(); }
// where the parts of the persistent structures are
size_t vf_at_meta() { return __builtin_offsetof(Map, meta); }
size_t vf_at_expand_bucket() { return __builtin_offsetof(Map, expand_bucket); }
size_t vf_at_uuid() { return __builtin_offsetof(Map, my_pool_uuid); }
size_t vf_at_threads() { return __builtin_offsetof(Map, thread_num); }
size_t vf_at_tmp_meta() { return __builtin_offsetof(Map, tmp_meta); }
size_t vf_at_tmp_level() { return __builtin_offsetof(Map, tmp_level); }
size_t vf_at_tmp_entry() { return __builtin_offsetof(Map, tmp_entry); }
size_t vf_at_run() { return __builtin_offsetof(Map, run_expand_thread); }
size_t vf_in_level_buckets() { return __builtin_offsetof(Level, buckets); }
size_t vf_in_level_capacity() { return __builtin_offsetof(Level, capacity); }
size_t vf_in_level_up() { return __builtin_offsetof(Level, up); }
size_t vf_in_meta_first() { return __builtin_offsetof(Meta, first_level); }
size_t vf_in_meta_last() { return __builtin_offsetof(Meta, last_level); }
size_t vf_in_meta_resizing() { return __builtin_offsetof(Meta, is_resizing); }
size_t vf_bucket_size() { return sizeof(Map::bucket); }
size_t vf_slot_size() { return sizeof(Map::KV_entry_ptr_u); }
size_t vf_slots() { return Map::assoc_num; }
size_t vf_tag_at() { return __builtin_offsetof(Map::KV_entry_ptr_u, x.partial); }
size_t vf_key_in_entry() { return 0; }
}
