edits = [('include/libpmemobj++/experimental/clevel_hash.hpp', """					expand(pop, thread_id, m_copy);
					goto RETRY_REHASH;
""", """					expand(pop, thread_id, m_copy);
					// There is room now: go on with this slot in the new level.
					m_copy = level_meta_ptr_t(meta);
					m = static_cast<level_meta *>(m_copy(my_pool_uuid));
					tl = m->first_level.get_address(my_pool_uuid);
""")]
meta = dict(property='C21', needs='the rehashing thread finds both buckets of an entry full in the first level', what_it_breaks='the entry that did not fit is not moved and is lost when its level is dropped')
copy = ['cldemo.hpp']
sh = open(HERE + '/seedlib/cl.sh').read()
demo = r'''
#define POWER 2
#include "cldemo.hpp"
extern "C" void __real_pmemobj_persist(PMEMobjpool *p, const void *a, size_t n);
extern "C" void __wrap_pmemobj_persist(PMEMobjpool *p, const void *a, size_t n) { __real_pmemobj_persist(p, a, n); }
extern "C" void __real_pmemobj_free(PMEMoid *o);
extern "C" void __wrap_pmemobj_free(PMEMoid *o) { __real_pmemobj_free(o); }
static int levels()
{
    auto id = map->my_pool_uuid.get_ro();
    auto *m = static_cast<Map::level_meta *>(map->meta(id));
    int n = 1;
    for (auto l = m->last_level; l != m->first_level; l = l.get_address(id)->up) n++;
    return n;
}
int main()
{
    // all keys in the same two buckets of every level
    hashed = [](uint64_t k) { return k << 6 | 1; };
    for (int round = 0; round < 1; round++) {
        start();
        for (uint64_t k = 1; k <= 60; k++) if (!insert(k)) fail("insert");
        for (int i = 0; i < 3000 && levels() > 2; i++) usleep(10000);
        fprintf(stderr, "levels %d\n", levels());
        int lost = 0;
        for (uint64_t k = 1; k <= 60; k++) lost += !has(k);
        if (lost) { fprintf(stderr, "%d keys lost\n", lost); _exit(1); }
    }
    _exit(0);
}
'''
