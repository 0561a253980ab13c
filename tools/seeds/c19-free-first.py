edits = [('include/libpmemobj++/experimental/clevel_hash.hpp', """							pop.persist(&(f_b.slots[j].p.off), sizeof(uint64_t));
							succ_deletion = true;

							PMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);
							pmemobj_free(&oid);
""", """							succ_deletion = true;

							PMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);
							pmemobj_free(&oid);
							pop.persist(&(f_b.slots[j].p.off), sizeof(uint64_t));
""")]
meta = dict(property='C19', needs='a crash between the freeing of an erased entry and the write-back of its slot', what_it_breaks='after the crash the slot refers to memory that has been freed')
copy = ['cldemo.hpp']
sh = open(HERE + '/seedlib/cl.sh').read()
demo = r'''
#include "cldemo.hpp"
// What has reached the memory: everything that was there at first, and what was written back since.
static std::vector<char> durable;
static char *base;
static bool watch;
extern "C" void __real_pmemobj_persist(PMEMobjpool *p, const void *a, size_t n);
extern "C" void __wrap_pmemobj_persist(PMEMobjpool *p, const void *a, size_t n)
{
    __real_pmemobj_persist(p, a, n);
    if (!watch) return;
    size_t o = ((char *)a - base) & ~(size_t)63, e = (((char *)a - base) + n + 63) & ~(size_t)63;
    if (e <= durable.size()) memcpy(&durable[o], base + o, e - o);
}
static uint64_t slots[64];
static int nslots, frees;
extern "C" void __real_pmemobj_free(PMEMoid *o);
extern "C" void __wrap_pmemobj_free(PMEMoid *o)
{
    if (watch) {
        frees++;
        for (size_t i = 0; i < nslots; i++) {
            uint64_t w = *(uint64_t *)&durable[slots[i]];
            if ((w & 0xfffffffffffc) == o->off) fail("an entry is freed while a durable slot refers to it");
        }
    }
    __real_pmemobj_free(o);
}
int main()
{
    hashed = [](uint64_t k) { return k % 1000 * 2 + 1; };
    start();
    for (int i = 0; i < 14; i++) if (!insert(1000 * (i + 1))) fail("insert");
    base = (char *)pool.handle();
    durable.assign(base, base + PMEMOBJ_MIN_POOL * 8);
    // where the slots are that refer to something
    auto id = map->my_pool_uuid.get_ro();
    auto *m = static_cast<Map::level_meta *>(map->meta(id));
    for (auto l : {m->first_level, m->last_level}) {
        auto *b = l.get_address(id);
        for (uint64_t i = 0; i < b->capacity.get_ro(); i++)
            for (auto &s : b->buckets[i].slots) if (s.p.off) slots[nslots++] = (char *)&s - base;
    }
    if (nslots != 14) fail("setup");
    watch = true;
    for (int i = 0; i < 14; i++) if (!erase(1000 * (i + 1))) fail("erase");
    if (frees != 14) fail("not freed");
    _exit(0);
}
'''
