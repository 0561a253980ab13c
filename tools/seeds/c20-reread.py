edits = [('include/libpmemobj++/experimental/clevel_hash.hpp', """						if (CAS(&(s_b.slots[j].p.off), tmp.p.off, 0))
""", """						// The tag bits may have been touched meanwhile: expect what is there now.
						tmp.p.off = s_b.slots[j].p.off;
						if (tmp.p.get_offset() != 0 && CAS(&(s_b.slots[j].p.off), tmp.p.off, 0))
""")]
meta = dict(property='C20', needs='between the comparison of the key and the compare-and-swap of an erase, another thread erases the key and inserts a different one into the same slot',
            what_it_breaks='erase removes and frees the entry of a different key')
copy = ['cldemo.hpp']
sh = open(HERE + '/seedlib/cl.sh').read()
demo = r'''
#include "cldemo.hpp"
extern "C" void __real_pmemobj_persist(PMEMobjpool *p, const void *a, size_t n);
extern "C" void __wrap_pmemobj_persist(PMEMobjpool *p, const void *a, size_t n) { __real_pmemobj_persist(p, a, n); }
extern "C" void __real_pmemobj_free(PMEMoid *o);
extern "C" void __wrap_pmemobj_free(PMEMoid *o) { __real_pmemobj_free(o); }
int main()
{
    hashed = [](uint64_t k) { return k % 1000 * 2 + 1; };
    start();
    // for every slot that a key can be in: while one thread erases the key, another erases it, too, and inserts a key into the same slot
    for (int n = 0; n < 14; n++) {
        std::vector<uint64_t> fill;
        for (int i = 0; i < n; i++) { fill.push_back(1000 * (i + 1)); if (!insert(fill.back())) fail("insert"); }
        uint64_t victim = 50000, other = 60000;
        if (!insert(victim)) fail("insert victim");
        bool once = false;
        compared = [&](uint64_t a, uint64_t b) {
            if (a != victim || b != victim || once) return;
            once = true;
            if (!erase(victim, 3)) fail("erase by the other thread");
            if (!insert(other, 3)) fail("insert by the other thread");
        };
        erase(victim);
        compared = nullptr;
        if (!once) fail("no comparison");
        if (has(victim)) fail("the erased key is there");
        if (!has(other)) fail("erase removed the entry of a different key");
        erase(other);
        for (uint64_t k : fill) if (!erase(k)) fail("erase");
    }
    _exit(0);
}
'''
