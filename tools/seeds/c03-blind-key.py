
edits = [('containers/cliffMap/hashMap.hpp', """                    oldTable->CASkey(idx, KINITIAL, KTOMBSTONE);
                }

                // Prevent new""", """                    // The slot is unclaimed, so there is nothing to lose: close it.
                    PERSIST_FLUSH_ONLY(&oldTable->pairs[idx].key, sizeof(Key));
                    oldTable->pairs[idx].key.store((Key)setMark((uintptr_t)KTOMBSTONE, DirtyFlag));
                    persist<Key>(&oldTable->pairs[idx].key, (Key)setMark((uintptr_t)KTOMBSTONE, DirtyFlag));
                }

                // Prevent new""")]
meta = dict(property='C03', needs='an insert that claims a slot at the very moment it is closed by a helper', what_it_breaks='a claimed key is blindly overwritten by the key tombstone')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
struct Id { size_t operator()(size_t k) const { return k >> 3; } };
using Map = ConcurrentHashMap<size_t, size_t, Id>;
int main()
{
    demo::Scratch s;
    Map m(demo::scratch.c_str(), 64, false);
    Map::Table *t = m.table.load();
    Map::Table *n = t->chm.resize(&m, t);
    // when the helper is about to touch slot 5, an insert claims it
    int inside = 0;
    demo::on_flush = [&](const void *p) {
        if (inside || (char *)p < (char *)&t->pairs[5] || (char *)p >= (char *)&t->pairs[6] || t->key(5) == Map::KTOMBSTONE)
            return;
        inside = 1;
        // (the last two steps of an insert that saw no resize when it looked)
        if (t->CASkey(5, Map::KINITIAL, 5 << 3)) Map::Table::CASvalue(t, 5, Map::VINITIAL, 105 << 3);
    };
    if (t->chm.copySlot(&m, 5, t, n)) t->chm.copyDone.fetch_add(1);
    demo::on_flush = nullptr;
    if (!inside) return 0;
    return demo::check(m.get(5 << 3) == 105 << 3, "the key of a claimed slot was overwritten");
}
'''
