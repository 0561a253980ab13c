
edits = [('containers/cliffMap/hashMap.hpp', """                    // If there isn't a usable value to migrate, replace it with a tombprime. Otherwise, mark it.
                    Value mark = (oldVal == VINITIAL || oldVal == VTOMBSTONE) ? TOMBPRIME : (Value)setMark((uintptr_t)oldVal, MigrationFlag);
""", """                    // A tombprime keeps everybody else away from the slot.
                    Value mark = TOMBPRIME;
"""), ('containers/cliffMap/hashMap.hpp', """                        if (mark == TOMBPRIME)
                        {
                            // We are already done.
                            return true;
                        }
                        // Update our record of what's in the old table.
                        oldVal = mark;
                        // More work to do outside of the while loop.
                        break;
""", """                        if (oldVal != VINITIAL && oldVal != VTOMBSTONE)
                        {
                            // The value is ours now: move it.
                            hashMap->putIfMatch(newTable, key, oldVal, VINITIAL);
                        }
                        // We are done.
                        return true;
""")]
meta = dict(property='C07', needs='a crash between retiring a slot and copying its value', what_it_breaks='a value is retired from the old table before its copy is durable (or even visible) in the new one')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
struct Id { size_t operator()(size_t k) const { return k >> 3; } };
using Map = ConcurrentHashMap<size_t, size_t, Id>;
int main()
{
    demo::Scratch s;
    Map m(demo::scratch.c_str(), 64, false);
    for (size_t k = 1; k < 40; k += 3)
        m.put(k << 3, (k + 100) << 3);
    Map::Table *t = m.table.load();
    t->chm.resize(&m, t);
    int bad = 0;
    // at every write-back: is every binding in the durable image of some table?
    demo::on_flush = [&](const void *) {
        for (size_t k = 1; k < 40; k += 3)
        {
            bool found = false;
            for (auto &r : demo::regions)
                for (size_t i = 0; i + 16 <= r.len; i += 16)
                {
                    size_t K, V;
                    memcpy(&K, r.durable.data() + i, 8);
                    memcpy(&V, r.durable.data() + i + 8, 8);
                    if ((K & ~7ul) == k << 3 && (V & ~7ul) == (k + 100) << 3)
                        found = true;
                }
            bad |= !found;
        }
    };
    m.helpCopy(nullptr);
    demo::on_flush = nullptr;
    return demo::check(!bad, "a crash in the middle of the migration would lose a binding");
}
'''
