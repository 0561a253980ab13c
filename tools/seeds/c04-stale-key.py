
edits = [('containers/cliffMap/hashMap.hpp', """                Key key;
                while ((key = oldTable->key(idx)) == KINITIAL)
                {
                    oldTable->CASkey(idx, KINITIAL, KTOMBSTONE);
                }
""", """                Key key = oldTable->key(idx);
                if (key == KINITIAL)
                {
                    oldTable->CASkey(idx, KINITIAL, KTOMBSTONE);
                }
""")]
meta = dict(property='C04', needs='an insert that claims a slot just as a helper is about to close it', what_it_breaks='the helper migrates the inserted value under the empty key it had read before; the binding is lost')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
struct Id { size_t operator()(size_t k) const { return k >> 3; } };
using Map = ConcurrentHashMap<size_t, size_t, Id>;
int main()
{
    demo::Scratch s;
    Map m(demo::scratch.c_str(), 64, false);
    Map::Table *t = m.table.load();
    m.put(1 << 3, 5 << 3);
    // Another thread inserts key 40 at the moment the migration writes back what it read of slot 40.
    bool done = false;
    t->chm.resize(&m, t);
    demo::on_flush = [&](const void *p) {
        if (done || p != (void *)&t->pairs[40].key)
            return;
        done = true;
        // (as a thread that decided to insert before the resize began)
        t->CASkey(40, Map::KINITIAL, 40 << 3);
        Map::Table::CASvalue(t, 40, Map::VINITIAL, 7 << 3);
        t->chm.size.fetch_add(1);
    };
    m.helpCopy(nullptr);
    demo::on_flush = nullptr;
    if (!done)
        return 0;
    return demo::check(m.get(40 << 3) == 7 << 3 && m.get(1 << 3) == 5 << 3, "a binding was lost in the migration");
}
'''
