
edits = [('containers/cliffMap/hashMap.hpp', """                // If this was a table copy, do nothing.
                if (oldVal != VINITIAL)
                {
                    // If we removed an initial or tombstone value with a non-tombstone.
                    if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)
                    {
                        table->chm.size.fetch_add(1);
                    }
                    // If we removed a non-initial and non-tombstone value with a tombstone.
                    else if (!(V == VINITIAL || V == VTOMBSTONE) && newVal == VTOMBSTONE)
                    {
                        table->chm.size.fetch_add(-1);
                    }
                }
""", """                // If we removed an initial or tombstone value with a non-tombstone.
                if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)
                {
                    // If this was a table copy of a fresh key, do nothing.
                    if (oldVal != VINITIAL || V == VTOMBSTONE)
                    {
                        table->chm.size.fetch_add(1);
                    }
                }
                // If we removed a value with a tombstone.
                else if (V != VINITIAL && newVal == VTOMBSTONE)
                {
                    table->chm.size.fetch_add(-1);
                }
""")]
meta = dict(property='C12', needs='removing a key that was removed before', what_it_breaks='the element count goes down although no binding was removed')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
struct Id { size_t operator()(size_t k) const { return k >> 3; } };
using Map = ConcurrentHashMap<size_t, size_t, Id>;
// another thread removes the key between this removal's look at the value and its change
int main()
{
    demo::Scratch s;
    Map m(demo::scratch.c_str(), 64, false);
    m.put(1 << 3, 5 << 3);
    m.put(2 << 3, 5 << 3);
    Map::Table *t = m.table.load();
    m.remove(1 << 3);
    m.remove(1 << 3);
    m.remove(1 << 3);
    if (m.size() != 1)
        return demo::check(false, "the element count is wrong");
    // a conditional removal that expects the removed state
    m.putIfMatch(1 << 3, Map::VTOMBSTONE, Map::NO_MATCH_OLD);
    // a removal that raced with another one
    m.put(3 << 3, 7 << 3);
    struct C { static size_t race(Map::Table *t, size_t i, size_t o, size_t n) {
        static bool first = true;
        if (first) { first = false; Map::Table::CASvalue(t, i, o, Map::VTOMBSTONE); t->chm.size.fetch_add(-1); }
        return Map::Table::CASvalue(t, i, o, n); } };
    m.putIfMatch(3 << 3, Map::VTOMBSTONE, Map::NO_MATCH_OLD, C::race);
    return demo::check(m.size() == 1, "the element count is wrong after a race of two removals");
}
'''
