
edits = [('containers/cliffMap/hashMap.hpp', """            // If we have exceeded our reprobe limit.
            if (++reprobeCount >= reprobeLimit(len) ||
                // Or if we found a tombstone key, indicating there are no more keys in this table.
                K == KTOMBSTONE)
            {
#ifdef RESIZE
                return (newTable""", """            // If we found a tombstone key, there are no more keys to look at.
            if (K == KTOMBSTONE)
            {
                return VINITIAL;
            }
            // If we have exceeded our reprobe limit.
            if (++reprobeCount >= reprobeLimit(len))
            {
#ifdef RESIZE
                return (newTable""")]
meta = dict(property='C05', needs='a lookup of a key that was put into the successor table while the migration is still running', what_it_breaks='the lookup stops at a slot closed for migration and reports the key as absent')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
struct Id { size_t operator()(size_t k) const { return k >> 3; } };
using Map = ConcurrentHashMap<size_t, size_t, Id>;
int main()
{
    demo::Scratch s;
    Map m(demo::scratch.c_str(), 64, false);
    Map::Table *t = m.table.load();
    m.put(50 << 3, 1 << 3);
    Map::Table *n = t->chm.resize(&m, t);
    // one thread closes slot 5, another one that had already moved on puts key 5 into the new table
    t->chm.copySlotAndCheck(&m, t, 5, true);
    m.putIfMatch(n, 5 << 3, 9 << 3, Map::NO_MATCH_OLD);
    return demo::check(m.get(5 << 3) == 9 << 3, "a key that is bound was not found during a migration");
}
'''
