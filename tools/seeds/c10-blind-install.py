
edits = [('containers/cliffMap/hashMap.hpp', """                if (CASNewTable(newTable))
                {
                    // We succeeded.
                }
                else
                {
                    // Failure means some other thread succeeded.
                    // Free the allocated memory.
                    munmapTable(newTable);
                    // And get the table that was placed.
                    newTable = this->newTable.load();
                    // The new table should never be NULL.
                    assert(newTable != nullptr);
                }
""", """                if (!CASNewTable(newTable))
                {
                    // Some other thread was faster. Ours is as large, so go on with it:
                    // it would be a waste to free memory that was only just allocated.
                    assert(this->newTable.load() != nullptr);
                }
""")]
meta = dict(property='C10', needs='another thread that installs its successor while this one creates its own', what_it_breaks='the losing thread goes on with its own, never installed table: what it puts there is lost')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
struct Id { size_t operator()(size_t k) const { return k >> 3; } };
using Map = ConcurrentHashMap<size_t, size_t, Id>;
int main()
{
    demo::Scratch s;
    Map m(demo::scratch.c_str(), 8, false);
    Map::Table *t = m.table.load();
    Map::Table *other = nullptr;
    // another thread resizes while this one creates its new table
    demo::on_mmap = [&] { other = t->chm.resize(&m, t); };
    Map::Table *mine = t->chm.resize(&m, t);
    return demo::check(mine == other && mine == t->chm.newTable.load(), "a thread continues in a table that was not installed");
}
'''
