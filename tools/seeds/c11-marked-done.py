
edits = [('containers/cliffMap/hashMap.hpp', """                    if (val == VTOMBSTONE ||
                        val == VINITIAL ||
                        val == TOMBPRIME)
""", """                    if (val == VTOMBSTONE ||
                        val == VINITIAL ||
                        isMarked((uintptr_t)val, MigrationFlag))
""")]
meta = dict(property='C11', needs='a crash after a value was frozen for migration and before it was copied, followed by recovery', what_it_breaks='recovery takes a frozen value for a migrated one and discards the table that holds the only copy')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
struct Id { size_t operator()(size_t k) const { return k >> 3; } };
using Map = ConcurrentHashMap<size_t, size_t, Id>;
int main()
{
    demo::Scratch s;
    std::string img = demo::scratch + "/image";
    {
        Map m(demo::scratch.c_str(), 8, false);
        m.put(1 << 3, 5 << 3);
        Map::Table *t = m.table.load();
        t->chm.resize(&m, t);
        // crash when the frozen value has been written back: the first write-back of the successor after that
        bool taken = false;
        demo::on_flush = [&](const void *p) {
            demo::Region *r = demo::region(p);
            if (!taken && r && r->base != (char *)t->pairs)
            {
                taken = true;
                demo::crash_image(img);
            }
        };
        m.helpCopy(nullptr);
        demo::on_flush = nullptr;
        if (!taken)
            return 0;
    }
    demo::regions.clear();
    Map m(img.c_str(), 8, true);
    return demo::check(m.get(1 << 3) == 5 << 3, "a binding did not survive the crash");
}
'''
