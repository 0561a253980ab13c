
edits = [('containers/cliffMap/hashMap.hpp', """            if (oldValue == VINITIAL || oldValue == VTOMBSTONE)
            {
                oldValue = 0;
            }
""", """            if (oldValue == VINITIAL)
            {
                oldValue = 0;
            }
""")]
meta = dict(property='C02', needs='an increment of a key that was removed before', what_it_breaks='the increment is computed from the internal encoding of a removed value')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
using Map = ConcurrentHashMap<size_t, size_t>;
int main()
{
    demo::Scratch s;
    Map m(demo::scratch.c_str(), 64, false);
    m.put(1 << 3, 5 << 3);
    m.remove(1 << 3);
    m.update(1 << 3, 1 << 3, Map::Table::increment);
    return demo::check(m.get(1 << 3) == 1 << 3, "incrementing a removed key did not give 1");
}
'''
