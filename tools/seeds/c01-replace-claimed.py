
edits = [('containers/cliffMap/hashMap.hpp', """                // And either the value we wish to assign isn't VINITIAL or we aren't expecting a tombstone
                (V != VINITIAL || oldVal != VTOMBSTONE))
""", """                // And there is a value at all (a fresh slot counts as a tombstone)
                V != VINITIAL)
""")]
meta = dict(property='C01', needs='a conditional replacement of a key that has no value', what_it_breaks='replace(key, old, new) on an absent key inserts the new value')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
using Map = ConcurrentHashMap<size_t, size_t>;
int main()
{
    demo::Scratch s;
    Map m(demo::scratch.c_str(), 64, false);
    bool r = m.replace(1 << 3, 5 << 3, 6 << 3);
    return demo::check(!r && !m.containsKey(1 << 3), "replace-if-equal stored a value for an absent key");
}
'''
