
edits = [('containers/cliffMap/hashMap.hpp', """                PERSIST(pairs, sizeof(KVpair) * tableCapacity);
""", """                PERSIST(pairs, sizeof(pairs) * tableCapacity);
""")]
meta = dict(property='C09', needs='a power failure right after a table was created', what_it_breaks='only the first half of a new table is written back before the table becomes reachable')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
int main()
{
    demo::Scratch s;
    ConcurrentHashMap<KeyT, ValT> m(demo::scratch.c_str(), 64, false);
    // every word of the new table is durable as it was written
    for (auto &r : demo::regions)
        if (memcmp(r.base, r.durable.data(), r.len))
            return demo::check(false, "a new table is in use before it has been written back");
    return 0;
}
'''
