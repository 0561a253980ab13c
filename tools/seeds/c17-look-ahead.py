edits = [('containers/cliffMap/hashMap.hpp', """                // Value is not present.
                return VINITIAL;
#endif
            }

            // Probe to the next index.
            idx = (idx + 1) & (len - 1);
""", """                // Value is not present.
                return VINITIAL;
#endif
            }

            // Probe to the next index, or, in a long cluster, straight to the one behind it if the key is there.
            size_t step = (reprobeCount >= REPROBE_LIMIT && keyEq(table->key(idx + 2), key)) ? 2 : 1;
            idx = (idx + step) & (len - 1);
""")]
meta = dict(property='C17', needs='a lookup that runs through a cluster of more than ten slots that reaches the last two slots of the table', what_it_breaks='the lookup reads the memory behind the last slot of the table')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
struct Id { size_t operator()(size_t k) const { return k >> 3; } };
using Map = ConcurrentHashMap<size_t, size_t, Id>;
#include <sys/wait.h>
// A cluster of keys that runs over the end of a table whose last slot is followed by memory nobody may touch.
static int run()
{
    demo::Scratch s;
    Map m(demo::scratch.c_str(), 256, false);
    Map::Table *t = m.table.load();
    size_t bytes = t->len * sizeof(Map::KVpair);
    if (bytes % 4096)
        return demo::check(false, "table size");
    char *two = (char *)syscall(SYS_mmap, nullptr, bytes + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    Map::KVpair *copy = (Map::KVpair *)two;
    memcpy((void *)copy, (void *)t->pairs, bytes);
    mprotect(two + bytes, 4096, PROT_NONE);
    t->pairs = copy;
    // All of these have the same home slot, 14 slots before the end.
    size_t n = t->len;
    for (size_t i = 0; i < 20; i++)
    {
        copy[(n - 14 + i) % n].key.store((n - 14 + n * i) << 3);
        copy[(n - 14 + i) % n].value.store((100 + i) << 3);
    }
    for (size_t i = 0; i < 20; i++)
        if (m.get((n - 14 + n * i) << 3) != (100 + i) << 3)
            return demo::check(false, "a binding is gone");
    return 0;
}
int main()
{
    pid_t p = fork();
    if (!p) { alarm(30); _exit(run()); }
    int st = 0;
    waitpid(p, &st, 0);
    return demo::check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "a lookup left the table");
}
'''
