edits = [('containers/ucfMap.hpp', """            return c->remove(el << ConcurrentHashMap<KeyT, ValT>::BITS_MARKED);
""", """            // Do not start an update for a key that is not there.
            const KeyT key = el << ConcurrentHashMap<KeyT, ValT>::BITS_MARKED;
            if (!c->containsKey(key))
                return false;
            c->remove(key);
            return true;
""")]
meta = dict(property='C14', needs='two threads erasing the same key, one between the look-up and the removal of the other', what_it_breaks='both are told that they removed the binding')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
TestOptions::TestOptions() {}
int main()
{
    demo::Scratch s;
    TestOptions o;
    o.capacity = 6;
    o.filename = demo::scratch;
    ucf::container_type c(o, false);
    if (!c.insert(5) || c.insert(5) || !c.contains(5))
        return demo::check(false, "insert answers wrongly");
    // Erase while another thread erases it during this one's first look at the value.
    auto *t = c.c->table.load();
    size_t n = 0, i = 0;
    for (; i < t->len; i++)
        if (t->key(i) == 5 << 3) { t->pairs[i].value.fetch_or(DirtyFlag); break; }
    bool once = true;
    demo::on_flush = [&](const void *) { if (once) { once = false; if (c.erase(5)) n++; } };
    if (c.erase(5)) n++;
    demo::on_flush = nullptr;
    return demo::check(n == 1 && !c.contains(5), "a binding was removed twice (or not at all)");
}
'''
