
edits = [('include/persistence.hpp', """    FLUSH(address);
    FENCE;
    address->compare_exchange_strong(value, (U)((uintptr_t)value & ~DirtyFlag));
    return value;
""", """    // Unflag first, so that other readers need not wait for (or repeat) the write-back.
    address->compare_exchange_strong(value, (U)((uintptr_t)value & ~DirtyFlag));
    FLUSH(address);
    FENCE;
    return value;
""")]
meta = dict(property='C06', needs='a second thread that reads the word, and a crash, between unflagging and write-back', what_it_breaks='the not-yet-durable mark is removed before the word has been written back')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
int main()
{
    demo::Scratch s;
    ConcurrentHashMap<KeyT, ValT> m(demo::scratch.c_str(), 64, false);
    int bad = 0;
    // Whenever a write-back starts: a word without the mark has to be durable already.
    demo::on_flush = [&](const void *) {
        for (auto &r : demo::regions)
            for (size_t i = 0; i + 8 <= r.len; i += 8)
            {
                size_t now, then;
                memcpy(&now, r.base + i, 8);
                memcpy(&then, r.durable.data() + i, 8);
                if (!(now & DirtyFlag) && now != (then & ~DirtyFlag))
                    bad = 1;
            }
    };
    for (size_t k = 1; k < 20; k++)
        m.put(k << 3, k << 3);
    demo::on_flush = nullptr;
    return demo::check(!bad, "a word lost its mark before it was durable");
}
'''
