edits = [('include/marking.hpp', """    return (void *)(p & ~flag);
""", """    // Clearing a mark leaves the plain address or value.
    return (void *)(flag ? p & AddressMask : p);
""")]
meta = dict(property='C13', needs='a word that carries both flags', what_it_breaks='clearing the hand-over flag also drops the flag that says the word may not be durable yet')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
int main()
{
    for (uintptr_t x : {(uintptr_t)0, (uintptr_t)(5 << 3), ~(uintptr_t)7, (uintptr_t)1 << 63})
        for (uintptr_t f : {0, 1, 2, 3})
        {
            if ((uintptr_t)clearMark(x | f, MigrationFlag) != (x | (f & DirtyFlag)) ||
                (uintptr_t)clearMark(x | f, DirtyFlag) != (x | (f & MigrationFlag)) ||
                (uintptr_t)setMark(x | f, MigrationFlag) != (x | f | MigrationFlag) ||
                (uintptr_t)setMark(x | f, DirtyFlag) != (x | f | DirtyFlag) ||
                !!isMarked(x | f, MigrationFlag) != !!(f & MigrationFlag) || !!isMarked(x | f, DirtyFlag) != !!(f & DirtyFlag))
                return demo::check(false, "a flag operation touches another flag");
        }
    return 0;
}
'''
