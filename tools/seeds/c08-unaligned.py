
edits = [('include/persistence.hpp', """    uintptr_t uptr;
    // Loop through cache-line-size (typically 64B) aligned chunks covering the given range.
    for (uptr = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);
         uptr < (uintptr_t)addr + len;
         uptr += FLUSH_ALIGN)
    {
        FLUSH(uptr);
    }
    FENCE;
""", """    uintptr_t uptr = (uintptr_t)addr & ~(FLUSH_ALIGN - 1);
    // Write back every cache-line-size (typically 64B) chunk of the given range.
    for (size_t lines = (len + FLUSH_ALIGN - 1) / FLUSH_ALIGN; lines > 0; lines--)
    {
        FLUSH(uptr);
        uptr += FLUSH_ALIGN;
    }
    FENCE;
""")]
meta = dict(property='C08', needs='a range that does not start on a cache-line boundary and whose last line is only partly covered', what_it_breaks='PERSIST counts lines from the length alone, so an unaligned range misses its last line')
demo = r'''
#include "demo.hpp"
#include "containers/ucfMap.hpp"
int main()
{
    alignas(64) static char buf[1024];
    demo::record_all = true;
    int bad = 0;
    for (size_t off = 0; off < 64; off++)
        for (size_t len = 1; len < 300; len++)
        {
            demo::lines.clear();
            PERSIST(buf + 64 + off, len);
            for (uintptr_t a = (uintptr_t)(buf + 64 + off) & ~63ul; a < (uintptr_t)(buf + 64 + off + len); a += 64)
                if (!demo::lines.count(a))
                    return demo::check(false, "a cache line of the range was not written back");
        }
    return bad;
}
'''
