
edits = [('containers/cliffMap/hashMap.hpp', """                // Truncate will actually extend the size of the file by filling with NULL.
                if (ftruncate(fd, length) == -1)
""", """                // Reserve the space now: running out of it later would kill us.
                if (posix_fallocate(fd, 0, length) == -1)
""")]
meta = dict(property='C16', needs='a full file system when a table is created', what_it_breaks='posix_fallocate reports errors as positive numbers, so a failure goes unnoticed and the map uses memory beyond the end of the file')
demo = r'''
#include "demo.hpp"
#include <signal.h>
#include "containers/ucfMap.hpp"
// the file system is full
extern "C" int posix_fallocate(int fd, off_t, off_t n) noexcept { return ENOSPC; }
int main()
{
    demo::Scratch s;
    demo::fail_ftruncate = 1;
    signal(SIGBUS, [](int) { _exit(1); });
    try
    {
        ConcurrentHashMap<KeyT, ValT> m(demo::scratch.c_str(), 1024, false);
    }
    catch (const std::exception &)
    {
        return 0;
    }
    return demo::check(false, "a failing system call was ignored");
}
'''
