// Support for demonstrations on the persistent map: table files are redirected into a scratch directory, write-backs are
// recorded so that the durable image can be inspected, and hooks let another "thread" act at a chosen point.
#pragma once
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <immintrin.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <unistd.h>

inline std::recursive_mutex demo_mutex;
namespace demo
{
    inline std::string scratch;
    struct Scratch
    {
        Scratch()
        {
            std::string d = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/pmapdemo-XXXXXX"; char t[256]; strcpy(t, d.c_str());
            if (!mkdtemp(t)) { perror("mkdtemp"); _exit(2); }
            scratch = t;
        }
        ~Scratch() { std::error_code e; std::filesystem::remove_all(scratch, e); }
    };
    inline std::string redirect(const char *p)
    {
        static const char *from = "/mnt/pmem/pm1/tables/";
        if (strncmp(p, from, strlen(from)) == 0)
            return scratch + "/" + (p + strlen(from));
        return p;
    }
    struct Region { char *base; size_t len; std::string file; std::vector<char> durable; };
    inline std::vector<Region> regions;
    inline std::map<int, std::string> names;
    inline std::vector<std::pair<const char *, std::vector<char>>> pending;
    inline std::function<void(const void *)> on_flush;   // before a write-back
    inline std::function<void()> on_mmap;                // before a file is mapped
    inline int fail_fstat = 0, fail_ftruncate = 0, fail_mmap = 0, fail_rename = 0; // n: the n-th call from now fails
    inline int open_fds = 0;
    inline size_t unmapped = 0;
    inline bool record_all = false;
    inline std::set<uintptr_t> lines;                    // lines written back outside of table files
    inline Region *region(const void *p)
    {
        for (auto &r : regions)
            if ((const char *)p >= r.base && (const char *)p < r.base + r.len)
                return &r;
        return nullptr;
    }
    inline void clflush(const void *q)
    {
        std::lock_guard<std::recursive_mutex> g(demo_mutex);
        if (on_flush)
        {
            auto f = on_flush;
            on_flush = nullptr;
            f(q);
            if (!on_flush) on_flush = f;
        }
        const char *p = (const char *)((uintptr_t)q & ~(uintptr_t)63);
        if (Region *r = region(p))
            pending.push_back({p, std::vector<char>(p, p + std::min<size_t>(64, r->base + r->len - p))});
        else if (record_all) lines.insert((uintptr_t)p);
    }
    inline void sfence()
    {
        std::lock_guard<std::recursive_mutex> g(demo_mutex);
        for (auto &x : pending)
            if (Region *r = region(x.first))
                memcpy(r->durable.data() + (x.first - r->base), x.second.data(), x.second.size());
        pending.clear();
    }
    // What a power failure now would leave: every table file as far as it has been written back, in directory d.
    inline void crash_image(const std::string &d)
    {
        std::filesystem::create_directories(d);
        for (auto &r : regions)
        {
            std::ofstream o(d + "/" + std::filesystem::path(r.file).filename().string(), std::ios::binary);
            o.write(r.durable.data(), r.durable.size());
        }
    }
    inline bool fails(int &n) { return n > 0 && --n == 0; }
    inline int check(bool ok, const char *what)
    {
        if (!ok) fprintf(stderr, "demonstration: %s\n", what);
        return ok ? 0 : 1;
    }
}

extern "C" int open(const char *p, int flags, ...)
{
    std::lock_guard<std::recursive_mutex> g(demo_mutex);
    va_list ap;
    va_start(ap, flags);
    int mode = flags & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    std::string n = demo::redirect(p);
    int fd = syscall(SYS_openat, AT_FDCWD, n.c_str(), flags, mode);
    if (fd >= 0) { demo::names[fd] = n; if (n.find(".dat") != std::string::npos) demo::open_fds++; }
    return fd;
}
extern "C" int close(int fd)
{
    std::lock_guard<std::recursive_mutex> g(demo_mutex);
    if (demo::names.count(fd)) { if (demo::names[fd].find(".dat") != std::string::npos) demo::open_fds--; demo::names.erase(fd); }
    return syscall(SYS_close, fd);
}
extern "C" int ftruncate(int fd, off_t n) noexcept
{
    if (demo::fails(demo::fail_ftruncate)) { errno = EIO; return -1; }
    return syscall(SYS_ftruncate, fd, n);
}
extern "C" int rename(const char *a, const char *b) noexcept
{
    std::lock_guard<std::recursive_mutex> g(demo_mutex);
    if (demo::fails(demo::fail_rename)) { errno = EIO; return -1; }
    std::string x = demo::redirect(a), y = demo::redirect(b);
    for (auto &r : demo::regions)
        if (r.file == x) r.file = y;
    return syscall(SYS_rename, x.c_str(), y.c_str());
}
extern "C" int fstat(int fd, struct stat *s) noexcept
{
    if (demo::fails(demo::fail_fstat)) { errno = EIO; return -1; }
    return syscall(SYS_newfstatat, fd, "", s, AT_EMPTY_PATH);
}
extern "C" void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) noexcept
{
    std::lock_guard<std::recursive_mutex> g(demo_mutex);
    if (fd < 0 || !demo::names.count(fd))
        return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, o);
    if (demo::on_mmap) { auto f = demo::on_mmap; demo::on_mmap = nullptr; f(); }
    if (demo::fails(demo::fail_mmap)) { errno = ENOMEM; return MAP_FAILED; }
    void *p = (void *)syscall(SYS_mmap, a, n, prot, flags, fd, o);
    if (p != MAP_FAILED && (prot & PROT_WRITE))
        demo::regions.push_back({(char *)p, n, demo::names[fd], std::vector<char>((char *)p, (char *)p + n)});
    return p;
}
extern "C" int munmap(void *p, size_t n) noexcept
{
    std::lock_guard<std::recursive_mutex> g(demo_mutex);
    for (size_t i = 0; i < demo::regions.size(); i++)
        if (demo::regions[i].base == (char *)p)
        {
            demo::unmapped++;
            demo::regions.erase(demo::regions.begin() + i);
            break;
        }
    return syscall(SYS_munmap, p, n);
}
#define _mm_clflush(p) demo::clflush(p)
#define _mm_sfence() demo::sfence()
