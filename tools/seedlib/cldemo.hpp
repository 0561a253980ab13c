// A clevel table of our own in a pool in a scratch directory, with hooks in hashing and key comparison.
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/experimental/clevel_hash.hpp>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>

static std::function<void(uint64_t, uint64_t)> compared;        // called after every comparison of keys
static std::function<uint64_t(uint64_t)> hashed;
struct HookHash { uint64_t operator()(const pmem::obj::p<uint64_t> &k) const { return hashed(k.get_ro()); } };
struct HookEqual {
    bool operator()(const pmem::obj::p<uint64_t> &a, const pmem::obj::p<uint64_t> &b) const {
        uint64_t x = a.get_ro(), y = b.get_ro();
        if (compared) compared(x, y);
        return x == y;
    }
};
#ifndef POWER
#define POWER 2
#endif
using Map = pmem::obj::experimental::clevel_hash<pmem::obj::p<uint64_t>, pmem::obj::p<uint64_t>, HookHash, HookEqual, POWER>;
struct Root { pmem::obj::persistent_ptr<Map> cons; };
static pmem::obj::pool<Root> pool;
static Map *map;
static void quiet() { std::cout.setstate(std::ios_base::badbit); }
static void start() {
    quiet();
    std::string f = std::string(getenv("TMPDIR")) + "/pool";
    pool = pmem::obj::pool<Root>::create(f, "demo", PMEMOBJ_MIN_POOL * 8, S_IWUSR | S_IRUSR);
    auto r = pool.root();
    {
        pmem::obj::transaction::manual tx(pool);
        r->cons = pmem::obj::make_persistent<Map>();
        r->cons->set_thread_num(4);
        pmem::obj::transaction::commit();
    }
    map = r->cons.get();
}
static bool insert(uint64_t k, uint64_t t = 1) { return !map->insert(Map::value_type(k, k), t, k).found; }
static bool erase(uint64_t k, uint64_t t = 2) { return map->erase(Map::key_type(k), t).found; }
static bool has(uint64_t k) { return map->search(Map::key_type(k)).found; }
static void fail(const char *s) { fprintf(stderr, "BROKEN: %s\n", s); _exit(1); }
