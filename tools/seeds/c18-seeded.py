edits = [('hashing/hash.hpp', """        xxh::hash_t<64> hash = xxh::xxhash<64>(input);
""", """        // Different slots in every run, so that colliding keys cannot be prepared in advance.
        static const uint64_t seed = (uint64_t)std::chrono::system_clock::now().time_since_epoch().count();
        xxh::hash_t<64> hash = xxh::xxhash<64>(input, seed);
""")]
meta = dict(property='C18', needs='a restart', what_it_breaks='after a restart keys hash to other slots, so recovered bindings are not found')
copy = ['demo.hpp']
demo = r'''
#include <array>
#include <chrono>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>
#include "hashing/hash.hpp"
int main()
{
    for (size_t k : {(size_t)0, (size_t)1, (size_t)8, ~(size_t)0})
        printf("%zx %zx\n", xxhash<size_t>{}(k), NaiveHash<size_t>{}(k));
}
'''
sh = r'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++2a -O1 -w -I. -Iinclude -Ihashing "$D/demo.cpp" -o "$T/demo" || exit 2
"$T/demo" > "$T/a" && sleep 0.1 && "$T/demo" > "$T/b" || exit 2
cmp "$T/a" "$T/b"
'''
