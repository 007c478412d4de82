// Brings a cache into the state it has after very many stores: finds the version counter inside the cache object by watching which
// word follows the versions of freshly created items, and sets it ahead. Does nothing (and says so) when there is no such word.
#pragma once
#include <cachelot/cache.h>
#include <cstring>
#include <vector>

inline bool age_versions(cachelot::cache::Cache & c, uint64_t target) {
    typedef cachelot::cache::Cache Cache; const size_t N = sizeof(Cache); uint64_t t[3]; std::vector<unsigned char> snap[3]; unsigned char * raw = reinterpret_cast<unsigned char *>(&c);
    auto probe = [&]() -> uint64_t { auto it = c.create_item(cachelot::slice("version-probe", 13), 12345, 1, 0, cachelot::cache::seconds(0)); uint64_t v = it->timestamp(); c.destroy_item(it); return v; };
    try { for (int i = 0; i < 3; ++i) { t[i] = probe(); snap[i].assign(raw, raw + N); } } catch (const std::exception &) { return false; } // no room for the probes
    if (t[1] != t[0] + 1 || t[2] != t[1] + 1 || t[2] + 16 >= target) return false;
    auto read = [&](const unsigned char * p, size_t w) -> uint64_t { if (w == 8) { uint64_t v; memcpy(&v, p, 8); return v; } uint32_t v; memcpy(&v, p, 4); return v; };
    for (size_t w : {size_t(8), size_t(4)}) {
        size_t found = 0, at = 0; uint64_t ahead = 0;
        for (size_t o = 0; o + w <= N; o += w) for (uint64_t d = 0; d < 2; ++d) { bool all = true; for (int i = 0; i < 3; ++i) all = all && read(&snap[i][o], w) == t[i] + d; if (all) { ++found; at = o; ahead = d; } }
        if (found == 1) {
            if (w == 4 && target > 0xffffffffull) target = 0xfffffff0ull;
            uint64_t v = target + ahead; if (w == 8) memcpy(raw + at, &v, 8); else { uint32_t v4 = uint32_t(v); memcpy(raw + at, &v4, 4); }
            return true;
        }
        if (found > 1) return false;
    }
    return false;
}
