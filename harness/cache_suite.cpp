// Stateful model-based testing of the cache library: C01..C07, C09, C15 (in-process part)
#include "platform.h"
#include "pbt.h"
#include "versions.h"
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <cachelot/stats.h>

using namespace pbt;
namespace cl = cachelot;
using cl::slice;
typedef cl::cache::Cache Cache;

#if defined(ADDRESS_SANITIZER)
static const bool malloc_mode = true;   // the allocator is replaced by malloc: no arena, no eviction, no accounting
#else
static const bool malloc_mode = false;
#endif

enum OpCode { CFG, SET, ADD, REPLACE, APPEND, PREPEND, CAS, GET, DEL, TOUCH, INCR, DECR, SETNUM, SETRAW, FLUSH, ADV, TICKIN,
              FILL, DRAIN, SCAN, DISCARD, BIG, GROWBIG, LONGKEY, FAILNEXT, STATS, RESETSTATS, LOOP, PAIR, FILLGROW, HUGE, AGE };
static const std::vector<std::string> NAMES = {"cfg","set","add","replace","append","prepend","cas","get","del","touch","incr","decr","setnum","setraw","flush","adv","tickin",
              "fill","drain","scan","discard","big","growbig","longkey","failnext","stats","resetstats","loop","pair","fillgrow","huge","age"};

static const uint64_t INF = ~0ull;
static const uint64_t U32MAX = 0xffffffffull;

enum Tri { NO, YES, MAYBE };

struct Entry {
    std::string value; uint16_t flags = 0; uint64_t lo = INF, hi = INF; uint64_t token = 0; bool token_known = false; bool maybe = false;
    const char * addr = nullptr; size_t size = 0;
};

struct Tagged { std::string tag, msg; };

static std::string make_value(uint64_t len, uint64_t vs) {
    std::string v(len, '\0');
    if (vs % 5 == 0) { std::fill(v.begin(), v.end(), char('a' + vs % 26)); return v; }
    uint64_t x = mix(vs + 77);
    for (uint64_t i = 0; i < len; ++i) { if (i % 8 == 0) x = mix(x); v[i] = char(x >> (8 * (i % 8))); }
    return v;
}

// decimal text of a 64-bit number, independent of the code under test
static std::string dec(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }
static bool parse_u64(const std::string & s, uint64_t & out) {
    if (s.empty() || s.size() > 20) return false;
    unsigned __int128 v = 0; for (unsigned char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); }
    if (v > ~0ull) return false;
    out = uint64_t(v); return true;
}

struct CacheSuite : Suite {
    std::string prop;
    explicit CacheSuite(std::string p) : prop(std::move(p)) {}
    std::vector<std::string> op_names() const override { return NAMES; }

    // ------------------------------------------------------------------ generator
    uint64_t gen_len(Rng & r, uint64_t page) {
        switch (r.below(12)) {
        case 0: return 0;
        case 1: case 2: case 3: return r.below(32);
        case 4: case 5: case 6: return r.below(200);
        case 7: case 8: return r.below(page / 8 + 1);
        case 9: return r.below(page / 2);
        case 10: return r.below(page);
        default: return page > 400 ? page - 100 - r.below(300) : r.below(page);
        }
    }
    uint64_t gen_ttl(Rng & r) {
        switch (r.below(12)) {
        case 0: return U32MAX; case 1: return U32MAX - r.below(3000); case 2: return 0x7fffffff + r.below(3);
        case 3: return r.below(1000000); case 4: return 0; default: return r.range(1, 6);
        }
    }
    uint64_t gen_num(Rng & r) {
        switch (r.below(9)) {
        case 0: return r.below(10); case 1: { uint64_t p = 1; for (uint64_t i = r.below(20); i > 0; --i) p *= 10; return p - 1 + r.below(3); }
        case 2: return ~0ull - r.below(20); case 3: return 10000000000000000000ull + (r.next() % 8446744073709551616ull);
        case 4: return r.next(); case 5: return 1ull << r.below(64); case 6: return r.below(1000); case 7: return 18446744073709551615ull; default: return r.next() >> r.below(64);
        }
    }
    std::string gen_raw(Rng & r) {
        static const char * fixed[] = {"", " ", "-1", "+1", "1 ", " 1", "0x10", "18446744073709551616", "99999999999999999999", "20000000000000000000", "18446744073709551620",
            "000000000000000000000", "00000000000000000001", "1a", "a1", "1.0", "1\0", "12345678901234567890123", "abc", "00", "0", "007", "19000000000000000000", "18446744073709551615 "};
        if (r.chance(70)) return fixed[r.below(sizeof fixed / sizeof *fixed)];
        std::string s = dec(gen_num(r)); s[r.below(s.size())] = char(r.below(256)); return s;
    }

    Case gen(Rng & r, uint64_t index, int tier) override {
        Case c; (void)index;
        bool evict = false; uint64_t nkeys = r.oneof({4, 8, 16, 40}), lp = r.oneof({9, 10, 11, 12, 13, 14}), lm, ld = r.oneof({0, 1, 2, 3, 4, 6, 10}), hm = r.chance(40) ? 0 : r.below(10), km = r.below(3);
        lm = lp + 2 + r.below(4);
        bool lossy = false, growth = false;
        uint64_t nops = r.range(10, 200);
        std::vector<unsigned> w(NAMES.size(), 0);
        auto set_w = [&](std::initializer_list<std::pair<int, unsigned>> l) { for (auto & p : l) w[p.first] = p.second; };
        // defaults: a bit of everything that cannot fail
        set_w({{SET,20},{ADD,8},{REPLACE,8},{APPEND,6},{PREPEND,6},{CAS,5},{GET,15},{DEL,10},{TOUCH,2},{INCR,2},{DECR,2},{SETNUM,2},{SCAN,1},{FLUSH,1},{DISCARD,1}});
        if (prop == "C01") {
            lm = 20; lp = r.oneof({12, 13, 14, 16}); growth = r.chance(35); set_w({{ADV, 1}});
            if (growth && r.chance(25)) { nkeys = r.oneof({4500, 9000, 18000, 18000}); ld = r.oneof({11, 12, 13, 14}); lm = 22; hm = r.oneof({0, 4, 8, 9}); km = 0; nops = r.range(20, 120); set_w({{FILLGROW, 4}, {FILL, 2}, {DRAIN, 3}, {GET, 25}, {DEL, 20}, {ADD, 20}, {CAS, 10}, {TOUCH, 8}, {INCR, 8}, {FLUSH, 3}, {ADV, 4}, {SCAN, 0}}); }
            else if (growth) { nkeys = r.oneof({40, 300, 1500, 3000, 6000}); ld = r.oneof({0, 2, 5, 8, 10, 11, 12}); lm = 21; set_w({{FILL, 14}, {DRAIN, 5}, {GET, 25}, {DEL, 15}}); if (hm == 1 && nkeys > 300) hm = 0; }
        } else if (prop == "C02") {
            evict = true; lm = lp + 2 + r.below(3); lossy = r.chance(4); nkeys = r.oneof({16, 40, 100, 300}); ld = r.oneof({0, 1, 2, 4, 6, 8, 10});
            set_w({{SET, 40}, {APPEND, 8}, {PREPEND, 8}, {INCR, 12}, {DECR, 6}, {SETNUM, 15}, {FILL, 4}, {LOOP, 4}, {ADV, 2}, {BIG, 2}});
            nops = r.range(20, 400);
            if (r.chance(12)) { nkeys = r.oneof({1500, 3000}); lp = r.oneof({11, 12, 13}); lm = r.oneof({17, 18}); ld = r.oneof({8, 9, 10}); set_w({{FILL, 12}, {INCR, 25}, {SETNUM, 15}}); hm = r.chance(50) ? 0 : 4; }
        } else if (prop == "C03") {
            lm = 18; nkeys = r.oneof({2, 4, 8}); evict = r.chance(20);
            set_w({{ADV, 30}, {TOUCH, 15}, {TICKIN, 15}, {FLUSH, 4}, {INCR, 8}, {DECR, 6}, {SETNUM, 12}, {SET, 25}, {APPEND, 10}, {PREPEND, 8}, {SCAN, 3}, {CAS, 8}});
            if (r.below(300) == 0) { evict = false; growth = true; lm = 20; lp = 12; nkeys = r.oneof({1500, 2500, 4500}); ld = r.oneof({10, 11, 12}); hm = r.oneof({0, 4}); km = 0; nops = r.range(10, 60); set_w({{FILLGROW, 12}, {FLUSH, 30}, {DRAIN, 3}, {SCAN, 1}}); } // lifetimes end while the index grows
        } else if (prop == "C04") {
            lm = 18; nkeys = r.oneof({1, 2, 4, 8}); evict = r.chance(30); if (evict) { lm = lp + 2; nkeys = r.oneof({4, 16, 40}); }
            set_w({{CAS, 60}, {INCR, 8}, {DECR, 8}, {SETNUM, 12}, {TOUCH, 8}, {DEL, 12}, {APPEND, 10}, {PREPEND, 10}, {ADV, 3}, {SETRAW, 3}}); if (!evict && r.chance(40)) set_w({{AGE, 2}});
        } else if (prop == "C05") {
            nkeys = r.oneof({1, 2, 4, 20}); evict = r.chance(40); if (evict) { nkeys = r.oneof({16, 40, 100}); lm = lp + 2; }
            else if (r.chance(30)) { nkeys = r.oneof({30, 100}); lm = lp + 2; }
            set_w({{SETNUM, 40}, {INCR, 60}, {DECR, 50}, {SETRAW, 12}, {SET, 6}, {APPEND, 4}, {PREPEND, 4}, {ADV, 3}, {TOUCH, 3}, {CAS, 3}, {ADD, 2}, {REPLACE, 3}, {FILL, evict ? 4u : 0u}});
        } else if (prop == "C06") {
            evict = r.chance(25); lm = lp + 2 + r.below(3); nkeys = r.oneof({8, 40, 100});
            set_w({{BIG, 25}, {GROWBIG, 25}, {LONGKEY, 4}, {HUGE, 4}, {SET, 25}, {INCR, 4}, {SETNUM, 4}, {SCAN, 3}, {DEL, 20}});
            if (r.chance(30)) { // index growth failures: plenty of memory, small table
                lm = 20; lp = 12; evict = false; nkeys = r.oneof({40, 300, 1500}); ld = r.oneof({0, 1, 2, 4, 6, 9, 10}); hm = r.chance(60) ? 0 : 4;
                set_w({{FAILNEXT, 40}, {FILL, 12}, {DRAIN, 2}, {BIG, 1}, {GROWBIG, 1}, {SET, 30}, {ADD, 30}});
            }
        } else if (prop == "C07") {
            evict = r.chance(40); lm = lp + 2 + r.below(3); nkeys = r.oneof({4, 16, 40});
            set_w({{DISCARD, 10}, {ADD, 20}, {REPLACE, 20}, {CAS, 20}, {APPEND, 15}, {PREPEND, 15}, {INCR, 10}, {SETNUM, 8}, {SETRAW, 4}, {TOUCH, 4}, {ADV, 4}, {FLUSH, 3}, {GROWBIG, 3}, {BIG, 2}, {LONGKEY, 1}, {HUGE, 1}});
            if (r.chance(20)) { lm = 20; lp = 12; evict = false; nkeys = r.oneof({40, 300, 1500}); ld = r.oneof({0, 1, 2, 4, 6, 9, 10}); hm = r.chance(60) ? 0 : 4; set_w({{FAILNEXT, 40}, {FILL, 10}, {DRAIN, 2}, {SET, 30}, {ADD, 30}}); }
        } else if (prop == "C09") {
            evict = r.chance(85); lm = lp + 2 + r.below(4); nkeys = r.oneof({16, 40, 100, 300}); ld = r.oneof({4, 6, 8});
            set_w({{SET, 40}, {GET, 30}, {TOUCH, 15}, {DEL, 25}, {DRAIN, 3}, {FILL, 6}, {LOOP, 8}, {PAIR, 20}, {APPEND, 3}, {PREPEND, 2}, {INCR, 3}, {SETNUM, 4}, {SCAN, 2}, {BIG, 2}});
            nops = r.range(20, 300);
        } else if (prop == "C15") {
            evict = r.chance(50); lm = lp + 2 + r.below(4); nkeys = r.oneof({2, 4, 16, 40});
            set_w({{STATS, 8}, {RESETSTATS, 1}, {INCR, 10}, {DECR, 10}, {SETNUM, 8}, {SETRAW, 3}, {TOUCH, 8}, {CAS, 12}, {FLUSH, 3}, {ADV, 4}, {FILL, 2}, {BIG, 1}, {DRAIN, 2}});
            if (r.below(500) == 0) { evict = false; growth = true; lm = 20; lp = 12; nkeys = r.oneof({1500, 2500, 4500}); ld = r.oneof({10, 11, 12}); hm = r.oneof({0, 4}); km = 0; nops = r.range(10, 60); set_w({{FILLGROW, 12}, {FLUSH, 20}, {STATS, 30}}); }
        }
        if ((prop == "C06" && r.below(4000) == 0) || (prop == "C01" && r.below(900) == 0)) { // values of tens of megabytes
            lp = 25; lm = 27; evict = prop == "C06" && r.chance(25); growth = lossy = false; nkeys = 4; ld = 4; hm = 0; km = r.below(3); nops = r.range(6, 14); std::fill(w.begin(), w.end(), 0); set_w({{SET, 30}, {ADD, 5}, {REPLACE, 5}, {APPEND, 6}, {PREPEND, 6}, {GET, 15}, {DEL, 8}, {BIG, 6}, {GROWBIG, 4}}); }
        if (!growth && r.chance(20)) { bool tick = w[TICKIN] && r.chance(50); for (size_t i = 1; i < w.size(); ++i) if (int(i) != SET && int(i) != GET && r.chance(40)) w[i] = 0; if (tick) w[TICKIN] = 6; } // swarm: some of the operations never appear in the case
        bool no_ttl_stores = r.chance(15), stores_expire = r.chance(10);
        if (tier) nops = nops * 2;
        c.push_back(Op(CFG, {lm, lp, ld, uint64_t(evict) | (lossy ? 2 : 0) | (r.below(1000) << 8), hm | (km << 8), nkeys}));
        uint64_t page = 1ull << lp, hot = 0; bool small = r.chance(50); // small: many items per page
        auto len = [&]() -> uint64_t { return growth ? r.below(40) : (small && r.chance(90)) ? r.below(std::max<uint64_t>(8, page / 16)) : gen_len(r, page); };
        auto ttl = [&]() -> uint64_t { if (no_ttl_stores) return 0; if (stores_expire && w[ADV]) return gen_ttl(r); bool t = (prop == "C03") ? r.chance(70) : (w[ADV] ? r.chance(12) : false); return t ? gen_ttl(r) : 0; };
        for (uint64_t i = 0; i < nops; ++i) {
            int op = int(r.weighted(w)); uint64_t k = r.chance(40) ? hot : r.below(nkeys); if (r.chance(25)) hot = k;
            uint64_t fl = r.chance(50) ? r.below(65536) : r.oneof({0, 1, 65535, 256});
            switch (op) {
            case SET: case ADD: case REPLACE: c.push_back(Op(op, {k, len(), r.below(1000), fl, ttl()})); break;
            case APPEND: case PREPEND: c.push_back(Op(op, {k, r.chance(60) ? r.below(40) : len(), r.below(1000), fl, ttl()})); break;
            case CAS: c.push_back(Op(op, {k, len(), r.below(1000), fl, ttl(), r.chance(85) ? r.below(6) : r.range(6, 8)})); break;
            case TOUCH: c.push_back(Op(op, {k, r.chance(15) ? 0 : gen_ttl(r)})); break;
            case INCR: case DECR: c.push_back(Op(op, {k, r.chance(40) ? r.below(20) : gen_num(r)})); break;
            case SETNUM: c.push_back(Op(op, {k, gen_num(r), fl, ttl()})); break;
            case SETRAW: c.push_back(Op(op, {k, fl, ttl()}, gen_raw(r))); break;
            case ADV: c.push_back(Op(op, {r.chance(4) ? r.oneof({3600000, 86400000, 2591999000ull, 2592001000ull, 31536000000ull, 126230400000ull}) : r.oneof({1, 400, 999, 1000, 1000, 1000, 2000, 3000, 5000, 60000, r.below(4000)})})); break;
            case TICKIN: c.push_back(Op(op, {r.below(5), r.range(1, 2)})); break;
            case FILL: case DRAIN: { uint64_t n = growth || nkeys > 400 ? r.oneof({5, 30, 200, 500, 900, 1000, 2000}) : r.below(nkeys) + 1; c.push_back(Op(op, {k, n, op == FILL ? (growth || small || nkeys > 400 ? r.below(24) : len()) : r.below(4), r.below(1000)})); break; }
            case DISCARD: c.push_back(Op(op, {k, len()})); break;
            case BIG: c.push_back(Op(op, {k, r.below(40), r.below(1000), r.below(6)})); break;      // item size = page - a1 + (a1 variations)
            case GROWBIG: c.push_back(Op(op, {k, r.below(48), r.below(1000), r.below(2)})); break;
            case LONGKEY: c.push_back(Op(op, {r.chance(50) ? r.below(300) : r.chance(50) ? 256 * r.range(1, 4) + r.below(251) - 251 : r.oneof({65536, 65537 + r.below(250), 131072, 16777216 + r.below(250)}) - 251, len()})); break;
            case HUGE: c.push_back(Op(op, {k, r.chance(50) ? (1ull << r.range(20, 63)) + r.below(page + 64) - r.below(64) : r.chance(50) ? ~0ull - r.below(400) : (r.next() >> r.below(44)) | (1 << 20)})); break;
            case FILLGROW: c.push_back(Op(op, {k, r.below(16), r.below(1000)})); break;
            case AGE: c.push_back(Op(op, {r.below(7)})); break;
            case LOOP: c.push_back(Op(op, {k, r.range(3, 40), len(), r.below(1000)})); break;
            case PAIR: c.push_back(Op(op, {k, r.below(nkeys), len(), r.below(1000), r.below(3)})); break;
            default: c.push_back(Op(op, {k})); break;
            }
        }
        return c;
    }

    // ------------------------------------------------------------------ execution
    struct Exec {
        uint64_t dict0 = 0, peak = 0; // initial size of the index, most items ever
        CacheSuite & s; const Case & c; Ctx & ctx; const std::string & prop;
        uint64_t nkeys, hm, km; bool evict, lossy; size_t page, mem, npages, limit;
        std::unique_ptr<Cache> cache; std::map<uint64_t, Entry> m; std::map<std::string, uint64_t> idx_of; std::vector<std::string> keys;
        std::map<uint64_t, std::map<uint64_t, int>> seen_tokens; // key -> tokens ever observed
        std::vector<uint64_t> all_tokens;
        std::string pending_tag, pending_msg; std::vector<uint64_t> evicted; std::vector<const char *> evicted_at; bool allow_evict = false;
        bool bulk = false; int64_t recent = -1; bool addr_reliable = true; const char * extra_addr = nullptr; size_t extra_size = 0; bool fail_next = false;
        uint64_t opno = 0; uint64_t armed_tick = 0; bool tick_armed = false; uint64_t tick_secs = 0;
        uint64_t total_evicted = 0, stat_evicted = 0;
        std::map<std::string, std::pair<uint64_t, uint64_t>> acc; // expected counters: min / max
        Exec(CacheSuite & s_, const Case & c_, Ctx & x) : s(s_), c(c_), ctx(x), prop(s_.prop) {}

        void fail(const char * tag, const std::string & msg) { throw Tagged{tag, cat("op ", opno, " (", opno < c.size() ? op_text(NAMES, c[opno]) : "end", "): ", msg)}; }
        uint64_t now() const { return uint64_t(plat::clock_sec()); }

        std::string make_key(uint64_t i) {
            if (i == 0 && hm == 0) return "77kepQFQ8Kl";
            std::string k;
            if (km == 0) { k = "k" + std::to_string(i); }
            else if (km == 1) {
                if (i < 100 && mix(i) % 5 == 0) return std::string(1, char(i + 1)); // one byte
                uint64_t len = mix(i) % 3 == 0 ? 250 : 4 + mix(i * 7 + 1) % 246; k.resize(len);
                uint64_t x = mix(i); for (auto & ch : k) { ch = char(x); x = mix(x); }
                k[0] = char(0xC0 | (i & 31)); k[1] = char(i >> 5); k[2] = char(i >> 13); k[3] = 0;
            } else { k.assign(i % 3 == 0 ? 250 : 40, 'x'); char b[16]; snprintf(b, sizeof b, "%06u", unsigned(i)); k.replace(k.size() - 6, 6, b); }
            return k;
        }
        uint32_t hash_of(uint64_t i) {
            const std::string & k = keys[i];
            switch (hm) {
            case 1: return 1; case 2: return uint32_t(1 + (i & 3)); case 3: return 0xffffffffu - uint32_t(i % 3); case 4: return uint32_t(i + 1);
            case 5: return (fnv(k) & 0x0f) | 1; case 6: return uint32_t(0x00000005u | (i << 16)); case 7: return uint32_t(0x80000000u | (mix(i) & 0x3f));
            case 8: return (uint32_t(i >> 2) + 1) | uint32_t(i & 3) << 28; case 9: return (uint32_t(mix(i)) & ~7u) | 1;
            default: return fnv(k);
            }
        }
        static uint32_t fnv(const std::string & k) { cl::cache::HashFunction h; return h(slice(k.data(), k.size())); }
        slice ks(uint64_t i) { return slice(keys[i].data(), keys[i].size()); }
        size_t isize(uint64_t k, size_t vlen) { return sizeof(cl::cache::Item) + keys[k].size() + vlen; }

        // ---- accounting
        void count(const char * n, uint64_t lo = 1, uint64_t hi = 1) { auto & p = acc[n]; p.first += lo; p.second += hi; }
        uint64_t used() const { return cl::__stats__.mem.used_memory; }
        void check_used(const char * what) {
            if (malloc_mode || lossy || bulk) return;
            uint64_t lo = 0, hi = 0;
            for (auto & kv : m) { size_t sz = isize(kv.first, kv.second.value.size()); if (!kv.second.maybe) lo += sz; hi += std::max<size_t>(sz, 64) + 96; }
            uint64_t u = used();
            if (u < lo || u > hi) fail("leak", cat("memory in use reported as ", u, " after ", what, ", live items account for ", lo, "..", hi));
            if (u > mem) fail("stats", cat("memory in use ", u, " exceeds the limit ", mem));
        }

        // ---- presence
        Tri present(uint64_t k, uint64_t t0, uint64_t t1) {
            auto it = m.find(k); if (it == m.end()) return NO;
            auto & e = it->second;
            if (e.hi <= t0) return NO;
            if (lossy || e.maybe || e.lo <= t1) return MAYBE;
            return YES;
        }
        // reconcile an observed presence with the model; returns whether the key is there
        bool resolve(uint64_t k, Tri t, bool found, const char * what) {
            if (found && t == NO) { auto it = m.find(k); fail(it != m.end() ? "ttl" : "ghost", cat(what, ": key ", k, it != m.end() ? " has expired but is still visible" : " is not in the cache but was found")); }
            if (!found && t == YES) fail("missing", cat(what, ": key ", k, " (", shorten(keys[k], 40), ") is in the cache but was not found"));
            if (!found) m.erase(k); else { auto it = m.find(k); if (it != m.end()) it->second.maybe = false; }
            return found;
        }

        void on_evict(const cl::cache::Item * i) {
            ++total_evicted; ++stat_evicted;
            std::string key(i->key().begin(), i->key().length());
            auto set_pending = [&](const char * t, std::string msg) { if (pending_tag.empty()) { pending_tag = t; pending_msg = std::move(msg); } };
            if (!evict) { set_pending("evict", "an item was evicted although evictions are disabled"); return; }
            if (!allow_evict) { set_pending("evict", "an item was evicted by an operation that stores nothing"); }
            auto f = idx_of.find(key);
            if (f == idx_of.end()) { set_pending("evict", cat("eviction reported for a key never stored: ", shorten(key))); return; }
            uint64_t k = f->second; auto it = m.find(k);
            if (it == m.end()) { set_pending("evict", cat("eviction reported for key ", k, " which is not in the cache")); return; }
            std::string v(i->value().begin(), i->value().length());
            if (v != it->second.value) set_pending("evict", cat("evicted key ", k, " reported with value ", shorten(v), " instead of ", shorten(it->second.value)));
            if (i->opaque_flags() != it->second.flags) set_pending("evict", cat("evicted key ", k, " reported with wrong flags"));
            if (int64_t(k) == recent) set_pending("recent", cat("key ", k, ", used by the operation just before, was evicted"));
            const char * a = reinterpret_cast<const char *>(i);
            if (plat::last_arena && !evicted_at.empty()) {
                size_t p0 = (evicted_at[0] - plat::last_arena->base) / page, p1 = (a - plat::last_arena->base) / page;
                if (p0 != p1) set_pending("recent", cat("one store evicted items of two pages (", p0, " and ", p1, ")"));
            }
            evicted.push_back(k); evicted_at.push_back(a);
            if (!lossy) m.erase(it);
            ctx.hit("evictions");
        }
        void raise_pending() { if (!pending_tag.empty()) { auto t = pending_tag, msg = pending_msg; pending_tag.clear(); fail(t.c_str(), msg); } }

        // largest run of memory that is certainly free (conservative); 0 if unknown
        size_t certain_free_run(std::vector<std::pair<uint64_t, Entry>> before_extra = {}) {
            if (malloc_mode || lossy || !addr_reliable || !plat::last_arena) return 0;
            std::vector<std::pair<size_t, size_t>> ext; char * base = plat::last_arena->base;
            auto add = [&](const Entry & e, size_t sz) -> bool { if (!e.addr) return false; size_t o = e.addr - base; ext.emplace_back(o >= 32 ? o - 32 : 0, o + std::max<size_t>(sz, 64) + 96); return true; };
            for (auto & kv : m) if (!add(kv.second, kv.second.size)) return 0;
            for (auto & kv : before_extra) if (!add(kv.second, kv.second.size)) return 0;
            if (extra_addr) { Entry e; e.addr = extra_addr; add(e, extra_size); }
            std::sort(ext.begin(), ext.end());
            size_t best = 0, i = 0, carry = 0;
            for (size_t p = 0; p < npages; ++p) {
                size_t pos = std::max(p * page, carry), end = (p + 1) * page;
                while (i < ext.size() && ext[i].first < end) { if (ext[i].first > pos) best = std::max(best, ext[i].first - pos); pos = std::max(pos, ext[i].second); ++i; }
                carry = pos;
                if (pos < end) best = std::max(best, end - pos);
            }
            return best;
        }
        // an allocation of `size` bytes failed or evicted: was that necessary?
        void check_need(size_t size, const char * tag, const std::map<uint64_t, Entry> * before = nullptr) {
            if (lossy || malloc_mode) return;
            std::vector<std::pair<uint64_t, Entry>> extra; size_t n = m.size();
            if (before) for (auto k : evicted) { auto it = before->find(k); if (it != before->end()) { extra.push_back(*it); ++n; } }
            // the allocator looks only at the first block of the request's own size class: a whole free page is certain
            // to be found only by requests of a smaller class
            if (size <= page - page / 16 && n + (extra_addr ? 1 : 0) < npages) fail(tag, cat("no memory (or eviction) for an item of ", size, " bytes although a whole page must be free: ", n, " items in ", npages, " pages"));
            size_t run = certain_free_run(extra);
            if (run >= 2 * size + 512) fail(tag, cat("no memory (or eviction) for an item of ", size, " bytes although a run of ", run, " bytes is free"));
        }

        void begin() { evicted.clear(); evicted_at.clear(); pending_tag.clear(); }
        void arm() { if (tick_armed) { plat::tick_after = int64_t(armed_tick); plat::tick_ns = int64_t(tick_secs) * 1000000000ll; } }
        void disarm() { if (plat::tick_after == -1 && tick_armed) ctx.hit("tick_inside_operation"); plat::tick_after = -1; tick_armed = false; }

        // create an item; nullptr if refused (and the refusal was legitimate)
        cl::cache::Item * create(uint64_t k, const std::string & v, uint16_t flags, uint64_t ttl, uint64_t & lo, uint64_t & hi) {
            size_t size = isize(k, v.size()); std::map<uint64_t, Entry> before; bool keep = evict && !malloc_mode && !lossy && m.size() < 400; if (keep) before = m;
            uint64_t t0 = now(); cl::cache::Item * item = nullptr; allow_evict = true; uint64_t u0 = used(); auto items = [&] { cache->publish_stats(); return uint64_t(cl::__stats__.cache.curr_items); }; uint64_t n0 = prop == "C02" ? items() : 0;
            try { item = cache->create_item(ks(k), hash_of(k), v.size(), flags, cl::cache::seconds(uint32_t(ttl))); }
            catch (const cl::system_error & e) {
                allow_evict = false; raise_pending();
                if (e.code() == cl::error::item_too_big) { if (size <= limit) fail("err", cat("item of ", size, " bytes refused as too big, the page takes ", limit)); ctx.hit("refused_too_big"); }
                else if (e.code() == cl::error::out_of_memory) { if (size > limit) fail("err", cat("item of ", size, " bytes (limit ", limit, ") refused as out of memory")); if (evict) fail("err", "out of memory although evictions are enabled"); check_need(size, "need"); ctx.hit("refused_out_of_memory"); }
                else fail("err", cat("unexpected error ", e.what()));
                if (!evicted.empty()) fail("evict", "a refused store evicted items");
                if (used() != u0 && !malloc_mode) fail("leak", "a refused store changed the memory in use");
                return nullptr;
            }
            allow_evict = false; raise_pending();
            if (prop == "C02") { uint64_t n1 = items(); if (n0 - n1 != evicted.size() && !lossy) fail("evict", cat(n0 - n1, " items were evicted, ", evicted.size(), " were announced")); }
            if (size > limit) fail("err", cat("item of ", size, " bytes accepted although a page takes only ", limit));
            uint64_t t1 = now(); lo = ttl == 0 ? INF : t0 + ttl; hi = ttl == 0 ? INF : t1 + ttl; if (lo >= U32MAX) lo = INF; if (hi >= U32MAX) hi = INF;
            const char * a = reinterpret_cast<const char *>(item);
            if (!malloc_mode && plat::last_arena) {
                auto & ar = *plat::last_arena;
                if (a < ar.base || a + size > ar.base + ar.size) fail("bounds", "item placed outside of the memory of the cache");
                if ((a - ar.base) / page != (a + size - 1 - ar.base) / page) fail("bounds", "item crosses a page boundary");
            }
            if (uintptr_t(a) % sizeof(void *)) fail("bounds", "item is not aligned");
            if (addr_reliable && !lossy && !malloc_mode && m.size() < 400) for (auto & kv : m) if (kv.second.addr && present(kv.first, t0, t1) == YES && a < kv.second.addr + kv.second.size && kv.second.addr < a + size) fail("content", cat("new item overlaps the memory of key ", kv.first));
            if (!evicted.empty()) { ctx.hit("evicting_stores"); extra_addr = nullptr; if (keep) check_need(size, "need", &before); if (prop == "C02" || prop == "C09" || prop == "C15" || prop == "C07") ctx.mark(); }
            item->assign_value(slice(v.data(), v.size()));
            return item;
        }

        void put_model(uint64_t k, const std::string & v, uint16_t flags, uint64_t lo, uint64_t hi, const char * addr) {
            peak = std::max<uint64_t>(peak, m.size() + 1);
            Entry e; e.value = v; e.flags = flags; e.lo = lo; e.hi = hi; e.addr = addr; e.size = isize(k, v.size()); m[k] = std::move(e);
        }

        // run `f` with heap allocations failing if requested; returns false if it threw because of that
        template <class F> bool guarded(F f) {
            if (!fail_next) { f(); return true; }
            fail_next = false; bool ok = true; uint64_t before = plat::alloc_failed;
            plat::alloc_fail = true;
            try { f(); } catch (const std::bad_alloc &) { ok = false; } catch (...) { plat::alloc_fail = false; throw; }
            plat::alloc_fail = false;
            if (plat::alloc_failed != before) { ctx.hit("injected_allocation_failures"); ctx.mark(); }
            if (!ok && plat::alloc_failed == before) fail("err", "out of system memory reported without any failing allocation");
            return ok;
        }

        // set/add/replace/append/prepend/cas
        void store(int op, uint64_t k, const std::string & v, uint16_t flags, uint64_t ttl, uint64_t tokmode = 0) {
            begin();
            uint64_t token = 0; bool have_token = false;
            if (op == CAS) { // find out the current token without disturbing anything if possible
                auto it = m.find(k);
                if (it != m.end() && !it->second.token_known && present(k, now(), now()) != NO) { tick_armed = false; get(k, false); it = m.find(k); }
                if (it != m.end() && it->second.token_known) { token = it->second.token; have_token = true; }
                auto & st = seen_tokens[k];
                switch (tokmode) {
                case 0: case 1: break;
                case 2: if (st.size() > 1) { auto q = st.begin(); std::advance(q, flags % st.size()); token = q->first; } else token += 1; break;
                case 3: token += 1; break;
                case 4: token = all_tokens.empty() ? 7 : all_tokens[(flags * 31 + opno) % all_tokens.size()]; break;
                case 5: token = token ? token - 1 : 0; break;
                case 6: token ^= 1ull << 32; break;
                case 7: token ^= 1ull << 16; break;
                case 8: token = uint32_t(token); break;
                }
            }
            arm();
            uint64_t lo, hi; auto item = create(k, v, flags, ttl, lo, hi);
            if (!item) { disarm(); recent = -1; check_used("a refused store"); return; }
            const char * addr = reinterpret_cast<const char *>(item); size_t asize = isize(k, v.size());
            uint64_t u1 = used(); (void)asize;
            uint64_t t0 = now(); bool result = true, stored = false, thrown_big = false, thrown_oom = false; bool ok = true; bool was = m.count(k) > 0;
            Tri before_tri; // decided after the fact because the clock may tick inside
            extra_addr = addr; extra_size = isize(k, v.size());
            try {
                ok = guarded([&] {
                    switch (op) {
                    case SET: cache->do_set(item); break;
                    case ADD: result = cache->do_add(item); break;
                    case REPLACE: result = cache->do_replace(item); break;
                    case APPEND: result = cache->do_append(item); break;
                    case PREPEND: result = cache->do_prepend(item); break;
                    case CAS: { auto t = cache->do_cas(item, token); result = std::get<0>(t); stored = std::get<1>(t); break; }
                    }
                });
            } catch (const cl::system_error & e) {
                if (e.code() == cl::error::item_too_big) thrown_big = true; else if (e.code() == cl::error::out_of_memory) thrown_oom = true; else { disarm(); fail("err", cat("unexpected error ", e.what())); }
            }
            uint64_t t1 = now(); disarm(); raise_pending(); extra_addr = nullptr;
            before_tri = present(k, t0, t1);
            static const char * CMD[] = {"", "cmd_set", "cmd_add", "cmd_replace", "cmd_append", "cmd_prepend", "cmd_cas"};
            count(CMD[op], ok ? 1 : 0, 1);
            if (!ok) { // heap exhausted: nothing may have changed
                ctx.hit("store_failed_by_injection"); if (m.count(k)) m[k].maybe = m[k].maybe || before_tri != YES;
                for (auto n : {"set_new", "set_existing", "add_stored", "add_not_stored", "replace_stored", "replace_not_stored", "cas_stored", "cas_misses", "cas_badval", "append_stored", "append_misses", "prepend_stored", "prepend_misses"}) count(n, 0, 1);
                rejected(u1, was, isize(k, v.size())); check_used("a store refused by the system"); recent = -1; return;
            }
            recent = -1;
            switch (op) {
            case SET: {
                if (before_tri == YES) count("set_existing"); else if (before_tri == NO) count("set_new"); else { count("set_existing", 0, 1); count("set_new", 0, 1); }
                bool fresh = before_tri == NO; put_model(k, v, flags, lo, hi, addr); if (fresh) recent = int64_t(k); break; }
            case ADD: {
                bool found = !result; resolve(k, before_tri, found, "add");
                count(found ? "add_not_stored" : "add_stored");
                if (!found) { put_model(k, v, flags, lo, hi, addr); recent = int64_t(k); } else rejected(u1, was, isize(k, v.size())); break; }
            case REPLACE: {
                resolve(k, before_tri, result, "replace"); count(result ? "replace_stored" : "replace_not_stored");
                if (result) put_model(k, v, flags, lo, hi, addr); else rejected(u1, was, isize(k, v.size())); break; }
            case CAS: {
                resolve(k, before_tri, result, "cas");
                count(!result ? "cas_misses" : stored ? "cas_stored" : "cas_badval");
                if (!result && stored) fail("cas", "cas reports 'not found' and 'stored' at once");
                if (result) {
                    if (have_token) {
                        bool want = m[k].token == token;
                        if (want != stored) fail("cas", cat("cas on key ", k, " with ", want ? "the current" : "an outdated", " version was ", stored ? "stored" : "rejected"));
                        ctx.hit(want ? "cas_with_current_version" : "cas_with_other_version"); if (prop == "C04") ctx.mark();
                    }
                    if (stored) put_model(k, v, flags, lo, hi, addr); else rejected(u1, was, isize(k, v.size()));
                } else rejected(u1, was, isize(k, v.size()));
                break; }
            case APPEND: case PREPEND: {
                const char * nm = op == APPEND ? "append" : "prepend";
                if (thrown_big || thrown_oom) {
                    if (before_tri == NO) fail("ghost", cat(nm, " to an absent key failed with an error"));
                    Entry & e = m[k]; size_t total = isize(k, e.value.size() + v.size());
                    if (thrown_big && total <= limit) fail("err", cat(nm, " making an item of ", total, " bytes refused as too big (limit ", limit, ")"));
                    if (thrown_oom && total > limit) fail("err", cat(nm, " making an item of ", total, " bytes reported as out of memory instead of too big"));
                    if (thrown_oom) { extra_addr = addr; extra_size = isize(k, v.size()); check_need(total, "need"); extra_addr = nullptr; }
                    ctx.hit(thrown_big ? "extend_too_big" : "extend_out_of_memory"); rejected(u1, was, isize(k, v.size()));
                    count(op == APPEND ? "append_stored" : "prepend_stored", 0, 1);
                    if (prop == "C06") ctx.mark();
                } else {
                    resolve(k, before_tri, result, nm);
                    count(op == APPEND ? (result ? "append_stored" : "append_misses") : (result ? "prepend_stored" : "prepend_misses"));
                    if (result) {
                        Entry e = m[k]; std::string nv = op == APPEND ? e.value + v : v + e.value;
                        if (isize(k, nv.size()) > limit) fail("err", cat(nm, " accepted although the item grew to ", isize(k, nv.size()), " bytes (limit ", limit, ")"));
                        put_model(k, nv, e.flags, e.lo, e.hi, nullptr); recent = int64_t(k);
                    } else rejected(u1, was, isize(k, v.size()));
                }
                break; }
            }
            if ((thrown_big || thrown_oom) && op != APPEND && op != PREPEND) fail("err", "store refused after the item had been created");
            check_used(NAMES[op].c_str());
        }
        // a command created an item of `size` bytes but did not keep it: memory must be back
        void rejected(uint64_t used_with_item, bool was, size_t size) {
            ctx.hit("rejected_stores"); if (malloc_mode || lossy) return;
            if (prop == "C07") ctx.mark();
            uint64_t u = used(); (void)was;
            if (u + size > used_with_item) fail("leak", cat("memory of a rejected item of ", size, " bytes not given back: ", used_with_item, " before, ", u, " after"));
        }

        void get(uint64_t k, bool allow_tick = true) {
            begin(); if (allow_tick) arm(); uint64_t t0 = now();
            auto i = cache->do_get(ks(k), hash_of(k));
            uint64_t t1 = now(); if (allow_tick) disarm(); raise_pending();
            count("cmd_get"); Tri t = present(k, t0, t1);
            bool found = resolve(k, t, i != nullptr, "get"); count(found ? "get_hits" : "get_misses");
            recent = found ? int64_t(k) : -1;
            if (!found) return;
            Entry & e = m[k];
            std::string ikey(i->key().begin(), i->key().length()), v(i->value().begin(), i->value().length());
            if (ikey != keys[k]) fail("content", cat("get of key ", k, " returned the item of another key ", shorten(ikey, 40)));
            if (v != e.value) fail("content", cat("get of key ", k, " returned ", shorten(v), " expected ", shorten(e.value)));
            if (i->opaque_flags() != e.flags) fail("content", cat("get of key ", k, " returned flags ", i->opaque_flags(), " expected ", e.flags));
            if (t1 == now() && e.lo == e.hi) {
                uint64_t ttl = i->ttl().count(), want = e.lo == INF ? 0 : e.lo - t1;
                if (e.lo == INF || e.lo > t1) if (ttl != want) fail("ttl", cat("key ", k, " has a remaining lifetime of ", ttl, " s, expected ", want, (want == 0 ? " (infinite)" : "")));
            }
            uint64_t tok = i->timestamp();
            if (e.token_known) { if (tok != e.token) fail("token", cat("version of key ", k, " changed from ", e.token, " to ", tok, " without a store")); }
            else {
                if (seen_tokens[k].count(tok)) fail("token", cat("version ", tok, " of key ", k, " was already used for an earlier content"));
                e.token = tok; e.token_known = true; seen_tokens[k][tok] = 1; if (all_tokens.size() < 1000) all_tokens.push_back(tok);
            }
            const char * a = reinterpret_cast<const char *>(i);
            if (e.addr && e.addr != a) addr_reliable = false;
            e.addr = a; e.size = isize(k, e.value.size());
        }

        void arith(int op, uint64_t k, uint64_t delta) {
            begin(); arm(); uint64_t t0 = now(); bool found = false, num_err = false, oom = false; uint64_t res = 0;
            bool had = m.count(k) > 0; Entry old; if (had) old = m[k]; std::map<uint64_t, Entry> before; bool keep = evict && !malloc_mode && !lossy && m.size() < 400; if (keep) before = m;
            uint64_t u0 = used(); int64_t saved_recent = recent;
            recent = had && present(k, t0, t0) == YES ? int64_t(k) : -1; allow_evict = true;
            const char * nm = op == INCR ? "incr" : "decr";
            try { auto t = op == INCR ? cache->do_incr(ks(k), hash_of(k), delta) : cache->do_decr(ks(k), hash_of(k), delta); found = std::get<0>(t); res = std::get<1>(t); }
            catch (const cl::system_error & e) {
                if (e.code() == cl::error::numeric_convert || e.code() == cl::error::numeric_overflow) num_err = true; else if (e.code() == cl::error::out_of_memory) oom = true;
                else { allow_evict = false; disarm(); fail("err", cat("unexpected error ", e.what())); }
            }
            allow_evict = false; uint64_t t1 = now(); disarm(); raise_pending(); (void)saved_recent; recent = -1;
            count(op == INCR ? "cmd_incr" : "cmd_decr");
            if (std::find(evicted.begin(), evicted.end(), k) != evicted.end()) { m[k] = old; } // dealt with as recency above; keep checking the outcome
            Tri t = present(k, t0, t1); uint64_t cur = 0; bool numeric = had && parse_u64(old.value, cur);
            bool seen = found || num_err || oom; seen = resolve(k, t, seen, nm);
            const char * hits = op == INCR ? "incr_hits" : "decr_hits", * misses = op == INCR ? "incr_misses" : "decr_misses";
            if (!seen) { count(misses); if (!evicted.empty()) fail("evict", "a missed counter evicted items"); return; }
            if (num_err) { if (numeric) fail("arith", cat(nm, " rejected the number ", shorten(old.value))); ctx.hit("counter_not_numeric"); if (used() != u0 && !malloc_mode && t == YES) fail("leak", "a failed counter changed the memory in use"); check_used(nm); return; }
            if (!numeric) { if (!oom) fail("arith", cat(nm, " accepted the value ", shorten(old.value), " which is no unsigned 64-bit number")); }
            if (oom) { if (evict) fail("err", "out of memory although evictions are enabled"); check_need(isize(k, 20), "need"); ctx.hit("counter_out_of_memory"); count(hits, 0, 1); check_used(nm); return; }
            count(hits);
            uint64_t want = op == INCR ? (cur > ~0ull - delta ? ~0ull : cur + delta) : (cur < delta ? 0 : cur - delta);
            if (res != want) fail("arith", cat(nm, " of ", old.value, " by ", delta, " returned ", res, " instead of ", want));
            if (prop == "C05") { ctx.mark(); if (dec(want).size() != old.value.size()) ctx.hit("counter_changes_length"); if (dec(want).size() == 20) ctx.hit("counter_20_digits"); if (want == ~0ull || want == 0) ctx.hit("counter_saturates_or_zero"); if (!evicted.empty()) ctx.hit("counter_evicts"); }
            if (!evicted.empty()) { ctx.hit("evicting_counters"); if (prop == "C02") ctx.mark(); if (keep) check_need(isize(k, 20), "need", &before); }
            put_model(k, dec(want), old.flags, old.lo, old.hi, nullptr); recent = int64_t(k);
            check_used(nm);
        }

        void del(uint64_t k) {
            begin(); arm(); uint64_t t0 = now(); bool r = cache->do_delete(ks(k), hash_of(k)); uint64_t t1 = now(); disarm(); raise_pending();
            Tri t = present(k, t0, t1); resolve(k, t, r, "delete"); count("cmd_delete"); count(r ? "delete_hits" : "delete_misses"); m.erase(k); recent = -1; check_used("delete");
        }
        void touch(uint64_t k, uint64_t ttl) {
            begin(); arm(); uint64_t t0 = now(); bool r = cache->do_touch(ks(k), hash_of(k), cl::cache::seconds(uint32_t(ttl))); uint64_t t1 = now(); disarm(); raise_pending();
            Tri t = present(k, t0, t1); resolve(k, t, r, "touch"); count("cmd_touch"); count(r ? "touch_hits" : "touch_misses"); recent = r ? int64_t(k) : -1;
            if (r) { Entry & e = m[k]; e.lo = ttl ? t0 + ttl : INF; e.hi = ttl ? t1 + ttl : INF; if (e.lo >= U32MAX) e.lo = INF; if (e.hi >= U32MAX) e.hi = INF; }
        }
        void flush() {
            begin(); arm(); uint64_t t0 = now(); cache->do_flush_all(); uint64_t t1 = now(); disarm(); raise_pending(); count("cmd_flush"); recent = -1;
            for (auto it = m.begin(); it != m.end();) { if (it->second.hi <= t0) { ctx.hit("flushed_items"); it = m.erase(it); } else { if (it->second.lo <= t1) it->second.maybe = true; ++it; } }
            check_used("flush");
        }
        void scan() { for (uint64_t k = 0; k < nkeys; ++k) get(k, false); }

        void check_stats() {
            if (lossy) return;
            cache->publish_stats(); auto & S = cl::__stats__;
            #define X(type, name, desc) { auto it = acc.find(#name); uint64_t lo = it == acc.end() ? 0 : it->second.first, hi = it == acc.end() ? 0 : it->second.second; uint64_t v = uint64_t(S.cache.name); \
                if (std::string(#name) != "hash_capacity" && std::string(#name) != "curr_items" && std::string(#name) != "hash_is_expanding") if (v < lo || v > hi) fail("stats", cat("counter " #name " is ", v, ", the history accounts for ", lo, hi != lo ? cat("..", hi) : "")); }
            CACHE_STATS(X)
            #undef X
            uint64_t live = 0; for (auto & kv : m) if (present(kv.first, now(), now()) == YES) ++live;
            if (S.cache.curr_items < live || S.cache.curr_items > m.size()) fail("stats", cat("curr_items is ", S.cache.curr_items, ", present: ", live, "..", m.size()));
            if (S.cache.hash_capacity < S.cache.curr_items) fail("stats", "more items than slots reported");
            uint64_t hc = S.cache.hash_capacity, ex = S.cache.hash_is_expanding; // the index grows only when it is nearly full
            if ((hc & (hc - 1)) || hc < dict0) fail("stats", cat("hash_capacity is ", hc, ", initially ", dict0));
            if (hc > dict0 && hc * 90 > 200 * (peak + 2)) fail("stats", cat("hash_capacity is ", hc, " although there never were more than ", peak, " items, initially ", dict0));
            if (ex && hc == dict0) fail("stats", cat("hash_is_expanding with the initial capacity ", dict0, " of the hash table still in use"));
            if (!malloc_mode) {
                if (S.mem.evictions != stat_evicted) fail("stats", cat("evictions reported: ", S.mem.evictions, ", seen: ", stat_evicted));
                if (S.mem.used_memory > mem) fail("stats", "used_memory above the limit");
                if (S.mem.total_requested < S.mem.total_unserved) fail("stats", "more unserved than requested memory");
            }
            ctx.hit("stats_compared"); if (prop == "C15" && acc.size() > 6) ctx.mark();
        }

        void run() {
            if (c.empty()) return;
            const Op & g = c[0];
            uint64_t lp = std::min<uint64_t>(std::max<uint64_t>(g.a[1], 8), 25), lm = std::min<uint64_t>(std::max<uint64_t>(g.a[0], lp + 2), 27), ld = std::min<uint64_t>(g.a[2], 16);
            evict = g.a[3] & 1; lossy = evict && (g.a[3] & 2); hm = (g.a[4] & 0xff) % 10; km = (g.a[4] >> 8) % 3; nkeys = std::min<uint64_t>(std::max<uint64_t>(g.a[5], 1), 20000);
            page = size_t(1) << lp; mem = size_t(1) << lm; npages = mem / page; limit = page - cl::memalloc::header_size();
            for (uint64_t i = 0; i < nkeys; ++i) { keys.push_back(make_key(i)); idx_of[keys.back()] = i; }
            cl::ResetStats(); plat::clock_owned = true; plat::clock_ns = 1000000000ll * int64_t(1000 + (g.a[3] >> 8) * 12345) + int64_t(g.a[3] % 7) * 140000000ll; plat::tick_after = -1; plat::alloc_fail = false; plat::last_arena = nullptr;
            dict0 = size_t(1) << ld;
            cache.reset(new Cache(Cache::Create(mem, page, size_t(1) << ld, evict)));
            if (!lossy) cache->on_eviction = [this](const cl::cache::Item * i) { on_evict(i); };
            if (cl::__stats__.mem.limit_maxbytes != mem || cl::__stats__.mem.page_size != page) fail("stats", "configured limits not reported");
            size_t cap0 = 0; (void)cap0; uint64_t expansions = 0; bool was_expanding = false;
            for (opno = 1; opno < c.size(); ++opno) {
                const Op & o = c[opno]; uint64_t k = o.a[0] % nkeys; uint64_t maxlen = 3 * page;
                switch (o.code) {
                case SET: case ADD: case REPLACE: case APPEND: case PREPEND: store(o.code, k, make_value(std::min(o.a[1], maxlen), o.a[2]), uint16_t(o.a[3]), o.a[4]); break;
                case CAS: store(CAS, k, make_value(std::min(o.a[1], maxlen), o.a[2]), uint16_t(o.a[3]), o.a[4], o.a[5] % 9); break;
                case GET: get(k); break;
                case DEL: del(k); break;
                case TOUCH: touch(k, o.a[1] & U32MAX); break;
                case INCR: case DECR: arith(o.code, k, o.a[1]); break;
                case SETNUM: store(SET, k, dec(o.a[1]), uint16_t(o.a[2]), o.a[3]); break;
                case SETRAW: store(SET, k, o.s, uint16_t(o.a[1]), o.a[2]); break;
                case FLUSH: flush(); break;
                case AGE: if (!evict) { static const uint64_t to[] = {65530, (1ull << 31) - 6, (1ull << 32) - 6, (1ull << 32) - 6, (1ull << 32) - 2, 1ull << 33, 1ull << 40}; disarm(); if (age_versions(*cache, to[o.a[0] % 7])) ctx.hit("long_lived_caches"); } break;
                case ADV: plat::advance_ms(o.a[0]); ctx.hit("clock_advances"); if (prop == "C03") for (auto & kv : m) if (kv.second.hi <= now()) { ctx.mark(); ctx.hit("items_expired"); } break;
                case TICKIN: armed_tick = o.a[0] % 8; tick_secs = 1 + o.a[1] % 3; tick_armed = true; break;
                case FILL: bulk = true; for (uint64_t i = 0; i < std::min<uint64_t>(o.a[1], 3000); ++i) store(SET, (k + i) % nkeys, make_value(std::min(o.a[2], maxlen), o.a[3] + i), uint16_t(i), 0); bulk = false; check_used("fill"); break;
                case DRAIN: { bulk = true; uint64_t keep = o.a[2] % 4; for (uint64_t i = 0; i < std::min<uint64_t>(o.a[1], 3000); ++i) if (!keep || i % (keep + 1)) del((k + i) % nkeys); bulk = false; check_used("drain"); break; }
                case SCAN: scan(); break;
                case DISCARD: { begin(); uint64_t lo, hi, u0 = used(); auto i = create(k, make_value(std::min(o.a[1], maxlen), 3), 0, 0, lo, hi); recent = -1; if (i) { cache->destroy_item(i); if (!lossy && evicted.empty() && used() != u0 && !malloc_mode) fail("leak", "memory of a discarded item not given back"); check_used("discard"); ctx.hit("discarded_items"); } break; }
                case BIG: { // sizes around the page limit
                    size_t klen = keys[k].size(); int64_t vl = int64_t(page) - int64_t(sizeof(cl::cache::Item)) - int64_t(klen) + 16 - int64_t(o.a[1] % 48); if (vl < 0) vl = 0;
                    static const int kinds[] = {SET, SET, ADD, REPLACE, APPEND, CAS}; store(kinds[o.a[3] % 6], k, make_value(uint64_t(vl), o.a[2]), 5, 0); ctx.hit("page_sized_items"); if (prop == "C06") ctx.mark(); break; }
                case GROWBIG: { // append/prepend that brings the item near or over the page limit
                    auto it = m.find(k); size_t cur = it == m.end() ? 0 : it->second.value.size();
                    int64_t vl = int64_t(page) - int64_t(isize(k, cur)) + 24 - int64_t(o.a[1] % 64); if (o.a[1] % 5 == 0) vl = int64_t(page / 2 + page / 8); if (vl < 0) vl = int64_t(page) / 2; store(o.a[3] & 1 ? PREPEND : APPEND, k, make_value(uint64_t(vl), o.a[2]), 0, 0); ctx.hit("growth_to_page_size"); break; }
                case LONGKEY: { begin(); size_t l = 251 + o.a[0] % (1 << 25); std::string lk(l, 'L'); if (l > 256) ctx.hit("keys_beyond_256_bytes"); uint64_t u0 = used(); bool threw = false;
                    try { cache->create_item(slice(lk.data(), lk.size()), 12345, std::min(o.a[1], maxlen), 0, cl::cache::seconds(0)); } catch (const cl::system_error & e) { threw = true; if (e.code() != cl::error::key_too_long) fail("err", cat("wrong error for a key of ", l, " bytes: ", e.what())); }
                    raise_pending(); if (!threw) fail("err", cat("key of ", l, " bytes accepted")); if (used() != u0 && !malloc_mode) fail("leak", "refused key changed memory in use"); recent = -1; break; }
                case HUGE: { begin(); uint64_t u0 = used(); bool threw = false; uint64_t vl = std::max<uint64_t>(o.a[1], page); // no memory of that size is touched
                    try { cache->create_item(ks(k), hash_of(k), size_t(vl), 0, cl::cache::seconds(0)); } catch (const cl::system_error & e) { threw = true; if (e.code() != cl::error::item_too_big) fail("err", cat("wrong error for a value of ", vl, " bytes: ", e.what())); }
                    raise_pending(); if (!threw) fail("err", cat("value of ", vl, " bytes accepted, a page has ", page)); if (!evicted.empty()) fail("evict", "a refused store evicted items"); if (used() != u0 && !malloc_mode) fail("leak", "a refused store changed the memory in use"); ctx.hit("enormous_values"); recent = -1; break; }
                case FILLGROW: { // store absent keys until the index starts to grow
                    bulk = true; uint64_t done = 0; bool growing = false;
                    for (uint64_t i = 0; i < nkeys && done < 17000 && !growing; ++i) { uint64_t q = (k + i) % nkeys; if (m.count(q)) continue; store(SET, q, make_value(o.a[1] % 64, o.a[2] + i), uint16_t(i), (prop == "C03" || prop == "C15") && i % (1 + o.a[2] % 4) == 0 ? 1 + i % 7 : 0); ++done; if (m.size() > 400) { cache->publish_stats(); growing = cl::__stats__.cache.hash_is_expanding; } }
                    bulk = false; check_used("fill"); if (growing) { ctx.hit("filled_until_growth"); if (m.size() > 6000) ctx.hit("growth_of_a_large_index"); } break; }
                case FAILNEXT: if (!malloc_mode) fail_next = true; break;
                case STATS: check_stats(); break;
                case RESETSTATS: { if (!m.empty() || malloc_mode) break; cl::ResetStats(); acc.clear(); stat_evicted = 0; cl::stats zero; if (memcmp(&cl::__stats__.cache, &zero.cache, offsetof_tail()) != 0) fail("stats", "reset left a counter"); ctx.hit("stats_reset"); break; }
                case LOOP: { // an item read after every store must survive
                    uint64_t p = k; store(SET, p, make_value(std::min<uint64_t>(o.a[2], limit / 2), 9), 1, 0); if (!m.count(p)) break; get(p, false);
                    for (uint64_t i = 0; i < std::min<uint64_t>(o.a[1], 60); ++i) { uint64_t q = (k + 1 + i) % nkeys; if (q == p) continue; store(SET, q, make_value(std::min<uint64_t>(o.a[2] + i, limit / 2), o.a[3] + i), 2, 0); if (!lossy && !m.count(p)) fail("recent", "an item read before every store was evicted"); get(p, false); }
                    ctx.hit("keep_alive_loops"); break; }
                case PAIR: { // use an item, then store another one at once
                    if (o.a[4] % 3 == 0) get(k, false); else if (o.a[4] % 3 == 1) touch(k, 0); else arith(INCR, k, 1);
                    uint64_t q = o.a[1] % nkeys; store(SET, q, make_value(std::min(o.a[2], maxlen), o.a[3]), 3, 0); break; }
                }
                if (prop == "C01" || prop == "C06") { if (m.size() > 900) { cache->publish_stats(); bool ex = cl::__stats__.cache.hash_is_expanding; if (ex && !was_expanding) ++expansions; was_expanding = ex; if (ex) { ctx.hit("operations_during_index_growth"); ctx.mark(); } } }
                if (prop == "C01" && m.size() > 3 && opno > 20) ctx.mark();
            }
            // final comparison of everything
            plat::tick_after = -1; tick_armed = false; fail_next = false;
            check_stats(); scan(); check_stats();
            (void)expansions;
            if (!malloc_mode && plat::last_arena && !plat::arena_front_intact(*plat::last_arena)) fail("bounds", "bytes in front of the memory of the cache were overwritten");
            if (prop == "C07" && !malloc_mode) {
                for (uint64_t k = 0; k < nkeys; ++k) { begin(); cache->do_delete(ks(k), hash_of(k)); } raise_pending(); m.clear(); flush();
                if (used() != 0) fail("leak", cat(used(), " bytes still in use in an empty cache"));
                // an empty cache takes one page-sized item per page
                size_t n = 0; begin(); recent = -1;
                for (; n < npages; ++n) {
                    std::string key = "cap" + std::to_string(n); size_t vl = limit - sizeof(cl::cache::Item) - key.size(); idx_of[key] = nkeys + n; allow_evict = true;
                    try { auto i = cache->create_item(slice(key.data(), key.size()), uint32_t(n + 1), vl, 0, cl::cache::seconds(0)); memset(const_cast<char *>(i->value().begin()), 'z', vl); cache->do_set(i); }
                    catch (const cl::system_error & e) { fail("leak", cat("only ", n, " of ", npages, " page-sized items fit after the cache was emptied: ", e.what())); }
                    if (!evicted.empty() || !pending_tag.empty()) fail("leak", cat("storing ", n + 1, " of ", npages, " page-sized items in an emptied cache evicts"));
                }
                ctx.hit("capacity_measured");
            }
            cache.reset();
        }
        static size_t offsetof_tail() { return sizeof(cl::__stats__.cache); }
    };

    static bool allowed(const std::string & prop, const std::string & tag) {
        if (getenv("PBT_ALL_TAGS")) return true;
        if (prop == "C07") return tag == "leak";
        if (prop == "C09") return tag == "recent" || tag == "need";
        if (prop == "C15") return tag == "stats";
        static const std::set<std::string> basic = {"content", "missing", "ghost", "err", "evict", "bounds"};
        if (basic.count(tag)) return true;
        if (prop == "C03") return tag == "ttl"; if (prop == "C04") return tag == "cas" || tag == "token"; if (prop == "C05") return tag == "arith" || tag == "ttl";
        if (prop == "C02") return tag == "ttl" || tag == "arith"; if (prop == "C01") return tag == "cas" || tag == "arith"; if (prop == "C06") return tag == "need" || tag == "arith";
        return false;
    }

    void run(const Case & c, Ctx & ctx) override {
        Exec e(*this, c, ctx);
        try { e.run(); }
        catch (const Tagged & t) {
            plat::alloc_fail = false; plat::tick_after = -1;
            if (allowed(prop, t.tag)) throw Fail("[" + t.tag + "] " + t.msg);
            ctx.hit(("not_this_property_" + t.tag).c_str());
        }
    }
    std::string rule() const override {
        std::string r = "Each case is a random configuration (memory, page, index size, eviction mode, key shape, hash shape) and a random history of cache operations executed against the library and a reference map; ";
        if (prop == "C01") r += "non-trivial: over 20 operations with more than 3 live items, or any operation while the index is growing.";
        else if (prop == "C02") r += "non-trivial: at least one store or counter that evicted items.";
        else if (prop == "C03") r += "non-trivial: at least one item outlived its lifetime during the history.";
        else if (prop == "C04") r += "non-trivial: at least one cas on a present key with a known version.";
        else if (prop == "C05") r += "non-trivial: at least one successful incr or decr.";
        else if (prop == "C06") r += "non-trivial: an item within 32 bytes of the page limit, a refused append, or an injected allocation failure.";
        else if (prop == "C07") r += "non-trivial: at least one rejected store or eviction before the cache is emptied and its capacity measured.";
        else if (prop == "C09") r += "non-trivial: at least one store that evicted items.";
        else r += "non-trivial: counters compared with the account of a history touching more than six counters, or with evictions.";
        return r;
    }
};

int main(int argc, char ** argv) {
    Options o = parse_args(argc, argv);
    CacheSuite s(o.prop);
    Runner r(s, o);
    return r.main();
}
