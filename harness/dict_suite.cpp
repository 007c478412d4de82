// Stateful model-based testing of the hash index (dict and hash_table) with controlled hash values: C10
#include "platform.h"
#include "pbt.h"
#include <cachelot/common.h>
#include <cachelot/dict.h>

using namespace pbt;
namespace cl = cachelot;

enum OpCode { CFG, PUT, INS, GET, HAS, LOOK, DEL, REM, REMIF, CLEAR, FILL, DRAIN, SCAN, WALK, FAILPUT, MOVE, FILLGROW, BULKPUT, BULKDEL };
static const std::vector<std::string> NAMES = {"cfg","put","ins","get","has","look","del","rem","remif","clear","fill","drain","scan","walk","failput","move","fillgrow","bulkput","bulkdel"};

struct Opt32 { typedef uint32_t size_type; typedef uint32_t hash_type; static constexpr size_type max_load_factor_percent = 93; };
struct Opt50 { typedef size_t size_type; typedef size_t hash_type; static constexpr size_type max_load_factor_percent = 50; };
typedef uint64_t K; typedef uint64_t V;
typedef cl::internal::hash_table_entry<K, V> E;
typedef cl::dict<K, V> Dict64;
typedef cl::dict<K, V, std::equal_to<K>, E, Opt32> Dict32;
typedef cl::dict<K, V, std::equal_to<K>, E, Opt50> Dict50;
typedef cl::hash_table<K, V> Table;
typedef cl::dict<uint32_t, uint32_t, std::equal_to<uint32_t>, cl::internal::hash_table_entry<uint32_t, uint32_t>, Opt32> DictBig; // the sizes a large cache has

static uint64_t hash_of(uint64_t mode, uint64_t k, uint64_t salt) {
    uint64_t x = mix(k ^ salt), h = 0;
    switch (mode) {
    case 0: h = x; break;                                   // well spread
    case 1: h = salt | 1; break;                            // all equal
    case 2: h = 1 + x % 3; break;                           // three values
    case 3: h = ~0ull - x % 24; break;                      // clustered at the end of any table: wraps round
    case 4: h = (x << 32) | 7; break;                       // 64 bit: differ in the high half only
    case 5: h = (k * 1024) | 5; break;                      // equal low bits in small tables, separate after growth
    case 6: h = k + 1; break;                               // dense: sequential
    case 7: h = ~k; break;                                  // dense, downwards from the end
    case 8: h = (x % 16) * 64 + 63; break;                  // clusters at the ends of small tables
    case 9: h = 1ull << (x % 64); break;                    // powers of two
    default: h = (x & 1) ? ~0ull : x; break;                // half of them equal to the all-ones value
    }
    return h;
}

struct Model { std::map<K, V> m; };

#define CHECK(cond, ...) do { if (!(cond)) throw Fail(cat(__VA_ARGS__)); } while (0)

struct DictSuite : Suite {
    std::string prop;
    bool big; explicit DictSuite(std::string p, bool b) : prop(std::move(p)), big(b) {}
    std::vector<std::string> op_names() const override { return NAMES; }
    std::string rule() const override { return "Each case is a container (dict with 64/32-bit hashes, dict with a 50% load limit, or the bare hash_table), a hash shape, a key universe and a random history of index operations compared with std::map; non-trivial: an operation was executed while the dict was growing, or at least 8 entries coexisted under a colliding or wrapping hash shape."; }

    Case gen(Rng & r, uint64_t, int tier) override {
        if (big) { // tens of millions of entries
            bool spread = r.chance(30); uint64_t lg = spread ? r.range(20, 25 + tier) : r.oneof({24, 26, 26, 26, 27}), cap = 1ull << lg; Case c; c.push_back(Op(CFG, {4, spread, lg, 0, r.below(1000)}));
            for (int i = 0, n = int(r.range(1, 4)); i < n; ++i) { if (i && r.chance(40)) c.push_back(Op(BULKDEL, {cap / 100 * r.range(1, 30)})); else c.push_back(Op(BULKPUT, {cap / 100 * r.range(20, 65)})); }
            return c;
        }
        Case c; uint64_t kind = r.weighted({50, 20, 10, 20}), mode = r.below(11), ls = r.below(7), nkeys = r.oneof({3, 8, 14, 20, 40, 100, 300});
        bool grow = kind != 3 && r.chance(30);
        if (grow) { nkeys = r.oneof({600, 1200, 2500, 5000, 9000}); ls = r.oneof({0, 3, 8, 9, 10, 11, 12}); if (mode == 1 || mode == 2 || mode == 3 || mode == 9 || mode == 10 || mode == 8) { if (nkeys > 1200 && r.chance(90)) mode = r.oneof({0, 5, 6, 7}); } if (mode == 4 && kind == 1 && nkeys > 1200) mode = 0; }
        bool window = grow && r.chance(45); // histories around the start of growth
        if (window) { nkeys = r.oneof({2500, 5000, 9000, 18000}); ls = r.oneof({9, 10, 11, 12, 13, 14}); mode = r.oneof({0, 5, 6, 7}); }
        uint64_t nops = r.range(10, window ? 60 : grow ? 150 : 300); if (tier) nops *= 2;
        c.push_back(Op(CFG, {kind, mode, ls, nkeys, r.below(1000)}));
        std::vector<unsigned> w = {0, 30, 12, 15, 6, 12, 20, 12, 2, 1, window ? 1u : grow ? 8u : 1u, grow ? 4u : 1u, window ? 0u : 2u, 2, 3, 1, window ? 10u : 0u};
        if (r.chance(30)) { w[DEL] = w[REM] = 4; }
        if (!window && r.chance(15)) for (size_t i = 2; i < w.size(); ++i) if (r.chance(40)) w[i] = 0; // swarm: some of the operations never appear in the case
        for (uint64_t i = 0; i < nops; ++i) {
            int code = int(r.weighted(w)); uint64_t k = r.below(nkeys);
            switch (code) {
            case FILL: c.push_back(Op(FILL, {k, r.chance(50) ? r.below(nkeys) : r.below(80)})); break;
            case DRAIN: c.push_back(Op(DRAIN, {k, r.chance(30) ? r.below(nkeys) : r.below(40)})); break;
            case FILLGROW: c.push_back(Op(FILLGROW, {k})); if (r.chance(25)) for (uint64_t j = r.below(6); j > 0; --j) c.push_back(Op(int(r.oneof({PUT, DEL, GET, LOOK})), {r.below(nkeys)})); if (r.chance(25)) c.push_back(Op(r.chance(60) ? CLEAR : REMIF, {1, 0})); break;
            case REMIF: c.push_back(Op(REMIF, {r.range(1, 7), r.below(7)})); break;
            case CLEAR: case SCAN: case WALK: case MOVE: c.push_back(Op(code, {})); break;
            default: c.push_back(Op(code, {k})); break;
            }
        }
        return c;
    }

    // ---------------------------------------------------------------- dict
    template <class D> void run_dict(const Case & c, Ctx & ctx) {
        typedef typename D::hash_type H; typedef typename D::iterator It;
        const Op & cfg = c[0]; uint64_t mode = cfg.a[1], nkeys = std::max<uint64_t>(1, cfg.a[3]), salt = cfg.a[4];
        std::unique_ptr<D> d(new D(typename D::size_type(1ull << (cfg.a[2] % 15))));
        std::map<K, V> m; uint64_t vctr = 1; uint64_t probe = 0;
        auto H_ = [&](K k) -> H { H h = H(hash_of(mode, k, salt)); return h ? h : H(1); };
        auto check_key = [&](K k) {
            bool f; V v; std::tie(f, v) = d->get(k, H_(k)); auto it = m.find(k);
            CHECK(f == (it != m.end()), "get(", k, ") found=", f, " but the key is ", it != m.end() ? "present" : "absent");
            if (f) CHECK(v == it->second, "get(", k, ") returned value ", v, " instead of ", it->second);
            CHECK(d->contains(k, H_(k)) == f, "contains(", k, ") disagrees with get");
        };
        const unsigned pct = std::is_same<D, Dict50>::value ? 50 : 93;
        auto look = [&](K k, bool ro) -> std::pair<bool, It> {
            auto cap = d->capacity(); bool exp = d->is_expanding();
            bool f; It it; std::tie(f, it) = d->entry_for(k, H_(k), ro);
            if (d->capacity() != cap) { CHECK(!exp, "the index grew again before its previous growth was complete"); CHECK(!ro, "the index grew in a read-only look-up"); CHECK((m.size() + 1) * 100 >= uint64_t(cap) * (pct - 2), "the index of capacity ", cap, " grew with only ", m.size(), " entries in it"); }
            auto mi = m.find(k);
            CHECK(f == (mi != m.end()), "entry_for(", k, ") found=", f, " but the key is ", mi != m.end() ? "present" : "absent");
            if (f) { CHECK(bool(it), "entry_for(", k, ") gave an iterator to nothing for a present key"); CHECK(it.key() == k && it.value() == mi->second, "entry_for(", k, ") points to the entry (", it.key(), ",", it.value(), ") instead of value ", mi->second); }
            return std::make_pair(f, it);
        };
        auto put = [&](K k, bool replace) {
            auto p = look(k, false); V v = (vctr++ << 20) | k;
            if (!p.first) {
                It at = d->insert(p.second, k, H_(k), v); m[k] = v;
                CHECK(bool(at) && at.key() == k && at.value() == v, "insert(", k, ",", v, ") returned an iterator to the entry (", at.key(), ",", at.value(), ")");
            } else if (replace) {
                p.second.unsafe_replace_kv(k, H_(k), v); m[k] = v;
                CHECK(p.second.value() == v, "replacing the value of ", k, " did not take effect");
            }
        };
        auto scan = [&]() { for (K k = 0; k < nkeys + 3; ++k) check_key(k); };
        auto walk = [&]() {
            std::map<V, int> seen; d->remove_if([&](V v) { ++seen[v]; return false; });
            CHECK(seen.size() == m.size(), "walk over all entries saw ", seen.size(), " distinct values instead of ", m.size());
            for (auto & kv : m) { auto it = seen.find(kv.second); CHECK(it != seen.end(), "walk over all entries missed key ", kv.first); CHECK(it->second == 1, "walk saw key ", kv.first, " ", it->second, " times"); }
        };
        for (size_t i = 1; i < c.size(); ++i) {
            const Op & op = c[i]; K k = op.a[0] % (nkeys + 3);
            bool expanding = d->is_expanding();
            if (expanding) { ctx.mark(); ctx.hit("op_while_growing"); }
            if (m.size() >= 8 && mode != 0 && mode != 6) ctx.mark();
            switch (op.code) {
            case PUT: put(k, true); break;
            case INS: put(k, false); break;
            case GET: check_key(k); break;
            case HAS: CHECK(d->contains(k, H_(k)) == bool(m.count(k)), "contains(", k, ") is wrong"); break;
            case LOOK: look(k, true); break;
            case DEL: { bool r = d->del(k, H_(k)); CHECK(r == bool(m.count(k)), "del(", k, ") returned ", r); m.erase(k); CHECK(!d->contains(k, H_(k)), "key ", k, " is present after del"); break; }
            case REM: { auto p = look(k, true); if (p.first) { d->remove(p.second); m.erase(k); CHECK(!d->contains(k, H_(k)), "key ", k, " is present after removal by position"); } break; }
            case REMIF: { uint64_t mod = op.a[0] + 1; d->remove_if([&](V v) { return (v >> 20) % mod == op.a[1] % mod; });
                for (auto it = m.begin(); it != m.end();) { if ((it->second >> 20) % mod == op.a[1] % mod) it = m.erase(it); else ++it; } scan(); break; }
            case CLEAR: d->clear(); m.clear(); CHECK(d->empty(), "not empty after clear"); break;
            case FILL: for (uint64_t n = 0; n < op.a[1] % 20000; ++n) { bool e = d->is_expanding(); put((k + n) % (nkeys + 3), true); if (e || d->is_expanding()) { ctx.mark(); ctx.hit("op_while_growing"); check_key(probe = mix(probe + n) % (nkeys + 3)); } } break;
            case FILLGROW: for (uint64_t n = 0; n < nkeys && !d->is_expanding(); ++n) put((k + n) % (nkeys + 3), false); if (d->is_expanding()) ctx.hit("filled_until_growth"); break;
            case DRAIN: for (uint64_t n = 0; n < op.a[1] % 20000; ++n) { K q = (k + n) % (nkeys + 3); bool r = d->del(q, H_(q)); CHECK(r == bool(m.count(q)), "del(", q, ") returned ", r); m.erase(q); } break;
            case SCAN: scan(); break;
            case WALK: walk(); break;
            case FAILPUT: {
#if !defined(__SANITIZE_ADDRESS__)
                bool failed = false; uint64_t before = plat::alloc_failed; bool f = false; It it; V v = (vctr++ << 20) | k;
                bool present = m.count(k);
                plat::alloc_fail = true;
                try { std::tie(f, it) = d->entry_for(k, H_(k)); } catch (const std::bad_alloc &) { failed = true; }
                plat::alloc_fail = false;
                if (plat::alloc_failed != before) { ctx.mark(); ctx.hit("growth_failed"); }
                if (!failed) {
                    CHECK(f == present, "entry_for(", k, ") found=", f, " under a failing allocation");
                    if (f) { CHECK(it.key() == k && it.value() == m[k], "entry_for(", k, ") points elsewhere under a failing allocation"); it.unsafe_replace_kv(k, H_(k), v); }
                    else d->insert(it, k, H_(k), v);
                    m[k] = v;
                }
                if (failed) scan();
                check_key(k);
#endif
                break; }
            case MOVE: { std::unique_ptr<D> n(new D(std::move(*d))); d = std::move(n); check_key(k); break; }
            }
            CHECK(d->size() == m.size(), NAMES[op.code], ": size() is ", d->size(), " instead of ", m.size());
            CHECK(d->empty() == m.empty(), "empty() is wrong");
            CHECK(d->capacity() >= m.size(), "capacity ", d->capacity(), " below size ", m.size());
            if (expanding || c.size() < 40 || i % 16 == 0) check_key(k);
        }
        scan(); walk();
        for (K k = 0; k < nkeys + 3; ++k) { bool r = d->del(k, H_(k)); CHECK(r == bool(m.count(k)), "final del(", k, ") returned ", r); }
        CHECK(d->size() == 0 && d->empty(), "entries left after all keys were deleted");
    }

    // ---------------------------------------------------------------- dict of the size a large cache has: keys [lo, hi) are present
    void run_big(const Case & c, Ctx & ctx) {
        const Op & cfg = c[0]; uint64_t spread = cfg.a[1], lg = std::min<uint64_t>(std::max<uint64_t>(cfg.a[2], 10), 28), lo = 0, hi = 0; uint32_t salt = uint32_t(cfg.a[4]);
        std::unique_ptr<DictBig> d(new DictBig(uint32_t(1) << lg)); const uint64_t limit = 1ull << 28;
        auto H_ = [&](uint32_t k) -> uint32_t { uint32_t h = spread ? (k + salt) * 2654435761u : k + 1 + salt; return h ? h : 1; };
        auto V_ = [&](uint32_t k) -> uint32_t { return k ^ 0x5bd1e995u; };
        auto check_key = [&](uint32_t k) { bool f; uint32_t v; std::tie(f, v) = d->get(k, H_(k)); bool want = k >= lo && k < hi; CHECK(f == want, "get(", k, ") found=", f, " with the keys from ", lo, " to ", hi, " present"); if (f) CHECK(v == V_(k), "get(", k, ") returned a wrong value"); };
        for (size_t i = 1; i < c.size(); ++i) {
            uint64_t n = c[i].a[0];
            if (c[i].code == BULKPUT) for (; n > 0 && hi < limit; --n) {
                uint32_t k = uint32_t(hi), cap = d->capacity(); bool exp = d->is_expanding(), f; DictBig::iterator at; std::tie(f, at) = d->entry_for(k, H_(k)); CHECK(!f, "entry_for(", k, ") found a key that was never inserted");
                if (d->capacity() != cap) { CHECK(!exp, "the index grew again before its previous growth was complete"); CHECK((hi - lo + 1) * 100 >= uint64_t(cap) * 91, "the index of capacity ", cap, " grew with only ", hi - lo, " entries in it"); CHECK(d->capacity() == uint64_t(cap) * 2, "capacity ", cap, " became ", d->capacity()); ctx.hit("large_index_grown"); }
                if (hi > limit / 2 && d->capacity() > limit) return;
                d->insert(at, k, H_(k), V_(k)); ++hi;
                if (!d->is_expanding()) CHECK((hi - lo) * 100 <= uint64_t(d->capacity()) * 95 + 100, "the index of capacity ", d->capacity(), " holds ", hi - lo, " entries and does not grow");
            } else for (; n > 0 && lo < hi; --n) { uint32_t k = uint32_t(lo); CHECK(d->del(k, H_(k)), "del(", k, ") missed a present key"); ++lo; }
            CHECK(d->size() == hi - lo, "size() is ", d->size(), " instead of ", hi - lo);
            for (uint64_t j = 0; j < 3000; ++j) check_key(uint32_t(mix(j + i + salt) % (hi + hi / 8 + 10)));
            ctx.mark(); ctx.hit("bulk_operations");
        }
    }

    // ---------------------------------------------------------------- bare table
    void run_table(const Case & c, Ctx & ctx) {
        const Op & cfg = c[0]; uint64_t mode = cfg.a[1], nkeys = std::max<uint64_t>(1, cfg.a[3]), salt = cfg.a[4];
        Table t(size_t(1) << (cfg.a[2] % 13)); std::map<K, V> m; uint64_t vctr = 1;
        if (!t.ok()) return;
        auto H_ = [&](K k) -> uint64_t { uint64_t h = hash_of(mode, k, salt); return h ? h : 1; };
        auto check_key = [&](K k) {
            bool f; V v; std::tie(f, v) = t.get(k, H_(k)); auto it = m.find(k);
            CHECK(f == (it != m.end()), "table get(", k, ") found=", f);
            if (f) CHECK(v == it->second, "table get(", k, ") returned a wrong value");
            CHECK(t.contains(k, H_(k)) == f, "table contains(", k, ") disagrees with get");
        };
        auto scan = [&]() { for (K k = 0; k < nkeys + 3; ++k) check_key(k);
            size_t n = 0; for (size_t p = 0; p < t.capacity(); ++p) if (!t.empty_at(p)) { ++n; K k = t.entry_at(p).key(); auto it = m.find(k); CHECK(it != m.end() && it->second == t.entry_at(p).value(), "slot ", p, " holds a wrong entry"); CHECK(t.hash_at(p) == H_(k), "slot ", p, " holds a wrong hash"); }
            CHECK(n == m.size(), n, " occupied slots for ", m.size(), " entries"); };
        auto put = [&](K k) {
            if (!m.count(k) && t.threshold_reached()) return;
            V v = (vctr++ << 20) | k; bool r = t.put(k, H_(k), v); CHECK(r == !m.count(k), "table put(", k, ") returned ", r); m[k] = v;
        };
        for (size_t i = 1; i < c.size(); ++i) {
            const Op & op = c[i]; K k = op.a[0] % (nkeys + 3);
            if (m.size() >= 8 && mode != 0 && mode != 6) ctx.mark();
            switch (op.code) {
            case PUT: case FAILPUT: put(k); break;
            case INS: { bool f; size_t at; std::tie(f, at) = t.entry_for(k, H_(k)); CHECK(f == bool(m.count(k)), "table entry_for(", k, ") found=", f);
                if (!f && !t.threshold_reached()) { V v = (vctr++ << 20) | k; size_t p = t.insert(at, k, H_(k), v); m[k] = v; CHECK(p < t.capacity() && !t.empty_at(p) && t.entry_at(p).key() == k && t.entry_at(p).value() == v, "table insert(", k, ") returned the position of something else"); } break; }
            case GET: case HAS: check_key(k); break;
            case LOOK: { bool f; size_t at; std::tie(f, at) = t.entry_for(k, H_(k)); CHECK(f == bool(m.count(k)), "table entry_for(", k, ") found=", f); if (f) CHECK(t.entry_at(at).key() == k, "table entry_for(", k, ") points elsewhere"); break; }
            case DEL: { bool r = t.del(k, H_(k)); CHECK(r == bool(m.count(k)), "table del(", k, ") returned ", r); m.erase(k); break; }
            case REM: { bool f; size_t at; std::tie(f, at) = t.entry_for(k, H_(k)); CHECK(f == bool(m.count(k)), "table entry_for(", k, ") found=", f); if (f) { t.remove(at); m.erase(k); } break; }
            case REMIF: { uint64_t mod = op.a[0] + 1; t.remove_if([&](V v) { return (v >> 20) % mod == op.a[1] % mod; });
                for (auto it = m.begin(); it != m.end();) { if ((it->second >> 20) % mod == op.a[1] % mod) it = m.erase(it); else ++it; } scan(); break; }
            case CLEAR: t.clear(); m.clear(); break;
            case FILL: for (uint64_t n = 0; n < op.a[1] % 20000; ++n) put((k + n) % (nkeys + 3)); break;
            case DRAIN: for (uint64_t n = 0; n < op.a[1] % 20000; ++n) { K q = (k + n) % (nkeys + 3); bool r = t.del(q, H_(q)); CHECK(r == bool(m.count(q)), "table del(", q, ") returned ", r); m.erase(q); } break;
            default: scan(); break;
            }
            CHECK(t.size() == m.size(), "table ", NAMES[op.code], ": size() is ", t.size(), " instead of ", m.size());
            CHECK(t.empty() == m.empty(), "table empty() is wrong");
            check_key(k);
        }
        scan();
    }

    void run(const Case & c, Ctx & ctx) override {
        if (c.empty() || c[0].code != CFG) return;
        switch (c[0].a[0]) {
        case 0: run_dict<Dict64>(c, ctx); break;
        case 1: run_dict<Dict32>(c, ctx); break;
        case 2: run_dict<Dict50>(c, ctx); break;
        case 4: run_big(c, ctx); break;
        default: run_table(c, ctx); break;
        }
    }
};

int main(int argc, char ** argv) {
    Options o = parse_args(argc, argv);
    DictSuite s(o.prop, o.variant == "big");
    Runner r(s, o);
    return r.main();
}
