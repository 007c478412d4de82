// Programs over the C interface, run in lock-step with the C++ cache and a reference map: C18
#include "platform.h"
#include "pbt.h"
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <cachelot/c_api.h>

using namespace pbt;
namespace cl = cachelot;
using cl::slice;
typedef cl::cache::Cache Cache;

#if defined(ADDRESS_SANITIZER)
static const bool malloc_mode = true;
#else
static const bool malloc_mode = false;
#endif

enum OpCode { CFG, SET, ADD, REPLACE, APPEND, PREPEND, GET, DEL, TOUCH, INCR, DECR, SETNUM, FLUSH, ADV, DISCARD, HUGE_, LONGKEY, CALLBACK, BADINIT, FAILSTORE, HASH, SCAN };
static const std::vector<std::string> NAMES = {"cfg","set","add","replace","append","prepend","get","del","touch","incr","decr","setnum","flush","adv","discard","huge","longkey","callback","badinit","failstore","hash","scan"};
#define CHECK(cond, ...) do { if (!(cond)) throw Fail(cat(__VA_ARGS__)); } while (0)

struct Evicted { std::string key, value; uint32_t ttl; int cb; };
static std::vector<Evicted> c_evicted[2]; static int current_cache = 0;
static void note(CachelotConstItemPtr i, int cb) { c_evicted[current_cache].push_back(Evicted{std::string(cachelot_item_get_key(i), cachelot_item_get_keylen(i)), std::string(cachelot_item_get_value(i), cachelot_item_get_valuelen(i)), cachelot_item_get_ttl_seconds(i), cb}); }
extern "C" { static void cb_a(CachelotConstItemPtr i) { note(i, 1); } static void cb_b(CachelotConstItemPtr i) { note(i, 2); } }

static uint32_t own_fnv(const std::string & s) { uint32_t h = 0x811c9dc5u; for (unsigned char c : s) h = (h ^ c) * 0x01000193u; return h; }

struct CapiSuite : Suite {
    std::string prop;
    explicit CapiSuite(std::string p) : prop(std::move(p)) {}
    std::vector<std::string> op_names() const override { return NAMES; }
    std::string rule() const override { return "Each case is a random program over the C interface on two caches (with and without an error structure, which is filled with garbage before the call or still holds the outcome of an earlier one; callbacks installed, exchanged and removed; failing creations, conversions, allocations and out-of-memory mixed with succeeding calls), executed in lock-step with the C++ interface on twin caches and with a reference map; non-trivial: at least one failing call followed by a succeeding one, or an eviction seen through a callback."; }

    Case gen(Rng & r, uint64_t, int tier) override {
        Case c; uint64_t lp = r.oneof({8, 9, 10, 12}), lm = lp + 2 + r.below(3), nkeys = r.oneof({3, 12, 40, 100}), ld = r.oneof({0, 1, 3, 6});
        bool evict = r.chance(55); if (prop == "C02") evict = true;
        c.push_back(Op(CFG, {lm, lp, ld, evict, nkeys, r.below(100)}));
        std::vector<unsigned> w = {0, 30, 8, 8, 8, 8, 20, 12, 8, 10, 8, 10, 3, 6, 4, 3, 3, 5, 3, 4, 2, 2};
        if (prop == "C01") { w[ADV] = 0; w[CALLBACK] = 0; w[BADINIT] = 0; } else if (prop == "C02") { w[CALLBACK] = 12; w[BADINIT] = 0; w[SET] = 60; } else if (prop == "C03") { w[ADV] = 30; w[TOUCH] = 30; w[FLUSH] = 8; w[BADINIT] = 0; } else if (prop == "C05") { w[INCR] = w[DECR] = 40; w[SETNUM] = 30; w[BADINIT] = 0; } else if (prop == "C06") { w[HUGE_] = 12; w[LONGKEY] = 12; w[FAILSTORE] = 15; w[BADINIT] = 0; } else if (prop == "C07") { w[DISCARD] = 15; w[FAILSTORE] = 12; w[HUGE_] = 6; w[BADINIT] = 0; }
        if (r.chance(20)) for (size_t i = 2; i < w.size(); ++i) if (r.chance(40)) w[i] = 0; // swarm: some of the calls never appear in the case
        uint64_t n = r.range(10, 250); if (tier) n *= 2; uint64_t page = 1ull << lp;
        for (uint64_t i = 0; i < n; ++i) {
            int code = int(r.weighted(w)); uint64_t k = r.below(nkeys), fl = (r.chance(25) ? 1 : 0) | (r.chance(30) ? 2 : 0) | (r.chance(40) ? 8 : 0); // bit 0: no error structure, bit 1: second cache, bit 3: the error structure of the call before, as it was left
            uint64_t len = r.chance(50) ? r.below(30) : r.chance(60) ? r.below(page / 3) : r.below(page + 40);
            switch (code) {
            case SET: case ADD: case REPLACE: case APPEND: case PREPEND: case FAILSTORE: c.push_back(Op(code, {k, fl, len, r.below(1000), r.chance(20) ? r.oneof({1, 2, 5, 100, 86399, 2591999, 2592000, 40000000, 0xffffffffu, 0xfffffff0u, 0}) + 1 : 0, r.below(3)})); break;
            case TOUCH: c.push_back(Op(code, {k, fl, r.oneof({0, 1, 2, 60, 65537, 2592001, 40000000, 0xffffffffu, r.below(5)})})); break;
            case INCR: case DECR: c.push_back(Op(code, {k, fl, r.chance(60) ? r.below(30) : r.next(), r.below(3)})); break;
            case SETNUM: c.push_back(Op(code, {k, fl, r.chance(40) ? r.below(30) : r.chance(50) ? ~0ull - r.below(20) : r.next() >> r.below(64)})); break;
            case ADV: c.push_back(Op(code, {r.chance(6) ? r.oneof({3600000, 86400000, 2591999000ull, 2592001000ull, 31536000000ull, 126230400000ull}) : r.oneof({500, 1000, 2000, 5000})})); break;
            case HUGE_: c.push_back(Op(code, {k, fl, r.below(8)})); break;
            case LONGKEY: c.push_back(Op(code, {r.range(240, 520), fl, r.below(20)})); break;
            case CALLBACK: c.push_back(Op(code, {r.below(4), fl})); break;
            case BADINIT: c.push_back(Op(code, {r.below(14), fl})); break;
            default: c.push_back(Op(code, {k, fl, len, r.below(1000)})); break;
            }
        }
        return c;
    }

    static std::string value_of(uint64_t len, uint64_t vs) { std::string v(len, 0); uint64_t x = mix(vs); for (uint64_t i = 0; i < len; ++i) { if (i % 8 == 0) x = mix(x); v[i] = char(x >> (8 * (i % 8))); } if (vs % 7 == 0) v = std::to_string(vs); return v; }

    struct Twin {
        CachelotPtr c = nullptr; std::unique_ptr<Cache> cpp; std::map<std::string, std::string> model; std::vector<Evicted> cpp_evicted; int cb = 0; bool evict = false; size_t page = 0;
        ~Twin() { if (c) cachelot_destroy(c); }
    };
    struct Outcome { int kind = 0; int code = 0; std::string category, message; }; // kind: 0 ok, 1 system_error, 2 other

    template <class F> static Outcome on_cpp(F f) {
        Outcome o;
        try { f(); } catch (const cl::system_error & e) { o.kind = 1; o.code = e.code().value(); o.category = e.code().category().name(); o.message = e.code().message(); }
        catch (const std::exception & e) { o.kind = 2; o.message = e.what(); } catch (...) { o.kind = 2; }
        return o;
    }
    bool failed_before = false;
    void check_error(const char * call, const CachelotError & e, const Outcome & o, bool given, Ctx & ctx) {
        if (!given) { if (o.kind) { failed_before = true; } return; }
        size_t n = strnlen(e.desription, sizeof e.desription);
        CHECK(n < sizeof e.desription, call, ": description is not terminated");
        if (o.kind == 0) {
            CHECK(e.code == 0, call, ": succeeded but the error code is ", e.code); CHECK(e.category == nullptr, call, ": succeeded but the error category is set");
            CHECK(n == 0, call, ": succeeded but the description says '", e.desription, "'");
            if (failed_before) { ctx.mark(); failed_before = false; }
        } else {
            failed_before = true; ctx.hit("failing_calls");
            CHECK(e.category != nullptr, call, ": failed without an error category"); CHECK(n > 0, call, ": failed without a description");
            if (o.kind == 1) { CHECK(e.code == o.code && o.category == e.category, call, ": error ", e.category, "/", e.code, " instead of ", o.category, "/", o.code); CHECK(o.message.substr(0, 254) == e.desription, call, ": description '", e.desription, "' instead of '", o.message, "'"); }
            else CHECK(o.message.empty() || o.message.substr(0, 254) == e.desription, call, ": description '", e.desription, "' instead of '", o.message, "'");
        }
    }

    void run(const Case & c, Ctx & ctx) override {
        const Op & cfg = c[0]; if (cfg.code != CFG) return;
        cl::ResetStats(); failed_before = false; plat::clock_owned = true; plat::clock_ns = 1000000000000ll; plat::tick_after = -1; plat::alloc_fail = false;
        uint64_t lp = std::max<uint64_t>(8, std::min<uint64_t>(cfg.a[1], 14)), lm = std::max<uint64_t>(lp + 2, std::min<uint64_t>(cfg.a[0], 18)), ld = std::min<uint64_t>(cfg.a[2], 10), nkeys = std::min<uint64_t>(200, std::max<uint64_t>(1, cfg.a[4]));
        Twin t[2];
        for (int i = 0; i < 2; ++i) {
            t[i].evict = i == 0 ? cfg.a[3] & 1 : !(cfg.a[3] & 1); t[i].page = size_t(1) << lp;
            CachelotOptions o; o.memory_limit = size_t(1) << lm; o.mem_page_size = size_t(1) << lp; o.initial_dict_size = size_t(1) << ld; o.enable_evictions = t[i].evict;
            CachelotError e; memset(&e, 0xEE, sizeof e); t[i].c = cachelot_init(o, &e);
            CHECK(t[i].c != nullptr, "cachelot_init failed for a valid configuration: ", std::string(e.desription, strnlen(e.desription, 254)));
            check_error("cachelot_init", e, Outcome(), true, ctx);
            t[i].cpp.reset(new Cache(Cache::Create(o.memory_limit, o.mem_page_size, o.initial_dict_size, o.enable_evictions)));
            Twin * tp = &t[i]; c_evicted[i].clear(); t[i].cb = int(cfg.a[5] % 3); if (t[i].cb) cachelot_on_eviction_callback(t[i].c, t[i].cb == 1 ? cb_a : cb_b);
            t[i].cpp->on_eviction = [tp](cl::cache::ConstItemPtr it) { tp->cpp_evicted.push_back(Evicted{it->key().str(), it->value().str(), uint32_t(it->ttl().count()), 0}); };
        }
        auto keystr = [&](uint64_t k) { k %= nkeys; std::string s = "key" + std::to_string(k); if (k % 3 == 1) s += std::string(1, '\0') + "z"; if (k % 5 == 4) s += std::string(200, char('a' + k % 20)); return s; };
        CachelotError err; memset(&err, 0xEE, sizeof err);
        for (size_t i = 1; i < c.size(); ++i) {
            const Op & op = c[i]; bool given = !(op.a[1] & 1); int w = (op.a[1] >> 1) & 1; if (op.code == ADV) { plat::advance_ms(op.a[0]); continue; }
            Twin & x = t[w]; current_cache = w; x.cpp_evicted.clear(); c_evicted[w].clear(); size_t other = c_evicted[1 - w].size();
            auto prepare = [&]() { if (!(op.a[1] & 8)) memset(&err, 0xEE, sizeof err); }; prepare(); CachelotError * ep = given ? &err : nullptr; // some callers reuse the structure of the call before, as it was left
            std::string ks = op.code == LONGKEY ? std::string(op.a[0] % 600 + 1, 'L') : keystr(op.a[0]); uint32_t h = cachelot_hash(ks.data(), ks.size());
            CachelotItemKey ck; ck.key = ks.data(); ck.keylen = ks.size(); ck.hash = h; slice sk(ks.data(), ks.size());
            auto apply_evictions = [&](const char * call) {
                CHECK(c_evicted[1 - w].size() == other, call, ": the callback of the other cache fired");
                if (x.cb) {
                    CHECK(c_evicted[w].size() == x.cpp_evicted.size(), call, ": ", c_evicted[w].size(), " evictions announced, the C++ twin had ", x.cpp_evicted.size());
                    for (size_t q = 0; q < c_evicted[w].size(); ++q) { auto & a = c_evicted[w][q]; auto & b = x.cpp_evicted[q]; CHECK(a.key == b.key && a.value == b.value && a.ttl == b.ttl, call, ": evicted item ", q, " differs from that of the C++ twin"); CHECK(a.cb == x.cb, call, ": the wrong callback was called"); }
                    if (!c_evicted[w].empty()) { ctx.mark(); ctx.hit("evictions_seen"); }
                } else CHECK(c_evicted[w].empty(), call, ": a removed callback was called");
                for (auto & b : x.cpp_evicted) { auto it = x.model.find(b.key); CHECK(it != x.model.end() && it->second == b.value, call, ": an item that is not in the cache was evicted"); x.model.erase(it); }
                x.cpp_evicted.clear(); c_evicted[w].clear();
            };
            // a stored item on both sides; nullptr if refused
            auto create = [&](const std::string & v, uint64_t ttl_plus1, CachelotItemPtr & ci, cl::cache::ItemPtr & pi) -> bool {
                ci = cachelot_create_item_raw(x.c, ck, v.data(), v.size(), ep); pi = nullptr;
                Outcome o = on_cpp([&] { pi = x.cpp->create_item(sk, h, v.size(), 0, cl::cache::Item::infinite_TTL); pi->assign_value(slice(v.data(), v.size())); });
                CHECK((ci != nullptr) == (o.kind == 0), "cachelot_create_item_raw ", ci ? "succeeded" : "failed", " but the C++ call ", o.kind ? "failed" : "succeeded");
                check_error("cachelot_create_item_raw", err, o, given, ctx); apply_evictions("cachelot_create_item_raw");
                size_t size = sizeof(cl::cache::Item) + ks.size() + v.size(); if (ks.size() > 250 || size > x.page - 8) CHECK(!ci, "an item that does not fit was created");
                if (!ci) return false;
                auto item_ok = [&](CachelotConstItemPtr q) { return cachelot_item_get_keylen(q) == ks.size() && memcmp(cachelot_item_get_key(q), ks.data(), ks.size()) == 0 && cachelot_item_get_valuelen(q) == v.size() && memcmp(cachelot_item_get_value(q), v.data(), v.size()) == 0; };
                CHECK(item_ok(ci), "the created item does not hold its key and value"); CHECK(cachelot_item_get_ttl_seconds(ci) == cachelot_infinite_TTL, "a created item has a finite lifetime ", cachelot_item_get_ttl_seconds(ci));
                if (ttl_plus1) { uint32_t s = uint32_t(ttl_plus1 - 1); cachelot_item_set_ttl_seconds(ci, s); pi->set_ttl(cl::cache::seconds(s)); uint32_t g = cachelot_item_get_ttl_seconds(ci); CHECK(g == uint32_t(pi->ttl().count()), "lifetime ", s, " reads back as ", g); if (s != 0 && s < 0x7fffffffu) CHECK(g == s, "lifetime ", s, " reads back as ", g); if (s == 0) CHECK(g == cachelot_infinite_TTL, "lifetime 0 is not infinite"); CHECK(item_ok(ci), "setting the lifetime damaged the item"); }
                return true;
            };
            auto compare_get = [&](const char * when) {
                CachelotError e2; memset(&e2, 0xEE, sizeof e2); CachelotConstItemPtr g = cachelot_get_unsafe(x.c, ck, &e2); auto p = x.cpp->do_get(sk, h);
                check_error("cachelot_get_unsafe", e2, Outcome(), true, ctx);
                CHECK((g != nullptr) == (p != nullptr), when, ": key '", shorten(ks, 30), "' is ", g ? "present" : "absent", " but the C++ twin says otherwise");
                auto it = x.model.find(ks);
                if (g) {
                    std::string v(cachelot_item_get_value(g), cachelot_item_get_valuelen(g)); CHECK(std::string(cachelot_item_get_key(g), cachelot_item_get_keylen(g)) == ks, when, ": the item returned has another key");
                    CHECK(v == p->value().str(), when, ": value differs from the C++ twin"); CHECK(it != x.model.end() && it->second == v, when, ": value differs from what was stored under '", shorten(ks, 30), "'");
                    CHECK(cachelot_item_get_ttl_seconds(g) == uint32_t(p->ttl().count()), when, ": lifetime differs from the C++ twin");
                } else x.model.erase(ks); // expired, or never there: the twin agrees
            };
            switch (op.code) {
            case SET: case ADD: case REPLACE: case APPEND: case PREPEND: case FAILSTORE: case SETNUM: {
                std::string v = op.code == SETNUM ? std::to_string(op.a[2]) : value_of(op.a[2] % 20000, op.a[3]); CachelotItemPtr ci; cl::cache::ItemPtr pi;
                if (!create(v, op.code == SETNUM ? 0 : op.a[4], ci, pi)) { compare_get("after a refused creation"); break; }
                prepare(); bool rc = false, rp = false; int code = op.code == FAILSTORE ? int(SET + op.a[5] % 3) : op.code; Outcome o; uint64_t f0 = plat::alloc_failed, f1, f2;
                const char * name = code == ADD ? "cachelot_add" : code == REPLACE ? "cachelot_replace" : code == APPEND ? "cachelot_append" : code == PREPEND ? "cachelot_prepend" : "cachelot_set";
                if (op.code == FAILSTORE) plat::alloc_fail = true;
                switch (code) { case ADD: rc = cachelot_add(x.c, ci, ep); break; case REPLACE: rc = cachelot_replace(x.c, ci, ep); break; case APPEND: rc = cachelot_append(x.c, ci, ep); break; case PREPEND: rc = cachelot_prepend(x.c, ci, ep); break; default: rc = cachelot_set(x.c, ci, ep); break; }
                f1 = plat::alloc_failed - f0;
                bool threw = false; std::string what;
                try { switch (code) { case ADD: rp = x.cpp->do_add(pi); break; case REPLACE: rp = x.cpp->do_replace(pi); break; case APPEND: rp = x.cpp->do_append(pi); break; case PREPEND: rp = x.cpp->do_prepend(pi); break; default: x.cpp->do_set(pi); rp = true; break; } }
                catch (const cl::system_error & e) { plat::alloc_fail = false; o.kind = 1; o.code = e.code().value(); o.category = e.code().category().name(); o.message = e.code().message(); }
                catch (const std::exception & e) { plat::alloc_fail = false; o.kind = 2; o.message = e.what(); }
                plat::alloc_fail = false; f2 = plat::alloc_failed - f0 - f1; (void)f2; (void)threw; if (f1) ctx.hit("allocation_failed");
                CHECK(rc == (o.kind == 0 && rp), name, " returned ", rc, " but the C++ call ", o.kind ? "threw " + o.message : rp ? "stored" : "did not store");
                check_error(name, err, o, given, ctx); apply_evictions(name);
                if (rc) { auto it = x.model.find(ks); if (code == APPEND) x.model[ks] += v; else if (code == PREPEND) x.model[ks] = v + x.model[ks]; else x.model[ks] = v; (void)it; }
                compare_get(name); break; }
            case GET: { prepare(); cachelot_get_unsafe(x.c, ck, ep); x.cpp->do_get(sk, h); check_error("cachelot_get_unsafe", err, Outcome(), given, ctx); compare_get("get"); break; }
            case DEL: { bool rc = cachelot_delete(x.c, ck, ep), rp = x.cpp->do_delete(sk, h); check_error("cachelot_delete", err, Outcome(), given, ctx); CHECK(rc == rp, "cachelot_delete returned ", rc); if (rc) CHECK(x.model.count(ks), "cachelot_delete deleted an absent key"); x.model.erase(ks); compare_get("after delete"); break; }
            case TOUCH: { bool rc = cachelot_touch(x.c, ck, uint32_t(op.a[2]), ep), rp = x.cpp->do_touch(sk, h, cl::cache::seconds(uint32_t(op.a[2]))); check_error("cachelot_touch", err, Outcome(), given, ctx); CHECK(rc == rp, "cachelot_touch returned ", rc); compare_get("after touch"); break; }
            case INCR: case DECR: {
                const char * name = op.code == INCR ? "cachelot_incr" : "cachelot_decr"; uint64_t res = 0xDEADBEEF; uint64_t * rp_ = op.a[3] == 0 ? nullptr : &res; bool rc = op.code == INCR ? cachelot_incr(x.c, ck, op.a[2], rp_, ep) : cachelot_decr(x.c, ck, op.a[2], rp_, ep);
                bool found = false; uint64_t nv = 0; Outcome o = on_cpp([&] { std::tie(found, nv) = op.code == INCR ? x.cpp->do_incr(sk, h, op.a[2]) : x.cpp->do_decr(sk, h, op.a[2]); });
                CHECK(rc == (o.kind == 0 && found), name, " returned ", rc, " but the C++ call ", o.kind ? "threw" : found ? "found the key" : "did not find the key"); check_error(name, err, o, given, ctx); apply_evictions(name);
                if (rc && rp_) CHECK(res == nv, name, " gave ", res, " instead of ", nv); if (rc) x.model[ks] = std::to_string(nv); if (rc) ctx.hit("counters");
                compare_get(name); break; }
            case FLUSH: cachelot_flush_all(x.c, ep); x.cpp->do_flush_all(); check_error("cachelot_flush_all", err, Outcome(), given, ctx); compare_get("after flush"); break;
            case DISCARD: { CachelotItemPtr ci; cl::cache::ItemPtr pi; std::string v = value_of(op.a[2] % 20000, op.a[3]); if (create(v, 0, ci, pi)) { cachelot_destroy_item(x.c, ci); x.cpp->destroy_item(pi); cachelot_destroy_item(x.c, nullptr); } compare_get("after a discarded item"); break; }
            case HUGE_: { static const size_t H[] = {~size_t(0), ~size_t(0) - 24, ~size_t(0) - 27, ~size_t(0) - 300, size_t(1) << 32, (size_t(1) << 32) + 5, size_t(1) << 63, (size_t(1) << 32) - 30}; size_t n = H[op.a[2] % 8]; static const char dummy[8] = {};
                CachelotItemPtr ci = cachelot_create_item_raw(x.c, ck, dummy, n, ep); Outcome o = on_cpp([&] { x.cpp->create_item(sk, h, n, 0, cl::cache::Item::infinite_TTL); });
                CHECK(ci == nullptr && o.kind == 1, "an item with a value of ", n, " bytes was created"); check_error("cachelot_create_item_raw", err, o, given, ctx); apply_evictions("cachelot_create_item_raw"); break; }
            case LONGKEY: { CachelotItemPtr ci; cl::cache::ItemPtr pi; std::string v = value_of(op.a[2] % 50, 3);
                if (create(v, 0, ci, pi)) { bool rc = cachelot_set(x.c, ci, nullptr); x.cpp->do_set(pi); CHECK(rc, "cachelot_set failed"); x.model[ks] = v; compare_get("after a set with a long key"); }
                else if (given && ks.size() > 250) CHECK(std::string(err.desription).size() > 0, "no description for a key that is too long"); break; }
            case CALLBACK: { int k = int(op.a[0] % 4); x.cb = k == 3 ? 2 : k; cachelot_on_eviction_callback(x.c, x.cb == 0 ? nullptr : x.cb == 1 ? cb_a : cb_b); break; }
            case BADINIT: {
                static const CachelotOptions B[] = {{0, 1024, 16, true}, {4096, 0, 16, true}, {4096, 1024, 0, true}, {5000, 1024, 16, true}, {4096, 1000, 16, true}, {4096, 1024, 15, true}, {2048, 1024, 16, false}, {4096, 128, 16, true}, {1024, 1024, 16, true}, {size_t(1) << 35, size_t(1) << 33, 16, true}, {4096, 1024, size_t(1) << 40, true}, {~size_t(0), ~size_t(0), ~size_t(0), false}, {1, 1, 1, true}, {1024, 256, 3, false}};
                CachelotOptions o = B[op.a[0] % 14]; CachelotPtr p = cachelot_init(o, ep); Outcome oo = on_cpp([&] { Cache::Create(o.memory_limit, o.mem_page_size, o.initial_dict_size, o.enable_evictions); });
                if (p) cachelot_destroy(p); CHECK(p == nullptr && oo.kind != 0, "cachelot_init accepted an invalid configuration"); check_error("cachelot_init", err, oo, given, ctx); cachelot_destroy(nullptr); break; }
            case HASH: { std::string lk(op.a[3] * 2 % 2000, 'h'); { uint64_t x = op.a[2] + 1; for (auto & ch : lk) { x = x * 6364136223846793005ull + 1442695040888963407ull; ch = char(x >> 56); } } { uint32_t lh = cachelot_hash(lk.data(), lk.size()), lo = own_fnv(lk); if (lo) CHECK(lh == lo, "cachelot_hash of ", lk.size(), " bytes is ", lh, " instead of ", lo); } uint32_t o = own_fnv(ks); if (o) CHECK(h == o, "cachelot_hash of '", shorten(ks), "' is ", h, " instead of ", o); CHECK(h != 0, "cachelot_hash returned zero"); const char * v = cachelot_version(); CHECK(v && strlen(v) > 0 && strlen(v) < 200, "cachelot_version is wrong"); break; }
            case SCAN: for (uint64_t k = 0; k < nkeys; ++k) { ks = keystr(k); ck.key = ks.data(); ck.keylen = ks.size(); ck.hash = h = cachelot_hash(ks.data(), ks.size()); sk = slice(ks.data(), ks.size()); compare_get("scan"); } break;
            }
        }
        // nothing is left when the items are gone, whatever failed or was discarded before
        if (!malloc_mode) {
            for (int i = 0; i < 2; ++i) {
                auto wipe = [&](const std::string & ks) { CachelotItemKey ck; ck.key = ks.data(); ck.keylen = ks.size(); ck.hash = cachelot_hash(ks.data(), ks.size()); cachelot_delete(t[i].c, ck, nullptr); t[i].cpp->do_delete(slice(ks.data(), ks.size()), ck.hash); };
                for (uint64_t k = 0; k < nkeys; ++k) wipe(keystr(k));
                for (const auto & kv : t[i].model) wipe(kv.first);
            }
            using cl::__stats__; uint64_t used = STAT_GET(mem, used_memory); CHECK(used == 0, used, " bytes are in use after all the items were deleted"); ctx.hit("emptied_caches");
            if (prop[1] == '0') ctx.mark();
        }
    }
};

int main(int argc, char ** argv) {
    Options o = parse_args(argc, argv);
    CapiSuite s(o.prop);
    Runner r(s, o);
    return r.main();
}
