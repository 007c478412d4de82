// Every configuration is either rejected with an error or fully works: C19, library and C interface.
#include "platform.h"
#include "pbt.h"
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <cachelot/stats.h>
#include <cachelot/c_api.h>
#include <memory>

using namespace pbt;
namespace cl = cachelot;
using cl::slice; using cl::__stats__;
typedef cl::cache::Cache Cache;
#define CHECK(cond, ...) do { if (!(cond)) throw Fail(cat(__VA_ARGS__)); } while (0)

enum OpCode { CFG, FILL, SMALL, SET, GET, DEL, APPEND, INCR, GROW, MOVE, CLEAR, NEAR };
static const std::vector<std::string> NAMES = {"cfg","fill","small","set","get","del","append","incr","grow","move","clear","near"};

static bool pow2(uint64_t x) { return x && !(x & (x - 1)); }
static const uint64_t MAX_TOUCH_PAGES = 16384;      // arena pages whose headers may become resident
static const uint64_t DENSE = 1 << 20;              // longer values are written and compared at both ends and in the middle only
static const uint64_t MAX_DICT_BYTES = 64u << 20;

// a value of any length described by a seed, compared sparsely when it is long
struct Val { uint64_t len = 0, seed = 0; std::string text; };
static char byte_at(uint64_t seed, uint64_t i) { return char(mix(seed + i / 8) >> (8 * (i % 8))); }
template <class F> static void places(uint64_t len, F f) { // f(first, last)
    if (len <= DENSE) { f(0, len); return; }
    f(0, 64); f(len / 2, len / 2 + 64); f(len - 64, len);
}
static void write_val(char * p, const Val & v) { if (!v.text.empty()) { memcpy(p, v.text.data(), v.len); return; } places(v.len, [&](uint64_t a, uint64_t b) { for (; a < b; ++a) p[a] = byte_at(v.seed, a); }); }
static bool same_val(const char * p, uint64_t len, const Val & v) {
    if (len != v.len) return false; if (!v.text.empty()) return memcmp(p, v.text.data(), len) == 0;
    bool ok = true; places(len, [&](uint64_t a, uint64_t b) { for (; a < b && ok; ++a) if (p[a] != byte_at(v.seed, a)) ok = false; }); return ok;
}

struct Refused { int why; }; // 1 too big, 2 no memory
struct Box {
    std::vector<std::pair<std::string, std::function<bool(const Val &)>>> dummy; std::function<void(const std::string &, const char *, size_t)> evicted;
    virtual ~Box() {}
    virtual void set(const std::string & k, const Val & v) = 0;               // throws Refused
    virtual bool get(const std::string & k, const char *& p, size_t & n) = 0;
    virtual bool del(const std::string & k) = 0;
    virtual bool append(const std::string & k, const std::string & v) = 0;
    virtual bool incr(const std::string & k, uint64_t d, uint64_t & out) = 0;
    virtual bool move(bool) { return false; }
};
static uint32_t hash_of(const std::string & k) { return cl::cache::HashFunction()(slice(k.data(), k.size())); }

struct CppBox : Box {
    std::vector<std::unique_ptr<Cache>> olds; std::unique_ptr<Cache> c;
    void hook() { c->on_eviction = [this](cl::cache::ConstItemPtr i) { evicted(std::string(i->key().begin(), i->key().length()), i->value().begin(), i->value().length()); }; }
    CppBox(size_t m, size_t p, size_t d, bool e) : c(new Cache(Cache::Create(m, p, d, e))) { hook(); }
    cl::cache::ItemPtr make(const std::string & k, size_t len) {
        try { return c->create_item(slice(k.data(), k.size()), hash_of(k), len, 0, cl::cache::Item::infinite_TTL); }
        catch (const cl::system_error & e) { if (e.code() == cl::error::item_too_big) throw Refused{1}; if (e.code() == cl::error::out_of_memory) throw Refused{2}; throw; }
    }
    void set(const std::string & k, const Val & v) override {
        auto i = make(k, v.len); CHECK(i->value().length() == v.len, "item created for ", v.len, " bytes holds ", i->value().length());
        write_val(const_cast<char *>(i->value().begin()), v); c->do_set(i);
    }
    bool get(const std::string & k, const char *& p, size_t & n) override { auto i = c->do_get(slice(k.data(), k.size()), hash_of(k)); if (!i) return false; CHECK(std::string(i->key().begin(), i->key().length()) == k, "get returned another key"); p = i->value().begin(); n = i->value().length(); return true; }
    bool del(const std::string & k) override { return c->do_delete(slice(k.data(), k.size()), hash_of(k)); }
    bool append(const std::string & k, const std::string & v) override {
        auto i = make(k, v.size()); i->assign_value(slice(v.data(), v.size()));
        try { return c->do_append(i); } catch (const cl::system_error & e) { if (e.code() == cl::error::item_too_big) throw Refused{1}; if (e.code() == cl::error::out_of_memory) throw Refused{2}; throw; }
    }
    bool incr(const std::string & k, uint64_t d, uint64_t & out) override { bool f; try { cl::tie(f, out) = c->do_incr(slice(k.data(), k.size()), hash_of(k), d); } catch (const cl::system_error & e) { if (e.code() == cl::error::out_of_memory) throw Refused{2}; throw; } return f; }
    bool move(bool keep) override { std::unique_ptr<Cache> n(new Cache(std::move(*c))); if (keep) olds.push_back(std::move(c)); c = std::move(n); return true; }
};

static Box * cb_box = nullptr;
extern "C" { static void on_evicted(CachelotConstItemPtr i) { cb_box->evicted(std::string(cachelot_item_get_key(i), cachelot_item_get_keylen(i)), cachelot_item_get_value(i), cachelot_item_get_valuelen(i)); } }
struct CBox : Box {
    CachelotPtr c; std::string buf;
    CBox(size_t m, size_t p, size_t d, bool e) {
        CachelotOptions o; o.memory_limit = m; o.mem_page_size = p; o.initial_dict_size = d; o.enable_evictions = e; CachelotError err; memset(&err, 0x5a, sizeof err);
        c = cachelot_init(o, &err);
        if (!c) { CHECK(strnlen(err.desription, sizeof err.desription) < sizeof err.desription && err.desription[0], "cachelot_init failed without an explanation"); throw std::invalid_argument(err.desription); }
        cb_box = this; cachelot_on_eviction_callback(c, on_evicted);
    }
    ~CBox() { cachelot_destroy(c); }
    static CachelotItemKey key(const std::string & k) { CachelotItemKey r; r.key = k.data(); r.keylen = k.size(); r.hash = hash_of(k); return r; }
    [[noreturn]] static void refused(const CachelotError & e) { auto is = [&](cl::error::cachelot_error_code x) { auto c = cl::error::make_error_code(x); return e.code == c.value() && std::string(e.category ? e.category : "") == c.category().name(); }; if (is(cl::error::item_too_big)) throw Refused{1}; if (is(cl::error::out_of_memory)) throw Refused{2}; throw Fail(cat("unexpected error: ", e.desription)); }
    CachelotItemPtr make(const std::string & k, const char * p, size_t n) { CachelotError e; auto i = cachelot_create_item_raw(c, key(k), p, n, &e); if (!i) refused(e); return i; }
    void set(const std::string & k, const Val & v) override { buf.assign(v.len, '\0'); write_val(&buf[0], v); CachelotError e; auto i = make(k, buf.data(), buf.size()); if (!cachelot_set(c, i, &e)) refused(e); }
    bool get(const std::string & k, const char *& p, size_t & n) override { CachelotError e; auto i = cachelot_get_unsafe(c, key(k), &e); if (!i) return false; CHECK(std::string(cachelot_item_get_key(i), cachelot_item_get_keylen(i)) == k, "get returned another key"); p = cachelot_item_get_value(i); n = cachelot_item_get_valuelen(i); return true; }
    bool del(const std::string & k) override { CachelotError e; return cachelot_delete(c, key(k), &e); }
    bool append(const std::string & k, const std::string & v) override { CachelotError e; auto i = make(k, v.data(), v.size()); bool r = cachelot_append(c, i, &e); if (!r && e.code) refused(e); return r; }
    bool incr(const std::string & k, uint64_t d, uint64_t & out) override { CachelotError e; bool r = cachelot_incr(c, key(k), d, &out, &e); if (!r && e.code) refused(e); return r; }
};

struct CfgSuite : Suite {
    std::vector<std::string> op_names() const override { return NAMES; }
    std::string rule() const override { return "Each case creates a cache with a random configuration (valid powers of two from 256-byte to 2-gigabyte pages and up to terabytes of reserved address space, values one off, zero, not powers of two, overflowing) through the library or the C interface; a valid one must be accepted, anything accepted is put through filling every page, running out of memory, random operations, index growth and moves against a reference map; non-trivial: an accepted configuration with at least one store, or a rejected one."; }

    Case gen(Rng & r, uint64_t, int tier) override {
        Case c; uint64_t page, mem, dict; bool c_api = r.chance(35);
        uint64_t lp = r.chance(60) ? r.range(8, 12) : r.chance(70) ? r.range(8, 22) : r.range(20, 31), lm = lp + 2 + (r.chance(70) ? r.below(4) : r.below(14)), ld = r.chance(60) ? r.below(8) : r.chance(80) ? r.below(18) : r.below(22);
        if (lm > 42) lm = 42;
        page = 1ull << lp; mem = 1ull << lm; dict = 1ull << ld;
        auto odd = [&](uint64_t v) -> uint64_t { switch (r.below(11)) { case 0: return 0; case 1: return v + 1; case 2: return v - 1; case 3: return v * 3 / 2; case 4: return ~0ull; case 5: return 1ull << 63; case 6: return 1ull << r.below(64); case 7: return r.next() >> r.below(64); case 8: return v / (2 + r.below(7)); case 9: return v + (1ull << r.below(34)); default: return (1ull << 32) * r.range(1, 5); } };
        if (r.chance(35)) { switch (r.below(6)) { case 0: mem = odd(mem); break; case 1: case 2: page = odd(page); break; case 3: case 4: dict = odd(dict); break; default: mem = odd(mem); page = odd(page); if (r.chance(50)) dict = odd(dict); } }
        if (r.chance(10)) page = r.oneof({64, 128, 255, 256, 257, 512, 1ull << 31, 1ull << 32, (1ull << 32) + 256, 1ull << 33});
        if (r.chance(10)) mem = page * r.oneof({1, 2, 3, 4, 5, 8});
        c.push_back(Op(CFG, {mem, page, dict, r.below(2), c_api ? 1u : 0u}));
        uint64_t n = r.range(3, 25); if (tier) n *= 2;
        std::vector<unsigned> w = {0, 4, 4, 20, 15, 8, 8, 8, 3, 4, 2, 8};
        for (uint64_t i = 0; i < n; ++i) {
            int code = int(r.weighted(w)); if (i == 0 && r.chance(50)) code = r.chance(50) ? NEAR : FILL;
            switch (code) {
            case FILL: c.push_back(Op(code, {r.below(32), r.below(1000)})); break;
            case SMALL: c.push_back(Op(code, {r.range(1, 400), r.below(100), r.below(1000)})); break;
            case SET: c.push_back(Op(code, {r.below(40), r.chance(60) ? r.below(100) : r.chance(50) ? r.below(page ? page : 1) : r.next() >> r.below(64), r.below(100000)})); break;
            case NEAR: c.push_back(Op(code, {r.below(40), r.below(200), r.below(1000)})); break;
            case APPEND: c.push_back(Op(code, {r.below(40), r.below(60), r.below(1000)})); break;
            case INCR: c.push_back(Op(code, {r.below(40), r.chance(50) ? r.below(100) : r.next()})); break;
            case GROW: c.push_back(Op(code, {r.range(1, 3000), r.below(100)})); break;
            case MOVE: c.push_back(Op(code, {r.below(2)})); break;
            default: c.push_back(Op(code, {r.below(40)})); break;
            }
        }
        return c;
    }

    struct Exec {
        const Case & c; Ctx & ctx; std::unique_ptr<Box> box; std::map<std::string, Val> m; uint64_t mem, page, dict, npages, limit; bool evict, capi; uint64_t opno = 0, fresh = 0; bool virgin = true; uint64_t ev = 0;
        Exec(const Case & c_, Ctx & x) : c(c_), ctx(x) {}
        ~Exec() { box.reset(); plat::arena_refuse = false; plat::alloc_max = ~size_t(0); }
        static std::string key(uint64_t i) { return i < 40 && i % 5 == 0 ? std::string(1 + i * 6, char('a' + i % 26)) : "k" + std::to_string(i); }
        uint64_t room(const std::string & k) const { return limit - 24 - k.size(); } // the longest value
        uint64_t sure(uint64_t total) const { return total <= page - page / 16 - 8; }

        void check(const std::string & k) {
            const char * p; size_t n; bool f = box->get(k, p, n); auto it = m.find(k);
            if (it == m.end()) { CHECK(!f, "item ", k, " is in the cache, it should not be"); return; }
            CHECK(f, "item ", shorten(k, 20), " of ", it->second.len, " bytes is lost"); CHECK(same_val(p, n, it->second), "item ", shorten(k, 20), " of ", it->second.len, " bytes came back as ", n, " bytes, or changed");
        }
        void check_all() { for (auto & kv : m) check(kv.first); }
        // true if stored
        bool store(const std::string & k, const Val & v, bool must) {
            uint64_t total = v.len + 24 + k.size(); bool too_big = v.len > page || total > limit; ev = 0; 
            try { box->set(k, v); }
            catch (const Refused & r) {
                if (r.why == 1) CHECK(too_big, "item of ", total, " bytes refused as too big, a page has ", page); else { CHECK(!too_big, "item of ", total, " bytes is not refused as too big, a page has ", page); CHECK(!evict && !must, "no memory for an item of ", total, " bytes, page ", page, evict ? ", evictions enabled" : ""); ctx.hit("out_of_memory"); }
                return false;
            }
            CHECK(!too_big, "item of ", total, " bytes accepted, a page has ", page); m[k] = v; virgin = false; ctx.mark(); return true;
        }
        void on_evict(const std::string & k, const char * p, size_t n) {
            CHECK(evict, "eviction of ", k, " though evictions are disabled"); auto it = m.find(k); CHECK(it != m.end(), "eviction of ", k, " which is not in the cache"); CHECK(same_val(p, n, it->second), "evicted item ", k, " changed"); m.erase(it); ++ev; ctx.hit("evictions");
        }
        void run() {
            if (c.empty()) return; const Op & g = c[0]; mem = g.a[0]; page = g.a[1]; dict = g.a[2]; evict = g.a[3] & 1; capi = g.a[4] & 1;
            bool valid = pow2(mem) && pow2(page) && pow2(dict) && page >= 256 && page <= (1ull << 31) && mem / 4 >= page && dict <= (1ull << 31);
            // what does not fit this machine is refused by the system in a controlled way
            bool starved = mem > (1ull << 43) || (page && mem / page > MAX_TOUCH_PAGES); plat::arena_refuse = starved; plat::alloc_max = MAX_DICT_BYTES; bool dict_starved = dict >= (1ull << 24), dict_unsure = dict > (1ull << 20);
            cl::ResetStats(); std::string why;
            try { if (capi) box.reset(new CBox(mem, page, dict, evict)); else box.reset(new CppBox(mem, page, dict, evict)); } catch (const Fail &) { throw; } catch (const std::exception & e) { why = e.what(); if (why.empty()) why = "?"; CHECK(*e.what(), "creation failed without an explanation"); }
            plat::arena_refuse = false; plat::alloc_max = ~size_t(0);
            if (!box) { CHECK(!valid || starved || dict_unsure, "valid configuration rejected: ", why); ctx.hit("rejected"); ctx.mark(); return; }
            CHECK(!starved, "created although the system refused the memory"); CHECK(!(dict_starved && valid), "created although the system refused the index");
            ctx.hit("accepted"); if (page >= (1u << 22)) ctx.hit("accepted_large_pages"); if (!valid) ctx.hit("accepted_undocumented"); if (mem > 0xffffffffull) ctx.hit("accepted_over_4G"); if (capi) ctx.hit("accepted_c_api");
            CHECK(STAT_GET(mem, limit_maxbytes) == mem, "the limit is reported as ", STAT_GET(mem, limit_maxbytes));
            npages = mem / page; limit = page - cl::memalloc::header_size(); Box * b = box.get(); b->evicted = [this](const std::string & k, const char * p, size_t n) { on_evict(k, p, n); };
            for (opno = 1; opno < c.size(); ++opno) step(c[opno]);
            opno = c.size(); check_all(); clear(); if (page <= 4 << 20 || !capi) near_limit(0, 8, 1);
            CHECK(plat::last_arena == nullptr || plat::arena_front_intact(*plat::last_arena), "memory in front of the arena was written");
        }
        void clear() {
            std::vector<std::string> ks; for (auto & kv : m) ks.push_back(kv.first);
            for (auto & k : ks) { CHECK(box->del(k), "cannot delete ", k); m.erase(k); check(k); } virgin = true; CHECK(STAT_GET(mem, used_memory) == 0, "used memory is ", STAT_GET(mem, used_memory), " after everything was deleted");
        }
        void near_limit(uint64_t ki, uint64_t delta, uint64_t seed) { // an item whose length is around the longest possible, into an empty cache
            if (capi && page > 4 << 20) return; if (!virgin) clear();
            std::string k = key(ki); if (24 + k.size() > limit) k = "k"; Val v; v.seed = seed; uint64_t top = room(k) + 8; v.len = top > delta ? top - delta : 0; bool st = store(k, v, true); if (st) { ctx.hit("items_at_the_limit"); check(k); CHECK(ev == 0, "eviction from an empty cache"); }
        }
        void step(const Op & o) {
            std::string k = key(o.a[0] % 40); if (24 + k.size() > limit) k = "k"; bool big_ok = !(capi && page > 4 << 20);
            switch (o.code) {
            case NEAR: near_limit(o.a[0] % 40, o.a[1], o.a[2]); break;
            case FILL: { // one item per page, in every page
                if (!big_ok || npages > 1024) break; clear(); Val v; uint64_t stored = 0, lost = 0; std::string last;
                for (uint64_t i = 0; i < npages; ++i) { std::string n = "fill" + std::to_string(i); v.seed = o.a[1] * 7777 + i; v.len = page - page / 16 - 8 - 24 - n.size() - std::min(o.a[0] % 32, page / 16); if (store(n, v, true)) ++stored; CHECK(ev == 0, "item of ", v.len, " bytes evicted another one though ", npages - i, " pages of ", page, " were empty"); last = n; }
                CHECK(m.size() == npages, "only ", m.size(), " of ", npages, " page-sized items fit"); check_all(); (void)lost; (void)stored;
                v.seed = o.a[1] + 5; std::string n = "one-more"; bool st = store(n, v, false);
                if (evict) { CHECK(st && ev >= 1, "nothing was evicted from a full cache"); CHECK(m.size() + ev == npages + 1 , "items are lost"); } else CHECK(!st, "an item was stored in a full cache with evictions disabled");
                check(n); check_all(); ctx.hit("filled_to_capacity"); break; }
            case SMALL: { for (uint64_t i = 0; i < std::min<uint64_t>(o.a[0], 1000); ++i) { Val v; v.seed = o.a[2] + i; v.len = o.a[1] % 100; std::string n = "s" + std::to_string(fresh++ % 3000); if (24 + n.size() + v.len > limit) v.len = 0; if (store(n, v, false)) check(n); else break; } break; }
            case SET: { Val v; v.len = o.a[1]; v.seed = o.a[2]; if (o.a[2] % 6 == 0) { v.text = std::to_string(mix(o.a[2])); v.len = v.text.size(); } if (capi && v.len > 4 << 20) { v.len = 4 << 20; } bool st = store(k, v, false); (void)st; check(k); break; }
            case GET: check(k); break;
            case DEL: { bool was = m.count(k); CHECK(box->del(k) == was, "delete of ", k); m.erase(k); check(k); break; }
            case APPEND: { std::string t; for (uint64_t i = 0; i < o.a[1] % 61; ++i) t += byte_at(o.a[2], i); if (24 + k.size() + t.size() > limit) break; auto it = m.find(k); Val v; if (it != m.end()) v = it->second; if (v.len > DENSE) break; bool was = it != m.end(), st = false; std::string full = v.text; if (was && full.empty()) { full.resize(v.len); write_val(&full[0], v); }
                try { st = box->append(k, t); } catch (const Refused & r) { check(k); if (r.why == 1) CHECK(24 + k.size() + v.len + t.size() > limit, "append refused as too big"); break; }
                if (was && !m.count(k)) was = false; // the room for the piece was made at its expense
                CHECK(st == was, "append reported ", st, " for ", was ? "an existing" : "an absent", " item"); if (st) { v.text = full + t; v.len = v.text.size(); if (v.len) m[k] = v; else { v.seed = 0; m[k] = v; } } check(k); break; }
            case INCR: { auto it = m.find(k); if (it == m.end()) { uint64_t out; CHECK(!box->incr(k, o.a[1], out), "incr of an absent item succeeded"); break; } if (it->second.text.empty()) break; uint64_t old = 0; { unsigned __int128 x = 0; bool num = it->second.text.size() <= 20; for (char ch : it->second.text) { if (ch < '0' || ch > '9') num = false; else x = x * 10 + (ch - '0'); } if (!num || x > ~0ull) break; old = uint64_t(x); }
                uint64_t want = old + o.a[1] < old ? ~0ull : old + o.a[1], out = 0; bool f; try { f = box->incr(k, o.a[1], out); } catch (const Refused &) { check(k); break; } CHECK(f && out == want, "incr of ", old, " by ", o.a[1], " gave ", out); Val v; v.text = std::to_string(want); v.len = v.text.size(); m[k] = v; check(k); break; }
            case GROW: { for (uint64_t i = 0; i < std::min<uint64_t>(o.a[0], 3000); ++i) { Val v; v.seed = i; v.len = i % 8; if (!store("g" + std::to_string(i), v, false)) break; } check_all(); break; }
            case MOVE: if (box->move(o.a[0] & 1)) { ctx.hit("moves"); if (CppBox * b = dynamic_cast<CppBox *>(box.get())) b->hook(); check_all(); } break;
            case CLEAR: clear(); break;
            }
        }
    };
    void run(const Case & c, Ctx & ctx) override { Exec e(c, ctx); try { e.run(); } catch (const Fail & f) { throw Fail(cat("op ", e.opno, e.opno < c.size() ? " (" + shorten(op_text(NAMES, c[e.opno]), 120) + ")" : " (end)", ": ", f.msg)); } }
};

int main(int argc, char ** argv) {
    Options o = parse_args(argc, argv);
    CfgSuite s; Runner r(s, o);
    return r.main();
}
