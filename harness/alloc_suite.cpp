// C08: the page allocator against a shadow map of live blocks; C15: its own statistics against what its caller asked and got
#include "platform.h"
#include "pbt.h"
#include <cachelot/common.h>
#include <cachelot/memalloc.h>
#include <cachelot/stats.h>

using namespace pbt;
namespace cl = cachelot;

enum OpCode { CFG, ALLOC, EVICT, FREE, REALLOC, TOUCH, FREEALL, BURST, HOLES, FILLUP, CHURN };
static const std::vector<std::string> NAMES = {"cfg","alloc","evict","free","realloc","touch","freeall","burst","holes","fillup","churn"};

struct Blk { size_t size; uint64_t pat; };

struct AllocSuite : Suite {
    bool stats; explicit AllocSuite(bool s) : stats(s) {}
    std::vector<std::string> op_names() const override { return NAMES; }
    std::string rule() const override { return "Each case is a random arena (page 256 B to 1 MB, 4 to 8192 pages, some over 4 GB) and a random history of alloc, evicting alloc, free, in-place realloc, touch and bulk patterns against a shadow map of live blocks; non-trivial: at least one block was freed, resized or evicted while others were live."; }

    uint64_t gen_size(Rng & r, uint64_t page) {
        switch (r.below(14)) {
        case 0: return 1 + r.below(16); case 1: case 2: return 1 + r.below(64); case 3: case 4: case 5: return 1 + r.below(300);
        case 6: return 40 + r.below(40); case 7: { uint64_t p = 1ull << r.range(6, 20); return p - 9 + r.below(18); }
        case 8: return 1 + r.below(page / 4 + 1); case 9: return 1 + r.below(page / 2 + 1); case 10: return 1 + r.below(page); case 11: return page - 8 - r.below(80);
        case 12: return page / 2 - 16 + r.below(24); default: return 240 + r.below(40);
        }
    }
    Case gen(Rng & r, uint64_t index, int tier) override {
        Case c; uint64_t lp = r.oneof({8, 8, 9, 9, 10, 11, 12, 13, 14, 16, 20}), ln = r.oneof({2, 2, 2, 3, 3, 4, 5});
        bool huge = index % 97 == 5; bool many = index % 97 == 11; if (huge) { lp = 20; ln = 13; } if (many) { lp = r.range(8, 9); ln = r.range(16, 17); }
        c.push_back(Op(CFG, {lp, ln}));
        uint64_t page = 1ull << lp; uint64_t nops = r.range(5, huge || many ? 60 : 250) * (tier ? 2 : 1);
        std::vector<unsigned> w = {0, 40, r.chance(50) ? 25u : 3u, 35, r.chance(50) ? 25u : 4u, 8, 1, 3, 3, 2, 3};
        if (r.chance(15)) for (size_t i = 2; i < w.size(); ++i) if (r.chance(40)) w[i] = 0; // swarm: some of the operations never appear in the case
        uint64_t fav = gen_size(r, page); bool favored = r.chance(30);
        for (uint64_t i = 0; i < nops; ++i) {
            int op = int(r.weighted(w)); uint64_t sz = favored && r.chance(60) ? fav + r.below(3) * 8 : gen_size(r, page);
            switch (op) {
            case ALLOC: case EVICT: c.push_back(Op(op, {sz})); break;
            case FREE: case TOUCH: c.push_back(Op(op, {r.below(1000)})); break;
            case REALLOC: c.push_back(Op(op, {r.below(1000), sz, r.below(4)})); break;
            case BURST: c.push_back(Op(op, {sz, 1 + r.below(40), r.below(3)})); break;
            case HOLES: c.push_back(Op(op, {2 + r.below(4), r.below(4)})); break;
            case CHURN: c.push_back(Op(op, {sz, gen_size(r, page), 1 + r.below(30)})); break;
            default: c.push_back(Op(op, {sz})); break;
            }
        }
        return c;
    }

    struct Exec {
        const Case & c; Ctx & ctx; bool stats; std::map<std::string, uint64_t> acc; std::unique_ptr<cl::memalloc> ma; size_t page, npages, opno = 0, hdr; char * base = nullptr;
        std::map<char *, Blk> live; bool evicted_empty = false; std::set<size_t> cuts; /* borders between adjacent free blocks that a shrink may leave unmerged */ uint64_t next_pat = 1;
        Exec(const Case & c_, Ctx & x, bool st) : c(c_), ctx(x), stats(st) {}
        void fail(const std::string & m) { throw Fail(cat("op ", opno, " (", opno < c.size() ? op_text(NAMES, c[opno]) : "end", "): ", m)); }

        static char byte_at(uint64_t pat, size_t i) { return char(mix(pat + (i >> 3)) >> (8 * (i & 7))); }
        // small blocks are filled completely, big ones at both ends
        template <class F> static void positions(size_t n, F f) { if (n <= 1024) { for (size_t i = 0; i < n; ++i) f(i); } else { for (size_t i = 0; i < 256; ++i) f(i); for (size_t i = n - 256; i < n; ++i) f(i); for (size_t i = 256; i + 256 < n; i += 509) f(i); } }
        void fill(char * p, Blk & b) { b.pat = next_pat++; positions(b.size, [&](size_t i) { p[i] = byte_at(b.pat, i); }); }
        void check_content(char * p, const Blk & b, const char * when) { positions(b.size, [&](size_t i) { if (p[i] != byte_at(b.pat, i)) fail(cat("byte ", i, " of a live block of ", b.size, " bytes at offset ", p - base, " changed ", when)); }); }
        void check_all(const char * when) { if (live.size() <= 400) for (auto & kv : live) check_content(kv.first, kv.second, when); }
        size_t page_of(const char * p) { return size_t(p - base) / page; }

        void check_placement(char * p, size_t size) {
            if (uintptr_t(p) % sizeof(void *)) fail("returned memory is not aligned");
            if (p < base || p + size > base + page * npages) fail("returned memory is outside of the arena");
            if (page_of(p) != page_of(p + size - 1)) fail("returned memory crosses a page boundary");
            auto it = live.upper_bound(p);
            if (it != live.end() && p + size > it->first) fail(cat("returned memory [", p - base, ",+", size, ") overlaps the live block at ", it->first - base));
            if (it != live.begin()) { --it; if (it->first != p && it->first + it->second.size > p) fail(cat("returned memory [", p - base, ",+", size, ") overlaps the live block [", it->first - base, ",+", it->second.size, ")")); }
            size_t act = ma->reveal_actual_size(p); if (act < size) fail(cat("block of ", size, " bytes reported as having ", act));
        }
        // largest free block that certainly exists (bytes available to the user)
        size_t largest_free() {
            size_t best = 0; auto it = live.begin();
            for (size_t pg = 0; pg < npages; ++pg) {
                size_t pos = pg * page, end = pos + page;
                auto gap = [&](size_t a, size_t b) { for (auto cu = cuts.upper_bound(a); cu != cuts.end() && *cu < b; ++cu) { if (*cu > a + hdr) best = std::max(best, *cu - a - hdr); a = *cu; } if (b > a + hdr) best = std::max(best, b - a - hdr); };
                while (it != live.end() && size_t(it->first - base) < end) { size_t b = it->first - base - hdr; if (b > pos) gap(pos, b); pos = b + ma->reveal_actual_size(it->first); ++it; }
                if (pos < end) gap(pos, end);
            }
            return best;
        }
        void necessity(size_t size, size_t run, const char * what) { if (run >= size + size / 8 + 64) fail(cat(what, " for a request of ", size, " bytes although ", run, " contiguous bytes are free")); }

        void do_alloc(size_t size, bool evict) {
            size = std::max<size_t>(1, std::min(size, page - hdr));
            size_t run = npages <= 64 ? largest_free() : 0;
            std::vector<char *> gone; bool in_callback_ok = true; std::string cbmsg;
            char * p = (char *)ma->alloc_or_evict(size, evict, [&](void * q) {
                char * b = (char *)q; gone.push_back(b);
                if (!in_callback_ok) return;
                auto it = live.find(b);
                if (it == live.end()) { in_callback_ok = false; cbmsg = "eviction reported for memory that is not a live block"; return; }
                try { check_content(b, it->second, "before its eviction was reported"); } catch (const Fail & f) { in_callback_ok = false; cbmsg = f.msg; }
            });
            if (!in_callback_ok) throw Fail(cbmsg);
            if (!evict && !gone.empty()) fail("eviction without being asked for");
            acc["num_malloc"] += 1; acc["total_requested"] += size; acc["evictions"] += gone.size();
            if (p) acc["total_served"] += ma->reveal_actual_size(p); else { acc["num_alloc_errors"] += 1; acc["total_unserved"] += size; }
            if (!p) {
                if (evict) fail("an evicting allocation failed");
                necessity(size, run, "allocation failed"); ctx.hit("alloc_failures"); if (live.empty()) fail("allocation failed in an empty arena"); check_all("during a failed allocation"); return;
            }
            if (!gone.empty()) {
                necessity(size, run, "eviction");
                std::set<char *> g(gone.begin(), gone.end()); if (g.size() != gone.size()) fail("a block was reported evicted twice");
                size_t pg = page_of(*g.begin());
                for (auto b : g) if (page_of(b) != pg) fail(cat("blocks of pages ", pg, " and ", page_of(b), " evicted at once"));
                for (auto & kv : live) if (page_of(kv.first) == pg && !g.count(kv.first)) fail(cat("live block at ", kv.first - base, " in the reused page was not reported evicted"));
                if (page_of(p) != pg) fail("the evicted page is not the one reused");
                for (auto b : g) live.erase(b);
                for (auto cu = cuts.lower_bound(pg * page); cu != cuts.end() && *cu < (pg + 1) * page;) cu = cuts.erase(cu);
                ctx.hit("evicted_blocks", gone.size()); if (!live.empty()) ctx.mark();
            } else if (evict && page_of(p) < npages) { evicted_empty = true; // an empty page may have been reused: nothing in it may be live
                for (auto cu = cuts.begin(); cu != cuts.end();) { if (*cu > size_t(p - base) - hdr && *cu < size_t(p - base) + size) cu = cuts.erase(cu); else ++cu; }
            }
            check_placement(p, size); Blk b{size, 0}; fill(p, b); live[p] = b; ctx.hit("allocations");
            if (size + 64 > page) ctx.hit("page_sized_allocations");
            if (size_t(p - base) > 0xffffffffull) ctx.hit("allocations_above_4GB"); if (page_of(p) > 65535) ctx.hit("allocations_above_page_65535");
        }
        void do_free(char * p) {
            auto it = live.find(p); check_content(p, it->second, "before it was freed");
            ma->free(p); live.erase(it); acc["num_free"] += 1;
            // everything around is merged now
            size_t o = p - base, lo = o / page * page, hi = lo + page; auto nx = live.upper_bound(p);
            if (nx != live.end()) hi = std::min(hi, size_t(nx->first - base)); if (nx != live.begin()) { --nx; lo = std::max(lo, size_t(nx->first - base)); }
            for (auto cu = cuts.upper_bound(lo); cu != cuts.end() && *cu < hi;) cu = cuts.erase(cu);
            ctx.hit("frees"); if (!live.empty()) ctx.mark();
        }
        char * nth(uint64_t i) { auto it = live.begin(); std::advance(it, i % live.size()); return it->first; }

        void do_realloc(char * p, size_t size) {
            size = std::max<size_t>(1, std::min(size, page - hdr)); Blk old = live[p]; size_t act0 = ma->reveal_actual_size(p);
            check_content(p, old, "before realloc");
            char * q = (char *)ma->realloc_inplace(p, size);
            if (q && q != p) fail("in-place realloc moved the block");
            acc["num_realloc"] += 1;
            if (size + hdr > act0) { acc["total_realloc_requested"] += size + hdr - act0; if (q) acc["total_realloc_served"] += ma->reveal_actual_size(q) - act0; else { acc["total_realloc_unserved"] += size + hdr - act0; acc["num_realloc_errors"] += 1; } }
            size_t keep = q ? std::min(size, old.size) : old.size;
            Blk kept = old; kept.size = old.size; // pattern positions are those of the old size
            positions(old.size, [&](size_t i) { if (i < keep && p[i] != byte_at(old.pat, i)) fail(cat("byte ", i, " changed by an in-place realloc from ", old.size, " to ", size, q ? "" : " that failed")); });
            if (q) {
                live.erase(p); check_placement(q, size); Blk b{size, 0}; fill(q, b); live[q] = b; ctx.hit(size > old.size ? "realloc_grown" : "realloc_shrunk");
                size_t act1 = ma->reveal_actual_size(q);
                if (act1 < act0) cuts.insert(size_t(p - base) - hdr + act0);
                if (act1 > act0) { size_t lo = size_t(p - base), hi = lo / page * page + page; auto nx = live.upper_bound(p); if (nx != live.end()) hi = std::min(hi, size_t(nx->first - base)); for (auto cu = cuts.upper_bound(lo); cu != cuts.end() && *cu < hi;) cu = cuts.erase(cu); }
                if (live.size() > 1) ctx.mark();
            } else {
                size_t act2 = ma->reveal_actual_size(p);
                if (act2 < act0) fail("a failed realloc made the block smaller");
                if (act2 > act0 + 64) fail(cat("a failed realloc to ", size, " did not leave the block untouched: it took ", act2 - act0, " bytes of free memory next to it"));
                size_t lo = size_t(p - base), hi = lo / page * page + page; auto nx = live.upper_bound(p); if (nx != live.end()) hi = std::min(hi, size_t(nx->first - base)); for (auto cu = cuts.upper_bound(lo); cu != cuts.end() && *cu < hi;) cu = cuts.erase(cu);
                ctx.hit("realloc_failed");
            }
        }
        void check_stats() {
            auto & S = cl::__stats__.mem; uint64_t used = 0; for (auto & kv : live) used += ma->reveal_actual_size(kv.first);
            acc["used_memory"] = used; acc["limit_maxbytes"] = page * npages; acc["page_size"] = page;
            #define X(type, name, desc) { uint64_t v = uint64_t(S.name), want = acc[#name]; if (std::string(#name).compare(0, 14, "num_free_table") != 0 && v != want) fail(cat("the allocator reports " #name " = ", v, ", its history accounts for ", want)); }
            MEMORY_STATS(X)
            #undef X
            uint64_t served = acc["num_malloc"] - acc["num_alloc_errors"], hits = S.num_free_table_hits + S.num_free_table_weak_hits;
            if (hits > served) fail(cat("more allocations from the table of free blocks (", hits, ") than successful ones (", served, ")")); if (!acc["evictions"] && hits != served && !evicted_empty) fail(cat(hits, " allocations from the table of free blocks reported, ", served, " made"));
            ctx.hit("stats_compared");
        }
        char * counted_alloc(size_t size) { char * p = (char *)ma->alloc(size); acc["num_malloc"] += 1; acc["total_requested"] += size; if (p) acc["total_served"] += ma->reveal_actual_size(p); else { acc["num_alloc_errors"] += 1; acc["total_unserved"] += size; } return p; }
        void capacity() {
            while (!live.empty()) do_free(nth(mix(live.size() + opno)));
            cuts.clear(); size_t n = std::min<size_t>(npages, 256);
            for (size_t i = 0; i < n; ++i) { char * p = counted_alloc(page - hdr); if (!p) fail(cat("after everything was freed only ", i, " of ", npages, " whole pages can be allocated")); check_placement(p, page - hdr); Blk b{page - hdr, 0}; fill(p, b); live[p] = b; }
            if (n == npages) { if (counted_alloc(1)) fail("more memory handed out than the arena has"); }
            check_all("while the arena was full"); while (!live.empty()) do_free(live.begin()->first);
            ctx.hit("capacity_measured");
        }

        void run() {
            if (c.empty()) return;
            uint64_t lp = std::min<uint64_t>(std::max<uint64_t>(c[0].a[0], 8), 20), ln = std::min<uint64_t>(std::max<uint64_t>(c[0].a[1], 2), 17);
            page = size_t(1) << lp; npages = size_t(1) << ln; hdr = cl::memalloc::header_size(); plat::last_arena = nullptr;
            cl::ResetStats();
            ma.reset(new cl::memalloc(page * npages, uint32_t(page)));
            if (!plat::last_arena) return; // the arena was obtained in an unknown way: nothing can be observed
            base = plat::last_arena->base;
            for (opno = 1; opno < c.size(); ++opno) {
                const Op & o = c[opno];
                switch (o.code) {
                case ALLOC: do_alloc(o.a[0], false); break;
                case EVICT: do_alloc(o.a[0], true); break;
                case FREE: if (!live.empty()) do_free(nth(o.a[0])); break;
                case REALLOC: if (!live.empty()) { char * p = nth(o.a[0]); size_t s = o.a[1]; if (o.a[2] == 1) s = live[p].size / 2 + 1; if (o.a[2] == 2) s = live[p].size + 1 + o.a[1] % 200; do_realloc(p, s); } break;
                case TOUCH: if (!live.empty()) { ma->touch(nth(o.a[0])); } break;
                case FREEALL: capacity(); break;
                case BURST: for (uint64_t i = 0; i < std::min<uint64_t>(o.a[1], 100); ++i) do_alloc(o.a[0] + (o.a[2] ? i * o.a[2] : 0), false); break;
                case HOLES: { std::vector<char *> v; uint64_t i = 0, n = std::max<uint64_t>(2, o.a[0] % 8); for (auto & kv : live) if (i++ % n == o.a[1] % n) v.push_back(kv.first); for (auto p : v) do_free(p); break; }
                case FILLUP: for (int i = 0; i < 300; ++i) { size_t before = live.size(); do_alloc(o.a[0], false); if (live.size() == before) break; } break;
                case CHURN: for (uint64_t i = 0; i < std::min<uint64_t>(o.a[2], 60); ++i) { do_alloc(i & 1 ? o.a[1] : o.a[0], false); if (!live.empty() && i % 3) do_free(nth(mix(i + o.a[0]))); } break;
                }
                if (stats) check_stats();
                if (!stats && (npages <= 64 || opno % 16 == 0)) check_all("by an operation on another block");
            }
            check_all("at the end"); capacity(); if (stats) check_stats();
            if (!plat::arena_front_intact(*plat::last_arena)) fail("bytes in front of the arena were overwritten");
            ma.reset();
        }
    };
    void run(const Case & c, Ctx & ctx) override { Exec e(c, ctx, stats); e.run(); }
};

int main(int argc, char ** argv) { Options o = parse_args(argc, argv); AllocSuite s(o.prop == "C15"); Runner r(s, o); return r.main(); }
