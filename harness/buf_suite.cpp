// The connection buffer against a plain byte string with a read position: C17
#include "platform.h"
#include "pbt.h"
#if !defined(__SANITIZE_ADDRESS__)
static bool realloc_fail = false; static uint64_t realloc_failed = 0;
extern "C" void * __libc_realloc(void *, size_t); extern "C" void * __libc_malloc(size_t); extern "C" void * __libc_calloc(size_t, size_t);
extern "C" void * realloc(void * p, size_t n) noexcept { if (realloc_fail) { ++realloc_failed; return nullptr; } return __libc_realloc(p, n); }
extern "C" void * malloc(size_t n) noexcept { if (realloc_fail) { ++realloc_failed; return nullptr; } return __libc_malloc(n); }
extern "C" void * calloc(size_t a, size_t b) noexcept { if (realloc_fail) { ++realloc_failed; return nullptr; } return __libc_calloc(a, b); }
#endif
#include <cachelot/common.h>
#include <server/io_buffer.h>

using namespace pbt;
namespace cl = cachelot;
using cl::slice;

enum OpCode { CFG, WRITE, FAILWRITE, READ, READALL, UNTIL, SAVER, ROLLR, SAVEW, ROLLW, COMPACT, RESET, ENSURE, HUGE_ };
static const std::vector<std::string> NAMES = {"cfg","write","failwrite","read","readall","until","saver","rollr","savew","rollw","compact","reset","ensure","huge"};
#define CHECK(cond, ...) do { if (!(cond)) throw Fail(cat(__VA_ARGS__)); } while (0)

struct BufSuite : Suite {
    std::string prop;
    explicit BufSuite(std::string p) : prop(std::move(p)) {}
    std::vector<std::string> op_names() const override { return NAMES; }
    std::string rule() const override { return "Each case is a buffer (initial size 0..4096, maximum 0..200000) and a random history of reserve/confirm writes, partial reads, terminator searches, savepoints and rollbacks, compaction, resets, capacity requests, writes over the limit and allocation failures, compared with a byte string; non-trivial: the buffer grew with unread data inside, a write was refused, or a rollback gave data back."; }

    Case gen(Rng & r, uint64_t, int tier) override {
        Case c; uint64_t maxs = r.oneof({0, 1, 5, 64, 499, 500, 501, 1000, 1999, 4096, 20000, 200000}); maxs += r.below(3);
        uint64_t init = r.oneof({0, 1, 7, 100, 499, 500, 512, 4096}); if (r.chance(90)) init = std::min(init, maxs); if (r.chance(5)) init = maxs;
        c.push_back(Op(CFG, {init, maxs, r.below(100)}));
        std::vector<unsigned> w = {0, 35, 3, 20, 3, 10, 8, 8, 8, 8, 8, r.chance(30) ? 2u : 0u, 4, 1};
        if (r.chance(15)) for (size_t i = 2; i < w.size(); ++i) if (r.chance(40)) w[i] = 0; // swarm: some of the operations never appear in the case
        uint64_t n = r.range(5, 120); if (tier) n *= 3;
        for (uint64_t i = 0; i < n; ++i) {
            int code = int(r.weighted(w)); uint64_t len = r.chance(60) ? r.below(40) : r.chance(70) ? r.below(700) : r.below(maxs + 20); if (r.chance(5)) len = maxs - r.below(std::min<uint64_t>(maxs, 3) + 1);
            switch (code) {
            case WRITE: c.push_back(Op(WRITE, {len, r.chance(60) ? 1000 : r.below(1000), r.below(1000), r.below(8)})); break;
            case FAILWRITE: case ENSURE: c.push_back(Op(code, {len, r.below(1000)})); break;
            case READ: c.push_back(Op(READ, {r.below(1001)})); break;
            case UNTIL: c.push_back(Op(UNTIL, {r.below(7)})); break;
            case HUGE_: c.push_back(Op(HUGE_, {r.below(6)})); break;
            default: c.push_back(Op(code, {r.below(4)})); break;
            }
        }
        return c;
    }
    static std::string bytes(uint64_t n, uint64_t seed, uint64_t style) {
        std::string s(n, 0); uint64_t x = mix(seed * 131 + style);
        for (uint64_t i = 0; i < n; ++i) { if (i % 16 == 0) x = mix(x + i); unsigned v = unsigned(x >> (4 * (i % 16))); s[i] = style < 3 ? "\r\nab"[v & 3] : style == 3 ? char('a' + (v & 1)) : style == 4 ? char(v) : char('0' + (i % 10)); }
        return s;
    }

    void run(const Case & c, Ctx & ctx) override {
        const Op & cfg = c[0]; if (cfg.code != CFG) return;
        const size_t maxs = cfg.a[1] % 1000000, init = cfg.a[0] % 1000000;
        std::unique_ptr<cl::io_buffer> bp;
        try { bp.reset(new cl::io_buffer(init, maxs)); } catch (const std::length_error &) { CHECK(init > maxs, "constructor refused ", init, " of ", maxs); ctx.mark(); return; }
        CHECK(init <= maxs, "constructor accepted an initial size ", init, " over the maximum ", maxs);
        cl::io_buffer & b = *bp;
        std::string data; size_t rpos = 0; uint64_t seq = cfg.a[2];
        struct RS { cl::io_buffer::read_savepoint_type sp; size_t pos; }; struct WS { cl::io_buffer::write_savepoint_type sp; size_t pos; };
        std::vector<RS> rs; std::vector<WS> ws;
        auto verify = [&](const char * after) {
            CHECK(b.capacity() <= maxs, after, ": capacity ", b.capacity(), " exceeds the maximum ", maxs);
            CHECK(b.size() == data.size(), after, ": size() is ", b.size(), " instead of ", data.size());
            CHECK(b.non_read() == data.size() - rpos, after, ": non_read() is ", b.non_read(), " instead of ", data.size() - rpos);
            CHECK(b.available() == b.capacity() - b.size() && b.capacity() >= b.size(), after, ": available() is ", b.available());
            CHECK(data.size() == rpos || memcmp(b.begin_read(), data.data() + rpos, data.size() - rpos) == 0, after, ": unread bytes have changed");
        };
        // a reservation; 0 done, 1 refused for the limit, 2 no memory
        auto reserve = [&](size_t n, bool fail, char *& p) -> int {
            size_t cap = b.capacity(); bool unread = data.size() > rpos; int res = 0;
#if !defined(__SANITIZE_ADDRESS__)
            uint64_t f0 = realloc_failed; if (fail) { realloc_fail = true; plat::alloc_fail = true; }
#else
            fail = false;
#endif
            try { p = b.begin_write(n); } catch (const std::length_error &) { res = 1; } catch (const std::bad_alloc &) { res = 2; }
#if !defined(__SANITIZE_ADDRESS__)
            realloc_fail = false; plat::alloc_fail = false;
            if (res == 2) CHECK(fail, "bad_alloc for a request of ", n, " bytes with memory available");
            if (f0 != realloc_failed) { ctx.hit("allocation_failed"); ctx.mark(); }
#endif
            bool over = n > maxs - (data.size() - rpos), fits = n <= maxs - data.size();
            if (res == 0) CHECK(!over, "a write of ", n, " bytes over the maximum ", maxs, " was accepted");
            if (res == 1) CHECK(!fits, "a write of ", n, " bytes was refused with ", data.size(), " of ", maxs, " used");
            if (res == 0) CHECK(b.available() >= n, "only ", b.available(), " bytes available after reserving ", n);
            if (res) { ctx.mark(); ctx.hit("refused"); }
            if (res == 0 && b.capacity() > cap && unread) { ctx.mark(); ctx.hit("grew_with_data"); }
            return res;
        };
        verify("construction");
        for (size_t i = 1; i < c.size(); ++i) {
            const Op & op = c[i];
            switch (op.code) {
            case WRITE: case FAILWRITE: {
                size_t n = op.a[0] % 300000; if (n == 0) n = 1; char * p = nullptr;
                int res = reserve(n, op.code == FAILWRITE, p); verify("begin_write");
                if (res == 0) { size_t m = op.a[1] >= 1000 ? n : n * op.a[1] / 1000; std::string s = bytes(m, seq++, op.a[3]); if (m) { memset(p, 0x3f, n); memcpy(p, s.data(), m); } b.confirm_write(m); data += s; }
                break; }
            case READ: { size_t n = (data.size() - rpos) * std::min<uint64_t>(op.a[0], 1000) / 1000; slice s = b.confirm_read(n); CHECK(s.length() == n && (n == 0 || memcmp(s.begin(), data.data() + rpos, n) == 0), "confirm_read(", n, ") returned other bytes"); rpos += n; break; }
            case READALL: { slice s = b.read_all(); CHECK(s.length() == data.size() - rpos && (s.empty() || memcmp(s.begin(), data.data() + rpos, s.length()) == 0), "read_all() returned other bytes"); rpos = data.size(); break; }
            case UNTIL: {
                static const char * T[] = {"\r\n", "\n", "ab", "aab", "\r\n\r\n", "abab", "9"}; std::string t = T[op.a[0] % 7];
                size_t at = data.find(t, rpos); slice s = b.try_read_until(slice(t.data(), t.size()));
                if (at == std::string::npos) CHECK(s.empty(), "try_read_until found a terminator that is not there");
                else { size_t n = at + t.size() - rpos; CHECK(s.length() == n, "try_read_until returned ", s.length(), " bytes instead of ", n); CHECK(memcmp(s.begin(), data.data() + rpos, n) == 0, "try_read_until returned other bytes"); rpos += n; ctx.hit("terminator_found"); }
                break; }
            case SAVER: rs.push_back(RS{b.read_savepoint(), rpos}); break;
            case ROLLR: if (!rs.empty()) { RS s = rs[op.a[0] % rs.size()]; if (s.pos > rpos) break; if (s.pos < rpos) { ctx.mark(); ctx.hit("read_rolled_back"); } b.rollback_read_transaction(s.sp); rpos = s.pos; } break;
            case SAVEW: ws.push_back(WS{b.write_savepoint(), data.size()}); break;
            case ROLLW: if (!ws.empty()) { WS s = ws[op.a[0] % ws.size()]; if (s.pos < rpos || s.pos > data.size()) break; if (s.pos < data.size()) { ctx.mark(); ctx.hit("write_rolled_back"); } b.rollback_write_transaction(s.sp); data.resize(s.pos); } break;
            case COMPACT: b.compact(); data.erase(0, rpos); rpos = 0; rs.clear(); ws.clear(); break;
            case RESET: b.reset(); data.clear(); rpos = 0; rs.clear(); ws.clear(); break;
            case ENSURE: { size_t n = op.a[0] % 300000; if (n == 0) n = 1; bool fits = n <= maxs - data.size(), over = n > maxs - (data.size() - rpos); bool ok = true;
                try { b.ensure_capacity(n); } catch (const std::length_error &) { ok = false; ctx.mark(); }
                if (ok) CHECK(!over && b.available() >= n, "ensure_capacity(", n, ") succeeded with ", b.available(), " available"); else CHECK(!fits, "ensure_capacity(", n, ") refused with ", data.size(), " of ", maxs, " used");
                break; }
            case HUGE_: { static const size_t H[] = {~size_t(0), ~size_t(0) - 1, ~size_t(0) / 2 + 1, ~size_t(0) - 500, size_t(1) << 40, ~size_t(0) - 4096}; char * p = nullptr; int res = reserve(H[op.a[0] % 6], false, p); CHECK(res == 1, "a reservation of ", H[op.a[0] % 6], " bytes was not refused by the limit"); break; }
            }
            if (maxs < 30000 || i % 8 == 0) verify(NAMES[op.code].c_str());
        }
        verify("end");
    }
};

int main(int argc, char ** argv) {
    Options o = parse_args(argc, argv);
    BufSuite s(o.prop);
    Runner r(s, o);
    return r.main();
}
