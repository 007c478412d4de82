// Bit arithmetic and the intrusive list (C23) against their plain definitions.
#include "pbt.h"
#include <cachelot/common.h>
#include <cachelot/bits.h>
#include <cachelot/intrusive_list.h>
#include <algorithm>

using namespace pbt;
namespace cl = cachelot;

enum OpCode { CFG, BITS, ALIGN, PUSHF, PUSHB, POPF, POPB, REMOVE, UNLINK, FORWARD, OTHER };
static const std::vector<std::string> NAMES = {"cfg","bits","align","pushf","pushb","popf","popb","remove","unlink","forward","other"};
#define CHECK(cond, ...) do { if (!(cond)) throw Fail(cat(__VA_ARGS__)); } while (0)

struct Node { int id; cl::intrusive_list_node first_hook; long pad; cl::intrusive_list_node link; };
typedef cl::intrusive_list<Node, &Node::first_hook> ListA;
typedef cl::intrusive_list<Node, &Node::link> ListB;

struct BaseSuite : Suite {
    std::vector<std::string> op_names() const override { return NAMES; }
    std::string rule() const override { return "Each case is a batch of bit and alignment questions (single bits, neighbours of powers of two, random and full words, every bit number, 32- and 64-bit types, alignments up to 2^31) followed by a random history of two intrusive lists sharing up to 10 nodes; answers are compared with bit-by-bit definitions, the lists with plain sequences in both directions. Non-trivial: at least two nodes in one list or a bit number above 30."; }
    uint64_t gen_value(Rng & r) {
        switch (r.below(7)) { case 0: return r.next(); case 1: return r.next() >> r.below(64); case 2: return (1ull << r.below(64)) - 1 + r.below(3); case 3: return 1ull << r.below(64); case 4: return ~0ull - r.below(10); case 5: return (1ull << r.below(64)) | (1ull << r.below(64)); default: return r.below(300); }
    }
    Case gen(Rng & r, uint64_t, int tier) override {
        Case c; c.push_back(Op(CFG, {r.range(1, 10)}));
        for (int i = 0; i < 12; ++i) c.push_back(r.chance(75) ? Op(BITS, {gen_value(r), r.below(64)}) : Op(ALIGN, {gen_value(r) >> 1, r.below(32)}));
        for (uint64_t n = r.range(5, tier ? 120 : 60); n > 0; --n) { int op = PUSHF + int(r.weighted({20, 20, 7, 7, 6, 8, 25, 5})); c.push_back(Op(op, {r.below(10), r.below(2)})); }
        return c;
    }
    template <class T> void bits(uint64_t x, unsigned bit, const char * type) {
        const unsigned W = sizeof(T) * 8; T v = T(x); bit %= W; T one = 1;
        bool on = (v >> bit) & 1; T mask = T(one << bit);
        CHECK(cl::bit::is_set(v, bit) == on, "is_set(", v, ", ", bit, ") of ", type, " is wrong"); CHECK(cl::bit::is_unset(v, bit) == !on, "is_unset(", v, ", ", bit, ") of ", type, " is wrong");
        CHECK(cl::bit::set(v, bit) == T(on ? v : v + mask), "set(", v, ", ", bit, ") of ", type, " is wrong"); CHECK(cl::bit::unset(v, bit) == T(on ? v - mask : v), "unset(", v, ", ", bit, ") of ", type, " is wrong");
        CHECK(cl::bit::flip(v, bit) == T(on ? v - mask : v + mask), "flip(", v, ", ", bit, ") of ", type, " is wrong");
        unsigned msb = 0, lsb = W, ones = 0; for (unsigned i = 0; i < W; ++i) if ((v >> i) & 1) { msb = i; if (lsb == W) lsb = i; ++ones; }
        if (v) {
            CHECK(cl::bit::most_significant(v) == msb, "most_significant(", v, ") of ", type, " gives ", cl::bit::most_significant(v)); CHECK(cl::bit::least_significant(v) == lsb, "least_significant(", v, ") of ", type, " gives ", cl::bit::least_significant(v));
            CHECK(cl::log2u(v) == T(msb), "log2u(", v, ") of ", type, " gives ", cl::log2u(v));
            if (ones == 1 || msb + 1 < W) { T want = ones == 1 ? v : T(one << (msb + 1)); CHECK(cl::roundup_pow2(v) == want, "roundup_pow2(", v, ") of ", type, " gives ", cl::roundup_pow2(v)); }
        }
        CHECK(cl::ispow2(v) == (ones <= 1), "ispow2(", v, ") of ", type, " is wrong"); CHECK(cl::pow2(T(bit)) == mask, "pow2(", bit, ") of ", type, " is wrong");
    }
    template <class L> void verify(L & l, const std::vector<int> & m, std::vector<Node> & n, const char * what) {
        CHECK(l.empty() == m.empty(), what, ": empty() is wrong with ", m.size(), " nodes");
        if (!m.empty()) { CHECK(l.front() == &n[m.front()], what, ": wrong front"); CHECK(l.back() == &n[m.back()], what, ": wrong back"); }
        for (size_t i = 0; i < m.size(); ++i) { Node * p = &n[m[i]]; CHECK(l.has(p) && L::is_linked(p), what, ": node ", m[i], " is missing"); CHECK(l.is_head(p) == (i == 0), what, ": is_head is wrong for node ", m[i]); CHECK(l.is_tail(p) == (i + 1 == m.size()), what, ": is_tail is wrong for node ", m[i]); }
    }
    template <class L> void step(int code, int id, L & l, std::vector<int> & m, std::vector<Node> & n, const char * what) {
        auto it = std::find(m.begin(), m.end(), id); bool in = it != m.end(); Node * p = &n[id];
        switch (code) {
        case PUSHF: if (!in) { l.push_front(p); m.insert(m.begin(), id); } break;
        case PUSHB: if (!in) { l.push_back(p); m.push_back(id); } break;
        case POPF: if (!m.empty()) { Node * g = l.pop_front(); CHECK(g == &n[m.front()], what, ": pop_front gives another node"); m.erase(m.begin()); } break;
        case POPB: if (!m.empty()) { Node * g = l.pop_back(); CHECK(g == &n[m.back()], what, ": pop_back gives another node"); m.pop_back(); } break;
        case REMOVE: if (in) { l.remove(p); m.erase(it); } break;
        case UNLINK: if (in) { L::unlink(p); m.erase(it); } break;
        case FORWARD: if (in) { l.move_front(p); if (it != m.begin()) std::iter_swap(it, it - 1); } break; // one step towards the front
        default: break;
        }
        verify(l, m, n, what);
    }
    // every node once, from both ends
    template <class L> void drain(L & l, std::vector<int> & m, std::vector<Node> & n, const char * what, bool fwd) {
        while (!m.empty()) { step(fwd ? POPF : POPB, 0, l, m, n, what); fwd = !fwd; } CHECK(l.empty(), what, ": not empty after the last node");
    }
    void run(const Case & c, Ctx & ctx) override {
        size_t nodes = std::min<uint64_t>(std::max<uint64_t>(c.empty() ? 1 : c[0].a[0], 1), 16); std::vector<Node> n(nodes); for (size_t i = 0; i < nodes; ++i) { n[i].id = int(i); n[i].pad = 0x5a5a5a5a; n[i].first_hook.next = n[i].first_hook.prev = &n[i].first_hook; n[i].link.next = n[i].link.prev = &n[i].link; }
        ListA a; ListB b; std::vector<int> ma, mb; uint64_t opno = 0;
        for (auto & o : c) {
            try {
                if (o.code == BITS) { unsigned bit = unsigned(o.a[1] % 64); bits<cl::uint64>(o.a[0], bit, "uint64"); bits<unsigned long long>(o.a[0], bit, "unsigned long long"); bits<cl::uint32>(o.a[0], bit, "uint32"); ctx.hit("bit_questions"); if (bit > 30) ctx.mark(); }
                else if (o.code == ALIGN) {
                    size_t al = size_t(1) << (o.a[1] % 32), v = size_t(o.a[0] & (~0ull >> 1)), want = v % al ? al - v % al : 0; CHECK(cl::unaligned_bytes(v, al) == want, "unaligned_bytes(", v, ", ", al, ") gives ", cl::unaligned_bytes(v, al), " instead of ", want);
                    CHECK(cl::unaligned_bytes(reinterpret_cast<const void *>(v), al) == want, "unaligned_bytes(address ", v, ", ", al, ") is wrong"); ctx.hit("alignments");
                } else if (o.code >= PUSHF) {
                    int id = int(o.a[0] % nodes); if (o.a[1] & 1) step(o.code, id, b, mb, n, "second list"); else step(o.code, id, a, ma, n, "first list"); ctx.hit("list_steps"); if (ma.size() > 1) ctx.mark();
                    for (size_t i = 0; i < nodes; ++i) CHECK(n[i].id == int(i) && n[i].pad == 0x5a5a5a5a, "a list step damaged the data of node ", i);
                }
            } catch (Fail & f) { throw Fail(cat("op ", opno, ": ", f.msg)); }
            ++opno;
        }
        verify(a, ma, n, "first list"); verify(b, mb, n, "second list"); drain(a, ma, n, "first list", true); drain(b, mb, n, "second list", false);
    }
};

int main(int argc, char ** argv) { Options o = parse_args(argc, argv); BaseSuite s; Runner r(s, o); return r.main(); }
