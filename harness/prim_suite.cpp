// Decimal conversion (C16) and byte ranges with hashing (C22) against independent oracles.
#include "pbt.h"
#include <cachelot/common.h>
#include <cachelot/slice.h>
#include <cachelot/string_conv.h>
#include <cachelot/hash_fnv1a.h>

using namespace pbt;
namespace cl = cachelot;
using cl::slice;

enum OpCode { CFG, NUM, TEXT, RANGE, CMP, FIND, SPLITC, CUT, HASH };
static const std::vector<std::string> NAMES = {"cfg","num","text","range","cmp","find","splitc","cut","hash"};
#define CHECK(cond, ...) do { if (!(cond)) throw Fail(cat(__VA_ARGS__)); } while (0)

// ---------------------------------------------------------------- memory with inaccessible neighbours
struct Guarded {
    char * map; static const size_t pg = 4096, body = 4 * pg;
    Guarded() { map = (char *)mmap(nullptr, body + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(map, pg, PROT_NONE); mprotect(map + pg + body, pg, PROT_NONE); }
    ~Guarded() { munmap(map, body + 2 * pg); }
    const char * at_end(const std::string & s) { char * p = map + pg + body - s.size(); memcpy(p, s.data(), s.size()); return p; }
    const char * at_begin(const std::string & s) { char * p = map + pg; memcpy(p, s.data(), s.size()); return p; }
};

static const char * TYPES[] = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"};

struct PrimSuite : Suite {
    std::string prop; Guarded g1, g2;
    explicit PrimSuite(std::string p) : prop(std::move(p)) {}
    std::vector<std::string> op_names() const override { return NAMES; }
    std::string rule() const override {
        if (prop == "C16") return "Each case is a batch of 40 numbers (uniform, powers of ten and two and their neighbours, type limits) printed, measured and re-parsed as one of eight integer types, and texts (canonical, zero-padded, signed, over-long, with one foreign byte, boundary numbers +-1) parsed as each type by the throwing and the error-code form, from memory with inaccessible neighbours; cases 0..31 are exhaustive ranges of the 8- and 16-bit types. Non-trivial: contains a text or value within 2 of a limit of its type or a rejected text.";
        return "Each case is a batch of 30 random byte ranges over alphabets of 1, 2, 3 or 256 symbols (empty, with zero bytes, patterns cut from the text, mutated, equal, overlapping memory) on which all range operations and both hashes are compared with std::string and an independent FNV-1a; non-trivial: some pattern occurs in its text at a position other than 0, or a range is empty.";
    }

    // ------------------------------------------------------------------ generators
    uint64_t gen_value(Rng & r) {
        switch (r.below(8)) {
        case 0: return r.next(); case 1: return r.next() >> r.below(64);
        case 2: { uint64_t p = 1; for (uint64_t i = r.below(20); i > 0; --i) p *= 10; return p - 2 + r.below(4); }
        case 3: return (1ull << r.below(64)) - 2 + r.below(4); case 4: return -gen_value(r); case 5: return ~0ull - r.below(1000);
        case 6: { uint64_t p = 1; for (uint64_t i = r.below(20); i > 0; --i) p *= 10; return p * r.below(10) + r.below(3); }
        default: return r.below(2000);
        }
    }
    static std::string dec128(unsigned __int128 v) { std::string s; do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return s; }
    std::string gen_text(Rng & r) {
        std::string s;
        switch (r.below(12)) {
        case 0: { unsigned __int128 b = 1; b <<= r.oneof({7, 8, 15, 16, 31, 32, 63, 64}); s = dec128(b - 2 + r.below(4)); break; }
        case 1: { unsigned __int128 b = 1; b <<= r.oneof({7, 8, 15, 16, 31, 32, 63, 64}); s = "-" + dec128(b - 2 + r.below(4)); break; }
        case 2: { for (uint64_t n = r.range(17, 23); n > 0; --n) s += char('0' + r.below(10)); break; }
        case 3: s = "1844674407370955" + dec128(r.below(100000)); break;
        case 4: { s = dec128(gen_value(r)); uint64_t z = r.below(22); s = std::string(z, '0') + s; break; }
        case 5: { s = dec128(gen_value(r)); s[r.below(s.size())] = char(r.below(256)); break; }
        case 6: { s = dec128(gen_value(r)); s.insert(r.below(s.size() + 1), 1, "+- \0.,eE/:x\t\r\n"[r.below(14)]); break; }
        case 7: { for (uint64_t n = r.below(24); n > 0; --n) s += char(r.below(256)); break; }
        case 8: { static const char * f[] = {"", "-", "--1", "+1", "-0", "00", "0", "-00000000000000000000", "00000000000000000000", "000000000000000000000", "-000000000000000000000", "0-", "1-", "18446744073709551615", "18446744073709551616", "18446744073709551620", "18446744073709551999", "19446744073709551615", "19999999999999999999", "20000000000000000000", "99999999999999999999", "10000000000000000000", "-9223372036854775808", "-9223372036854775809", "9223372036854775807", "9223372036854775808", "-18446744073709551615", "09223372036854775807", "-09223372036854775808"}; s = f[r.below(sizeof f / sizeof *f)]; break; }
        case 9: { s = "-" + dec128(gen_value(r)); break; }
        case 10: { s = std::string(r.range(1, 24), char('0' + r.below(10))); break; }
        default: s = dec128(gen_value(r)); break;
        }
        return s;
    }
    std::string gen_bytes(Rng & r, uint64_t alpha, size_t maxlen) {
        std::string s; for (uint64_t n = r.chance(15) ? 0 : r.below(maxlen + 1); n > 0; --n) s += alpha == 256 ? char(r.below(256)) : char("a\0b\xff"[r.below(alpha)]);
        return s;
    }
    static std::string pack(const std::string & a, const std::string & b) { return std::to_string(a.size()) + "|" + a + b; }
    static std::pair<std::string, std::string> unpack(const std::string & s) {
        size_t n = 0, i = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9' && i < 6) n = n * 10 + (s[i++] - '0');
        if (i < s.size() && s[i] == '|') ++i;
        std::string r = s.substr(std::min(i, s.size())); n = std::min(n, r.size()); return std::make_pair(r.substr(0, n), r.substr(n));
    }
    Case gen(Rng & r, uint64_t index, int) override {
        Case c; c.push_back(Op(CFG, {}));
        if (prop == "C16") {
            if (index < 32) { c.push_back(Op(RANGE, {index % 4, index / 4})); return c; } // every value of the 8- and 16-bit types
            for (int i = 0; i < 40; ++i) {
                if (r.chance(45)) c.push_back(Op(NUM, {r.below(8), gen_value(r)}));
                else c.push_back(Op(TEXT, {r.below(8)}, gen_text(r)));
            }
        } else {
            for (int i = 0; i < 30; ++i) {
                uint64_t alpha = r.oneof({1, 2, 3, 4, 256}); std::string s = gen_bytes(r, alpha, r.oneof({3, 10, 40, 300})), p;
                switch (r.below(6)) {
                case 0: p = gen_bytes(r, alpha, 3); break;
                case 1: p = s; break;
                case 2: case 3: if (!s.empty()) { size_t b = r.below(s.size()); p = s.substr(b, r.below(s.size() - b + 1)); } break;
                case 4: if (!s.empty()) { size_t b = r.below(s.size()); p = s.substr(b, r.range(1, s.size() - b)); p[r.below(p.size())] ^= 1; } break;
                default: p = s + gen_bytes(r, alpha, 2); break;
                }
                if (r.chance(10) && !s.empty()) p = s.substr(r.chance(50) ? 0 : s.size() - 1 - r.below(s.size()));
                if (!p.empty() && r.chance(15)) { s = s + p; }
                switch (r.below(8)) {
                case 0: case 1: c.push_back(Op(CMP, {r.below(4)}, pack(s, p))); break;
                case 2: case 3: case 4: c.push_back(Op(FIND, {r.below(4), r.below(400)}, pack(s, p))); break;
                case 5: c.push_back(Op(SPLITC, {r.chance(60) && !s.empty() ? uint64_t((unsigned char)s[r.below(s.size())]) : r.below(256)}, s)); break;
                case 6: c.push_back(Op(CUT, {r.below(400), r.below(400)}, s)); break;
                default: {
                    if (r.chance(30)) { static const char * zero[] = {"77kepQFQ8Kl", "\xcc\x24\x31\xc4", "\xe0\x4d\x9f\xcb", "\xd5\x6b\xb9\x53\x42\x87\x08\x36"}; s = zero[r.below(4)]; }
                    c.push_back(Op(HASH, {}, s)); break; }
                }
            }
        }
        return c;
    }

    // ------------------------------------------------------------------ C16
    template <class T> void check_number(T v) {
        const bool sg = std::is_signed<T>::value; char want[40];
        if (sg) snprintf(want, sizeof want, "%lld", (long long)v); else snprintf(want, sizeof want, "%llu", (unsigned long long)v);
        size_t wl = strlen(want);
        char buf[64]; memset(buf, 0x5c, sizeof buf);
        size_t n = cl::int_to_str(v, buf + 8);
        CHECK(n == wl, "printing ", want, " returned length ", n);
        CHECK(memcmp(buf + 8, want, wl) == 0, "printing ", want, " gave ", shorten(std::string(buf + 8, wl)));
        for (int i = 0; i < 8; ++i) CHECK(buf[i] == 0x5c, "printing ", want, " wrote before the buffer");
        for (size_t i = 8 + wl; i < sizeof buf; ++i) CHECK(buf[i] == 0x5c, "printing ", want, " wrote past its text");
        std::string out; size_t n2 = cl::int_to_str(v, std::back_inserter(out)); CHECK(n2 == wl && out == want, "printing ", want, " to an output iterator gave ", out);
        CHECK(ascii_length(v, std::integral_constant<bool, std::is_signed<T>::value>()) == wl, "length of ", want, " reported as ", ascii_length(v, std::integral_constant<bool, std::is_signed<T>::value>()));
        CHECK(cl::internal::numeric<T>::max_str_length >= wl, "maximal text length of the type is below that of ", want);
        CHECK(sizeof(cl::AsciiIntegerBuffer) >= wl, "AsciiIntegerBuffer is too small");
        check_text<T>(want);
    }
    template <class T> static size_t ascii_length(T v, std::true_type) { return cl::int_ascii_length(v); }
    template <class T> static size_t ascii_length(T v, std::false_type) { return cl::uint_ascii_length(v); }

    enum Verdict { OK, BAD, RANGE_ };
    template <class T> static Verdict judge(const std::string & s, T & out) {
        size_t i = 0; bool neg = false; if (std::is_signed<T>::value && !s.empty() && s[0] == '-') { neg = true; i = 1; }
        size_t digits = s.size() - i; if (digits == 0) return BAD;
        unsigned __int128 v = 0;
        for (; i < s.size(); ++i) { unsigned char ch = s[i]; if (ch < '0' || ch > '9') return BAD; if (v < ((unsigned __int128)1 << 100)) v = v * 10 + (ch - '0'); }
        if (digits > 20) return RANGE_;
        __int128 x = neg ? -(__int128)v : (__int128)v;
        if (x < (__int128)std::numeric_limits<T>::min() || x > (__int128)std::numeric_limits<T>::max()) return RANGE_;
        out = T(x); return OK;
    }
    template <class T> bool check_text(const std::string & s) {
        T want = 0; Verdict w = judge<T>(s, want);
        for (int place = 0; place < 2; ++place) {
            const char * p = place ? g1.at_begin(s) : g1.at_end(s);
            if (!place && s.size() < 4000) {} else if (place) { // digits right behind the text must not be consumed
                char * q = const_cast<char *>(p) + s.size(); if (s.size() < 4000) { q[0] = '7'; q[1] = '7'; } }
            cl::error_code e; T got = cl::str_to_int<T>(p, p + s.size(), e);
            const char * tn = TYPES[type_index<T>()];
            if (w == OK) { CHECK(!e, "text '", shorten(s), "' was rejected as ", tn, ": ", e.message()); CHECK(got == want, "text '", shorten(s), "' was read as ", std::to_string(got), " (", tn, ")"); }
            else { CHECK(bool(e), "text '", shorten(s), "' was accepted as ", tn, " ", std::to_string(got));
                CHECK(e == cl::error::numeric_convert || e == cl::error::numeric_overflow, "text '", shorten(s), "' rejected with the unrelated error ", e.message()); 
                CHECK((w == BAD) == (e == cl::error::numeric_convert), "text '", shorten(s), "' rejected as ", tn, " with the wrong kind of error: ", e.message()); }
            bool threw = false; T got2 = 0; cl::error_code e2;
            try { got2 = cl::str_to_int<T>(p, p + s.size()); } catch (const cl::system_error & x) { threw = true; e2 = x.code(); }
            CHECK(threw == (w != OK), "throwing form ", threw ? "rejected" : "accepted", " '", shorten(s), "' as ", tn);
            if (threw) CHECK(e2 == e, "the two forms reject '", shorten(s), "' with different errors"); else CHECK(got2 == want, "throwing form read '", shorten(s), "' as ", std::to_string(got2));
        }
        return w != OK;
    }
    template <class T> static int type_index() { return (std::is_signed<T>::value ? 0 : 4) + (sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3); }
    template <class T> bool near_limit(uint64_t raw) { T v = T(raw); uint64_t u = uint64_t(v); return u - uint64_t(std::numeric_limits<T>::min()) <= 2 || uint64_t(std::numeric_limits<T>::max()) - u <= 2; }

    template <class F> void by_type(uint64_t t, F f) {
        switch (t % 8) {
        case 0: f(cl::int8()); break; case 1: f(cl::int16()); break; case 2: f(cl::int32()); break; case 3: f(cl::int64()); break;
        case 4: f(cl::uint8()); break; case 5: f(cl::uint16()); break; case 6: f(cl::uint32()); break; default: f(cl::uint64()); break;
        }
    }
    struct DoNum { PrimSuite & s; uint64_t v; Ctx & ctx; template <class T> void operator()(T) { s.check_number<T>(T(v)); if (s.near_limit<T>(v)) { ctx.mark(); ctx.hit("value_at_limit"); } } };
    struct DoText { PrimSuite & s; const std::string & t; Ctx & ctx; template <class T> void operator()(T) { if (s.check_text<T>(t)) { ctx.mark(); ctx.hit("rejected_text"); } else ctx.hit("accepted_text"); } };

    // ------------------------------------------------------------------ C22
    static void inside(const slice & part, const slice & whole, const char * what) {
        if (part.length() == 0 && part.begin() == nullptr) return;
        CHECK(part.begin() >= whole.begin() && part.end() <= whole.end() && part.begin() <= part.end(), what, " returned a range outside the original");
    }
    static uint64_t fnv(const std::string & s, uint64_t seed, uint64_t prime, uint64_t mask) { uint64_t h = seed; for (unsigned char ch : s) { h ^= ch; h = (h * prime) & mask; } return h; }

    void run(const Case & c, Ctx & ctx) override {
        for (auto & op : c) switch (op.code) {
        case NUM: by_type(op.a[0], DoNum{*this, op.a[1], ctx}); break;
        case TEXT: for (uint64_t t = 0; t < 8; ++t) { if (t == op.a[0] % 8 || op.s.size() > 17) by_type(t, DoText{*this, op.s, ctx}); } break;
        case RANGE: {
            ctx.mark(); ctx.hit("exhaustive_range"); uint64_t part = op.a[1] % 8; // an eighth of the type
            switch (op.a[0] % 4) {
            case 0: for (int v = -128; v < 128; ++v) check_number<cl::int8>(cl::int8(v)); break;
            case 1: for (int v = 0; v < 256; ++v) check_number<cl::uint8>(cl::uint8(v)); break;
            case 2: for (int v = 0; v < 8192; ++v) check_number<cl::int16>(cl::int16(-32768 + int(part) * 8192 + v)); break;
            default: for (int v = 0; v < 8192; ++v) check_number<cl::uint16>(cl::uint16(part * 8192 + v)); break;
            }
            break; }
        case CMP: {
            auto ab = unpack(op.s); const std::string & a = ab.first, & b = ab.second;
            slice sa(op.a[0] & 1 ? g1.at_begin(a) : g1.at_end(a), a.size()), sb(op.a[0] & 2 ? g2.at_begin(b) : g2.at_end(b), b.size());
            if (a.empty() || b.empty()) ctx.mark();
            CHECK((sa == sb) == (a == b), "'", shorten(a), "' == '", shorten(b), "' gave ", sa == sb);
            CHECK((sa != sb) == (a != b), "'", shorten(a), "' != '", shorten(b), "' gave ", sa != sb);
            CHECK(sa == sa && !(sa != sa), "a range differs from itself");
            bool sw = b.size() <= a.size() && a.compare(0, b.size(), b) == 0, ew = b.size() <= a.size() && a.compare(a.size() - b.size(), b.size(), b) == 0;
            CHECK(sa.startswith(sb) == sw, "'", shorten(a), "'.startswith('", shorten(b), "') gave ", !sw);
            CHECK(sa.endswith(sb) == ew, "'", shorten(a), "'.endswith('", shorten(b), "') gave ", !ew);
            CHECK(sa.length() == a.size() && sa.empty() == a.empty() && bool(sa) == !a.empty() && sa.str() == a, "basic accessors of '", shorten(a), "' are wrong");
            for (size_t i = 0; i < a.size(); ++i) CHECK(sa[i] == a[i] && sa.nth(i) == sa.begin() + i, "byte ", i, " of the range is wrong");
            if (b.size() <= a.size()) for (size_t at = 0; at + b.size() <= a.size(); at += 1 + a.size() / 4) { // a range cut from the text itself
                slice in(sa.begin() + at, b.size()); std::string ins = a.substr(at, b.size());
                CHECK(sa.startswith(in) == (a.compare(0, ins.size(), ins) == 0), "startswith of an own part at ", at, " is wrong for '", shorten(a), "'");
                CHECK(sa.endswith(in) == (a.compare(a.size() - ins.size(), ins.size(), ins) == 0), "endswith of an own part at ", at, " is wrong for '", shorten(a), "'");
                CHECK((sa == in) == (a == ins), "comparison with an own part is wrong");
            }
            break; }
        case FIND: {
            auto ab = unpack(op.s); const std::string & a = ab.first, & b = ab.second;
            slice sa(op.a[0] & 1 ? g1.at_begin(a) : g1.at_end(a), a.size()), sb(op.a[0] & 2 ? g2.at_begin(b) : g2.at_end(b), b.size());
            if (a.empty()) ctx.mark();
            if (!b.empty()) {
                size_t want = a.find(b); slice f = sa.search(sb);
                if (want != std::string::npos && want > 0) { ctx.mark(); ctx.hit("found_inside"); }
                if (want == std::string::npos) CHECK(f.empty(), "search of '", shorten(b), "' in '", shorten(a), "' found something");
                else CHECK(f.length() == b.size() && f.begin() == sa.begin() + want, "search of '", shorten(b), "' in '", shorten(a), "' found offset ", f ? int64_t(f.begin() - sa.begin()) : -1, " instead of ", want);
                CHECK(sa.contains(sb) == (want != std::string::npos), "contains('", shorten(b), "') in '", shorten(a), "' is wrong");
                slice l, rr; std::tie(l, rr) = sa.split(sb);
                if (want == std::string::npos) CHECK(l.begin() == sa.begin() && l.length() == a.size() && rr.empty(), "split by an absent separator is wrong");
                else { CHECK(l.str() == a.substr(0, want) && rr.str() == a.substr(want + b.size()), "split of '", shorten(a), "' by '", shorten(b), "' gave '", shorten(l.str()), "' and '", shorten(rr.str()), "'"); inside(l, sa, "split"); inside(rr, sa, "split"); }
                if (a.size()) { // a needle that lies inside the text: the first occurrence counts all the same
                    size_t at = op.a[1] % a.size(), n = std::min<size_t>(b.size(), a.size() - at); slice in(sa.begin() + at, n); slice f2 = sa.search(in);
                    CHECK(f2.length() == n && (n == 0 || f2.begin() == sa.begin() + a.find(a.substr(at, n))), "search of an own part of '", shorten(a), "' at ", at, " does not give the first occurrence"); if (n) { slice l2, r2; std::tie(l2, r2) = sa.split(in); size_t w0 = a.find(a.substr(at, n)); CHECK(l2.str() == a.substr(0, w0) && r2.str() == a.substr(w0 + n), "split by an own part of '", shorten(a), "' is not at its first occurrence"); } inside(f2, sa, "search"); CHECK(sa.contains(in), "a range does not contain its own part");
                    // the rest of the text searched for a part that begins before it
                    slice rest(sa.begin() + at, sa.end()); slice head(sa.begin(), std::min<size_t>(b.size(), a.size())); std::string rs = a.substr(at), hs = head.str(); size_t w2 = rs.find(hs); slice f3 = rest.search(head);
                    if (at > 0 || true) { if (w2 == std::string::npos) CHECK(f3.empty(), "search found a pattern that is not there (pattern overlaps the text in memory)"); else { CHECK(f3.length() == hs.size() && f3.begin() == rest.begin() + w2, "search missed a pattern that overlaps the text in memory"); inside(f3, rest, "search"); } }
                }
            }
            CHECK(!sa.contains(sa.end()) && (a.empty() || (sa.contains(sa.begin()) && sa.contains(sa.end() - 1))) && !sa.contains(sa.begin() - 1), "containment of pointers is wrong");
            break; }
        case SPLITC: {
            const std::string & a = op.s; slice sa(g1.at_end(a), a.size()); char ch = char(op.a[0]); slice l, r; std::tie(l, r) = sa.split(ch); size_t w = a.find(ch);
            if (w != std::string::npos && w > 0) ctx.mark();
            if (w == std::string::npos) CHECK(l.str() == a && r.empty(), "split by an absent character is wrong");
            else { CHECK(l.str() == a.substr(0, w) && r.str() == a.substr(w + 1), "split of '", shorten(a), "' by character ", int((unsigned char)ch), " gave '", shorten(l.str()), "' and '", shorten(r.str()), "'"); inside(l, sa, "split"); inside(r, sa, "split"); }
            break; }
        case CUT: {
            const std::string & a = op.s; if (a.empty()) break;
            slice sa(g1.at_end(a), a.size()); size_t i = op.a[0] % a.size(), n = op.a[1] % (a.size() - i + 1); ctx.mark();
            slice s1 = sa.subslice(i, n); CHECK(s1.begin() == sa.begin() + i && s1.length() == n && s1.str() == a.substr(i, n), "subslice(", i, ",", n, ") of '", shorten(a), "' is wrong");
            size_t t = op.a[1] % (a.size() + 1); slice s2 = sa.rtrim_n(t); CHECK(s2.begin() == sa.begin() && s2.str() == a.substr(0, a.size() - t), "rtrim_n(", t, ") of '", shorten(a), "' is wrong");
            slice l, r; std::tie(l, r) = sa.split_at(i); CHECK(l.str() == a.substr(0, i) && r.str() == a.substr(i) && l.begin() == sa.begin() && r.end() == sa.end(), "split_at(", i, ") is wrong");
            std::tie(l, r) = sa.split_at(sa.begin() + i); CHECK(l.str() == a.substr(0, i) && r.str() == a.substr(i), "split_at(pointer ", i, ") is wrong");
            std::string it; for (char ch : sa) it += ch; CHECK(it == a, "iteration over the range is wrong");
            break; }
        case HASH: {
            const std::string & a = op.s; if (a.empty()) ctx.mark(); ctx.hit("hashes");
            uint64_t w32 = fnv(a, 0x811c9dc5u, 0x01000193u, 0xffffffffull), w64 = fnv(a, 0xcbf29ce484222325ull, 0x100000001b3ull, ~0ull);
            for (int k = 0; k < 2; ++k) {
                slice sa(k ? g1.at_begin(a) : g2.at_end(a), a.size());
                uint32_t h32 = cl::fnv1a<cl::uint32>::hasher()(sa); uint64_t h64 = cl::fnv1a<cl::uint64>::hasher()(sa);
                CHECK(h32 != 0, "32-bit hash of '", shorten(a), "' is the reserved zero"); CHECK(h64 != 0, "64-bit hash of '", shorten(a), "' is the reserved zero");
                if (w32) CHECK(h32 == w32, "32-bit hash of '", shorten(a), "' is ", h32, " instead of ", w32); else { ctx.hit("zero_hash_avoided"); ctx.mark(); }
                if (w64) CHECK(h64 == w64, "64-bit hash of '", shorten(a), "' is ", h64, " instead of ", w64); else { ctx.hit("zero_hash_avoided"); ctx.mark(); }
            }
            break; }
        }
    }
};

int main(int argc, char ** argv) {
    Options o = parse_args(argc, argv);
    PrimSuite s(o.prop);
    Runner r(s, o);
    return r.main();
}
