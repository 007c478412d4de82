// Reference model of the memcached text protocol as seen by one client: commands as text, expected replies, effects.
#pragma once
#include "pbt.h"
#include <memory>
#include <deque>

namespace mm {
using namespace pbt;

inline std::string dec(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }
inline bool parse_u64(const std::string & s, uint64_t & out) {
    if (s.empty() || s.size() > 20) return false;
    unsigned __int128 v = 0; for (unsigned char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); }
    if (v > ~0ull) return false;
    out = uint64_t(v); return true;
}

inline std::string make_value(uint64_t len, uint64_t vs) {
    std::string v;
    switch (vs % 8) {
    case 0: v.assign(len, char('a' + vs / 8 % 26)); break;
    case 1: case 2: { v.resize(len); uint64_t x = mix(vs + 77); for (uint64_t i = 0; i < len; ++i) { if (i % 8 == 0) x = mix(x); v[i] = char(x >> (8 * (i % 8))); } break; }
    case 3: { static const char * w[] = {"\r\n", "\n", "\r", "END\r\n", "x", "\r\n\r\n", "0", " "}; uint64_t x = vs; while (v.size() < len) { x = mix(x); v += w[x % 8]; } v.resize(len); break; }
    case 4: { static const char * w[] = {"get k0\r\n", "set k0 0 0 1\r\nx\r\n", "delete k1\r\n", "flush_all\r\n", "quit\r\n", "VALUE k0 0 1\r\n", "STORED\r\n", "incr k0 1\r\n"}; uint64_t x = vs; while (v.size() < len) { x = mix(x); v += w[x % 8]; } v.resize(len); break; }
    case 5: case 6: { uint64_t x = mix(vs); if (vs / 8 % 4 == 0) x %= 1000; if (vs / 8 % 4 == 1) x = ~0ull - x % 50; v = dec(x); break; }
    default: v.assign(len, '\0'); break;
    }
    return v;
}

enum { SET, ADD, REPLACE, APPEND, PREPEND, CAS };
static const char * const VERB[] = {"set", "add", "replace", "append", "prepend", "cas"};
enum Kind { K_STORE, K_GET, K_DEL, K_ARITH, K_TOUCH, K_FLUSH, K_VERSION, K_STATS, K_BAD, K_SHINCR, K_SHAPPEND, K_SHSET, K_SHGET, K_QUIT };

static const uint64_t INF = ~0ull, HUGE_TOKEN = ~0ull - 5;

struct Exp { // one command in flight
    Kind kind; int verb = 0; bool noreply = false; std::vector<uint64_t> keys; std::string value; uint16_t flags = 0; uint64_t num = 0, ttl = 0; int bad_class = 0; // bit 0 ERROR, 1 CLIENT_ERROR, 2 SERVER_ERROR
    size_t end = 0; std::string text; uint64_t id = 0;
};

struct Shared { // keys written by all the clients
    uint64_t incr_sent = 0, incr_lost = 0; std::set<uint64_t> incr_seen;
    std::map<uint64_t, int> chunks;        // chunk id -> 1 confirmed, 2 uncertain
    std::set<std::string> blobs; bool blob_initial = true;
};

struct Entry { std::string value; uint16_t flags = 0; uint64_t exp = INF; uint64_t version = 0; };

struct Model {
    std::vector<std::string> keys; std::map<uint64_t, Entry> m; uint64_t next_version = 1;
    std::map<uint64_t, std::map<uint64_t, uint64_t>> tokens; std::map<uint64_t, uint64_t> last_token; // key -> token -> version
    std::map<uint64_t, uint64_t> version_token;
    size_t page = 0, limit = 0, item_overhead = 24, mem = 0, hash0 = 0; bool tight = false; std::string version_text;
    std::map<std::string, std::pair<uint64_t, uint64_t>> acc; std::map<std::string, uint64_t> last_stats; bool mem_stats = true;
    std::map<uint64_t, size_t> bound; // upper bound of the length of the value including commands in flight
    uint64_t now = 0; Shared * shared = nullptr; uint64_t last_counter = 0;
    uint64_t stores = 0, hits = 0, misses = 0, errors = 0;
    bool answered_enough() const { return stores >= 2 && hits >= 1 && misses >= 1; }

    void count(const std::string & n, uint64_t lo = 1, uint64_t hi = 1) { auto & p = acc[n]; p.first += lo; p.second += hi; }
    Entry * find(uint64_t k) { auto it = m.find(k); if (it == m.end() || it->second.exp <= now) return nullptr; return &it->second; }
    size_t isize(uint64_t k, size_t v) const { return item_overhead + keys[k].size() + v; }
    bool certain(size_t size) const { return !tight && size <= page - page / 16; }

    // ---- command texts
    std::string key(uint64_t k) const { return keys[k]; }
    static std::string num(uint64_t v, unsigned zeros) { std::string s = dec(v); return s.size() + zeros <= 20 ? std::string(zeros, '0') + s : s; }
    Exp store(int verb, uint64_t k, uint64_t flags, uint64_t ttl, std::string v, bool noreply, unsigned castype, unsigned zeros = 0) {
        Exp e; e.kind = K_STORE; e.verb = verb; e.keys = {k}; e.flags = uint16_t(flags); e.ttl = ttl; e.value = std::move(v);
        auto & b = bound[k]; if (verb == APPEND || verb == PREPEND) b += e.value.size(); else b = std::max(b, e.value.size());
        if (noreply && !certain(isize(k, std::max<size_t>(b, 20)))) noreply = false; // whether an error reply is due would not be certain
        e.noreply = noreply;
        e.text = std::string(VERB[verb]) + " " + keys[k] + " " + num(e.flags, zeros & 3) + " " + num(ttl, zeros >> 2 & 3) + " " + num(e.value.size(), zeros >> 4 & 3);
        if (verb == CAS) {
            e.num = HUGE_TOKEN; auto & t = tokens[k];
            if (castype % 4 <= 1) { if (last_token.count(k)) e.num = last_token[k]; }
            else if (castype % 4 == 2 && !t.empty()) { auto it = t.begin(); std::advance(it, (castype / 4) % t.size()); e.num = it->first; }
            else if (castype % 4 == 3 && castype & 4 && last_token.count(k)) { uint64_t t0 = last_token[k]; switch (castype >> 3 & 3) { case 0: e.num = t0 ^ 1ull << 32; break; case 1: e.num = uint32_t(t0); break; case 2: e.num = t0 ^ 1ull << 16; break; default: e.num = t0 ^ 1ull << 63; } }
            else if (castype % 4 == 3 && last_token.count(k) && last_token[k] > 1 && next_version > 3) { if ((castype >> 3 & 3) == 1) e.num = 0; else if ((castype >> 3 & 3) == 2) e.num = ~0ull; }
            e.text += " " + dec(e.num);
        }
        if (noreply) e.text += " noreply";
        e.text += "\r\n" + e.value + "\r\n";
        return e;
    }
    Exp get(bool gets, const std::vector<uint64_t> & ks) { Exp e; e.kind = K_GET; e.verb = gets; e.keys = ks; e.text = gets ? "gets" : "get"; for (auto k : ks) e.text += " " + keys[k]; e.text += "\r\n"; return e; }
    Exp del(uint64_t k, bool nr) { Exp e; e.kind = K_DEL; e.keys = {k}; e.noreply = nr; e.text = "delete " + keys[k] + (nr ? " noreply" : "") + "\r\n"; return e; }
    Exp arith(bool decr, uint64_t k, uint64_t d, bool nr, unsigned zeros) { if (tight) nr = false; Exp e; e.kind = K_ARITH; e.verb = decr; e.keys = {k}; e.num = d; e.noreply = nr; e.text = std::string(decr ? "decr " : "incr ") + keys[k] + " " + num(d, zeros & 3) + (nr ? " noreply" : "") + "\r\n"; return e; }
    Exp touch(uint64_t k, uint64_t ttl, bool nr) { Exp e; e.kind = K_TOUCH; e.keys = {k}; e.ttl = ttl; e.noreply = nr; e.text = "touch " + keys[k] + " " + dec(ttl) + (nr ? " noreply" : "") + "\r\n"; return e; }
    Exp flush(bool nr) { Exp e; e.kind = K_FLUSH; e.noreply = nr; e.text = std::string("flush_all") + (nr ? " noreply" : "") + "\r\n"; return e; }
    Exp version() { Exp e; e.kind = K_VERSION; e.text = "version\r\n"; return e; }
    Exp stats() { Exp e; e.kind = K_STATS; e.text = "stats\r\n"; return e; }
    static Exp quit() { Exp e; e.kind = K_QUIT; e.text = "quit\r\n"; return e; }

    // malformed commands; each one is complete (nothing follows it)
    Exp bad(uint64_t kind, uint64_t k, uint64_t var) {
        Exp e; e.kind = K_BAD; const std::string & K = keys[k]; std::string t; e.keys = {k};
        static const char * stor[] = {"set", "add", "replace", "append", "prepend", "cas"};
        switch (kind % 8) {
        case 0: {
            static const char * w[] = {"", " ", "ge", "gett", "GET", "Set", "sat", "sett", "ad", "cat", "cbs", "incx", "dec", "decx", "ixcr", "toucx", "touchx", "stat", "statz", "statss", "appene", "appendx", "deletf", "deleted", "prepene", "replacf", "versioo", "flush_alm", "flush_al", "flush_all_", "quitt", "qui", "verbosity", "\xff\xfe", "gets\t", "getx", "gats", "add\n", "replacee", "tauch", "xet", "sex", "aed"};
            t = w[var % (sizeof w / sizeof *w)]; if (var / 64 % 3 == 1) t += " " + K; else if (var / 64 % 3 == 2) t += " " + K + " 0 0 0"; e.bad_class = 1; break; }
        case 1: {
            static const char * w[] = {"get", "gets", "delete", "incr", "decr", "touch", "set", "add", "replace", "append", "prepend", "cas", "get ", "gets ", "delete ", "incr ", "touch ", "set ", "cas ", "get  k", "gets  k", "delete  k", "set  k 0 0 1", "incr  k 1", "touch  k 1"};
            t = w[var % (sizeof w / sizeof *w)]; e.bad_class = 3; break; }
        case 2: { std::string L(251 + var / 16 % 5 * (var / 16 % 5 == 4 ? 500 : 1), 'L'); switch (var % 12) { case 0: t = "get " + L; break; case 1: t = "gets " + K + " " + L; break; case 2: t = "delete " + L; break; case 3: t = "incr " + L + " 1"; break; case 4: t = "touch " + L + " 1"; break; case 5: t = "decr " + L + " 1"; break; default: t = std::string(stor[var % 6]) + " " + L + " 0 0 1" + (var % 6 == 5 ? " 1" : ""); } e.bad_class = 2; break; }
        case 3: {
            static const char * n[] = {"abc", "-1", "+1", "", "1x", "0x1", "99999999999999999999", "18446744073709551616", "1.5", "123456789012345678901234567890", "\xb2"};
            std::string x = n[var % 11]; std::string pre; uint64_t f = var / 16 % 7;
            switch (f) {
            case 0: t = std::string(stor[var / 128 % 6]) + " " + K + " " + x + " 0 1" + (var / 128 % 6 == 5 ? " 1" : ""); break;
            case 1: t = std::string(stor[var / 128 % 6]) + " " + K + " 0 " + x + " 1" + (var / 128 % 6 == 5 ? " 1" : ""); break;
            case 2: t = std::string(stor[var / 128 % 6]) + " " + K + " 0 0 " + x + (var / 128 % 6 == 5 ? " 1" : ""); break;
            case 3: t = "cas " + K + " 0 0 1 " + x; break;
            case 4: t = "incr " + K + " " + x; break; case 5: t = "decr " + K + " " + x; break;
            default: t = "touch " + K + " " + x; break; }
            if (var / 1024 % 4 == 1 && f == 0) t = std::string(stor[var / 128 % 5]) + " " + K + " " + (var % 2 ? "65536" : "4294967296") + " 0 1";
            if (var / 1024 % 4 == 2 && f <= 2) t = std::string(stor[var / 128 % 5]) + " " + K + " 0 4294967296 1";
            if (var / 1024 % 4 == 3 && f <= 2) t = std::string(stor[var / 128 % 5]) + " " + K + " 0 0 4294967296";
            e.bad_class = 2; break; }
        case 4: { uint64_t l = var % 3 == 0 ? page + 1 + var / 4 % 100 : var % 3 == 1 ? 4294967295u - var / 4 % 4 : 2 * page + var / 4 % 1000; t = std::string(stor[var / 16 % 6]) + " " + K + " 0 0 " + dec(l) + (var / 16 % 6 == 5 ? " 1" : ""); e.bad_class = 6; break; }
        case 5: { static const char * w[] = {"noreplyx", "norepl", "NOREPLY", "x", "noreply ", "noreply noreply", "0", "1"}; std::string x = w[var % 8];
            switch (var / 8 % 6) { case 0: t = "delete " + K + " " + x; break; case 1: t = "incr " + K + " 1 " + x; break; case 2: t = "touch " + K + " 10 " + x; break; case 3: t = "flush_all " + x; break; case 4: t = "decr " + K + " 1 " + x; break;
            default: t = std::string(stor[var / 64 % 5]) + " " + K + " 0 0 1 " + x; } e.bad_class = 7; break; }
        case 6: { static const char * w[] = {"version x", "version  ", "stats x", "stats items", "stats  "}; t = w[var % 5]; e.bad_class = 7; break; }
        default: { // data block that does not end where it should: exactly as many bytes as announced plus two
            std::string d(var % 20 + 2, 'd'); static const char * w[] = {"xx", "\n\r", "\rx", "x\n", "\n\n", "\r\r", "\0\0"}; std::string tail = var / 32 % 7 == 6 ? std::string(2, '\0') : w[var / 32 % 7];
            e.text = std::string(stor[var / 256 % 6]) + " " + K + " 0 0 " + dec(d.size()) + (var / 256 % 6 == 5 ? " 1" : "") + "\r\n" + d + tail; e.bad_class = 2; return e; }
        }
        e.text = t + "\r\n"; return e;
    }

    // ---- replies
    static bool literal(const std::string & in, size_t & pos, const std::string & lit, const Exp & e) {
        size_t n = std::min(lit.size(), in.size() - pos);
        if (in.compare(pos, n, lit, 0, n) != 0) throw Fail(cat("'", shorten(e.text, 120), "' answered with '", shorten(in.substr(pos, 160), 200), "' where '", shorten(lit, 200), "' was due"));
        if (n < lit.size()) return false;
        pos += n; return true;
    }
    static bool line(const std::string & in, size_t & pos, std::string & out, const Exp & e) {
        size_t q = in.find("\r\n", pos);
        if (q == std::string::npos) { if (in.size() - pos > 2000000) throw Fail(cat("endless reply line to '", shorten(e.text, 120), "'")); return false; }
        out = in.substr(pos, q - pos); pos = q + 2; return true;
    }
    static int error_class(const std::string & l) { if (l == "ERROR") return 1; if (l.compare(0, 13, "CLIENT_ERROR ") == 0 && l.size() > 13) return 2; if (l.compare(0, 13, "SERVER_ERROR ") == 0 && l.size() > 13) return 4; return 0; }
    static bool is_error_prefix(const std::string & in, size_t pos) { return in.compare(pos, 13, "SERVER_ERROR ", 0, std::min<size_t>(13, in.size() - pos)) == 0; }

    void put(uint64_t k, const std::string & v, uint16_t flags, uint64_t exp) { Entry e; e.value = v; e.flags = flags; e.exp = exp; e.version = next_version++; m[k] = std::move(e); ++stores; }
    void drop_expired(uint64_t k) { auto it = m.find(k); if (it != m.end() && it->second.exp <= now) m.erase(it); }

    // consume the reply to `e` from `in` at `pos` and apply the effect; false if more bytes are needed (nothing changed then)
    bool consume(const Exp & e, const std::string & in, size_t & pos) {
        size_t p = pos;
        switch (e.kind) {
        case K_STORE: {
            uint64_t k = e.keys[0]; Entry * cur = find(k); size_t sz = isize(k, e.value.size());
            std::string want; bool effect = false; std::string nv = e.value; uint16_t nf = e.flags; uint64_t nexp = e.ttl ? now + e.ttl : INF; size_t total = sz; bool failure_due = sz > limit, failure_ok = !certain(sz);
            const std::string cmd = VERB[e.verb]; std::string c2;
            switch (e.verb) {
            case SET: want = "STORED"; effect = true; c2 = cur ? "set_existing" : "set_new"; break;
            case ADD: effect = !cur; want = effect ? "STORED" : "NOT_STORED"; c2 = effect ? "add_stored" : "add_not_stored"; break;
            case REPLACE: effect = cur; want = effect ? "STORED" : "NOT_STORED"; c2 = effect ? "replace_stored" : "replace_not_stored"; break;
            case APPEND: case PREPEND:
                effect = cur; want = effect ? "STORED" : "NOT_STORED"; c2 = cmd + (effect ? "_stored" : "_misses");
                if (cur) { nv = e.verb == APPEND ? cur->value + e.value : e.value + cur->value; nf = cur->flags; nexp = cur->exp; total = isize(k, nv.size()); if (total > limit) failure_due = true; if (!certain(total)) failure_ok = true; }
                break;
            case CAS: {
                if (!cur) { want = "NOT_FOUND"; c2 = "cas_misses"; }
                else { auto & t = tokens[k]; auto it = t.find(e.num); effect = it != t.end() && it->second == cur->version; want = effect ? "STORED" : "EXISTS"; c2 = effect ? "cas_stored" : "cas_badval"; }
                break; }
            }
            if (failure_due || (failure_ok && !e.noreply && is_error_prefix(in, p))) {
                std::string l; if (p >= in.size()) return false; if (!line(in, p, l, e)) return false;
                int ec = error_class(l); if (ec != 4 && !(failure_due && ec == 2)) throw Fail(cat("'", shorten(e.text, 100), "' (item of ", total, " bytes, limit ", limit, ") answered with '", shorten(l), "' instead of an error"));
                if (cur || sz <= limit) { count("cmd_" + cmd, 0, 1); count(c2, 0, 1); } ++errors; pos = p; return true;
            }
            if (failure_ok && !e.noreply && p >= in.size()) return false;
            if (!e.noreply && !literal(in, p, want + "\r\n", e)) return false;
            count("cmd_" + cmd); count(c2);
            drop_expired(k);
            if (effect) put(k, nv, nf, nexp);
            pos = p; return true; }
        case K_GET: {
            std::vector<std::pair<uint64_t, uint64_t>> learned; uint64_t h = 0, ms = 0; size_t avail = in.size() - p; (void)avail;
            for (auto k : e.keys) {
                Entry * cur = find(k); if (!cur) { ++ms; continue; } ++h;
                if (!literal(in, p, "VALUE " + keys[k] + " " + dec(cur->flags) + " " + dec(cur->value.size()) + (e.verb ? " " : "\r\n"), e)) return false;
                if (e.verb) { std::string t; uint64_t tok; if (!line(in, p, t, e)) return false; if (!parse_u64(t, tok)) throw Fail(cat("gets returned the version '", shorten(t), "'")); learned.emplace_back(k, tok); }
                size_t n = std::min(cur->value.size(), in.size() - p);
                if (in.compare(p, n, cur->value, 0, n) != 0) throw Fail(cat("'", shorten(e.text, 100), "' returned the wrong data for ", shorten(keys[k]), ": '", shorten(in.substr(p, n)), "' instead of '", shorten(cur->value), "'"));
                if (n < cur->value.size()) return false; p += n;
                if (!literal(in, p, "\r\n", e)) return false;
            }
            if (!literal(in, p, "END\r\n", e)) return false;
            for (auto & l : learned) {
                uint64_t v = m[l.first].version; auto & t = tokens[l.first]; auto it = t.find(l.second);
                if (it != t.end() && it->second != v) throw Fail(cat("version ", l.second, " of key ", shorten(keys[l.first]), " was returned again after the item had been changed"));
                auto vt = version_token.find(v); if (vt != version_token.end() && vt->second != l.second) throw Fail(cat("version of key ", shorten(keys[l.first]), " changed from ", vt->second, " to ", l.second, " though nothing was stored"));
                t[l.second] = v; last_token[l.first] = l.second; version_token[v] = l.second;
            }
            for (auto k : e.keys) drop_expired(k);
            count("cmd_get", e.keys.size(), e.keys.size()); count("get_hits", h, h); count("get_misses", ms, ms); hits += h; misses += ms;
            pos = p; return true; }
        case K_DEL: { Entry * cur = find(e.keys[0]); if (!e.noreply && !literal(in, p, cur ? "DELETED\r\n" : "NOT_FOUND\r\n", e)) return false; count("cmd_delete"); count(cur ? "delete_hits" : "delete_misses"); m.erase(e.keys[0]); pos = p; return true; }
        case K_TOUCH: { Entry * cur = find(e.keys[0]); if (!e.noreply && !literal(in, p, cur ? "TOUCHED\r\n" : "NOT_FOUND\r\n", e)) return false; count("cmd_touch"); count(cur ? "touch_hits" : "touch_misses"); drop_expired(e.keys[0]); if (cur) cur->exp = e.ttl ? now + e.ttl : INF; pos = p; return true; }
        case K_FLUSH: { if (!e.noreply && !literal(in, p, "OK\r\n", e)) return false; count("cmd_flush"); for (auto it = m.begin(); it != m.end();) if (it->second.exp <= now) it = m.erase(it); else ++it; pos = p; return true; }
        case K_ARITH: {
            uint64_t k = e.keys[0]; Entry * cur = find(k); const std::string cmd = e.verb ? "decr" : "incr"; uint64_t v = 0;
            if (!cur) { if (!e.noreply && !literal(in, p, "NOT_FOUND\r\n", e)) return false; count("cmd_" + cmd); count(cmd + "_misses"); drop_expired(k); pos = p; return true; }
            if (!parse_u64(cur->value, v)) { std::string l; if (!line(in, p, l, e)) return false; if (error_class(l) != 2) throw Fail(cat("'", shorten(e.text), "' on the value '", shorten(cur->value), "' answered with '", shorten(l), "'")); count("cmd_" + cmd, 0, 1); count(cmd + "_hits", 0, 1); count(cmd + "_misses", 0, 1); ++errors; pos = p; return true; }
            if (tight && !e.noreply) { if (p >= in.size()) return false; if (is_error_prefix(in, p)) { std::string l; if (!line(in, p, l, e)) return false; count("cmd_" + cmd, 0, 1); count(cmd + "_hits", 0, 1); ++errors; pos = p; return true; } }
            uint64_t r = e.verb ? (v > e.num ? v - e.num : 0) : (v + e.num < v ? ~0ull : v + e.num);
            if (!e.noreply && !literal(in, p, dec(r) + "\r\n", e)) return false;
            count("cmd_" + cmd); count(cmd + "_hits"); put(k, dec(r), cur->flags, cur->exp); pos = p; return true; }
        case K_VERSION: { std::string l; if (!line(in, p, l, e)) return false; if (l.compare(0, 8, "VERSION ") != 0 || l.size() < 9) throw Fail(cat("'version' answered with '", shorten(l), "'")); if (version_text.empty()) version_text = l; if (l != version_text) throw Fail("'version' answered differently"); pos = p; return true; }
        case K_STATS: {
            std::map<std::string, uint64_t> st; std::string l;
            for (;;) { if (!line(in, p, l, e)) return false; if (l == "END") break; size_t s1 = l.find(' ', 5); uint64_t v; if (l.compare(0, 5, "STAT ") != 0 || s1 == std::string::npos || !parse_u64(l.substr(s1 + 1), v)) throw Fail(cat("'stats' answered with the line '", shorten(l), "'")); st[l.substr(5, s1 - 5)] = v; }
            check_stats(st); last_stats = st; pos = p; return true; }
        case K_BAD: { std::string l; if (!line(in, p, l, e)) return false; int ec = error_class(l); if (!ec || !(ec & e.bad_class)) throw Fail(cat("malformed '", shorten(e.text, 150), "' answered with '", shorten(l), "'")); ++errors; if (e.text.compare(0, 4, "gets") == 0 && e.text.compare(0, 5, "gets ") == 0) { count("cmd_get", 0, 5); count("get_hits", 0, 5); count("get_misses", 0, 5); } pos = p; return true; }
        case K_SHINCR: {
            std::string l; uint64_t v; if (!line(in, p, l, e)) return false;
            if (!parse_u64(l, v)) throw Fail(cat("incr of the shared counter answered with '", shorten(l), "'"));
            if (v <= last_counter) throw Fail(cat("shared counter went from ", last_counter, " to ", v, " for one client")); if (!shared->incr_seen.insert(v).second) throw Fail(cat("two clients were told that their increment made the counter ", v));
            if (v > shared->incr_sent) throw Fail(cat("shared counter is ", v, " after only ", shared->incr_sent, " increments"));
            last_counter = v; pos = p; return true; }
        case K_SHAPPEND: { if (!literal(in, p, "STORED\r\n", e)) return false; shared->chunks[e.id] = 1; pos = p; return true; }
        case K_SHSET: { if (!literal(in, p, "STORED\r\n", e)) return false; pos = p; return true; }
        case K_SHGET: {
            std::string l; if (!line(in, p, l, e)) return false; uint64_t n = 0; size_t s = l.rfind(' ');
            if (l.compare(0, 15, "VALUE shblob 0 ") != 0 || !parse_u64(l.substr(s + 1), n)) throw Fail(cat("get of the shared item answered with '", shorten(l), "'"));
            if (in.size() - p < n) return false; std::string v = in.substr(p, n); p += n; if (!literal(in, p, "\r\nEND\r\n", e)) return false;
            if (!shared->blobs.count(v)) throw Fail(cat("shared item holds a value that nobody wrote: '", shorten(v), "'")); pos = p; return true; }
        case K_QUIT: return true;
        }
        return true;
    }
    bool foreign = false; // other clients take part: counters and items are not all ours
    void check_stats(const std::map<std::string, uint64_t> & st) {
        static const char * must[] = {"cmd_get", "get_hits", "get_misses", "cmd_set", "cmd_add", "cmd_replace", "cmd_cas", "cmd_delete", "cmd_touch", "cmd_incr", "cmd_decr", "cmd_append", "cmd_prepend", "cmd_flush", "curr_items", "limit_maxbytes", "evictions", "used_memory"};
        for (auto n : must) if (!st.count(n)) throw Fail(cat("stats do not contain ", n));
        if (foreign) return;
        for (auto & kv : st) {
            bool counter = kv.first.compare(0, 4, "cmd_") == 0; for (auto v : {"get_", "set_", "add_", "replace_", "cas_", "delete_", "touch_", "incr_", "decr_", "append_", "prepend_"}) if (kv.first.compare(0, strlen(v), v) == 0) counter = true;
            if (!counter || tight) continue;
            auto it = acc.find(kv.first); uint64_t lo = it == acc.end() ? 0 : it->second.first, hi = it == acc.end() ? 0 : it->second.second;
            if (kv.second < lo || kv.second > hi) throw Fail(cat("stats: ", kv.first, " is ", kv.second, ", the history accounts for ", lo, hi != lo ? cat("..", hi) : ""));
        }
        uint64_t live = 0; for (auto & kv : m) if (kv.second.exp > now) ++live;
        uint64_t ci = st.at("curr_items"); if (ci < live || ci > m.size()) throw Fail(cat("stats: curr_items is ", ci, ", present are ", live, "..", m.size()));
        if (hash0 && st.count("hash_capacity") && st.count("hash_is_expanding")) { // the index grows only when it is nearly full
            uint64_t hc = st.at("hash_capacity"), ex = st.at("hash_is_expanding"), most = keys.size();
            if ((hc & (hc - 1)) || hc < hash0 || hc < ci) throw Fail(cat("stats: hash_capacity is ", hc, " with ", ci, " items and the initial capacity ", hash0));
            if (hc > hash0 && hc * 90 > 200 * (most + 2)) throw Fail(cat("stats: hash_capacity is ", hc, " although there never were more than ", most, " items, initially ", hash0));
            if (ex > 1 || (ex && hc == hash0)) throw Fail(cat("stats: hash_is_expanding is ", ex, " with the initial capacity ", hash0, " of the hash table still in use"));
        }
        if (mem_stats) {
            if (st.at("limit_maxbytes") != mem) throw Fail(cat("stats: limit_maxbytes is ", st.at("limit_maxbytes"), ", configured ", mem));
            if (st.at("used_memory") > mem) throw Fail("stats: used_memory above the limit");
            if (st.at("evictions") != 0) throw Fail("stats: evictions reported where nothing was evicted");
            uint64_t sum = 0; for (auto & kv : m) if (kv.second.exp > now) sum += isize(kv.first, kv.second.value.size());
            if (st.at("used_memory") < sum) throw Fail(cat("stats: used_memory ", st.at("used_memory"), " is less than the items, ", sum));
        }
    }
};

} // namespace mm
