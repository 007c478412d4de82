// Minimal stateful property-based testing runtime.
//
//  * a Case is a list of Ops (op 0 is the configuration); every op is total: any argument values
//    are meaningful, so that shrinking can drop ops and simplify arguments freely
//  * cases are a pure function of (seed, suite, index)
//  * cases run in forked workers; a failed assertion, a crash, a sanitizer report or an endless loop
//    (CPU time, not wall time) all count as a failure of the case that was running
//  * a failure has to occur a second time in a fresh process; it is shrunk by delta debugging in forked children and written
//    out as a plain-text replay file which can be executed again with --replay
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <exception>
#include <sstream>
#include <fstream>
#include <iostream>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <linux/futex.h>

namespace pbt {

inline uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); } // inclusive
    bool chance(unsigned percent) { return below(100) < percent; }
    template <class T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
    uint64_t oneof(std::initializer_list<uint64_t> l) { return *(l.begin() + below(l.size())); }
    // index drawn with the given weights
    size_t weighted(const std::vector<unsigned> & w) {
        uint64_t total = 0; for (auto x : w) total += x;
        uint64_t r = below(total);
        for (size_t i = 0; i < w.size(); ++i) { if (r < w[i]) return i; r -= w[i]; }
        return w.size() - 1;
    }
};

struct Op {
    int code = 0;
    uint64_t a[6] = {0,0,0,0,0,0};
    std::string s;
    Op() {}
    Op(int c, std::initializer_list<uint64_t> args, std::string str = std::string()) : code(c), s(std::move(str)) {
        size_t i = 0; for (auto x : args) { if (i < 6) a[i++] = x; }
    }
};

typedef std::vector<Op> Case;

struct Fail : std::exception {
    std::string msg;
    explicit Fail(std::string m) : msg(std::move(m)) {}
    const char * what() const noexcept override { return msg.c_str(); }
};

inline std::string esc(const std::string & s) {
    std::string r; char b[8];
    for (unsigned char c : s) {
        if (c > 32 && c < 127 && c != '%') r += char(c);
        else { snprintf(b, sizeof b, "%%%02x", c); r += b; }
    }
    return r;
}
inline std::string unesc(const std::string & s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size() + 0 && i + 2 <= s.size() - 1) { r += char(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; }
        else r += s[i];
    }
    return r;
}
inline std::string shorten(const std::string & s, size_t n = 80) {
    std::string e = esc(s);
    return e.size() <= n ? e : e.substr(0, n) + "...(" + std::to_string(s.size()) + " bytes)";
}

template <class... A> std::string cat(const A &... a) {
    std::ostringstream o; int dummy[] = {0, ((o << a), 0)...}; (void)dummy; return o.str();
}

// per case context
struct Ctx {
    std::map<std::string, uint64_t> counters; // accumulated over the worker's cases
    bool nontrivial = false;
    int tier = 0;
    void hit(const char * name, uint64_t n = 1) { counters[name] += n; }
    void mark() { nontrivial = true; }
};

struct Suite {
    virtual ~Suite() {}
    virtual std::vector<std::string> op_names() const = 0;
    virtual Case gen(Rng & r, uint64_t index, int tier) = 0;
    virtual void run(const Case & c, Ctx & ctx) = 0; // throws Fail
    virtual std::string rule() const = 0;
};

inline std::string op_text(const std::vector<std::string> & names, const Op & op) {
    std::string r = op.code >= 0 && size_t(op.code) < names.size() ? names[op.code] : "?" + std::to_string(op.code);
    int last = 5; while (last >= 0 && op.a[last] == 0) --last;
    for (int i = 0; i <= last; ++i) r += " " + std::to_string(op.a[i]);
    if (!op.s.empty()) r += " :" + esc(op.s);
    return r;
}
inline std::string case_text(const std::vector<std::string> & names, const Case & c) {
    std::string r; for (auto & o : c) { r += op_text(names, o); r += '\n'; } return r;
}
inline std::vector<Case> parse_cases(const std::vector<std::string> & names, std::istream & in) {
    std::vector<Case> out(1); std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        if (line == "---") { out.emplace_back(); continue; }
        std::istringstream is(line); std::string w; is >> w;
        Op op; op.code = -1;
        for (size_t i = 0; i < names.size(); ++i) if (names[i] == w) op.code = int(i);
        if (op.code < 0) continue;
        int i = 0;
        while (is >> w) { if (w[0] == ':') { op.s = unesc(w.substr(1)); break; } if (i < 6) op.a[i++] = strtoull(w.c_str(), nullptr, 10); }
        out.back().push_back(op);
    }
    return out;
}
inline uint64_t hash_case(const Case & c) {
    uint64_t h = 1469598103934665603ull;
    auto add = [&](const void * p, size_t n) { auto b = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) { h = (h ^ b[i]) * 1099511628211ull; } };
    for (auto & o : c) { add(&o.code, sizeof o.code); add(o.a, sizeof o.a); add(o.s.data(), o.s.size()); }
    return h;
}

struct Slot { volatile uint64_t cur; volatile int state; char msg[1500]; };

struct Options {
    std::string prop = "C00", out, replay, replay_dir = ".", variant;
    uint64_t seed = 1, cases = 1000, first = 0; int workers = 8, tier = 0, cpu_limit = 60; bool no_shrink = false; int dump = -1;
};

class Runner {
    Suite & suite; Options opt; std::vector<std::string> names;
public:
    Runner(Suite & s, Options o) : suite(s), opt(std::move(o)), names(s.op_names()) {}

    Case make(uint64_t i) {
        uint64_t h = opt.seed; for (char c : opt.prop + "/" + opt.variant) h = mix(h ^ uint64_t((unsigned char)c));
        Rng r(mix(h ^ mix(i)));
        return suite.gen(r, i, opt.tier);
    }

    // run cases in a child; 0 ok, 1 failed assertion, 2 crash, 3 endless loop
    int try_in_child(const std::vector<Case> & cs, int cpu, std::string & msg, bool quiet = true) {
        Slot * sl = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        sl->msg[0] = 0; sl->state = 0;
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            rlimit rl{rlim_t(cpu), rlim_t(cpu + 2)}; setrlimit(RLIMIT_CPU, &rl);
            rlimit cl{0,0}; setrlimit(RLIMIT_CORE, &cl);
            if (quiet) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
            try { Ctx ctx; ctx.tier = opt.tier; for (auto & c : cs) suite.run(c, ctx); }
            catch (const Fail & f) { strncpy(sl->msg, f.msg.c_str(), sizeof(sl->msg) - 1); sl->state = 1; _exit(0); }
            catch (const std::exception & e) { std::string m = std::string("unexpected exception: ") + e.what(); strncpy(sl->msg, m.c_str(), sizeof(sl->msg) - 1); sl->state = 1; _exit(0); }
            sl->state = 2; _exit(0);
        }
        int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        int res;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl->state == 2) res = 0;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl->state == 1) { res = 1; msg = sl->msg; }
        else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) { res = 3; msg = cat("no end within ", cpu, " s of CPU time"); }
        else { res = 2; msg = WIFSIGNALED(st) ? cat("killed by signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")") : cat("process ended with status ", WEXITSTATUS(st), " (sanitizer report or abort)"); }
        munmap(sl, sizeof(Slot));
        return res;
    }

    Case shrink(Case c, int kind, std::string & msg) {
        int budget = 2500; time_t t0 = time_now();
        int cpu = kind == 3 ? 10 : 20; if (kind == 3) budget = 60;
        auto fails = [&](const Case & x) -> bool {
            if (budget <= 0 || time_now() - t0 > (opt.tier ? 150 : 60)) return false;
            --budget; std::string m; int r = try_in_child({x}, cpu, m);
            bool f = (kind == 3) ? r != 0 : (r == 1 || r == 2);
            if (f) msg = m;
            return f;
        };
        // 1. truncate the tail, 2. ddmin, 3. arguments; repeated
        for (int round = 0; round < 3; ++round) {
            size_t before = c.size();
            { // shortest failing prefix by bisection (failures are prefix-monotone in most suites; harmless if not)
                size_t lo = 1, hi = c.size();
                while (lo < hi) { size_t mid = (lo + hi) / 2; Case x(c.begin(), c.begin() + mid); if (fails(x)) hi = mid; else lo = mid + 1; }
                if (hi < c.size()) { Case x(c.begin(), c.begin() + hi); if (fails(x)) c = x; }
            }
            for (size_t chunk = std::max<size_t>(1, (c.size() - 1) / 2); chunk >= 1; chunk /= 2) {
                for (size_t i = 1; i < c.size();) {
                    Case x(c.begin(), c.begin() + i);
                    size_t e = std::min(c.size(), i + chunk);
                    x.insert(x.end(), c.begin() + e, c.end());
                    if (fails(x)) c = x; else i = e;
                }
                if (chunk == 1) break;
            }
            if (c.size() == before && round > 0) break;
            for (size_t i = 0; i < c.size(); ++i) {
                for (int k = 0; k < 6; ++k) {
                    if (c[i].a[k] == 0) continue;
                    Case x = c; x[i].a[k] = 0; if (fails(x)) { c = x; continue; }
                    for (int it = 0; it < 6; ++it) { x = c; x[i].a[k] /= 2; if (x[i].a[k] == c[i].a[k] || !fails(x)) break; c = x; }
                    x = c; x[i].a[k] -= 1; if (fails(x)) c = x;
                }
                for (size_t chunk = c[i].s.size(); chunk >= 1; chunk /= 2) {
                    for (size_t p = 0; p + chunk <= c[i].s.size();) { Case x = c; x[i].s.erase(p, chunk); if (fails(x)) c = x; else p += chunk; }
                }
            }
        }
        return c;
    }

    static time_t time_now() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec; }
    static double time_d() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
    static void nap(long ms) { struct timespec ts{ms / 1000, (ms % 1000) * 1000000}; syscall(SYS_nanosleep, &ts, nullptr); }

    static double cpu_of(pid_t p) {
        char path[64]; snprintf(path, sizeof path, "/proc/%d/stat", int(p));
        FILE * f = fopen(path, "r"); if (!f) return 0;
        char buf[1024]; size_t n = fread(buf, 1, sizeof buf - 1, f); fclose(f); buf[n] = 0;
        char * q = strrchr(buf, ')'); if (!q) return 0;
        unsigned long ut = 0, st = 0; sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st);
        return double(ut + st) / sysconf(_SC_CLK_TCK);
    }

    static std::string js(const std::string & s) {
        std::string r = "\""; char b[8];
        for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += char(c); }
        return r + "\"";
    }

    int main_replay() {
        std::ifstream f(opt.replay); if (!f) { std::cerr << "cannot read " << opt.replay << "\n"; return 2; }
        auto cs = parse_cases(names, f); std::string msg;
        int r = try_in_child(cs, 120, msg, false);
        if (r == 0) { std::cout << "replay: property holds on this case\n"; return 0; }
        std::cout << "replay: FAILED: " << msg << "\n"; return 1;
    }

    int main() {
        if (!opt.replay.empty()) return main_replay();
        if (opt.dump >= 0) { std::cout << case_text(names, make(opt.dump)); return 0; }
        double t0 = time_d();
        int W = opt.workers;
        Slot * slots = (Slot *)mmap(nullptr, sizeof(Slot) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        std::vector<pid_t> pids(W); std::vector<std::string> files(W);
        char tmpl[] = "/tmp/pbtXXXXXX"; std::string dir = mkdtemp(tmpl);
        fflush(stdout);
        for (int w = 0; w < W; ++w) {
            slots[w].cur = ~0ull; slots[w].state = 0; files[w] = dir + "/" + std::to_string(w);
            pids[w] = fork();
            if (pids[w] == 0) {
                rlimit cl{0,0}; setrlimit(RLIMIT_CORE, &cl);
                Ctx ctx; ctx.tier = opt.tier; uint64_t n = 0; std::vector<uint64_t> hashes;
                for (uint64_t i = opt.first + w; i < opt.first + opt.cases; i += W) {
                    slots[w].cur = i;
                    Case c = make(i); ctx.nontrivial = false;
                    try { suite.run(c, ctx); }
                    catch (const Fail & f) { strncpy(slots[w].msg, f.msg.c_str(), sizeof(slots[w].msg) - 1); slots[w].state = 1; _exit(3); }
                    catch (const std::exception & e) { strncpy(slots[w].msg, e.what(), sizeof(slots[w].msg) - 1); slots[w].state = 1; _exit(3); }
                    ++n; if (ctx.nontrivial) hashes.push_back(hash_case(c));
                }
                std::ofstream f(files[w]); f << n << "\n" << hashes.size() << "\n"; for (auto h : hashes) f << h << "\n";
                for (auto & kv : ctx.counters) f << kv.first << " " << kv.second << "\n";
                f.close(); slots[w].state = 2; _exit(0);
            }
        }
        int left = W, bad = -1; bool hang = false, crashed = false;
        std::vector<uint64_t> last(W, ~1ull); std::vector<double> lastcpu(W, 0);
        while (left > 0 && bad < 0) {
            int st; pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) {
                for (int w = 0; w < W; ++w) if (pids[w] == p) {
                    pids[w] = -1; --left;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w].state == 2)) { bad = w; crashed = slots[w].state == 0 && ((WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGTERM && WTERMSIG(st) != SIGXCPU) || (WIFEXITED(st) && WEXITSTATUS(st) == 77)); }
                }
                continue;
            }
            nap(50);
            for (int w = 0; w < W; ++w) if (pids[w] > 0) {
                if (slots[w].cur != last[w]) { last[w] = slots[w].cur; lastcpu[w] = cpu_of(pids[w]); }
                else if (cpu_of(pids[w]) - lastcpu[w] > opt.cpu_limit) { bad = w; hang = true; break; }
            }
        }
        for (int w = 0; w < W; ++w) if (pids[w] > 0) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }
        uint64_t evals = 0; std::unordered_set<uint64_t> distinct; std::map<std::string, uint64_t> counters; uint64_t nontriv = 0;
        for (int w = 0; w < W; ++w) {
            std::ifstream f(files[w]); uint64_t n, k, h; if (!(f >> n >> k)) continue;
            evals += n; nontriv += k; for (uint64_t i = 0; i < k && f >> h; ++i) distinct.insert(h);
            std::string nm; uint64_t v; while (f >> nm >> v) counters[nm] += v;
        }
        for (auto & fl : files) unlink(fl.c_str()); rmdir(dir.c_str());
        int rc = 0; std::string failmsg, replay;
        if (bad >= 0) {
            uint64_t idx = slots[bad].cur; std::string m0 = slots[bad].state == 1 ? slots[bad].msg : (hang ? "endless loop" : "crash");
            std::vector<Case> cs{make(idx)}; std::string msg; int kind = 0, ok = 0;
            int cpu = hang ? opt.cpu_limit : 300;
            for (int k = 0; k < 4 && !ok; ++k) { int r = try_in_child(cs, cpu, msg); if (r) { kind = r; ++ok; } }
            if (!ok) {
                // depends on what ran before in this worker: replay the history of the worker, then its shortest failing tail
                std::vector<uint64_t> all; for (uint64_t i = opt.first + bad; i <= idx; i += W) all.push_back(i);
                for (size_t len = 2; !ok; len *= 4) {
                    size_t n = std::min(len, all.size()); cs.clear();
                    for (size_t k = all.size() - n; k < all.size(); ++k) cs.push_back(make(all[k]));
                    for (int k = 0; k < 2 && !ok; ++k) { int r = try_in_child(cs, 600, msg); if (r) { kind = r; ++ok; } }
                    if (n == all.size()) break;
                }
            }
            if (ok) {
                if (cs.size() == 1 && !opt.no_shrink) { Case s = shrink(cs[0], kind, msg); std::string m2; if (try_in_child({s}, cpu, m2)) { cs[0] = s; msg = m2; } }
                mkdir(opt.replay_dir.c_str(), 0777);
                replay = opt.replay_dir + "/" + opt.prop + (opt.variant.empty() ? "" : "-" + opt.variant) + "-seed" + std::to_string(opt.seed) + "-case" + std::to_string(idx) + ".txt";
                std::ofstream f(replay);
                f << "# property " << opt.prop << " variant " << opt.variant << "\n# " << msg << "\n";
                for (size_t k = 0; k < cs.size(); ++k) { if (k) f << "---\n"; f << case_text(names, cs[k]); }
                failmsg = msg; rc = 1;
            } else {
                std::cerr << "pbt: case " << idx << " failed (" << m0 << ") but did not fail again on replay; inconclusive\n";
                rc = 2; failmsg = m0;
                if (crashed) { // a memory error that depends on the layout of the process: the case is kept, the caller decides
                    mkdir(opt.replay_dir.c_str(), 0777);
                    replay = opt.replay_dir + "/" + opt.prop + (opt.variant.empty() ? "" : "-" + opt.variant) + "-seed" + std::to_string(opt.seed) + "-case" + std::to_string(idx) + ".txt";
                    std::ofstream f(replay); f << "# property " << opt.prop << " variant " << opt.variant << "\n# the process crashed in this case; not on every replay\n" << case_text(names, make(idx));
                }
            }
        }
        std::vector<std::string> samples;
        for (uint64_t i = 0; i < 3 && i < opt.cases; ++i) { std::string t = case_text(names, make(opt.first + i * (opt.cases / 3))); if (t.size() > 1200) t = t.substr(0, 1200) + "..."; samples.push_back(t); }
        if (!opt.out.empty()) {
            std::ofstream f(opt.out);
            f << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << distinct.size()
              << ",\"rule\":" << js(suite.rule()) << ",\"samples\":[";
            for (size_t i = 0; i < samples.size(); ++i) f << (i ? "," : "") << js(samples[i]);
            f << "],\"classes\":{"; bool first = true; for (auto & kv : counters) { f << (first ? "" : ",") << js(kv.first) << ":" << kv.second; first = false; }
            f << "},\"wall_s\":" << time_d() - t0 << ",\"rc\":" << rc << ",\"message\":" << js(failmsg) << ",\"replay\":" << js(replay) << "}\n";
        }
        if (rc == 1) std::cout << "FAILED " << opt.prop << ": " << failmsg << "\nREPLAY " << replay << "\n";
        return rc;
    }
};

inline Options parse_args(int argc, char ** argv) {
    Options o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") o.prop = val(); else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") o.cases = strtoull(val().c_str(), nullptr, 10); else if (a == "--first") o.first = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--workers") o.workers = atoi(val().c_str()); else if (a == "--tier") o.tier = atoi(val().c_str());
        else if (a == "--out") o.out = val(); else if (a == "--replay") o.replay = val(); else if (a == "--replay-dir") o.replay_dir = val();
        else if (a == "--variant") o.variant = val(); else if (a == "--no-shrink") o.no_shrink = true; else if (a == "--dump") o.dump = atoi(val().c_str());
    }
    return o;
}

} // namespace pbt
