// Property-based testing of the server: text protocol, streams, datagrams, many clients, arbitrary bytes, the daemon itself.
//   C11 C12 C13 C14 C15 C19 C20 C21
// The server objects run in this process on real sockets and are driven by polling their reactor, so that the schedule is
// decided by the case; the runs named "daemon" start the cachelotd executable instead.
#include "platform.h"
#include "pbt.h"
#include "memcached_model.h"
#include "versions.h"
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <cachelot/stats.h>
#include <server/settings.h>
#include <server/memcached/conversation.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <dirent.h>
#include <sys/prctl.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>

using namespace pbt;
namespace cl = cachelot;
using mm::Exp; using mm::Model; using mm::dec;
typedef cl::cache::Cache Cache;

#if defined(ADDRESS_SANITIZER)
static const bool malloc_mode = true;
#else
static const bool malloc_mode = false;
#endif
static size_t starve = ~size_t(0); static bool in_server = false; static uint64_t starved = 0; // the system refuses to enlarge a block of the server beyond this
#if !defined(__SANITIZE_ADDRESS__)
extern "C" void * __libc_realloc(void *, size_t);
extern "C" void * realloc(void * p, size_t n) noexcept { if (in_server && n > starve) { ++starved; return nullptr; } return __libc_realloc(p, n); }
#endif

enum OpCode { CFG, STORE, GETC, DELC, ARITHC, TOUCHC, FLUSHC, VERS, STATSC, BADC, ADV, SEG, DRAIN, QUITC, SENDB, READB, PUMP, BYE, SHINCR, SHAPPEND, SHSET, SHGET, RAW, CHECK, ENDLESS, UBAD, USR1, TERM, IDLE, REFUSE, SHRINKBUF, CLI, FILLUP, OPTION, CROWD, SKIPDATA, FLOOD };
static const std::vector<std::string> NAMES = {"cfg","store","get","delete","arith","touch","flush","version","stats","bad","adv","seg","drain","quit","send","read","pump","bye","shincr","shappend","shset","shget","raw","check","endless","ubad","usr1","term","idle","refuse","shrinkbuf","cli","fillup","option","crowd","skipdata","flood"};
enum { T_UNIX, T_TCP, T_UDP };

static double real_now() { return Runner::time_d(); }

// ---------------------------------------------------------------------------------------------------- servers
// Port numbers are reserved among the workers by holding an abstract unix socket of that name: the server shares datagram
// ports (SO_REUSEADDR), so that two servers would otherwise get each other's datagrams now and then.
struct Ports {
    std::vector<int> held;
    ~Ports() { for (int f : held) close(f); }
    int take(int type) {
        static uint64_t x = 0; if (!x) x = mix(getpid() * 7919ull + uint64_t(real_now() * 1e6));
        for (int i = 0; i < 500; ++i) {
            x = mix(x); int p = 20000 + int(x % 12000); int u = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_un un{}; un.sun_family = AF_UNIX; int n = snprintf(un.sun_path + 1, 100, "cachelot-pbt-port-%d-%d", type, p);
            if (bind(u, (sockaddr *)&un, socklen_t(offsetof(sockaddr_un, sun_path) + 1 + size_t(n))) != 0) { close(u); continue; }
            int s = socket(AF_INET, type | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(uint16_t(p)); a.sin_addr.s_addr = INADDR_ANY;
            bool ok = bind(s, (sockaddr *)&a, sizeof a) == 0 && (type == SOCK_DGRAM || listen(s, 1) == 0); close(s); if (ok) { held.push_back(u); return p; } close(u);
        }
        throw Fail("harness: no free port");
    }
};

struct Server {
    Ports ports; std::string unix_name; int tcp_port = 0, udp_port = 0; bool ext = false;
    virtual ~Server() {}
    virtual size_t pump(size_t max = ~size_t(0)) = 0;   // number of handlers run
    virtual void check_alive() {}
    virtual pid_t process() const { return getpid(); }
    // number of descriptors the server process holds
    size_t descriptors() const { size_t n = 0; if (DIR * d = opendir(cat("/proc/", process(), "/fd").c_str())) { while (readdir(d)) ++n; closedir(d); } return n; }
    uint64_t cpu_ticks() const { FILE * f = fopen(cat("/proc/", process(), "/stat").c_str(), "r"); if (!f) return 0; unsigned long u = 0, k = 0; int r = fscanf(f, "%*d (%*[^)]) %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &k); fclose(f); return r == 2 ? u + k : 0; }
};

struct InProcess : Server {
    cl::net::io_service ios; Cache cache; std::unique_ptr<cl::memcached::TcpServer> tcp; std::unique_ptr<cl::memcached::UnixSocketServer> un; std::unique_ptr<cl::memcached::UdpServer> udp;
    static int find_port(int type, std::set<int> & known) {
        for (int fd = 3; fd < 256; ++fd) {
            int t = 0, acc = 0; socklen_t l = sizeof t; if (getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) != 0 || t != type) continue;
            l = sizeof acc; getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &acc, &l); if (type == SOCK_STREAM && !acc) continue;
            sockaddr_in a; l = sizeof a; if (getsockname(fd, (sockaddr *)&a, &l) != 0 || a.sin_family != AF_INET || !a.sin_port) continue;
            int p = ntohs(a.sin_port); if (known.insert(p).second) return p;
        }
        return 0;
    }
    InProcess(size_t mem, size_t page, size_t dict, bool evict, bool want_tcp, bool want_unix, bool want_udp) : cache(Cache::Create(mem, page, dict, evict)) {
        std::set<int> known;
        if (want_tcp) { while (find_port(SOCK_STREAM, known)) {} tcp.reset(new cl::memcached::TcpServer(cache, ios)); tcp->start(cl::net::tcp::endpoint(cl::net::ip::address_v4::loopback(), 0)); tcp_port = find_port(SOCK_STREAM, known); }
        if (want_unix) { static unsigned n = 0; unix_name = std::string(1, '\0') + "cachelot-pbt-" + std::to_string(getpid()) + "-" + std::to_string(++n); un.reset(new cl::memcached::UnixSocketServer(cache, ios)); un->start(cl::net::local::stream_protocol::endpoint(unix_name)); }
        if (want_udp) { udp.reset(new cl::memcached::UdpServer(cache, ios)); udp_port = ports.take(SOCK_DGRAM); udp->start(cl::net::udp::endpoint(cl::net::ip::address_v4::loopback(), uint16_t(udp_port))); }
    }
    size_t pump(size_t max) override {
        if (ios.stopped()) ios.reset();
        struct Inside { Inside() { in_server = true; } ~Inside() { in_server = false; } } inside;
        size_t n = 0; while (n < max && ios.poll_one()) if (++n == 1000000) throw Fail("the server runs handler after handler with nothing left to do"); return n;
    }
};

struct Daemon : Server {
    pid_t pid = -1; int out = -1, err = -1; std::string sout, serr, dir; bool reaped = false; int status = 0; unsigned nofile = 0;
    void launch(const std::vector<std::string> & args) {
        const char * exe = getenv("CACHELOTD"); if (!exe) throw std::runtime_error("CACHELOTD is not set");
        int po[2], pe[2]; if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) throw std::runtime_error("pipe");
        std::vector<char *> av; std::string e = exe; av.push_back(&e[0]); std::vector<std::string> copy = args; for (auto & a : copy) av.push_back(&a[0]); av.push_back(nullptr);
        pid_t parent = getpid(); pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(1);
            dup2(po[1], 1); dup2(pe[1], 2); int n = open("/dev/null", O_RDONLY); dup2(n, 0); if (!dir.empty() && chdir(dir.c_str())) _exit(126);
            signal(SIGPIPE, SIG_DFL); rlimit rl{RLIM_INFINITY, RLIM_INFINITY}; setrlimit(RLIMIT_CPU, &rl); if (nofile) { rlimit fl{nofile, nofile}; setrlimit(RLIMIT_NOFILE, &fl); } execv(exe, av.data()); _exit(127);
        }
        close(po[1]); close(pe[1]); out = po[0]; err = pe[0]; fcntl(out, F_SETFL, O_NONBLOCK); fcntl(err, F_SETFL, O_NONBLOCK); reaped = false;
    }
    void read_output() { char b[65536]; ssize_t n; while ((n = read(out, b, sizeof b)) > 0) sout.append(b, size_t(n)); while ((n = read(err, b, sizeof b)) > 0) serr.append(b, size_t(n)); }
    bool ended() { if (!reaped && pid > 0) { int st; if (waitpid(pid, &st, WNOHANG) == pid) { reaped = true; status = st; read_output(); } } return reaped; }
    std::string end_text() { return WIFSIGNALED(status) ? cat("was killed by signal ", WTERMSIG(status), " (", strsignal(WTERMSIG(status)), ")") : cat("exited with status ", WEXITSTATUS(status)); }
    // waits for the end; false if still running after `secs`
    bool wait_end(double secs) { double t0 = real_now(); while (!ended()) { read_output(); if (real_now() - t0 > secs) return false; Runner::nap(1); } return true; }
    pid_t process() const override { return pid; }
    void check_alive() override { if (ended()) throw Fail(cat("the server ", end_text(), ": ", shorten(serr, 300))); }
    size_t pump(size_t) override { read_output(); return 0; }
    void make_dir() { char t[] = "/tmp/cachelot-pbt-XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); dir = t; ext = true; }
    // starts with sockets as wanted; extra arguments
    void start(bool want_tcp, bool want_unix, bool want_udp, const std::vector<std::string> & extra) {
        if (dir.empty()) make_dir();
        for (int attempt = 0; ; ++attempt) {
            tcp_port = want_tcp ? ports.take(SOCK_STREAM) : 0; udp_port = want_udp ? ports.take(SOCK_DGRAM) : 0; unix_name = want_unix ? dir + "/sock" + std::to_string(attempt) : "";
            std::vector<std::string> a = {"-p", std::to_string(tcp_port), "-U", std::to_string(udp_port)}; if (want_unix) { a.push_back("-s"); a.push_back(unix_name); }
            a.insert(a.end(), extra.begin(), extra.end()); serr.clear(); sout.clear();
            launch(a);
            double t0 = real_now(); bool up = false;
            while (!up) {
                if (ended()) break;
                if (want_unix) up = probe_unix(); else if (want_tcp) up = probe_tcp(); else up = probe_udp();
                if (!up) { if (real_now() - t0 > 20) throw Fail("the server does not accept connections 20 s after its start"); Runner::nap(1); }
            }
            if (up) return;
            if (attempt < 4 && serr.find("in use") != std::string::npos) { close(out); close(err); continue; } // somebody else took the port
            throw Fail(cat("the server ", end_text(), " at the start: ", shorten(serr, 300)));
        }
    }
    // the server waits for clients on the ports it was given and on no other
    void check_ports() {
        std::set<unsigned long> own; std::string dirname = cat("/proc/", pid, "/fd");
        if (DIR * d = opendir(dirname.c_str())) { while (dirent * e = readdir(d)) { char b[100]; ssize_t n = readlink((dirname + "/" + e->d_name).c_str(), b, sizeof b - 1); if (n > 0) { b[n] = 0; unsigned long ino; if (sscanf(b, "socket:[%lu]", &ino) == 1) own.insert(ino); } } closedir(d); }
        for (const char * table : {"tcp", "tcp6", "udp", "udp6"}) {
            FILE * f = fopen(cat("/proc/", pid, "/net/", table).c_str(), "r"); if (!f) continue; char line[512];
            while (fgets(line, sizeof line, f)) {
                unsigned port, st; unsigned long ino; if (sscanf(line, " %*d: %*[0-9A-Fa-f]:%x %*[0-9A-Fa-f]:%*x %x %*s %*s %*s %*s %*s %lu", &port, &st, &ino) != 3 || !own.count(ino)) continue;
                bool t = table[0] == 't'; if (t && st != 10) continue; // only listening ones
                if (port != unsigned(t ? tcp_port : udp_port)) { fclose(f); throw Fail(cat("the server waits on ", t ? "TCP" : "UDP", " port ", port, t ? (tcp_port ? cat(" instead of ", tcp_port) : std::string(" although TCP is off")) : (udp_port ? cat(" instead of ", udp_port) : std::string(" although UDP is off")))); }
            }
            fclose(f);
        }
    }
    // a reply shows that the server has finished its start-up (signal handlers included) and runs its loop
    static bool answers(int s) { pollfd p{s, POLLIN, 0}; char b[100]; return send(s, "version\r\n", 9, MSG_NOSIGNAL) == 9 && poll(&p, 1, 5000) == 1 && recv(s, b, sizeof b, 0) > 0; }
    bool probe_unix() { int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_un a{}; a.sun_family = AF_UNIX; strncpy(a.sun_path, unix_name.c_str(), sizeof a.sun_path - 1); bool ok = connect(s, (sockaddr *)&a, sizeof a) == 0 && answers(s); close(s); return ok && (!tcp_port || probe_tcp()) && (!udp_port || probe_udp()); }
    bool probe_tcp() { int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(uint16_t(tcp_port)); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bool ok = connect(s, (sockaddr *)&a, sizeof a) == 0 && answers(s); close(s); return ok; }
    bool probe_udp() { // connected UDP socket: a closed port answers with a refusal
        int s = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(uint16_t(udp_port)); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bool ok = false;
        if (connect(s, (sockaddr *)&a, sizeof a) == 0) { std::string q("\0\1\0\0\0\1\0\0version\r\n", 17); if (send(s, q.data(), q.size(), 0) == ssize_t(q.size())) { pollfd p{s, POLLIN, 0}; if (poll(&p, 1, 200) == 1) { char b[100]; ok = recv(s, b, sizeof b, 0) > 8; } } }
        close(s); return ok;
    }
    void terminate() { if (pid > 0 && !reaped) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); reaped = true; } }
    ~Daemon() {
        terminate(); if (out >= 0) { close(out); close(err); }
        if (!dir.empty()) { for (int i = 0; i < 6; ++i) unlink((dir + "/sock" + std::to_string(i)).c_str()); unlink((dir + "/busy").c_str()); rmdir(dir.c_str()); }
    }
};

// ---------------------------------------------------------------------------------------------------- clients
struct Client {
    int fd = -1, transport = T_UNIX; Model * model = nullptr; std::deque<Exp> exps; std::string out; size_t out_pos = 0; uint64_t queued = 0, sent = 0; std::string in; size_t in_pos = 0; bool eof = false; uint64_t answered = 0;
    std::unique_ptr<Model> own; unsigned gen = 0;
    ~Client() { if (fd >= 0) close(fd); }
    void connect_to(Server & s, int t, int rcvbuf = 0) {
        if (fd >= 0) close(fd); transport = t; eof = false; out.clear(); out_pos = 0; queued = sent = 0; in.clear(); in_pos = 0; exps.clear();
        int r;
        if (t == T_UNIX) {
            fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_un a{}; a.sun_family = AF_UNIX; memcpy(a.sun_path, s.unix_name.data(), std::min(s.unix_name.size(), sizeof a.sun_path - 1));
            r = connect(fd, (sockaddr *)&a, socklen_t(offsetof(sockaddr_un, sun_path) + s.unix_name.size()));
        } else {
            fd = socket(AF_INET, (t == T_TCP ? SOCK_STREAM : SOCK_DGRAM) | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(uint16_t(t == T_TCP ? s.tcp_port : s.udp_port)); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (rcvbuf && t == T_TCP) { int mss = 536; setsockopt(fd, IPPROTO_TCP, TCP_MAXSEG, &mss, sizeof mss); } // no stalls of a second in the kernel because of segments bigger than the window
            if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
            if (t == T_TCP) { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
            r = connect(fd, (sockaddr *)&a, sizeof a);
        }
        if (r != 0) { s.check_alive(); throw Fail(cat("cannot connect to the server: ", strerror(errno))); }
        fcntl(fd, F_SETFL, O_NONBLOCK);
    }
    void queue(Exp e) { out += e.text; queued += e.text.size(); e.end = queued; if (e.text.size() > 300) e.text.resize(300); exps.push_back(std::move(e)); }
    // returns bytes sent now
    size_t send_some(size_t max) {
        size_t n = std::min(max, out.size() - out_pos); if (!n || eof) return 0;
        ssize_t r = send(fd, out.data() + out_pos, n, MSG_NOSIGNAL);
        if (r < 0) { if (errno == EPIPE || errno == ECONNRESET) eof = true; return 0; }
        out_pos += size_t(r); sent += uint64_t(r); if (out_pos == out.size()) { out.clear(); out_pos = 0; }
        return size_t(r);
    }
    size_t receive(size_t max = 1 << 20) {
        size_t total = 0;
        while (total < max && fd >= 0) {
            size_t n = std::min<size_t>(max - total, 65536); size_t old = in.size(); in.resize(old + n); ssize_t r = recv(fd, &in[old], n, 0);
            in.resize(old + (r > 0 ? size_t(r) : 0));
            if (r == 0) { eof = true; break; } if (r < 0) { if (errno != EAGAIN && errno != EINTR) eof = true; break; }
            total += size_t(r); if (size_t(r) < n) break;
        }
        return total;
    }
    // matches what has arrived against the commands sent so far
    size_t match() {
        size_t n = 0;
        while (!exps.empty() && exps.front().end <= sent) { if (exps.front().kind == mm::K_QUIT) break; if (!model->consume(exps.front(), in, in_pos)) break; exps.pop_front(); ++n; ++answered; }
        if (in_pos == in.size()) { in.clear(); in_pos = 0; } else if (in_pos > 1 << 20) { in.erase(0, in_pos); in_pos = 0; }
        if (in_pos < in.size() && (exps.empty() || exps.front().end > sent)) throw Fail(cat("unsolicited bytes from the server: '", shorten(in.substr(in_pos, 100)), "'"));
        return n;
    }
    bool outstanding() const { return !exps.empty() && exps.front().end <= sent && exps.front().kind != mm::K_QUIT; }
};

// ---------------------------------------------------------------------------------------------------- suite
struct NetSuite : Suite {
    std::string prop, variant; bool ext;
    NetSuite(std::string p, std::string v) : prop(std::move(p)), variant(std::move(v)) { ext = variant.find("daemon") == 0; }
    std::vector<std::string> op_names() const override { return NAMES; }

    uint64_t gen_len(Rng & r, uint64_t page) {
        switch (r.below(12)) { case 0: return 0; case 1: case 2: case 3: return r.below(32); case 4: case 5: return r.below(300); case 6: return r.below(3000); case 7: return r.below(page / 4); case 8: return r.below(page); case 9: return page - r.below(300); case 10: return r.oneof({490, 500, 498, 1000, 2048, 2046, 4096}) + r.below(5); default: return r.below(64); }
    }
    uint64_t gen_num(Rng & r) { switch (r.below(6)) { case 0: return r.below(10); case 1: return ~0ull - r.below(30); case 2: return r.next() >> r.below(64); case 3: return r.below(2000); case 4: { uint64_t p = 1; for (uint64_t i = r.below(20); i > 0; --i) p *= 10; return p - r.below(2); } default: return 1; } }

    std::string fuzz_bytes(Rng & r) {
        static const char * words[] = {"get", "gets", "set", "add", "replace", "append", "prepend", "cas", "delete", "incr", "decr", "touch", "flush_all", "version", "stats", "quit", "noreply", "verbosity", "GET"};
        static const char * nums[] = {"0", "1", "-1", "5", "10", "255", "256", "65535", "65536", "4294967295", "4294967296", "2147483648", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "1e5", "0x10", "4096", "4097", "65536", "", "00000000000000000000000000000001", "1048576", "1048577"};
        static const char * keys[] = {"k", "key", "a", "x", "0", "12345"};
        std::string s; uint64_t n = r.range(1, 12);
        auto any_key = [&]() -> std::string { switch (r.below(8)) { case 0: return std::string(r.below(600), 'K'); case 1: return std::string(r.range(249, 252), 'L'); case 2: { std::string k; for (uint64_t i = r.below(20); i > 0; --i) k += char(r.below(256)); return k; } default: return keys[r.below(6)]; } };
        for (uint64_t i = 0; i < n; ++i) {
            std::string t;
            switch (r.below(10)) {
            case 0: { for (uint64_t j = r.below(80); j > 0; --j) t += char(r.below(256)); break; }
            case 1: { for (uint64_t j = r.below(15); j > 0; --j) { switch (r.below(4)) { case 0: t += words[r.below(19)]; break; case 1: t += nums[r.below(24)]; break; case 2: t += any_key(); break; default: t += char(r.below(256)); } t += r.chance(80) ? " " : r.chance(50) ? "\r\n" : ""; } break; }
            case 2: t = std::string("get ") + any_key(); for (uint64_t j = r.below(30); j > 0; --j) t += " " + any_key(); t += "\r\n"; break;
            case 3: case 4: case 5: { // storage command with a length that may lie
                static const char * st[] = {"set", "add", "replace", "append", "prepend", "cas"}; uint64_t v = r.below(6); std::string d = mm::make_value(r.below(r.chance(10) ? 5000 : 60), r.below(1000));
                t = std::string(st[v]) + " " + any_key() + " " + (r.chance(60) ? "0" : nums[r.below(24)]) + " " + (r.chance(60) ? "0" : nums[r.below(24)]) + " " + (r.chance(60) ? dec(d.size()) : r.chance(50) ? dec(d.size() + r.below(5) - 2) : r.chance(40) ? dec(r.oneof({1ull << 31, 1ull << 32, 0ull, 1ull << 16, 1ull << 63}) + r.below(7) - 5) : nums[r.below(24)]) + (v == 5 ? std::string(" ") + nums[r.below(24)] : "") + (r.chance(20) ? " noreply" : "") + (r.chance(95) ? "\r\n" : "\n") + d + (r.chance(85) ? "\r\n" : ""); break; }
            case 6: t = std::string(r.chance(50) ? "incr " : "decr ") + any_key() + " " + nums[r.below(24)] + (r.chance(10) ? " noreply" : "") + "\r\n"; break;
            case 7: t = std::string(words[r.below(19)]) + (r.chance(50) ? " " + any_key() : "") + (r.chance(30) ? std::string(" ") + nums[r.below(24)] : "") + "\r\n"; break;
            case 8: t = std::string(r.below(3000), char(r.below(256))); break;
            default: { t = "\x80"; for (uint64_t j = r.below(40); j > 0; --j) t += char(r.chance(50) ? 0 : r.below(256)); break; }
            }
            if (r.chance(15) && !t.empty()) for (uint64_t j = r.range(1, 4); j > 0; --j) t[r.below(t.size())] = char(r.below(256));
            if (r.chance(8) && !t.empty()) t.resize(r.below(t.size()));
            s += t;
        }
        return s;
    }

    Case gen(Rng & r, uint64_t index, int tier) override {
        Case c; (void)index; uint64_t transport = T_UNIX, lp = r.oneof({12, 13, 14, 16}), lm = 22, ld = r.oneof({0, 1, 4, 8}), km = r.below(4), nkeys = r.oneof({2, 4, 8, 12}), clients = 1, flags = 0;
        std::vector<unsigned> w(NAMES.size(), 0); auto set_w = [&](std::initializer_list<std::pair<int, unsigned>> l) { for (auto & p : l) w[p.first] = p.second; };
        set_w({{STORE, 40}, {GETC, 25}, {DELC, 6}, {ARITHC, 10}, {TOUCHC, 5}, {FLUSHC, 2}, {VERS, 2}});
        uint64_t nops = r.range(10, 80); bool big_dgrams = false, backlog = false;
        bool bigp = (prop == "C11" || prop == "C01") && r.chance(8); if (bigp) { lp = r.oneof({17, 18, 20}); lm = 24; }
        if (prop == "C11") { set_w({{BADC, 12}, {ADV, ext ? 0u : 8u}, {DRAIN, 40}, {STATSC, 1}, {SEG, 3}, {QUITC, 1}}); if (r.chance(15)) transport = T_TCP; if (!bigp && r.chance(15)) { lm = lp + 2; flags |= 1; nkeys = 30; w[STATSC] = 0; } }
        else if (prop == "C12") { set_w({{SEG, 25}, {DRAIN, 12}, {BADC, 2}, {QUITC, 1}}); transport = r.chance(30) ? T_TCP : T_UNIX; nops = r.range(10, 120); if (r.chance(15)) { lp = r.oneof({16, 17, 18}); lm = 24; } else if (!ext && r.chance(25)) { flags |= 32; w[DRAIN] = 5; } }
        else if (prop == "C01") { set_w({{STORE, 50}, {GETC, 40}, {DELC, 14}, {ARITHC, 4}, {DRAIN, 30}}); nkeys = 12; ld = r.below(4); nops = r.range(20, 150); if (r.chance(15)) transport = T_TCP; }
        else if (prop == "C03") { set_w({{ADV, 30}, {TOUCHC, 20}, {FLUSHC, 6}, {DRAIN, 10}, {STATSC, 4}}); nkeys = r.oneof({1, 3, 6}); }
        else if (prop == "C04") { set_w({{STORE, 60}, {GETC, 50}, {ADV, 3}, {DRAIN, 60}, {BADC, 3}}); nkeys = r.oneof({1, 2, 3}); }
        else if (prop == "C05") { set_w({{ARITHC, 70}, {GETC, 30}, {ADV, 4}, {DRAIN, 20}}); nkeys = r.oneof({1, 2, 4}); }
        else if (prop == "C06") { set_w({{BADC, 14}, {DRAIN, 20}, {GETC, 35}}); lp = r.oneof({10, 11, 12, 13}); nkeys = r.oneof({2, 4, 8}); if (r.chance(40)) { lm = lp + 2; flags |= 1; nkeys = 30; } }
        else if (prop == "C07") { set_w({{BADC, 10}, {ADV, 6}, {DRAIN, 20}, {STATSC, 3}, {DELC, 12}, {QUITC, 1}}); if (r.chance(50)) { lm = lp + 2; flags |= 1; nkeys = 30; w[STATSC] = 0; } }
        else if (prop == "C15") { set_w({{STATSC, 12}, {BADC, 4}, {ADV, ext ? 0u : 5u}, {DRAIN, 20}, {SEG, 1}, {USR1, ext ? 4u : 0u}}); }
        else if (prop == "C14") { transport = T_UDP; set_w({{UBAD, 20}, {BADC, 6}, {DRAIN, 25}, {ADV, ext ? 0u : 4u}}); clients = 2; if (r.chance(25)) { lp = 17; lm = 22; big_dgrams = r.chance(50); if (big_dgrams) w[GETC] = 60; } if (r.below(ext ? 60 : 200) == 0) { lp = 17; lm = 22; w[FLOOD] = 40; nops = 12; } }
        else if (prop == "C20") {
            lp = r.oneof({16, 17}); lm = 25; clients = r.range(2, ext ? 5 : 6); nkeys = 5; nops = r.range(30, 250); transport = r.chance(40) ? T_TCP : T_UNIX;
            set_w({{STORE, 40}, {GETC, 45}, {SENDB, 90}, {READB, 50}, {PUMP, 60}, {BYE, 3}, {SHINCR, 12}, {SHAPPEND, 6}, {SHSET, 5}, {SHGET, 5}, {DRAIN, 2}, {SHRINKBUF, 2}, {FLUSHC, 1}, {QUITC, 3}}); if (ext) set_w({{PUMP, 10}}); if (r.chance(5)) { flags |= 8; set_w({{SHRINKBUF, 4}}); } else w[SHRINKBUF] = 0;
            if (ext && r.chance(3)) { c.push_back(Op(CFG, {transport | clients << 8, lm | lp << 8, 0, nkeys, flags, 0})); c.push_back(Op(CROWD, {r.below(24), r.below(24), r.next() >> 16, r.below(2)})); return c; }
            if (!ext && r.chance(15)) flags |= 32; if (r.chance(25)) { backlog = true; transport = T_UNIX; set_w({{READB, 12}, {GETC, 80}}); } // replies pile up beyond what the socket takes
        } else if (prop == "C13") {
            std::fill(w.begin(), w.end(), 0); set_w({{RAW, 40}, {CHECK, 10}, {BYE, 5}}); transport = r.below(3); clients = r.range(1, 3); nops = r.range(2, 25); lp = r.oneof({12, 16, 20}); lm = 24; if (r.chance(20)) flags |= 2; // small buffers
            if (r.chance(flags & 2 ? 30 : 1)) set_w({{ENDLESS, 3}}); if (r.chance(30)) flags |= 4; /* evictions on */ if (!ext && r.chance(15)) flags |= 16; /* buffers cannot grow */
        } else if (prop == "C21") {
            set_w({{USR1, 10}, {IDLE, 8}, {RAW, 3}, {DRAIN, 20}, {BADC, 2}, {BYE, 3}}); transport = r.below(3) == 0 ? T_TCP : T_UNIX; nops = r.range(0, 25); if (r.chance(40)) { nops = 1; std::fill(w.begin(), w.end(), 0); w[REFUSE] = 1; }
        }
        else if (prop == "C19") {
            transport = r.chance(30) ? T_TCP : T_UNIX; set_w({{DRAIN, 20}, {STATSC, 2}, {BADC, 2}}); nops = r.range(0, 30); lp = r.chance(70) ? r.range(10, 16) : r.range(10, 23); lm = lp + 2 + r.below(8); if (lm > 27) lm = 27; if (lm < lp + 2) lm = lp + 2; ld = r.chance(70) ? r.below(12) : r.below(20); if (r.chance(20)) { nops = 1; std::fill(w.begin(), w.end(), 0); w[REFUSE] = 1; }
            if (lm < lp + 5 || r.chance(30)) flags |= 1; else { if (r.chance(50)) flags |= 4; nkeys = std::min<uint64_t>(nkeys, 8); }
        }
        if (r.chance(15)) for (int i : {GETC, DELC, ARITHC, TOUCHC, FLUSHC, VERS, STATSC, BADC, SEG}) if (w[STORE] && r.chance(35)) w[i] = 0; // swarm: some of the commands never appear in the case
        if (tier) nops = nops * 3 / 2;
        c.push_back(Op(CFG, {transport | clients << 8, lm | lp << 8 | ld << 16, km, nkeys, flags, r.below(100000)}));
        if (prop == "C19" && !w[REFUSE]) { auto bump = [&]() -> uint64_t { return r.chance(88) ? 0 : r.oneof({1, 2, 3, 4, 5}); }; c.push_back(Op(CLI, {r.below(7), bump(), r.below(7), bump(), r.below(4), bump()})); }
        uint64_t page = 1ull << lp, hot = 0; bool smallv = r.chance(flags & 32 ? 20 : 60);
        auto cli = [&]() { return clients > 1 ? r.below(clients) << 8 : 0; };
        auto ttl = [&]() -> uint64_t { if (ext || !w[ADV]) return r.chance(85) ? 0 : r.oneof({1000000, 4294967295ull, 2147483648ull}); return r.chance(50) ? 0 : r.chance(70) ? r.range(1, 6) : r.oneof({100, 4294967295ull, 4294967290ull, 2147483648ull, 86400, 2592000, 2592001, 40000000, r.below(1000000)}); };
        uint64_t cap = prop == "C14" ? 65000 : ~0ull;
        auto len = [&]() { uint64_t l = smallv && r.chance(85) ? r.below(60) : gen_len(r, page); if (prop == "C20" && r.chance(30)) l = r.below(60000); if (backlog && r.chance(60)) l = r.range(20000, 60000); if (big_dgrams && r.chance(60)) l = r.range(10000, 64000); return std::min(l, cap); };
        for (uint64_t i = 0; i < nops; ++i) {
            int op = int(r.weighted(w)); uint64_t k = r.chance(40) ? hot : r.below(nkeys); if (r.chance(25)) hot = k; uint64_t nr = r.chance(18) && prop != "C14" ? 1 : r.chance(10) ? 1 : 0; uint64_t z = r.chance(6) ? r.below(64) : 0;
            switch (op) {
            case STORE: c.push_back(Op(op, {cli() | (prop == "C04" ? r.weighted({14, 8, 8, 8, 8, 60}) : r.weighted({40, 12, 12, 12, 12, 14})) | nr << 4, k, r.chance(50) ? r.oneof({0, 1, 65535}) : r.below(65536), ttl(), prop == "C06" && r.chance(25) ? page - r.below(330) : len(), (prop == "C05" && r.chance(80) ? r.below(12500) * 8 + 5 : r.below(100000)) | r.below(64) << 32 | z << 40})); break;
            case GETC: { Op o(op, {cli() | r.below(2) | (r.chance(big_dgrams || backlog ? 20 : 60) ? 1 : r.range(1, 5)) << 4, k}); for (int j = 2; j < 6; ++j) o.a[j] = r.below(nkeys + 1); if ((prop == "C11" || prop == "C12" || prop == "C01") && !(flags & 32) && r.chance(2)) o.a[5] |= r.range(6, r.chance(50) ? 40 : 400) << 16; c.push_back(o); break; }
            case DELC: c.push_back(Op(op, {cli() | nr, k})); break;
            case ARITHC: c.push_back(Op(op, {cli() | r.below(2) | nr << 1, k, gen_num(r), z})); break;
            case TOUCHC: c.push_back(Op(op, {cli() | nr, k, ttl()})); break;
            case FLUSHC: c.push_back(Op(op, {cli() | nr})); break;
            case VERS: case STATSC: c.push_back(Op(op, {cli()})); break;
            case BADC: c.push_back(Op(op, {cli() | r.below(8), k, r.below(1000000)})); break;
            case ADV: c.push_back(Op(op, {r.chance(6) ? r.oneof({3600000, 86400000, 2591999000ull, 2592001000ull, 31536000000ull, 126230400000ull}) : r.oneof({1, 500, 1000, 1000, 2000, 5000, r.below(4000)})})); break;
            case SEG: c.push_back(Op(op, {r.below(6), r.below(100000), r.below(2)})); break;
            case SENDB: c.push_back(Op(op, {cli(), r.oneof({1, 2, 10, 50, 200, 1000, 70000, 1000000})})); break;
            case READB: c.push_back(Op(op, {cli(), r.oneof({1, 10, 100, 5000, 100000, 1000000})})); break;
            case QUITC: c.push_back(Op(op, {cli(), r.oneof({100, 5000, 30000, 100000, 1000000}), r.below(7)})); break;
            case PUMP: c.push_back(Op(op, {r.oneof({1, 1, 2, 3, 10, 100})})); break;
            case BYE: c.push_back(Op(op, {cli(), r.below(3)})); break;
            case SHINCR: case SHGET: c.push_back(Op(op, {cli()})); break;
            case SHAPPEND: c.push_back(Op(op, {cli(), r.below(40)})); break;
            case SHSET: c.push_back(Op(op, {cli(), r.below(r.chance(30) ? 50000 : 300), r.below(1000)})); break;
            case RAW:
                // repeats of what was sent before, whole or cut short: whatever a reader leaves behind in a buffer then looks like the continuation
                if (prop == "C13" && r.chance(20)) {
                    std::vector<size_t> prev; for (size_t j = 0; j < c.size(); ++j) if (c[j].code == RAW && !c[j].s.empty()) prev.push_back(j);
                    if (!prev.empty()) { const Op & p = c[prev[r.below(prev.size())]]; std::string t = p.s; uint64_t who = p.a[0]; if (r.chance(75)) { std::vector<size_t> ends; for (size_t j = 1; j < t.size(); ++j) if (t[j] == '\r' || t[j] == '\n') ends.push_back(j); if (!ends.empty() && r.chance(75)) { if (r.chance(40)) t.resize(ends.back()); else t.resize(ends[r.below(ends.size())]); } else t.resize(r.below(t.size() + 1)); } c.push_back(Op(op, {who, r.below(5), r.below(100000)}, t)); break; }
                }
                c.push_back(Op(op, {cli(), r.below(5), r.below(100000)}, prop == "C21" ? (r.chance(50) ? "set a 0 0 100\r\nabc" : "get ") : udp_wrap(r, transport, fuzz_bytes(r)))); break;
            case ENDLESS: c.push_back(Op(op, {cli(), r.below(256), r.below(3)})); break;
            case UBAD: c.push_back(Op(op, {cli(), r.below(7), k, r.below(100000)})); break;
            case REFUSE: c.push_back(Op(op, {prop == "C19" ? r.oneof({5, 5, 5, 6, 7, 10, 11, 12, 13}) : r.below(16), r.below(1000)})); break;
            case FLOOD: c.push_back(Op(op, {cli(), k, r.range(500, 700), r.below(3), r.below(1000)})); w[FLOOD] = 0; break;
            case SHRINKBUF: c.push_back(Op(op, {cli()})); break;
            case IDLE: c.push_back(Op(op, {r.below(6)})); break;
            default: c.push_back(Op(op, {cli()})); break;
            }
        }
        if (prop == "C19" && !w[REFUSE] && r.chance(60)) c.push_back(Op(FILLUP, {r.below(1000), r.below(32)}));
        if (prop == "C21" && !w[REFUSE]) c.push_back(Op(TERM, {r.below(3)}));
        return c;
    }
    static std::string udp_wrap(Rng & r, uint64_t transport, std::string s) {
        if (transport != T_UDP) return s;
        std::string h("\0\1\0\0\0\1\0\0", 8); if (r.chance(30)) h[r.below(8)] = char(r.below(256)); if (r.chance(8)) h.resize(r.below(8)); return h + s;
    }

    struct Exec {
        size_t hash0 = 0; // initial size of the index, when known
        NetSuite & s; const Case & c; Ctx & ctx; std::unique_ptr<Server> srv; InProcess * inproc = nullptr; Daemon * daemon = nullptr; std::vector<std::unique_ptr<Client>> cs; mm::Shared shared; uint64_t opno = 0;
        uint64_t seg = 0, seg_arg = 0, seg_wait = 1, transport, nclients, km, nkeys; size_t page, mem; bool tight; uint64_t udp_id = 1; std::vector<int> idle_fds; uint64_t next_chunk = 1; std::map<uint64_t, std::string> chunk_text; bool departed = false; std::unique_ptr<Client> admin; std::unique_ptr<Model> common;
        std::vector<std::string> prot_keys, prot_vals; bool slow_tcp = false;
        Exec(NetSuite & s_, const Case & c_, Ctx & x) : s(s_), c(c_), ctx(x) {}
        ~Exec() { for (int f : idle_fds) close(f); cs.clear(); admin.reset(); }
        const std::string & prop() { return s.prop; }

        std::string make_key(uint64_t i, const std::string & prefix) {
            if (!prefix.empty()) return prefix + std::to_string(i);
            static const char * odd[] = {"get", "noreply", "0", "set", "VALUE", "END", "k", "kk", "kkk", "!", "~", "quit"};
            switch (km) {
            case 0: return "k" + std::to_string(i);
            case 1: { uint64_t l = mix(i) % 3 == 0 ? 250 : 3 + mix(i + 9) % 240; std::string k(l, 'x'); uint64_t x = mix(i); for (auto & ch : k) { ch = char(33 + x % 94); x = mix(x); } std::string n = dec(i) + "_"; k.replace(0, n.size(), n); return k; }
            case 2: { std::string k = "k" + dec(i); uint64_t x = mix(i); for (int j = 0; j < 12; ++j) { k += char(128 + x % 128); x = mix(x); } return k; }
            default: return i < 12 ? odd[i] : "o" + dec(i);
            }
        }
        std::unique_ptr<Model> new_model(const std::string & prefix) {
            std::unique_ptr<Model> m(new Model); for (uint64_t i = 0; i < nkeys; ++i) m->keys.push_back(make_key(i, prefix));
            m->page = page; m->mem = mem; m->hash0 = hash0; m->tight = tight; m->limit = malloc_mode ? page - 8 : page - cl::memalloc::header_size(); m->item_overhead = sizeof(cl::cache::Item); m->mem_stats = !malloc_mode && !s.prop.empty(); m->shared = &shared; if (!s.ext) m->now = uint64_t(plat::clock_sec()); return m;
        }
        Client & client(uint64_t a0) { return *cs[(a0 >> 8) % cs.size()]; }
        void open_client(size_t i) {
            auto & cl_ = *cs[i]; if (prop() == "C20") { cl_.own = new_model("c" + std::to_string(i) + "g" + std::to_string(generation++) + "_"); ++cl_.gen; cl_.model = cl_.own.get(); } else cl_.model = common.get();
            int t = int(transport); if (prop() == "C20") t = (i % 2 && srv->tcp_port) ? T_TCP : T_UNIX;
            cl_.connect_to(*srv, t, slow_tcp && t == T_TCP ? 16384 : 0);
        }

        // ---- waiting
        // runs the server until `done`, failing after it made no progress for a while
        template <class F> void until(F done, const std::string & what) {
            double last = real_now(), patience = s.ext ? 20 : transport == T_UNIX && prop() != "C20" ? 0 : 5; int idle = 0;
            for (;;) {
                size_t work = srv->pump(); for (auto & p : cs) { size_t n = p->fd >= 0 && p->transport != T_UDP && !lazy(*p) ? p->receive() : 0; work += n; if (prop() == "C13") { p->in.clear(); p->in_pos = 0; } else if (n) work += p->match(); }
                if (admin && admin->fd >= 0) { size_t n = admin->receive(); work += n; if (n) admin->match(); }
                if (done()) return;
                if (work) { last = real_now(); idle = 0; continue; }
                srv->check_alive();
                if (++idle < 4 && !s.ext) continue;
                if (real_now() - last >= patience) throw Fail(what);
                if (s.ext) { std::vector<pollfd> pf; for (auto & p : cs) if (p->fd >= 0) pf.push_back({p->fd, POLLIN, 0}); if (admin && admin->fd >= 0) pf.push_back({admin->fd, POLLIN, 0}); if (daemon) { pf.push_back({daemon->out, POLLIN, 0}); } poll(pf.data(), pf.size(), 20); if (!pf.empty()) { bool hup = false; for (auto & q : pf) if (q.revents & (POLLHUP | POLLERR)) hup = true; if (hup) Runner::nap(1); } }
                else Runner::nap(1);
            }
        }
        unsigned generation = 0; bool draining = false; // C20 clients read only when told to
        bool lazy(Client &) { return prop() == "C20" && !draining; }

        void pump_idle() { int z = 0; while (z < 2) { if (srv->pump()) z = 0; else ++z; } }

        // sends everything queued, cut into segments as requested, and collects every answer
        void drain(Client & k) {
            std::vector<size_t> cuts; size_t n = k.out.size() - k.out_pos; const char * p = k.out.data() + k.out_pos; uint64_t x = mix(seg_arg + 1);
            if (n == 0 && !k.outstanding()) return;
            switch (seg % 6) {
            case 1: if (n <= 4000) { for (size_t i = 1; i < n; ++i) cuts.push_back(i); break; } // fallthrough
            case 2: { size_t step = std::max<size_t>(1 + seg_arg % 700, n / 800); for (size_t i = step; i < n; i += step) cuts.push_back(i); break; }
            case 3: { size_t maxp = std::max<size_t>(1 + (seg_arg % 5 == 0 ? 20 : 1500), n / 400); for (size_t i = 0;;) { x = mix(x); i += 1 + x % maxp; if (i >= n) break; cuts.push_back(i); } break; }
            case 4: for (size_t i = 0; i + 1 < n && cuts.size() < 800; ++i) if (p[i] == '\r') { x = mix(x); switch (x % 4) { case 0: if (i) cuts.push_back(i); break; case 1: cuts.push_back(i + 1); break; case 2: if (i + 2 < n) cuts.push_back(i + 2); break; default: break; } } break;
            case 5: { x = mix(x); if (n > 1) cuts.push_back(1 + x % (n - 1)); break; }
            default: break;
            }
            std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end()); cuts.push_back(n);
            if (cuts.size() > 1) { ctx.hit("segmented_streams"); ctx.hit("segments", cuts.size()); if (prop() == "C12") ctx.mark(); }
            if (k.exps.size() > 1) ctx.hit("pipelined_streams");
            uint64_t base = k.sent;
            for (size_t cut : cuts) {
                uint64_t goal = base + cut; bool last = cut == n;
                until([&] { while (k.sent < goal) { size_t m = k.send_some(size_t(goal - k.sent)); if (!m) break; } if (k.eof) throw Fail(cat("the server closed the connection", k.exps.empty() ? "" : cat(" instead of answering '", shorten(k.exps.front().text, 120), "'"))); return k.sent >= goal; }, "the server does not take any more data");
                if (seg_wait || last) { k.match(); until([&] { k.match(); if (k.eof && k.outstanding()) throw Fail(cat("the server closed the connection instead of answering '", shorten(k.exps.front().text, 120), "'")); return !k.outstanding(); }, cat("no answer to the complete command '", shorten(k.exps.empty() ? "" : k.exps.front().text, 150), "'")); }
                else if (!s.ext) { srv->pump(); k.receive(); k.match(); }
            }
        }
        void drain_all() { draining = true; for (auto & p : cs) if (p->fd >= 0) drain(*p); draining = false; }

        // ---- datagrams
        std::string udp_header() { uint64_t id = udp_id++; uint64_t v = mix(id); std::string h(8, '\0'); h[0] = char(v >> 8); h[1] = char(v); h[5] = char(v >> 16 & 1); return h; }
        std::string recv_dgram(Client & k, bool & got) { std::string b(70000, '\0'); ssize_t n = recv(k.fd, &b[0], b.size(), 0); got = n >= 0; b.resize(n > 0 ? size_t(n) : 0); return b; }
        struct Sent { Exp e; std::string header; int expect; }; // expect: 0 nothing, 1 exactly one, 2 at most one
        std::deque<std::pair<Client *, Sent>> in_flight;
        void udp_send(Client & k, Exp e, bool tolerant = false) {
            Sent x; x.header = udp_header(); x.e = e; std::string d = x.header + e.text; x.expect = e.noreply ? 0 : tolerant ? 2 : 1;
            if (d.size() > 65000) return; // does not fit a datagram
            if (::send(k.fd, d.data(), d.size(), MSG_NOSIGNAL) < 0) { if (errno == ECONNREFUSED) { srv->check_alive(); throw Fail("the datagram port is closed"); } throw std::runtime_error(cat("send: ", strerror(errno))); }
            if (x.expect == 1 && reply_size(e) > 60000) x.expect = reply_size(e) > 65000 ? 2 : 1;
            in_flight.emplace_back(&k, std::move(x));
            ctx.hit("datagrams");
            if (in_flight.size() >= 3 || tolerant || d.size() > 20000 || in_flight.back().second.expect == 2) udp_collect();
        }
        size_t reply_size(const Exp & e) { if (e.kind != mm::K_GET) return 0; size_t n = 100; for (auto k : e.keys) { auto x = common->bound.find(k); n += 300 + (x == common->bound.end() ? 0 : x->second) + 20; } return n; }
        bool two_parts(const Exp & e) { return e.kind == mm::K_STORE; }
        void udp_raw(Client & k, const std::string & d) { if (::send(k.fd, d.data(), d.size(), MSG_NOSIGNAL) < 0 && errno == ECONNREFUSED) { srv->check_alive(); throw Fail("the datagram port is closed"); } ctx.hit("datagrams"); }
        // replies come back in order, each under its own header
        void udp_collect() {
            pump_idle();
            while (!in_flight.empty()) {
                auto f = in_flight.front(); in_flight.pop_front(); Client & k = *f.first; Sent & x = f.second; size_t pos = 0;
                if (x.expect == 0) { if (!common->consume(x.e, "", pos)) { // an error reply is due in spite of noreply
                        x.expect = 2; } else continue; }
                bool got = false; std::string d; double t0 = real_now(), patience = x.expect == 2 ? (s.ext ? 0.3 : 0.02) : (s.ext ? 15 : 5);
                for (;;) { srv->pump(); d = recv_dgram(k, got); if (got) break; srv->check_alive(); if (real_now() - t0 > patience) break; if (s.ext) { pollfd p{k.fd, POLLIN, 0}; poll(&p, 1, 20); } else Runner::nap(1); }
                if (!got) {
                    if (x.expect == 2) { // dropped reply: the effect took place nevertheless (only retrievals get here)
                        continue; }
                    throw Fail(cat("no datagram in answer to '", shorten(x.e.text, 150), "'"));
                }
                if (d.size() < 8 || d.compare(0, 8, x.header) != 0) throw Fail(cat("answer to '", shorten(x.e.text, 100), "' has the frame header '", shorten(d.substr(0, 8)), "', the request had '", shorten(x.header), "'"));
                std::string body = d.substr(8); pos = 0;
                if (!common->consume(x.e, body, pos)) throw Fail(cat("incomplete answer '", shorten(body), "' to '", shorten(x.e.text, 100), "'"));
                if (pos != body.size()) throw Fail(cat("answer to '", shorten(x.e.text, 100), "' is followed by '", shorten(body.substr(pos, 100)), "'"));
                ctx.hit("datagram_replies"); if (prop() == "C14") ctx.mark();
            }
            for (auto & p : cs) { bool got = false; std::string d = recv_dgram(*p, got); if (got) throw Fail(cat("unsolicited datagram '", shorten(d), "'")); }
        }

        void submit(Client & k, Exp e, bool alone = false) {
            if (transport == T_UDP && prop() == "C14") { udp_send(k, std::move(e), alone); return; }
            if (alone && (k.out.size() > k.out_pos || !k.exps.empty())) drain(k);
            k.queue(std::move(e));
            if (alone) drain(k);
        }

        // ---- arbitrary bytes
        void raw(Client & k, const Op & o) {
            if (k.fd < 0 || k.eof) { open_client(index_of(k)); }
            const std::string & d = o.s; ctx.hit("fuzz_bytes", d.size()); ctx.mark();
            if (k.transport == T_UDP) { udp_raw(k, d); pump_idle(); bool got = true; while (got) recv_dgram(k, got); return; }
            size_t pos = 0; uint64_t x = mix(o.a[2]); double t0 = real_now();
            while (pos < d.size() && !k.eof) {
                size_t n = d.size() - pos; x = mix(x); if (o.a[1] % 5 == 1) n = 1; else if (o.a[1] % 5 >= 2) n = 1 + x % std::max<size_t>(1, o.a[1] % 5 == 2 ? 10 : 300);
                n = std::min(n, d.size() - pos); ssize_t r = ::send(k.fd, d.data() + pos, n, MSG_NOSIGNAL);
                if (r > 0) { pos += size_t(r); t0 = real_now(); } else if (errno != EAGAIN) { k.eof = true; break; }
                srv->pump(); k.receive(); k.in.clear(); if (starved) { ctx.hit("requests_short_of_memory"); starved = 0; } if (s.ext && r <= 0) Runner::nap(1); if (r <= 0 && real_now() - t0 > 10) { srv->check_alive(); break; }
            }
            if (!s.ext) pump_idle(); k.receive(); k.in.clear();
        }
        size_t index_of(Client & k) { for (size_t i = 0; i < cs.size(); ++i) if (cs[i].get() == &k) return i; return 0; }
        void check_protected() {
            srv->check_alive();
            for (size_t i = 0; i < prot_keys.size(); ++i) { Exp e = admin->model->get(true, {i}); admin->queue(e); }
            admin->queue(admin->model->version());
            while (admin->out.size() > admin->out_pos) admin->send_some(1 << 20);
            until([&] { admin->match(); if (admin->eof) throw Fail("the server closed another client's connection"); return !admin->outstanding(); }, "the server does not answer another client any more");
            ctx.hit("responsiveness_checks");
        }
        void endless(Client & k, const Op & o) {
            if (k.transport == T_UDP) return;
            if (k.fd < 0 || k.eof) open_client(index_of(k));
            std::string pre = o.a[2] % 3 == 1 ? "get " : o.a[2] % 3 == 2 ? "set " : ""; char fill = char(o.a[1]); if (fill == '\n' || fill == '\r' || (unsigned char)fill == 0x80) fill = 'x';
            size_t limit = cl::settings.net.max_rcv_buffer_size; std::string block = pre + std::string(65536 - pre.size(), fill); size_t total = 0, goal = limit * 2 + (8 << 20); size_t pos = 0; bool answered = false, blocked = false; double t0 = real_now();
            while (total < goal && !k.eof && !answered) {
                ssize_t r = ::send(k.fd, block.data() + pos, block.size() - pos, MSG_NOSIGNAL);
                if (r > 0) { total += size_t(r); pos += size_t(r); if (pos == block.size()) { pos = 0; if (total == block.size()) block.assign(65536, fill); } t0 = real_now(); } else if (errno != EAGAIN) { k.eof = true; break; }
                size_t w = srv->pump(); if (k.receive()) answered = true; k.in.clear();
                if (r <= 0 && !w) { if (s.ext) Runner::nap(1); if (real_now() - t0 > (s.ext ? 10 : 2)) { blocked = true; break; } }
            }
            if (!k.eof && !answered && !blocked) throw Fail(cat("the server took ", total, " bytes of an unterminated request line, its buffer is limited to ", limit));
            ctx.hit(k.eof ? "endless_line_closed" : "endless_line_other"); close(k.fd); k.fd = -1; pump_idle();
        }

        // ---- the command line
        // text of a size of 2^log bytes in one of several notations; odd != 0 makes it something else
        static std::vector<std::string> size_args(const char * shrt, const char * lng, uint64_t log, uint64_t fmt, uint64_t odd, bool & ok, bool & given) {
            given = true; uint64_t v = 1ull << log; std::string t; 
            auto in = [&](uint64_t unit, const char * suffix) { if (v % unit) { t = dec(v >> 10) + "K"; } else t = dec(v / unit) + suffix; };
            switch (fmt % 7) { case 0: in(1u << 30, "G"); break; case 1: in(1u << 20, "M"); break; case 2: in(1u << 20, ""); break; case 5: t = "00" + dec(v >> 10) + "K"; break; case 6: if (!odd) { given = false; return {}; } t = dec(v >> 10) + "K"; break; default: t = dec(v >> 10) + "K"; }
            if (odd) { ok = false; switch (odd % 6) { case 1: t = dec((v >> 10) + ((v >> 10) > 1 ? 1 : 2)) + "K"; break; case 2: t += "B"; break; case 3: t = "-" + t; break; case 4: t = "0" + std::string(1, "KMG"[log % 3]); break; default: t = dec((1ull << 54) + (v >> 10)) + "K"; } } // the last one wraps round to the right size
            if (fmt % 7 == 3) return {std::string(lng) + "=" + t}; if (fmt % 7 == 4) return {lng, t}; if (fmt % 7 == 1) return {shrt + t};
            return {shrt, t};
        }
        // starts the server with the size options spelled as the case says; false if it was refused as it had to be
        bool start_cli(uint64_t lm, uint64_t lp, uint64_t ld, bool evict) {
            Op o(CLI, {3, 0, 3, 0, 0, 0}); for (size_t i = 1; i < c.size(); ++i) if (c[i].code == CLI) { o = c[i]; opno = i; break; }
            bool ok = true, gm, gp; auto a = size_args("-m", "--memory", lm, o.a[0], o.a[1], ok, gm); auto b = size_args("-P", "--page", lp, o.a[2], o.a[3], ok, gp);
            if (!gm) mem = 64 << 20; if (!gp) page = 1 << 20; if (mem / 4 < page) ok = false;
            if (mem < page * 32) { tight = true; evict = false; } // the model does not follow evictions
            std::vector<std::string> x; bool swap = o.a[4] & 2; x = swap ? b : a; x.insert(x.end(), swap ? a.begin() : b.begin(), swap ? a.end() : b.end());
            if (o.a[5]) { static const char * bad[] = {"0", "3", "-4", "64K", "1000", "18446744073709551616"}; x.insert(x.end(), {"-H", bad[o.a[5] % 6]}); ok = false; } else if (o.a[4] & 1) x.insert(x.end(), {"--hashtable", dec(1ull << ld)});
            if (!evict) x.push_back(o.a[0] & 1 ? "-M" : "--oum-error");
            evicting = evict; std::string line; for (auto & t : x) line += " " + t;
            daemon = new Daemon; srv.reset(daemon); ctx.mark();
            if (!ok) {
                daemon->make_dir(); std::vector<std::string> y = {"-p", "0", "-U", "0", "-s", daemon->dir + "/sock0"}; y.insert(y.end(), x.begin(), x.end()); daemon->launch(y);
                if (!daemon->wait_end(20)) throw Fail(cat("the server accepts the invalid options", line)); if (!WIFEXITED(daemon->status) || WEXITSTATUS(daemon->status) == 0) throw Fail(cat("with the invalid options", line, " the server ", daemon->end_text()));
                if (daemon->serr.empty() && daemon->sout.empty()) throw Fail(cat("with the invalid options", line, " the server ends without a message")); ctx.hit("refused_command_lines"); return false;
            }
            try { daemon->start(transport == T_TCP, transport != T_TCP, (o.a[0] + o.a[2]) % 4 == 1, x); daemon->check_ports(); } catch (const Fail & f) { throw Fail(cat("options", line, ": ", f.msg)); }
            ctx.hit("accepted_command_lines"); return true;
        }
        bool evicting = false;
        std::string ask(Client & k, const std::string & q, const std::function<bool(const std::string &)> & complete) {
            std::string in; size_t p = 0; double t0 = real_now();
            while (!complete(in)) {
                if (p < q.size()) { ssize_t n = ::send(k.fd, q.data() + p, q.size() - p, MSG_NOSIGNAL); if (n > 0) { p += size_t(n); t0 = real_now(); } }
                char b[65536]; ssize_t n = recv(k.fd, b, sizeof b, 0); if (n > 0) { in.append(b, size_t(n)); t0 = real_now(); continue; } if (n == 0) throw Fail("the server closed the connection");
                if (srv) srv->check_alive(); if (real_now() - t0 > 20) throw Fail(cat("no answer to '", shorten(q, 60), "'")); pollfd pf{k.fd, short(POLLIN | (p < q.size() ? POLLOUT : 0)), 0}; poll(&pf, 1, 20);
            }
            return in;
        }
        // more page-sized items than fit: the configured memory is really there and not more of it
        void fillup(const Op & o) {
            uint64_t n = mem / page; if (mem > (32u << 20) || n > 600) return; settle(); Client k; k.connect_to(*srv, transport == T_TCP ? T_TCP : T_UNIX); auto line = [](const std::string & s) { return s.size() >= 2 && s.compare(s.size() - 2, 2, "\r\n") == 0; }; auto end = [](const std::string & s) { return s.size() >= 5 && s.compare(s.size() - 5, 5, "END\r\n") == 0; };
            for (auto & key : common->keys) ask(k, "delete " + key + "\r\n", line);
            std::vector<std::string> vals; std::vector<bool> in; uint64_t len = page - page / 16 - 100 - o.a[1] % 32; size_t stored = 0;
            for (uint64_t i = 0; i < n + 3; ++i) {
                vals.push_back(mm::make_value(len, (o.a[0] + i) * 8 + 1)); std::string r = ask(k, "set fill" + dec(i) + " 0 0 " + dec(len) + "\r\n" + vals.back() + "\r\n", line); bool ok = r == "STORED\r\n"; in.push_back(ok); stored += ok;
                bool due = i < n || evicting; if (ok != due) throw Fail(cat("set of the page-sized item ", i, " answered '", shorten(r), "', memory ", mem, ", page ", page, evicting ? "" : ", no evictions"));
            }
            size_t present = 0; for (uint64_t i = 0; i < n + 3; ++i) { std::string r = ask(k, "get fill" + dec(i) + "\r\n", end), full = "VALUE fill" + dec(i) + " 0 " + dec(len) + "\r\n" + vals[i] + "\r\nEND\r\n"; bool hit = r == full; if (!hit && r != "END\r\n") throw Fail(cat("get of a page-sized item answered '", shorten(r), "'")); present += hit; if (!evicting && hit != in[i]) throw Fail(cat("page-sized item ", i, hit ? " is present though it was refused" : " is lost")); if (i == n + 2 && evicting && !hit) throw Fail("the item just stored is absent"); }
            if (present != n) throw Fail(cat(present, " page-sized items are present in ", n, " pages")); ctx.hit("filled_to_capacity"); filled = true;
        }
        bool filled = false; int endless_done = 0;

        // ---- the daemon
        void usr1() {
            if (!daemon) return;
            size_t before = count_text(daemon->sout, "cache:cmd_get"); size_t mark = daemon->sout.size(); kill(daemon->pid, SIGUSR1);
            until([&] { daemon->read_output(); size_t p = daemon->sout.find("mem:evictions", mark); return p != std::string::npos && daemon->sout.find("\n\n", p) != std::string::npos; }, "no statistics printed after SIGUSR1");
            if (count_text(daemon->sout, "cache:cmd_get") != before + 1) throw Fail("statistics not printed exactly once for a signal");
            // the printed numbers are the ones of the history
            std::map<std::string, uint64_t> st; std::istringstream is(daemon->sout.substr(mark)); std::string l;
            while (std::getline(is, l)) { size_t a = l.find(':'); if (a == std::string::npos) continue; size_t b = l.find_first_of(". ", a); size_t d = l.find_first_not_of(".", b); if (d == std::string::npos) continue; uint64_t v = strtoull(l.c_str() + d, nullptr, 10); st[l.substr(a + 1, b - a - 1)] = v; }
            common->check_stats(st); ctx.hit("signals"); ctx.mark();
        }
        static size_t count_text(const std::string & s, const std::string & w) { size_t n = 0, p = 0; while ((p = s.find(w, p)) != std::string::npos) { ++n; p += w.size(); } return n; }
        int raw_connect(int t) { Client x; x.connect_to(*srv, t); int f = x.fd; x.fd = -1; return f; }
        void idle_client(uint64_t kind) {
            int f = raw_connect(srv->tcp_port && kind % 2 ? T_TCP : T_UNIX); idle_fds.push_back(f); std::string d;
            switch (kind % 6) { case 0: break; case 1: d = "get"; break; case 2: d = "set zz 0 0 1000\r\nabc"; break;
            case 3: { d = "set bigone 0 0 60000\r\n" + std::string(60000, 'b') + "\r\n"; for (int i = 0; i < 40; ++i) d += "get bigone\r\n"; break; } // never read
            case 4: d = "\x80"; break; default: d = "get " + std::string(3000, 'x'); }
            for (size_t p = 0; p < d.size();) { ssize_t r = ::send(f, d.data() + p, d.size() - p, MSG_NOSIGNAL); if (r <= 0) break; p += size_t(r); }
            if (kind % 6 == 3 || kind % 6 == 2) common->foreign = true; // that client's items and counters are not in the account
            ctx.hit("idle_or_stuck_clients");
        }
        void term(uint64_t which) {
            static const int sig[] = {SIGTERM, SIGINT, SIGQUIT}; static const char * nm[] = {"SIGTERM", "SIGINT", "SIGQUIT"};
            srv->check_alive(); kill(daemon->pid, sig[which % 3]);
            if (!daemon->wait_end(20)) throw Fail(cat("the server still runs 20 s after ", nm[which % 3]));
            if (!WIFEXITED(daemon->status) || WEXITSTATUS(daemon->status) != 0) throw Fail(cat("after ", nm[which % 3], " the server ", daemon->end_text()));
            ctx.hit("terminations"); ctx.mark();
        }
        // options of the help text that the generated command lines do not use: each must be refused or have its documented effect
        void option(uint64_t kind, uint64_t var) {
            Daemon d; d.make_dir(); std::string T = std::to_string(d.ports.take(SOCK_STREAM)); d.unix_name = d.dir + "/s"; std::vector<std::string> a; ctx.mark();
            auto connects = [&](const char * host) { int f = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in x{}; x.sin_family = AF_INET; x.sin_port = htons(uint16_t(atoi(T.c_str()))); inet_pton(AF_INET, host, &x.sin_addr); bool ok = connect(f, (sockaddr *)&x, sizeof x) == 0 && Daemon::answers(f); close(f); return ok; };
            auto up = [&](const std::function<bool()> & f) { double t0 = real_now(); while (!f()) { if (d.ended() && (kind % 4 != 2 || WEXITSTATUS(d.status))) return false; if (real_now() - t0 > 20) throw Fail("the server does not answer 20 s after its start"); Runner::nap(1); } return true; };
            switch (kind % 4) {
            case 0: { a = {"-p", T, "-U", "0", "-l", "127.0.0.1"}; d.launch(a); if (!up([&] { return connects("127.0.0.1"); })) return; if (connects("127.0.0.2")) throw Fail("[listen] a server told to listen on 127.0.0.1 answers on 127.0.0.2"); break; }
            case 1: { static const char * masks[] = {"0700", "0777", "0600", "0770"}; static const unsigned want[] = {0700, 0777, 0600, 0770}; unsigned i = unsigned(var % 4); a = {"-p", "0", "-U", "0", "-s", d.unix_name}; if (i) { a.push_back("-a"); a.push_back(masks[i]); } d.launch(a);
                if (!up([&] { return d.probe_unix(); })) return; struct stat st; if (stat(d.unix_name.c_str(), &st) == 0 && (st.st_mode & 0777) != want[i]) throw Fail(cat("[socket_access] socket has not the access mask ", masks[i], i ? "" : " (the default)")); break; }
            case 2: { a = {"-p", "0", "-U", "0", "-s", d.unix_name, "-d"}; d.launch(a); if (!up([&] { return d.probe_unix(); })) return; bool detached = d.wait_end(3); system(("pkill -KILL -f -- '" + d.dir + "' >/dev/null 2>&1").c_str()); if (!detached) throw Fail("[daemon] the server told to run as a daemon stays in the foreground"); break; }
            default: { uint64_t used[2]; bool cas[2]; // memory economy: the version need not be kept, then there is nothing to compare with
                for (int i = 0; i < 2; ++i) { Daemon e; std::vector<std::string> x = {"-p", "0", "-U", "0", "-s", ""}; e.make_dir(); e.unix_name = e.dir + "/s"; x[5] = e.unix_name; if (i) x.push_back("-C"); e.launch(x); double t0 = real_now(); while (!e.probe_unix()) { if (e.ended()) return; if (real_now() - t0 > 20) throw Fail("the server does not answer 20 s after its start"); Runner::nap(1); }
                    Client k; k.connect_to(e, T_UNIX); auto has = [](const char * t) { return [t](const std::string & in) { return in.find(t) != std::string::npos; }; };
                    for (int n = 0; n < 20; ++n) ask(k, cat("set key", n, " 0 0 88\r\n", std::string(88, 'v'), "\r\n"), has("\r\n")); std::string st = ask(k, "stats\r\n", has("END\r\n")); size_t p = st.find("STAT used_memory "); used[i] = p == std::string::npos ? 0 : strtoull(st.c_str() + p + 17, nullptr, 10);
                    std::string g = ask(k, "gets key1\r\n", [](const std::string & in) { return in.find("END\r\n") != std::string::npos || in.find("ERROR") != std::string::npos; }); std::string tok = g.compare(0, 6, "VALUE ") == 0 && g.find("\r\n") != std::string::npos ? g.substr(0, g.find("\r\n")) : ""; size_t sp = tok.rfind(' ');
                    cas[i] = sp != std::string::npos && ask(k, "cas key1 0 0 1 " + tok.substr(sp + 1) + "\r\nx\r\n", has("\r\n")).compare(0, 6, "STORED") == 0; }
                if (cas[1] && used[1] >= used[0]) throw Fail("[no-cas] with CAS disabled the items take as much memory as with it and cas works"); }
            }
            ctx.hit("documented_options");
        }
        // the data of a store that was refused because of its size must not be taken for commands
        void skipdata(uint64_t extra) {
            InProcess * p = new InProcess(size_t(1) << 20, 4096, 16, true, false, true, false); srv.reset(p); page = 4096; cl::settings.cache.page_size = page; cl::settings.net.max_rcv_buffer_size = cl::settings.net.max_snd_buffer_size = 1 << 20; ctx.mark();
            Client k; k.connect_to(*srv, transport == T_TCP ? T_TCP : T_UNIX); auto line = [&](const std::string & t) { k.out = t; k.out_pos = 0; k.in.clear(); k.in_pos = 0; while (k.send_some(1 << 20)) {} for (int i = 0; i < 50; ++i) { srv->pump(); k.receive(); } return k.in; };
            line("set victim 0 0 1\r\nv\r\n"); std::string d = "delete victim\r\n"; d += std::string(4097 + extra % 1000 - d.size(), 'x');
            std::string a = line("set big 0 0 " + dec(d.size()) + "\r\n"); if (a.find("ERROR") == std::string::npos || k.eof) return; std::string b = line(d + "\r\n"); if (k.eof) { k.connect_to(*srv, T_UNIX); }
            if (line("get victim\r\n").find("VALUE victim 0 1\r\nv\r\nEND\r\n") == std::string::npos) throw Fail(cat("[data-as-commands] the data of a refused store was executed: ", shorten(b, 100)));
        }
        // more clients than the server has descriptors for: the ones served stay served, the others are as soon as some leave
        void crowd(const Op & o) {
            if (!s.ext) return;
            std::unique_ptr<Daemon> d(new Daemon); d->nofile = unsigned(24 + o.a[0] % 24); bool tcp = o.a[3] & 1; d->start(tcp, !tcp, false, {"-m", "16M", "-P", "64K"}); daemon = nullptr; ctx.mark();
            struct Guest { Client k; std::string want, got; bool gone = false; bool done() const { return got.size() >= want.size(); } }; std::vector<std::unique_ptr<Guest>> gs; uint64_t rnd = o.a[2], n = d->nofile + o.a[1] % 24, serial = 0;
            auto next = [&](uint64_t m) { rnd = mix(rnd + 1); return rnd % m; };
            auto talk = [&](size_t i) { Guest & g = *gs[i]; std::string key = cat("guest", i), v = mm::make_value(next(3) ? next(40) : next(3000), ++serial), t = cat("set ", key, " ", i % 65536, " 0 ", v.size(), "\r\n", v, "\r\nget ", key, "\r\n"); g.want += cat("STORED\r\nVALUE ", key, " ", i % 65536, " ", v.size(), "\r\n", v, "\r\nEND\r\n"); g.k.out += t; g.k.send_some(t.size()); };
            auto look = [&] { bool news = false; for (auto & g : gs) if (!g->gone && !g->done()) { g->k.send_some(1 << 20); char b[65536]; ssize_t r = recv(g->k.fd, b, sizeof b, 0); if (r > 0) { g->got.append(b, size_t(r)); if (g->want.compare(0, g->got.size(), g->got) != 0) throw Fail(cat("a client of a crowded server got '", shorten(g->got, 200), "' instead of '", shorten(g->want, 200), "'")); news = true; }
                    else if (r == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) throw Fail("a crowded server closed the connection of a client"); } d->check_alive(); return news; };
            auto settle_down = [&] { double quiet = real_now(); while (real_now() - quiet < 0.02) { if (look()) quiet = real_now(); else Runner::nap(1); } };
            auto waiting = [&] { size_t w = 0; for (auto & g : gs) if (!g->gone && !g->done()) ++w; return w; };
            for (uint64_t i = 0; i < n; ++i) { gs.emplace_back(new Guest); gs.back()->k.connect_to(*d, tcp ? T_TCP : T_UNIX); talk(i); if (next(4) == 0) settle_down(); }
            settle_down(); std::set<size_t> in; for (size_t i = 0; i < n; ++i) if (gs[i]->done()) in.insert(i); if (waiting()) ctx.hit("crowded_servers");
            for (int round = 0; waiting() && round < 200; ++round) {
                if (in.empty()) { double t0 = real_now(); while (waiting() == gs.size()) { look(); if (real_now() - t0 > 20) throw Fail("a crowded server serves nobody"); Runner::nap(1); } }
                in.clear(); for (size_t i = 0; i < n; ++i) if (!gs[i]->gone && gs[i]->done()) in.insert(i);
                auto it = in.begin(); std::advance(it, long(next(in.size()))); size_t who = *it;
                if (next(3) == 0) { talk(who); double t0 = real_now(); while (!gs[who]->done()) { look(); if (real_now() - t0 > 20) throw Fail("a connected client is not served any more while others wait for their turn"); Runner::nap(1); } continue; }
                size_t before = waiting(); close(gs[who]->k.fd); gs[who]->k.fd = -1; gs[who]->gone = true; in.erase(who);
                double t0 = real_now(); while (waiting() && waiting() >= before) { look(); if (real_now() - t0 > 20) throw Fail(cat(waiting(), " clients wait in vain though others have left")); Runner::nap(1); }
            }
        }
        void refuse(uint64_t kind, uint64_t var) {
            Daemon d; d.make_dir(); int hold = -1; std::vector<std::string> a; std::string T = std::to_string(d.ports.take(SOCK_STREAM)), what; auto off = [&] { a = {"-p", "0", "-U", "0"}; };
            auto sock = [&](int type) { hold = socket(AF_INET, type | SOCK_CLOEXEC, 0); sockaddr_in x{}; x.sin_family = AF_INET; x.sin_addr.s_addr = INADDR_ANY; if (bind(hold, (sockaddr *)&x, sizeof x) || (type == SOCK_STREAM && listen(hold, 5))) throw std::runtime_error("bind"); socklen_t l = sizeof x; getsockname(hold, (sockaddr *)&x, &l); return std::to_string(ntohs(x.sin_port)); };
            switch (kind % 16) {
            case 0: a = {"-p", sock(SOCK_STREAM), "-U", "0"}; what = "a TCP port in use"; break;
            case 1: a = {"-p", "0", "-U", sock(SOCK_DGRAM)}; what = "a UDP port in use"; break;
            case 2: { off(); std::ofstream f(d.dir + "/busy"); f << "x"; a.insert(a.end(), {"-s", d.dir + "/busy"}); what = "an existing file as socket"; break; }
            case 3: off(); a.insert(a.end(), {"-s", d.dir + "/nonexistent/sock"}); what = "a socket in a missing directory"; break;
            case 4: off(); a.insert(a.end(), {"-s", d.dir + "/" + std::string(120 + var % 100, 's')}); what = "an over-long socket path"; break;
            case 5: { static const char * w[] = {"-m", "-P"}; static const char * v[] = {"0", "3", "abc", "", "-1", "1.5", "64X", "M", "K", "99999999999999999999", "17179869184G", "100", "12K", "1T", "0K", "0G", "18446744073709551615", "18446744073709551616M"}; off(); a.insert(a.end(), {w[var % 2], v[var / 2 % 18]}); what = cat("memory size '", w[var % 2], " ", v[var / 2 % 18], "'"); break; }
            case 6: { static const char * v[] = {"0", "3", "abc", "65537", "-1", "", "1000", "6"}; off(); a.insert(a.end(), {"-H", v[var % 8]}); what = cat("hash table size '", v[var % 8], "'"); break; }
            case 7: off(); a.insert(a.end(), {"-m", "2M", "-P", "1M"}); what = "less than four pages"; break;
            case 8: { static const char * v[] = {"--nonsense", "-z", "--memory", "-p", "-m"}; off(); a.push_back(v[var % 5]); what = cat("option '", v[var % 5], "'"); break; }
            case 9: { static const char * v[] = {"65536", "-1", "abc", "99999", "", "1.5", "0x10"}; a = {var % 2 ? "-p" : "-U", v[var / 2 % 7], var % 2 ? "-U" : "-p", "0"}; what = cat("port '", v[var / 2 % 7], "'"); break; }
            case 10: off(); a.insert(a.end(), {"-m", "16G", "-P", "4G"}); what = "a page over 2G"; break;
            case 11: off(); a.insert(a.end(), {"-m", "64", "-m", "128"}); what = "an option given twice"; break;
            case 12: off(); a.insert(a.end(), {"-P", "32M"}); what = "less than four pages of the default memory"; break;
            case 13: off(); a.insert(a.end(), {"-m", "1M"}); what = "less than four default pages"; break;
            case 14: a = {"-p", T, "-U", "0", "-s", d.dir}; what = "a directory as socket"; break;
            default: a = {"-p", T, "-U", sock(SOCK_DGRAM)}; what = "a UDP port in use besides TCP"; break;
            }
            d.launch(a); bool e = d.wait_end(20); if (hold >= 0) close(hold);
            if (!e) throw Fail(cat("the server runs although it was asked for ", what));
            if (!WIFEXITED(d.status) || WEXITSTATUS(d.status) == 0) throw Fail(cat("asked for ", what, " the server ", d.end_text()));
            if (d.serr.empty() && d.sout.empty()) throw Fail(cat("asked for ", what, " the server ends without a message")); ctx.hit("refused_starts"); ctx.mark();
        }

        void run() {
            if (c.empty()) return;
            const Op & g = c[0]; transport = (g.a[0] & 0xff) % 3; nclients = std::min<uint64_t>(std::max<uint64_t>(g.a[0] >> 8, 1), 8);
            uint64_t lp = std::min<uint64_t>(std::max<uint64_t>(g.a[1] >> 8 & 0xff, 10), prop() == "C19" ? 23 : 20), lm = std::min<uint64_t>(std::max<uint64_t>(g.a[1] & 0xff, lp + 2), 27), ld = std::min<uint64_t>(g.a[1] >> 16, 16);
            km = g.a[2] % 4; nkeys = std::min<uint64_t>(std::max<uint64_t>(g.a[3], 1), 64); tight = g.a[4] & 1; slow_tcp = g.a[4] & 8; if (!tight) lm = std::max<uint64_t>(lm, lp + 4); if (nkeys > 12 && !tight) nkeys = 12; if (prop() == "C20") lm = std::max<uint64_t>(lm, lp + 8);
            page = size_t(1) << lp; mem = size_t(1) << lm;
            hash0 = prop() == "C19" ? 0 : size_t(1) << ld;
            cl::ResetStats(); plat::clock_owned = false; plat::tick_after = -1; starve = prop() == "C13" && g.a[4] & 16 ? size_t(8192) << g.a[5] % 4 : ~size_t(0); starved = 0;
            for (size_t i = 1; i < c.size(); ++i) if (c[i].code == OPTION) { opno = i; option(c[i].a[0], c[i].a[1]); return; }
            for (size_t i = 1; i < c.size(); ++i) if (c[i].code == SKIPDATA) { opno = i; skipdata(c[i].a[0]); return; }
            for (size_t i = 1; i < c.size(); ++i) if (c[i].code == CROWD) { opno = i; crowd(c[i]); return; }
            for (size_t i = 1; i < c.size(); ++i) if (c[i].code == REFUSE) { opno = i; refuse(c[i].a[0], c[i].a[1]); return; }
            if (!s.ext) { plat::clock_owned = true; plat::clock_ns = 1000000000ll * int64_t(1000 + g.a[5] * 12) + int64_t(g.a[5] % 10) * 100000000ll; }
            cl::settings.cache.page_size = page; cl::settings.cache.memory_limit = mem; cl::settings.net.max_rcv_buffer_size = cl::settings.net.max_snd_buffer_size = g.a[4] & 2 ? 131072 : (prop() == "C13" ? 2 : 32) * 1024 * 1024; if (s.ext) cl::settings.net.max_rcv_buffer_size = 32 << 20;
            if (g.a[4] & 32 && !s.ext) { cl::settings.net.max_rcv_buffer_size = page + 1024 + (g.a[5] * 37) % (2 * page); cl::settings.net.max_snd_buffer_size = 65536 + 5 * (page + 512) + 4096; ctx.hit("small_receive_buffers"); } // any single request fits, what is in the pipeline does not
            bool evict = g.a[4] & 4; bool w_tcp = transport == T_TCP || prop() == "C20" || prop() == "C13" || prop() == "C21", w_unix = transport == T_UNIX || prop() == "C20" || prop() == "C13" || prop() == "C21", w_udp = transport == T_UDP;
            if (s.ext && prop() == "C19") { if (!start_cli(lm, lp, ld, evict)) return; }
            else if (s.ext) { daemon = new Daemon; srv.reset(daemon); std::vector<std::string> x = {"-m", dec(mem / 1024) + "K", "-P", dec(page / 1024) + "K", "-H", dec(1ull << ld)}; if (!evict) x.push_back("-M"); daemon->start(w_tcp, w_unix, w_udp, x); }
            else { inproc = new InProcess(mem, page, size_t(1) << ld, evict, w_tcp, w_unix, w_udp); srv.reset(inproc); if ((prop() == "C11" || prop() == "C12" || prop() == "C20" || (prop() == "C04" && g.a[5] % 8 >= 4)) && (g.a[5] % 4 == 0 || prop() == "C04")) { static const uint64_t to[] = {(1ull << 16) - 9, (1ull << 31) - 9, (1ull << 32) - 9, (1ull << 32) + 77, 1ull << 40}; if (age_versions(inproc->cache, to[g.a[5] / 4 % 5])) ctx.hit("long_lived_caches"); } }
            held = srv->descriptors();
            common = new_model(""); if (prop() == "C21") common->mem_stats = true;
            if (prop() == "C13") {
                admin.reset(new Client); admin->own = new_model(""); admin->model = admin->own.get(); auto & m = *admin->model; m.keys.clear();
                for (uint64_t i = 0; i < 6; ++i) m.keys.push_back("protected-key-with-a-long-name-" + dec(i)); prot_keys = m.keys; admin->connect_to(*srv, w_tcp && g.a[5] % 2 ? T_TCP : T_UNIX);
                for (uint64_t i = 0; i < 6; ++i) admin->queue(m.store(mm::SET, i, i, 0, mm::make_value(i * 97, i * 31 + 5), false, 0)); while (admin->out.size() > admin->out_pos) admin->send_some(1 << 20);
                until([&] { admin->match(); return !admin->outstanding(); }, "the server does not answer");
            }
            if (prop() == "C20") {
                admin.reset(new Client); admin->own = new_model(""); admin->model = admin->own.get(); admin->connect_to(*srv, T_UNIX);
                Exp e; e.kind = mm::K_SHSET; e.text = "set shcount 0 0 1\r\n0\r\n"; admin->queue(e); e.text = "set shlog 0 0 0\r\n\r\n"; admin->queue(e); e.text = "set shblob 0 0 4\r\nnone\r\n"; admin->queue(e); shared.blobs.insert("none");
                while (admin->out.size() > admin->out_pos) admin->send_some(1 << 20); until([&] { admin->match(); return !admin->outstanding(); }, "the server does not answer");
            }
            for (uint64_t i = 0; i < nclients; ++i) { cs.emplace_back(new Client); open_client(i); }
            for (opno = 1; opno < c.size(); ++opno) step(c[opno]);
            finish(); if (prop() == "C13" || prop() == "C20") farewell();
        }
        size_t held = 0; // descriptors of the server before the first client came
        // when everybody has left nothing of them remains
        void farewell() {
            if (daemon && daemon->reaped) return;
            cs.clear(); admin.reset(); draining = false;
            double t0 = real_now(); size_t now = 0; while ((now = srv->descriptors()) > held) { srv->pump(); srv->check_alive(); if (real_now() - t0 > (s.ext ? 20 : 5)) throw Fail(cat("the server holds ", now - held, " descriptors of clients that have left")); if (s.ext || real_now() - t0 > 0.1) Runner::nap(1); }
            if (!s.ext) { int busy = 0; while (srv->pump()) if (++busy > 1000) throw Fail("the server is busy after all its clients have left"); }
            else if (c[0].a[5] % 8 == 0) { int busy = 0; for (; busy < 4; ++busy) { uint64_t b = srv->cpu_ticks(); Runner::nap(60); if (srv->cpu_ticks() - b < 4) break; } if (busy == 4) throw Fail("the server uses the processor after all its clients have left"); ctx.hit("idle_servers"); }
            ctx.hit("farewells");
        }
        void step(const Op & o) {
            if (cs.empty() || filled) return; Client & k = client(o.a[0]); uint64_t a0 = o.a[0] & 0xff, key = o.a[1] % nkeys; Model & m = *k.model;
            bool udp = transport == T_UDP && prop() == "C14";
            switch (o.code) {
            case STORE: { std::string v = mm::make_value(std::min<uint64_t>(o.a[4], page), o.a[5] & 0xffffffff); uint64_t ttl = o.a[3] & 0xffffffff; if (s.ext && ttl && ttl < 1000) ttl += 1000000; int verb = int((a0 & 15) % 6); if (prop() == "C20" && verb >= mm::APPEND) verb = mm::SET; bool nr = a0 >> 4 & 1;
                Exp e = m.store(verb, key, o.a[2], ttl, v, nr, unsigned(o.a[5] >> 32 & 0xff), unsigned(o.a[5] >> 40)); submit(k, std::move(e)); break; }
            case GETC: { std::vector<uint64_t> ks{key}; for (uint64_t j = 1; j < std::min<uint64_t>(std::max<uint64_t>(a0 >> 4, 1), 5); ++j) ks.push_back((o.a[1 + j] & 0xffff) % nkeys); if (uint64_t wide = std::min<uint64_t>(std::min<uint64_t>(o.a[5] >> 16, 400), (8 << 20) / page)) { for (uint64_t j = 0; j < wide; ++j) ks.push_back(mix(o.a[5] + j) % nkeys); ctx.hit("wide_gets"); } submit(k, m.get(a0 & 1, ks)); break; }
            case DELC: submit(k, m.del(key, a0 & 1)); break;
            case ARITHC: submit(k, m.arith(a0 & 1, key, o.a[2], a0 >> 1 & 1, unsigned(o.a[3]))); break;
            case TOUCHC: { uint64_t ttl = o.a[2] & 0xffffffff; if (s.ext && ttl && ttl < 1000) ttl += 1000000; submit(k, m.touch(key, ttl, a0 & 1)); break; }
            case FLUSHC: submit(k, m.flush(a0 & 1)); break;
            case VERS: submit(k, m.version()); break;
            case STATSC: submit(k, m.stats()); if (prop() == "C15") ctx.mark(); break;
            case BADC: submit(k, m.bad(a0 % 8, key, o.a[2]), true); ctx.hit("malformed_commands"); break;
            case ADV: { settle(); if (!s.ext) { plat::advance_ms(o.a[0]); common->now = uint64_t(plat::clock_sec()); } break; }
            case SEG: seg = o.a[0]; seg_arg = o.a[1]; seg_wait = o.a[2] & 1; break;
            case DRAIN: if (udp) udp_collect(); else if (prop() == "C20") drain_all(); else drain(k); break;
            case QUITC: if (prop() == "C20") quit_late(k, o); else if (!udp) { drain(k); k.queue(quit_with_tail(o.a[2], m.keys[o.a[1] % nkeys])); until([&] { k.send_some(1 << 20); return k.out.empty() || k.eof; }, "quit not taken"); until([&] { if (k.in_pos < k.in.size()) throw Fail("quit was answered"); return k.eof; }, "connection not closed after quit"); k.connect_to(*srv, int(transport)); ctx.hit("quits"); } break;
            case SENDB: if (k.fd >= 0) { if (k.send_some(size_t(o.a[1]))) ctx.hit("partial_sends"); } break;
            case READB: if (k.fd >= 0) { k.receive(size_t(std::max<uint64_t>(o.a[1], 1))); k.match(); } break;
            case PUMP: if (s.ext) Runner::nap(1); else srv->pump(size_t(o.a[0])); break;
            case BYE: bye(k, o.a[1]); break;
            case SHINCR: if (prop() == "C20") { Exp e; e.kind = mm::K_SHINCR; e.text = "incr shcount 1\r\n"; ++shared.incr_sent; k.queue(e); } break;
            case SHAPPEND: if (prop() == "C20" && next_chunk < 400) { Exp e; e.kind = mm::K_SHAPPEND; e.id = next_chunk++; std::string t = "<" + dec(e.id) + ":" + std::string(o.a[1] % 60, char('a' + e.id % 26)) + ">"; chunk_text[e.id] = t; e.text = "append shlog 0 0 " + dec(t.size()) + "\r\n" + t + "\r\n"; shared.chunks[e.id] = 2; k.queue(e); } break;
            case SHSET: if (prop() == "C20") { Exp e; e.kind = mm::K_SHSET; std::string t = "blob" + dec(opno) + mm::make_value(std::min<uint64_t>(o.a[1], page / 2), o.a[2]); shared.blobs.insert(t); e.text = "set shblob 0 0 " + dec(t.size()) + "\r\n" + t + "\r\n"; k.queue(e); } break;
            case SHGET: if (prop() == "C20") { Exp e; e.kind = mm::K_SHGET; e.text = "get shblob\r\n"; k.queue(e); } break;
            case RAW: if (prop() == "C21") { int f = raw_connect(T_UNIX); ssize_t r = ::send(f, o.s.data(), o.s.size(), MSG_NOSIGNAL); (void)r; close(f); } else raw(k, o); break;
            case CHECK: if (admin) check_protected(); break;
            case ENDLESS: if (admin && !(s.ext && endless_done++)) { endless(k, o); check_protected(); } break;
            case UBAD: if (udp) ubad(k, o); break;
            case FLOOD: if (udp) { // more than any buffer can hold, in both directions
                udp_collect(); uint64_t n = std::min<uint64_t>(o.a[2], 800), mode = o.a[3] % 3; size_t len = std::min<size_t>(60000, page - page / 8); submit(k, m.store(mm::SET, key, 1, 0, mm::make_value(len, o.a[4] % 8 >= 5 ? 1 : o.a[4]), false, 0)); udp_collect();
                for (uint64_t i = 0; i < n; ++i) {
                    if (mode == 0) { submit(k, m.get(i & 1, {key})); udp_collect(); }
                    else if (mode == 1) { uint64_t vs = o.a[4] + i; if (vs % 8 == 5 || vs % 8 == 6) vs = 1; submit(k, m.store(mm::SET, key, i & 0xffff, 0, mm::make_value(len, vs), i % 3 == 0, 0)); udp_collect(); }
                    else { std::string q = "get"; for (int j = 0; j < 2; ++j) q += " " + m.keys[key]; udp_raw(k, udp_header() + q + "\r\n"); if (s.ext && i % 8 == 7) Runner::nap(1); if (!s.ext) pump_idle(); } // a reply that cannot be sent
                }
                bool got = true; if (mode == 2) { if (s.ext) Runner::nap(50); while (got) recv_dgram(k, got); }
                submit(k, m.get(true, {key})); udp_collect(); ctx.hit("floods"); } break;
            case USR1: if (daemon) { for (auto & p : cs) if (p->fd >= 0) p->queue(p->model->version()); /* the server has seen the commands without reply before it */ drain_all(); usr1(); } break;
            case IDLE: if (daemon) { drain_all(); idle_client(o.a[0]); } break;
            case TERM: if (daemon) { drain_all(); term(o.a[0]); } break;
            case FILLUP: if (daemon && prop() == "C19" && !filled) fillup(o); break;
            case SHRINKBUF: { int n = 8192; if (k.fd >= 0) setsockopt(k.fd, SOL_SOCKET, SO_RCVBUF, &n, sizeof n); break; }
            }
            if ((prop() == "C11" || prop()[1] == '0') && common->answered_enough()) ctx.mark();
        }
        void settle() { if (transport == T_UDP && prop() == "C14") udp_collect(); else drain_all(); }

        void ubad(Client & k, const Op & o) { // a datagram that must be dropped without any effect
            udp_collect(); uint64_t key = o.a[2] % nkeys, v = o.a[3]; Model & m = *common; Exp e = v % 3 == 0 ? m.del(key, false) : v % 3 == 1 ? m.get(false, {key}) : Exp(); if (v % 3 == 2) { e.text = "set " + m.keys[key] + " 7 0 3\r\nbad\r\n"; }
            std::string h = udp_header(), d;
            switch (o.a[1] % 7) {
            case 0: d = (h + e.text).substr(0, v % 8); break;                         // shorter than the header
            case 1: h[6 + v % 2] = char(1 + v / 7 % 255); d = h + e.text; break;          // reserved bytes
            case 2: h[2 + v % 2] = char(1 + v / 7 % 255); d = h + e.text; break;          // not the first packet
            case 3: if (v & 8) h[4] = char(1 + v / 7 % 255); else h[5] = char(2 + v / 7 % 254); d = h + e.text; break;   // one of many packets
            case 4: case 5: { size_t cut = v / 3 % e.text.size(); d = h + e.text.substr(0, cut); break; } // incomplete
            default: d = h; break;                                                          // nothing but a header
            }
            udp_raw(k, d); pump_idle(); ctx.hit("dropped_datagrams");
            if (!s.ext) { bool got = false; std::string r = recv_dgram(k, got); if (got) throw Fail(cat("datagram '", shorten(d), "' was answered with '", shorten(r), "'")); }
        }
        void bye(Client & k, uint64_t mode) {
            if (prop() == "C21") return;
            if (k.fd < 0) return; size_t i = index_of(k); departed = true; ctx.hit("departures"); if (!k.exps.empty() || k.in.size() > k.in_pos) { ctx.hit("departures_in_mid_conversation"); ctx.mark(); }
            if (prop() == "C20") { // what of it took effect is uncertain
                for (auto & e : k.exps) if (e.kind == mm::K_SHINCR) ++shared.incr_lost; }
            if (mode % 3 == 1) { linger l{1, 0}; setsockopt(k.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
            if (mode % 3 == 2) { shutdown(k.fd, SHUT_WR); if (!s.ext) srv->pump(3); }
            close(k.fd); k.fd = -1;
            if (cs[i]->gen < 6 || prop() != "C20") open_client(i); else { k.fd = -1; k.exps.clear(); k.out.clear(); k.out_pos = 0; if (cs.size() > 1) cs.erase(cs.begin() + long(i)); else { k.gen = 0; open_client(i); } }
        }
        // whatever follows a quit is neither executed nor answered
        static Exp quit_with_tail(uint64_t how, const std::string & key) {
            Exp e = Model::quit(); switch (how % 7) { case 1: e.text += "version\r\n"; break; case 2: e.text += "delete " + key + "\r\n"; break; case 3: e.text += "set " + key + " 0 0 4\r\nquit\r\n"; break; case 5: e.text += "flush_all\r\nincr " + key + " 1\r\ndelete " + key + " noreply\r\n"; break; case 6: e.text += "set " + key + " 1 0 9\r\nunfin"; break; default: break; }
            return e;
        }
        // an orderly quit behind whatever is under way: the client reads late and must still get every reply
        void quit_late(Client & k, const Op & o) {
            if (k.fd < 0) return; size_t i = index_of(k), chunk = size_t(std::max<uint64_t>(o.a[1], 1)); if (k.gen >= 6) return;
            k.queue(Model::quit()); double t0 = real_now(); size_t tries = 0;
            // a server that waits for the client to read does not take more requests: then some has to be read first
            while (k.out.size() > k.out_pos && !k.eof) { size_t n = k.send_some(1 << 20) + (s.ext ? 0 : srv->pump(5)); if (n) { t0 = real_now(); tries = 0; continue; } if (s.ext) Runner::nap(1); if (++tries > 3) { size_t m = k.receive(chunk); k.match(); if (m) { t0 = real_now(); tries = 0; } } srv->check_alive(); if (real_now() - t0 > (s.ext ? 20 : 5)) throw Fail("the server does not take a quit"); }
            if (s.ext) Runner::nap(2); else pump_idle();
            t0 = real_now(); while (!k.eof) { size_t n = k.receive(chunk) + (s.ext ? 0 : srv->pump(o.a[2] % 7 + 1)); k.match(); if (n) t0 = real_now(); else { srv->check_alive(); if (real_now() - t0 > (s.ext ? 20 : 5)) throw Fail(k.outstanding() ? "a reply to a client that said quit is missing" : "the connection of a client that said quit is not closed"); if (s.ext) { pollfd p{k.fd, POLLIN, 0}; poll(&p, 1, 20); } else Runner::nap(1); } }
            k.match(); if (k.outstanding() || k.in_pos < k.in.size()) throw Fail("the connection was closed in the middle of the replies owed before quit"); ctx.hit("late_quits"); ctx.mark();
            close(k.fd); k.fd = -1; open_client(i);
        }
        void finish() {
            if (prop() == "C13") { check_protected(); return; }
            if (daemon && daemon->reaped) return; if (filled) { srv->check_alive(); return; }
            settle(); srv->check_alive();
            if (prop() == "C20") { seg = 0; for (auto & p : cs) { std::vector<uint64_t> all; for (uint64_t i = 0; i < nkeys; ++i) all.push_back(i); p->queue(p->model->get(true, all)); } drain_all(); final_shared(); if (nclients > 1) ctx.mark(); return; }
            // everything is as the model says
            Client & k = *cs[0]; seg = 0; for (uint64_t i = 0; i < nkeys; ++i) { submit(k, common->get(true, {i})); if (transport == T_UDP) udp_collect(); }
            if (!tight && !(prop() == "C14")) submit(k, common->stats());
            submit(k, common->version()); settle();
            if (prop() == "C07") { // nothing is left when the items are gone, whatever was refused, abandoned or evicted before
                for (uint64_t i = 0; i < nkeys; ++i) submit(k, common->del(i, true)); submit(k, common->version()); settle();
                if (!s.ext && !malloc_mode) { using cl::__stats__; uint64_t used = STAT_GET(mem, used_memory); if (used) throw Fail(cat(used, " bytes are in use after all the items were deleted")); ctx.hit("emptied_caches"); }
            }
        }
        void final_shared() {
            Client & a = *admin; pump_idle();
            // a departed client's last commands may still be under way in the daemon: they are before anything sent now only if the server has seen them
            Exp e; e.kind = mm::K_VERSION; e.text = "version\r\n"; a.queue(e); while (a.out.size() > a.out_pos) a.send_some(1 << 20); until([&] { a.match(); return !a.outstanding(); }, "the server does not answer");
            std::string cnt = fetch("shcount"), log = fetch("shlog"), blob = fetch("shblob"); uint64_t v = 0;
            if (!mm::parse_u64(cnt, v)) throw Fail(cat("shared counter holds '", shorten(cnt), "'"));
            uint64_t lo = shared.incr_sent - shared.incr_lost, hi = shared.incr_sent; if (v < lo || v > hi) throw Fail(cat("shared counter is ", v, " after ", lo, "..", hi, " increments"));
            if (!shared.blobs.count(blob)) throw Fail("shared item holds a value that nobody wrote");
            std::set<uint64_t> seen; size_t p = 0;
            while (p < log.size()) { size_t q = log.find('>', p); if (q == std::string::npos) throw Fail(cat("shared log is torn: '", shorten(log.substr(p)), "'")); std::string t = log.substr(p, q - p + 1); uint64_t id = strtoull(t.c_str() + 1, nullptr, 10); auto it = chunk_text.find(id); if (it == chunk_text.end() || it->second != t) throw Fail(cat("shared log holds '", shorten(t), "' which nobody appended")); if (!seen.insert(id).second) throw Fail(cat("chunk ", id, " was appended twice")); p = q + 1; }
            for (auto & kv : shared.chunks) if (kv.second == 1 && !seen.count(kv.first)) throw Fail(cat("confirmed chunk ", kv.first, " is missing from the shared log"));
        }
        std::string fetch(const std::string & key) {
            std::string q = "get " + key + "\r\n"; admin->out = q; admin->out_pos = 0; admin->in.clear(); admin->in_pos = 0; admin->send_some(1000); std::string in; double t0 = real_now();
            for (;;) { srv->pump(); char b[65536]; ssize_t n = recv(admin->fd, b, sizeof b, 0); if (n > 0) in.append(b, size_t(n)); size_t h = in.find("\r\n"); if (h != std::string::npos) { if (in.compare(0, 6, "VALUE ") != 0) throw Fail(cat("get ", key, " answered with '", shorten(in), "'")); uint64_t len = strtoull(in.c_str() + in.rfind(' ', h) + 1, nullptr, 10); if (in.size() >= h + 2 + len + 7) { if (in.substr(h + 2 + len) != "\r\nEND\r\n") throw Fail(cat("get ", key, " ended with '", shorten(in.substr(h + 2 + len)), "'")); return in.substr(h + 2, len); } } if (real_now() - t0 > 20) throw Fail(cat("no answer to get ", key)); if (n <= 0 && s.ext) Runner::nap(1); }
        }
    };

    void run(const Case & c, Ctx & ctx) override { signal(SIGPIPE, SIG_IGN); Exec e(*this, c, ctx); try { e.run(); } catch (const Fail & f) { plat::clock_owned = false; throw Fail(cat("op ", e.opno, e.opno < c.size() ? " (" + shorten(op_text(NAMES, c[e.opno]), 120) + ")" : " (end)", ": ", f.msg)); } plat::clock_owned = false; }
    std::string rule() const override {
        std::string r = std::string(ext ? "Each case starts the cachelotd executable with a random configuration and runs a random history of client actions against it on loopback or unix sockets; " : "Each case runs a random history of client actions on real sockets against the server objects, whose reactor is polled by the harness; ");
        if (prop == "C11" || prop[1] == '0') r += "non-trivial: at least five commands with hits, misses and stores."; else if (prop == "C12") r += "non-trivial: a stream cut into more than one segment."; else if (prop == "C13") r += "non-trivial: at least one block of generated bytes delivered.";
        else if (prop == "C14") r += "non-trivial: at least one answered datagram."; else if (prop == "C15") r += "non-trivial: at least one stats command or statistics signal compared with the history."; else if (prop == "C20") r += "non-trivial: more than one client connected."; else if (prop == "C19") r += "the configuration is spelled in one of several notations or made invalid; non-trivial: every case (a start that must succeed and serve, up to filling every page, or must be refused)."; else if (prop == "C21") r += "non-trivial: a statistics or termination signal, or a start that must fail.";
        return r;
    }
};

int main(int argc, char ** argv) {
    Options o = parse_args(argc, argv);
    NetSuite s(o.prop, o.variant);
    Runner r(s, o);
    return r.main();
}
