#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: builds the harnesses of one property from /repo's working tree, runs them,
writes evidence/<property>.json and reports VIOLATION lines.  check.py --build [all] only builds."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import specs  # noqa: E402

VERSION = {"cachelot_version_major": "?", "cachelot_version_minor": "?", "cachelot_version_patch": "?", "cachelot_version_extra": "unknown", "cachelot_version_hash": "XXX"}
BASE = ["-std=gnu++14", "-g1", "-w", "-DCACHELOT_PLATFORM_BITS=64", "-DHAVE_CONFIG_H=1", "-DBOOST_ALL_NO_LIB", "-pthread"]
VARIANTS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment", "-fno-omit-frame-pointer", "-DADDRESS_SANITIZER"],
    "server": ["-O1"],
}


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), HARNESS):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".cpp", ".hpp", ".c", ".in")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


def prepare_inc():
    d = os.path.join(BUILD, "inc", "cachelot")
    os.makedirs(d, exist_ok=True)
    for n in ("config.h", "version.h"):
        with open(os.path.join(REPO, "src", "cachelot", n + ".in")) as f:
            t = f.read()
        t = re.sub(r"#cmakedefine ", "#define ", t)
        t = re.sub(r"@(\w+)@", lambda m: VERSION.get(m.group(1), "Linux x64"), t)
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != t:
            tmp = p + ".%d.%d" % (os.getpid(), threading.get_ident())
            with open(tmp, "w") as f:
                f.write(t)
            os.replace(tmp, p)
    return os.path.join(BUILD, "inc")


def all_sources(top, *without):
    """every source file of the library or of the server: files may be added, split or merged"""
    found = []
    for d, dirs, files in sorted(os.walk(os.path.join(REPO, "src", top))):
        found += [os.path.join(d, f) for f in sorted(files) if f.endswith((".cpp", ".cc", ".cxx")) and f not in without]
    return found


def sources_of(suite):
    core = all_sources("cachelot")
    if suite == "cachelotd":
        return core + all_sources("server"), ["-lboost_program_options"]
    extra = all_sources("server", "main.cpp") if suite == "net_suite" else []
    return [os.path.join(HARNESS, suite + ".cpp")] + core + extra, []


INC_LOCK = threading.Lock()


class BuildError(Exception):
    pass


def build(suite, variant):
    """returns the path of the executable"""
    with INC_LOCK:
        inc = prepare_inc()
    out = os.path.join(BUILD, "%s-%s-%s" % (suite, variant, tree_hash()))
    exe = os.path.join(out, suite)
    if os.path.exists(exe):
        return exe
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    srcs, libs = sources_of(suite)
    flags = BASE + VARIANTS[variant] + ["-I" + inc, "-I" + os.path.join(REPO, "src"), "-I" + HARNESS]

    def one(i):
        o = os.path.join(tmp, "%d.o" % i)
        r = subprocess.run(["g++"] + flags + ["-c", srcs[i], "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(srcs[i] + "\n" + r.stdout[-4000:])
        return o
    try:
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, range(len(srcs))))
        r = subprocess.run(["g++"] + flags + objs + ["-o", os.path.join(tmp, suite)] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        for o in objs:
            os.unlink(o)
        try:
            os.rename(tmp, out)
        except OSError:
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # forget older builds of this suite
    for n in os.listdir(BUILD):
        if n.startswith("%s-%s-" % (suite, variant)) and os.path.join(BUILD, n) != out and ".tmp" not in n:
            shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
    return exe


def run_suite(prop, run, tier, seed, log):
    """one harness run; returns its result dictionary (rc 0/1)"""
    exe = build(run["suite"], run["variant"])
    env = dict(os.environ, ASAN_OPTIONS="abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=77:print_stacktrace=0")
    if run.get("server"):
        env["CACHELOTD"] = build("cachelotd", run["server"])
    out = os.path.join(BUILD, "out-%s-%s-%d.json" % (prop, run["name"], os.getpid()))
    cases = run["thorough"] if tier == "thorough" else run["quick"]
    cmd = [exe, "--prop", prop, "--variant", run["name"], "--seed", str(seed), "--cases", str(cases), "--tier", "1" if tier == "thorough" else "0",
           "--out", out, "--replay-dir", os.path.join(VERIF, "replays"), "--workers", str(run.get("workers", 8))]
    d = None
    for attempt in range(2):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        d = json.load(open(out)) if os.path.exists(out) else {"rc": 2, "message": "no result: " + r.stdout[-500:], "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "classes": {}, "replay": ""}
        if os.path.exists(out):
            os.unlink(out)
        if d["rc"] in (0, 1):
            break
        if attempt and d.get("replay"):
            # crashed (signal or sanitizer report, not an oracle's verdict) in both runs, though not on replay
            d.update(rc=1, message="crash of the code under test in two runs, not reproduced by the single case: " + d["message"])
            break
        log("%s/%s: inconclusive (%s)%s" % (prop, run["name"], d["message"], ", repeating" if attempt == 0 else ""))
    d["name"] = run["name"]
    d["cmd"] = " ".join(cmd)
    d["output"] = r.stdout[-2000:]
    return d


def known_findings(prop, results, log):
    """executes the recorded open findings of the property: each still fails in the recorded way (reported as known), passes, or fails differently (a violation)"""
    known = []
    if any(d["rc"] == 1 for d in results):
        return known
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"open: property=(\S+) replay=(\S+) tag=(\S+) (.*)", line)
        if not m or m.group(1) != prop:
            continue
        path = os.path.join(VERIF, m.group(2))
        r = replay(prop, path, capture=True)
        if r.returncode == 1 and m.group(3) in r.stdout:
            log("KNOWN-FINDING: property=%s %s" % (prop, m.group(4)))
            known.append(m.group(4))
        elif r.returncode == 1:
            results.append({"name": "known", "rc": 1, "message": r.stdout[-500:], "replay": path, "evaluations": 1, "distinct_nontrivial": 1, "rule": "recorded findings", "samples": [], "classes": {}})
    return known


def replay(prop, path, capture=False):
    head = open(path).readline().split()
    name = head[head.index("variant") + 1] if "variant" in head and head.index("variant") + 1 < len(head) else None
    run = [r for r in specs.SPECS[prop]["runs"] if r["name"] == name][0]
    env = dict(os.environ)
    if run.get("server"):
        env["CACHELOTD"] = build("cachelotd", run["server"])
    cmd = [build(run["suite"], run["variant"]), "--prop", prop, "--variant", name, "--replay", path]
    if capture:
        return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return subprocess.run(cmd, env=env).returncode


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        todo = sorted({(r["suite"], r["variant"]) for s in specs.SPECS.values() for r in s["runs"]} | {("cachelotd", r["server"]) for s in specs.SPECS.values() for r in s["runs"] if r.get("server")})
        with ThreadPoolExecutor(4) as ex:
            for x in ex.map(lambda sv: build(*sv), todo):
                print(x)
        return 0
    prop = args[0]
    if len(args) > 2 and args[1] == "--replay":
        return replay(prop, args[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = specs.SPECS[prop]
    t0 = time.time()

    def log(m):
        print(m, flush=True)
    try:
        results = []
        for r in spec["runs"]:
            results.append(run_suite(prop, r, tier, seed, log))
            if results[-1]["rc"] == 1:
                break  # decided
    except BuildError as e:
        log("check %s cannot be built from %s:\n%s" % (prop, REPO, e))
        return 3
    known = known_findings(prop, results, log)
    viol = [d for d in results if d["rc"] == 1]
    bad = [d for d in results if d["rc"] not in (0, 1)]
    cov = {"evaluations": sum(d["evaluations"] for d in results), "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in results),
           "rule": " || ".join("%s: %s" % (d["name"], d["rule"]) for d in results),
           "samples": [{"run": d["name"], "case": s} for d in results for s in d["samples"][:2]],
           "runs": [{"name": d["name"], "evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"], "classes": d["classes"], "wall_s": d.get("wall_s", 0)} for d in results]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol), "known_findings": known}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for d in viol:
        log("%s/%s: %s" % (prop, d["name"], d["message"]))
        log("VIOLATION property=%s replay=%s" % (prop, d["replay"]))
    if viol:
        return 1
    if bad:
        for d in bad:
            log("%s/%s gave no answer: %s\n%s" % (prop, d["name"], d["message"], d["output"]))
        return 2
    log("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
