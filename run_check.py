#!/usr/bin/env python3
"""Runs one check: compiles its workload drivers against /repo's current
working tree (one binary per instrumentation), drives them in parallel shards,
and turns what the monitors observed into a verdict and an evidence file.

exit 0  property held on everything explored
exit 1  + "VIOLATION property=<id> replay=<path>": a monitor saw it broken
exit 2  no verdict (harness does not compile, observed nothing, out of memory)
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "checks"))
import spec  # noqa: E402

NPROC = min(8, os.cpu_count() or 8)

COMMON = ["-std=c++23", "-fno-omit-frame-pointer", "-w",
          f"-I{REPO}/include", f"-I{HERE}/harness"]
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-D_GLIBCXX_ASSERTIONS",
       "-U_FORTIFY_SOURCE",  # the fortified copies are not intercepted, so overlaps went unseen
       "-ftrivial-auto-var-init=pattern"]  # indeterminate locals hold a recognisable pattern
CONFIGS = {
    # name: (compiler, compile flags, link flags)
    "san": ("g++-14", SAN, ["-fsanitize=address,undefined"]),
    "sanavx": ("g++-14", SAN + ["-mavx2"], ["-fsanitize=address,undefined"]),
    "sanstats": ("g++-14", SAN + ["-DALLOCATOR_STATS"], ["-fsanitize=address,undefined"]),
    "rel": ("g++-14", ["-O3", "-g1", "-mavx2", "-DNDEBUG"], []),
    "relhw": ("g++-14", ["-O3", "-g0", "-march=haswell", "-funroll-loops", "-DNDEBUG"], []),
    "relscalar": ("g++-14", ["-O2", "-g1", "-DNDEBUG"], []),
    "tsan": ("g++-14", ["-O1", "-g1", "-fsanitize=thread", "-mavx2", "-DNDEBUG", "-U_FORTIFY_SOURCE"], ["-fsanitize=thread"]),
    "tsanstats": ("g++-14", ["-O1", "-g1", "-fsanitize=thread", "-DALLOCATOR_STATS", "-U_FORTIFY_SOURCE"], ["-fsanitize=thread"]),
    "clang": ("clang++-18", ["-O1", "-g1", "-fsanitize=address,undefined",
                             "-fno-sanitize-recover=all", "-U_FORTIFY_SOURCE"], ["-fsanitize=address,undefined"]),
}
WRAP = ["-Wl,--wrap=mmap,--wrap=munmap,--wrap=madvise"]

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("exitcode=43:detect_leaks=1:detect_stack_use_after_return=1:"
                       "check_initialization_order=1:strict_init_order=1:"
                       "hard_rss_limit_mb=3500:malloc_context_size=10:"
                       "allocator_may_return_null=1:detect_odr_violation=0")
ENV["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=43"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=43:second_deadlock_stack=1"
ENV["LSAN_OPTIONS"] = "exitcode=43"


def die(msg):
    print(f"CHECK-ERROR: {msg}", flush=True)
    sys.exit(2)


def run_cmd(cmd, timeout, env=None, cpu=None, cwd=None):
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=env or ENV, preexec_fn=pre,
                             cwd=cwd, stdin=subprocess.DEVNULL)
        with LIVE_LOCK:
            LIVE.add(p)
        timed_out = False
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            kill(p)
            rc = p.wait()
        finally:
            with LIVE_LOCK:
                LIVE.discard(p)
        fo.seek(0)
        fe.seek(0)
        out = fo.read().decode("utf-8", "replace")
        fe_data = fe.read()
        if len(fe_data) > 400000:
            fe_data = fe_data[:200000] + b"\n...\n" + fe_data[-200000:]
        return rc, out, fe_data.decode("utf-8", "replace"), timed_out


LIVE = set()
LIVE_LOCK = threading.Lock()
STOP = threading.Event()


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def kill_all():
    with LIVE_LOCK:
        for p in list(LIVE):
            kill(p)


def build(exes, bdir):
    """Compile all translation units of all executables in parallel, link."""
    jobs = []
    for e in exes:
        cc, cflags, lflags = CONFIGS[e["cfg"]]
        e["objs"] = []
        srcs = list(e["srcs"]) + ([] if e.get("py") else ["main.cpp"])
        for i, s in enumerate(srcs):
            extra = []
            if isinstance(s, tuple):
                s, extra = s[0], list(s[1])
            obj = os.path.join(bdir, f"{e['name']}_{i}_{os.path.basename(s)}.o")
            e["objs"].append(obj)
            flags = cflags
            cmd = [cc] + COMMON + flags + e.get("cflags", []) + extra + \
                  ["-c", os.path.join(HERE, "checks", s), "-o", obj]
            # big units first
            jobs.append((0 if s != "main.cpp" else 1, cmd))
        e["bin"] = os.path.join(bdir, e["name"])
        e["link"] = [cc] + e["objs"] + lflags + e.get("ldflags", []) + ["-pthread", "-o", e["bin"]]
    jobs.sort(key=lambda j: j[0])

    def one(cmd):
        rc, out, err, to = run_cmd(cmd, 600)
        return cmd, rc, err, to
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for cmd, rc, err, to in ex.map(one, [j[1] for j in jobs]):
            if rc != 0:
                sys.stderr.write(err[-6000:] + "\n")
                die(f"harness does not compile ({'timeout' if to else rc}): {' '.join(cmd[-4:])}")
        for cmd, rc, err, to in ex.map(one, [e["link"] for e in exes]):
            if rc != 0:
                sys.stderr.write(err[-4000:])
                die("harness does not link")


def classify(rc, err, timed_out):
    """-> (kind, message); kind in ok, violation, hang, error"""
    if rc == 0 and not timed_out:
        return "ok", ""
    if timed_out or rc == -signal.SIGXCPU or rc == 44 or "HANG-WATCHDOG" in err:
        return "hang", "no progress: operation does not terminate"
    m = re.search(r"MONITOR-VIOLATION (.*)", err)
    if m:
        return "violation", m.group(1).strip()
    if rc == 3 and "HARNESS-ERROR" in err:
        return "error", re.search(r"HARNESS-ERROR.*", err).group(0)
    for pat in (r"SUMMARY: \w+Sanitizer: (.*)", r"(ERROR: \w+Sanitizer: [^\n]*)",
                r"([^\n]*runtime error: [^\n]*)", r"(WARNING: ThreadSanitizer: [^\n]*)",
                r"([^\n]*Assertion [^\n]* failed[^\n]*)", r"(terminate called[^\n]*\n?[^\n]*)"):
        m = re.search(pat, err)
        if m:
            return "violation", "sanitizer/abort report: " + " ".join(m.group(1).split())
    if "hard rss limit exhausted" in err:
        return "violation", "unbounded memory growth"
    if rc < 0 and rc != -signal.SIGKILL:
        return "violation", f"died with signal {-rc}"
    if rc in (42, 43):
        return "violation", f"exit {rc}: " + err.strip()[-200:]
    return "error", f"exit {rc}: " + err.strip()[-300:]


def where(progress, err):
    m = re.search(r"(?:MONITOR-VIOLATION|ABNORMAL-END.*?|HANG-WATCHDOG) ?scenario=(\S+) case=(\d+)", err)
    if m:
        return m.group(1), int(m.group(2))
    try:
        parts = open(progress).read().split()
        return parts[0], int(parts[1])
    except (OSError, IndexError, ValueError):
        return None, None


def load_known(prop):
    known = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known.append((re.compile(m.group(2)), m.group(3)))
    return known


def norm_key(scn, msg):
    msg = re.sub(r"0x[0-9a-f]+", "PTR", msg)
    msg = re.sub(r"(case|step)=\d+", r"\1=N", msg)
    return re.sub(r"\s+", "_", f"{scn}:{msg}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep", help="build into this directory and keep it")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.prop not in spec.CHECKS:
        die(f"unknown property {a.prop}")
    chk = spec.CHECKS[a.prop]
    thorough = a.tier == "thorough"
    t0 = time.time()
    exes = [dict(e) for e in chk["exes"] if thorough or not e.get("thorough_only")]
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        exes = [e for e in exes if e["name"] == rep["exe"]] or \
               [dict(e) for e in chk["exes"] if e["name"] == rep["exe"]]
        if not exes:
            die("replay: unknown executable")
    bdir = a.keep or tempfile.mkdtemp(prefix=f"vc-{a.prop}-")
    os.makedirs(bdir, exist_ok=True)
    try:
        rc = go(a, chk, exes, bdir, thorough, rep, t0)
    finally:
        kill_all()
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)


def go(a, chk, exes, bdir, thorough, rep, t0):
    build([e for e in exes if e.get("srcs")], bdir)

    def base_cmd(e):
        if e.get("py"):   # a driver in Python, possibly of a program built here
            return [sys.executable, os.path.join(HERE, "checks", e["py"]), "--repo", REPO] + \
                (["--bin", e["bin"]] if "bin" in e else [])
        return [e["bin"]]
    t_build = time.time() - t0
    env = ENV
    if rep:
        e = exes[0]
        cmd = base_cmd(e) + ["--seed", str(rep["seed"]), "--scenario", rep["scenario"], "--case",
               str(rep["case"]), "--verbose"] + (["--thorough"] if rep["tier"] == "thorough" else [])
        rc, out, err, to = run_cmd(cmd, 900, env, cwd=bdir)
        sys.stderr.write(err[-20000:])
        kind, msg = classify(rc, err, to)
        print("replay:", kind, msg)
        if kind == "violation" or kind == "hang":
            print(f"VIOLATION property={a.prop} replay={os.path.abspath(a.replay)}")
            return 1
        return 0 if kind == "ok" else 2

    tasks = []
    for e in exes:
        n = e.get("shards_thorough", 16) if thorough else e.get("shards", 8)
        for s in range(n):
            tasks.append((e, s, n))
    # long-running executables first
    tasks.sort(key=lambda t: -t[0].get("cost", 1))
    known = load_known(a.prop)
    results, bad, errors, hits = [], [], [], {}
    lock = threading.Lock()
    wall = 3 * 3600 if thorough else 600

    def cmdline(e, s, n, extra=()):
        cmd = base_cmd(e) + ["--seed", str(a.seed), "--scale", str(a.scale)]
        if n:
            cmd += ["--shard", str(s), "--nshards", str(n)]
        if thorough:
            cmd.append("--thorough")
        return cmd + list(extra)

    def one(task):
        e, s, n = task
        skips = []
        lenv = env
        retried_leak = retried_kill = False
        while not STOP.is_set():
            prog = os.path.join(bdir, f"{e['name']}.{s}.progress")
            extra = ["--progress", prog]
            for k in skips:
                extra += ["--skip", k]
            rc, out, err, to = run_cmd(cmdline(e, s, n, extra), wall, lenv,
                                       cwd=bdir)
            if STOP.is_set():
                return
            if "LeakSanitizer has encountered a fatal error" in err and not retried_leak:
                retried_leak = True
                lenv = dict(env)
                lenv["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
                continue
            if rc == -signal.SIGKILL and not to and not retried_kill:
                retried_kill = True   # out of memory: once more
                continue
            kind, msg = classify(rc, err, to)
            if kind == "ok":
                m = re.search(r"^RESULT (\{.*\})$", out, re.M)
                if not m:
                    with lock:
                        errors.append(f"{e['name']} shard {s}: no RESULT line")
                    return
                with lock:
                    results.append((e, json.loads(m.group(1))))
                return
            scn, case = where(prog, err)
            if kind == "hang":
                # inconclusive once; the same case alone decides
                if scn is None:
                    with lock:
                        errors.append(f"{e['name']} shard {s}: timed out before any case")
                    return
                rc2, _, err2, to2 = run_cmd(
                    cmdline(e, 0, 0, ["--scenario", scn, "--case", str(case)]), 300, lenv, cwd=bdir)
                k2, m2 = classify(rc2, err2, to2)
                if k2 == "ok":
                    with lock:
                        errors.append(f"{e['name']} shard {s}: timed out at {scn}:{case}, "
                                      "which terminates when run alone")
                    return
                if k2 == "violation":
                    kind, msg, err = k2, m2, err2
            if kind == "error":
                with lock:
                    errors.append(f"{e['name']} shard {s}: {msg}")
                return
            key = norm_key(scn, msg)
            hit = next((t for rx, t in known if rx.search(key)), None)
            if hit is not None and scn is not None and len(skips) < 50:
                with lock:
                    hits[hit] = hits.get(hit, 0) + 1
                skips.append(f"{scn}:{case}")
                continue
            with lock:
                bad.append(dict(property=a.prop, exe=e["name"], scenario=scn, case=case,
                                seed=a.seed, tier="thorough" if thorough else "quick",
                                key=key, message=msg, log=err[-12000:]))
            STOP.set()
            kill_all()
            return

    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, tasks))

    counters, per, samples, states = {}, {}, [], set()
    evaluations = 0
    for e, r in results:
        evaluations += r["done"]
        for k, v in r["counters"].items():
            if k.startswith("max_"):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
        for k, v in r["per_scenario"].items():
            kk = f"{e['name']}/{k}"
            per[kk] = per.get(kk, 0) + v
        for s_ in r["samples"]:
            if len(samples) < 12:
                samples.append(f"[{e['name']}] {s_}")
        states.update(r["states"])
    for t in hits:
        print(f"KNOWN-FINDING: property={a.prop} {t}", flush=True)
    missing = [c for c in chk.get("required", []) if not counters.get(c)]
    truncated = any(r["truncated"] for _, r in results)

    ev = {
        "property": a.prop,
        "tier": "thorough" if thorough else "quick",
        "seed": a.seed,
        "level": chk["level"],
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(states),
            "rule": chk["rule"],
            "samples": samples,
            "exhaustive": False,
            "observed_events": counters,
            "cases_per_scenario": per,
            "configurations": sorted({f"{e['name']}: {e.get('cfg', 'python')}" for e in exes}),
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    if bad:
        b = bad[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{a.prop}-{b['exe']}-{b['scenario']}-{b['case']}-{a.seed}.json")
        b["replay_cmd"] = f"python3 run_check.py {a.prop} --replay {path}"
        with open(path, "w") as f:
            json.dump(b, f, indent=1)
        print(f"{b['exe']}/{b['scenario']} case {b['case']}: {b['message']}")
        print(f"VIOLATION property={a.prop} replay={path}", flush=True)
        return 1
    if errors:
        die("; ".join(errors[:3]))
    if truncated:
        die("a shard was truncated")
    if evaluations == 0 or missing:
        die(f"the run observed nothing of: {missing or 'any case'}")
    print(f"ok property={a.prop} cases={evaluations} distinct={len(states)} "
          f"build={t_build:.1f}s wall={time.time() - t0:.1f}s", flush=True)
    if os.environ.get("VERIF_DEBUG"):
        print(json.dumps(counters, indent=1))
    return 0


if __name__ == "__main__":
    main()
