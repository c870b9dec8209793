"""The interleaved benchmark script as a black box over a scripted benchmark program."""
import csv
import json
import os
import re
import shutil
import statistics
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vhpy as vh  # noqa: E402
from vhpy import check, count, fail, note, sample, state  # noqa: E402

LABELS = ["p0", "p50", "p95", "p99", "p99_9", "p99_99"]
OPS = ["insert", "find", "erase"]
# logs its arguments, then answers as the n-th line of the plan says
FAKE = r'''#!/bin/sh
d=$(dirname "$0")
n=$(cat "$d/n")
echo $((n + 1)) > "$d/n"
{ printf '%s\037' "$TASK" "$@"; echo; } >> "$d/log"
cat "$d/out.$n"
[ -f "$d/err.$n" ] && cat "$d/err.$n" >&2
exit "$(cat "$d/rc.$n")"
'''
TASKSET = r'''#!/bin/sh
# taskset -c CORE COMMAND...
[ "$1" = -c ] || exit 77
TASK="$2"; export TASK
shift 2
exec "$@"
'''


def perf(r, scale, coarse=False):
    res = {}
    for op in OPS:
        if coarse:  # many equal values
            res[op] = dict(zip(LABELS, sorted(r.choice([10, 10.0, 20, 30.5]) for _ in range(6))))
            continue
        v = sorted(round(r.uniform(0.5, 20) * scale * (1 + r.random() * (3 ** i)), r.randint(1, 4)) for i in range(6))
        res[op] = dict(zip(LABELS, v))
    return res


class Run:
    def __init__(self, args, answers, env=None, binary=None):
        """answers: list of (stdout, stderr, exit code), one for each call of the benchmark program"""
        self.dir = tempfile.mkdtemp(prefix="c30-")
        try:
            d = self.dir
            os.mkdir(d + "/bin")
            for name, text in (("bench", FAKE), ("bin/taskset", TASKSET)):
                with open(f"{d}/{name}", "w") as f:
                    f.write(text)
                os.chmod(f"{d}/{name}", 0o755)
            open(d + "/n", "w").write("0\n")
            for i, (o, e, rc) in enumerate(answers):
                open(f"{d}/out.{i}", "w").write(o)
                open(f"{d}/rc.{i}", "w").write(f"{rc}\n")
                if e:
                    open(f"{d}/err.{i}", "w").write(e)
            e = dict(os.environ, PATH=d + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), PYTHONIOENCODING="utf-8", TASK="",
                     PYTHONDONTWRITEBYTECODE="1")
            e.update(env or {})
            script = os.path.join(vh.ARGS.repo, "scripts", "interleaved_btree_benchmark.py")
            args = [a.replace("@", d) for a in args]
            note(" ".join(args))
            p = subprocess.run([sys.executable, script] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=d, timeout=300,
                               stdin=subprocess.DEVNULL)
            self.rc, self.out, self.err = p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
            self.calls = []
            if os.path.exists(d + "/log"):
                for line in open(d + "/log").read().splitlines():
                    f = line.split("\037")[:-1]
                    self.calls.append((f[0], f[1:]))
            self.csv = self.json = None
            if os.path.exists(d + "/r.csv"):
                self.csv = list(csv.DictReader(open(d + "/r.csv", newline="")))
            if os.path.exists(d + "/r.json"):
                self.json = json.load(open(d + "/r.json"))
            count("script_runs")
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def effective(argv):
    """What the benchmark program understands: options with their last value, and the benchmark named."""
    o = {"-r": "true", "-j": False}
    names, i = [], 0
    canon = {"--iterations": "-i", "--tree-size": "-t", "--batches": "-b", "--batch-size": "-s", "--seed": "-d", "--record-rampup": "-r", "--json": "-j"}
    while i < len(argv):
        a = argv[i]
        v = None
        if a.startswith("--") and "=" in a:
            a, v = a.split("=", 1)
        a = canon.get(a, a)
        if a == "-j":
            o["-j"] = True
        elif a.startswith("-"):
            if v is None:
                i += 1
                v = argv[i] if i < len(argv) else ""
            o[a] = v
        else:
            names.append(a)
        i += 1
    o["-r"] = {"1": "true", "0": "false", "yes": "true", "no": "false", "on": "true", "off": "false"}.get(o["-r"], o["-r"])
    return o, names


class Plan:
    def __init__(self, r):
        n = r.randint(1, 5)
        pool = ["btree_8_32_96_128_linear", "btree_8_32_96_128_simd", "btree_8_32_96_128_linear_hp", "absl_8_32", "map_8_32", "x", "unordered_dense_8_256"]
        self.configs = r.sample(pool, n)
        self.passes = r.randint(2, 7)
        self.given = dict(i=r.choice([None, r.randint(1, 50)]), t=r.choice([None, r.randint(1, 10**7)]), b=r.choice([None, r.randint(0, 500)]),
                          s=r.choice([None, r.randint(0, 10**5)]), d=r.choice([None, 0, r.randint(0, 2**40)]), core=r.choice([None, None, 0, r.randint(0, 31)]),
                          ramp=r.random() < 0.6)
        self.use_default_passes = r.random() < 0.05
        if self.use_default_passes:
            self.passes = 10
        self.want = []  # (config, performance) in calling order
        same = r.random() < 0.15
        scale = {c: r.choice([1, 1, 5, 30, 1000]) for c in self.configs}
        coarse = r.random() < 0.25
        fixed = {c: perf(r, scale[c], coarse) for c in self.configs}
        for p in range(1, self.passes + 1):
            for c in (self.configs if p % 2 else list(reversed(self.configs))):
                self.want.append((c, fixed[c] if same else perf(r, scale[c], coarse)))
        self.extra = [{"config": c, "iterations": r.randint(1, 9), "total_cycles": {o: r.randint(0, 2**50) for o in OPS + ["iterate"]}} for c, _ in self.want]

    def answers(self):
        return [(json.dumps(dict(e, performance=p), indent=r), "", 0) for (c, p), e, r in zip(self.want, self.extra, [2, None] * len(self.want))]

    def args(self, r):
        g = self.given
        o = [["-c"] + self.configs if r.random() < 0.5 else ["--configs"] + self.configs, [r.choice(["-b", "--binary"]), "@/bench"]]
        if not self.use_default_passes:
            o.append([r.choice(["-p", "--passes"]), str(self.passes)])
        for k, names in dict(i=["-i", "--iterations"], t=["-t", "--tree-size"], b=["--batches"], s=["--batch-size"], d=["-d", "--seed"], core=["--taskset"]).items():
            if g[k] is not None:
                o.append([r.choice(names), str(g[k])])
        if not g["ramp"]:
            o.append(["--no-record-rampup"])
        r.shuffle(o)
        return [x for p in o for x in p]

    def check_calls(self, calls, n=None):
        g = self.given
        want = dict(i=g["i"] or 1, t=g["t"] or 1000000, b=100 if g["b"] is None else g["b"], s=1000 if g["s"] is None else g["s"], d=42 if g["d"] is None else g["d"])
        n = len(self.want) if n is None else n
        check(len(calls) == n, lambda: f"{len(calls)} runs of the benchmark program, {n} expected")
        for k, (task, argv) in enumerate(calls):
            o, names = effective(argv)
            check(names == [self.want[k][0]], lambda: f"run {k + 1} is of {names}, {self.want[k][0]} was its turn")
            check(o["-j"], "JSON output not asked for")
            for x, v in want.items():
                check(o.get("-" + x) == str(v), lambda: f"run {k + 1}: -{x} {o.get('-' + x)}, {v} asked for: {argv}")
            check(o["-r"] == ("true" if g["ramp"] else "false"), lambda: f"run {k + 1}: recording of the ramp is {o['-r']}: {argv}")
            check(task == ("" if g["core"] is None else str(g["core"])), f"run {k + 1} is pinned to core {task!r}, {g['core']} asked for")
            check(set(o) <= {"-j", "-i", "-t", "-b", "-s", "-d", "-r"}, lambda: f"run {k + 1}: other options: {argv}")
            count("calls_checked")

    def by_config(self):
        d = {}
        for c, p in self.want:
            d.setdefault(c, []).append(p)
        return d


def near(a, b, tol):
    return abs(a - b) <= tol + 1e-9 * abs(b)


def check_tables(plan, out):
    data = plan.by_config()
    for op in OPS:
        for metric, title in (("p99_9", "P99.9"), ("p50", "P50")):
            m = re.search(r"^%s %s [^\n]*COMPARISON\n=+\n(.*?)\n=+\n" % (op.upper(), re.escape(title)), out, re.S | re.M)
            check(m, f"no table for {op} {metric}")
            rows = [l for l in m.group(1).splitlines() if l.strip() and not l.startswith(("Config", "-"))]
            check(len(rows) == len(data), lambda: f"{op} {metric}: {len(rows)} rows for {len(data)} configurations")
            meds = {c: statistics.median(x[op][metric] for x in v) for c, v in data.items()}
            best = min(meds.values())
            seen, last = set(), None
            for k, row in enumerate(rows):
                f = row.replace("⭐", " * ").split()
                star = f[0] == "*"
                f = f[1:] if star else f
                c = f[0]
                check(c in data and c not in seen, lambda: f"{op} {metric}: row for {c}")
                seen.add(c)
                v = [x[op][metric] for x in data[c]]
                med = meds[c]
                check(star == (k == 0), f"{op} {metric}: the mark of the winner is on the wrong row")
                check(int(f[1]) == len(v), f"{op} {metric} {c}: {f[1]} passes, {len(v)} were made")
                for got, want, d, what in ((f[2], med, 0.0501, "median"), (f[3], min(v), 0.0501, "minimum"), (f[4], max(v), 0.0501, "maximum"),
                                           (f[5], statistics.stdev(v), 0.00501, "deviation")):
                    check(near(float(got), want, d), f"{op} {metric} {c}: {what} {got}, the values {v} have {want}")
                if k == 0:
                    check(f[6] == "baseline", f"{op} {metric}: the best row shows {f[6]}")
                    check(med == best, f"{op} {metric}: {c} leads with {med}, best is {best}")
                else:
                    check(f[6].endswith("%") and near(float(f[6][:-1]), (med - best) / best * 100, 0.00501), f"{op} {metric} {c}: {f[6]} against {best}, median {med}")
                check(last is None or med >= last, f"{op} {metric}: rows are not in order")
                last = med
                count("rows_checked")
            tail = out[m.end():]
            w = re.match(r"\s*🏆 Winner: (\S+)\s+Variance analysis:\s+Range: ([\d.]+) ns \(([\d.]+)%\)\s+StdDev: ([\d.]+) ns \(([\d.]+)%\)", tail)
            check(w and meds.get(w.group(1)) == best, f"{op} {metric}: winner {w and w.group(1)}")
            v = [x[op][metric] for x in data[w.group(1)]]
            for got, want, d in ((w.group(2), max(v) - min(v), 0.0501), (w.group(3), (max(v) - min(v)) / best * 100, 0.00501),
                                 (w.group(4), statistics.stdev(v), 0.00501), (w.group(5), statistics.stdev(v) / best * 100, 0.00501)):
                check(near(float(got), want, d), f"{op} {metric}: analysis of {w.group(1)} says {got}, the values have {want}")
        # the percentiles of the pass whose P99.9 is the median one
        m = re.search(r"DETAILED PERCENTILES - (\S+) \(P99\.9 Winner for %s\)\n=+\n(.*?)\n=+" % op.upper(), out, re.S)
        check(m, f"no detailed percentiles for {op}")
        meds = {c: statistics.median(x[op]["p99_9"] for x in v) for c, v in data.items()}
        check(meds.get(m.group(1)) == min(meds.values()), f"{op}: details of {m.group(1)}, which is not the winner")
        got = [float(x) for x in re.findall(r"P[\d.]+:\s+(-?[\d.]+) ns", m.group(2))]
        v = sorted(data[m.group(1)], key=lambda x: x[op]["p99_9"])
        mid = {v[(len(v) - 1) // 2][op]["p99_9"], v[len(v) // 2][op]["p99_9"]}
        fits = [x for x in v if x[op]["p99_9"] in mid and len(got) == 6 and all(near(g, x[op][l], 0.00501) for g, l in zip(got, LABELS))]
        check(fits, lambda: f"{op}: the detailed percentiles {got} are not those of the median pass of {m.group(1)}: {[x[op] for x in v]}")
        count("details_checked")


@vh.scenario("report", 120, 2500)
def _(r):
    plan = Plan(r)
    args = plan.args(r)
    want_csv, want_json = r.random() < 0.6, r.random() < 0.6
    if want_csv:
        args += ["--csv", "@/r.csv"]
    if want_json:
        args += ["--json", "@/r.json"]
    x = Run(args, plan.answers())
    check(x.rc == 0, f"exit {x.rc}: {(x.out + x.err)[-400:]}")
    plan.check_calls(x.calls)
    check_tables(plan, x.out)
    data = plan.by_config()
    check((x.csv is not None) == want_csv and (x.json is not None) == want_json, "files exported that were not asked for, or the reverse")
    if want_csv:
        check(sorted(row["config"] for row in x.csv) == sorted(data), "the CSV file has other configurations")
        for row in x.csv:
            v = data[row["config"]]
            check(int(row["passes"]) == len(v), "CSV: passes")
            for op in OPS:
                s = [p[op]["p99_9"] for p in v]
                for k, want in (("median", statistics.median(s)), ("min", min(s)), ("max", max(s)), ("stdev", statistics.stdev(s))):
                    check(near(float(row[f"{op}_p99_9_{k}"]), want, 1e-6 * max(1, want)), f"CSV: {row['config']} {op} {k} {row[f'{op}_p99_9_{k}']}, {want} expected")
        count("csv_files")
    if want_json:
        raw = {}
        for (c, p), e in zip(plan.want, plan.extra):
            raw.setdefault(c, []).append(dict(e, performance=p))
        check(x.json == raw, "the raw results exported are not what the program printed, in the order of the passes")
        count("json_files")
    state(len(plan.configs), plan.passes, tuple(k for k, v in plan.given.items() if v is not None), want_csv, want_json)


@vh.scenario("trouble", 60, 800)
def _(r):
    plan = Plan(r)
    ans = plan.answers()
    kind = r.randrange(5)
    k = r.randrange(len(ans))
    n, what = k + 1, ""
    if kind == 0:
        ans[k] = (r.choice(["", ans[k][0]]), "it went wrong because of 4711\n", r.choice([1, 2, 77, 134]))
        what = "the program fails"
    elif kind == 1:
        ans[k] = (r.choice(["", "no json\n", ans[k][0][:-1], "Leaf pool stats:\n" + ans[k][0]]), "", 0)
        what = "the program prints something else"
    elif kind == 2:
        j = json.loads(ans[k][0])
        where = r.choice(["top", "op", "value"])
        if where == "top":
            del j["performance"]
        elif where == "op":
            del j["performance"][r.choice(OPS)]
        else:
            del j["performance"][r.choice(OPS)][r.choice(["p50", "p99_9"])]
        ans[k] = (json.dumps(j), "", 0)
        n, what = len(ans), "the results lack something"
    elif kind == 3:
        plan.passes = r.choice([1, 0, -3])
        plan.use_default_passes = False
        n, what = 0, "too few passes to interleave"
    args = plan.args(r)
    if kind == 4:
        args = [a.replace("@/bench", "@/none") for a in args]
        n, what = 0, "no such program"
    x = Run(args + ["--csv", "@/r.csv", "--json", "@/r.json"], ans)
    check(x.rc != 0, f"{what}: success reported")
    check("Benchmark complete" not in x.out, f"{what}: completion reported")
    if kind == 0:
        check("4711" in x.out + x.err, "the program's error output is lost")
    check(x.csv is None, f"{what}: a CSV file is written")
    if kind == 2 and k + 1 <= len(x.calls) <= n:
        n = len(x.calls)  # when this is noticed is the script's affair
    plan.check_calls(x.calls, n)
    count("troubles")
    state("trouble", kind, len(plan.configs), k)


@vh.scenario("real", 6, 60)
def _(r):
    # the benchmark program itself
    if not vh.ARGS.bin:
        return
    rc = subprocess.run([vh.ARGS.bin, "--help"], stdout=subprocess.PIPE).stdout.decode()
    names = re.findall(r"^\s+((?:btree|absl|map|unordered_map|unordered_dense)_\w+)\s*$", rc, re.M)
    configs = r.sample(names, 3)
    t = r.randint(20, 300)
    args = ["-b", vh.ARGS.bin, "-c"] + configs + ["-p", "3", "-t", str(t), "--batches", "2", "--batch-size", str(r.randint(1, t)), "--json", "@/r.json"]
    if r.random() < 0.5:
        args.append("--no-record-rampup")
    x = Run(args, [])
    check(x.rc == 0, f"exit {x.rc} with the real program: {(x.out + x.err)[-600:]}")
    check(x.json and sorted(x.json) == sorted(configs) and all(len(v) == 3 and all(p["config"] == c for p in v) for c, v in x.json.items()),
          "results of the real program are incomplete")
    count("real_runs")


if __name__ == "__main__":
    sys.exit(vh.main())
