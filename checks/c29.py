"""The benchmark program as a black box: a clock and containers of the monitor's own under it."""
import json
import os
import re
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vhpy as vh  # noqa: E402
from vhpy import check, count, fail, note, state  # noqa: E402

PCT = [0.0, 0.5, 0.95, 0.99, 0.999, 0.9999]
LABELS = ["p0", "p50", "p95", "p99", "p99_9", "p99_99"]


def run(args, clock=1, ratio=2.0, narrow=False):
    with tempfile.TemporaryDirectory() as d:
        log = os.path.join(d, "log")
        env = dict(os.environ, VH_LOG=log, VH_CLOCK=str(clock), VH_RATIO=repr(ratio))
        if narrow:
            env["VH_NARROW"] = "1"
            count("narrow_runs")
        note(" ".join(args))
        p = subprocess.run([vh.ARGS.bin] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300)
        rec = None
        if os.path.exists(log):
            rec = json.load(open(log))
        out, err = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
        check(p.returncode != 43, f"stopped by a sanitizer: {err[:600]}")
        count("runs")
        return p.returncode, out, err, rec


def names():
    rc, out, _, _ = run(["--help"])
    check(rc == 0, f"--help exits with {rc}")
    n = re.findall(r"^\s+((?:btree|absl|map|unordered_map|unordered_dense)_\d+_\d+\w*)\s*$", out, re.M)
    check(len(n) >= 2, "--help names no benchmarks")
    return n


def meaning(name):
    """What a name says it measures: {impl}_{key}_{value}[_{leaf}_{internal}_{mode}][_hp] -> acceptable descriptions."""
    m = re.fullmatch(r"(btree|absl|map|unordered_map|unordered_dense)_(\d+)_(\d+)(?:_(\d+)_(\d+)_(linear|binary|simd))?(_hp)?", name)
    if not m:
        return None
    impl, k, v, leaf, inner, mode, hp = m.groups()
    allocs = ["two_pool", "multi_size", "hugepage"] if hp else ["std"]
    if impl == "btree":
        return {f"btree {k} {v} {leaf} {inner} {mode} {a}" for a in allocs}
    if impl == "absl":
        return {f"absl {k} {v} {a}" for a in allocs}
    if impl == "unordered_dense":
        return {f"dense {k} {v}"}
    return {f"std::{impl} {k} {v}"}


def percentile(s, p):
    return s[min(int(p * len(s)), len(s) - 1)]


def near(a, b):
    return abs(a - b) <= 2e-5 * max(1.0, abs(a), abs(b))


class Opt:
    def __init__(self, r):
        self.t = r.choice([1, 2, r.randint(3, 60), r.randint(60, 400), r.randint(400, 1500)])
        self.b = r.randint(0, 4)
        self.s = r.choice([0, 1, self.t, r.randint(0, self.t), r.randint(0, min(20, self.t))])
        self.i = r.randint(1, 3)
        self.d = r.choice([0, 1, 42, r.randint(0, 2**32 - 1), r.randint(0, 10**6)])
        self.r = r.choice([True, True, False])
        if not self.r:
            self.b, self.s = max(self.b, 1), max(self.s, 1)
        self.ratio = r.choice([0.5, 1.0, 2.5, 3.4, 4.0])
        self.clock = r.randint(1, 10**9)
        self.narrow = r.random() < 0.25  # few different keys
        self.rnd = r

    def args(self):
        r = self.rnd
        o = [[r.choice(["-t", "--tree-size"]), str(self.t)], [r.choice(["-b", "--batches"]), str(self.b)],
             [r.choice(["-s", "--batch-size"]), str(self.s)], [r.choice(["-i", "--iterations"]), str(self.i)],
             [r.choice(["-d", "--seed"]), str(self.d)]]
        if not self.r or r.random() < 0.3:
            o.append([r.choice(["-r", "--record-rampup"]), "true" if self.r else "false"])
        r.shuffle(o)
        return [x for p in o for x in p]


def course(o):
    """The operations in the order described: kind and how many in a row."""
    r = []

    def add(k, n):
        if r and n and r[-2] == k:
            r[-1] += n
        elif n:
            r.extend([k, n])
    add(1, o.t)
    add(2, o.t)
    for _ in range(o.b):
        add(3, o.s)
        add(1, o.s)
        add(2, o.t)
    add(4, 1)
    add(3, o.t)
    return r


def check_workload(o, want_names, rec):
    """The containers used, in order, and the operations on each of them."""
    trees = rec["trees"]
    want = want_names * o.i
    # containers of the standard library show up only when something is found in them, neighbours merge
    probed = [t for t in trees if not t["desc"].startswith("std")]
    pwant = [n for n in want if not next(iter(meaning(n))).startswith("std")]
    check(len(probed) == len(pwant), lambda: f"{len(probed)} containers were measured, {len(pwant)} asked for: {[t['desc'] for t in probed]}")
    for n, t in zip(pwant, probed):
        check(t["desc"] in meaning(n), lambda: f"{n} measures '{t['desc']}', its name says {sorted(meaning(n))}")
        w = o.t + o.b * o.s
        check(t["ops"] == [w, o.t * (1 + o.b), w, 1], lambda: f"{n}: operations {t['ops']}, the options describe {[w, o.t * (1 + o.b), w, 1]}")
        check(t["misses"] == 0, f"{n}: {t['misses']} operations inserted twice, found nothing or erased nothing")
        check(t["runs"] == course(o), lambda: f"{n}: the operations came as {t['runs'][:40]}, described are {course(o)[:40]} (1 insert, 2 find, 3 erase, 4 walk)")
        check(t["other_finds"] == 0, f"{n}: {t['other_finds']} rounds of finds did not find all keys")
        check(t["foreign"] == 0, f"{n}: {t['foreign']} measured durations include the choice or the record of a key")
        check(t["last_size"] == 0, f"{n}: {t['last_size']} elements left")
        check(t["steps"] == [o.t], f"{n}: the walk made {t['steps']} steps over {o.t} elements")
        check((t["keys"], t["erased"]) == (probed[0]["keys"], probed[0]["erased"]), f"{n}: other keys than {probed[0]['desc']}")
        count("containers_checked")
    std = {t["desc"] for t in trees if t["desc"].startswith("std")}
    swant = {d for n in want for d in meaning(n) if d.startswith("std")}
    if o.t:
        check(std == swant, f"containers {sorted(std)} measured, {sorted(swant)} asked for")
    for d in swant:
        n = sum(d in meaning(x) for x in want)
        finds = sum(t["ops"][1] for t in trees if t["desc"] == d)
        # steps of the walk may or may not be recognisable
        check(n * o.t * (1 + o.b) <= finds <= n * (o.t * (1 + o.b) + o.t), f"{d}: {finds} finds and steps")
    hp = any(n.endswith("_hp") for n in want)
    check((rec["huge"] > 0) == hp, f"hugepages were asked for {rec['huge']} times")
    return probed


def samples(o, trees):
    r = dict(insert=[], find=[], erase=[], walk=[])
    for t in trees:
        r["insert"] += t["insert"] if o.r else t["insert"][o.t:]
        r["erase"] += t["erase"] if o.r else t["erase"][:o.b * o.s]
        r["find"] += t["find"]
        r["walk"] += t["walk"]
    return {k: sorted(v) for k, v in r.items()}


def balanced(text, o):
    for a, d in re.findall(r"\ba: (\d+), d: (\d+)", text):
        check(a == d, f"a pool reports {a} allocations and {d} deallocations after the benchmark")
        count("pool_stats_lines")


@vh.scenario("json", 150, 3000)
def _(r):
    o = Opt(r)
    all_names = names()
    name = r.choice([n for n in all_names if meaning(n)])
    args = o.args()
    args.insert(0, r.choice(["-j", "--json"]))
    pos = 1 if r.random() < 0.5 else len(args)
    args.insert(pos, name)
    rc, out, err, rec = run(args, o.clock, o.ratio, o.narrow)
    check(rc == 0, f"exit {rc}: {err[:300]}")
    try:
        j = json.loads(out)
    except ValueError:
        fail(f"the output is not JSON: {out[:300]!r}")
    balanced(err, o)
    trees = check_workload(o, [name], rec)
    check(j.get("config") == name and j.get("iterations") == o.i, lambda: f"JSON describes {j.get('config')}, {j.get('iterations')} iterations")
    tot = j["total_cycles"]
    if o.r:
        check(sum(tot.values()) == rec["total"], f"total cycles {tot}, measured {rec['total']}")
    if trees:
        s = samples(o, trees)
        for op in ("insert", "find", "erase"):
            check(tot[op] == sum(s[op]), f"{op}: {tot[op]} cycles reported, {sum(s[op])} measured")
            got = j["performance"][op]
            if s[op]:
                for p, l in zip(PCT, LABELS):
                    want = percentile(s[op], p) / o.ratio
                    check(near(got[l], want), f"{op} {l}: {got[l]} ns reported, {want} measured")
                    count("percentiles_checked")
        check(tot["iterate"] == sum(s["walk"]), f"iterate: {tot['iterate']} cycles reported, {sum(s['walk'])} measured")
    count("json_runs")
    state(name, o.t, o.b, o.s, o.i, o.r)


@vh.scenario("text", 60, 1200)
def _(r):
    o = Opt(r)
    good = [n for n in names() if meaning(n)]
    chosen = r.sample(good, r.randint(1, min(5, len(good))))
    args = o.args()
    pos = 0 if r.random() < 0.5 else len(args)
    args[pos:pos] = chosen
    rc, out, err, rec = run(args, o.clock, o.ratio, o.narrow)
    check(rc == 0, f"exit {rc}: {err[:300]}")
    balanced(out + err, o)
    trees = check_workload(o, chosen, rec)
    rows = {}
    for line in out.splitlines():
        f = [x.strip() for x in line.split(",")]
        if f[0] in chosen and len(f) == 5:
            check(f[0] not in rows, f"two rows for {f[0]}")
            rows[f[0]] = [int(x) for x in f[1:]]
    check(sorted(rows) == sorted(chosen), f"rows for {sorted(rows)}, benchmarks {sorted(chosen)}")
    m = re.search(r"rdtsc calibration: ([\d.e+-]+)", out)
    check(m and near(float(m.group(1)), o.ratio), f"calibration {m and m.group(1)}, the clock ran at {o.ratio}")
    if o.r:
        check(sum(map(sum, rows.values())) == rec["total"], "the rows do not add up to the time measured")
    lat, cur = {}, None
    for line in out.splitlines():
        if line.strip() in chosen:
            cur = line.strip()
            lat[cur] = {}
        f = re.match(r"\s+([ife]):(.*)", line)
        if f and cur:
            lat[cur][f.group(1)] = [float(x) for x in f.group(2).split(",") if x.strip()]
    probed = [n for n in chosen if not next(iter(meaning(n))).startswith("std")]
    for k, n in enumerate(probed):
        s = samples(o, trees[k::len(probed)])
        want = [sum(s[x]) for x in ("insert", "find", "erase", "walk")]
        check(rows[n] == want, f"{n}: {rows[n]} cycles reported, {want} measured")
        for l, op in zip("ife", ("insert", "find", "erase")):
            if s[op]:
                w = [percentile(s[op], p) / o.ratio for p in PCT]
                g = lat.get(n, {}).get(l)
                check(g is not None and len(g) == len(w) and all(near(a, b) for a, b in zip(g, w)), f"{n} {op}: {g} reported, {w} measured")
                count("percentiles_checked")
    count("text_runs")
    state(tuple(chosen), o.t, o.b, o.s, o.i, o.r)


@vh.scenario("repeat", 20, 300)
def _(r):
    # the same seed gives every configuration the same work; another seed other keys
    o = Opt(r)
    o.t = max(o.t, 3)
    a, b = r.sample([n for n in names() if n.startswith(("btree", "absl", "unordered_dense"))], 2)
    _, _, _, x = run(o.args() + [a, "-j"], o.clock, o.ratio)
    _, _, _, y = run(o.args() + [b, "-j"], o.clock + 1, o.ratio)
    kx, ky = ({(t["keys"], t["erased"]) for t in z["trees"]} for z in (x, y))
    check(kx == ky and len(kx) == 1, f"{a} and {b} do different work for one seed: {kx} {ky}")
    o.d = (o.d + 1 + r.randint(0, 1000)) % 2**32
    _, _, _, z = run(o.args() + [a, "-j"], o.clock, o.ratio)
    check(z["trees"][0]["keys"] != x["trees"][0]["keys"], "another seed makes no difference")
    count("seeds_compared")


@vh.scenario("refused", 30, 200)
def _(r):
    good = names()
    o = Opt(r)
    kind = r.randrange(5)
    j = r.choice([[], ["-j"]])
    if kind == 0:
        bad = r.choice(["btree_9_9", "map", good[0] + "x", "BTREE_8_32"])
        some = r.sample(good, r.randint(0, 2))
        some.insert(r.randint(0, len(some)), bad)
        a, what = o.args() + j + some, "an unknown benchmark"
    elif kind == 1:
        o.t = max(o.t, 2)
        o.s = o.t + r.randint(1, 50)
        a, what = o.args() + j + [r.choice(good)], "batches larger than the tree"
    elif kind == 2:
        a, what = ["--no-such-thing", good[0]], "an unknown option"
    elif kind == 3:
        a, what = ["-t", "large", good[0]], "a value that is no number"
    else:
        a, what = o.args() + ["-j"] + r.choice([[], r.sample(good, 2)]), "JSON for other than one benchmark"
    rc, out, err, rec = run(a)
    check(rc != 0, f"{what}: success reported")
    check(err.strip() != "", f"{what}: no message")
    if kind in (0, 1, 2, 3):
        check(rec is None or rec["ticks"] == 0, f"{what}: something was measured")
    if "-j" in a and kind == 4:
        check(not out.strip().startswith("{"), f"{what}: JSON all the same")
    count("refusals")


if __name__ == "__main__":
    sys.exit(vh.main())
