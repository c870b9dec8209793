#!/usr/bin/env python3
"""Confirms planted changes (seeded/<id>) in scratch copies of /repo and reports which checks catch them.

  plant.py make FILE.py [ids]   write seeded-style folders from a python list of candidates into --out
  plant.py test DIR... [--checks C01,C02|own|all] [--no-tests]

For each DIR: copy /repo, apply patch.diff, bind-mount the copy over /repo in a private mount namespace,
build and run the tests there, run demo.sh with and without, run the checks against the copy.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 on a tree where the property holds, nonzero where it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -r "$t"' EXIT
%(cc)s -std=c++23 %(flags)s -I "$PWD/include" "$d/demo.cpp" -o "$t/demo" %(libs)s || exit 98
timeout 120 "$t/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def make(path, out, ids):
    ns = {}
    exec(open(path).read(), ns)
    res = []
    for c in ns["CAND"]:
        if ids and c["id"] not in ids:
            continue
        d = os.path.join(out, c["id"])
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp()
        try:
            sh(f"git -C /repo archive HEAD include src scripts | tar -x -C {t} && cd {t} && git init -q && git add -A && "
               "git -c user.name=x -c user.email=x commit -qm x")
            ok = True
            for f, old, new in c["edits"]:
                p = os.path.join(t, f if "/" in f else "include/fast_containers/" + f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(c["id"], "EDIT MATCHES", s.count(old), "times:", old[:60].strip())
                    ok = False
                    break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                continue
            diff = sh(f"git -C {t} diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
        finally:
            shutil.rmtree(t)
        for name, src in c.get("files", {}).items():  # name -> text, or path of a file or folder to copy
            dst = os.path.join(d, name)
            if src.startswith("/") and os.path.isdir(src):
                shutil.copytree(src, dst, dirs_exist_ok=True)
            elif src.startswith("/"):
                shutil.copy(src, dst)
            else:
                open(dst, "w").write(src.lstrip("\n"))
        if "demo.sh" in c.get("files", {}):
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if c.get("demo"):
            open(os.path.join(d, "demo.cpp"), "w").write(c["demo"].lstrip("\n"))
            with open(os.path.join(d, "demo.sh"), "w") as f:
                f.write(DEMO % dict(cc=c.get("cc", "g++-14"), flags=c.get("flags", "-O1 -g"), libs=c.get("libs", "")))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": c["prop"], "needs": c["needs"], "what_it_breaks": c["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        res.append(d)
    return res


def own_lines(patch):
    """Lines removed/changed by the patch that were added by commits after the base."""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()[:7]
    bad = n = 0
    f = None
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
            blame = [l.split()[0].lstrip("^") for l in sh(["git", "-C", "/repo", "blame", "-s", "-l", f]).stdout.splitlines()]
        m = re.match(r"@@ -(\d+)", line)
        if m:
            ln = int(m.group(1))
            continue
        if f is None or line.startswith(("+++", "---", "diff", "index")):
            continue
        if line.startswith("-"):
            n += 1
            if not blame[ln - 1].startswith(base):
                bad += 1
            ln += 1
        elif not line.startswith("+"):
            ln += 1
    return n, bad


def test(d, checks, tests=True):
    d = os.path.abspath(d)
    sid = os.path.basename(d)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = f"/tmp/sw/{sid}"
    os.makedirs("/tmp/sw", exist_ok=True)
    r = {"id": sid, "property": meta["property"]}
    try:
        patch = open(os.path.join(d, "patch.diff")).read()
        r["removed_lines"], r["own_lines"] = own_lines(patch)
        sh(["cp", "-a", "/repo", w])
        p = sh(["git", "-C", w, "apply", os.path.join(d, "patch.diff")])
        if p.returncode:
            r["state"] = "does not apply: " + p.stdout[-200:]
            return r
        if tests:
            out = f"/tmp/sw/{sid}.json"
            p = sh(["unshare", "-m", "bash", "-c", f"mount --bind {w} /repo && bash /opt/vp/build.sh && "
                    f"bash /opt/vp/test.sh {out}"])
            if not os.path.exists(out):
                r["state"] = "does not build: " + p.stdout[-600:]
                return r
            got = set(json.load(open(out))["passed"])
            base = json.load(open("/opt/vp/BASELINE.json"))
            want = set(base["stable"])
            miss = want - got
            os.remove(out)
            r["tests_failed"] = len(miss)
            if miss:
                r["state"] = "fails tests: " + ", ".join(sorted(miss)[:3])
                return r
        if os.path.exists(os.path.join(d, "demo.sh")):
            with tempfile.TemporaryDirectory() as td:
                dd = os.path.join(td, "x")
                os.mkdir(dd)
                for f in os.listdir(d):
                    if os.path.isdir(os.path.join(d, f)):
                        shutil.copytree(os.path.join(d, f), os.path.join(dd, f))
                    elif not f.endswith((".diff", ".patch")) and f != "meta.json":
                        shutil.copy(os.path.join(d, f), dd)
                p0 = sh(["bash", dd + "/demo.sh"], cwd="/repo")
                p1 = sh(["unshare", "-m", "bash", "-c", f"mount --bind {w} /repo && cd /repo && bash {dd}/demo.sh"])
                r["demo"] = [p0.returncode, p1.returncode]
                if p0.returncode or not p1.returncode or p1.returncode in (98, 99):
                    r["demo_out"] = p0.stdout[-400:] + " | " + p1.stdout[-400:]
        ids = [meta["property"]] if checks == "own" else \
            [f"C{i:02d}" for i in range(1, 31)] if checks == "all" else [c for c in checks.split(",") if c]
        r["checks"] = {}
        env = dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")
        for c in ids:
            p = sh(["python3", os.path.join(VERIF, "run_check.py"), c, "--no-evidence"], env=env)
            r["checks"][c] = p.returncode
            if c == meta["property"]:
                r["own_out"] = p.stdout[-260:]
        r["state"] = "ok"
        return r
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["make", "test"])
    ap.add_argument("paths", nargs="+")
    ap.add_argument("--out", default="/tmp/cand/out")
    ap.add_argument("--checks", default="own")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--log", default="/tmp/cand/results.jsonl")
    a = ap.parse_args()
    if a.cmd == "make":
        for d in make(a.paths[0], a.out, a.paths[1:]):
            print(d)
        return
    for d in a.paths:
        r = test(d, a.checks, not a.no_tests)
        with open(a.log, "a") as f:
            f.write(json.dumps(r) + "\n")
        print(json.dumps(r), flush=True)


if __name__ == "__main__":
    main()
