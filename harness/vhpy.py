"""The case loop of vh.hpp, for drivers written in Python (programs and scripts run as black boxes)."""
import argparse
import hashlib
import json
import os
import random
import subprocess
import sys
import traceback

SCENARIOS = []
COUNTERS = {}
STATES = set()
SAMPLES = []
_now = {"scn": "?", "case": 0, "note": ""}


def scenario(name, quick, thorough):
    def deco(f):
        SCENARIOS.append((name, quick, thorough, f))
        return f
    return deco


def count(name, by=1):
    COUNTERS[name] = COUNTERS.get(name, 0) + by


def state(*what):
    STATES.add(int.from_bytes(hashlib.sha256(repr(what).encode()).digest()[:6], "big"))


def sample(s):
    if len(SAMPLES) < 6:
        SAMPLES.append(str(s)[:300])


def note(s):
    _now["note"] = str(s)
    if ARGS.verbose:
        print(s, file=sys.stderr)


def fail(msg):
    sys.stdout.flush()
    print(f"MONITOR-VIOLATION scenario={_now['scn']} case={_now['case']} step=0 op=[{_now['note'][:400]}]: {str(msg)[:900]}",
          file=sys.stderr, flush=True)
    os._exit(42)


def check(cond, msg):
    if not cond:
        fail(msg() if callable(msg) else msg)


def broken(msg):
    print(f"HARNESS-ERROR: {msg}", file=sys.stderr, flush=True)
    os._exit(3)


ARGS = None


def main():
    global ARGS
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--scenario")
    ap.add_argument("--case", type=int, default=-1)
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--progress")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--skip", action="append", default=[])
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--bin")
    ap.add_argument("--repo")
    ARGS = ap.parse_args()
    done, per = 0, {}
    for name, quick, thorough, f in SCENARIOS:
        if ARGS.scenario and name != ARGS.scenario:
            continue
        n = max(1, int((thorough if ARGS.thorough else quick) * ARGS.scale))
        off = int.from_bytes(hashlib.sha256(name.encode()).digest()[:4], "big")
        for i in ([ARGS.case] if ARGS.case >= 0 else range(n)):
            if ARGS.case < 0 and ((i + off) % ARGS.nshards != ARGS.shard or f"{name}:{i}" in ARGS.skip):
                continue
            _now.update(scn=name, case=i, note="")
            if ARGS.progress:
                with open(ARGS.progress, "w") as p:
                    p.write(f"{name} {i}\n")
            try:
                f(random.Random(f"{ARGS.seed}/{name}/{i}"))
            except subprocess.TimeoutExpired as e:
                fail(f"the program does not end within {e.timeout} s")
            except (ValueError, LookupError, TypeError, AttributeError):
                # what the program printed or logged is not of the form it has to have
                fail("the output cannot be interpreted: " + traceback.format_exc()[-700:])
            except Exception:  # a defect of the harness, never a verdict
                broken(f"{name}:{i}: " + traceback.format_exc()[-1500:])
            done += 1
            per[name] = per.get(name, 0) + 1
    print("RESULT " + json.dumps(dict(done=done, truncated=False, counters=COUNTERS, per_scenario=per,
                                      samples=SAMPLES, states=sorted(STATES)[:200000])), flush=True)
    return 0
