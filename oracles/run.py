"""Witness search for one property on the real code: run.py PROPERTY SEED TIER BUDGET SHARD SHARDS OUT [HINTS]

Cases are JSON values; judge(case) returns None or {"expected":..., "got":...}.  Labelled bounded: it never
counts as proof; it replays counterexamples and supplies failing inputs."""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from pyvc import real       # noqa


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


def judge(mod, case, secs=None):
    """a case that does not end in time is a failure only where the oracle says every case must be quick"""
    strict = getattr(mod, "hang_fails", lambda c: False)(case)
    secs = secs or (20 if strict else 6)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(secs)
    try:
        return mod.judge(case)
    except Hang:
        if not strict:
            judge.slow += 1
            return None
        return {"expected": "an answer within %d s" % secs, "got": "none: the real code did not return"}
    except Exception as e:
        return {"expected": "no exception", "got": traceback.format_exc(limit=-4)[-1500:]}
    finally:
        signal.alarm(0)


judge.slow = 0


def main():
    prop, seed, tier, budget, shard, shards, out = sys.argv[1:8]
    hints = json.loads(sys.argv[8]) if len(sys.argv) > 8 else []
    seed, budget, shard, shards = int(seed), float(budget), int(shard), int(shards)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    real_err = sys.stderr
    sys.stderr = devnull
    t0 = time.time()
    res = dict(evaluations=0, nontrivial=0, samples=[], failures=[], rule="", exhausted=False, bound="")
    seen = set()
    try:
        mod = importlib.import_module("oracles." + prop.lower())
        res["rule"] = getattr(mod, "RULE", "")
        rng = random.Random(seed * 1000 + shard)
        res["exhausted"] = True
        for i, case in enumerate(mod.cases(rng, tier, hints)):
            if time.time() - t0 > budget:
                res["exhausted"] = False
                break
            if isinstance(case, tuple):       # ("det", x): same list in every shard, split among them
                if i % shards != shard:
                    continue
                case = case[1]
            key = json.dumps(case, sort_keys=True, default=repr)
            if key in seen:
                continue
            seen.add(key)
            r = judge(mod, case)
            res["evaluations"] += 1
            if getattr(mod, "nontrivial", lambda c: True)(case):
                res["nontrivial"] += 1
            if len(res["samples"]) < 3 or (res["evaluations"] % 997 == 0 and len(res["samples"]) < 6):
                res["samples"].append(json.loads(key) if len(key) < 1500 else key[:1500])
            if r is not None:
                small = case
                if hasattr(mod, "shrink"):
                    small, r = shrink(mod, case, r, t0 + budget + 10)
                res["failures"].append(dict(case=small, **r))
                if len(res["failures"]) >= 5:
                    res["exhausted"] = False
                    break
    except Exception:
        res["crash"] = traceback.format_exc(limit=-5)
    res["slow"] = judge.slow
    res["secs"] = round(time.time() - t0, 2)
    with open(out, "w") as f:
        json.dump(res, f, default=repr)


def shrink(mod, case, r, deadline):
    best, bestr = case, r
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for c in mod.shrink(best):
            if time.time() > deadline:
                break
            x = judge(mod, c, 10)
            if x is not None:
                best, bestr, progress = c, x, True
                break
    return best, bestr


if __name__ == "__main__":
    main()
