#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--verbose] [--no-oracle] [--units SUBSTR]

Regenerates every obligation of the property from /repo's current source, discharges them, replays
counterexamples and searches for failing inputs on the real code, and writes evidence/PROPERTY.json."""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pyvc import real      # noqa

PY = sys.executable
_units = {}


def _run_unit(i):
    return _units["list"][i].execute()


def plain(x):
    """for JSON: keys are texts"""
    if isinstance(x, dict):
        return {k if isinstance(k, str) else repr(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def run_units(units, budget):
    _units["list"] = units
    out = []
    ctx = mp.get_context("fork")
    procs = {}
    pending = list(range(len(units)))
    results = {}
    running = {}
    tmp = tempfile.mkdtemp(prefix="pyvc")
    t0 = time.time()

    def child(i, path):
        try:
            r = units[i].execute()
        except BaseException:
            r = dict(unit=units[i].name, obligations=[], undecided=["verifier crash: " + traceback.format_exc(limit=-3)],
                     covers={}, paths=0, queries=0, solver_secs=0, secs=0, functions={}, contracts=[],
                     externals=[], assumed=[], crash="yes")
        with open(path, "w") as f:
            json.dump(plain(r), f, default=repr)
    try:
        while pending or running:
            while pending and len(running) < 8:
                i = pending.pop(0)
                p = ctx.Process(target=child, args=(i, os.path.join(tmp, str(i))))
                p.start()
                running[i] = p
            time.sleep(0.02)
            for i, p in list(running.items()):
                if not p.is_alive():
                    p.join()
                    running.pop(i)
                    try:
                        with open(os.path.join(tmp, str(i))) as f:
                            results[i] = json.load(f)
                    except (OSError, ValueError):
                        results[i] = lost(units[i].name, "verifier process ended with code %s" % p.exitcode)
                elif time.time() - t0 > budget:
                    p.kill()
                    p.join()
                    running.pop(i)
                    results[i] = lost(units[i].name, "out of time (%d s)" % budget)
            if time.time() - t0 > budget:
                for i in pending:
                    results[i] = lost(units[i].name, "not started within %d s" % budget)
                pending = []
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return [results[i] for i in range(len(units))]


def lost(name, why):
    return dict(unit=name, obligations=[], undecided=[why], covers={}, paths=0, queries=0, solver_secs=0, secs=0,
                functions={}, contracts=[], externals=[], assumed=[], crash=None)


def start_oracle(prop, seed, tier, budget, shards, hints):
    jobs = []
    for k in range(shards):
        fd, path = tempfile.mkstemp(suffix=".json", prefix="oracle")
        os.close(fd)
        p = subprocess.Popen([PY, os.path.join(HERE, "oracles", "run.py"), prop, str(seed), tier, str(budget),
                              str(k), str(shards), path, json.dumps(hints)],
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
                             cwd=HERE)
        jobs.append((p, path))
    return jobs


def join_oracle(jobs, limit):
    out = []
    t0 = time.time()
    for p, path in jobs:
        try:
            p.wait(max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        try:
            with open(path) as f:
                out.append(json.load(f))
        except (OSError, ValueError):
            out.append(dict(evaluations=0, nontrivial=0, samples=[], failures=[], rule="", exhausted=False,
                            crash="no result"))
        os.unlink(path)
    return out


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--no-oracle", action="store_true")
    ap.add_argument("--oracle-only", action="store_true")
    ap.add_argument("--units", default="")
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    prop = a.property.upper()
    if a.replay:
        sys.exit(replay(prop, a.replay))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    partial = bool(a.units or a.no_oracle or a.oracle_only)
    try:
        code = check(prop, seed, tier, a, t0, partial)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        tb = traceback.format_exc()
        path = write_replay(prop, dict(property=prop, kind="verifier error", verifier_output=tb))
        sys.stdout.write(tb)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        code = 1
    sys.stdout.flush()
    os._exit(code)


def check(prop, seed, tier, a, t0, partial):
    ubudget = 240 if tier == "quick" else 700
    obudget = a.budget or (25 if tier == "quick" else 300)
    import_error = None
    results = []
    mod = None
    jobs = []
    if not a.no_oracle:
        jobs = start_oracle(prop, seed, tier, obudget, 4 if tier == "quick" else 8, [])
    if not a.oracle_only:
        try:
            mod = importlib.import_module("contracts." + prop.lower())
            units = [u for u in mod.units(tier) if a.units in u.name]
            results = run_units(units, ubudget)
        except Exception:
            import_error = traceback.format_exc()
            results = [lost("import", "contracts could not be bound to the code: " +
                            import_error.strip().splitlines()[-1])]
    bad, total, proved = [], 0, 0
    for r in results:
        for o in r["obligations"]:
            total += 1
            if o["status"] == "proved":
                proved += 1
            else:
                bad.append(dict(o, unit=r["unit"]))
        for u in r["undecided"]:
            bad.append(dict(unit=r["unit"], name="undecided", status="undecided", detail=u, path=None, model=None))
    orc = []
    if not a.no_oracle:
        orc = join_oracle(jobs, obudget + 60)
        if bad and not any(o["failures"] for o in orc):
            # counterexample models steer a second search
            hints = [dict(b.get("model") or {}, unit=b["unit"], name=b["name"]) for b in bad][:20]
            orc += join_oracle(start_oracle(prop, seed + 1, tier, obudget * 1.5, 8, hints), obudget * 1.5 + 60)
    failures = [f for o in orc for f in o["failures"]]
    known = known_findings(prop)
    kmod = None
    new_failures, known_hit = [], set()
    for f in failures:
        k = json.dumps(f["case"], sort_keys=True, default=repr)
        hit = [x for x in known if finding_key(k) == x[0]]
        if hit:
            known_hit.add(hit[0])
        else:
            new_failures.append(f)
    if a.verbose:
        for r in results:
            print("unit %-50s paths %4d obl %3d solver %.1fs wall %.1fs" %
                  (r["unit"], r["paths"], len(r["obligations"]), r["solver_secs"], r["secs"]))
            if r["crash"]:
                print(r["crash"])
            for c, ok in r["covers"].items():
                if not ok:
                    print("   cover %s unreachable" % c)
        for b in bad:
            print("  !! %s/%s: %s %s" % (b["unit"], b["name"], b["status"], (b.get("detail") or "")[:400]))
            if b.get("model"):
                print("     model", str(b["model"])[:600])
            if b.get("path"):
                print("     path", b["path"][-14:])
        for o in orc:
            print("oracle", o["evaluations"], o["nontrivial"], o.get("exhausted"), o.get("crash"), o.get("secs"))
        for f in failures[:3]:
            print("  !! witness", str(f)[:1200])
    if not partial or os.environ.get("FORCE_EVIDENCE"):
        evidence(prop, seed, tier, mod, results, orc, total, proved, bad, new_failures, time.time() - t0)
    for k in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    crashed = [o["crash"] for o in orc if o.get("crash")]
    if bad or new_failures or crashed:
        doc = dict(property=prop,
                   failed_obligations=[dict(unit=b["unit"], obligation=b["name"], status=b["status"],
                                            detail=b.get("detail"), counterexample=b.get("model"),
                                            path=b.get("path")) for b in bad[:30]],
                   verifier_output=import_error,
                   witness=new_failures[:3], oracle_crash=crashed[:1])
        path = write_replay(prop, doc)
        for b in bad[:8]:
            print("failed obligation %s/%s: %s %s" % (b["unit"], b["name"], b["status"],
                                                      (b.get("detail") or "")[:200].replace("\n", " ")))
        if new_failures:
            print("failing input: %s" % json.dumps(new_failures[0], default=repr)[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        return 1
    print("%s: %d obligations from %d units, all discharged; %d bounded evaluations on the real code; %.1f s"
          % (prop, total, len(results), sum(o["evaluations"] for o in orc), time.time() - t0))
    return 0


def finding_key(k):
    import hashlib
    return hashlib.sha256(k.encode()).hexdigest()[:12]


def write_replay(prop, doc):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % prop)
    doc["replay_with"] = "python3-vt /verif/check.py %s --replay %s" % (prop, path)
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, default=repr)
    return path


def replay(prop, path):
    from oracles import run as R
    doc = json.load(open(path))
    mod = importlib.import_module("oracles." + prop.lower())
    code = 0
    for w in doc.get("witness", []):
        r = R.judge(mod, w["case"])
        print("case %s\n  -> %s" % (json.dumps(w["case"], default=repr)[:2000], r))
        if r is not None:
            code = 1
    if not doc.get("witness"):
        print("no failing input; failed obligations:")
        print(json.dumps(doc.get("failed_obligations"), indent=1)[:6000])
        code = 1
    return code


def evidence(prop, seed, tier, mod, results, orc, total, proved, bad, failures, wall):
    functions, contracts, externals, assumed = {}, set(), set(), set()
    for r in results:
        functions.update(r["functions"])
        contracts.update(r["contracts"])
        externals.update(r["externals"])
        assumed.update(r["assumed"])
    backends = {}
    for r in results:
        for o in r["obligations"]:
            for b in o["backends"]:
                backends[b] = backends.get(b, 0) + 1
    cov = dict(
        obligations=total, discharged=proved,
        checker_cmd="python3-vt /verif/check.py %s --tier %s" % (prop, tier),
        trusted_base=list(getattr(mod, "TRUSTED", [])) + BASE,
        obligation_instances=sum(o["instances"] for r in results for o in r["obligations"]),
        backends=backends,
        solver_secs=round(sum(r["solver_secs"] for r in results), 2),
        solver_queries=sum(r["queries"] for r in results),
        paths=sum(r["paths"] for r in results),
        units=[dict(unit=r["unit"], obligations=len(r["obligations"]), paths=r["paths"], secs=r["secs"],
                    solver_secs=r["solver_secs"],
                    covers=sorted(k for k, v in r["covers"].items() if v)) for r in results],
        functions_under_contract=functions,
        contracts_used_at_calls=sorted(contracts),
        external_functions=sorted(externals),
        failed=[dict(unit=b["unit"], name=b["name"], status=b["status"]) for b in bad][:40],
        bounded=dict(note="search on the real code; bounded, never counted as proved",
                     evaluations=sum(o["evaluations"] for o in orc),
                     distinct_nontrivial=sum(o["nontrivial"] for o in orc),
                     rule=next((o["rule"] for o in orc if o["rule"]), ""),
                     samples=[s for o in orc for s in o["samples"]][:6]),
        evaluations=sum(o["evaluations"] for o in orc),
        samples=[dict(unit=r["unit"], obligation=r["obligations"][0]["name"]) for r in results if r["obligations"]][:6])
    level = getattr(mod, "LEVEL", "proof")
    doc = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
               assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + sorted(assumed), wall_s=round(wall, 2),
               violations=len(failures) + len(bad))
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "%s.json" % prop), "w") as f:
        json.dump(doc, f, indent=1, default=repr)


BASE = ["pyvc (verification condition generator of /verif/pyvc: its reading of the Python subset, its models of "
        "built-in types)", "z3 / cvc5", "CPython running the code as the ast module parses it"]

if __name__ == "__main__":
    main()
