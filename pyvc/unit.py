"""Verification units: one function (or lemma) with its contract, explored and discharged on the current source."""
import time
import traceback

from . import engine as ENG
from .values import *


class Unit:
    """run(E) builds the precondition state, calls the real function and proves the postconditions.
    `covers` are reachability guards that must be feasible on some path."""
    def __init__(self, name, run, covers=(), min_obligations=1, **engine_kw):
        self.name = name
        self.run = run
        self.covers = covers
        self.min_obligations = min_obligations
        self.engine_kw = engine_kw

    def execute(self):
        t = time.time()
        E = ENG.Engine(self.name, **self.engine_kw)
        crash = None
        try:
            E.explore(self.run)
        except Exception:
            crash = traceback.format_exc(limit=-6)
            E.undecided.append("verifier error: " + crash.strip().splitlines()[-1])
        obs = {}
        for vc in E.vcs:
            o = obs.setdefault(vc.name, dict(name=vc.name, status="proved", instances=0, secs=0.0, backends=[],
                                             detail="", path=None, model=None))
            o["instances"] += 1
            o["secs"] += vc.secs
            if vc.backend not in o["backends"]:
                o["backends"].append(vc.backend)
            if vc.status != "proved" and o["status"] != "refuted":
                o["status"] = vc.status
                o["detail"] = vc.detail
                o["path"] = vc.path[-40:]
                o["model"] = vc.model
        for c in self.covers:
            if not E.covers.get(c) and not E.undecided:
                E.undecided.append("vacuity guard: %r is not reachable" % c)
        if len(obs) < self.min_obligations and not E.undecided:
            E.undecided.append("vacuity guard: %d obligations generated, at least %d expected"
                               % (len(obs), self.min_obligations))
        return dict(unit=self.name, obligations=list(obs.values()), undecided=sorted(set(E.undecided))[:10],
                    covers={k: bool(v) for k, v in E.covers.items()}, paths=E.paths, queries=E.queries,
                    solver_secs=round(E.solver_secs, 3), secs=round(time.time() - t, 3),
                    functions=dict(E.functions_entered), contracts=sorted(E.contracts_used),
                    externals=sorted(E.externals_used), assumed=sorted(E.assumed), crash=crash)


class DirectUnit:
    """obligations decided by another back end: fn() -> list of dicts(name, status, detail, model, backend)"""
    def __init__(self, name, fn, min_obligations=1, functions=None):
        self.name = name
        self.fn = fn
        self.min_obligations = min_obligations

    def execute(self):
        t = time.time()
        obs, und, functions, crash, assumed = [], [], {}, None, []
        try:
            r = self.fn()
            if isinstance(r, dict):
                functions = r.get("functions", {})
                assumed = r.get("assumed", [])
                und = list(r.get("undecided", []))
                r = r["obligations"]
            for o in r:
                obs.append(dict(name=o["name"], status=o["status"], instances=o.get("instances", 1),
                                secs=o.get("secs", 0.0), backends=[o.get("backend", "?")],
                                detail=o.get("detail", ""), path=None, model=o.get("model")))
        except Unsupported as e:
            und.append("unsupported: %s" % e)
        except Exception:
            crash = traceback.format_exc(limit=-6)
            und.append("verifier error: " + crash.strip().splitlines()[-1])
        if len(obs) < self.min_obligations and not und:
            und.append("vacuity guard: %d obligations generated" % len(obs))
        return dict(unit=self.name, obligations=obs, undecided=und, covers={}, paths=0, queries=len(obs),
                    solver_secs=0.0, secs=round(time.time() - t, 3), functions=functions, contracts=[],
                    externals=[], assumed=assumed, crash=crash)


def attempt(E, thunk):
    """('ok', value) or ('exc', exception object) of running interpreted code"""
    try:
        return "ok", thunk()
    except PyExc as e:
        return "exc", e.value


def run_async(E, f, args, kwargs=None):
    return E.await_(E.call(f, args, kwargs or {}))
