"""Merging of paths in typestate units: the rest of a path is determined by the statement to run, the statements of
the callers, the values of the locals, the objects they reach, the ghost state, the pending exceptions and returns of
enclosing finally blocks, the remaining items of enclosing concrete loops and the path condition.  A path that comes to
a statement with all of these equal (up to the names of objects and unknown values) to those of a path explored before
ends there; what follows has been (or will be) explored from the other path."""
import ast
import types

import z3

from .values import *


class _Never(Exception):
    pass


class Print:
    def __init__(self, E):
        self.E = E
        self.ids = {}
        self.keep = []

    def num(self, v):
        """(canonical number, seen before?)"""
        k = id(v)
        if k in self.ids:
            return self.ids[k], True
        self.ids[k] = len(self.ids)
        self.keep.append(v)
        return self.ids[k], False

    def env(self, e):
        if e is None:
            return None
        n, old = self.num(e)
        if old:
            return ("env", n)
        return ("env", n, tuple((k, self.of(v)) for k, v in sorted(e.vars.items())), self.env(e.parent))

    def of(self, v):
        if v is None or isinstance(v, (bool, int, str, float, bytes)):
            return (type(v).__name__, v)
        if isinstance(v, Unk):
            return ("U", self.num(v)[0])
        if isinstance(v, z3.AstRef):
            return ("z3", v.sexpr())
        if isinstance(v, Sym):
            return (type(v).__name__, v.e.sexpr())
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.of(x) for x in v)
        if isinstance(v, list):
            return ("list",) + tuple(self.of(x) for x in v)
        if isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, types.MethodType,
                          types.MethodDescriptorType)):
            return ("real", id(v))
        if isinstance(v, BM):
            return ("bm", id(v.func), self.of(v.self_))
        if isinstance(v, Clo):
            return ("clo", id(v.node), self.env(v.env))
        if isinstance(v, SuperProxy):
            return ("super", id(v.cls), self.of(v.self_))
        if isinstance(v, PyExc):
            return ("raise", self.of(v.value))
        from . import engine as ENG
        if isinstance(v, ENG.ReturnSig):
            return ("return", self.of(v.value))
        if isinstance(v, (ENG.BreakSig, ENG.ContinueSig)):
            return (type(v).__name__,)
        if isinstance(v, ENG.Lost):
            return ("lost", v.what)
        if isinstance(v, Heap):
            n, old = self.num(v)
            if old:
                return ("h", n)
            head = ("h", n, type(v).__name__, v.epoch if v.epoch is not None else -1, str(getattr(v, "site", None)))
            if isinstance(v, Obj):
                return head + (id(v.cls), tuple((k, self.of(x)) for k, x in sorted(v.fields.items())),
                               tuple(sorted(v.hooks)), tuple((k, self.of(x)) for k, x in sorted(v.__dict__.items())
                                                             if k not in ("cls", "fields", "hooks", "label", "epoch", "site")))
            if isinstance(v, (PyList, PySet)):
                return head + tuple(self.of(x) for x in v.items)
            if isinstance(v, PyDict):
                return head + tuple((self.of(a), self.of(b)) for a, b in v.pairs)
            if isinstance(v, UnkExc):
                return head[:4] + (id(v.base), tuple(id(c) for c in v.excluded))
            return head + tuple((k, self.of(x)) for k, x in sorted(v.__dict__.items()) if k not in ("epoch", "site", "label"))
        if hasattr(v, "__dict__") and type(v).__module__.startswith("nessaid"):
            return ("real", id(v))
        raise _Never()


def clean(call, last):
    """no temporary values of the statement in evaluation outlive the call it makes"""
    env, exprs, stmt = call
    if last:
        return not exprs
    if not isinstance(stmt, (ast.Expr, ast.Return, ast.Assign, ast.If, ast.While)):
        return False
    kinds = [type(e) for e in exprs]
    return kinds in ([ast.Await], [ast.Await, ast.Call], [ast.Call])


def visit(E):
    if E.pos < len(E.prefix) or E.entries != 1 or E.pure:
        return
    for k, c in enumerate(E.calls):
        if not clean(c, k == len(E.calls) - 1):
            return
    p = Print(E)
    try:
        fp = (tuple(E.decisions[:E.entry_pos]),
              tuple((id(c[2]), tuple(id(x) for x in c[1]), p.env(c[0])) for c in E.calls),
              tuple((k, p.of(v)) for k, v in sorted(E.ghost.items(), key=lambda x: str(x[0]))),
              tuple(p.of(v) for v in E.handling), tuple(p.of(v) for v in E.pendings),
              tuple((id(s), p.of(items)) for s, items in E.iters),
              tuple((f["epoch"], tuple(sorted(str(x) for x in f["ok"])),
                     tuple(sorted((str(o.site), str(x)) for o, x in f["bad"]))) for f in E.frames),
              tuple(sorted(c.sexpr() for c in E.pc)), E.epoch)
    except _Never:
        return
    if fp in E.seen:
        E.merged += 1
        raise Dead()
    E.seen.add(fp)
