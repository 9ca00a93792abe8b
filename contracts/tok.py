"""Shared pieces of the token contracts (C09-C11)."""
import z3

from pyvc.values import *
from pyvc.unit import Unit, attempt, run_async
from pyvc import builtins_model as B
from nessaid_cli import tokens as T

SUCCESS, FAILURE, PARTIAL, MANY = T.MATCH_SUCCESS, T.MATCH_FAILURE, T.MATCH_PARTIAL, T.TOO_MANY_COMPLETIONS
NULL = T.NullTokenValue


def method(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            f = k.__dict__[name]
            return f.fget if isinstance(f, property) else getattr(f, "__func__", f)
    raise Unsupported("%s has no %s" % (cls.__name__, name))


def make(E, cls, *args):
    """the object the real constructor builds"""
    k, o = attempt(E, lambda: E.call(cls, list(args), {}))
    return k, o


def invoke(E, o, name, *args):
    return attempt(E, lambda: run_async(E, BM(method(o.cls, name), o), list(args)))


def invoke_sync(E, o, name, *args):
    return attempt(E, lambda: E.call(BM(method(o.cls, name), o), list(args), {}))


def is_null(r):
    return r is NULL or isinstance(r, Obj) and r.cls is type(NULL)


def name_contract(E, args, kwargs):
    """convert_to_cli_string: some string (the notation of the token's name does not matter here)"""
    return fresh_str("notation")


NAME = {"nessaid_cli.utils:convert_to_cli_string": name_contract}


def result_in(r, *allowed):
    return isinstance(r, str) and r in allowed


def eq_const(r, c):
    """z3/py condition that a match result is the constant c"""
    if isinstance(r, str):
        return r == c
    if isinstance(r, SStr):
        return r.e == z3.StringVal(B.z3_escape(c))
    return False


class Scope:
    """the variables a loop invariant may speak of: those of the function and, where it is a helper, of its callers"""
    def __init__(self, E, env):
        self.vars = {}
        own = {id(v) for v in env.vars.values() if isinstance(v, Heap)}
        for d, c in enumerate(E.calls[:-1]):
            if c[0] is not env:
                for n, v in c[0].vars.items():
                    if id(v) not in own:
                        self.vars["%s^%d" % (n, d)] = v
        outer, e = [], env.parent
        while e is not None:
            outer, e = [e.vars] + outer, e.parent
        for vs in outer + [env.vars]:
            self.vars.update(vs)
