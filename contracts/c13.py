"""C13: inline functions compute what they document."""
import z3

from pyvc.values import *
from pyvc.engine import LoopSpec, Engine
from pyvc.unit import Unit, attempt, run_async
from pyvc import coll
from pyvc.coll import DV, DINT
from pyvc import builtins_model as B

from nessaid_cli.interface import CliInterface

F = CliInterface.resolve_local_function_call
LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["the number protocol: int addition and subtraction are mathematical; elements of list, set and dict are "
               "abstract values compared by ==, hashable where a set or dict holds them"]


def me(E):
    return E.new(Obj(CliInterface, {}, "self"))


def call(E, name, args):
    return attempt(E, lambda: run_async(E, F, [me(E), name] + args))


def star(seq):
    from pyvc.engine import StarArgs
    return StarArgs(seq)


def containers(env, cls):
    """every local (and cell of an enclosing call) holding a container of a kind, by name"""
    out = []
    for n, v in sorted(env.vars.items()):
        if isinstance(v, cls):
            out.append((n, v))
    return out


def spec_list(E):
    """list(*args) is a new list with exactly args in order; for any number of arguments"""
    args = E.new(coll.SeqV(E, DV, kind=tuple, name="args"))
    J = z3.Int("J")
    k, r = call(E, "list", [star(args)])
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    E.cover("returns")
    v = coll.view_seq(E, r, DV) if isinstance(r, (PyList, coll.SeqV)) else None
    E.prove("a list", v is not None and r is not args)
    if v is None:
        return
    E.prove("length", v[1] == args.n)
    E.prove("elements", z3.Implies(z3.And(0 <= J, J < args.n), z3.Select(v[0], J) == z3.Select(args.arr, J)))
    E.prove("fresh", r.epoch is not None and r.epoch >= 0)


def inv_list(E, env, i, it):
    """lists grown element by element from args"""
    J = z3.Int("J")
    out = []
    if i is None or not isinstance(it, coll.SeqV):
        return out
    root, off = (it, z3.IntVal(0)) if it.root is None else it.root
    for n, v in containers(env, (PyList, coll.SeqV)):
        if v is it or v is root or isinstance(v, coll.SeqV) and v.kind is tuple:
            continue
        w = coll.view_seq(E, v, DV)
        if w is None:
            continue
        old = E.ghost.get("list0", (None, z3.IntVal(0)))
        out.append((n + " length", w[1] == old[1] + i))
        out.append((n + " new items", z3.Implies(z3.And(old[1] <= J, J < old[1] + i),
                                                 z3.Select(w[0], J) == z3.Select(root.arr, J - old[1] + off))))
        if old[0] is not None:
            out.append((n + " old items", z3.Implies(z3.And(0 <= J, J < old[1]),
                                                     z3.Select(w[0], J) == z3.Select(old[0], J))))
    return out


def inv_set(E, env, i, it):
    X = z3.Const("X", V)
    out = []
    if i is None or not isinstance(it, coll.SeqV):
        return out
    root, off = (it, z3.IntVal(0)) if it.root is None else it.root
    occ = E.ghost.get("occ")
    if occ is None:
        return out
    for n, v in containers(env, (PySet, coll.SetV)):
        m = coll.view_set(E, v, DV)
        if m is None:
            continue
        out.append((n + " members", z3.Select(m, X) == z3.Or(E.ghost.get("in0", z3.BoolVal(False)), occ(i + off))))
    return out


def inv_sum(E, env, i, it):
    out = []
    S = E.ghost.get("S")
    if S is None:
        return out
    for n, v in sorted(env.vars.items()):
        if isinstance(v, (SInt, int)) and not isinstance(v, bool):
            if i is not None:
                for c in (0, 1):
                    out.append(("%s is the sum of the first i+%d" % (n, c), B.zint(v) == S(i + c)))
            for m, w in sorted(env.vars.items()):
                if m != n and isinstance(w, (SInt, int)) and not isinstance(w, bool):
                    out.append(("%s is the sum of the first %s" % (n, m), z3.And(B.zint(w) >= 0,
                                                                              B.zint(v) == S(B.zint(w)))))
    return out


def invariants(E, env, i, it):
    return inv_list(E, env, i, it) + inv_set(E, env, i, it) + inv_sum(E, env, i, it)


LOOPS = {"*": LoopSpec(invariants)}


def spec_set(E):
    """set(*args) holds exactly the values among args: X is an arbitrary value"""
    X = z3.Const("X", V)
    args = E.new(coll.SeqV(E, DV, kind=tuple, name="args"))
    occ = args.fold(E, "occ", z3.BoolVal(False), lambda acc, a: z3.Or(acc, a == X))
    E.ghost["occ"] = occ
    k, r = call(E, "set", [star(args)])
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    E.cover("returns")
    m = coll.view_set(E, r, DV) if isinstance(r, (PySet, coll.SetV)) else None
    E.prove("a set", m is not None)
    if m is not None:
        # set(args) by construction and by loop: membership is occurrence among the arguments
        E.prove("members", z3.Select(m, X) == occ(args.n))
        E.prove("fresh", r.epoch is not None and r.epoch >= 0)


def spec_dict(E):
    args = E.new(coll.SeqV(E, DV, kind=tuple, name="args"))
    k, r = call(E, "dict", [star(args)])
    E.prove("no exception", k == "ok")
    if k == "ok":
        E.cover("returns")
        E.prove("an empty dict", isinstance(r, PyDict) and not r.pairs)
        E.prove("fresh", isinstance(r, PyDict) and r.epoch >= 0)


def spec_append_list(E):
    """append(l, *items) extends l by exactly items, in order, and returns l"""
    J = z3.Int("J")
    l = E.new(coll.SeqV(E, DV, name="l"))
    items = E.new(coll.SeqV(E, DV, kind=tuple, name="items"))
    arr0, n0 = l.arr, l.n
    E.ghost["list0"] = (arr0, n0)
    args = E.new(Args(E, l, items))
    k, r = call(E, "append", [star(args)])
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    E.cover("returns")
    E.prove("returns the list itself", r is l)
    E.prove("length", l.n == n0 + items.n)
    E.prove("old items kept", z3.Implies(z3.And(0 <= J, J < n0), l.at(J) == z3.Select(arr0, J)))
    E.prove("new items in order", z3.Implies(z3.And(n0 <= J, J < n0 + items.n),
                                             l.at(J) == z3.Select(items.arr, J - n0)))


def spec_append_set(E):
    X = z3.Const("X", V)
    s = E.new(coll.SetV(E, DV, name="s"))
    items = E.new(coll.SeqV(E, DV, kind=tuple, name="items"))
    E.ghost["occ"] = items.fold(E, "occ", z3.BoolVal(False), lambda acc, a: z3.Or(acc, a == X))
    E.ghost["in0"] = in0 = s.has(X)
    args = E.new(Args(E, s, items))
    k, r = call(E, "append", [star(args)])
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    E.cover("returns")
    E.prove("returns the set itself", r is s)
    E.prove("members", s.has(X) == z3.Or(in0, E.ghost["occ"](items.n)))


class Args(Model):
    """the tuple (first, *rest)"""
    def __init__(self, E, first, rest):
        super().__init__()
        self.first, self.rest = first, rest

    def truth(self, E):
        return True

    def len_(self, E):
        return SInt(self.rest.n + 1)

    def getitem(self, E, i):
        if isinstance(i, int) and i == 0:
            return self.first
        if isinstance(i, slice) and i.start == 1 and i.stop is None and i.step in (None, 1):
            return self.rest
        if isinstance(i, (int, SInt)):
            k = B.zint(i)
            if E.fork(k == 0, "index 0"):
                return self.first
            return self.rest.getitem(E, SInt(k - 1) if not isinstance(i, int) else (i - 1 if i > 0 else i))
        raise Unsupported("argument slice")

    def unpack(self, E, n):
        raise Unsupported("unpack of arguments")

    def isinstance_(self, E, cls):
        return issubclass(tuple, cls)

    def loop_spec(self, E, s, env):
        return None


def spec_add(E):
    """add(a1, ..., an) for n >= 1 integers is their sum"""
    args = E.new(coll.SeqV(E, DINT, kind=tuple, name="args"))
    E.assume(args.n >= 1)
    S = args.fold(E, "S", z3.IntVal(0), lambda acc, a: acc + a)
    E.ghost["S"] = S
    args.touch(E, z3.IntVal(0))
    k, r = call(E, "add", [star(args)])
    E.prove("no exception", k == "ok")
    if k == "ok":
        E.cover("returns")
        E.prove("an integer", isinstance(r, (SInt, int)))
        if isinstance(r, (SInt, int)):
            E.prove("the sum", B.zint(r) == S(args.n))


def spec_incdec(name, d):
    def run(E):
        a = fresh_int("a")
        E.notes["argument"] = a
        k, r = call(E, name, [a])
        E.prove("no exception", k == "ok")
        if k == "ok":
            E.cover("returns")
            E.prove("an integer", isinstance(r, (SInt, int)))
            if isinstance(r, (SInt, int)):
                E.prove("argument %+d" % d, B.zint(r) == a.e + d)
    return run


def spec_update(E):
    """update(d, key, value) stores exactly one key"""
    d = E.new(coll.DictV(E, DV, DV, name="d"))
    key, val, X = fresh_val("key"), fresh_val("value"), z3.Const("X", V)
    dom0, val0 = d.dom, d.val
    k, r = call(E, "update", [d, key, val])
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    E.cover("returns")
    E.prove("returns the dict itself", r is d)
    E.prove("the key holds the value", z3.And(z3.Select(d.dom, key.e), z3.Select(d.val, key.e) == val.e))
    E.prove("other keys unchanged", z3.Implies(X != key.e, z3.And(
        z3.Select(d.dom, X) == z3.Select(dom0, X),
        z3.Implies(z3.Select(dom0, X), z3.Select(d.val, X) == z3.Select(val0, X)))))


def spec_distinct(name):
    """two calls never share a container, and a call does not touch an earlier result"""
    def run(E):
        k1, a = call(E, name, [])
        k2, b = call(E, name, [])
        E.cover("both return")
        E.prove("no exception", k1 == "ok" and k2 == "ok")
        if k1 == k2 == "ok":
            E.prove("two calls, two containers", a is not b and isinstance(a, Heap) and isinstance(b, Heap)
                    and a.epoch >= 0 and b.epoch >= 0)
    return run


def units(tier):
    kw = dict(loops=LOOPS, dom=DV, vdom=DV)
    return [
        Unit("list(*args)", spec_list, ["returns"], 4, **kw),
        Unit("set(*args)", spec_set, ["returns"], 3, **kw),
        Unit("dict()", spec_dict, ["returns"], 2, **kw),
        Unit("append(list, *items)", spec_append_list, ["returns"], 4, **kw),
        Unit("append(set, *items)", spec_append_set, ["returns"], 2, **kw),
        Unit("add(*ints)", spec_add, ["returns"], 2, loops=LOOPS, dom=DINT),
        Unit("inc(int)", spec_incdec("inc", 1), ["returns"], 2, **kw),
        Unit("dec(int)", spec_incdec("dec", -1), ["returns"], 2, **kw),
        Unit("update(dict, key, value)", spec_update, ["returns"], 3, **kw),
        Unit("distinct list()", spec_distinct("list"), ["both return"], 2, **kw),
        Unit("distinct set()", spec_distinct("set"), ["both return"], 2, **kw),
        Unit("distinct dict()", spec_distinct("dict"), ["both return"], 2, **kw),
    ]
