"""C05: grammar arguments bind to exactly the parameters they name.

Parameter names are atoms (two parameters of a grammar never share one: C19), a parameter's default is a function of
its name; arguments are atoms with a value and, possibly, a name."""
import z3

from nessaid_cli import elements as EL
from nessaid_cli import interface as IF
from nessaid_cli import lex_yacc_common as LY

from pyvc import coll
from pyvc.engine import LoopSpec, Univ
from pyvc.unit import DirectUnit
from .tok import *

LEVEL = "proof"
TRUSTED = ["parameter and argument names are str objects: == and hash are those of their text (checked: the classes do "
           "not redefine them)"]
ASSUMPTIONS = ["the parameters of a grammar have distinct names (C19)"]

B_ = z3.BoolSort()
HASDEF = z3.Function("has_default", V, B_)
DEF = z3.Function("default_of", V, V)
HASNAME = z3.Function("is_keyword_argument", V, B_)
ANAME = z3.Function("argument_name", V, V)
VAL = z3.Function("argument_value", V, V)
ARG = z3.Function("argument_of", V, V)
ISPAR = z3.Function("is_parameter", V, B_)
NONE = z3.Const("None", V)
X = z3.Const("X", V)


TRUE = z3.Function("truth_of", V, B_)


def value(e):
    return SVal(e, truthy=lambda E, v: TRUE(v.e))


def unwrap_value(v):
    if v is None:
        return NONE
    return v.e if isinstance(v, SVal) and v.e.sort() == V else None


def par(e):
    return SVal(e, kinds=lambda E, v, cls: issubclass(EL.CliParameter, cls), truthy=lambda E, v: True,
                attrs={"str": lambda E, v: v, "name": lambda E, v: v, "value": lambda E, v: v,
                       "has_def_value": lambda E, v: SBool(HASDEF(v.e)),
                       "defvalue": lambda E, v: value(DEF(v.e))})


def arg(e):
    def pname(E, v):
        if E.fork(HASNAME(v.e), "keyword argument"):
            E.point(ANAME(v.e))
            return par(ANAME(v.e))
        return None
    r = SVal(e, kinds=lambda E, v, cls: issubclass(EL.CliArgument, cls), truthy=lambda E, v: True,
             attrs={"value": lambda E, v: value(VAL(v.e)), "param_name": pname})
    return r


def unwrap(v):
    return v.e if isinstance(v, SVal) and v.e.sort() == V else None


def domains(E):
    """arguments stored in the mapping: those given, and the ones made for the parameters left over"""
    def unwrap_arg(v):
        if isinstance(v, Obj) and v.cls is EL.CliArgument:
            if not hasattr(v, "atom"):
                k, x = attempt(E, lambda: E.getattr(v, "value"))
                e = unwrap_value(x) if k == "ok" else None
                if e is None:
                    return None
                v.atom = z3.Const(fresh_name("made"), V)
                E.assume(VAL(v.atom) == e)
            return v.atom
        return unwrap(v)
    return (coll.Dom("parameter", V, par, unwrap, pointwise=True), coll.Dom("argument", V, arg, unwrap_arg))


def setting(E):
    dp, da = domains(E)
    E.dom, E.vdom = dp, da
    ps = E.new(coll.SeqV(E, dp, name="parameters"))
    coll.describe(E, ps)
    E.ghost["members"] = ps.members
    d = coll.Distinct(ps)
    d.assume(E)
    args = E.new(coll.SeqV(E, da, name="arguments"))
    E.point(X)
    E.assume(z3.Not(TRUE(NONE)))

    def bound(k):       # the name the k-th argument binds
        a = args.at(k)
        return z3.If(HASNAME(a), ANAME(a), ps.at(k))

    def step(acc, a):
        return acc
    BX = z3.Function(fresh_name("bound"), z3.IntSort(), B_)      # X is bound by the first k arguments
    KW = z3.Function(fresh_name("keywords"), z3.IntSort(), B_)   # a keyword argument is among the first k
    E.assume(z3.Not(BX(0)))
    E.assume(z3.Not(KW(0)))

    def hook(E2, k):
        ps.touch(E2, k)
        E2.assume(z3.Implies(k >= 0, z3.And(BX(k + 1) == z3.Or(BX(k), bound(k) == X),
                                            KW(k + 1) == z3.Or(KW(k), HASNAME(args.at(k))))))
        E2.point(ANAME(args.at(k)))
    args.on_elem.append(hook)
    E.ghost.update(ps=ps, args=args, BX=BX, KW=KW, bound=bound)
    return ps, args, BX, KW, bound


def run(E, ps, args):
    ps0, n0, arr0 = ps, ps.n, ps.arr
    k, m = attempt(E, lambda: E.call(EL.map_grammar_arguments, ["grammar", ps, args], {}))
    E.prove("the parameter list is not changed", z3.And(ps.n == n0, z3.BoolVal(ps.arr.eq(arr0))))
    return k, m


# ------------------------------------------------------------------ arguments that are right
def spec_accept(E):
    ps, args, BX, KW, bound = setting(E)
    E.assume(args.n <= ps.n)
    q = z3.Int("q")

    def right(E2, k):
        a = args.at(k)
        E2.assume(z3.Implies(z3.And(0 <= k, k < args.n), z3.And(
            z3.Implies(HASNAME(a), z3.Select(E.ghost["members"], ANAME(a))),       # a name of a parameter
            z3.Implies(KW(k), HASNAME(a)),                                 # no positional one after a keyword one
            ARG(bound(k)) == a,                                            # each parameter bound once
            LATER(bound(k)) == k)))
    LATER = z3.Function(fresh_name("position"), V, z3.IntSort())
    E.ghost["LATER"] = LATER
    args.on_elem.append(right)
    E.assume(z3.And(0 <= q, q < ps.n, ps.at(q) == X))
    ps.touch(E, q)
    k, m = run(E, ps, args)
    E.prove("right arguments are accepted", k == "ok")
    if k != "ok":
        return
    E.cover("accepted")
    v = coll.view_dict(E, m, E.dom, E.vdom)
    E.prove("a mapping from names to arguments", v is not None)
    if v is None:
        return
    E.prove("every parameter is bound", z3.Select(v[0], X))
    got = VAL(z3.Select(v[1], X))
    E.prove("a parameter with an argument has its value", z3.Implies(BX(args.n), got == VAL(ARG(X))))
    E.prove("one without has its default", z3.Implies(z3.And(z3.Not(BX(args.n)), HASDEF(X)), got == DEF(X)))
    E.prove("one without a default has None", z3.Implies(z3.And(z3.Not(BX(args.n)), z3.Not(HASDEF(X))), got == NONE))


def spec_only(E):
    """nothing but the parameters is bound"""
    ps, args, BX, KW, bound = setting(E)
    E.assume(z3.Not(z3.Select(E.ghost["members"], X)))
    k, m = run(E, ps, args)
    if k != "ok":
        return
    E.cover("accepted")
    v = coll.view_dict(E, m, E.dom, E.vdom)
    if v is not None:
        E.prove("nothing but a parameter is bound", z3.Not(z3.Select(v[0], X)))


# ------------------------------------------------------------------ arguments that are wrong
def spec_reject(which):
    def run_(E):
        ps, args, BX, KW, bound = setting(E)
        k, l = z3.Ints("k l")
        E.assume(z3.And(0 <= k, k < l, l < args.n))
        for j in (k, l):
            args.touch(E, j)
            ps.touch(E, j)
        a, b = args.at(k), args.at(l)
        if which == "too many":
            E.assume(args.n > ps.n)
        else:
            E.assume(args.n <= ps.n)
        if which == "unknown":
            E.assume(z3.And(HASNAME(b), z3.Not(z3.Select(E.ghost["members"], ANAME(b)))))
        elif which == "positional after keyword":
            E.assume(z3.And(HASNAME(a), z3.Not(HASNAME(b))))
        elif which == "repeated":
            E.assume(z3.And(HASNAME(b), bound(k) == ANAME(b), X == ANAME(b)))
            E.ghost["BK"] = k
        E.ghost["stop"] = l
        E.ghost["kpos"] = k
        r, m = run(E, ps, args)
        E.prove("rejected with an argument error", r == "exc" and isinstance(m, Obj) and
                issubclass(m.cls, EL.ArgumentError))
        if r == "exc":
            E.cover("rejected")
    return run_


def spec_unknown_first(E):
    """a single wrong name, at any position, the first included"""
    ps, args, BX, KW, bound = setting(E)
    l = z3.Int("l")
    E.assume(z3.And(0 <= l, l < args.n))
    args.touch(E, l)
    b = args.at(l)
    E.assume(z3.And(HASNAME(b), z3.Not(z3.Select(E.ghost["members"], ANAME(b)))))
    E.ghost["stop"] = l
    r, m = run(E, ps, args)
    E.prove("rejected with an argument error", r == "exc" and isinstance(m, Obj) and
            issubclass(m.cls, EL.ArgumentError))
    if r == "exc":
        E.cover("rejected")


# ------------------------------------------------------------------ invariants
def invariants(E, env, i, it):
    g = E.ghost
    if "ps" not in g:
        return []
    ps, args, BX, KW, bound = [g[k] for k in ("ps", "args", "BX", "KW", "bound")]
    out = []
    lists, dicts, bools, names = [], [], [], []
    for n, v in sorted(env.vars.items()):
        if isinstance(v, coll.SeqV) and v is not ps and v is not args and v.members is not None:
            lists.append((n, v))
        elif isinstance(v, (PyDict, coll.DictV)):
            d = coll.view_dict(E, v, E.dom, E.vdom)
            if d is not None:
                dicts.append((n, d))
        elif isinstance(v, (bool, SBool)):
            bools.append((n, v.e if isinstance(v, SBool) else z3.BoolVal(v)))
        elif isinstance(v, SVal) and v.e.sort() == V and "param_name" in v.attrs:
            names.append((n + ".param_name", ANAME(v.e)))
        elif isinstance(v, SVal) and v.e.sort() == V:
            names.append((n, v.e))
    outer = it is args
    for n, d in dicts:
        out.append(("%s binds parameters only" % n, Univ(V, lambda x, d=d: z3.Implies(
            z3.Select(d[0], x), z3.Select(E.ghost["members"], x)))))
        for m, l in lists:
            out.append(("%s holds the parameters not in %s" % (m, n), Univ(V, lambda x, d=d, l=l: z3.simplify(
                z3.Select(l.members, x)) == z3.And(z3.Select(E.ghost["members"], x), z3.Not(z3.Select(d[0], x))))))
        out.append(("%s has the right values" % n, z3.Implies(z3.And(z3.Select(d[0], X), z3.Select(E.ghost["members"], X)),
            VAL(z3.Select(d[1], X)) == z3.If(BX(args.n), VAL(ARG(X)), z3.If(HASDEF(X), DEF(X), NONE)))))
        out.append(("%s holds what is bound" % n, z3.Implies(z3.And(BX(args.n), z3.Select(E.ghost["members"], X)),
                                                            z3.Select(d[0], X))))
        if outer:
            out.append(("%s holds what the first i bind" % n, z3.Implies(
                z3.Select(E.ghost["members"], X), z3.Select(d[0], X) == BX(i))))
            out.append(("what the first i bind is a parameter", z3.Implies(BX(i), z3.Select(E.ghost["members"], X))))
            out.append(("%s has the arguments" % n, z3.Implies(z3.Select(d[0], X), z3.Select(d[1], X) == ARG(X))))
            if "LATER" in g:
                out.append(("%s holds none that a later one binds" % n, Univ(V, lambda x, d=d: z3.Implies(
                    z3.Select(d[0], x), z3.And(g["LATER"](x) < i, g["LATER"](x) >= 0)))))
            if "BK" in g:
                out.append(("X is bound after k", z3.Implies(i > g["BK"], BX(i))))
    for m, l in lists:
        out.append(("%s is distinct" % m, coll.Distinct(l)))
        if outer:
            out.append(("%s: one less each time" % m, l.n == ps.n - i))
            j = z3.Int(fresh_name("j"))
            out.append(("%s: the rest of the parameters" % m, z3.Implies(z3.Not(KW(i)), z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < l.n), l.at(j) == ps.at(j + i))))))
    if outer:
        for n, b in bools:
            out.append(("%s: a keyword was seen" % n, b == KW(i)))
        if "stop" in g:
            out.append(("the wrong one is not passed", i <= g["stop"]))
        if "kpos" in g:
            out.append(("a keyword passed is seen", z3.Implies(z3.And(i > g["kpos"], HASNAME(args.at(g["kpos"]))), KW(i))))
    elif i is not None and isinstance(it, coll.SeqV) and it.first is not None:
        for n, d in dicts:
            out.append(("%s holds all but the rest from i on" % n, Univ(V, lambda x, d=d: z3.Select(d[0], x) == z3.And(
                z3.Select(E.ghost["members"], x),
                z3.Or(z3.Not(z3.simplify(z3.Select(it.members, x))), it.first(x) < i)))))
        for n, e in names:
            out.append(("%s is not among the first i of the rest" % n, z3.Not(z3.And(
                z3.simplify(z3.Select(it.members, e)), it.first(e) < i))))
    return out


def cut(E, s, env, it):
    return SPEC if it is None or isinstance(it, coll.SeqV) else None


SPEC = LoopSpec(invariants)
LOOPS = {"*": cut}


# ------------------------------------------------------------------ names are texts
def names_are_texts():
    out = []
    for c in (EL.CliParameter, LY.DollarVariable):
        ok = issubclass(c, str) and all(getattr(c, m) is getattr(str, m) for m in ("__eq__", "__ne__", "__hash__"))
        out.append(dict(name="%s compares as its text" % c.__name__, status="proved" if ok else "refuted",
                        backend="inspection of the class"))
    return out


def units(tier):
    kw = dict(loops=LOOPS, timeout_ms=700)
    return [
        DirectUnit("names", names_are_texts, 2),
        Unit("right arguments", spec_accept, ["accepted"], 6, **kw),
        Unit("nothing else", spec_only, ["accepted"], 2, **kw),
        Unit("too many arguments", spec_reject("too many"), ["rejected"], 1, **kw),
        Unit("an unknown keyword", spec_unknown_first, ["rejected"], 1, **kw),
        Unit("a positional argument after a keyword one", spec_reject("positional after keyword"), ["rejected"], 1, **kw),
        Unit("a parameter bound twice", spec_reject("repeated"), ["rejected"], 1, **kw),
    ]
