"""C09: keywords and alternatives match, complete and evaluate by unique prefix.

Texts are abstract atoms: the only facts about them are "begins with" (PRE, reflexive, the empty text begins
everything) and the conversions CLI and PY between a string and its notation (uninterpreted)."""
import z3

from pyvc import coll
from pyvc.engine import Coro, LoopSpec, Univ
from .tok import *

LEVEL = "proof"
TRUSTED = ["convert_to_cli_string and convert_to_python_string as functions of the text (their own contract is C07)",
           "str.startswith: reflexive, true for the empty prefix, antisymmetric"]
ASSUMPTIONS = ["alternatives are given as a list, set or tuple of strings of any length"]

PRE = z3.Function("begins", V, V, z3.BoolSort())      # PRE(p, s): s begins with p
CLI = z3.Function("notation", V, V)
PY = z3.Function("conversion", V, V)
EMPTY = z3.Const("empty_text", V)


def startswith(E, self, a, k):
    return SBool(PRE(unwrap(a[0]), self.e))


def text(e):
    return SVal(e, attrs={"binop": None}, methods={"startswith": startswith},
                truthy=lambda E, v: v.e != EMPTY, kinds=lambda E, v, cls: issubclass(str, cls))


def unwrap(v):
    if isinstance(v, SVal) and v.e.sort() == V:
        return v.e
    if isinstance(v, str) and v == "":
        return EMPTY
    return None


DTXT = coll.Dom("txt", V, text, unwrap, pointwise=True)


def axioms(E):
    def facts(x):
        return z3.And(PRE(x, x), PRE(EMPTY, x), *[z3.Implies(z3.And(PRE(x, y), PRE(y, x)), x == y)
                                                  for y in E.points.get("V", []) if not y.eq(x)])
    E.forall(V, facts)
    E.point(EMPTY)


def to_cli(E, args, kwargs):
    return text(CLI(unwrap(args[0])))


def to_py(E, args, kwargs):
    return text(PY(unwrap(args[0])))


CONTRACTS = {"nessaid_cli.utils:convert_to_cli_string": to_cli, "nessaid_cli.utils:convert_to_python_string": to_py}


def is_txt(v, e):
    u = unwrap(v)
    return u is not None and u == e


def eqb(r, c):
    x = eq_const(r, c)
    return x if z3.is_expr(x) else z3.BoolVal(bool(x))


# ------------------------------------------------------------------ keywords
def spec_keyword(E):
    axioms(E)
    name, i = text(E.point(z3.Const("name", V))), text(E.point(z3.Const("input", V)))
    E.point(CLI(name.e))
    k, t = make(E, T.CliToken, name)
    E.prove("constructed", k == "ok")
    if k != "ok":
        return
    w = CLI(name.e)
    pre = PRE(i.e, w)
    k, m = invoke(E, t, "match", i)
    E.prove("match: no exception", k == "ok")
    if k == "ok":
        E.cover("match")
        E.prove("succeeds exactly on its own text", eqb(m, SUCCESS) == (i.e == w))
        E.prove("partial exactly on its proper prefixes", eqb(m, PARTIAL) == z3.And(pre, i.e != w))
        E.prove("fails on everything else", eqb(m, FAILURE) == z3.Not(pre))
    k, r = invoke(E, t, "complete", i)
    E.prove("complete: no exception", k == "ok")
    good = k == "ok" and isinstance(r, tuple) and len(r) == 2
    v = coll.view_seq(E, r[1], DTXT) if good else None
    E.prove("complete: a count and a list", v is not None)
    if v is not None:
        E.cover("complete")
        E.prove("offers exactly itself, when it extends the input",
                z3.And(B.zint(r[0]) == v[1], v[1] == z3.If(pre, 1, 0),
                       z3.Implies(pre, z3.Select(v[0], 0) == w)))
    k, x = invoke(E, t, "get_value", i)
    E.prove("value: no exception", k == "ok")
    if k == "ok":
        if is_null(x):
            E.prove("no value only for what it does not begin with", z3.Not(pre))
        else:
            E.prove("a value only for what it begins with", pre)
            E.prove("the value is the keyword", is_txt(x, PY(w)))


# ------------------------------------------------------------------ alternatives
def alternatives(E, kind, name):
    """a list of any length and its members: MEM, with the first position of each (FIRST)"""
    s = E.new(coll.SeqV(E, DTXT, kind=kind, name=name))
    describe(E, s)
    return s


def describe(E, s):
    coll.describe(E, s)
    E.ghost["options"] = s


def hook(E, src, r):
    """a list computed element by element from the alternatives is described in the same way"""
    describe(E, r)


def invariants(E, env, i, it):
    out = []
    if i is None or not isinstance(it, coll.SeqV) or it.first is None:
        return out
    inp = [(n, unwrap(v)) for n, v in sorted(env.vars.items()) if isinstance(v, SVal) and v.e.sort() == V]
    for n, v in sorted(env.vars.items()):
        if v is it or not isinstance(v, (PySet, coll.SetV, PyList, coll.SeqV)):
            continue
        m = coll.view_set(E, v, DTXT)
        if m is None:
            continue
        if isinstance(v, (PyList, coll.SeqV)):
            out.append(("%s holds nothing twice" % n, coll.Distinct(v)))
        for t, e in inp:
            out.append(("%s holds those of the first i that begin with %s" % (n, t), Univ(
                V, lambda y, m=m, e=e: z3.simplify(z3.Select(m, y)) ==
                z3.And(z3.Select(it.members, y), it.first(y) < i, PRE(e, y)))))
    return out


def cut(E, s, env, it):
    return SPEC if isinstance(it, coll.SeqV) else None


SPEC = LoopSpec(invariants)
LOOPS = {"*": cut}


def token_of(E, kind):
    axioms(E)
    E.cdom, E.comp_hook = DTXT, hook
    alts = alternatives(E, kind, "alternatives")
    i = text(E.point(z3.Const("input", V)))
    E.assume(i.e != EMPTY)
    k, t = make(E, T.AlternativeStringsToken, text(z3.Const("name", V)), alts)
    E.prove("constructed", k == "ok")
    if k != "ok":
        raise Dead()
    opt = E.ghost["options"]
    J = z3.Int("J")
    # what the token offers is the notation of each alternative, in place
    E.prove("one option per alternative", z3.And(opt.n == alts.n, z3.Implies(
        z3.And(0 <= J, J < opt.n), opt.at(J) == CLI(alts.at(J)))))
    cand = lambda y: z3.And(z3.Select(opt.members, y), PRE(i.e, y))
    return t, opt, i, cand


def some(E, cand):
    return E.some(V, cand)


def unique(E, cand):
    y, z = [E.point(z3.Const(n, V)) for n in ("Y", "Z")]
    return z3.And(some(E, cand), z3.Implies(z3.And(cand(y), cand(z)), y == z))


def several(E, cand):
    ps = list(E.points["V"])
    return z3.Or(*[z3.And(cand(p), cand(q), p != q) for p in ps for q in ps if not p.eq(q)])


def spec_alt_match(kind):
    def run(E):
        t, opt, i, cand = token_of(E, kind)
        member = z3.Select(opt.members, i.e)
        Y = E.point(z3.Const("Y", V))
        k, m = invoke(E, t, "match", i)
        E.prove("no exception", k == "ok")
        if k != "ok":
            return
        if not isinstance(m, str):
            E.prove("a match result", False)
            return
        E.cover(m)
        if m == SUCCESS:
            E.prove("succeeds only on a member or on a prefix of exactly one", z3.Or(member, unique(E, cand)))
        elif m == PARTIAL:
            E.prove("partial only on a proper prefix of several", z3.And(z3.Not(member), several(E, cand)))
        else:
            E.prove("one of the three results", m == FAILURE)
            E.prove("fails only on what no member begins with", z3.Not(cand(Y)))
    return run


def spec_alt_complete(E):
    t, opt, i, cand = token_of(E, list)
    Y, J = E.point(z3.Const("Y", V)), z3.Int("J")
    k, r = invoke(E, t, "complete", i)
    E.prove("no exception", k == "ok")
    good = k == "ok" and isinstance(r, tuple) and len(r) == 2
    v = r[1] if good else None
    arr = coll.view_seq(E, v, DTXT) if isinstance(v, (PyList, coll.SeqV)) else None
    E.prove("a count and a list", arr is not None)
    if arr is None:
        return
    E.cover("done")
    mem = coll.view_set(E, v, DTXT)
    E.prove("offers exactly the members that begin with the input", z3.simplify(z3.Select(mem, Y)) == cand(Y))
    if isinstance(v, coll.SeqV):
        v.touch(E, J)
    E.prove("everything in the list is offered", z3.Implies(z3.And(0 <= J, J < arr[1]),
                                                           z3.simplify(z3.Select(mem, z3.Select(arr[0], J)))))
    E.prove("the count is the length of the list", B.zint(r[0]) == arr[1])


def spec_alt_empty(E):
    """nothing typed: everything is offered"""
    t, opt, _i, cand = token_of(E, list)
    Y, J = E.point(z3.Const("Y", V)), z3.Int("J")
    k, r = invoke(E, t, "complete", "")
    E.prove("no exception", k == "ok")
    good = k == "ok" and isinstance(r, tuple) and len(r) == 2
    mem = coll.view_set(E, r[1], DTXT) if good and isinstance(r[1], (PyList, coll.SeqV)) else None
    E.prove("a list", mem is not None)
    if mem is not None:
        E.cover("done")
        E.prove("offers exactly the members", z3.simplify(z3.Select(mem, Y)) == z3.Select(opt.members, Y))


def spec_alt_value(E):
    t, opt, i, cand = token_of(E, list)
    member = z3.Select(opt.members, i.e)
    Y, Z = [E.point(z3.Const(n, V)) for n in ("Y", "Z")]
    k, x = invoke(E, t, "get_value", i)
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    if is_null(x):
        E.cover("none")
        E.prove("no value only when the input determines no member",
                z3.And(z3.Not(member), z3.Or(several(E, cand), z3.Not(cand(Y)))))
        return
    E.cover("value")
    u = unwrap(x)
    E.prove("the value is a text", u is not None)
    if u is None:
        return
    E.prove("the value is the one member the input determines",
            z3.Or(z3.And(member, u == PY(i.e)),
                  z3.And(E.some(V, lambda y: z3.And(cand(y), u == PY(y))),
                         z3.Implies(z3.And(cand(Y), cand(Z)), Y == Z))))


def spec_alt_forms(E):
    """alternatives written out as arguments mean the same as a list of them"""
    axioms(E)
    a, b = text(z3.Const("a", V)), text(z3.Const("b", V))
    i = text(z3.Const("input", V))
    E.assume(i.e != EMPTY)
    Y = E.point(z3.Const("Y", V))
    args = [text(z3.Const("name", V)), a] + ([b] if E.choose(2, "arguments") else [])
    k, t = make(E, T.AlternativeStringsToken, *args)
    E.prove("constructed", k == "ok")
    if k != "ok":
        return
    k, r = invoke(E, t, "complete", i)
    good = k == "ok" and isinstance(r, tuple) and len(r) == 2
    mem = coll.view_set(E, r[1], DTXT) if good and isinstance(r[1], (PyList, coll.SeqV)) else None
    E.prove("a list", mem is not None)
    if mem is not None:
        E.cover("done")
        E.prove("offers exactly the arguments that begin with the input", z3.simplify(z3.Select(mem, Y)) == z3.And(
            PRE(i.e, Y), z3.Or(*[Y == CLI(x.e) for x in args[1:]])))


def units(tier):
    kw = dict(contracts=CONTRACTS, loops=LOOPS, dom=DTXT, timeout_ms=10000)
    return [
        Unit("keyword", spec_keyword, ["match", "complete"], 9, **kw),
        Unit("alternatives match (list)", spec_alt_match(list), [SUCCESS, PARTIAL, FAILURE], 4, **kw),
        Unit("alternatives match (tuple)", spec_alt_match(tuple), [SUCCESS, PARTIAL, FAILURE], 4, **kw),
        Unit("alternatives complete", spec_alt_complete, ["done"], 5, **kw),
        Unit("alternatives complete, nothing typed", spec_alt_empty, ["done"], 3, **kw),
        Unit("alternatives value", spec_alt_value, ["value", "none"], 4, **kw),
        Unit("alternatives as arguments", spec_alt_forms, ["done"], 3, **kw),
    ]
