"""C19: a name is defined at most once, and a rejected definition changes nothing.

The specification object is built by its real constructor, its tables are then arbitrary (any definitions made
before); names are atoms compared by ==."""
import z3

from nessaid_cli import elements as EL
from nessaid_cli import compiler as CO

from pyvc import coll
from pyvc.coll import DV
from pyvc.engine import LoopSpec
from .tok import *

LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["names are str objects compared by =="]

NAMEOF = z3.Function("name_of", V, V)
DEFOF = z3.Function("definition_of", V, V)
DUP = (EL.DuplicateDefinitionException, EL.DuplicateTokendefException)
X = z3.Const("X", V)


def name(e):
    return SVal(e, kinds=lambda E, v, cls: issubclass(str, cls), truthy=lambda E, v: True,
                attrs={"__str__": None})


def obj(e):
    return SVal(e, attrs={"name": lambda E, v: name(NAMEOF(v.e))}, truthy=lambda E, v: True,
                kinds=lambda E, v, cls: True)


def unwrap_obj(v):
    if isinstance(v, SVal) and v.e.sort() == V:
        return v.e
    if isinstance(v, Heap):            # a definition created here: known by its identity
        if not hasattr(v, "atom"):
            v.atom = z3.Const(fresh_name("object"), V)
        return v.atom
    return None


DNAME = coll.Dom("name", V, name, unwrap_obj)
DOBJ = coll.Dom("object", V, obj, unwrap_obj)


def specification(E):
    """a specification after any definitions"""
    k, s = make(E, EL.GrammarSpecification)
    E.prove("constructed", k == "ok")
    if k != "ok":
        raise Dead()
    for f, v in sorted(s.fields.items()):
        if isinstance(v, PyDict) and not v.pairs:
            s.fields[f] = E.new(coll.DictV(E, DNAME, DOBJ, name=f), site=f)
        elif isinstance(v, PyList) and not v.items:
            s.fields[f] = E.new(coll.SeqV(E, DOBJ, name=f), site=f)
        elif isinstance(v, PySet) and not v.items:
            s.fields[f] = E.new(coll.SetV(E, DNAME, name=f), site=f)
    return s


def tables(E, s):
    out = []
    for attr in ("named_grammars", "token_defs"):
        k, d = attempt(E, lambda a=attr: E.getattr(s, a))
        v = coll.view_dict(E, d, DNAME, DOBJ) if k == "ok" else None
        E.prove("%s is a table of names" % attr, v is not None)
        if v is None:
            raise Dead()
        out.append(v)
    return out


def has(t, n):
    return z3.Select(t[0], n)


def same(t, t0, n):
    return z3.And(has(t, n) == has(t0, n), z3.Implies(has(t0, n), z3.Select(t[1], n) == z3.Select(t0[1], n)))


def one(E, s, n, o, which, act):
    """adds one definition and proves the contract of doing so"""
    g0, t0 = tables(E, s)
    new0, other0 = (g0, t0) if which == "grammar" else (t0, g0)
    defined = z3.Or(has(g0, n), has(t0, n))
    k, r = act()
    g, t = tables(E, s)
    new, other = (g, t) if which == "grammar" else (t, g)
    if k == "exc":
        E.cover("rejected")
        E.prove("rejected only with a duplicate-definition error", isinstance(r, Obj) and issubclass(r.cls, DUP))
        E.prove("rejected only when the name was defined before", defined)
        E.prove("a rejected definition leaves every grammar as it was", same(g, g0, X))
        E.prove("a rejected definition leaves every token as it was", same(t, t0, X))
    else:
        E.cover("recorded")
        E.prove("a name defined before is rejected", z3.Not(defined))
        a = o(r) if callable(o) else o
        E.prove("the definition is recorded under its name", z3.And(has(new, n), z3.Select(new[1], n) == a))
        E.prove("no other name changes", z3.Implies(X != n, same(new, new0, X)))
        E.prove("the other table does not change", same(other, other0, X))
    return k, r


def spec_add_grammar(E):
    s = specification(E)
    n = z3.Const("name", V)
    g = z3.Const("grammar", V)
    E.assume(NAMEOF(g) == n)
    one(E, s, n, g, "grammar", lambda: invoke_sync(E, s, "add_grammar", obj(g)))


def spec_add_token(E):
    s = specification(E)
    n, d = z3.Const("name", V), z3.Const("definition", V)
    one(E, s, n, d, "token", lambda: invoke_sync(E, s, "add_token_def", name(n), obj(d)))


def parser(E, s):
    return E.new(Obj(CO.NessaidCliParser, {"_grammar_spec": s}, "parser"))


def keyword(E):
    k, e = make(E, EL.KeywordInputElement, "kw")
    if k != "ok":
        raise Unsupported("KeywordInputElement")
    return e


def spec_compile_grammar(E):
    """the action that compiles a grammar"""
    s = specification(E)
    n = z3.Const("name", V)
    t = E.new(PyList([None, name(n), E.new(PyList([])), ":", keyword(E), ";"]))

    def result(_):
        g = t.items[0]
        ok = isinstance(g, Obj) and g.cls is EL.NamedGrammar
        E.prove("the action yields the grammar", ok)
        if not ok:
            raise Dead()
        return unwrap_obj(g)
    one(E, s, n, result, "grammar", lambda: invoke_sync(E, parser(E, s), "p_named_grammar", t))


# ------------------------------------------------------------------ token definitions of any number
def spec_compile_tokens(E):
    s = specification(E)
    lst = E.new(coll.SeqV(E, coll.Dom("token spec", V, lambda e: (name(NAMEOF(e)), obj(DEFOF(e))),
                                      lambda v: None), name="specs"))
    g0, t0 = tables(E, s)
    J, K = z3.Int("J"), z3.Int("K")
    occ = lst.fold(E, "occ", z3.BoolVal(False), lambda acc, e: z3.Or(acc, NAMEOF(e) == X))
    E.ghost.update(lst=lst, g0=g0, t0=t0, occ=occ, spec=s)
    p = E.new(PyList([None, "token", lst, ";"]))
    k, r = invoke_sync(E, parser(E, s), "p_token_block", p)
    g, t = tables(E, s)
    E.prove("no grammar changes", same(g, g0, X))
    E.prove("every token defined before is as it was", z3.Implies(has(t0, X), same(t, t0, X)))
    if k == "exc":
        E.cover("rejected")
        E.prove("rejected only with a duplicate-definition error", isinstance(r, Obj) and issubclass(r.cls, DUP))
        return
    E.cover("recorded")
    at = lambda j: NAMEOF(lst.at(j))
    inr = z3.And(0 <= J, J < lst.n)
    E.prove("each is recorded under its name", z3.Implies(inr, z3.And(
        has(t, at(J)), z3.Select(t[1], at(J)) == DEFOF(lst.at(J)))))
    E.prove("a name defined before is rejected", z3.Implies(inr, z3.Not(z3.Or(has(g0, at(J)), has(t0, at(J))))))
    E.prove("a name given twice is rejected", z3.Implies(z3.And(inr, J < K, K < lst.n), at(J) != at(K)))
    E.prove("no other name changes", z3.Implies(z3.Not(occ(lst.n)), same(t, t0, X)))


def inv_tokens(E, env, i, it):
    lst = E.ghost.get("lst")
    if it is not lst or lst is None:
        return []
    g0, t0, occ, s = [E.ghost[k] for k in ("g0", "t0", "occ", "spec")]
    J, K = z3.Int("J"), z3.Int("K")
    d = [coll.view_dict(E, E.getattr(s, a), DNAME, DOBJ) for a in ("named_grammars", "token_defs")]
    if None in d:
        return []
    g, t = d
    at = lambda j: NAMEOF(lst.at(j))
    inr = z3.And(0 <= J, J < i)
    lst.touch(E, J)
    return [("grammars", same(g, g0, X)), ("old", z3.Implies(has(t0, X), same(t, t0, X))),
            ("recorded", z3.Implies(inr, z3.And(has(t, at(J)), z3.Select(t[1], at(J)) == DEFOF(lst.at(J))))),
            ("recorded K", z3.Implies(z3.And(0 <= K, K < i), has(t, at(K)))),
            ("new names", z3.Implies(inr, z3.Not(z3.Or(has(g0, at(J)), has(t0, at(J)))))),
            ("once", z3.Implies(z3.And(inr, J < K, K < i), at(J) != at(K))),
            ("once'", z3.Implies(z3.And(0 <= K, K < i, K < J, J < i), at(J) != at(K))),
            ("others", z3.Implies(z3.Not(occ(i)), same(t, t0, X))),
            ("grammars at J", z3.Implies(z3.And(0 <= J, J < lst.n), same(g, g0, at(J)))),
            ("tokens at J", z3.Implies(z3.And(i <= J, J < lst.n, has(t0, at(J))), has(t, at(J))))]


# ------------------------------------------------------------------ parameters
def params(E):
    return E.new(coll.SeqV(E, DNAME, name="params"))


def inv_params(E, env, i, it):
    out = []
    if i is None or not isinstance(it, coll.SeqV):
        return out
    j = z3.Int(fresh_name("j"))
    p, q = E.ghost.get("pq", (None, None))
    seen = dict(env.vars)
    for n, v in list(seen.items()):
        if isinstance(v, Obj):
            for f, w in v.fields.items():
                seen["%s.%s" % (n, f)] = w
    for n, v in sorted(seen.items()):
        if v is it:
            continue
        if isinstance(v, (PyList, coll.SeqV)) and not (isinstance(v, coll.SeqV) and v.kind is tuple):
            w = coll.view_seq(E, v, DNAME)
            if w is None:
                continue
            out.append(("%s length" % n, w[1] == i))
            out.append(("%s elements" % n, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < i), z3.Select(w[0], j) == it.at(j)))))
        elif isinstance(v, (PySet, coll.SetV)):
            m = coll.view_set(E, v, DNAME)
            if m is None:
                continue
            x = z3.Const(fresh_name("x"), V)
            pos = z3.Function(fresh_name("pos"), V, z3.IntSort())
            out.append(("%s holds the first i" % n, z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < i), z3.Select(m, it.at(j))))))
            k = z3.Int(fresh_name("k"))
            out.append(("%s holds only the first i" % n, z3.ForAll([x], z3.Implies(
                z3.Select(m, x), z3.Exists([k], z3.And(0 <= k, k < i, it.at(k) == x))))))
    if p is not None:
        out.append(("the repeated one is not passed", i <= q))
    return out


PARAMS = LoopSpec(inv_params)


def spec_params_distinct(E):
    ps = params(E)
    i, j, J = z3.Ints("i j J")
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ps.n), ps.at(i) != ps.at(j))))
    k, g = make(E, EL.NamedGrammar, name(z3.Const("name", V)), ps, keyword(E))
    E.prove("distinct parameters are accepted", k == "ok")
    if k != "ok":
        return
    E.cover("accepted")
    k, l = attempt(E, lambda: E.getattr(g, "param_list"))
    v = coll.view_seq(E, l, DNAME) if k == "ok" else None
    E.prove("a list of parameters", v is not None)
    if v is not None:
        E.prove("as many parameters as given", v[1] == ps.n)
        E.prove("the parameters given, in order", z3.Implies(z3.And(0 <= J, J < ps.n), z3.Select(v[0], J) == ps.at(J)))


def spec_params_repeated(E):
    ps = params(E)
    p, q = z3.Ints("p q")
    E.assume(z3.And(0 <= p, p < q, q < ps.n, ps.at(p) == ps.at(q)))
    E.ghost["pq"] = (p, q)
    E.ghost["arr"] = ps.arr
    k, g = make(E, EL.NamedGrammar, name(z3.Const("name", V)), ps, keyword(E))
    E.prove("two parameters of the same name are rejected", k == "exc" and isinstance(g, Obj) and
            issubclass(g.cls, Exception))
    if k == "exc":
        E.cover("rejected")


def units(tier):
    kw = dict(dom=DNAME, vdom=DOBJ)
    lp = dict(loops={"*": LoopSpec(inv_tokens)})
    pp = dict(loops={"*": lambda E, s, env, it: PARAMS if isinstance(it, coll.SeqV) else None}, timeout_ms=2000)
    both = ["rejected", "recorded"]
    return [
        Unit("add a grammar", spec_add_grammar, both, 8, **kw),
        Unit("add a token", spec_add_token, both, 8, **kw),
        Unit("compile a grammar", spec_compile_grammar, both, 8, **kw),
        Unit("compile token definitions", spec_compile_tokens, both, 7, **kw, **lp),
        Unit("distinct parameters", spec_params_distinct, ["accepted"], 4, **kw, **pp),
        Unit("a repeated parameter", spec_params_repeated, ["rejected"], 1, **kw, **pp),
    ]
