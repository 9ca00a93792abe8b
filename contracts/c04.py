"""C04: actions run in grammar order, once per matched element."""
from . import c20
from .ctx import *
from pyvc.engine import Univ
from .c06 import Params, Mapping, argument, new_variable, NEWVARS, MAPPED, PNAME, PIDX, INDEX, VALUEOF, context, \
    mapping, invariants as variable_invariants, DPARAM, fresh_at

LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["execute_success_sequence enters and leaves elements in the order of the match (searched, not proved)"]

NG = z3.Function("grammars_before", I_, I_)       # number of grammars among the first elements of the stack
AT = z3.Function("position_of_path", V, I_)
GI = z3.Function("position_of_grammar", I_, I_)


def unfold_ng(E, es, k):
    E.assume(NG(z3.IntVal(0)) == 0)
    E.assume(z3.Implies(k >= 0, z3.And(NG(k) >= 0, NG(k + 1) == NG(k) + z3.If(is_grammar(z3.Select(es, k)), 1, 0))))


def monotone(E, a, b):
    """lemma 'grammars_before grows'"""
    E.assume(z3.Implies(z3.And(0 <= a, a <= b), NG(a) <= NG(b)))


P = z3.Const("P", V)


def setting(E):
    me, c = context(E)
    es, gs, cache = stacks(E, me)
    inv = Inv(E, es, gs, cache)
    E.ghost["inv0"] = inv
    return me, c, es, gs, cache, inv


def know(E, inv, positions, paths):
    for j in positions:
        for _n, x in inv.conds(E, NG, AT, j):
            E.assume(x)
    for p in paths:
        E.assume(inv.cached(AT, p)[1])
    for k in (J, inv.gn - 1):
        E.assume(inv.grammar(NG, GI, k)[1])
        for _n, x in inv.conds(E, NG, AT, GI(k)):
            E.assume(x)


def stacks_of(E, me):
    out = []
    for f, dom in (("_element_stack", DNODE), ("_grammar_stack", DNODE)):
        v = me.fields[f]
        x = coll.view_seq(E, v, dom)
        if x is None:
            raise Unsupported(f)
        out.append(x)
    c = coll.view_dict(E, me.fields["_element_stack_cache"], DPATH, DNODE)
    if c is None:
        raise Unsupported("cache")
    return out[0], out[1], c


def same_stacks(E, me, inv):
    (ea, en), (ga, gn), (cd, cv) = stacks_of(E, me)
    return z3.And(en == inv.en, gn == inv.gn,
                  z3.Implies(z3.And(0 <= J, J < en), z3.Select(ea, J) == z3.Select(inv.es, J)),
                  z3.Implies(z3.And(0 <= J, J < gn), z3.Select(ga, J) == z3.Select(inv.gs, J)),
                  z3.Select(cd, P) == z3.Select(inv.cd, P),
                  z3.Implies(z3.Select(cd, P), z3.Select(cv, P) == z3.Select(inv.cv, P)))


def execute_binding(E, args, kwargs):
    """contract of execute_binding(action): runs it (C20); it changes what variables hold, and the variables of the
    grammar in effect"""
    def body():
        t = unwrap(args[1])
        E.prove("the action run is one of the element's", t is not None)
        E.ghost["ran"].append((t, ctx(E).snap(), stacks_of(E, args[0])))
        c = ctx(E)
        c.cont.put(E, z3.Const(fresh_name("content"), A1))
        a, b = z3.Const(fresh_name("vars"), AB), z3.Const(fresh_name("vars"), A1)
        (ga, gn) = E.ghost["ran"][-1][2][1]
        top = z3.Select(ga, gn - 1)
        c.nvd.put(E, z3.If(gn > 0, z3.Store(c.nvd.m, top, a), c.nvd.m))
        c.nv.put(E, z3.If(gn > 0, z3.Store(c.nv.m, top, b), c.nv.m))
        E.ghost["after action"] = c.snap()
        return None
    return Coro(body, "execute_binding")


def clean(E, c, t):
    """a node that is not on the stack"""
    for m, z in ((c.nvd, NOVARS), (c.tvd, NOVARS), (c.inp, EMPTY)):
        E.assume(z3.Select(m.m, t) == z)
    E.assume(LEN(EMPTY) == 0)


def spec_enter(E):
    me, c, es, gs, cache, inv = setting(E)
    n = z3.Const("node", V)
    tok = z3.Const("token value", V)
    E.ghost["ran"] = []
    k0, m0, top = es.n, c.snap(), z3.Select(es.arr, es.n - 1)
    know(E, inv, [J, es.n - 1], [PATH(n), P])
    unfold_ng(E, es.arr, es.n - 1)
    on = z3.Select(cache.dom, PATH(n))
    E.assume(z3.Implies(z3.Not(on), z3.And(*[z3.Select(m.m, n) == z for m, z in ((c.nvd, NOVARS), (c.tvd, NOVARS),
                                                                               (c.inp, EMPTY))])))
    E.assume(z3.Implies(k0 == 0, is_grammar(n)))            # the first node entered is the grammar
    # a grammar other than the first is entered from the element referring to it
    e = ELEM(n)
    params, args = E.new(Params(E), site="params"), E.new(Obj(object, {}, "arguments"))
    roots = E.new(coll.SeqV(E, DVAR, name="root arguments"), site="roots")
    ridx = z3.Function("index_of_root", V, I_)
    rarr, rn = roots.arr, roots.n
    roots.on_elem.append(lambda E2, k: E2.assume(z3.Implies(z3.And(0 <= k, k < rn), z3.And(
        ridx(z3.Select(m0["names"], z3.Select(rarr, k))) == k, INDEX(z3.Select(rarr, k)) < m0["alloc"]))))
    rx = z3.And(0 <= ridx(X), ridx(X) < rn, z3.Select(m0["names"], z3.Select(rarr, ridx(X))) == X)
    E.assume(INDEX(z3.Select(rarr, ridx(X))) < m0["alloc"])
    me.fields["_root_arglist"] = roots
    E.ghost["setting"] = dict(before=m0, params=params, args=args, roots=roots, node=n, rx=rx, ridx=ridx)
    E.ghost["params"] = lambda E, v: params
    E.ghost["args"] = lambda E, v: args

    def resolve(E, args, kwargs):
        def body():
            t = unwrap(args[1])
            ok = t is not None and z3.is_app(t) and t.decl().eq(MAPPED)
            E.prove("what is resolved is an argument of the reference", ok)
            E.prove("arguments are resolved where the reference is", same_stacks(E, me, inv))
            return content(RESOLVED(t))
        return Coro(body, "resolve_argument")
    E.contracts[q(IF.ExecContext, "resolve_argument")] = resolve
    k, r = invoke(E, me, "enter", node(n), content(tok))
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    m1 = c.snap()
    (ea, en), (ga, gn), (cd, cv) = stacks_of(E, me)
    ran = E.ghost["ran"]
    if E.fork(on, "already entered"):
        E.cover("already entered")
        E.prove("nothing runs for an element that is entered already", not ran)
        t = z3.Select(inv.cv, PATH(n))
        E.prove("the stacks stay as they are", same_stacks(E, me, inv))
        E.prove("the input is added to those of the element", z3.Select(m1["inp"], NODE) == z3.If(
            NODE == t, APPENDED(z3.Select(m0["inp"], t), tok), z3.Select(m0["inp"], NODE)))
        E.prove("no variable changes", z3.And(*[m1[f] == m0[f] for f in m0 if f != "inp"]))
        return
    E.cover("entered")
    E.prove("the action before the element runs once, exactly if it has one",
            z3.And(z3.BoolVal(len(ran) <= 1), HASPRE(e) == z3.BoolVal(len(ran) == 1)))
    if ran:
        E.cover("action")
        t, at, st = ran[0]
        E.prove("it is the action before this element", t is not None and t == PRE(e))
        (a1, b1), (a2, b2), (d1, v1) = st
        E.prove("it runs in the grammar around the element", z3.And(
            b1 == inv.en, b2 == inv.gn, z3.Implies(z3.And(0 <= J, J < b2), z3.Select(a2, J) == z3.Select(inv.gs, J))))
    E.prove("the element is the innermost one entered", z3.And(
        en == inv.en + 1, z3.Select(ea, inv.en) == n,
        z3.Implies(z3.And(0 <= J, J < inv.en), z3.Select(ea, J) == z3.Select(inv.es, J))))
    E.prove("a grammar is the innermost instance, other elements are none", z3.And(
        gn == inv.gn + z3.If(is_grammar(n), 1, 0), z3.Implies(is_grammar(n), z3.Select(ga, inv.gn) == n),
        z3.Implies(z3.And(0 <= J, J < inv.gn), z3.Select(ga, J) == z3.Select(inv.gs, J))))
    E.prove("its input is the only one", z3.Select(m1["inp"], NODE) == z3.If(
        NODE == n, APPENDED(EMPTY, tok), z3.Select(m0["inp"], NODE)))
    ng1 = lambda k: z3.If(k <= inv.en, NG(k), NG(inv.en) + z3.If(is_grammar(n), 1, 0))
    at1 = lambda p: z3.If(p == PATH(n), inv.en, AT(p))
    after = type("S", (), dict(es=ea, en=en, gs=ga, gn=gn, cd=cd, cv=cv))
    prove_inv(E, after, ng1, at1, lambda k: z3.If(k < inv.gn, GI(k), inv.en))
    # variables
    m2 = E.ghost.get("after action", m0)
    gtop = z3.Select(inv.gs, inv.gn - 1)
    d, v = z3.Select(m1["nvd"], n), z3.Select(m1["nv"], n)
    if E.fork(EK(e) == 0, "grammar"):
        if E.fork(k0 == 0, "first grammar"):
            E.cover("first grammar")
            E.prove("the grammar has exactly the variables of the command's parameters", z3.And(
                z3.Select(d, X) == rx, z3.Implies(rx, z3.Select(v, X) == z3.Select(rarr, ridx(X)))))
        else:
            E.cover("referenced grammar")
            td, tv = z3.Select(m2["nvd"], top), z3.Select(m2["nv"], top)
            E.prove("a referenced grammar has exactly the variables of its reference", z3.And(
                z3.Select(d, X) == z3.Select(td, X), z3.Implies(z3.Select(td, X), z3.Select(v, X) == z3.Select(tv, X))))
    elif E.fork(EK(e) == 1, "reference"):
        E.cover("reference")
        a0 = m0["alloc"]
        mine = params.has(X)
        E.prove("a reference makes a variable for every parameter", z3.Select(d, X) == mine)
        E.prove("it is a new one", z3.Implies(mine, z3.And(z3.Select(v, X) == NEWV(a0 + PIDX(X)))))
        E.prove("it holds the argument itself: a variable is passed, not its value", z3.Implies(
            mine, z3.Select(m1["cont"], NEWV(a0 + PIDX(X))) == RESOLVED(MAPPED(X))))
    else:
        E.cover("other")
        E.prove("other elements have no variables of their own", z3.Not(z3.Select(d, X)))
    E.prove("variables of other elements are those the action left", z3.Implies(NODE != n, z3.And(
        z3.Select(m1["nvd"], NODE) == z3.Select(m2["nvd"], NODE), z3.Select(m1["nv"], NODE) == z3.Select(m2["nv"], NODE),
        z3.Select(m1["tvd"], NODE) == z3.Select(m2["tvd"], NODE), z3.Select(m1["tv"], NODE) == z3.Select(m2["tv"], NODE))))
    E.prove("what existing variables hold does not change", z3.Implies(INDEX(Y) < m0["alloc"], z3.And(
        z3.Select(m1["cont"], Y) == z3.Select(m2["cont"], Y), z3.Select(m1["names"], Y) == z3.Select(m2["names"], Y))))


def prove_inv(E, st, ng, at, gi):
    inv = Inv.__new__(Inv)
    inv.es, inv.en, inv.gs, inv.gn, inv.cd, inv.cv = st.es, st.en, st.gs, st.gn, st.cd, st.cv
    for n, x in inv.conds(E, ng, at, J):
        E.prove(n, x)
    E.prove(*inv.cached(at, P))
    E.prove(*inv.grammar(ng, gi, J))


def loops(E, env, i, it):
    """the loops of enter: over the roots' variables, over the variables of the reference, over the new variables"""
    out = variable_invariants(E, env, i, it)
    s = E.ghost.get("setting")
    if s is None or i is None:
        return out
    c = ctx(E)
    n, m0 = s["node"], s["before"]
    d, v = z3.Select(c.nvd.m, n), z3.Select(c.nv.m, n)
    key = ("at loop", id(it))
    other = lambda m: z3.Implies(NODE != n, z3.And(
        z3.Select(c.nvd.m, NODE) == z3.Select(m["nvd"], NODE), z3.Select(c.nv.m, NODE) == z3.Select(m["nv"], NODE)))
    if it is s.get("roots"):
        it.touch(E, i)
        it.touch(E, i - 1)
        r = s["ridx"]
        rx = z3.And(s["rx"], r(X) < i)
        out.append(("the variables so far", z3.And(z3.Select(d, X) == rx, z3.Implies(
            rx, z3.Select(v, X) == z3.Select(it.arr, r(X))))))
        out.append(("no other element", other(E.ghost.get("after action", m0))))
    elif isinstance(it, coll.SeqV) and hasattr(it, "index_of"):
        it.touch(E, i)
        it.touch(E, i - 1)
        t = it.owner.t
        b = it.before
        td, tv = z3.Select(b["nvd"], t), z3.Select(b["nv"], t)
        rx = z3.And(z3.Select(td, X), it.index_of(X) < i)
        out.append(("the variables so far", z3.And(z3.Select(d, X) == rx, z3.Implies(
            rx, z3.Select(v, X) == z3.Select(tv, X)))))
        out.append(("no other element", other(b)))
    elif isinstance(it, coll.SeqV) and not isinstance(it, Params) and it.dom is DVAR:
        a0 = m0["alloc"]
        for k in (i - 1, i, PIDX(X), J):
            fresh_at(E, a0, k)
        mine = z3.And(s["params"].has(X), PIDX(X) < i)
        w = NEWV(a0 + PIDX(X))
        out.append(("the variables so far", z3.Select(d, X) == mine))
        out.append(("each is the new one", z3.Implies(mine, z3.Select(v, X) == w)))
        out.append(("it holds the argument", z3.Implies(mine, z3.Select(c.cont.m, w) == RESOLVED(MAPPED(X)))))
        out.append(("the others hold nothing yet", z3.Implies(z3.And(s["params"].has(X), PIDX(X) >= i),
                                                               z3.Select(c.cont.m, w) == NONE)))
        cont, size = c.cont.m, it.n
        E.point(i)
        E.point(PIDX(X))
        s["params"].touch(E, i)
        out.append(("each holds nothing before its turn", Univ(I_, lambda j: z3.Implies(z3.And(
            i <= j, j < size, INDEX(NEWV(a0 + j)) == a0 + j), z3.Select(cont, NEWV(a0 + j)) == NONE))))
        out.append(("no other element", other(E.ghost.get("after action", m0))))
        out.append(("existing variables", z3.Implies(INDEX(Y) < a0, z3.And(
            z3.Select(c.cont.m, Y) == z3.Select(E.ghost.get("after action", m0)["cont"], Y),
            z3.Select(c.names.m, Y) == z3.Select(m0["names"], Y)))))
    return out


LOOPS = {"*": LoopSpec(loops)}


def spec_exit(E):
    me, c, es, gs, cache, inv = setting(E)
    n = z3.Const("node", V)
    E.ghost["ran"] = []
    m0 = c.snap()
    top, below = z3.Select(es.arr, es.n - 1), z3.Select(es.arr, es.n - 2)
    know(E, inv, [J, es.n - 1, es.n - 2], [PATH(n), P])
    unfold_ng(E, es.arr, es.n - 1)
    unfold_ng(E, es.arr, J)
    monotone(E, J + 1, es.n - 1)
    E.assume(z3.And(es.n >= 1, PATH(n) == PATH(top)))         # what is left is the innermost element entered
    E.assume(LEN(z3.Select(m0["inp"], top)) >= 1)
    k, r = invoke(E, me, "exit", node(n))
    E.prove("leaving the innermost element does not fail", k == "ok")
    if k != "ok":
        return
    E.cover("left")
    m1 = c.snap()
    (ea, en), (ga, gn), (cd, cv) = stacks_of(E, me)
    ran = E.ghost["ran"]
    e = ELEM(top)
    E.prove("the action after the element runs once, exactly if it has one",
            z3.And(z3.BoolVal(len(ran) <= 1), HASPOST(e) == z3.BoolVal(len(ran) == 1)))
    pe = ELEM(below)
    number = z3.If(z3.Or(EK(pe) == 2, COUNT(pe) > 1), z3.IntVal(0), POS(top)) + 1
    if ran:
        E.cover("action")
        t, at, st = ran[0]
        E.prove("it is the action after this element", t is not None and t == POST(e))
        (a1, b1), (a2, b2), _ = st
        E.prove("it runs in the same instance as the action before", z3.And(
            b2 == inv.gn, z3.Implies(z3.And(0 <= J, J < b2), z3.Select(a2, J) == z3.Select(inv.gs, J))))
        E.prove("it runs after the element was taken off", z3.And(
            b1 == inv.en - 1, z3.Implies(z3.And(0 <= J, J < b1), z3.Select(a1, J) == z3.Select(inv.es, J))))
        tvd, tv = z3.Select(at["tvd"], below), z3.Select(at["tv"], below)
    else:
        tvd, tv = z3.Select(m1["tvd"], below), z3.Select(m1["tv"], below)
        at = m1
    x = NUMNAME(number)
    w = z3.Select(tv, x)
    s = z3.Select(m0["inp"], top)
    E.prove("the element around it can refer to its input by its number", z3.Implies(inv.en >= 2, z3.And(
        z3.Select(tvd, x), INDEX(w) >= m0["alloc"])))
    E.prove("a single input is referred to as itself", z3.Implies(z3.And(inv.en >= 2, LEN(s) == 1), z3.Select(
        at["cont"], w) == ONE(s)))
    E.prove("several are referred to as a list", z3.Implies(z3.And(inv.en >= 2, LEN(s) != 1), z3.Select(
        at["cont"], w) == HANDED(top)))
    E.prove("the element is taken off", z3.And(
        en == inv.en - 1, z3.Implies(z3.And(0 <= J, J < en), z3.Select(ea, J) == z3.Select(inv.es, J))))
    E.prove("the grammar in effect is the one around it", z3.And(
        gn == inv.gn - z3.If(is_grammar(top), 1, 0),
        z3.Implies(z3.And(0 <= J, J < gn), z3.Select(ga, J) == z3.Select(inv.gs, J))))
    after = type("S", (), dict(es=ea, en=en, gs=ga, gn=gn, cd=cd, cv=cv))
    prove_inv(E, after, NG, AT, GI)
    E.prove("nothing of it stays behind", z3.And(*[z3.Select(m1[f], top) == z for f, z in (
        ("nvd", NOVARS), ("tvd", NOVARS), ("inp", EMPTY))]))
    gtop = z3.Select(inv.gs, inv.gn - 1)
    E.prove("the variables of other elements stay, apart from what the action does", z3.Implies(z3.And(
        NODE != top, z3.Or(NODE != gtop, z3.BoolVal(not ran))), z3.Select(m1["nvd"], NODE) == z3.Select(m0["nvd"], NODE)))


def spec_counts(E):
    """grammars_before grows"""
    a, b = z3.Ints("a b")
    es = z3.Const("es", A1)
    E.assume(z3.And(0 <= a, a <= b, NG(a) <= NG(b)))
    unfold_ng(E, z3.Const("stack", z3.ArraySort(I_, V)), b)
    E.prove("grammars_before grows", NG(a) <= NG(b + 1))
    E.cover("lemma")


def units(tier):
    ctr = dict(NEWVARS)
    ctr[q(IF.ExecContext, "execute_binding")] = execute_binding
    ctr["nessaid_cli.elements:map_grammar_arguments"] = mapping
    out = [Unit("enter", spec_enter, ["already entered", "entered", "action", "first grammar", "referenced grammar",
                                      "reference", "other"], 20, contracts=dict(ctr), loops=LOOPS),
           Unit("exit", spec_exit, ["left", "action"], 15, contracts=dict(ctr), loops=LOOPS),
           Unit("grammars on the stack", spec_counts, ["lemma"], 1)]
    out += [u for u in c20.units(tier) if u.name == "execute_binding"]
    return out
