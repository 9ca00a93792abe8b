"""C06: variables are local to a grammar instance; arguments are passed by reference."""
from . import c20
from .ctx import *
from .ctx import END
from pyvc.engine import Univ

LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["chains of variables end (a variable holds variables made before it: each is given one when it is made)",
               "running an action changes no variables of other grammar instances than through variables it was passed"]

RANK = z3.Function("rank", V, I_)


# ------------------------------------------------------------------ chains of variables
def chain(E, v, cont):
    """definition of the end of the chain of v, unfolded once"""
    h = z3.Select(cont, v)
    E.assume(z3.If(ISVAR(h), z3.And(END(v) == END(h), RANK(h) < RANK(v), RANK(h) >= 0),
                   END(v) == v))
    E.assume(z3.Not(ISVAR(z3.Select(cont, END(v)))))


def holder(E, cls):
    c = Ctx(E)
    t = z3.Const("me", V)
    chain(E, t, c.cont.m)

    def put(E, o, v):
        c.cont.put(E, z3.Store(c.cont.m, t, need_value(v)))
    o = E.new(Obj(cls, {}, "variable", {"_value": lambda E, o: content(z3.Select(c.cont.m, t)), "=_value": put}),
              site="variable")
    return c, t, o


def spec_assign(cls):
    def run(E):
        c, t, o = holder(E, cls)
        c0 = c.cont.m
        w = z3.Const("value", V)

        def inner(E, v, x):
            E.prove("the chain is followed downwards", RANK(v.e) < RANK(t))
            E.prove("nothing was assigned before", c.cont.m == c0)
            chain(E, v.e, c0)
            c.cont.put(E, z3.Store(c.cont.m, END(v.e), x))
        E.ghost["assign contract"] = inner
        E.ghost["value contract"] = lambda E, v: content(z3.Select(c.cont.m, END(v.e)))
        k, r = invoke_sync(E, o, "assign", content(w))
        E.prove("no exception", k == "ok")
        if k == "ok":
            E.cover("assigned")
            E.prove("exactly the last variable of the chain takes the value",
                    z3.Select(c.cont.m, Y) == z3.If(Y == END(t), w, z3.Select(c0, Y)))
    return run


def spec_value(cls):
    def run(E):
        c, t, o = holder(E, cls)
        c0 = c.cont.m

        def inner(E, v):
            E.prove("the chain is followed downwards", RANK(v.e) < RANK(t))
            chain(E, v.e, c.cont.m)
            return content(z3.Select(c.cont.m, END(v.e)))
        E.ghost["value contract"] = inner
        k, r = attempt(E, lambda: E.getattr(o, "value"))
        E.prove("no exception", k == "ok")
        if k == "ok":
            E.cover("read")
            x = unwrap(r)
            E.prove("the value is what the last variable of the chain holds",
                    x is not None and x == z3.Select(c0, END(t)))
            E.prove("reading changes nothing", c.cont.m == c0)
    return run


def spec_new(cls):
    def run(E):
        n = name(z3.Const("n", V))
        k, o = make(E, cls, n)
        E.prove("no exception", k == "ok")
        if k != "ok":
            return
        k, x = attempt(E, lambda: E.getattr(o, "var_id"))
        E.prove("the variable has the name it is made with", k == "ok" and unwrap(x) is not None and unwrap(x).eq(n.e))
        k, x = attempt(E, lambda: E.getattr(o, "value"))
        E.prove("a new variable holds nothing", k == "ok" and x is None)
        E.prove("a variable is true", E.truth(o))
        E.cover("made")
    return run


def spec_lemma(E):
    """what assigning a value means for every variable y (induction over the chain of y)"""
    c0 = z3.Const("content", A1)
    x, y, w, h = (z3.Const(n, V) for n in "xywh")
    E.assume(z3.Not(ISVAR(w)))
    c1 = z3.Store(c0, END(x), w)
    END1 = z3.Function("end_of_chain_after", V, V)
    chain(E, x, c0)
    chain(E, y, c0)
    n = z3.Select(c1, y)
    E.assume(z3.If(ISVAR(n), END1(y) == END1(n), END1(y) == y))
    h = z3.Select(c0, y)
    E.assume(z3.Implies(ISVAR(h), END1(h) == END(h)))        # the induction hypothesis, RANK(h) < RANK(y)
    E.prove("assigning a value changes no chain", END1(y) == END(y))
    v1, v0 = z3.Select(c1, END1(y)), z3.Select(c0, END(y))
    E.prove("an assigned value is seen through every variable that refers to the same", z3.Implies(END(y) == END(x), v1 == w))
    E.prove("no other variable changes", z3.Implies(END(y) != END(x), v1 == v0))
    p, r = z3.Consts("p r", V)
    c2 = z3.Store(c1, p, r)                                  # a new variable is given a variable
    END2 = z3.Function("end_of_chain_passed", V, V)
    chain(E, r, c0)
    E.assume(z3.Not(ISVAR(z3.Select(c0, p))))
    E.cover("lemma")


# ------------------------------------------------------------------ the variable of a name
def context(E):
    c = Ctx(E)
    iface = E.new(Obj(IF.CliInterface, {}, "interface"), site="interface")
    me = E.new(Obj(IF.ExecContext, {"_interface": iface}, "context"), site="context")
    return me, c


def spec_resolve(E):
    from nessaid_cli import lex_yacc_common as LY
    me, c = context(E)
    es, gs, _ = stacks(E, me)
    v = z3.Const("variable name", V)
    num = E.choose(2, "numbered")
    a = SVal(v, kinds=lambda E, x, cls: issubclass(LY.DollarNumber if num else LY.DollarVariable, cls),
             truthy=lambda E, x: True,
             attrs={"__class__": lambda E, x: LY.DollarNumber if num else LY.DollarVariable, "str": lambda E, x: x})
    E.assume(z3.And(es.n >= 1, gs.n >= 1))      # actions run inside a grammar and an element
    before = c.snap()
    k, r = invoke_sync(E, me, "resolve_variable", a)
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    E.prove("looking a variable up changes nothing", z3.And(*[x == c.snap()[n] for n, x in before.items()]))
    st = es if num else gs
    d, m = (c.tvd, c.tv) if num else (c.nvd, c.nv)
    top = z3.Select(st.arr, st.n - 1)
    has = z3.Select(z3.Select(d.m, top), v)
    if r is None:
        E.cover("missing")
        E.prove("a variable of the innermost instance is found", z3.Not(has))
    else:
        E.cover("found")
        t = unwrap(r)
        E.prove("it is the variable of that name of the innermost instance",
                t is not None and z3.And(has, t == z3.Select(z3.Select(m.m, top), v)))


# ------------------------------------------------------------------ nodes
def spec_node(E):
    """a node files variables under their names, starts empty and is empty after a reset"""
    k, n = make(E, EL.TreeNode, None, None, 0, None)
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    k, other = make(E, EL.TreeNode, None, None, 1, None)

    def state(x):
        return [E.getattr(x, f) for f in ("named_variables", "token_variables", "input_sequence")]

    def empty(x):
        for v in state(x):
            if isinstance(v, coll.DictV):
                if not E.entails(v.dom == NOVARS):
                    return False
            elif not (isinstance(v, PyDict) and not v.pairs or isinstance(v, PyList) and not v.items):
                return False
        return True
    E.prove("a new node has no variables and no inputs", empty(n) and empty(other))
    Ctx(E)
    todo = [("add_named_variable", 0), ("add_numbered_variable", 1)]
    for m, at in todo:
        d, other_d = state(n)[at], state(n)[1 - at]
        coll.promote(E, d, DNAME, DVAR)         # whatever was filed before
        coll.promote(E, other_d, DNAME, DVAR)
        d.havoc(E)
        other_d.havoc(E)
        d0, v0, o0 = d.dom, d.val, other_d.dom
        t = z3.Const("variable", V)
        k, _ = invoke_sync(E, n, m, variable(t))
        E.prove("no exception", k == "ok")
        d, other_d = state(n)[at], state(n)[1 - at]
        d1, v1 = coll.view_dict(E, d, DNAME, DVAR)
        x = z3.Select(ctx(E).names.m, t)
        E.prove("a variable is filed under its name, the last one wins", z3.And(
            z3.Select(d1, X) == z3.Or(X == x, z3.Select(d0, X)),
            z3.Implies(z3.Select(d1, X), z3.Select(v1, X) == z3.If(X == x, t, z3.Select(v0, X)))))
        E.prove("nothing else is filed", coll.view_dict(E, other_d, DNAME, DVAR)[0] == o0)
    E.call(E.getattr(state(n)[2], "append"), ["x"], {})
    E.prove("another node is not affected", empty(other))
    handed = state(n)[2]
    k, _ = invoke_sync(E, n, "reset")
    E.prove("no exception", k == "ok")
    E.prove("a reset node is empty", empty(n))
    E.prove("a list of inputs that was handed out stays as it is", handed.items == ["x"])
    E.cover("node")


# ------------------------------------------------------------------ parameters
PNAME = z3.Function("parameter_name", V, V)
PIDX = z3.Function("index_of_parameter", V, I_)
MAPPED = z3.Function("mapped_argument", V, V)
VALUEOF = z3.Function("value_of_argument", V, V)


class Params(coll.SeqV):
    """parameter list of a grammar; the names are distinct"""
    as_loop = True

    def __init__(self, E, name="parameters"):
        super().__init__(E, DPARAM, name=name)
        arr, n = self.arr, self.n
        self.on_elem.append(lambda E2, k: E2.assume(z3.Implies(z3.And(0 <= k, k < n),
                                                               PIDX(PNAME(z3.Select(arr, k))) == k)))
        E.assume(z3.Implies(self.has(X), PNAME(z3.Select(arr, PIDX(X))) == X))

    def has(self, x):
        """x is the name of a parameter"""
        return z3.And(0 <= PIDX(x), PIDX(x) < self.n, PNAME(z3.Select(self.arr, PIDX(x))) == x)


def param(e):
    return SVal(e, truthy=lambda E, v: True, attrs={"name": lambda E, v: name(PNAME(v.e)), "str": lambda E, v: name(PNAME(v.e))})


DPARAM = coll.Dom("parameter", V, param, unwrap)


class Mapping(Model):
    """what map_grammar_arguments gives (C05): for the name of every parameter its argument"""
    def __init__(self, ps):
        super().__init__()
        self.ps = ps

    def contains(self, E, x):
        return self.ps.has(need(x, "name"))

    def getitem(self, E, x):
        e = need(x, "name")
        if E.fork(self.ps.has(e), "is a parameter"):
            return argument(MAPPED(e))
        E.raise_(KeyError, "parameter")

    def getattr(self, E, n):
        if n == "get":
            def get(E, a, k):
                e = need(a[0], "name")
                if E.fork(self.ps.has(e), "is a parameter"):
                    return argument(MAPPED(e))
                return a[1] if len(a) > 1 else None
            return Builtin("get", get)
        raise Unsupported("mapping." + n)

    def havoc(self, E):
        raise Unsupported("mapping changed")

    def truth(self, E):
        return self.ps.n > 0


def argument(e):
    return SVal(e, truthy=lambda E, v: True, attrs={"value": lambda E, v: content(VALUEOF(v.e))},
                kinds=lambda E, v, cls: issubclass(EL.CliArgument, cls))


def new_variable(E, args, kwargs):
    """contract of NamedVariable(name) and TokenVariable(name): a variable of that name that did not exist and holds
    nothing"""
    c = ctx(E)
    n = name_term(args[0])
    a = c.alloc.m
    t = NEWV(a)
    E.assume(z3.And(z3.Not(t == NONE), ISVAR(t), INDEX(t) == a))
    c.alloc.put(E, z3.simplify(a + 1))
    c.names.put(E, z3.Store(c.names.m, t, n))
    c.cont.put(E, z3.Store(c.cont.m, t, NONE))
    return variable(t)


INDEX = z3.Function("allocation_index", V, I_)


def fresh_at(E, a0, k):
    """variables allocated at different times differ"""
    E.assume(INDEX(NEWV(a0 + k)) == a0 + k)


NEWVARS = {"nessaid_cli.binding_parser.binding_objects:NamedVariable": new_variable,
           "nessaid_cli.binding_parser.binding_objects:TokenVariable": new_variable}


def invariants(E, env, i, it):
    """loops over parameters, over the variables made for them, and over the variables of a node"""
    out = []
    c = E.ghost.get("ctx")
    s = E.ghost.get("setting")
    if c is None or i is None or s is None:
        return out
    x0 = s["before"]
    if isinstance(it, Params):
        a0 = E.ghost.setdefault(("a0", it.name), x0["alloc"])
        fresh_at(E, a0, i - 1)
        fresh_at(E, a0, PIDX(X))
        fresh_at(E, a0, J)
        out.append(("one variable per parameter", c.alloc.m == a0 + i))
        mine = z3.And(it.has(X), PIDX(X) < i)
        v = NEWV(a0 + PIDX(X))
        out.append(("it has the name", z3.Implies(mine, z3.Select(c.names.m, v) == X)))
        out.append(("it holds nothing", z3.Implies(mine, z3.Select(c.cont.m, v) == NONE)))
        x1 = E.ghost.get("after action", x0)
        out.append(("other variables keep their names", z3.Implies(INDEX(Y) < a0, z3.And(
            z3.Select(c.names.m, Y) == z3.Select(x0["names"], Y), z3.Select(c.cont.m, Y) == z3.Select(x1["cont"], Y)))))
        names, cont = c.names.m, c.cont.m
        E.point(i - 1)

        def any_(j):
            return z3.Implies(z3.And(0 <= j, j < i, INDEX(NEWV(a0 + j)) == a0 + j), z3.And(
                z3.Select(names, NEWV(a0 + j)) == PNAME(z3.Select(it.arr, j)), z3.Select(cont, NEWV(a0 + j)) == NONE))
        out.append(("any position", Univ(I_, any_)))
        for n, v in sorted(env.vars.items()):
            if isinstance(v, (PyList, coll.SeqV)) and not isinstance(v, Params):
                y = coll.view_seq(E, v, DVAR)
                if y is not None:
                    out.append((n + " has one for each", y[1] == i))
                    out.append((n + " has them in order", Univ(I_, lambda j, arr=y[0]: z3.Implies(
                        z3.And(0 <= j, j < i), z3.Select(arr, j) == NEWV(a0 + j)))))
                    k = PIDX(X)
                    out.append((n + " has the one of the name", z3.Implies(z3.And(0 <= k, k < i),
                                                                          z3.Select(y[0], k) == NEWV(a0 + k))))
    return out


LOOPS = {"*": LoopSpec(invariants)}


def mapping(E, args, kwargs):
    s = E.ghost["setting"]
    E.prove("the arguments are mapped to the parameters of the grammar referenced", len(args) == 3 and not kwargs and
            args[1] is s["params"] and args[2] is s["args"])
    return E.new(Mapping(s["params"]), site="mapping")


def spec_root(E):
    """the variables of a command's parameters hold the values of its arguments; what they hold at the end is given to
    the command"""
    c = Ctx(E)
    m0 = c.snap()
    ps = E.new(Params(E), site="params")
    args = E.new(Obj(object, {}, "arguments"), site="args")
    g = E.new(Obj(EL.NamedGrammar, {}, "grammar", {"param_list": lambda E, o: ps, "name": lambda E, o: name(z3.Const("g", V))}))
    iface = E.new(Obj(IF.CliInterface, {}, "interface", {"*": lambda E, o, n: Builtin(n, lambda E, a, k: None)}))
    E.ghost["setting"] = dict(before=m0, params=ps, args=args, root=True)
    me = E.new(Obj(IF.ExecContext, {}, "context"), site="context")
    k, r = attempt(E, lambda: E.call(BM(method(IF.ExecContext, "__init__"), me), [iface, g, args], {}))
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    E.cover("context made")
    a0 = m0["alloc"]
    fresh_at(E, a0, J)
    ps.touch(E, J)
    E.point(J)
    x = coll.view_seq(E, me.fields["_root_arglist"], DVAR)
    E.prove("a variable for every parameter", x is not None and x[1] == ps.n)
    if x is None:
        return
    v = z3.Select(x[0], J)
    inside = z3.And(0 <= J, J < ps.n)
    nm = PNAME(z3.Select(ps.arr, J))
    E.prove("of its name", z3.Implies(inside, z3.Select(c.names.m, v) == nm))
    E.prove("holding the value of its argument", z3.Implies(inside, z3.Select(c.cont.m, v) == VALUEOF(MAPPED(nm))))
    for f in ("_element_stack", "_grammar_stack"):
        s = coll.view_seq(E, me.fields.get(f), DNODE)
        E.prove("nothing is entered yet", s is not None and s[1] == 0)
    d = me.fields.get("_element_stack_cache")
    E.prove("nothing is entered yet", isinstance(d, PyDict) and not d.pairs)
    c.cont.havoc(E)
    c1 = c.cont.m
    k, r = attempt(E, lambda: E.getattr(me, "root_arglist"))
    E.prove("no exception", k == "ok")
    y = coll.view_seq(E, r, DVAR) if k == "ok" else None
    E.prove("the command gets what they hold at the end, in order", y is not None and z3.And(
        y[1] == ps.n, z3.Implies(inside, z3.Select(y[0], J) == z3.Select(c1, END(v)))))
    E.prove("reading changes nothing", c.cont.m == c1)


def root_loops(E, env, i, it):
    out = invariants(E, env, i, it)
    s = E.ghost.get("setting")
    if i is None or s is None or not isinstance(it, coll.SeqV) or isinstance(it, Params):
        return out
    c, a0, ps = ctx(E), s["before"]["alloc"], s["params"]
    cont, names, size = c.cont.m, c.names.m, it.n
    for k in (i, i - 1, J):
        fresh_at(E, a0, k)
        E.point(k)
        ps.touch(E, k)
    out.append(("variables before have their values", Univ(I_, lambda j: z3.Implies(
        z3.And(0 <= j, j < i, INDEX(NEWV(a0 + j)) == a0 + j), z3.Select(cont, NEWV(a0 + j)) == VALUEOF(MAPPED(PNAME(
            z3.Select(ps.arr, j))))))))
    out.append(("the others hold nothing", Univ(I_, lambda j: z3.Implies(
        z3.And(i <= j, j < size, INDEX(NEWV(a0 + j)) == a0 + j), z3.Select(cont, NEWV(a0 + j)) == NONE))))
    return out


def units(tier):
    from . import c04
    out = [u for u in c04.units(tier) if u.name in ("enter", "exit")]
    out.append(Unit("the variables of a command", spec_root, ["context made"], 8, loops={"*": LoopSpec(root_loops)},
                    contracts=dict(NEWVARS, **{"nessaid_cli.elements:map_grammar_arguments": mapping})))
    for cls in (BO.NamedVariable, BO.TokenVariable):
        out += [Unit("assign to a %s" % cls.__name__, spec_assign(cls), ["assigned"], 3),
                Unit("value of a %s" % cls.__name__, spec_value(cls), ["read"], 3),
                Unit("new %s" % cls.__name__, spec_new(cls), ["made"], 3)]
    out += [Unit("chains", spec_lemma, ["lemma"], 3),
            Unit("resolve_variable", spec_resolve, ["missing", "found"], 3),
            Unit("variables of a node", spec_node, ["node"], 4)]
    for u in c20.units(tier):
        if u.name == "execute_binding":
            out.append(u)
    return out
