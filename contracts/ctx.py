"""The setting of C04 and C06: an execution context, the nodes on its stacks and the variables of the nodes.

Nodes, elements, variables, names and values are atoms; what changes is kept in separate maps (one heap object each),
so that a loop forgets only what it writes."""
import z3

from nessaid_cli import interface as IF
from nessaid_cli import elements as EL
from nessaid_cli.binding_parser import binding_objects as BO

from pyvc import coll
from pyvc.engine import LoopSpec, Coro
from .tok import *
from .c15 import q

I_, B_ = z3.IntSort(), z3.BoolSort()
PATH = z3.Function("path", V, V)                  # of a node
ELEM = z3.Function("element", V, V)
EK = z3.Function("kind_of_element", V, I_)
KINDS = [EL.NamedGrammar, EL.GrammarRefElement, EL.AlternativeInputElement, EL.OrderlessSetInputElement,
         EL.SequenceInputElement, EL.KeywordInputElement]
POS = z3.Function("position", V, I_)
COUNT = z3.Function("repeat_count", V, I_)
PRE, POST = z3.Function("pre_match_binding", V, V), z3.Function("post_match_binding", V, V)
HASPRE, HASPOST = z3.Function("has_pre_binding", V, B_), z3.Function("has_post_binding", V, B_)
ISVAR = z3.Function("is_variable", V, B_)
NONE = z3.Const("no_value", V)
NEWV = z3.Function("new_variable", I_, V)
NUMNAME = z3.Function("numbered_name", I_, V)     # the name $<n>
RESOLVED = z3.Function("argument_resolved", V, V)
ONE = z3.Function("single_input", V, V)           # the only input of a list
X = z3.Const("X", V)                              # any name
Y = z3.Const("Y", V)                              # any variable
NODE = z3.Const("N", V)                           # any node
J = z3.Int("J")


class Map(Model):
    """a finite map that the code changes only through contracts"""
    def __init__(self, name, sort):
        super().__init__()
        self.name, self.m = name, z3.Const(name + "0", sort)
        self.sort = sort

    def put(self, E, m):
        E.note_write(self)
        self.m = m

    def havoc(self, E):
        self.m = z3.Const(fresh_name(self.name), self.sort)

    def truth(self, E):
        return True


class Num(Map):
    """a counter"""
    def __init__(self, name):
        super().__init__(name, I_)


A1 = z3.ArraySort(V, V)
AB = z3.ArraySort(V, B_)
A2 = z3.ArraySort(V, A1)
A2B = z3.ArraySort(V, AB)


class Ctx:
    """the maps: contents and names of variables, variables of nodes (by name), inputs of nodes"""
    def __init__(self, E):
        def new(n, s):
            return E.new(Map(n, s), site="map " + n)
        self.cont = new("content", A1)
        self.names = new("name_of", A1)
        self.alloc = E.new(Num("allocated"), site="map allocated")
        self.nvd, self.nv = new("has_named", A2B), new("named", A2)
        self.tvd, self.tv = new("has_numbered", A2B), new("numbered", A2)
        self.inp = new("inputs", A1)
        E.ghost["ctx"] = self
        E.dom = E.vdom = DVAR
        E.assume(z3.Not(ISVAR(NONE)))

    def snap(self):
        return {k: v.m for k, v in vars(self).items() if isinstance(v, Map)}


def ctx(E):
    return E.ghost["ctx"]


HANDED = z3.Function("list_of_inputs", V, V)      # the list object of a node


def unwrap(v):
    if v is None:
        return NONE
    if isinstance(v, Inputs):
        return HANDED(v.t)
    return v.e if isinstance(v, SVal) and v.e.sort() == V else None


def need(v, what):
    t = unwrap(v)
    if t is None or v is None:
        raise Unsupported("%s %r" % (what, v))
    return t


# --- values and variables
def name(e):
    """a name: a text"""
    return SVal(e, kinds=lambda E, v, cls: issubclass(str, cls), truthy=lambda E, v: True,
                attrs={"str": lambda E, v: v, "__class__": lambda E, v: str})


def content(e):
    """what a variable holds, or a value: None, a variable or something else"""
    def type_(E, v):
        if E.fork(ISVAR(v.e), "a variable"):
            return BO.NamedVariable if E.choose(2, "named") else BO.TokenVariable
        return object
    a = dict(variable(e).attrs)
    a["__class__"] = type_
    return SVal(e, attrs=a, methods=variable(e).methods,
                kinds=lambda E, v, cls: ISVAR(v.e) if cls is BO.BindingVariable else None)


def variable(e):
    return SVal(e, truthy=lambda E, v: True, attrs={
        "var_id": lambda E, v: name(z3.Select(ctx(E).names.m, v.e)),
        "value": lambda E, v: value_of(E, v)}, methods={"assign": lambda E, v, a, k: assign(E, v, *a, **k)},
        kinds=lambda E, v, cls: issubclass(BO.NamedVariable, cls) if cls in (BO.BindingVariable, object) else None)


def value_of(E, v):
    """contract of BindingVariable.value: the content of the last variable of the chain"""
    f = E.ghost.get("value contract")
    if f is not None:
        return f(E, v)
    return content(z3.Select(ctx(E).cont.m, END(v.e)))


def assign(E, v, value):
    """contract of BindingVariable.assign: the last variable of the chain takes the value"""
    w = need_value(value)
    f = E.ghost.get("assign contract")
    if f is not None:
        return f(E, v, w)
    c = ctx(E).cont
    E.prove("a variable assigned directly is the end of its chain", z3.Not(ISVAR(z3.Select(c.m, v.e))))
    c.put(E, z3.Store(c.m, v.e, w))


def need_value(v):
    t = unwrap(v)
    if t is None:
        raise Unsupported("value %r" % (v,))
    return t


END = z3.Function("end_of_chain", V, V)

DVAR = coll.Dom("variable", V, variable, unwrap)
DNAME = coll.Dom("name", V, name, unwrap)


def name_term(v):
    """the term of a name; $<number> is a function of the number"""
    if isinstance(v, str) and v[:1] == "$" and v[1:].isdigit():
        return NUMNAME(z3.IntVal(int(v[1:])))
    if isinstance(v, SStr):
        e = z3.simplify(v.e)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT and e.num_args() == 2 and \
                e.arg(0).eq(z3.StringVal("$")) and e.arg(1).decl().eq(B.STROF):
            return NUMNAME(z3.simplify(e.arg(1).arg(0)))
    return need(v, "name of a variable")


class VarsOf(Model):
    """the named (or numbered) variables of a node"""
    def __init__(self, t, d, m):
        super().__init__()
        self.t, self.d, self.map = t, d, m

    def contains(self, E, x):
        return z3.Select(z3.Select(self.d.m, self.t), need(x, "name"))

    def getitem(self, E, x):
        e = need(x, "name")
        if E.fork(z3.Select(z3.Select(self.d.m, self.t), e), "variable exists"):
            return variable(z3.Select(z3.Select(self.map.m, self.t), e))
        E.raise_(KeyError, "variable")

    def getattr(self, E, n):
        if n == "values":
            return Builtin("values", lambda E, a, k: self.values(E))
        if n == "items":
            return Builtin("items", lambda E, a, k: self.values(E, True))
        if n == "get":
            def get(E, a, k):
                e = need(a[0], "name")
                if E.fork(z3.Select(z3.Select(self.d.m, self.t), e), "variable exists"):
                    return variable(z3.Select(z3.Select(self.map.m, self.t), e))
                return a[1] if len(a) > 1 else None
            return Builtin("get", get)
        raise Unsupported("variables." + n)

    def values(self, E, pairs=False):
        """the variables in some order, each once; a variable is filed under its name"""
        d, m = z3.Select(self.d.m, self.t), z3.Select(self.map.m, self.t)
        s = coll.SeqV(E, DVAR, name="values")
        arr, n, names = s.arr, s.n, ctx(E).names.m
        idx = z3.Function(fresh_name("index_of"), V, I_)

        def hook(E2, k):
            v = z3.Select(arr, k)
            x = z3.Select(names, v)
            E2.assume(z3.Implies(z3.And(0 <= k, k < n), z3.And(z3.Select(d, x), z3.Select(m, x) == v, idx(x) == k)))
        s.on_elem.append(hook)
        E.assume(z3.Implies(z3.Select(d, X), z3.And(0 <= idx(X), idx(X) < n, z3.Select(arr, idx(X)) == z3.Select(m, X),
                                                    z3.Select(names, z3.Select(m, X)) == X)))
        E.assume(z3.Implies(z3.And(0 <= idx(X), idx(X) < n), z3.Implies(z3.Select(names, z3.Select(arr, idx(X))) == X,
                                                                        z3.Select(d, X))))
        s.index_of, s.owner = idx, self
        s.before = ctx(E).snap()
        if pairs:
            raise Unsupported("items of variables")
        return E.new(s, site="values")

    def truth(self, E):
        r = z3.Bool(fresh_name("some variables"))
        E.assume(z3.Implies(z3.Select(z3.Select(self.d.m, self.t), X), r))
        return r

    def isinstance_(self, E, cls):
        return issubclass(dict, cls)

    def type_(self, E):
        return dict


class Inputs(Model):
    """the inputs of a node: a list, known by its contents as one atom"""
    def __init__(self, t):
        super().__init__()
        self.t = t

    def getattr(self, E, n):
        if n == "append":
            def append(E, a, k):
                i = ctx(E).inp
                i.put(E, z3.Store(i.m, self.t, APPENDED(z3.Select(i.m, self.t), need_value(a[0]))))
            return Builtin("append", append)
        raise Unsupported("inputs." + n)

    def len_(self, E):
        n = LEN(z3.Select(ctx(E).inp.m, self.t))
        E.assume(n >= 0)
        return SInt(n)

    def length(self, E):
        return LEN(z3.Select(ctx(E).inp.m, self.t))

    def getitem(self, E, i):
        s = z3.Select(ctx(E).inp.m, self.t)
        if E.fork(z3.Or(LEN(s) == 1, LEN(s) == 1), "one input") and (i == 0 or i == -1):
            return content(ONE(s))
        raise Unsupported("an input by position")

    def truth(self, E):
        return LEN(z3.Select(ctx(E).inp.m, self.t)) > 0

    def isinstance_(self, E, cls):
        return issubclass(list, cls)

    def type_(self, E):
        return list


LEN = z3.Function("number_of_inputs", V, I_)
APPENDED = z3.Function("appended", V, V, V)
EMPTY = z3.Const("no_inputs", V)
NOVARS = z3.K(V, z3.BoolVal(False))


def inputs_of(E, t):
    key = ("inputs", t.get_id())
    if key not in E.ghost:
        E.ghost[key] = E.new(Inputs(t), site="inputs")
    return E.ghost[key]


# --- elements and nodes
def element(e):
    def type_(E, v):
        E.assume(z3.And(0 <= EK(v.e), EK(v.e) < len(KINDS)))
        for k, c in enumerate(KINDS[:-1]):
            if E.fork(EK(v.e) == k, c.__name__):
                return c
        return KINDS[-1]

    def kinds(E, v, cls):
        E.assume(z3.And(0 <= EK(v.e), EK(v.e) < len(KINDS)))
        return z3.Or(*[EK(v.e) == k for k, c in enumerate(KINDS) if issubclass(c, cls)] + [z3.BoolVal(False)])
    return SVal(e, kinds=kinds, truthy=lambda E, v: E.ghost["element truth"](E, v) if "element truth" in E.ghost
                else True, attrs={
        "__class__": type_, "repeat_count": lambda E, v: count(E, v.e),
        "pre_match_binding": lambda E, v: code(PRE(v.e), HASPRE(v.e)),
        "post_match_binding": lambda E, v: code(POST(v.e), HASPOST(v.e)),
        "name": lambda E, v: name(ENAME(v.e)), "value": lambda E, v: grammar_of(v.e),
        "param_list": lambda E, v: E.ghost["params"](E, v), "arg_list": lambda E, v: E.ghost["args"](E, v)})


ENAME = z3.Function("element_name", V, V)
GRAMMAR = z3.Function("referenced_grammar", V, V)


def grammar_of(e):
    return element(GRAMMAR(e))


def count(E, e):
    E.assume(COUNT(e) >= 1)
    return SInt(COUNT(e))


def code(e, present):
    return SVal(e, truthy=lambda E, v: present)


def node(e):
    def add(which):
        def f(E, v, a, k):
            c = ctx(E)
            d, m = (c.nvd, c.nv) if which == "named" else (c.tvd, c.tv)
            t = need(a[0], "variable")
            x = z3.Select(c.names.m, t)
            d.put(E, z3.Store(d.m, v.e, z3.Store(z3.Select(d.m, v.e), x, z3.BoolVal(True))))
            m.put(E, z3.Store(m.m, v.e, z3.Store(z3.Select(m.m, v.e), x, t)))
        return f

    def reset(E, v, a, k):
        c = ctx(E)
        E.ghost["reset"] = E.ghost.get("reset", ()) + (v.e,)
        for m, z in ((c.nvd, NOVARS), (c.tvd, NOVARS), (c.inp, EMPTY)):
            m.put(E, z3.Store(m.m, v.e, z))
    return SVal(e, truthy=lambda E, v: True, kinds=lambda E, v, cls: issubclass(EL.TreeNode, cls), attrs={
        "path": lambda E, v: path(PATH(v.e)), "element": lambda E, v: element(ELEM(v.e)),
        "position": lambda E, v: position(E, v.e), "input_sequence": lambda E, v: inputs_of(E, v.e),
        "named_variables": lambda E, v: vars_of(E, v.e, "named"),
        "token_variables": lambda E, v: vars_of(E, v.e, "numbered"), "__class__": lambda E, v: EL.TreeNode},
        methods={"add_named_variable": add("named"), "add_numbered_variable": add("numbered"), "reset": reset})


def vars_of(E, t, which):
    c = ctx(E)
    key = (which, t.get_id())
    if key not in E.ghost:
        E.ghost[key] = E.new(VarsOf(t, *((c.nvd, c.nv) if which == "named" else (c.tvd, c.tv))), site=which)
    return E.ghost[key]


def position(E, t):
    E.assume(POS(t) >= 0)
    return SInt(POS(t))


def path(e):
    return SVal(e, truthy=lambda E, v: True)


DNODE = coll.Dom("node", V, node, unwrap)
DPATH = coll.Dom("path", V, path, unwrap)


# --- the stacks
GN = None


def stacks(E, me):
    """element stack, grammar stack and cache, with what holds between them:
    the cache has exactly the nodes of the element stack, by path; the grammar stack has exactly the grammars among
    them, in the same order; a node that is not on the stack is clean"""
    es = E.new(coll.SeqV(E, DNODE, name="elements"), site="element stack")
    gs = E.new(coll.SeqV(E, DNODE, name="grammars"), site="grammar stack")
    cache = E.new(coll.DictV(E, DPATH, DNODE, name="cache"), site="cache")
    me.fields.update(_element_stack=es, _grammar_stack=gs, _element_stack_cache=cache)
    return es, gs, cache


def is_grammar(t):
    return EK(ELEM(t)) == 0


class Inv:
    """the invariant for given stacks: conditions over any position J, node NODE, with ghost functions
    ng(k): number of grammars among the first k elements, at(path): position of the element of that path"""
    def __init__(self, E, es, gs, cache):
        self.es, self.en, self.gs, self.gn = es.arr, es.n, gs.arr, gs.n
        self.cd, self.cv = cache.dom, cache.val

    def conds(self, E, ng, at, j):
        t = z3.Select(self.es, j)
        inside = z3.And(0 <= j, j < self.en)
        return [
            ("the grammar stack has the grammars among the elements", self.gn == ng(self.en)),
            ("in the same order", z3.Implies(z3.And(inside, is_grammar(t)), z3.And(
                0 <= ng(j), ng(j) < self.gn, z3.Select(self.gs, ng(j)) == t))),
            ("every element on the stack is cached under its path", z3.Implies(inside, z3.And(
                z3.Select(self.cd, PATH(t)), z3.Select(self.cv, PATH(t)) == t, at(PATH(t)) == j))),
        ]

    def grammar(self, ng, gi, k):
        t = z3.Select(self.gs, k)
        return ("every grammar in effect is an element on the stack", z3.Implies(z3.And(0 <= k, k < self.gn), z3.And(
            0 <= gi(k), gi(k) < self.en, z3.Select(self.es, gi(k)) == t, is_grammar(t), ng(gi(k)) == k)))

    def cached(self, at, p):
        return ("only elements on the stack are cached", z3.Implies(z3.Select(self.cd, p), z3.And(
            0 <= at(p), at(p) < self.en, z3.Select(self.es, at(p)) == z3.Select(self.cv, p),
            PATH(z3.Select(self.cv, p)) == p)))
