"""The elements of a grammar and the tree walked over them (C01, C02): what may be empty, what a node begins with."""
import z3

from nessaid_cli import elements as EL

from pyvc.engine import LoopSpec, Univ
from pyvc.coll import DINT
from pyvc.vlist import VL, VS, Dom
from .tok import *
from .c15 import q

I, B_ = z3.IntSort(), z3.BoolSort()
ELEM, NODE, LTOK = [z3.DeclareSort(n) for n in ("Element", "Node", "LookupToken")]
NULL_E = z3.Function("may_be_empty", ELEM, B_)              # an element matches the empty line
COPY = z3.Function("copy", ELEM, ELEM)                      # what copy() answers for a part
CHILD = z3.Function("child", NODE, I, NODE)
NULL = z3.Function("node_may_be_empty", NODE, B_)
FN = z3.Function("begins_with", NODE, z3.ArraySort(LTOK, B_))   # the lookup tokens made for what a node begins with
OWN = z3.Function("comes_from", LTOK, I)                    # the child whose beginning it was made for
ME = z3.Const("this_node", NODE)


def place(E, v, name, x):
    """where an element is placed may be noted in it"""
    E.prove("only the place of an element is noted: %s" % name, name in ("parent", "_parent", "position", "_position"))


def elem(E, e):
    return SVal(e, {"mandatory": lambda E, v: SBool(z3.Not(NULL_E(v.e))), "=*": place,
                    "is": lambda E, v, o: isinstance(o, SVal) and v.e == o.e},
                {"copy": lambda E, v, a, k: elem(E, COPY(v.e))})


DELEM = Dom("element", ELEM, elem, lambda v: v.e if isinstance(v, SVal) and v.e.sort() == ELEM else None)
DLT = Dom("lookup token", LTOK, lambda E, e: SVal(e, {}, {"add_lookup_path": add_path}, truthy=lambda E, v: True),
          lambda v: v.e if isinstance(v, SVal) and v.e.sort() == LTOK else None)
NAMED = (EL.NamedGrammar, EL.GrammarRefElement)
COLLECTIONS = (EL.SequenceInputElement, EL.OptionalInputElement, EL.AlternativeInputElement, EL.OrderlessSetInputElement)
LEAVES = (EL.KeywordInputElement, EL.ConstantInputElement)


class Paths(Model):
    """what was noted in lookup tokens: the child of this node they were reached through"""
    value_semantics = True

    def __init__(self, noted, at):
        super().__init__()
        self.noted, self.at = noted, at

    def kind_key(self):
        return "paths"

    def fresh_like(self, E):
        return Paths(z3.Const(fresh_name("noted"), z3.ArraySort(LTOK, B_)), z3.Const(fresh_name("noted_at"), z3.ArraySort(LTOK, I)))

    def havoc(self, E):
        f = self.fresh_like(E)
        self.noted, self.at = f.noted, f.at

    def right(self, y):
        return z3.And(z3.Select(self.noted, y), z3.Select(self.at, y) == OWN(y))


def add_path(E, v, a, k):
    p = E.ghost["paths"]
    node, i = a
    E.prove("the path noted is one through this node", node is E.ghost["me"])
    E.note_write(p)
    p.noted = z3.Store(p.noted, v.e, z3.BoolVal(True))
    p.at = z3.Store(p.at, v.e, B.zint(i))


def node(E, n):
    def first(E, v, a, k):
        r = VL.of(E, DLT, z3.Const(fresh_name("beginning"), z3.ArraySort(I, LTOK)), z3.Int(fresh_name("beginnings")), FN(v.e))
        return E.new(r, site="beginning")
    return SVal(n, {"mandatory": lambda E, v: SBool(z3.Not(NULL(v.e)))}, {"first": first}, truthy=lambda E, v: True)


def base(E):
    E.ghost.clear()
    E.max_restarts, E.infer_first, E.by_scheme = 600, True, True
    E.list_model = VL.display
    E.models = dict(E.models, **{"set()": lambda E, a, k: E.new(VS(E), site="set@%d" % getattr(E.cur_stmt, "lineno", 0))})
    E.vdoms = [DELEM, DLT]


def element(E, cls, n=None, repeat=1):
    """an element of a class with any parts"""
    if cls in COLLECTIONS:
        n = z3.Int("parts") if n is None else n
        v = E.new(VL.of(E, DELEM, z3.Const("part", z3.ArraySort(I, ELEM)), n, name="parts"), site="parts")
        E.assume(v.off == 0)
        v.frozen = True
    elif cls in NAMED:
        v = elem(E, z3.Const("named", ELEM))
    else:
        v = fresh_str("keyword")
    f = {"_value": v, "_repeat_count": repeat, "_parent": None, "_help_string": None, "_pre_match_binding": (), "_post_match_binding": ()}
    if cls in COLLECTIONS:
        f["_mandatory"] = None
    return E.new(Obj(cls, f, "element"), site="element")


# ------------------------------------------------------------------ which elements must match something
def empty_spec(cls, o):
    """may this element match the empty line?"""
    v = o.fields["_value"]
    if cls is EL.OptionalInputElement:
        return lambda E: (z3.BoolVal(True), z3.BoolVal(False))
    if cls in LEAVES:
        return lambda E: (z3.BoolVal(False), z3.BoolVal(True))
    if cls in NAMED:
        return lambda E: (NULL_E(v.e), z3.Not(NULL_E(v.e)))
    i = z3.Int("any part")
    at = lambda k: z3.Select(v.arr, v.off + k)
    one = lambda f: lambda E: E.some(ELEM, lambda e: z3.And(z3.Select(v.mem, e), f(e)))
    every = lambda f: z3.Implies(z3.And(i >= 0, i < v.n), f(at(i)))
    if cls is EL.AlternativeInputElement:
        return lambda E: (one(NULL_E)(E), every(lambda e: z3.Not(NULL_E(e))))
    return lambda E: (every(NULL_E), one(lambda e: z3.Not(NULL_E(e)))(E))


def inv_mandatory(E, env, i, it):
    out, env = [], Scope(E, env)
    if isinstance(it, VL) and it.dom is DELEM and i is not None:
        t = it
        for name, f in (("some", NULL_E), ("none", lambda e: z3.Not(NULL_E(e)))):
            out.append(("those met: %s" % name, Univ(ELEM, lambda y, f=f: z3.Implies(
                z3.And(z3.Select(t.mem, y), z3.Select(t.pos, y) < i), f(y)))))
        for n, v in env.vars.items():
            if isinstance(v, (bool, SBool)):
                b = v.e if isinstance(v, SBool) else z3.BoolVal(v)
                out.append(("%s so far" % n, b))
                out.append(("not %s so far" % n, z3.Not(b)))
    return out


def spec_mandatory(cls):
    def spec(E):
        base(E)
        o = element(E, cls)
        v = o.fields["_value"]
        if cls in COLLECTIONS:
            i = z3.Int("any part")
            E.assume(z3.Implies(z3.And(i >= 0, i < v.n), z3.And(z3.Select(v.mem, z3.Select(v.arr, i)), z3.Select(v.pos, z3.Select(v.arr, i)) <= i)))
            E.point(z3.Select(v.arr, i))
            if cls is EL.AlternativeInputElement:
                E.assume(v.n > 0)
        E.loops = {"*": lambda E, s, env, it: LoopSpec(inv_mandatory)}
        may, must = None, None
        for again in (False, True):
            k, r = attempt(E, lambda: E.getattr(o, "mandatory"))
            E.prove("it answers", k == "ok")
            if k != "ok":
                return
            b = E.truth_expr(r)
            b = z3.BoolVal(b) if isinstance(b, bool) else b
            may, must = empty_spec(cls, o)(E)
            E.prove("what must match something cannot be empty", z3.Implies(b, must))
            E.prove("what need not match anything can be empty", z3.Implies(z3.Not(b), may))
            E.cover("answers again" if again else "answers")
    return spec


# ------------------------------------------------------------------ what a node begins with
NB = z3.Function("all_before_may_be_empty", I, B_)
BEGINS = z3.Function("may_begin_here", LTOK, B_)
J, F0 = z3.Int("some child"), z3.Const("some token", LTOK)


def setup_node(E, cls, repeat):
    base(E)
    many = cls in COLLECTIONS
    rep = z3.Int("repeat count")
    E.assume(rep > 1)
    el = element(E, cls, n=z3.IntVal(1) if repeat else None, repeat=SInt(rep) if repeat else 1)
    me = E.new(Obj(EL.TreeNode, {"_element": el, "_parent": None, "_children": Unk("children"), "_tree": None, "_path": (0,)}, "node"),
               site="node")
    count = rep if repeat else el.fields["_value"].n if many else z3.IntVal(1)
    E.ghost["me"] = me
    E.ghost["paths"] = E.new(Paths(z3.K(LTOK, z3.BoolVal(False)), z3.K(LTOK, z3.IntVal(-1))), site="paths")
    E.models["ghost paths"] = None
    goes_on = cls in (EL.AlternativeInputElement, EL.OrderlessSetInputElement)
    ok = (lambda k: z3.BoolVal(True)) if goes_on or not many else NB
    E.assume(NB(0))
    E.scheme(I, lambda k: z3.Implies(k >= 0, z3.And(NB(k + 1) == z3.And(NB(k), NULL(CHILD(ME, k))))))
    E.scheme(I, lambda k: z3.Implies(z3.And(NB(J), k >= 0, k < J), NULL(CHILD(ME, k))))
    E.point(J)
    E.point(F0)
    E.forall(I, lambda k: E.scheme(LTOK, lambda y: z3.Implies(z3.Select(FN(CHILD(ME, k)), y), z3.And(
        OWN(y) == k, z3.Implies(z3.And(k >= 0, k < count, ok(k)), BEGINS(y))))) or z3.BoolVal(True))

    def get(E, a, k):
        i = B.zint(a[1])
        E.prove("the child asked for exists", z3.And(a[0] is me, i >= 0, i < count))
        E.point(i)
        return node(E, CHILD(ME, i))
    E.contracts[q(EL.TreeNode, "get")] = get
    return me, el, count, ok


def inv_first(E, env, i, it):
    out, env = [], Scope(E, env)
    p = E.ghost["paths"]
    noted, at = p.noted, p.at
    right = lambda y: z3.And(z3.Select(noted, y), z3.Select(at, y) == OWN(y))
    ls = None
    if isinstance(it, VL) and it.dom is DLT:
        ls = (it.mem, it.pos, it.off)
        out.append(("those met are noted", Univ(LTOK, lambda y: z3.Implies(
            z3.And(z3.Select(ls[0], y), z3.Select(ls[1], y) < ls[2] + i), right(y)))))
    for n, v in env.vars.items():
        if isinstance(v, VL) and v.dom in (None, DLT):
            mem = v.mem
            s = (lambda y, mem=mem: z3.BoolVal(False)) if mem is None else (lambda y, mem=mem: z3.Select(mem, y))
            out.append(("%s: noted" % n, Univ(LTOK, lambda y, s=s: z3.Implies(s(y), right(y)))))
            out.append(("%s: of children" % n, Univ(LTOK, lambda y, s=s: z3.Implies(s(y), BEGINS(y)))))
            out.append(("%s: none taken" % n, v.off == 0))
            if i is not None and ls is None:
                out.append(("%s: what the children met begin with" % n, lambda s=s: z3.Implies(
                    z3.And(0 <= J, J < i, z3.Select(FN(CHILD(ME, J)), F0)), s(F0))))
    if i is not None and ls is None:
        out.append(("those met may be empty", NB(i)))
    return out


def spec_first(cls, repeat=False):
    def spec(E):
        me, el, count, ok = setup_node(E, cls, repeat)
        E.loops = {"*": lambda E, s, env, it: LoopSpec(inv_first)}
        if cls in LEAVES:
            E.list_model = None
        k, r = invoke_sync(E, me, "first")
        E.prove("it answers", k == "ok")
        if k != "ok":
            return
        good = isinstance(r, VL if cls not in LEAVES else PyList)
        E.prove("it answers a list", good)
        if not good:
            return
        if cls in LEAVES:
            E.cover("answers")
            x = r.items[0] if len(r.items) == 1 else None
            E.prove("a word begins with itself", isinstance(x, Obj) and x.cls is EL.LookupToken)
            E.prove("the token is made for this node", x.fields.get("_node") is me if x is not None else False)
            return
        y = E.point(z3.Const("any answered", LTOK))
        p = E.ghost["paths"]
        s = (lambda y: z3.BoolVal(False)) if r.mem is None else (lambda y: z3.Select(r.mem, y))
        E.cover("answers")
        E.prove("what is answered begins a child that may be reached", z3.Implies(s(y), BEGINS(y)))
        E.prove("its path notes the child", z3.Implies(s(y), p.right(y)))
        E.prove("what a child that may be reached begins with is answered", z3.Implies(
            z3.And(0 <= J, J < count, ok(J), z3.Select(FN(CHILD(ME, J)), F0)), s(F0)))
        E.prove("nothing was taken from the answer", r.off == 0)
    return spec


# ------------------------------------------------------------------ the children of a node
class Kids(Model):
    """the children made before: any of them, each as get() made it"""
    def __init__(self, me, made):
        super().__init__()
        self.me, self.made, self.new = me, made, []

    def find(self, E, i):
        for k, v in reversed(self.new):
            if E.fork(B.zint(i) == k, "just made"):
                return v
        return None

    def contains(self, E, x):
        if isinstance(x, (int, SInt)):
            v = self.find(E, x)
            if v is not None:
                return True
            self.asked = x
            return E.ghost["made before"]
        return False

    def getitem(self, E, i):
        v = self.find(E, i)
        if v is not None:
            return v
        if not E.fork(E.ghost["made before"], "made before"):
            E.raise_(KeyError, i)
        E.prove("the child asked for is answered", B.zint(i) == E.ghost["position"])
        return self.made

    def setitem(self, E, i, v):
        self.new.append((B.zint(i), v))

    def call(self, E, name, a, k):
        if name == "get":
            return self.getitem(E, a[0]) if E.truth(self.contains(E, a[0])) else (a[1] if len(a) > 1 else None)
        raise Unsupported("children .%s" % name)

    def getattr(self, E, name):
        return Builtin(name, lambda E2, a, k: self.call(E2, name, a, k))

    def len_(self, E):
        raise Unsupported("number of children made")

    def truth(self, E):
        return z3.Or(E.ghost["made before"], z3.BoolVal(bool(self.new)))

    def havoc(self, E):
        raise Unsupported("children in a loop")

    def isinstance_(self, E, cls):
        return issubclass(dict, cls)


def spec_get(cls, repeat=False):
    """the child at a position: its parent, its place and its element; the same one when asked again"""
    def spec(E):
        base(E)
        E.list_model = None
        many = cls in COLLECTIONS
        rep = z3.Int("repeat count")
        E.assume(rep > 1)
        el = element(E, cls, n=z3.IntVal(1) if repeat else None, repeat=SInt(rep) if repeat else 1)
        v = el.fields["_value"]
        if many:
            v.cls = tuple
        count = rep if repeat else v.n if many else z3.IntVal(1)
        i = z3.Int("position")
        E.assume(z3.And(i >= 0, i < count))
        E.ghost["made before"] = z3.Bool("made before")
        E.ghost["position"] = i
        path, tree = E.new(VL.of(E, DINT, z3.Const("path", z3.ArraySort(I, I)), z3.Int("depth"), name="path"), site="path"), Unk("tree")
        path.cls, path.frozen = tuple, True
        E.assume(z3.And(path.off == 0, path.n >= 1))
        there = z3.Int("any depth")
        E.point(there)
        me = E.new(Obj(EL.TreeNode, {"_element": el, "_parent": None, "_tree": tree, "_path": path}, "node"), site="node")
        made = E.new(Obj(EL.TreeNode, {"_element": Unk("element"), "_parent": me, "_tree": tree, "_path": Unk("path")}), site="child")
        me.fields["_children"] = E.new(Kids(me, made), site="children")
        k, r = invoke_sync(E, me, "get", SInt(i))
        E.prove("it answers", k == "ok")
        if k != "ok":
            return
        E.prove("a node is answered", isinstance(r, Obj) and r.cls is EL.TreeNode)
        if r is made:
            E.cover("made before")
            return
        E.cover("made now")
        E.prove("the node is its parent", r.fields["_parent"] is me)
        E.prove("it is of the same tree", r.fields["_tree"] is tree)
        p = r.fields["_path"]
        E.prove("its path is that of the parent and its position", isinstance(p, VL) and p.cls is tuple and z3.And(
            p.n == path.n + 1, z3.Select(p.arr, p.off + path.n) == i,
            z3.Implies(z3.And(0 <= there, there < path.n), z3.Select(p.arr, p.off + there) == z3.Select(path.arr, there))))
        x = r.fields["_element"]
        if cls in NAMED:
            E.prove("its element is the one named", x is v)
        elif many and not repeat:
            E.prove("its element is the part at the position", isinstance(x, SVal) and x.e == z3.Select(v.arr, v.off + i))
        elif many:
            one = z3.Select(v.arr, v.off)
            E.prove("its element is the part or a copy of it", isinstance(x, SVal) and z3.Or(x.e == one, x.e == COPY(one)))
        if many:
            k, again = invoke_sync(E, me, "get", SInt(i))
            E.prove("the same child when asked again", k == "ok" and again is r)
    return spec


def spec_count(cls, repeat=False):
    def spec(E):
        base(E)
        many = cls in COLLECTIONS
        rep = z3.Int("repeat count")
        E.assume(rep > 1)
        el = element(E, cls, n=z3.IntVal(1) if repeat else None, repeat=SInt(rep) if repeat else 1)
        v = el.fields["_value"]
        me = E.new(Obj(EL.TreeNode, {"_element": el, "_parent": None, "_children": Unk("children"), "_tree": None, "_path": (0,)}, "node"),
                   site="node")
        k, r = attempt(E, lambda: E.getattr(me, "child_count"))
        E.cover("answers")
        E.prove("it answers", k == "ok")
        E.prove("one child for each part and repetition", B.zint(r) == (rep if repeat else v.n if many else 1))
        k, r = attempt(E, lambda: E.getattr(me, "repeat_count"))
        E.prove("the repetitions of its element", k == "ok" and B.zint(r) == (rep if repeat else 1))
        mand = fresh_bool("mandatory")
        me.fields["_element"] = SVal(z3.Const("element", ELEM), {"mandatory": lambda E, v: mand})
        k, r = attempt(E, lambda: E.getattr(me, "mandatory"))
        E.prove("a node may be empty exactly when its element may", k == "ok" and (r is mand or z3.BoolVal(r) == mand.e if isinstance(r, bool) else
                isinstance(r, SBool) and r.e == mand.e))
    return spec


def units():
    out = [Unit("%s.mandatory" % c.__name__, spec_mandatory(c), ["answers", "answers again"], 3)
           for c in COLLECTIONS + NAMED + LEAVES]
    for c in COLLECTIONS + NAMED + LEAVES:
        out.append(Unit("TreeNode.first of %s" % c.__name__, spec_first(c), ["answers"], 3))
    for c in COLLECTIONS + NAMED:
        out.append(Unit("TreeNode.get of %s" % c.__name__, spec_get(c), ["made now"], 3))
    for c in COLLECTIONS + NAMED + LEAVES:
        out.append(Unit("TreeNode.child_count of %s" % c.__name__, spec_count(c), ["answers"], 3))
    out.append(Unit("TreeNode.get of a repetition", spec_get(EL.SequenceInputElement, True), ["made now"], 3))
    out.append(Unit("TreeNode.child_count of a repetition", spec_count(EL.SequenceInputElement, True), ["answers"], 3))
    out.append(Unit("TreeNode.first of a repetition", spec_first(EL.SequenceInputElement, True), ["answers"], 3))
    return out
