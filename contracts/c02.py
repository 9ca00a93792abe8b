"""C02: repetition counts and optional blocks accept exactly the counts they denote."""
import z3

from nessaid_cli import compiler as CO
from nessaid_cli import elements as EL

from pyvc.engine import LoopSpec, Univ
from pyvc.vlist import VL
from .tok import *
from .c08 import Production
from .c15 import q
from . import trees as TR
from .trees import ELEM, DELEM, COPY, NULL_E, COLLECTIONS, NAMED, LEAVES, base, element

LEVEL = "proof"
TRUSTED = ["PLY runs the actions of the productions bottom-up and lets every exception but SyntaxError through",
           "int() of a text the lexer reads as INTEGER is the number it denotes"]
ASSUMPTIONS = ["the counts of a term of a term: occurrences of one term in a row are told apart by their number only "
               "(its language is a function of the element; C01 says which)",
               "a repeated sequence has one part (what p_term_multiplier builds, proved here)"]
ALL = COLLECTIONS + (EL.GrammarRefElement,) + LEAVES + (EL.UnresolvedInputElement,)
MULTI = (EL.SequenceInputElement, EL.OptionalInputElement)
FRAME = ("_value", "_repeat_count", "_pre_match_binding", "_post_match_binding", "_help_string", "_arglist")


def same(E, a, b):
    """the same value, as far as the objects tell"""
    if a is b:
        return True
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
        return B.zint(a) == B.zint(b)
    if isinstance(a, SStr) and isinstance(b, SStr):
        return a.e == b.e
    if isinstance(a, SVal) and isinstance(b, SVal):
        return a.e == b.e
    if isinstance(a, PyList) and isinstance(b, (PyList, VL)) and b.items is not None:
        return len(a.items) == len(b.items) and all(x is y for x, y in zip(a.items, b.items))
    if isinstance(a, VL) and isinstance(b, VL):
        return z3.BoolVal(a.arr is b.arr and a.off is b.off) if not z3.is_expr(a.n) else z3.And(
            a.n == b.n, a.off == b.off, z3.BoolVal(a.arr.eq(b.arr)))
    return type(a) is type(b) and not isinstance(a, (Heap, Unk)) and a == b


class Terms:
    """what stands for one occurrence of the term: itself and what copy() answers for it"""
    def __init__(self, E, *terms):
        self.was = [(t, t.cls, {f: t.fields.get(f) for f in FRAME}) for t in terms]
        self.copies = []

    def knows(self, x):
        for t, cls, f in self.was + self.copies:
            if t is x:
                return f
        return None

    def intact(self, E, x):
        f = self.knows(x)
        return z3.And(*[z3.BoolVal(c) if isinstance(c, bool) else c for c in
                        [same(E, f[k], x.fields.get(k)) for k in FRAME]])

    def copy(self, E, a, k):
        x = a[0]
        f = self.knows(x)
        if f is None:
            raise Unsupported("copy of a part built here")
        E.prove("a term is copied as it was", self.intact(E, x))
        c = E.new(Obj(x.cls, dict(x.fields), "copy"), site="copy of the term")
        self.copies.append((c, c.cls, {f: c.fields.get(f) for f in FRAME}))
        return c


def items(E, v):
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, VL) and v.items is not None:
        return list(v.items)
    raise Unsupported("parts %r" % (v,))


def denotes(E, x, T, one=None):
    """lowest and highest number of occurrences of the term an element stands for; every count between is met"""
    if T.knows(x) is not None:
        E.prove("the term repeated is the one that was written", T.intact(E, x))
        return one or (z3.IntVal(1), z3.IntVal(1))
    E.prove("only elements are built", isinstance(x, Obj) and x.cls in COLLECTIONS)
    E.prove("no action is added", not x.fields["_pre_match_binding"] and not x.fields["_post_match_binding"])
    parts = items(E, x.fields["_value"])
    r = B.zint(x.fields["_repeat_count"])
    E.prove("there is something to repeat", len(parts) > 0)
    E.prove("repetitions are positive", r >= 1)
    ds = [denotes(E, p, T, one) for p in parts]
    if x.cls is EL.AlternativeInputElement:
        lo, hi = ds[0]
        for a, b in ds[1:]:
            E.prove("no count between alternatives is left out", z3.And(a <= hi + 1, lo <= b + 1))
            lo, hi = z3.If(a < lo, a, lo), z3.If(b > hi, b, hi)
    else:
        lo, hi = z3.Sum(*[d[0] for d in ds]) if len(ds) > 1 else ds[0][0], z3.Sum(*[d[1] for d in ds]) if len(ds) > 1 else ds[0][1]
    if x.cls is EL.OptionalInputElement:
        E.prove("an optional part leaves no count out", lo <= 1)
        lo = z3.IntVal(0)
    if not z3.is_true(z3.simplify(r == 1)):
        E.prove("one part is repeated at a time", z3.Or(r == 1, z3.BoolVal(x.cls in MULTI and len(parts) == 1)))
    return z3.simplify(lo * r), z3.simplify(hi * r)


def parser(E):
    return E.new(Obj(CO.NessaidCliParser, {"_grammar_spec": Unk("specification"), "binding_parser": Unk("binding parser")}))


def some(E, what):
    """the actions on one side of an element, or none"""
    return (Unk(what),) if E.choose(2, "no %s actions" % what) == 0 else ()


def term(E, cls, name="term"):
    rep = z3.Int("count of the " + name)
    E.assume(rep >= 1)
    if cls is EL.UnresolvedInputElement:
        return E.new(Obj(cls, {"_value": fresh_str("name"), "_repeat_count": 1, "_parent": None, "_help_string": None,
                               "_pre_match_binding": Unk("actions"), "_post_match_binding": Unk("actions"), "_arglist": Unk("arguments")}), site=name)
    if cls is EL.GrammarRefElement:
        g = E.new(Obj(EL.NamedGrammar, {"_name": fresh_str("grammar"), "_param_list": Unk("parameters"), "_value": Unk("rule"),
                                        "_repeat_count": 1, "_parent": None}), site="grammar")
        return E.new(Obj(cls, {"_value": g, "_repeat_count": 1, "_parent": None, "_help_string": None,
                               "_arglist": E.new(PyList([Unk("argument")] if E.choose(2, "arguments") else []), site="arguments"),
                               "_pre_match_binding": some(E, "pre"), "_post_match_binding": some(E, "post"),
                               "_param_mapping": Unk("bound")}), site=name)
    n = None
    if cls in COLLECTIONS:
        n = z3.Int("parts of the " + name)
        E.assume(n >= 1)
        if cls is EL.SequenceInputElement:
            E.assume(z3.Or(rep == 1, n == 1))
    t = element(E, cls, n=n, repeat=SInt(rep) if cls is EL.SequenceInputElement else 1)
    if cls in COLLECTIONS:
        t.fields["_value"].cls = tuple
    t.site = name
    t.fields["_pre_match_binding"], t.fields["_post_match_binding"] = some(E, "pre"), some(E, "post")
    return t


def spec_multiplier(cls):
    def spec(E):
        base(E)
        t = term(E, cls)
        T = Terms(E, t)
        E.contracts.update({q(c, "copy"): T.copy for c in ALL})
        m, n = z3.Ints("lowest highest")
        E.assume(m <= n)
        p = E.new(Production([None, t, "*", (SInt(m), SInt(n))]))
        k, r = attempt(E, lambda: E.call(CO.NessaidCliParser.p_term_multiplier, [parser(E), p], {}))
        if k != "ok":
            E.cover("rejected")
            E.prove("only what is not positive is rejected", z3.Or(m < 0, n == 0))
            E.prove("the parser does not recover from it", not issubclass(r.cls, SyntaxError))
            return
        E.cover("accepted")
        E.prove("what is not positive is rejected", z3.And(m >= 0, n >= 1))
        E.prove("the term is built", isinstance(p.items[0], Obj))
        if not isinstance(p.items[0], Obj):
            return
        lo, hi = denotes(E, p.items[0], T)
        E.prove("the lowest count is the one written", lo == m)
        E.prove("the highest count is the one written", hi == n)
    return spec


def spec_repeater(E):
    """the counts written, in order; for texts of integers"""
    base(E)
    shapes = [[None, 0], [None, "(", 0, ")"], [None, "(", 0, ":", 1, ")"]]
    c = E.choose(3, "production")
    xs = [fresh_str("first count"), fresh_str("second count")]
    for x in xs:
        E.assume(B.INTOK(x.e))
    p = E.new(Production([xs[v] if isinstance(v, int) else v for v in shapes[c]]))
    k, r = attempt(E, lambda: E.call(CO.NessaidCliParser.p_repeater, [parser(E), p], {}))
    E.prove("it answers", k == "ok")
    if k != "ok":
        return
    E.cover(["n", "(n)", "(m:n)"][c])
    v = p.items[0]
    ok = isinstance(v, tuple) and len(v) == 2 or isinstance(v, PyList) and len(v.items) == 2
    E.prove("it answers two counts", ok)
    if not ok:
        return
    v = v if isinstance(v, tuple) else v.items
    a = B.INTOF(xs[0].e)
    b = a if c < 2 else B.INTOF(xs[1].e)
    E.prove("the lower one first", B.zint(v[0]) == z3.If(a < b, a, b))
    E.prove("then the higher one", B.zint(v[1]) == z3.If(a < b, b, a))


def spec_optional(cls):
    """{ rule } is nothing or the rule, once, with its actions"""
    def spec(E):
        base(E)
        t = term(E, cls, "rule")
        T = Terms(E, t)
        pre, post, v0, r0 = [t.fields[f] for f in ("_pre_match_binding", "_post_match_binding", "_value", "_repeat_count")]
        E.contracts.update({q(c, "copy"): T.copy for c in ALL})
        E.loops = {"*": lambda E, s, env, it: LoopSpec(lambda E, env, i, it: [])}
        p = E.new(Production([None, "{", t, "}"]))
        k, r = attempt(E, lambda: E.call(CO.NessaidCliParser.p_optional_rule, [parser(E), p], {}))
        E.prove("it answers", k == "ok")
        o = p.items[0]
        if k != "ok":
            return
        good = isinstance(o, Obj) and o.cls is EL.OptionalInputElement
        E.prove("a block that may be left out is built", good)
        if not good:
            return
        v = o.fields["_value"]
        E.prove("it is not repeated", z3.IntVal(1) == B.zint(o.fields["_repeat_count"]))
        if isinstance(v, VL) and v.items is None:
            E.cover("parts")
            E.prove("its parts are those of the rule", isinstance(v0, VL) and z3.And(v.n == v0.n, v.off == v0.off, z3.BoolVal(v.arr.eq(v0.arr))))
            E.prove("the rule was a plain sequence", z3.And(z3.BoolVal(cls is EL.SequenceInputElement), B.zint(r0) == 1))
            E.prove("its actions are those of the rule", o.fields["_pre_match_binding"] == pre and o.fields["_post_match_binding"] == post)
        else:
            E.cover("whole")
            xs = items(E, v)
            E.prove("it holds the rule", len(xs) == 1 and xs[0] is t)
            E.prove("the rule is unchanged", T.intact(E, t))
            E.prove("no action is added", not o.fields["_pre_match_binding"] and not o.fields["_post_match_binding"])
    return spec


# ------------------------------------------------------------------ copies
def spec_copy(cls):
    """a copy has the class, the parts (copied, in order), the count and the actions of the element"""
    def spec(E):
        base(E)
        t = term(E, cls, "original")
        v0 = t.fields["_value"]
        T = Terms(E, t)
        E.contracts["nessaid_cli.elements:map_grammar_arguments"] = lambda E, a, k: Unk("bound")    # C05
        J = z3.Int("any part")
        E.point(J)

        def inv(E, env, i, it):
            out = []
            for n, v in env.vars.items():
                if isinstance(v, VL) and v is not it and v is not v0 and v.cls is list and i is not None:
                    out.append(("%s: one for each" % n, v.n == i))
                    if v.arr is not None:
                        out.append(("%s: copies" % n, z3.Implies(z3.And(0 <= J, J < i), z3.Select(v.arr, v.off + J) == COPY(z3.Select(v0.arr, v0.off + J)))))
            return out
        E.loops = {"*": lambda E, s, env, it: LoopSpec(inv)}
        k, c = invoke_sync(E, t, "copy")
        E.prove("it answers", k == "ok")
        if k != "ok":
            return
        E.cover("answers")
        E.prove("an element of the same kind", isinstance(c, Obj) and c.cls is cls)
        E.prove("another object", c is not t)
        E.prove("the element is unchanged", T.intact(E, t))
        for f in FRAME:
            if f == "_value" and cls in COLLECTIONS:
                v = c.fields["_value"]
                E.prove("as many parts", isinstance(v, VL) and v.n == v0.n)
                if not isinstance(v, VL) or v.dom is None:
                    return
                E.prove("copies of the parts in order", z3.Implies(z3.And(0 <= J, J < v0.n),
                        z3.Select(v.arr, v.off + J) == COPY(z3.Select(v0.arr, v0.off + J))))
            elif f in t.fields and not (f == "_arglist" and cls is EL.UnresolvedInputElement):
                E.prove("the copy has the %s of the element" % f.strip("_").replace("_", " "), same(E, t.fields[f], c.fields.get(f)))
    return spec


def spec_count(E):
    """only positive counts can be given to an element"""
    base(E)
    o = element(E, EL.SequenceInputElement, n=z3.IntVal(1))
    n = z3.Int("count")
    k, r = attempt(E, lambda: E.setattr(o, "repeat_count", SInt(n)))
    E.cover(k)
    E.prove("exactly positive counts are taken", (n >= 1) == z3.BoolVal(k == "ok"))
    E.prove("the count is the one given", z3.Implies(n >= 1, B.zint(o.fields["_repeat_count"]) == n))
    E.prove("no other count is kept", z3.Implies(n < 1, B.zint(o.fields["_repeat_count"]) == 1))


class Parser(Model):
    """PLY's parser: the tree or what an action raised"""
    def getattr(self, E, name):
        if name != "parse":
            return Unk(name)

        def parse(E, a, k):
            E.prove("the text is parsed as it is", len(a) >= 1 and a[0] is E.ghost["text"])
            if E.choose(2, "rejected by an action"):
                E.ghost["raised"] = E.new(Obj(ValueError, {"args": ("?",)}))
                raise PyExc(E.ghost["raised"])
            return E.ghost["spec"]
        return Builtin("parse", parse)

    def truth(self, E):
        return True

    def havoc(self, E):
        pass


def spec_parse(E):
    base(E)
    E.typestate = True
    E.ghost.update(text=fresh_str("grammar text"), spec=Unk("specification"), raised=None)
    o = parser(E)
    o.fields["_parser"] = E.new(Parser())
    o.fields["_lexer"] = Unk("lexer")
    k, r = attempt(E, lambda: E.call(CO.NessaidCliParser.parse, [o, E.ghost["text"]], {}))
    if E.ghost["raised"] is None:
        E.cover("compiled")
        E.prove("the specification is answered", k == "ok" and r is E.ghost["spec"])
    else:
        E.cover("rejected")
        E.prove("what an action rejects is rejected", k == "exc" and r is E.ghost["raised"])


def spec_compile(E):
    base(E)
    E.typestate = True
    E.ghost.update(text=fresh_str("grammar text"), spec=Unk("specification"), raised=None)
    o = parser(E)
    E.contracts["nessaid_cli.compiler:NessaidCliParser"] = lambda E, a, k: o
    o.fields["_parser"] = E.new(Parser())
    o.fields["_lexer"] = Unk("lexer")
    k, r = attempt(E, lambda: E.call(CO.compile_grammar, [E.ghost["text"]], {}))
    if E.ghost["raised"] is None:
        E.cover("compiled")
        E.prove("the specification is answered", k == "ok" and r is E.ghost["spec"])
    else:
        E.cover("rejected")
        E.prove("what an action rejects is rejected", k == "exc" and r is E.ghost["raised"])


def units(tier):
    out = [Unit("p_repeater", spec_repeater, ["n", "(n)", "(m:n)"], 3),
           Unit("repeat_count", spec_count, ["ok", "exc"], 3),
           Unit("NessaidCliParser.parse", spec_parse, ["compiled", "rejected"], 3),
           Unit("compile_grammar", spec_compile, ["compiled", "rejected"], 3)]
    for c in ALL:
        out.append(Unit("p_term_multiplier of %s" % c.__name__, spec_multiplier(c), ["rejected", "accepted"], 8))
        out.append(Unit("p_optional_rule of %s" % c.__name__, spec_optional(c), ["whole"], 3))
        out.append(Unit("%s.copy" % c.__name__, spec_copy(c), ["answers"], 3))
    return out
