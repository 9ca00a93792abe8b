"""LookupToken.next: what may follow a token, up all levels of the walk tree (C01).

The node's ancestors are the levels 0, 1, ... D-1 (level 0: its parent); POSN(i) is the child of level i the token was
reached through.  BLK is the first level that must go on after that child (D: none), BK(i) the first child after it that
must match something."""
import z3

from nessaid_cli import elements as EL

from pyvc.engine import LoopSpec, Univ
from pyvc.vlist import VL, Dom
from .tok import *
from .c15 import q
from .trees import base

I, B_ = z3.IntSort(), z3.BoolSort()
NODE, LTOK = z3.DeclareSort("Child"), z3.DeclareSort("LookupTok")
F = z3.Function
D, BLK, LEVEL = z3.Ints("depth first_level_that_goes_on any_level")
POSN, COUNT, KIND, REPC, BK, W = [F(n, I, I) for n in ("position_in", "children_of", "kind_of", "repeats_of", "first_needed_in", "left_in")]
ENDS, RNULL = F("set_may_end", I, B_), F("repeated_may_be_empty", I, B_)
CH = F("child_of", I, I, NODE)
LEV, IDX, REPN = F("level_of", NODE, I), F("place_of", NODE, I), F("repeats", NODE, I)
NULL = F("child_may_be_empty", NODE, B_)
FN, FN0 = [F(n, NODE, z3.ArraySort(LTOK, B_)) for n in ("child_begins_with", "repetition_begins_with")]
WF = F("a_beginning", NODE, LTOK)
TL, OWN = F("token_level", LTOK, I), F("token_child", LTOK, I)
PRES = F("taken", I, I, B_)
EOI = z3.Const("end_of_input", LTOK)
SEQ, ALT, SET, OPT, NAMED, REF = range(6)
CLASSES = {SEQ: EL.SequenceInputElement, ALT: EL.AlternativeInputElement, SET: EL.OrderlessSetInputElement,
           OPT: EL.OptionalInputElement, NAMED: EL.NamedGrammar, REF: EL.GrammarRefElement}


def ordered(i):
    return z3.And(KIND(i) != ALT, KIND(i) != SET)


def ends(i):
    return z3.If(KIND(i) == ALT, True, z3.If(KIND(i) == SET, ENDS(i), BK(i) == COUNT(i)))


def may_come(i, k):
    """child k of level i may come next, once the levels below ended"""
    return z3.And(k >= 0, k < COUNT(i), z3.Or(z3.And(KIND(i) == SET, z3.Not(PRES(i, k))),
                                              z3.And(ordered(i), POSN(i) < k, k <= BK(i))))


def may(y):
    return z3.And(y != EOI, 0 <= TL(y), TL(y) < D, TL(y) <= BLK, may_come(TL(y), OWN(y)), z3.Select(FN(CH(TL(y), OWN(y))), y))


def want(y):
    """tokens that have to be offered: of a repeated child those of its first repetition, of a repetition the next one"""
    i, k = TL(y), OWN(y)
    n = CH(i, k)
    return z3.And(may(y), z3.Implies(REPC(i) > 1, k == POSN(i) + 1), z3.Implies(REPN(n) > 1, z3.Select(FN0(n), y)))


def touch(E, i):
    """facts about a level, and about the children of it the argument is about"""
    i = z3.simplify(i)
    E.point(i)
    for k in (BK(i), W(i)):
        child(E, i, z3.simplify(k))


def child(E, i, k):
    n = z3.simplify(CH(i, k))
    E.assume(z3.And(LEV(n) == i, IDX(n) == k))
    E.point(WF(n))
    E.point(n)
    return n


def kinds(E, v, cls):
    ks = [k for k, c in CLASSES.items() if issubclass(c, cls)]
    return z3.Or(*[KIND(v.e) == k for k in ks]) if ks else False


def level(i):
    return SVal(z3.simplify(i), LEVEL_ATTRS, LEVEL_METHODS, truthy=lambda E, v: v.e < D)


def at_level(f):
    def g(E, v, *a):
        E.prove("there is such a level", v.e < D)
        touch(E, v.e)
        return f(E, v, *a)
    return g


def get(E, v, a, k):
    i = B.zint(a[0])
    E.prove("the child asked for exists", z3.And(i >= 0, i < COUNT(v.e)))
    return node(E, child(E, v.e, i))


def only_me(E, v, o):
    return isinstance(o, SVal) and v.e == o.e if o is not None else v.e >= D


LEVEL_ATTRS = {
    "parent": at_level(lambda E, v: level(v.e + 1)),
    "position": at_level(lambda E, v: SInt(POSN(v.e + 1))),
    "child_count": at_level(lambda E, v: SInt(COUNT(v.e))),
    "repeat_count": at_level(lambda E, v: SInt(REPC(v.e))),
    "element": at_level(lambda E, v: SVal(v.e, {"repeat_count": lambda E, v: SInt(REPC(v.e))}, truthy=lambda E, v: True, kinds=kinds)),
    "is": only_me}
LEVEL_METHODS = {"get": at_level(get)}


def is_level(v):
    return isinstance(v, SVal) and v.attrs is LEVEL_ATTRS


def tokens_of(E, n, which):
    arr, s = z3.Const(fresh_name("beginning"), z3.ArraySort(I, LTOK)), which(n)
    E.scheme(LTOK, lambda y: z3.And(
        z3.Implies(z3.Select(FN0(n), y), z3.Select(FN(n), y)),
        z3.Implies(z3.Select(FN(n), y), z3.And(TL(y) == LEV(n), OWN(y) == IDX(n), y != EOI))))
    return E.new(VL.of(E, DLT, arr, z3.Int(fresh_name("beginnings")), s), site="beginning")


def node(E, n):
    def first_repetition(E, v, a, k):
        E.prove("only what repeats is entered at its first repetition", z3.And(REPN(v.e) > 1, z3.BoolVal(a == [0])))
        return SVal(v.e, {}, {"first": lambda E, v, a, k: tokens_of(E, v.e, FN0)}, truthy=lambda E, v: True)
    E.point(WF(n))
    return SVal(n, {"mandatory": lambda E, v: SBool(z3.Not(NULL(v.e))),
                    "position": lambda E, v: SInt(IDX(v.e)),
                    "parent": lambda E, v: level(LEV(v.e)),
                    "repeat_count": lambda E, v: SInt(REPN(v.e)),
                    "element": lambda E, v: SVal(v.e, {"repeat_count": lambda E, v: SInt(REPN(v.e)),
                                                       "mandatory": lambda E, v: SBool(z3.Not(NULL(v.e)))}, truthy=lambda E, v: True),
                    "is": lambda E, v, o: isinstance(o, SVal) and v.e == o.e},
                {"first": lambda E, v, a, k: tokens_of(E, v.e, FN), "get": first_repetition}, truthy=lambda E, v: True)


class Noted(Model):
    """what the tokens note about one level, any: taken over from this token, and the child added"""
    value_semantics = True

    def __init__(self, cp, ad, at):
        super().__init__()
        self.cp, self.ad, self.at = cp, ad, at

    def kind_key(self):
        return "noted"

    def fresh_like(self, E):
        b, i = z3.ArraySort(LTOK, B_), z3.ArraySort(LTOK, I)
        return Noted(z3.Const(fresh_name("copied"), b), z3.Const(fresh_name("added"), b), z3.Const(fresh_name("added_at"), i))

    def havoc(self, E):
        f = self.fresh_like(E)
        self.cp, self.ad, self.at = f.cp, f.ad, f.at

    def right(self, y, upto=None):
        """the levels from the token's own (up to this one) are noted"""
        upto = D - 1 if upto is None else upto
        return z3.Implies(z3.And(y != EOI, TL(y) <= LEVEL, LEVEL <= upto, LEVEL < D), z3.And(
            z3.Select(self.cp, y), z3.Select(self.ad, y),
            z3.Select(self.at, y) == z3.If(LEVEL == TL(y), OWN(y), POSN(LEVEL))))


def note_copy(E, v, a, k):
    p = E.ghost["noted"]
    a = list(a) + [k[x] for x in ("previous", "node") if x in k]
    E.prove("what this token noted is taken over", a[0] is E.ghost["me"])
    E.prove("level by level", len(a) > 1 and is_level(a[1]))
    E.note_write(p)
    here = a[1].e == LEVEL
    p.cp = z3.If(here, z3.Store(p.cp, v.e, z3.BoolVal(True)), p.cp)
    p.ad = z3.If(here, z3.Store(p.ad, v.e, z3.BoolVal(False)), p.ad)


def note_add(E, v, a, k):
    p = E.ghost["noted"]
    E.prove("a level is noted", is_level(a[0]))
    E.note_write(p)
    here, i = a[0].e == LEVEL, B.zint(a[1])
    E.prove("one child of a level is added", z3.Implies(z3.And(here, z3.Select(p.ad, v.e)), z3.Select(p.at, v.e) == i))
    p.ad = z3.If(here, z3.Store(p.ad, v.e, z3.BoolVal(True)), p.ad)
    p.at = z3.If(here, z3.Store(p.at, v.e, i), p.at)


def tok(E, e):
    return SVal(e, {}, {"add_lookup_path": note_add, "copy_lookup_path_from": note_copy}, truthy=lambda E, v: True)


def unwrap_tok(v):
    if v is EL.EndOfInpuToken or isinstance(v, Obj) and v.cls is type(EL.EndOfInpuToken):
        return EOI
    return v.e if isinstance(v, SVal) and v.e.sort() == LTOK else None


DLT = Dom("lookup token", LTOK, tok, unwrap_tok)
DNODE = Dom("child", NODE, node, lambda v: v.e if isinstance(v, SVal) and v.e.sort() == NODE else None)


def setup(E):
    base(E)
    E.vdoms = [DLT, DNODE]
    E.assume(z3.And(D >= 0, BLK >= 0, BLK <= D, LEVEL >= 0, LEVEL < D + 1))
    E.assume(z3.Implies(BLK < D, z3.Not(ends(BLK))))
    E.scheme(I, lambda i: z3.Implies(z3.And(i >= 0, i < BLK), ends(i)))
    E.scheme(I, lambda i: z3.Implies(z3.And(i >= 0, i < D), z3.And(
        POSN(i) >= 0, POSN(i) < COUNT(i), KIND(i) >= 0, KIND(i) <= 5, REPC(i) >= 1,
        z3.Implies(REPC(i) > 1, z3.Or(KIND(i) == SEQ, KIND(i) == OPT)),
        z3.Implies(KIND(i) >= NAMED, COUNT(i) == 1),
        z3.Implies(ordered(i), z3.And(POSN(i) < BK(i), BK(i) <= COUNT(i))),
        z3.Implies(z3.Not(ENDS(i)), z3.And(W(i) >= 0, W(i) < COUNT(i))))))

    def about(n):
        l, k = LEV(n), IDX(n)
        wf = z3.And(n == CH(l, k), l >= 0, l < D, k >= 0, k < COUNT(l))
        return z3.And(REPN(n) >= 1, z3.Implies(z3.Not(NULL(n)), z3.And(
            z3.Select(FN(n), WF(n)), z3.Implies(REPN(n) > 1, z3.Select(FN0(n), WF(n))), WF(n) != EOI, TL(WF(n)) == LEV(n), OWN(WF(n)) == IDX(n))), z3.Implies(wf, z3.And(
                z3.Implies(z3.And(ordered(l), POSN(l) < k, k < BK(l)), NULL(n)),
                z3.Implies(z3.And(ordered(l), k == BK(l)), z3.Not(NULL(n))),
                z3.Implies(z3.And(KIND(l) == SET, ENDS(l)), z3.Or(PRES(l, k), NULL(n))),
                z3.Implies(z3.And(KIND(l) == SET, z3.Not(ENDS(l)), k == W(l)), z3.And(z3.Not(PRES(l, k)), z3.Not(NULL(n)))),
                z3.Implies(REPC(l) > 1, NULL(n) == RNULL(l)))))
    E.scheme(NODE, about)
    E.assume(TL(EOI) == -1)
    E.point(EOI)
    leaf = SVal(z3.Const("this", NODE), {"parent": lambda E, v: level(z3.IntVal(0)), "position": lambda E, v: SInt(POSN(0))},
                truthy=lambda E, v: True)
    me = E.new(Obj(EL.LookupToken, {"_node": leaf, "_lookup_path": Unk("lookup path"), "_name": Unk("name")}, "token"), site="token")
    E.ghost["me"] = me
    E.ghost["noted"] = E.new(Noted(None, None, None).fresh_like(E), site="noted")

    def present(E, a, k):
        n = a[1]
        E.prove("the token looks into its own path", a[0] is me)
        E.prove("a child is looked for", isinstance(n, SVal) and n.e.sort() == NODE)
        return SBool(PRES(LEV(n.e), IDX(n.e)))
    E.contracts[q(EL.LookupToken, "path_present")] = present
    return me


def invariants(E, env, i, it):
    out, env = [], Scope(E, env)
    p = E.ghost["noted"]
    noted = Noted(p.cp, p.ad, p.at)
    levels = [(n, v.e) for n, v in env.vars.items() if is_level(v)]
    ints = [(n, v.e if isinstance(v, SInt) else z3.IntVal(v)) for n, v in env.vars.items()
            if isinstance(v, (SInt, int)) and not isinstance(v, bool)]
    bools = [(n, v.e if isinstance(v, SBool) else z3.BoolVal(v)) for n, v in env.vars.items() if isinstance(v, (SBool, bool))]
    toks = [(n, v.mem if v.mem is not None else z3.K(LTOK, z3.BoolVal(False)), v) for n, v in env.vars.items()
            if isinstance(v, VL) and v.dom in (None, DLT)]
    nodes = [(n, v.mem if v.mem is not None else z3.K(NODE, z3.BoolVal(False)), v) for n, v in env.vars.items()
             if isinstance(v, VL) and v.dom in (None, DNODE)]
    if i is not None and not isinstance(it, VL):
        ints.append(("met", i))
    if i is not None:
        ints = [x for x in ints if x[0] == "met" or not z3.is_false(z3.simplify(x[1] == x[1]))]
    add = lambda n, c: out.append((n, c))
    for n, b in bools:
        add("%s" % n, b)
        add("%s: no level has to go on" % n, z3.Implies(b, z3.BoolVal(True)) if not levels else z3.Implies(b, BLK >= 0))
        add("not %s: a level goes on" % n, z3.Implies(z3.Not(b), BLK < D))
    for n, l in levels:
        add("%s is a level" % n, z3.And(l >= 0, l <= D))
        add("%s is a node" % n, l < D)
        add("%s is reached" % n, l <= BLK)
        for m, k in levels:
            if n != m:
                add("%s is not above %s" % (n, m), l <= k)
        for m, k in ints:
            add("%s is behind the child of %s" % (m, n), k == POSN(l) + 1)
            add("%s is not before the next child of %s" % (m, n), k > POSN(l))
            add("%s is reached in %s" % (m, n), z3.Implies(ordered(l), k <= BK(l)))
        for m, b in bools:
            add("not %s: %s goes on" % (m, n), z3.Implies(z3.Not(b), BLK == l))
    for n, s, v in toks:
        add("%s: none taken" % n, v.off == 0)
        u = lambda name, f: out.append(("%s: %s" % (n, name), Univ(LTOK, f)))
        u("may follow", lambda y, s=s: z3.Implies(z3.Select(s, y), may(y)))
        u("noted", lambda y, s=s: z3.Implies(z3.Select(s, y), noted.right(y)))
        for m, l in levels:
            u("below %s" % m, lambda y, s=s, l=l: z3.Implies(z3.Select(s, y), TL(y) < l))
            u("of %s" % m, lambda y, s=s, l=l: z3.Implies(z3.Select(s, y), TL(y) == l))
            u("noted up to %s" % m, lambda y, s=s, l=l: z3.Implies(z3.Select(s, y), noted.right(y, l)))
            u("all below %s" % m, lambda y, s=s, l=l: z3.Implies(z3.And(want(y), TL(y) < l), z3.Select(s, y)))
            for k, e in ints:
                before = lambda y, l=l, e=e: z3.Or(TL(y) < l, z3.And(TL(y) == l, OWN(y) < e))
                u("before %s of %s" % (k, m), lambda y, s=s, f=before: z3.Implies(z3.Select(s, y), f(y)))
                u("all before %s of %s" % (k, m), lambda y, s=s, f=before, l=l: z3.Implies(
                    z3.And(want(y), f(y), z3.Or(TL(y) < l, ordered(l))), z3.Select(s, y)))
                u("all of %s before %s" % (m, k), lambda y, s=s, l=l, e=e: z3.Implies(
                    z3.And(want(y), TL(y) == l, OWN(y) < e), z3.Select(s, y)))
                u("all of the children of %s before %s" % (m, k), lambda y, s=s, l=l, e=e: z3.Implies(
                    z3.And(TL(y) == l, OWN(y) >= 0, OWN(y) < e, z3.Not(PRES(l, OWN(y))), z3.Select(FN(CH(l, OWN(y))), y)), z3.Select(s, y)))
    for n, s, v in nodes:
        add("%s: none taken" % n, v.off == 0)
        u = lambda name, f: out.append(("%s: %s" % (n, name), Univ(NODE, f)))
        for m, l in levels:
            for k, e in ints:
                left = lambda y, l=l, e=e: z3.And(y == CH(l, IDX(y)), LEV(y) == l, IDX(y) >= 0, IDX(y) < e, z3.Not(PRES(l, IDX(y))))
                u("children of %s left before %s" % (m, k), lambda y, s=s, f=left: z3.Implies(z3.Select(s, y), f(y)))
                u("all children of %s left before %s" % (m, k), lambda y, s=s, f=left: z3.Implies(f(y), z3.Select(s, y)))
    if isinstance(it, VL) and i is not None and it.dom in (DLT, DNODE):
        ls = (it.mem, it.pos, it.off)
        if it.dom is DNODE:
            out.append(("those met may be empty", Univ(NODE, lambda y: z3.Implies(
                z3.And(z3.Select(ls[0], y), z3.Select(ls[1], y) < ls[2] + i), NULL(y)))))
        else:
            met = lambda y: z3.And(z3.Select(ls[0], y), z3.Select(ls[1], y) < ls[2] + i)
            for m, l in levels:
                out.append(("those met are noted up to %s" % m, Univ(LTOK, lambda y, l=l: z3.Implies(met(y), noted.right(y, l)))))
                out.append(("those met are noted up to the one above %s" % m, Univ(LTOK, lambda y, l=l: z3.Implies(met(y), noted.right(y, l + 1)))))
                out.append(("all are noted up to %s" % m, Univ(LTOK, lambda y, l=l: z3.Implies(z3.Select(ls[0], y), noted.right(y, l)))))
    return out


def spec_next(E):
    me = setup(E)
    E.loops = {"*": lambda E, s, env, it: LoopSpec(invariants)}
    k, r = invoke_sync(E, me, "next")
    E.prove("it answers", k == "ok")
    if k != "ok":
        return
    good = isinstance(r, VL)
    E.prove("it answers a list", good)
    if not good:
        return
    y = E.point(z3.Const("any token", LTOK))
    p = E.ghost["noted"]
    s = lambda y: z3.BoolVal(False) if r.mem is None else z3.Select(r.mem, y)
    E.cover("answers")
    E.prove("what is answered may follow", z3.Implies(z3.And(s(y), y != EOI), may(y)))
    E.prove("what may follow is answered", z3.Implies(want(y), s(y)))
    E.prove("the end is answered exactly when nothing has to follow", s(EOI) == (BLK == D))
    E.prove("the levels above are noted", z3.Implies(s(y), p.right(y)))
    E.prove("nothing was taken from the answer", r.off == 0)


def units():
    return [Unit("LookupToken.next", spec_next, ["answers"], 8)]
