"""CliInterface.match over the ways to match a line (C01, C03).

A way is a sequence of lookup tokens: the first is one the grammar may begin with, each following one is allowed after the
one before it.  What the grammar allows is given (FIRST, NX): it is what the walk tree answers, specified in C01."""
import z3

from nessaid_cli import elements as EL
from nessaid_cli import interface as IF
from nessaid_cli import tokens as TK

from pyvc.engine import LoopSpec, Coro, Univ, assigned_names
from pyvc.vlist import VL, VS, Dom
from .tok import *
from .c15 import q

I, B_ = z3.IntSort(), z3.BoolSort()
WAY, TOK, OBJ, INP, VALUE, TXT = [z3.DeclareSort(n) for n in ("Way", "Lookup", "Token", "Input", "Value", "Name")]
SET = z3.ArraySort(TOK, B_)

FIRST = z3.Const("FIRST", SET)                # tokens a line may begin with
NX = z3.Function("NX", TOK, SET)              # tokens that may follow, the end of the line among them
EOI = z3.Const("end_of_input", TOK)
ELM = z3.DeclareSort("GrammarElement")
ELEMENT = z3.Function("element_of", TOK, ELM)
NAME, TOKEN = z3.Function("name", TOK, TXT), z3.Function("token_of", TXT, OBJ)
MR = z3.Function("match", OBJ, INP, I)        # 0 success, 1 failure, 2 partial, 3 ambiguous
NV = z3.Function("has_value", OBJ, INP, B_)
VAL = z3.Function("value", OBJ, INP, VALUE)
RESULTS = [TK.MATCH_SUCCESS, TK.MATCH_FAILURE, TK.MATCH_PARTIAL, TK.MATCH_AMBIGUOUS]

N = z3.Int("length_of_line")
IN = z3.Const("line", z3.ArraySort(I, INP))
LEN, LAST = z3.Function("len", WAY, I), z3.Function("last", WAY, TOK)
AT = z3.Function("at", WAY, I, TOK)
EXT, EMPTY = z3.Function("extended", WAY, TOK, WAY), z3.Const("empty_way", WAY)
PRE = z3.Function("allowed_after_accepted", WAY, B_)     # all but the last accepted, all allowed
GOOD = z3.Function("accepted", WAY, B_)                  # all accepted, all allowed


def allow(w):
    return z3.If(LEN(w) == 0, FIRST, z3.Store(NX(LAST(w)), EOI, z3.BoolVal(False)))


def accepts(c, x):
    o = TOKEN(NAME(c))
    return z3.And(NV(o, x), z3.Or(MR(o, x) == 0, MR(o, x) == 2))


def complete(w):
    return z3.Select(NX(LAST(w)), EOI)


# some way to match the whole line every token of which matches in full (if there is one at all)
HASW = z3.Bool("there_is_a_full_match")
P, C = z3.Function("full_match", I, WAY), z3.Function("full_match_token", I, TOK)


def full(c, x):
    o = TOKEN(NAME(c))
    return z3.And(NV(o, x), MR(o, x) == 0)


def witness_facts(k):
    at = z3.And(LEN(P(k)) == k, GOOD(P(k)), (P(k) == EMPTY) == (k == 0))
    step = z3.And(P(k + 1) == EXT(P(k), C(k)), z3.Select(allow(P(k)), C(k)), full(C(k), z3.Select(IN, k)),
                  LEN(P(k + 1)) == k + 1, LAST(P(k + 1)) == C(k))
    return z3.Implies(HASW, z3.And(z3.Implies(z3.And(k >= 0, k <= N), at), z3.Implies(z3.And(k >= 0, k < N), step)))


# c may follow some accepted way of the first t tokens; o may be offered after the whole line: the least such predicates
CONT, OFFER = z3.Function("may_follow", I, TOK, B_), z3.Function("may_be_offered", OBJ, B_)
Q = z3.Const("any token", TOK)
SOME = z3.Function("some_follower", TOK, TOK)
FOLLOWER = SOME(LAST(P(N)))


def follow_rules(E):
    E.forall(WAY, lambda w: E.scheme(TOK, lambda c: z3.Implies(
        z3.And(GOOD(w), LEN(w) > 0, z3.Select(NX(LAST(w)), c)), CONT(LEN(w), c))) or z3.BoolVal(True))
    E.point(FOLLOWER)
    E.point(LAST(P(N)))
    E.scheme(TOK, lambda c: z3.Implies(c != EOI, z3.Select(NX(c), SOME(c))))      # something follows, or the end
    E.scheme(TOK, lambda c: z3.Implies(z3.And(CONT(N, c), c != EOI), OFFER(TOKEN(NAME(c)))))
    E.assume(z3.Implies(CONT(N, EOI), OFFER(NO_TOKEN)))


def way_facts(w):
    return z3.And(LEN(w) >= 0, (LEN(w) == 0) == (w == EMPTY), GOOD(EMPTY),
           z3.Implies(LEN(w) > 0, z3.And(LAST(w) == AT(w, LEN(w) - 1), GOOD(w) == z3.And(
               PRE(w), accepts(LAST(w), z3.Select(IN, LEN(w) - 1))))),
           z3.Implies(z3.And(LEN(w) > 0, PRE(w)), LAST(w) != EOI))


def extension_facts(w):
    if not w.decl().eq(EXT):
        return z3.BoolVal(True)
    p, c = w.arg(0), w.arg(1)
    return z3.And(LEN(w) == LEN(p) + 1, LAST(w) == c, PRE(w) == z3.And(GOOD(p), z3.Select(allow(p), c)))


def tok_truthy(E, v):
    return v.e != EOI


def tok(E, e):
    return SVal(e, {"is": lambda E, v, o: v.e == unwrap_tok(o) if unwrap_tok(o) is not None else False,
                    "name": lambda E, v: SVal(NAME(v.e)), "node": lambda E, v: SVal(v.e, {
                        "element": lambda E, n: SVal(ELEMENT(n.e))}), "helpstring": lambda E, v: Unk("help")},
                {"next": lambda E, v, a, k: nexts(E, v.e)}, tok_truthy, tok_is)


def tok_is(E, v, cls):
    plain, end = issubclass(EL.LookupToken, cls), issubclass(type(EL.EndOfInpuToken), cls)
    return plain if plain == end else (v.e == EOI) == end


def nexts(E, c):
    r = VL.of(E, DTOK, z3.Const(fresh_name("nexts"), z3.ArraySort(I, TOK)), z3.Int(fresh_name("nexts")), NX(c))
    return E.new(r, site="nexts")


def unwrap_tok(v):
    if isinstance(v, SVal) and v.e.sort() == TOK:
        return v.e
    if v is EL.EndOfInpuToken or isinstance(v, Obj) and v.cls is type(EL.EndOfInpuToken):
        return EOI
    return None


class Way(Model):
    """a sequence of lookup tokens"""
    def __init__(self, E, w, shared=True):
        super().__init__()
        self.w, self.shared = w, shared
        E.point(w)

    value_semantics = True

    def kind_key(self):
        return "way"

    def fresh_like(self, E):
        return Way(E, z3.Const(fresh_name("way"), WAY))

    def havoc(self, E):
        self.w = E.point(z3.Const(fresh_name("way"), WAY))

    def length(self, E):
        return LEN(self.w)

    def len_(self, E):
        return SInt(LEN(self.w))

    def truth(self, E):
        return LEN(self.w) > 0

    def elem(self, E, i):
        t = E.point(AT(self.w, i))
        E.assume(z3.Implies(z3.And(GOOD(self.w), i >= 0, i < LEN(self.w)), accepts(t, z3.Select(IN, i))))
        return tok(E, t)

    def getitem(self, E, i):
        if isinstance(i, int) and i == -1:
            if not E.fork(LEN(self.w) > 0, "not empty"):
                E.raise_(IndexError, "empty")
            return tok(E, E.point(LAST(self.w)))
        if not isinstance(i, (int, SInt)):
            raise Unsupported("slice of a way")
        k = B.zint(i)
        if not E.fork(z3.And(k < LEN(self.w), k >= 0), "index in range"):
            E.raise_(IndexError, "index")
        return self.elem(E, k)

    def isinstance_(self, E, cls):
        return issubclass(list, cls)

    def type_(self, E):
        return list

    def extended(self, E, v):
        if not isinstance(v, VL) or v.items is None:
            raise Unsupported("way extended by %r" % (v,))
        w = self.w
        for x in v.items:
            e = unwrap_tok(x)
            if e is None:
                raise Unsupported("way extended by %r" % (x,))
            w = E.point(EXT(w, e))
        return w

    def binop(self, E, op, b, swapped):
        if isinstance(op, ast.Add) and not swapped:
            return E.new(Way(E, self.extended(E, b), False), site="way+")
        return B.NOMODEL

    def iop(self, E, op, b):
        if isinstance(op, ast.Add):
            self.write(E, self.extended(E, b))
            return self
        return B.NOMODEL

    def write(self, E, w):
        if self.shared:
            raise Unsupported("a way in a list is changed")
        E.note_write(self)
        self.w = w

    def getattr(self, E, name):
        def fn(E, a, k):
            if name == "copy":
                return E.new(Way(E, self.w, False), site="copy of a way")
            if name == "append":
                return self.write(E, self.extended(E, VL.display(E, a)))
            raise Unsupported("way .%s" % name)
        if not hasattr(list, name):
            E.raise_(AttributeError, name)
        return Builtin(name, fn)

    def loop_spec(self, E, s, env):
        return None

    def to_list(self, E):
        return E.new(Way(E, self.w, False), site="copy of a way")


import ast


def unwrap_way(v):
    if isinstance(v, Way):
        v.shared = True
        return v.w
    if isinstance(v, VL) and v.items is not None:
        w = EMPTY
        for x in v.items:
            e = unwrap_tok(x)
            if e is None:
                return None
            w = EXT(w, e)
        return w
    return None


def unwrap_set(v):
    if isinstance(v, VS) and (v.dom is None or v.dom.sort == TOK):
        return z3.K(TOK, z3.BoolVal(False)) if v.mem is None else v.mem
    return None


def atom(sort, **kw):
    return lambda E, e: SVal(e, **kw)


def only(sort):
    return lambda v: v.e if isinstance(v, SVal) and v.e.sort() == sort else None


TRUTHY = z3.Function("not_empty", INP, B_)
inp = atom(INP, truthy=lambda E, v: z3.Or(TRUTHY(v.e), E.ghost.get("words", z3.BoolVal(False))))


COMPL = z3.Function("completable", OBJ, B_)


def obj(E, e):
    return SVal(e, {"completable": lambda E, v: SBool(COMPL(v.e))})


DTOK = Dom("lookup", TOK, tok, unwrap_tok)
DWAY = Dom("way", WAY, lambda E, e: E.new(Way(E, e), site="way"), unwrap_way)
DSET = Dom("choices", SET, lambda E, e: E.new(VS(E, DTOK, e), site="choices"), unwrap_set)
DOBJ = Dom("token", OBJ, obj, lambda v: NO_TOKEN if unwrap_tok(v) is EOI else only(OBJ)(v))
DINP = Dom("input", INP, inp, only(INP))
value = atom(VALUE, attrs={"is": lambda E, v, o: v.e == o.e if isinstance(o, SVal) and o.e.sort() == VALUE else False})
DINT = Dom("number", I, lambda E, e: SInt(e), lambda v: B.zint(v) if isinstance(v, (int, SInt)) and not isinstance(v, bool)
           else None)
DRES = Dom("text", z3.StringSort(), lambda E, e: SStr(e), lambda v: B.zstr(v) if isinstance(v, (str, SStr)) else None)
DBOOL = Dom("truth", B_, lambda E, e: SBool(e), lambda v: z3.BoolVal(v) if isinstance(v, bool) else
            v.e if isinstance(v, SBool) else None)
DVAL = Dom("value", VALUE, value, only(VALUE))
DELM = Dom("element", ELM, lambda E, e: SVal(e), only(ELM))
NO_TOKEN = z3.Const("end_of_input_token", OBJ)
DOMS = [DTOK, DOBJ, DSET, DINP, DVAL, DINT, DRES, DBOOL, DWAY, DELM]


class SameSets:
    """invariant: the list of sets holds what may follow each way of a list from its position `shift` on"""
    def __init__(self, cond, c, w, shift):
        self.cond, self.c, self.w, self.shift = cond, c, w, shift

    def same(self, E, a, x=None):
        c, w = self.c, self.w
        k = z3.simplify(a - c.off + self.shift + w.off)
        E.point(k)
        q = z3.simplify(z3.Select(w.arr, k))
        E.point(q)
        s, t = z3.simplify(z3.Select(c.arr, a)), allow(q)
        r = s == t if x is None else z3.simplify(z3.Select(s, x)) == z3.Select(t, x)
        return z3.Implies(z3.And(self.cond, a >= c.off, a < c.off + c.n), r)

    def goal(self, E):
        a, x = E.point(z3.Int(fresh_name("any"))), E.point(z3.Const(fresh_name("any"), TOK))
        return self.same(E, a, x)

    def assume(self, E):
        c, w = snapshot(self.c), snapshot(self.w)
        E.scheme(I, lambda a: z3.Implies(z3.And(self.cond, a >= c.off, a < c.off + c.n), z3.Select(c.arr, a) == allow(
            z3.Select(w.arr, a - c.off + self.shift + w.off))))


class Snap:
    def __init__(self, v):
        self.arr, self.n, self.off, self.mem, self.pos = v.arr, v.n, v.off, v.mem, v.pos


def snapshot(v):
    return Snap(v)


def elems(v, dom):
    return isinstance(v, VL) and v.dom is dom


def empty(v):
    return isinstance(v, VL) and v.dom is None


def univ_in(v, fn):
    v = snapshot(v)
    return Univ(WAY, lambda y: z3.Implies(z3.simplify(z3.Select(v.mem, y)), fn(y)))


class Cands:
    """candidates about something the loop changes"""
    def __init__(self, changed):
        self.changed, self.out = changed, []

    def add(self, about, name, cond):
        if any(a in self.changed for a in about):
            self.out.append((name, cond))


class Inv:
    """candidates for every loop of match"""
    def __init__(self, E, G):
        self.G = G

    def spec(self, E, s, env, it):
        entry = {n: snapshot(v) for n, v in Scope(E, env).vars.items() if elems(v, DWAY)}
        lid = (env.owner, E.loop_ordinal(s, env))
        names = assigned_names(s.body)

        def inv(E, env, i, it):
            env = Scope(E, env)
            sites = E.inferred.get(lid, ())
            held = {site for site, f in sites}
            changed = {n for n, v in env.vars.items() if n in names or getattr(v, "site", None) in held}
            changed |= {"%s.%s" % (n, f) for n, v in env.vars.items() if isinstance(v, Obj) for f, x in v.fields.items()
                        if (v.site, f) in sites or getattr(x, "site", None) in held}
            return self.candidates(E, env, i, it, entry, changed)
        return LoopSpec(inv)

    def candidates(self, E, env, i, it, entry, changed):
        G, out = self.G, Cands(changed)
        vs = env.vars
        lists = {n: v for n, v in vs.items() if isinstance(v, VL)}
        ways = {n: v for n, v in lists.items() if v.dom is DWAY}
        sets = {n: v for n, v in lists.items() if v.dom is DSET}
        ints = {n: B.zint(v) for n, v in vs.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)}
        inputs = {n: v for n, v in lists.items() if v.dom is DINP and n != "tok_list"}
        done = {n: v.off for n, v in inputs.items()}     # how much of the line was taken
        for n, v in inputs.items():
            out.add([n], "%s holds the line" % n, v.arr == IN)
            out.add([n], "%s ends with the line" % n, v.off + v.n == N)
        for n, v in ints.items():
            if i is not None:
                out.add([n], "%s counts" % n, v == i)
            out.add([n], "%s >= 0" % n, v >= 0)
        for n, v in vs.items():
            if isinstance(v, (bool, SBool)):
                b = v.e if not isinstance(v, bool) else z3.BoolVal(v)
                for m, t in done.items():
                    out.add([n, m], "%s before the first of %s" % (n, m), z3.Implies(b, t == 0))
                    out.add([n, m], "%s until the first of a line of %s" % (n, m), z3.Implies(N > 0, b == (t == 0)))
                for m, w in lists.items():
                    if w.dom is None or w.dom is DWAY:
                        out.add([n], "%s says %s has some" % (n, m), b == (w.n > 0))
            some = isinstance(v, SVal) and v.e.sort() == INP
            if v is None or some:
                for m, t in done.items():
                    out.add([n], "%s none before the first of %s" % (n, m), z3.BoolVal(True) if some else t == 0)
                    out.add([n], "%s is the last of %s" % (n, m), lambda v=v, t=t: z3.BoolVal(True) if v is None else
                            z3.And(t > 0, v.e == z3.Select(IN, t - 1)))
            if isinstance(v, VS) and (v.mem is None or v.dom is DTOK):
                for m, t in done.items():
                    out.add([n], "%s is where it begins" % n, Univ(TOK, lambda y, v=v.mem, t=t: z3.Implies(
                        t == 0, sel(v, y) == z3.Select(FIRST, y))))
                if i is not None and elems(it, DTOK):
                    t = snapshot(it)
                    out.add([n], "%s has what was met" % n, Univ(TOK, lambda y, v=v.mem, t=t: sel(v, y) == z3.And(
                        y != EOI, z3.Select(t.mem, y), z3.Select(t.pos, y) < t.off + i)))
            if isinstance(v, Obj):
                for f, x in v.fields.items():
                    if isinstance(x, VL):
                        nf = "%s.%s" % (n, f)
                        out.add([nf], "%s: none taken" % nf, x.off == 0)
                        for m, t in done.items():
                            out.add([nf, m], "%s no more than taken of %s" % (nf, m), x.n <= t)
                            out.add([nf, m], "%s fewer than taken of %s" % (nf, m), z3.Implies(t > 0, x.n < t))
                            if G.words:
                                out.add([nf, m], "%s one fewer than taken of %s" % (nf, m), z3.Implies(t > 0, x.n == t - 1))
                            out.add([nf, m], "%s empty at the start of %s" % (nf, m), z3.Implies(t == 0, x.n == 0))
        for m, t in done.items():
            for n, v in lists.items():
                if v.dom is DWAY or v.dom is None:
                    out.add([n, m], "%s empty at the start of %s" % (n, m), z3.Implies(t == 0, v.n == 0))
            for n, w in ways.items():
                out.add([n, m], "%s one for each of %s" % (n, m), univ_in(w, lambda y, t=t: LEN(y) == t))
                out.add([n, m], "%s one less than %s" % (n, m), univ_in(w, lambda y, t=t: LEN(y) == t - 1))
        for n, v in lists.items():
            if v.dom is None or v.dom is DWAY:
                out.add([n], "%s empty" % n, v.n == 0)
        for n, w in ways.items():
            out.add([n], "%s are accepted" % n, univ_in(w, GOOD))
            out.add([n], "%s are allowed" % n, univ_in(w, PRE))
            out.add([n], "%s are complete" % n, univ_in(w, complete))
            out.add([n], "%s match in part" % n, univ_in(w, lambda y: MR(TOKEN(NAME(LAST(y))), z3.Select(IN, LEN(y) - 1)) == 2))
            out.add([n], "%s: none taken" % n, w.off == 0)
            e = entry.get(n)
            if e is not None:
                ws = snapshot(w)
                out.add([n], "%s only grows" % n, Univ(WAY, lambda y, e=e, w=ws: z3.Implies(
                    z3.Select(e.mem, y), z3.Select(w.mem, y))))
        if i is not None and (elems(it, DTOK) or isinstance(it, VS) and it.dom is DTOK):
            ls = snapshot(it.listed(E) if isinstance(it, VS) else it)
            for n, v in env.vars.items():
                if isinstance(v, (bool, SBool)):
                    b = v.e if isinstance(v, SBool) else z3.BoolVal(v)
                    out.add([n], "%s if the end was met" % n, z3.Implies(
                        z3.And(sel(ls.mem, EOI), z3.Select(ls.pos, EOI) < ls.off + i), b))
                    out.add([n], "%s only if the end is there" % n, z3.Implies(b, sel(ls.mem, EOI)))
        if getattr(G, "pair", None) is not None:
            self.preference(E, G.pair, vs, i, it, ints, out)
        self.witness(E, env, i, it, done, lists, out)
        if G.words:
            self.offers(E, env, i, it, done, out)
        if isinstance(it, Way):
            for n, v in lists.items():
                if v.dom in (None, DVAL):
                    out.add([n], "%s: one for each met" % n, v.n == i)
                    out.add([n], "%s: none taken" % n, v.off == 0)
                if v.dom is DVAL:
                    out.add([n], "%s: the value of each met" % n, Univ(I, lambda j, v=snapshot(v), w=it.w: z3.Implies(
                        z3.And(j >= v.off, j < v.off + v.n), z3.Select(v.arr, j) == VAL(
                            TOKEN(NAME(AT(w, j - v.off))), z3.Select(IN, j - v.off)))))
        for n, v in vs.items():
            if isinstance(v, (VL, VS)) and v.dom is DINT:
                if isinstance(v, VL):
                    out.add([n], "%s: nothing taken" % n, v.off == 0)
                for m, t in ints.items():
                    out.add([n], "%s below %s" % (n, m), Univ(I, lambda y, v=v.mem, t=t: z3.Implies(
                        sel(v, y), z3.And(0 <= y, y < t))))
                if i is not None:
                    out.add([n], "%s below what was met" % n, Univ(I, lambda y, v=v.mem: z3.Implies(
                        sel(v, y), z3.And(0 <= y, y < i))))
            if isinstance(v, VL) and v.dom in (None, DRES, DBOOL, DTOK, DINT, DELM) and i is not None:
                out.add([n], "%s: one for each met" % n, v.n == i)
                out.add([n], "%s: nothing taken" % n, v.off == 0)
            if isinstance(v, (VL, VS)) and v.dom in (None, DELM) and (elems(it, DTOK) or isinstance(it, VS) and it.dom is DTOK):
                ls = snapshot(it.listed(E) if isinstance(it, VS) else it)
                out.add([n], "%s has the element of each met" % n, Univ(TOK, lambda y, v=v.mem, ls=ls: z3.Implies(
                    z3.And(z3.Select(ls.mem, y), z3.Select(ls.pos, y) < ls.off + i), sel(v, ELEMENT(y)))))
        true = z3.BoolVal(True)
        for n, c in sets.items():
            for m, w in ways.items():
                if i is not None and it is w:
                    out.add([n], "%s: sets for what was met of %s" % (n, m), c.n == i)
                    out.add([n], "%s: sets for the rest of %s" % (n, m), c.n == w.n - i)
                out.add([n, m], "%s: as many as %s" % (n, m), c.n == w.n)
                for label, cond in [("", true)] + [(" while %s lasts" % o, v.n > 0) for o, v in inputs.items()]:
                    if i is not None and it is w:
                        out.add([n], "%s are what may follow the rest of %s" % (n, m) + label, SameSets(cond, c, w, i))
                    out.add([n, m], "%s are what may follow %s" % (n, m) + label, SameSets(cond, c, w, z3.IntVal(0)))
        if i is None or it is None or not isinstance(it, VL):
            for n, v in lists.items():
                for m, w in lists.items():
                    if n < m and (v.dom is None or w.dom is None):
                        out.add([n, m], "%s as many as %s" % (n, m), v.n == w.n)
        return out.out


    def preference(self, E, p, vs, i, it, ints, out):
        """one way is left out for another that fits some word better; J and K are any two of them"""
        places = [(n, E.point(t)) for n, t in ints.items()]
        if i is not None:
            E.point(i)
        sets = [(n, v) for n, v in vs.items() if isinstance(v, (VS, VL)) and v.dom is DINT]
        marks = [(n, snapshot(v), v.dom) for n, v in vs.items() if isinstance(v, VL) and v.dom in (DRES, DBOOL)]

        def good(t, d, j):
            e = z3.Select(t.arr, t.off + j)
            return e if d is DBOOL else e == z3.StringVal(B.z3_escape(TK.MATCH_SUCCESS))
        for n, v in vs.items():
            if i is not None and isinstance(v, (VS, VL)) and v.dom in (None, DINT):
                out.add([n], "%s has each number so far" % n, z3.And(*[z3.Implies(j < i, sel(v.mem, j)) for j in (p.J, p.K)]))
        for n, v in sets:
            left, out_of = sel(v.mem, p.J), z3.Not(sel(v.mem, p.K))
            if isinstance(v, VL):
                continue
            out.add([n], "%s is without those that are worse" % n, z3.Implies(z3.And(left, out_of), p.BETTER))
            if i is not None:
                for m, t, d in marks:
                    out.add([n], "%s has the good of %s of what was met" % (n, m), z3.Implies(
                        z3.And(p.J < i, left), good(t, d, p.J)))
                    out.add([n], "%s is without the worse or what %s has as bad" % (n, m), z3.Implies(
                        z3.And(left, out_of), z3.Or(p.BETTER, z3.And(p.K < i, z3.Not(good(t, d, p.K))))))
        for m, t, d in marks:
            for n, x in places:
                for j in (p.J, p.K):
                    says = z3.And(x >= 0, x < N, COMPL(p.obj(j, x))) if d is DBOOL else MR(p.obj(j, x), z3.Select(IN, x)) == 0
                    out.add([m], "%s: how well %s fits at %s" % (m, j, n), z3.Implies(
                        z3.And(t.n > j, x >= 0, x < N), good(t, d, j) == says))
        if i is None:
            return
        for n, v in vs.items():
            if isinstance(v, (bool, SBool)):
                b = v.e if isinstance(v, SBool) else z3.BoolVal(v)
                for c, l in ((b, n), (z3.Not(b), "not " + n)):
                    out.add([n], "the same elements so far if " + l, z3.Implies(
                        z3.And(c, p.place < i), p.same(p.place)))
            if isinstance(v, (VL, VS)) and v.dom in (None, DTOK) and (elems(it, DWAY) or isinstance(it, B.SymRange)):
                for m, x in places:
                    for j in (p.J, p.K):
                        out.add([n], "%s has the token at %s of %s" % (n, m, j), lambda j=j, x=x, mem=v.mem: z3.Implies(
                            j < i, sel(mem, p.at(j, x))))

    def offers(self, E, env, i, it, done, out):
        """the tokens collected are those that may follow"""
        sets = [(n, v) for n, v in env.vars.items() if isinstance(v, VS)]
        for n, v in sets:
            if v.dom in (None, DTOK):
                for m, t in done.items():
                    out.add([n], "%s may follow" % n, Univ(TOK, lambda y, v=v.mem, t=t: z3.Implies(
                        z3.And(t > 0, sel(v, y)), CONT(t, y))))
                    if i is not None and elems(it, DWAY):
                        ls = snapshot(it)
                        out.add([n], "%s has what may follow the way of %s that was met" % (n, m), lambda v=v.mem, t=t: z3.And(*[z3.Implies(
                            z3.And(HASW, t > 0, x != EOI, z3.Select(NX(LAST(P(t))), x), sel(ls.mem, P(t)),
                                   z3.Select(ls.pos, P(t)) < ls.off + i), sel(v, x)) for x in (Q, FOLLOWER)]))
            if v.dom in (None, DOBJ):
                out.add([n], "%s may be offered" % n, Univ(OBJ, lambda y, v=v.mem: z3.Implies(sel(v, y), OFFER(y))))
                if i is not None and (elems(it, DTOK) or isinstance(it, VS) and it.dom is DTOK):
                    ls = snapshot(it.listed(E) if isinstance(it, VS) else it)
                    out.add([n], "%s has what was met, named" % n, lambda v=v.mem: z3.Implies(
                        z3.And(Q != EOI, sel(ls.mem, Q), z3.Select(ls.pos, Q) < ls.off + i), sel(v, TOKEN(NAME(Q)))))
        for n, v in env.vars.items():
            if isinstance(v, (bool, SBool)):
                b = v.e if isinstance(v, SBool) else z3.BoolVal(v)
                for m, t in done.items():
                    out.add([n], "%s only if the line of %s may end" % (n, m), z3.Implies(b, CONT(t, EOI)))

    def witness(self, E, env, i, it, done, lists, out):
        """what is kept has the full match as far as it goes"""
        targets = [(n, v) for n, v in lists.items() if v.dom in (None, DWAY)]
        bools = [("", z3.BoolVal(True))] + [(" if " + n, v.e) for n, v in env.vars.items() if isinstance(v, SBool)]
        for n, v in targets:
            for b, c in bools[1:]:
                for m, line in env.vars.items():
                    if elems(line, DINP) and m != "tok_list":
                        out.add([n], "%s empty at the end of %s unless %s" % (n, m, b), z3.Implies(
                            v.n > 0, z3.Or(c, line.n > 0)))
        for m, t in done.items():
            for k in (t, z3.simplify(t - 1)):
                E.point(k)
                E.point(P(k))
            for n, v in targets:
                out.add([n, m], "%s has the way of %s" % (n, m), lambda v=v, t=t: z3.Implies(z3.And(HASW, t >= 0), sel(v.mem, P(t))))
                out.add([n, m], "%s has the way before %s" % (n, m), lambda v=v, t=t: z3.Implies(
                    z3.And(HASW, t > 0), sel(v.mem, P(t - 1))))
                if i is None:
                    continue
                if elems(it, DWAY):
                    def met(p, it=snapshot(it), i=i):
                        return z3.And(HASW, sel(it.mem, p), z3.Select(it.pos, p) < it.off + i)
                    out.add([n], "%s has the way of %s that was met" % (n, m), lambda v=v, t=t: z3.Implies(
                        z3.And(t > 0, met(P(t - 1))), sel(v.mem, P(t))))
                    for b, c in bools:
                        out.add([n], "%s has the complete way of %s that was met%s" % (n, m, b), lambda v=v, t=t, c=c: z3.Implies(
                            z3.And(t > 0, c, complete(P(t)), met(P(t))), sel(v.mem, P(t))))
        if i is None:
            return
        ws = [(n, v.w) for n, v in env.vars.items() if isinstance(v, Way)]
        if elems(it, DTOK) or isinstance(it, VS) and it.dom is DTOK:
            ls = snapshot(it.listed(E) if isinstance(it, VS) else it)
            for n, v in targets:
                for wn, w in ws:
                    out.add([n], "%s has %s if the end was met" % (n, wn), lambda v=v, w=w: z3.Implies(
                        z3.And(sel(ls.mem, EOI), z3.Select(ls.pos, EOI) < ls.off + i), sel(v.mem, w)))
                    for m, t in done.items():
                        k = z3.simplify(t - 1)
                        E.point(C(k))
                        out.add([n], "%s has the way of %s through %s if met" % (n, m, wn), lambda v=v, w=w, t=t, k=k: z3.Implies(
                            z3.And(HASW, t > 0, w == P(k), sel(ls.mem, C(k)), z3.Select(ls.pos, C(k)) < ls.off + i),
                            sel(v.mem, P(t))))
        if elems(it, DWAY):
            ls = snapshot(it)
            for n, v in targets:
                if v is not it:
                    out.add([n], "%s has what was met" % n, Univ(WAY, lambda y, v=v.mem: z3.Implies(
                        z3.And(sel(ls.mem, y), z3.Select(ls.pos, y) < ls.off + i), sel(v, y))))


def sel(mem, y):
    return z3.BoolVal(False) if mem is None else z3.simplify(z3.Select(mem, y))


# ------------------------------------------------------------------ what match calls
def coro(name, body):
    return Coro(body, name)


def contracts(G):
    def e_of(v, sort, what):
        if isinstance(v, SVal) and v.e.sort() == sort:
            return v.e
        raise Unsupported("%s: %r" % (what, v))

    def get_token(E, a, k):
        return obj(E, TOKEN(e_of(a[1], TXT, "name of a token")))

    def match_token(E, a, k):
        def body():
            o, x = e_of(a[1], OBJ, "token"), e_of(a[2], INP, "input")
            r = MR(o, x)
            E.assume(z3.And(r >= 0, r <= 3))
            if G.words:
                E.assume(z3.And(r <= 1, NV(o, x) == (r == 0)))
            for j in (0, 1, 2):
                if E.fork(r == j, RESULTS[j]):
                    return RESULTS[j]
            return RESULTS[3]
        return coro("match_token", body)

    def get_token_value(E, a, k):
        def body():
            o, x = e_of(a[1], OBJ, "token"), e_of(a[2], INP, "input")
            if G.words:
                E.assume(z3.And(MR(o, x) >= 0, MR(o, x) <= 1, NV(o, x) == (MR(o, x) == 0)))
            if E.fork(NV(o, x), "has a value"):
                return value(E, VAL(o, x))
            return TK.NullTokenValue
        return coro("get_token_value", body)

    def complete_token(E, a, k):
        def body():
            o, x = e_of(a[1], OBJ, "token"), e_of(a[2], INP, "input")
            n = z3.Function("completions", OBJ, INP, I)(o, x)
            E.assume(n >= 0)
            return (SInt(n), E.new(VL.of(E, DVAL, z3.Const(fresh_name("completions"), z3.ArraySort(I, VALUE)), n)))
        return coro("complete_token", body)

    def append(E, a, k):
        E.call(E.getattr(a[1], "append"), [a[2]], {})

    def fix(E, a, k):
        def body():
            given, line = a[1], a[2]
            if not elems(given, DWAY):
                raise Unsupported("fix_sequences of %r" % (given,))
            y = E.point(z3.Const("any given way", WAY))
            E.prove("what is to be resolved are ways to match the whole line", z3.Implies(
                z3.Select(given.mem, y), z3.And(LEN(y) == N, GOOD(y), complete(y))))
            E.prove("what is to be resolved has at least two ways", given.n > 1)
            r = VL(E, DWAY, name="resolved").fresh_like(E)
            m0, m1 = given.mem, r.mem
            E.forall(WAY, lambda y: z3.Implies(z3.Select(m1, y), z3.Select(m0, y)))
            E.assume(r.n > 0)
            G.resolved = r
            return E.new(r, site="resolved")
        return coro("fix_sequences", body)

    def execute(E, a, k):
        return G.execute(E, a, k)
    m = lambda n: q(IF.CliInterface, n)
    return {m("get_token"): get_token, m("match_token"): match_token, m("get_token_value"): get_token_value,
            m("complete_token"): complete_token, m("append_matching_sequence"): append, m("fix_sequences"): fix,
            m("execute_success_sequence"): execute, m("clear_caches"): lambda E, a, k: None,
            q(IF.ParsingResult, "set_next_tokens"): lambda E, a, k: coro("set_next_tokens", lambda: G.offered(E, a, k))}


class Pair:
    """any two of the ways between which is decided, J and K, and any place in them"""
    def __init__(self, E, given):
        self.J, self.K, self.place = z3.Ints("one_way another_way any_place")
        self.BETTER = z3.Bool("one_fits_a_word_better")
        self.arr, self.off = given.arr, given.off
        E.assume(z3.And(*[z3.And(j >= 0, j < given.n) for j in (self.J, self.K)]))
        E.assume(z3.And(self.place >= 0, self.place < N))
        E.point(self.place)
        for j in (self.J, self.K):
            E.point(j)
            E.point(self.way(j))
            E.point(self.at(j, self.place))
        E.scheme(I, lambda x: z3.Implies(z3.And(x >= 0, x < N, z3.Or(
            z3.And(MR(self.obj(self.J, x), z3.Select(IN, x)) == 0, MR(self.obj(self.K, x), z3.Select(IN, x)) != 0),
            z3.And(COMPL(self.obj(self.J, x)), z3.Not(COMPL(self.obj(self.K, x)))))), self.BETTER))

    def way(self, j):
        return z3.simplify(z3.Select(self.arr, z3.simplify(self.off + j)))

    def at(self, j, x):
        return AT(self.way(j), x)

    def obj(self, j, x):
        return TOKEN(NAME(self.at(j, x)))

    def same(self, x):
        return ELEMENT(self.at(self.J, x)) == ELEMENT(self.at(self.K, x))


def same_set(E, a, k):
    """check_orderless_set_elements: says that all these tokens are of one element"""
    r, one = fresh_bool("same set").e, z3.Const(fresh_name("element"), ELM)
    v = a[1]
    if isinstance(v, VL):
        v = v.to_set(E)
    if not isinstance(v, VS) or v.dom not in (None, DTOK):
        raise Unsupported("check_orderless_set_elements of %r" % (v,))
    if v.mem is not None:
        m = v.mem
        E.scheme(TOK, lambda t: z3.Implies(z3.And(r, z3.Select(m, t)), ELEMENT(t) == one))
    return SBool(r)


class Tree(Model):
    def getattr(self, E, name):
        if name == "first":
            def first(E, a, k):
                r = VL.of(E, DTOK, z3.Const("firsts", z3.ArraySort(I, TOK)), z3.Int("number of firsts"), FIRST)
                return E.new(r, site="firsts")
            return Builtin("first", first)
        raise Unsupported("walk tree .%s" % name)

    def truth(self, E):
        return True

    def havoc(self, E):
        pass


def setup(E, words=False):
    E.ghost.clear()
    if words:
        E.ghost["words"] = z3.BoolVal(True)
    E.max_restarts, E.infer_first, E.by_scheme = 600, True, True
    E.list_model = VL.display
    E.models = dict(E.models, **{"set()": lambda E, a, k: E.new(VS(E), site="set@%d" % getattr(E.cur_stmt, "lineno", 0))})
    E.vdoms, E.vague = DOMS, lambda v: unwrap_tok(v) is EOI
    E.scheme(WAY, way_facts)
    E.scheme(I, witness_facts)
    E.point(z3.IntVal(0))
    E.point(N)
    E.point(P(N))
    if words:              # keywords none of which begins another: an input is one in full, or none
        follow_rules(E)
        E.point(Q)
        E.point(C(0))
        E.point(NO_TOKEN)
        E.assume(N > 0)
    E.forall(WAY, extension_facts)
    E.point(EMPTY)
    E.point(EOI)
    E.assume(z3.And(N >= 0, z3.Not(z3.Select(FIRST, EOI))))
    line = VL.of(E, DINP, IN, N, name="line")
    E.new(line, site="line")
    me = E.new(Obj(IF.CliInterface, {"_parse_tree": E.new(Tree(), site="tree"), "_executing": False,
                                    "_matched_values": E.new(VL(E), site="values before")}, "self"), site="self")
    me.hooks["_stderr"] = lambda E, o: Unk("stderr")
    return me, line
