"""C10: ranged integers accept exactly the range and complete exactly the prefix.

Ghost functions: P(k) = 10^k, D(v) = number of decimal digits, NP(k) = n*10^k, and for the range lo..hi
BC(k) = how many numbers of the range are in block k = NP(k) .. NP(k)+P(k)-1 (the numbers with k digits more than n
whose notation begins with that of n), T(k) = BC(0)+...+BC(k-1).  They are given by their recurrences; the lemmas
used about them are proved by induction in units of their own."""
import z3

from pyvc import bag
from pyvc.engine import Coro, LoopSpec, assigned_names
from pyvc.unit import DirectUnit
from .tok import *

LEVEL = "proof"
TRUSTED = ["str(int) is injective and has D(v) digits for v >= 0; int(s) and str.isnumeric as partial functions of the string"]
ASSUMPTIONS = ["the suggestion limit is not negative",
               "Python integers are mathematical (the interpreter's limit of 4300 digits for int <-> str is ignored)"]

I = z3.IntVal
P = z3.Function("P", z3.IntSort(), z3.IntSort())
NP = z3.Function("NP", z3.IntSort(), z3.IntSort())
D = z3.Function("D", z3.IntSort(), z3.IntSort())
T_ = z3.Function("T", z3.IntSort(), z3.IntSort())
W = z3.Function("W", z3.IntSort(), z3.IntSort())
X = z3.Int("X")


def imp(a, b):
    return z3.Implies(a, b)


_mono = {}


def mono(a, b):
    key = (a.get_id(), b.get_id())
    if key not in _mono:
        _mono[key] = (imp(z3.And(0 <= a, a < b), 10 * P(a) <= P(b)), a, b)
    return _mono[key][0]


class Dec:
    """the ghost functions of one path, their recurrences instantiated where they are mentioned"""
    def __init__(self, E, n=None, lo=None, hi=None):
        self.E, self.n, self.lo, self.hi = E, n, lo, hi
        self.seen = {}
        E.assume(P(I(0)) == 1)
        self.d = self.digits(n) if n is not None else None
        if n is not None:
            E.assume(NP(I(0)) == n)

    def p(self, t):
        t = z3.simplify(t) if z3.is_expr(t) else I(t)
        key = ("P", t.get_id())
        if key not in self.seen:
            self.E.assume(imp(t >= 0, z3.And(P(t) >= 1, P(t + 1) == 10 * P(t))))
            self.E.assume(imp(t >= 1, P(t) == 10 * P(t - 1)))
            for (k, _), o in list(self.seen.items()):
                if k == "P":
                    self.E.assume(mono(o, t))       # lemma P-monotone
                    self.E.assume(mono(t, o))
            self.seen[key] = t
        return P(t)

    def digits(self, v):
        v = z3.simplify(v)
        key = ("D", v.get_id())
        if key not in self.seen:
            self.seen[key] = v
            m = z3.simplify(z3.If(v < 0, -v, v))
            dm = D(m)
            self.E.assume(imp(v < 0, D(v) == 1 + dm))
            self.E.assume(dm >= 1)
            self.E.assume(imp(m == 0, dm == 1))
            self.E.assume(imp(m >= 1, z3.And(self.p(dm - 1) <= m, m < self.p(dm))))
        return D(v)

    def np(self, t):
        t = z3.simplify(t)
        key = ("N", t.get_id())
        if key not in self.seen:
            self.seen[key] = t
            self.E.assume(imp(t >= 0, NP(t + 1) == 10 * NP(t)))
            self.E.assume(imp(t >= 1, NP(t) == 10 * NP(t - 1)))
            # lemma block-digits
            self.E.assume(imp(t >= 0, z3.And(self.p(self.d + t - 1) <= NP(t), NP(t) + self.p(t) <= self.p(self.d + t))))
        return NP(t)

    def bc(self, t):
        a = z3.If(self.np(t) > self.lo, NP(t), self.lo)
        top = NP(t) + self.p(t) - 1
        b = z3.If(top < self.hi, top, self.hi)
        return z3.If(b >= a, b - a + 1, I(0))

    def total(self, t):
        t = z3.simplify(t)
        key = ("T", t.get_id())
        if key not in self.seen:
            E = self.E
            E.assume(T_(I(0)) == 0)
            E.assume(imp(t >= 0, z3.And(T_(t) >= 0, T_(t + 1) == T_(t) + self.bc(t))))
            for (k, _), o in list(self.seen.items()):
                if k == "T":
                    E.assume(imp(z3.And(0 <= o, o < t), T_(o + 1) <= T_(t)))           # lemma T-monotone
                    E.assume(imp(z3.And(0 <= t, t < o), T_(t + 1) <= T_(o)))
            self.seen[key] = t
        return T_(t)

    def kx(self):
        return self.digits(X) - self.d

    def pref(self):
        """the decimal notation of X begins with that of n"""
        k = self.kx()
        return z3.And(X >= 1, k >= 0, self.np(k) <= X, X < NP(k) + self.p(k))

    def cand(self):
        return z3.And(self.pref(), self.lo <= X, X <= self.hi)


def digits_model(E, v):
    return E.ghost["dec"].digits(v)


def pow_model(E, base, t):
    if base != 10:
        return None
    return E.ghost["dec"].p(t)


def invariants(E, env, i, it):
    """candidates: each local is one of the quantities of block k, for k counted by some local.  Only counters for
    which some local is n*10^k are pursued."""
    dec = E.ghost.get("dec")
    out = []
    if dec is None or dec.n is None:
        return out
    changed = assigned_names([E.cur_loop])
    names = [(n, B.zint(v)) for n, v in sorted(env.vars.items())
             if n in changed and isinstance(v, (SInt, int)) and not isinstance(v, bool)]
    bags = [(n, bag.view(E, v)) for n, v in sorted(env.vars.items()) if isinstance(v, (PyList, bag.Bag))]
    bags = [(n, b) for n, b in bags if b is not None]
    if i is not None:
        names.append(("#i", i))
    dmax, dmin = dec.digits(dec.hi0), dec.digits(dec.lo0)
    for u, e in names:
        out.append((u + " <= digits of the lower bound", e <= dmin))
        out.append((u + " <= digits of the upper bound", e <= dmax))
        out.append((u + " <= 1 + digits of the upper bound", e <= dmax + 1))
        out.append((u + " >= digits of the lower bound", e >= dmin))
        out.append((u + " > digits of the lower bound", e > dmin))
        out.append((u + " <= limit", e <= dec.limit))
        for kn, k in (("%s-d" % u, e - dec.d), ("%s-d+1" % u, e - dec.d + 1), (u, e)):
            anchors = ["%s = n*10^(%s)" % (v, kn) for v, _ in names if v != u]
            if all(a in E.cur_dropped for a in anchors) or kn + " >= 0" in E.cur_dropped:
                continue
            for v, f in names:
                if v != u and "%s = n*10^(%s)" % (v, kn) not in E.cur_dropped:
                    out.append(("%s = n*10^(%s)" % (v, kn), f == dec.np(k)))
            if E.restarts == 0:
                continue
            out.append(("%s >= 0" % kn, k >= 0))
            out.append(("%s >= 1" % kn, k >= 1))
            out.append(("no number of the range in a block before %s" % kn, dec.total(k) == 0))
            for v, f in names:
                if v == u:
                    continue
                out += [("%s = end of block %s" % (v, kn), f == dec.np(k) + dec.p(k) - 1),
                        ("%s = 10^(%s)" % (v, kn), f == dec.p(k)),
                        ("%s = 10^(%s+1)" % (v, kn), f == dec.p(k + 1)),
                        ("%s = numbers before block %s" % (v, kn), f == dec.total(k))]
            for b, (n, m, text) in bags:
                out += [("%s has the numbers before block %s" % (b, kn),
                         m(X) == z3.If(z3.And(dec.cand(), dec.kx() < k), I(1), I(0)))]
    for b, (n, m, text) in bags:
        for v, f in names:
            out.append(("%s is the length of %s" % (v, b), n == f))
    if E.restarts == 0:
        out.append(("first round", False))
    return out


LOOPS = {"*": LoopSpec(invariants)}


def token(E):
    a, b, M = fresh_int("lo"), fresh_int("hi"), fresh_int("limit")
    E.notes.update(lo=a, hi=b, limit=M)
    E.assume(M.e >= 0)
    k, t = make(E, T.RangedIntToken, "t", a, b, M)
    E.prove("constructed", k == "ok")
    if k != "ok":
        raise Dead()
    lo = z3.If(a.e < b.e, a.e, b.e)
    hi = z3.If(a.e < b.e, b.e, a.e)
    z, y = z3.Int("z_lo"), z3.Int("z_hi")
    E.assume(z3.And(z == lo, y == hi))
    return t, z, y, M.e


def numeral(E, sign, n):
    """typed text: the decimal notation of n, after the sign"""
    d = z3.String("digits")
    s = z3.Concat(z3.StringVal("-"), d) if sign else d
    for f in ("isnumeric", "str_isdigit", "str_isdecimal"):
        E.assume(z3.Function(f, z3.StringSort(), z3.BoolSort())(d))
    E.assume(d != z3.StringVal(""))
    E.assume(d != z3.StringVal("-"))
    E.assume(z3.Not(z3.PrefixOf(z3.StringVal("-"), d)))
    E.assume(z3.Length(d) >= 1)
    E.assume(z3.And(B.INTOK(d), B.INTOF(d) == n, B.INTOK(s), B.INTOF(s) == (-n if sign else n)))
    E.notes["input"] = SStr(s)
    return SStr(s)


def spec_prefix(sign, what):
    def run(E):
        t, lo, hi, M = token(E)
        n = z3.Int("n")
        E.notes["number"] = SInt(-n if sign else n)
        E.assume(n >= 1)
        s = numeral(E, sign, n)
        if sign:
            l2, h2 = z3.Ints("neg_lo neg_hi")
            E.assume(z3.And(l2 == -hi, h2 == -lo))
            lo, hi = l2, h2
        dec, E.ghost["K"] = setup(E, n, lo, hi, M)
        tot = dec.total(E.ghost["K"])
        if what == "match":
            E.ghost["complete"] = tot
            k, m = invoke(E, t, "match", s)
            E.prove("no exception", k == "ok")
            if k != "ok":
                return
            E.cover("done")
            E.prove("fails exactly when nothing in the range begins with the text", eqb(m, FAILURE) == (tot == 0))
            return
        k, r = invoke(E, t, "complete", s)
        E.prove("no exception", k == "ok")
        if k != "ok":
            return
        good = isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (SInt, int))
        v = bag.view(E, r[1]) if good else None
        E.prove("a count and a list", v is not None)
        if v is None:
            return
        c, (bn, bm, text) = B.zint(r[0]), v
        E.cover("done")
        x = -X if sign else X
        if E.fork(bn > 0, "something listed"):
            E.cover("listed")
            E.prove("listed as text", text)
            E.prove("listed: exactly the numbers of the range that begin with the text, once each",
                    bm(x) == z3.If(dec.cand(), I(1), I(0)))
            E.prove("listed: nothing of the other sign", imp(X < 0, bm(x) == 0))
            E.prove("listed: the count is their number", z3.And(c == bn, bn == tot))
        else:
            E.prove("nothing listed: none, or too many", z3.If(tot == 0, c == 0, z3.And(c == MANY, tot > M)))
    return run


def modular():
    """_complete(min, max, number) can be put under a contract of its own"""
    import inspect
    f = T.RangedIntToken.__dict__.get("_complete")
    return f is not None and list(inspect.signature(f).parameters) == ["self", "min_limit", "max_limit", "number"]


def post(E, dec, K, c, bn, bm, M, x=X):
    """the postcondition of _complete: what is listed for the numbers lo0..hi that begin with n"""
    tot = dec.total(K)
    return z3.If(bn > 0, z3.And(bm(x) == z3.If(dec.cand(), I(1), I(0)), imp(X < 0, bm(x) == 0), c == bn, bn == tot),
                 z3.If(tot == 0, c == 0, z3.And(c > 0, tot > M)))


def setup(E, n, lo, hi, M):
    dec = E.ghost["dec"] = Dec(E, n, lo, hi)
    dec.limit = M
    dec.lo0 = z3.Int("lo0")
    E.assume(dec.lo0 == z3.If(lo < 0, I(0), lo))
    dec.hi0 = hi
    K = z3.Int("K")
    E.assume(K == z3.If(z3.Or(hi < 1, dec.digits(hi) < dec.d), I(0), dec.digits(hi) - dec.d + 1))
    dec.p(K)
    dec.digits(X)
    dec.digits(dec.lo0)
    dec.total(K)
    dec.total(I(0))
    dec.total(I(1))
    dec.total(dec.kx())
    dec.total(dec.kx() + 1)
    # lemma "candidate in a block"
    E.assume(imp(dec.cand(), z3.And(dec.kx() < K, dec.bc(dec.kx()) >= 1)))
    return dec, K


def spec_inner(E):
    """_complete(lo, hi, n) for 0 <= lo <= hi (or lo <= 1) and n >= 1"""
    t, _lo, _hi, M = token(E)
    n, lo, hi = z3.Ints("n min max")
    E.assume(z3.And(0 <= lo, 0 <= hi, z3.Or(lo <= hi, lo <= 1), n >= 1))
    E.notes.update(lo=SInt(lo), hi=SInt(hi), number=SInt(n))
    dec, K = setup(E, n, lo, hi, M)
    k, r = invoke(E, t, "_complete", SInt(lo), SInt(hi), SInt(n))
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    good = isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (SInt, int))
    v = bag.view(E, r[1]) if good else None
    E.prove("a count and a list", v is not None)
    if v is None:
        return
    c, (bn, bm, text) = B.zint(r[0]), v
    E.cover("done")
    E.prove("the numbers of the range that begin with the number, once each, and their count, or too many",
            z3.And(z3.BoolVal(not text), post(E, dec, K, c, bn, bm, M)))


def inner_contract(E, args, kwargs):
    """_complete by its contract: its precondition is proved, its postcondition assumed (for the range and number of
    the calling unit; any other call runs the body)"""
    me, lo, hi, n = args
    dec = E.ghost["dec"]
    if dec.n is None or not E.entails(B.zint(n) == dec.n):
        return E.call_real(method(T.RangedIntToken, "_complete"), args, kwargs)
    E.prove("precondition of _complete: 0 <= min <= max or min <= 1",
            z3.And(0 <= B.zint(lo), 0 <= B.zint(hi), z3.Or(B.zint(lo) <= B.zint(hi), B.zint(lo) <= 1)))
    E.prove("precondition of _complete: the range asked for",
            z3.And(B.zint(hi) == dec.hi, z3.Or(B.zint(lo) == dec.lo, z3.And(B.zint(lo) <= 1, dec.lo <= 1))))
    E.prove("precondition of _complete: the suggestion limit",
            B.zint(E.getattr(me, "_max_suggestions")) == dec.limit)
    c, bn = fresh_int("count"), z3.Int(fresh_name("listed"))
    f = z3.Function(fresh_name("mult"), z3.IntSort(), z3.IntSort())
    E.assume(bn >= 0)
    E.assume(post(E, dec, E.ghost["K"], c.e, bn, f, dec.limit))
    r = (c, E.new(bag.Bag(bn, lambda x: f(x), False)))
    return Coro(lambda: r, "_complete")


def complete_contract(E, args, kwargs):
    """what the complete() units prove of a numeral, as far as the count goes"""
    tot = E.ghost.get("complete")
    if tot is None:
        return run_real(E, args, kwargs)
    c, n = fresh_int("count"), z3.Int(fresh_name("listed"))
    E.assume(z3.And(n >= 0, imp(n > 0, z3.And(c.e == n, n == tot)),
                    imp(n == 0, z3.If(tot == 0, c.e == 0, c.e == MANY)), tot >= 0))
    r = (c, E.new(bag.Bag(n, lambda x: z3.Function("some", z3.IntSort(), z3.IntSort())(x), True)))
    return Coro(lambda: r, "complete")


def run_real(E, args, kwargs):
    return E.call_real(method(T.RangedIntToken, "complete"), args, kwargs)


def eqb(r, c):
    x = eq_const(r, c)
    return x if z3.is_expr(x) else z3.BoolVal(bool(x))


def spec_sign(E):
    """the text "-": all negative numbers of the range"""
    t, lo, hi, M = token(E)
    E.ghost["dec"] = dec = Dec(E)
    E.notes["input"] = "-"
    top = z3.If(hi < 0, hi, I(-1))
    tot = z3.If(lo <= top, top - lo + 1, I(0))
    k, r = invoke(E, t, "complete", "-")
    E.prove("no exception", k == "ok")
    good = k == "ok" and isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (SInt, int))
    v = bag.view(E, r[1]) if good else None
    E.prove("a count and a list", v is not None)
    if v is None:
        return
    c, (bn, bm, text) = B.zint(r[0]), v
    E.cover("done")
    if E.fork(bn > 0, "something listed"):
        E.prove("listed as text", text)
        E.prove("listed: exactly the negative numbers of the range",
                bm(X) == z3.If(z3.And(lo <= X, X <= top), I(1), I(0)))
        E.prove("listed: the count is their number", z3.And(c == bn, bn == tot))
    else:
        E.prove("nothing listed: none, or too many", z3.If(tot == 0, c == 0, z3.And(c == MANY, tot > M)))
    k, m = invoke(E, t, "match", "-")
    E.prove("match: no exception", k == "ok")
    if k == "ok":
        E.prove("fails exactly when nothing in the range begins with the text", eqb(m, FAILURE) == (tot == 0))


def spec_zero(E):
    t, lo, hi, M = token(E)
    E.ghost["dec"] = Dec(E)
    E.notes["input"] = "0"
    within = z3.And(lo <= 0, 0 <= hi)
    k, r = invoke(E, t, "complete", "0")
    E.prove("no exception", k == "ok")
    good = k == "ok" and isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (SInt, int))
    v = bag.view(E, r[1]) if good else None
    E.prove("a count and a list", v is not None)
    if v is None:
        return
    E.cover("done")
    c, (bn, bm, text) = B.zint(r[0]), v
    E.prove("exactly 0, if it is in the range", z3.And(c == bn, bn == z3.If(within, I(1), I(0)),
                                                      bm(X) == z3.If(z3.And(within, X == 0), I(1), I(0))))
    k, m = invoke(E, t, "match", "0")
    E.prove("match: no exception", k == "ok")
    if k == "ok":
        E.prove("fails exactly when 0 is not in the range", eqb(m, FAILURE) == z3.Not(within))


def spec_value(E):
    t, lo, hi, M = token(E)
    E.ghost["dec"] = Dec(E)
    sign = E.fork(z3.Bool("signed"), "signed")
    d = z3.String("digits")
    s = z3.Concat(z3.StringVal("-"), d) if sign else d
    if not sign:
        E.assume(z3.Not(z3.PrefixOf(z3.StringVal("-"), d)))
    E.notes["input"] = SStr(s)
    isf = lambda f: z3.Function(f, z3.StringSort(), z3.BoolSort())(d)
    dec = isf("str_isdecimal")
    E.assume(imp(dec, isf("str_isdigit")))
    E.assume(imp(isf("str_isdigit"), isf("isnumeric")))
    E.assume(imp(dec, z3.And(B.INTOK(d), B.INTOK(s), B.INTOF(s) == (-B.INTOF(d) if sign else B.INTOF(d)))))
    E.assume(imp(z3.And(isf("isnumeric"), z3.Not(dec)), z3.And(z3.Not(B.INTOK(d)), z3.Not(B.INTOK(s)))))
    num = B.INTOF(s)
    within = z3.And(dec, lo <= num, num <= hi)
    k, v = invoke(E, t, "get_value", SStr(s))
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    if is_null(v):
        E.cover("no value")
        E.prove("no value only for no integer of the range", z3.Not(within))
    else:
        E.cover("value")
        E.prove("a value only for an integer of the range", within)
        E.prove("the value is that integer", isinstance(v, SInt) and v.e == num)


def spec_other(E):
    """text that is no numeral has no completion and fails"""
    t, lo, hi, M = token(E)
    E.ghost["dec"] = Dec(E)
    sign = E.fork(z3.Bool("signed"), "signed")
    d = z3.String("digits")
    s = z3.Concat(z3.StringVal("-"), d) if sign else d
    if not sign:
        E.assume(z3.Not(z3.PrefixOf(z3.StringVal("-"), d)))
    E.assume(d != z3.StringVal(""))
    for f in ("str_isdecimal", "str_isdigit", "isnumeric"):
        E.assume(z3.Not(z3.Function(f, z3.StringSort(), z3.BoolSort())(d)))
    k, r = invoke(E, t, "complete", SStr(s))
    E.prove("no exception", k == "ok")
    good = k == "ok" and isinstance(r, tuple) and len(r) == 2
    v = bag.view(E, r[1]) if good else None
    E.prove("no completions", v is not None and v[0] == 0)
    k, m = invoke(E, t, "match", SStr(s))
    E.prove("match: no exception", k == "ok")
    if k == "ok":
        E.cover("done")
        E.prove("fails", eqb(m, FAILURE))


def lemmas():
    """induction proofs of what the units assume of P, NP and T"""
    out = []
    k, a, n, d, lo, hi = z3.Ints("k a n d lo hi")

    def check(name, hyp, goal):
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*hyp)
        s.add(z3.Not(goal))
        r = s.check()
        out.append(dict(name=name, status="proved" if r == z3.unsat else ("refuted" if r == z3.sat else "unknown"),
                        backend="z3", detail=str(s.model())[:200] if r == z3.sat else ""))
    rec = lambda t: P(t + 1) == 10 * P(t)
    check("P positive/base", [P(0) == 1], P(0) >= 1)
    check("P positive/step", [k >= 0, P(k) >= 1, rec(k)], P(k + 1) >= 1)
    # for a fixed a >= 0: every t > a has 10 P(a) <= P(t), by induction on t
    check("P-monotone/base", [a >= 0, rec(a), P(a) >= 1], 10 * P(a) <= P(a + 1))
    check("P-monotone/step", [a >= 0, k > a, 10 * P(a) <= P(k), P(k) >= 1, rec(k)], 10 * P(a) <= P(k + 1))
    blk = lambda t: z3.And(P(d + t - 1) <= NP(t), NP(t) + P(t) <= P(d + t))
    dig = [n >= 1, d >= 1, P(d - 1) <= n, n < P(d), NP(0) == n, P(0) == 1]
    check("block-digits/base", dig, blk(I(0)))
    check("block-digits/step", dig + [k >= 0, blk(k), NP(k + 1) == 10 * NP(k), rec(k), rec(d + k), P(d + k) == 10 * P(d + k - 1)],
          blk(k + 1))
    BC = z3.Function("BC", z3.IntSort(), z3.IntSort())
    recT = lambda t: z3.And(T_(t + 1) == T_(t) + BC(t), BC(t) >= 0)
    # for a fixed a >= 0: every t > a has T(a+1) <= T(t), by induction on t
    check("T-monotone/base", [a >= 0], T_(a + 1) <= T_(a + 1))
    check("T-monotone/step", [a >= 0, k > a, T_(a + 1) <= T_(k), recT(k)], T_(a + 1) <= T_(k + 1))
    check("T nonnegative/step", [k >= 0, T_(k) >= 0, recT(k)], T_(k + 1) >= 0)
    # a positive total has a non-empty block: W(t) is the last one before t
    wit = lambda t: imp(T_(t) > 0, z3.And(0 <= W(t), W(t) < t, BC(W(t)) > 0))
    recW = W(k + 1) == z3.If(BC(k) > 0, k, W(k))
    check("T-witness/base", [T_(0) == 0], wit(I(0)))
    check("T-witness/step", [k >= 0, wit(k), recT(k), recW], wit(k + 1))
    # and that block's first number in the range begins with n and is in the range
    w = z3.Int("w")
    x0 = z3.If(NP(w) > lo, NP(w), lo)
    top = NP(w) + P(w) - 1
    b = z3.If(top < hi, top, hi)
    check("T-witness/number", [w >= 0, blk(w), n >= 1, d >= 1, P(d + w - 1) >= 1, b - x0 + 1 > 0],
          z3.And(lo <= x0, x0 <= hi, NP(w) <= x0, x0 < NP(w) + P(w), x0 >= 1, P(d + w - 1) <= x0, x0 < P(d + w)))
    # a number of the range that begins with n is in a block before K and makes it non-empty
    dx, dh = z3.Ints("dx dh")
    kx = dx - d
    mono = [imp(z3.And(0 <= p, p < q), 10 * P(p) <= P(q)) for p in (dx - 1, dx, dh - 1, dh) for q in (dx - 1, dx, dh - 1, dh)
            if p is not q]
    K = z3.If(z3.Or(hi < 1, dh < d), I(0), dh - d + 1)
    check("candidate in a block", [X >= 1, dx >= 1, P(dx - 1) <= X, X < P(dx), hi >= X, lo <= X, dh >= 1,
                                   P(dh - 1) <= hi, hi < P(dh), kx >= 0, NP(kx) <= X, X < NP(kx) + P(kx), d >= 1] + mono,
          z3.And(kx < K, z3.If(NP(kx) + P(kx) - 1 < hi, NP(kx) + P(kx) - 1, hi)
                 - z3.If(NP(kx) > lo, NP(kx), lo) + 1 >= 1))
    return out


def units(tier):
    kw = dict(contracts=NAME, loops=LOOPS, dom=bag.DBAG, models={"digits": digits_model, "pow": pow_model},
              timeout_ms=20000)
    whole = dict(kw, contracts=dict(NAME, **{"nessaid_cli.tokens:RangedIntToken.complete": complete_contract}))
    outer = dict(kw)
    inner = []
    if modular():
        inner = [Unit("_complete", spec_inner, ["done"], 3, **kw)]
        outer = dict(kw, contracts=dict(NAME, **{"nessaid_cli.tokens:RangedIntToken._complete": inner_contract}))
    return [
        Unit("value", spec_value, ["value", "no value"], 4, **kw),
        Unit("complete(positive numeral)", spec_prefix(False, "complete"), ["listed", "done"], 5, **outer),
        Unit("complete(negative numeral)", spec_prefix(True, "complete"), ["listed", "done"], 5, **outer),
        Unit("match(positive numeral)", spec_prefix(False, "match"), ["done"], 3, **whole),
        Unit("match(negative numeral)", spec_prefix(True, "match"), ["done"], 3, **whole),
        Unit("-", spec_sign, ["done"], 5, **kw),
        Unit("0", spec_zero, ["done"], 4, **kw),
        Unit("not a numeral", spec_other, ["done"], 4, **kw),
        DirectUnit("lemmas", lemmas, 10),
    ] + inner
