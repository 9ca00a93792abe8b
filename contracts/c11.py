"""C11: string, ranged-string, decimal and boolean tokens accept exactly their domain."""
import z3

from .tok import *

LEVEL = "proof"
TRUSTED = ["float(str) is a partial function of the string (IEEE double); it is undefined on \"\" and \"-\"",
           "str.lower() as far as prefixes of true/false are concerned: decided over every code point by the lemma unit"]
ASSUMPTIONS = ["bounds are not NaN", "characters above U+2FFFF behave as the other characters the code does not name"]

Q = z3.StringVal('"')


def unquoted(s):
    n = z3.Length(s)
    a = z3.If(z3.PrefixOf(Q, s), z3.SubString(s, 1, n - 1), s)
    return z3.If(z3.SuffixOf(Q, a), z3.SubString(a, 0, z3.Length(a) - 1), a)


def is_text(r, e):
    return isinstance(r, (str, SStr)) and B.zstr(r) == e


def spec_string(E):
    k, t = make(E, T.StringToken, "t")
    E.prove("constructed", k == "ok")
    s = fresh_str("s")
    E.notes["input"] = s
    k, v = invoke(E, t, "get_value", s)
    E.prove("value: no exception", k == "ok")
    if k == "ok":
        E.prove("value is the text without its quotes", is_text(v, unquoted(s.e)))
    k, m = invoke(E, t, "match", s)
    E.prove("match: no exception", k == "ok")
    if k == "ok":
        E.cover("done")
        E.prove("a string never fails", z3.Not(eqb(m, FAILURE)))


def eqb(r, c):
    x = eq_const(r, c)
    return x if z3.is_expr(x) else z3.BoolVal(bool(x))


def spec_ranged(E):
    lo, hi = fresh_int("lo"), fresh_int("hi")
    E.notes.update(lo=lo, hi=hi)
    k, t = make(E, T.RangedStringToken, "t", lo, hi)
    neg = z3.Or(lo.e < 0, hi.e < 0)
    if k != "ok":
        E.prove("negative sizes are refused, others are not", neg)
        return
    E.prove("negative sizes are refused, others are not", z3.Not(neg))
    a = z3.If(lo.e < hi.e, lo.e, hi.e)
    b = z3.If(lo.e < hi.e, hi.e, lo.e)
    s = fresh_str("s")
    E.notes["input"] = s
    u = unquoted(s.e)
    within = z3.And(a <= z3.Length(u), z3.Length(u) <= b)
    k, v = invoke(E, t, "get_value", s)
    E.prove("value: no exception", k == "ok")
    if k != "ok":
        return
    if is_null(v):
        E.cover("no value")
        E.prove("no value only outside the bounds", z3.Not(within))
    else:
        E.cover("value")
        E.prove("a value only within the bounds", within)
        E.prove("value is the text without its quotes", is_text(v, u))
    k, m = invoke(E, t, "match", s)
    E.prove("match: no exception", k == "ok")
    if k == "ok":
        E.prove("longer than the bound fails", z3.Implies(z3.Length(u) > b, eqb(m, FAILURE)))
        E.prove("what has a value does not fail", z3.Implies(within, z3.Not(eqb(m, FAILURE))))


def spec_decimal(E):
    x, y = SFloat(z3.FP("a", B.FP)), SFloat(z3.FP("b", B.FP))
    E.assume(z3.Not(z3.Or(z3.fpIsNaN(x.e), z3.fpIsNaN(y.e))))
    k, t = make(E, T.RangedDecimalToken, "t", x, y)
    E.prove("constructed", k == "ok")
    if k != "ok":
        return
    s = fresh_str("s")
    E.notes["input"] = s
    ok, f = B.FLOATOK(s.e), B.FLOATOF(s.e)
    E.assume(z3.And(z3.Not(B.FLOATOK(z3.StringVal(""))), z3.Not(B.FLOATOK(z3.StringVal("-")))))
    between = lambda p, q: z3.And(z3.fpLEQ(p, f), z3.fpLEQ(f, q))
    within = z3.And(ok, z3.Or(between(x.e, y.e), between(y.e, x.e)))
    k, v = invoke(E, t, "get_value", s)
    E.prove("value: no exception", k == "ok")
    if k != "ok":
        return
    if is_null(v):
        E.cover("no value")
        E.prove("no value only outside the bounds", z3.Not(within))
    else:
        E.cover("value")
        E.prove("a value only within the bounds", within)
        E.prove("the value is the number", isinstance(v, SFloat) and z3.fpEQ(v.e, f))
    k, m = invoke(E, t, "match", s)
    E.prove("match: no exception", k == "ok")
    if k != "ok":
        return
    zero = z3.FPVal(0.0, B.FP)
    beyond = lambda g: z3.And(z3.fpLT(x.e, g), z3.fpLT(y.e, g))
    below = z3.And(z3.fpGT(x.e, f), z3.fpGT(y.e, f))
    E.prove("beyond the bound on its side of zero fails",
            z3.Implies(z3.And(ok, z3.Or(z3.And(z3.fpGT(f, zero), beyond(f)), z3.And(z3.fpLT(f, zero), below))),
                       eqb(m, FAILURE)))
    E.prove("what has a value does not fail", z3.Implies(within, z3.Not(eqb(m, FAILURE))))


WORDS = ("true", "false")


def low_model(E, args, kwargs):
    s = B.zstr(args[0])
    return SStr(lower(E, s))


def lower(E, s):
    s = z3.simplify(s)
    if z3.is_string_value(s):
        return z3.StringVal(s.as_string().lower())
    if s.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(s.arg(0), lower(E, s.arg(1)), lower(E, s.arg(2)))
    if s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        r = z3.Concat(*[lower(E, c) for c in s.children()])
    elif s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_string_value(s.arg(0)):
        base = s.arg(0).as_string()
        if base.lower() != base:
            raise Unsupported("lower() of a slice")
        return s
    elif z3.is_const(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        r = B.LOWER(s)
        pre = z3.Or(*[z3.PrefixOf(r, z3.StringVal(w)) for w in WORDS])
        E.assume(z3.Implies(pre, z3.Length(r) == z3.Length(s)))
        E.assume((s == z3.StringVal("")) == (r == z3.StringVal("")))
        for w in WORDS:
            for v in (w, w.capitalize(), w.upper()):
                E.assume(z3.Implies(s == z3.StringVal(v), r == z3.StringVal(w)))
    else:
        raise Unsupported("lower() of %s" % s.decl())
    return r


def spec_bool(E):
    k, t = make(E, T.BooleanToken, "t")
    E.prove("constructed", k == "ok")
    s = fresh_str("s")
    E.notes["input"] = s
    l = lower(E, s.e)
    ne = s.e != z3.StringVal("")
    tr = z3.And(ne, z3.PrefixOf(l, z3.StringVal("true")))
    fa = z3.And(ne, z3.PrefixOf(l, z3.StringVal("false")))
    k, v = invoke(E, t, "get_value", s)
    E.prove("value: no exception", k == "ok")
    if k != "ok":
        return
    if is_null(v):
        E.cover("no value")
        E.prove("no value only for no prefix of true or false", z3.Not(z3.Or(tr, fa)))
    else:
        E.cover("value")
        E.prove("a value only for a prefix of true or false", z3.Or(tr, fa))
        good = isinstance(v, (bool, SBool))
        E.prove("the value is a truth value", good)
        if good:
            E.prove("the value is the truth value named", (v.e if isinstance(v, SBool) else z3.BoolVal(v)) == tr)
    k, m = invoke(E, t, "match", s)
    E.prove("match: no exception", k == "ok")
    if k == "ok":
        E.prove("what has a value does not fail", z3.Implies(z3.Or(tr, fa), z3.Not(eqb(m, FAILURE))))


def lemma_lower():
    """every character whose lower case has a letter of true/false is that one ASCII letter; concatenation is
    character-wise for those (decided by enumeration of all code points)"""
    import sys
    bad = []
    letters = set("truefals")
    for i in range(sys.maxunicode + 1):
        c = chr(i)
        d = c.lower()
        if d and (set(d) & letters) and not (len(d) == 1 and c in (d, d.upper()) and ord(c) < 128):
            bad.append(i)
        if not d:
            bad.append(i)
    return [dict(name="lower() meets true/false only at ASCII letters", status="proved" if not bad else "refuted",
                 backend="enumeration of all code points", instances=sys.maxunicode + 1, detail=str(bad[:5]))]


def units(tier):
    from pyvc.unit import DirectUnit
    return [
        Unit("StringToken", spec_string, ["done"], 4, contracts=NAME),
        Unit("RangedStringToken", spec_ranged, ["value", "no value"], 6, contracts=NAME),
        Unit("RangedDecimalToken", spec_decimal, ["value", "no value"], 6, contracts=NAME),
        Unit("BooleanToken", spec_bool, ["value", "no value"], 6, contracts=NAME, models={"str.lower": low_model}),
        DirectUnit("lemma: str.lower and true/false", lemma_lower),
    ]
