"""Models of Python's operators, containers, string methods and builtins over symbolic values."""
import ast
import asyncio
import builtins
import inspect
import operator
import types

import z3

from .values import *
from .engine import Coro, StarArgs, Unsupported, BreakSig, NOVALUE


class _NoModel:
    pass


NOMODEL = _NoModel()
S = z3.StringVal


# ------------------------------------------------------------------ conversions
def zint(v):
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, 1, 0)
    return z3.IntVal(int(v))


def zstr(v):
    if isinstance(v, SStr):
        return v.e
    return z3.StringVal(z3_escape(v))


def z3_escape(s):
    return "".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s)


def is_intlike(v):
    return isinstance(v, (SInt, SBool)) or (isinstance(v, int))


def is_strlike(v):
    return isinstance(v, (SStr, str))


FP = z3.Float64()


def zfp(v):
    if isinstance(v, SFloat):
        return v.e
    if isinstance(v, float):
        return z3.FPVal(v, FP)
    if isinstance(v, int):
        return z3.FPVal(float(v), FP)
    raise Unsupported("float of %r" % (v,))


def format_parts(E, s, args, kwargs):
    """'..{}..{1}..{name}..'.format(texts and numbers), without format specifications"""
    import string
    if not isinstance(s, str):
        return None
    parts, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if spec or conv:
                return None
            if field == "":
                field, auto = str(auto), auto + 1
            x = args[int(field)] if field.isdigit() else kwargs[field]
            if not (is_strlike(x) or is_intlike(x) or hasattr(x, "as_text")):
                return None
            parts.append(to_str(E, x))
    except (ValueError, IndexError, KeyError):
        return None
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    return str_concat(parts)


def str_concat(parts):
    if any(isinstance(p, Model) for p in parts):
        r = parts[0]
        for p in parts[1:]:
            m, x, swapped = (r, p, False) if isinstance(r, Model) else (p, r, True)
            if isinstance(m, Model):
                r = m.binop(None, ast.Add(), x, swapped)
                if r is NOMODEL:
                    raise Unsupported("concatenation of %r" % (parts,))
            else:
                r = r + p
        return r
    es = [zstr(p) for p in parts]
    return SStr(z3.Concat(*es) if len(es) > 1 else es[0])


def is_concrete(v):
    if isinstance(v, (Sym, Heap, Unk, BM, Clo, Builtin, SuperProxy, Coro, StarArgs, Gen)):
        return False
    if isinstance(v, tuple):
        return all(is_concrete(x) for x in v)
    return True


def to_real(v):
    """a real python object for a value without symbolic parts, or raise"""
    if isinstance(v, PyList):
        return [to_real(x) for x in v.items]
    if isinstance(v, PySet):
        return set(to_real(x) for x in v.items)
    if isinstance(v, PyDict):
        return {to_real(a): to_real(b) for a, b in v.pairs}
    if isinstance(v, tuple):
        return tuple(to_real(x) for x in v)
    if is_concrete(v):
        return v
    raise Unsupported("not concrete: %r" % (v,))


def can_real(v):
    try:
        to_real(v)
        return True
    except Unsupported:
        return False


def from_real(E, v):
    if isinstance(v, list):
        return E.new(PyList([from_real(E, x) for x in v]))
    if isinstance(v, set):
        return E.new(PySet([from_real(E, x) for x in v]))
    if isinstance(v, dict):
        return E.new(PyDict([(a, from_real(E, b)) for a, b in v.items()]))
    return v


# ------------------------------------------------------------------ unknown heap object
class UnkHeap(Model):
    def __init__(self, label="?"):
        super().__init__()
        self.label = label

    def call(self, E, name, args, kwargs):
        E.note_write(self)
        E.maybe_raise("%s.%s" % (self.label, name))
        return Unk("%s.%s()" % (self.label, name))

    def getattr(self, E, name):
        return Builtin(name, lambda E, a, k: self.call(E, name, a, k))

    def setattr(self, E, name, v):
        pass

    def truth(self, E):
        return None

    def havoc(self, E):
        pass

    def getitem(self, E, i):
        E.maybe_raise(self.label + "[]")
        return Unk(self.label + "[]")

    def setitem(self, E, i, v):
        E.note_write(self)

    def delitem(self, E, i):
        E.note_write(self)

    def contains(self, E, x):
        return Unk("in " + self.label)

    def isinstance_(self, E, cls):
        return bool(E.choose(2, "isinstance"))

    def type_(self, E):
        raise Unsupported("type of unknown")

    def unpack(self, E, n):
        return [Unk(self.label) for _ in range(n)]

    def length(self, E):
        return Unk("len")

    def loop_spec(self, E, s, env):
        return None

    def any_all(self, E, which, comp, g, env):
        return Unk(which)


# ------------------------------------------------------------------ equality
def equal(E, a, b):
    """python bool, z3 Bool, Unk"""
    if a is b and not isinstance(a, (SFloat, Unk)):
        return True
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Unk("==")
    if isinstance(a, Model):
        return a.eq(E, b)
    if isinstance(b, Model):
        return b.eq(E, a)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj):
            m = E.class_attr(x.cls, "__eq__")
            if isinstance(m, types.FunctionType):
                r = E.call(BM(m, x), [y])
                if r is not NotImplemented:
                    return r if isinstance(r, (bool, Unk)) else E.truth_expr(r)
            hook = x.hooks.get("==")
            if hook is not None:
                return hook(E, x, y)
    for x, y in ((a, b), (b, a)):
        if is_concrete(x) and not is_concrete(y) and type(x).__module__.startswith("nessaid_cli"):
            m = type(x).__dict__.get("__eq__")
            if isinstance(m, types.FunctionType):
                r = E.call(m, [x, y])
                return r if isinstance(r, (bool, Unk)) else E.truth_expr(r)
    if isinstance(a, SVal) and isinstance(b, SVal):
        return a.e == b.e
    if isinstance(a, SVal) or isinstance(b, SVal):
        x, y = (a, b) if isinstance(a, SVal) else (b, a)
        if x.kinds is not None and is_concrete(y):
            k = x.kinds(E, x, type(y))
            if k is False:
                return False
        if y is None:
            r = is_none(E, x)
            return r.e if isinstance(r, SBool) else r
        raise Unsupported("comparison of atom with %r" % (y,))
    if is_strlike(a) and is_strlike(b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return zstr(a) == zstr(b)
    if isinstance(a, SFloat) or isinstance(b, SFloat):
        if isinstance(a, (SFloat, float, int)) and isinstance(b, (SFloat, float, int)):
            return z3.fpEQ(zfp(a), zfp(b))
        return False
    if is_intlike(a) and is_intlike(b):
        if is_concrete(a) and is_concrete(b):
            return a == b
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            za = a.e if isinstance(a, SBool) else z3.BoolVal(a)
            zb = b.e if isinstance(b, SBool) else z3.BoolVal(b)
            return za == zb
        return zint(a) == zint(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return conj([equal(E, x, y) for x, y in zip(a, b)])
    if isinstance(a, PyList) and isinstance(b, PyList):
        if len(a.items) != len(b.items):
            return False
        return conj([equal(E, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, (PySet, PyDict)) and isinstance(b, (PySet, PyDict)):
        if can_real(a) and can_real(b):
            return to_real(a) == to_real(b)
        raise Unsupported("set/dict equality")
    if isinstance(a, Heap) or isinstance(b, Heap):
        return False      # different heap objects without __eq__
    if isinstance(a, (BM, Clo, Builtin)) or isinstance(b, (BM, Clo, Builtin)):
        return False
    if is_concrete(a) and is_concrete(b):
        return a == b
    return False


def conj(rs):
    out = []
    for r in rs:
        if r is False:
            return False
        if isinstance(r, Unk):
            return r
        if r is not True:
            out.append(r)
    return z3.And(*out) if len(out) > 1 else (out[0] if out else True)


def wrap_bool(r):
    if isinstance(r, (bool, Unk, SBool)):
        return r
    return SBool(r)


def is_none(E, x):
    """an atom may stand for None unless it is always true, or known to be of a class None is not of"""
    t = x.truthy(E, x) if x.truthy is not None else None
    if t is True:
        return False
    k = x.kinds(E, x, type(None)) if x.kinds is not None else None
    if k is False:
        return False
    p = z3.Function("is_none_%s" % x.e.sort(), x.e.sort(), z3.BoolSort())(x.e)
    if t is not None and not isinstance(t, Unk):
        E.assume(z3.Implies(p, z3.Not(t.e if isinstance(t, SBool) else t)))
    return wrap_bool(p)


def identical(E, a, b):
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Unk("is")
    if isinstance(a, SVal) and isinstance(b, SVal):
        return wrap_bool(a.e == b.e)
    if isinstance(a, SBool) and isinstance(b, bool):
        return SBool(a.e if b else z3.Not(a.e))
    if isinstance(b, SBool) and isinstance(a, bool):
        return identical(E, b, a)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return SBool(a.e == b.e)
    if isinstance(a, SVal) or isinstance(b, SVal):
        x, y = (a, b) if isinstance(a, SVal) else (b, a)
        f = x.attrs.get("is")
        if f is not None:
            return wrap_bool(f(E, x, y))
        if y is None:
            return is_none(E, x)
        if isinstance(y, Obj) and y.cls is object:      # a private mark is no value
            return False
        raise Unsupported("identity of atom and %r" % (y,))
    if isinstance(a, Model) and hasattr(a, "is_"):
        return wrap_bool(a.is_(E, b))
    if isinstance(b, Model) and hasattr(b, "is_"):
        return wrap_bool(b.is_(E, a))
    if isinstance(a, (SInt, SStr, SFloat)) or isinstance(b, (SInt, SStr, SFloat)):
        if a is None or b is None or isinstance(a, (bool, type)) or isinstance(b, (bool, type)):
            return False
        if a is b:
            return True
        if is_concrete(a) and not isinstance(a, (int, str, float)) or is_concrete(b) and not isinstance(b, (int, str, float)):
            return False
        raise Unsupported("identity of symbolic scalars")
    return a is b


def compare(E, op, a, b):
    if isinstance(op, ast.Is):
        return identical(E, a, b)
    if isinstance(op, ast.IsNot):
        return negate(E, identical(E, a, b))
    if isinstance(op, ast.Eq):
        return wrap_bool(equal(E, a, b))
    if isinstance(op, ast.NotEq):
        for x, y in ((a, b),):
            if isinstance(x, Obj):
                m = E.class_attr(x.cls, "__ne__")
                if isinstance(m, types.FunctionType):
                    return E.call(BM(m, x), [y])
        return negate(E, wrap_bool(equal(E, a, b)))
    if isinstance(op, ast.In):
        return wrap_bool(contains(E, b, a))
    if isinstance(op, ast.NotIn):
        return negate(E, wrap_bool(contains(E, b, a)))
    # ordering
    if isinstance(a, Unk) or isinstance(b, Unk):
        E.maybe_raise("compare")
        return Unk("<")
    pyop = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
    if is_concrete(a) and is_concrete(b):
        try:
            return pyop(a, b)
        except TypeError as e:
            E.raise_(TypeError, str(e))
    if isinstance(a, SFloat) or isinstance(b, SFloat):
        if is_intlike(a) and not is_concrete(a) or is_intlike(b) and not is_concrete(b):
            raise Unsupported("float/int comparison")
        f = {ast.Lt: z3.fpLT, ast.LtE: z3.fpLEQ, ast.Gt: z3.fpGT, ast.GtE: z3.fpGEQ}[type(op)]
        return SBool(f(zfp(a), zfp(b)))
    if is_intlike(a) and is_intlike(b):
        return SBool(pyop(zint(a), zint(b)))
    if is_strlike(a) and is_strlike(b):
        if isinstance(op, ast.Lt):
            return SBool(zstr(a) < zstr(b))
        if isinstance(op, ast.LtE):
            return SBool(zstr(a) <= zstr(b))
        if isinstance(op, ast.Gt):
            return SBool(zstr(b) < zstr(a))
        return SBool(zstr(b) <= zstr(a))
    if isinstance(a, Model):
        return a.order(E, op, b)
    if isinstance(b, Model) and hasattr(b, "order_swapped"):
        return b.order_swapped(E, op, a)
    if (a is None) != (b is None) or is_strlike(a) != is_strlike(b):
        E.raise_(TypeError, "unorderable")
    raise Unsupported("comparison of %r and %r" % (a, b))


def negate(E, r):
    if isinstance(r, bool):
        return not r
    if isinstance(r, Unk):
        return r
    return SBool(z3.Not(r.e))


def contains(E, c, x):
    if isinstance(c, Unk):
        return Unk("in")
    if isinstance(c, Model):
        return c.contains(E, x)
    if isinstance(c, (PyList, PySet, tuple)):
        items = list(c) if isinstance(c, tuple) else c.items
        rs = []
        for y in items:
            r = equal(E, y, x) if not (y is x) else True
            if isinstance(r, SBool):
                r = r.e
            if r is True:
                return True
            if isinstance(r, Unk):
                return r
            if r is not False:
                rs.append(r)
        return z3.Or(*rs) if len(rs) > 1 else (rs[0] if rs else False)
    if isinstance(c, PyDict):
        return contains(E, tuple(k for k, _ in c.pairs), x)
    if is_strlike(c):
        if not is_strlike(x):
            if isinstance(x, Unk):
                return Unk("in")
            E.raise_(TypeError, "in <string> requires string")
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        return z3.Contains(zstr(c), zstr(x))
    if isinstance(c, GlobalsView):
        if "globals" in E.ghost and not isinstance(x, str):
            return E.ghost["globals"].contains(E, x)
        return x in c.g if isinstance(x, str) else Unk("in globals")
    if is_concrete(c) and is_concrete(x):
        return x in c
    if isinstance(c, range):
        return z3.And(zint(x) >= c.start, zint(x) < c.stop)
    if isinstance(c, Obj):
        m = E.class_attr(c.cls, "__contains__")
        if isinstance(m, types.FunctionType):
            return E.truth_expr(E.call(BM(m, c), [x]))
    raise Unsupported("membership in %r" % (c,))


class GlobalsView:
    def __init__(self, g):
        self.g = g


# ------------------------------------------------------------------ arithmetic
POW10 = z3.Function("pow10", z3.IntSort(), z3.IntSort())

_AOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
         ast.Mod: operator.mod, ast.Pow: operator.pow, ast.Div: operator.truediv, ast.BitAnd: operator.and_,
         ast.BitOr: operator.or_, ast.LShift: operator.lshift, ast.RShift: operator.rshift}


def unary(E, op, v):
    if isinstance(v, Unk):
        return v
    if isinstance(op, ast.USub):
        if isinstance(v, SInt):
            return SInt(-v.e)
        if isinstance(v, SFloat):
            return SFloat(z3.fpNeg(v.e))
        if is_concrete(v):
            return -v
    if isinstance(op, ast.UAdd) and is_intlike(v):
        return v
    if isinstance(v, Model) and isinstance(op, ast.USub):
        return v.neg(E)
    raise Unsupported("unary operator on %r" % (v,))


def binop(E, op, a, b):
    if isinstance(a, Unk) or isinstance(b, Unk):
        E.maybe_raise("binop")
        return Unk("binop")
    if is_concrete(a) and is_concrete(b):
        try:
            return from_real(E, _AOPS[type(op)](a, b))
        except Exception as e:
            E.raise_(type(e), *e.args)
    if isinstance(a, Model):
        r = a.binop(E, op, b, False)
        if r is not NOMODEL:
            return r
    if isinstance(b, Model):
        r = b.binop(E, op, a, True)
        if r is not NOMODEL:
            return r
    if isinstance(a, SVal) or isinstance(b, SVal):
        x = a if isinstance(a, SVal) else b
        f = x.attrs.get("binop")
        if f is not None:
            return f(E, op, a, b)
    if isinstance(op, ast.Add):
        if is_strlike(a) and is_strlike(b):
            return SStr(z3.Concat(zstr(a), zstr(b)))
        if isinstance(a, PyList) and isinstance(b, PyList):
            return E.new(PyList(a.items + b.items), site="list+")
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if is_strlike(a) or is_strlike(b) or isinstance(a, (PyList, tuple)) or isinstance(b, (PyList, tuple)):
            E.raise_(TypeError, "can only concatenate")
    if isinstance(op, ast.Mod) and is_strlike(a):
        fs = a.split("%") if isinstance(a, str) else []
        xs = list(b) if isinstance(b, tuple) else [b]
        if len(fs) == len(xs) + 1 and all(f[:1] in ("s", "d") for f in fs[1:]) and all(is_strlike(x) or is_intlike(x) for x in xs):
            parts = [fs[0]]
            for f, x in zip(fs[1:], xs):
                parts += [to_str(E, x), f[1:]]
            return str_concat([p for p in parts if not (isinstance(p, str) and not p)] or [""])
        return fresh_str("fmt")
    if isinstance(op, ast.Mult):
        if is_strlike(a) and is_intlike(b) or is_strlike(b) and is_intlike(a):
            s, n = (a, b) if is_strlike(a) else (b, a)
            r = fresh_str("rep")
            if isinstance(s, str) and len(s) == 1:
                E.assume(z3.Length(r.e) == z3.If(zint(n) > 0, zint(n), 0))
                E.assume(z3.InRe(r.e, z3.Star(z3.Re(zstr(s)))))
            return r
        if isinstance(a, PyList) and isinstance(b, int):
            return E.new(PyList(a.items * b))
    if is_intlike(a) and is_intlike(b):
        x, y = zint(a), zint(b)
        if isinstance(op, ast.Add):
            return SInt(x + y)
        if isinstance(op, ast.Sub):
            return SInt(x - y)
        if isinstance(op, ast.Mult):
            return SInt(x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if isinstance(b, int) and b > 0:
                return SInt(x / y if isinstance(op, ast.FloorDiv) else x % y)
            raise Unsupported("division by symbolic value")
        if isinstance(op, ast.Pow) and isinstance(a, int) and "pow" in E.models:
            r = E.models["pow"](E, a, y)
            if r is not None:
                return SInt(r)
    if isinstance(a, (PySet,)) and isinstance(b, (PySet,)) and isinstance(op, ast.BitOr):
        s = E.new(PySet(a.items))
        for x in b.items:
            set_add(E, s, x)
        return s
    if isinstance(a, (SFloat, float, int)) and isinstance(b, (SFloat, float, int)):
        rm = z3.RNE()
        if isinstance(op, ast.Add):
            return SFloat(z3.fpAdd(rm, zfp(a), zfp(b)))
        if isinstance(op, ast.Sub):
            return SFloat(z3.fpSub(rm, zfp(a), zfp(b)))
    if E.typestate:
        E.maybe_raise("binop")
        return Unk("binop")
    raise Unsupported("operator %s on %r, %r" % (type(op).__name__, a, b))


def augassign(E, op, a, b):
    if isinstance(a, Model):
        r = a.iop(E, op, b) if hasattr(a, "iop") else NOMODEL
        if r is not NOMODEL:
            return r
    if isinstance(op, ast.Add) and isinstance(a, PyList):
        items = concrete_items(E, b)
        if items is None:
            if isinstance(b, Model) and hasattr(b, "extend_into"):
                return b.extend_into(E, a)
            if E.typestate:
                E.note_write(a)
                E.havoc_unknown(a, None)
                return a
            raise Unsupported("list += %r" % (b,))
        E.note_write(a)
        a.items.extend(items)
        return a
    return binop(E, op, a, b)


# ------------------------------------------------------------------ indexing
def norm_slice(n, lo, hi):
    """z3 start and stop of s[lo:hi] for length n"""
    def clamp(x, default):
        if x is None:
            return default
        x = zint(x)
        x = z3.If(x < 0, x + n, x)
        return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
    return clamp(lo, z3.IntVal(0)), clamp(hi, n)


def getitem(E, o, i):
    if isinstance(o, Unk) or isinstance(i, Unk) and not isinstance(o, Model):
        E.maybe_raise("getitem")
        return Unk("[]")
    if isinstance(o, Model):
        return o.getitem(E, i)
    if isinstance(o, GlobalsView):
        if isinstance(i, str):
            if i not in o.g:
                E.raise_(KeyError, i)
            return E.lift(o.g[i])
        if "globals" in E.ghost:
            return E.ghost["globals"].getitem(E, i)
        return Unk("globals[]")
    if isinstance(o, SVal):
        f = o.methods.get("__getitem__")
        if f is not None:
            return f(E, o, [i], {})
    if isinstance(o, (PyList, tuple)):
        items = o.items if isinstance(o, PyList) else list(o)
        if isinstance(i, slice):
            if all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                r = items[i]
                return E.new(PyList(r)) if isinstance(o, PyList) else tuple(r)
            raise Unsupported("symbolic slice of list")
        if isinstance(i, bool) or isinstance(i, int):
            try:
                return items[i]
            except IndexError:
                E.raise_(IndexError, "index out of range")
        if isinstance(i, SInt):
            # select by case split
            for k in range(len(items)):
                if E.fork(z3.Or(i.e == k, i.e == k - len(items)), "index"):
                    return items[k]
            E.raise_(IndexError, "index out of range")
        E.raise_(TypeError, "indices must be integers")
    if isinstance(o, PyDict):
        for k, v in o.pairs:
            r = equal(E, k, i)
            if isinstance(r, Unk):
                return Unk("dict[]")
            if isinstance(r, bool):
                if r:
                    return v
            elif E.fork(r, "key"):
                return v
        E.raise_(KeyError, i)
    if is_strlike(o):
        if is_concrete(o) and (not isinstance(i, slice) and is_concrete(i) or isinstance(i, slice) and
                               all(is_concrete(x) for x in (i.start, i.stop, i.step))):
            try:
                return str(o)[i]
            except IndexError:
                E.raise_(IndexError, "string index out of range")
        s = zstr(o)
        n = z3.Length(s)
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                raise Unsupported("string slice with step")
            if i.stop is None and isinstance(i.start, SInt) and E.entails(i.start.e >= 0):
                return SStr(z3.simplify(z3.SubString(s, i.start.e, n - i.start.e)))
            lo, hi = norm_slice(n, i.start, i.stop)
            return SStr(z3.simplify(z3.SubString(s, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0)))))
        k = zint(i)
        if E.fork(z3.And(k < n, k >= -n), "strindex"):
            k = k if isinstance(i, SInt) and E.entails(k >= 0) else z3.If(k < 0, k + n, k)
            return SStr(z3.SubString(s, k, z3.IntVal(1)))
        E.raise_(IndexError, "string index out of range")
    if isinstance(o, Obj):
        m = E.class_attr(o.cls, "__getitem__")
        if isinstance(m, types.FunctionType):
            return E.call(BM(m, o), [i])
        if "[]" in o.hooks:
            return o.hooks["[]"](E, o, i)
        E.raise_(TypeError, "not subscriptable")
    if is_concrete(o) and is_concrete(i):
        try:
            return E.lift(o[i])
        except Exception as e:
            E.raise_(type(e), *e.args)
    raise Unsupported("subscript of %r" % (o,))


def setitem(E, o, i, v):
    if isinstance(o, Unk):
        E.maybe_raise("setitem")
        return
    if isinstance(o, Model):
        return o.setitem(E, i, v)
    if isinstance(o, PyList):
        E.note_write(o)
        if isinstance(i, int):
            try:
                o.items[i] = v
            except IndexError:
                E.raise_(IndexError, "assignment index out of range")
            return
        if isinstance(i, SInt):
            for k in range(len(o.items)):
                if E.fork(z3.Or(i.e == k, i.e == k - len(o.items)), "index"):
                    o.items[k] = v
                    return
            E.raise_(IndexError, "assignment index out of range")
        if isinstance(i, Unk):
            E.havoc_unknown(o, None)
            return
    if isinstance(o, PyDict):
        E.note_write(o)
        for n, (k, _old) in enumerate(o.pairs):
            r = equal(E, k, i)
            if isinstance(r, Unk):
                E.havoc_unknown(o, None)
                return
            if isinstance(r, SBool):
                r = r.e
            if r is True or (r is not False and E.fork(r, "key")):
                o.pairs[n] = (k, v)
                return
        o.pairs.append((i, v))
        return
    if isinstance(o, Obj):
        m = E.class_attr(o.cls, "__setitem__")
        if isinstance(m, types.FunctionType):
            return E.call(BM(m, o), [i, v])
    raise Unsupported("item assignment on %r" % (o,))


def delitem(E, o, i):
    if isinstance(o, Unk):
        E.maybe_raise("delitem")
        return
    if isinstance(o, Model):
        return o.delitem(E, i)
    if isinstance(o, PyDict):
        E.note_write(o)
        for n, (k, _v) in enumerate(o.pairs):
            r = equal(E, k, i)
            if r is True or (r is not False and E.fork(r, "key")):
                del o.pairs[n]
                return
        E.raise_(KeyError, i)
    if isinstance(o, PyList) and isinstance(i, int):
        E.note_write(o)
        try:
            del o.items[i]
        except IndexError:
            E.raise_(IndexError)
        return
    raise Unsupported("del item")


# ------------------------------------------------------------------ iteration
def concrete_items(E, it):
    if isinstance(it, PyList):
        return list(it.items)
    if isinstance(it, PySet):
        return list(it.items)
    if isinstance(it, tuple):
        return list(it)
    if isinstance(it, PyDict):
        return [k for k, _ in it.pairs]
    if isinstance(it, range):
        if len(it) > 4096:
            raise Unsupported("long range")
        return list(it)
    if isinstance(it, str):
        return list(it)
    if isinstance(it, (Unk, UnkHeap)):
        E.maybe_raise("iter")
        return None
    if isinstance(it, Model):
        return it.items_(E) if hasattr(it, "items_") else None
    if isinstance(it, StarArgs):
        return concrete_items(E, it.value)
    if isinstance(it, (list, dict, set, frozenset)) or (hasattr(it, "__iter__") and is_concrete(it)):
        return [E.lift(x) for x in it]
    if isinstance(it, Obj):
        m = E.class_attr(it.cls, "__iter__")
        if m is not None:
            raise Unsupported("iteration over %r" % it)
        E.raise_(TypeError, "not iterable")
    if it is None or is_intlike(it):
        E.raise_(TypeError, "not iterable")
    if isinstance(it, (SStr, SVal)):
        return None
    return None


def as_sequence(E, it):
    if isinstance(it, Model):
        return it
    if isinstance(it, SStr):
        return StrSeq(it)
    items = concrete_items(E, it)
    if items is None:
        raise Unsupported("sequence view of %r" % (it,))
    return ConcSeq(items)


class StrSeq:
    def __init__(self, s):
        self.s = s

    def length(self, E):
        return z3.Length(self.s.e)

    def elem(self, E, i):
        return SStr(z3.SubString(self.s.e, i, z3.IntVal(1)))


class ConcSeq:
    def __init__(self, items):
        self.items = items

    def length(self, E):
        return z3.IntVal(len(self.items))

    def elem(self, E, i):
        for k in range(len(self.items)):
            if E.fork(i == k, "elem"):
                return self.items[k]
        raise Unsupported("index")


def dict_items(E, v):
    if isinstance(v, PyDict):
        return list(v.pairs)
    if isinstance(v, dict):
        return [(a, E.lift(b)) for a, b in v.items()]
    return None


# ------------------------------------------------------------------ sets
def set_add(E, s, x):
    E.note_write(s)
    r = contains(E, s, x)
    if isinstance(r, SBool):
        r = r.e
    if r is True:
        return
    if isinstance(r, Unk):
        E.havoc_unknown(s, None)
        return
    if r is False or not E.fork(r, "set add"):
        s.items.append(x)


# ------------------------------------------------------------------ strings
LOWER = z3.Function("lower", z3.StringSort(), z3.StringSort())
ISNUM = z3.Function("isnumeric", z3.StringSort(), z3.BoolSort())
INTOF = z3.Function("int_of_str", z3.StringSort(), z3.IntSort())
INTOK = z3.Function("int_ok", z3.StringSort(), z3.BoolSort())
STROF = z3.Function("str_of_int", z3.IntSort(), z3.StringSort())
FLOATOK = z3.Function("float_ok", z3.StringSort(), z3.BoolSort())
FLOATOF = z3.Function("float_of_str", z3.StringSort(), FP)


def str_method(E, s, name, args, kwargs):
    a = args
    if is_concrete(s) and all(is_concrete(x) for x in a) and all(is_concrete(x) for x in kwargs.values()):
        try:
            return from_real(E, getattr(str(s), name)(*a, **kwargs))
        except Exception as e:
            E.raise_(type(e), *e.args)
    custom = E.models.get("str." + name)
    if custom is not None:
        return custom(E, [s] + list(a), kwargs)
    if any(isinstance(x, Unk) for x in a):
        E.maybe_raise("str." + name)
        return Unk("str." + name)
    z = zstr(s)
    if name == "startswith" and len(a) == 1:
        if isinstance(a[0], tuple):
            return SBool(z3.Or(*[z3.PrefixOf(zstr(x), z) for x in a[0]]))
        if not is_strlike(a[0]):
            E.raise_(TypeError, "startswith first arg must be str")
        return SBool(z3.PrefixOf(zstr(a[0]), z))
    if name == "endswith" and len(a) == 1:
        if isinstance(a[0], tuple):
            return SBool(z3.Or(*[z3.SuffixOf(zstr(x), z) for x in a[0]]))
        if not is_strlike(a[0]):
            E.raise_(TypeError, "endswith first arg must be str")
        return SBool(z3.SuffixOf(zstr(a[0]), z))
    if name == "format":
        r = format_parts(E, s, a, kwargs)
        return fresh_str("fmt") if r is None else r
    if name == "lower" and not a:
        return SStr(LOWER(z))
    if name == "isnumeric":
        return SBool(ISNUM(z))
    if name in ("strip", "rstrip", "lstrip") and (not a or len(a) == 1 and (a[0] is None or isinstance(a[0], str))):
        return strip(E, z, name, a[0] if a else None)
    if name == "join":
        if isinstance(a[0], Model) and hasattr(a[0], "joined"):
            return a[0].joined(E, s)
        items = concrete_items(E, a[0])
        if items is None:
            raise Unsupported("join of symbolic list")
        if not items:
            return ""
        parts = []
        for i, x in enumerate(items):
            if i:
                parts.append(s)
            parts.append(x)
        return str_concat(parts)
    if name == "rindex" and len(a) == 1:
        # the last occurrence, or ValueError
        sub = zstr(a[0])
        if not E.fork(z3.Contains(z, sub), "rindex"):
            E.raise_(ValueError, "substring not found")
        n, m = z3.Length(z), z3.Length(sub)
        if E.entails(z3.SuffixOf(sub, z)):      # then the last occurrence is that suffix
            return SInt(z3.simplify(n - m))
        i = z3.Int(fresh_name("rindex"))
        E.assume(z3.And(i >= 0, i + m <= n, z3.SubString(z, i, m) == sub))
        E.assume(z3.Not(z3.Contains(z3.SubString(z, i + 1, n - i - 1), sub)))
        # if the string ends with sub, the last occurrence is that suffix
        E.assume(z3.Implies(z3.SuffixOf(sub, z), i == n - m))
        return SInt(i)
    if name == "index" and len(a) == 1:
        sub = zstr(a[0])
        if not E.fork(z3.Contains(z, sub), "index"):
            E.raise_(ValueError, "substring not found")
        return SInt(z3.IndexOf(z, sub, 0))
    if name == "find" and len(a) == 1:
        return SInt(z3.IndexOf(z, zstr(a[0]), 0))
    if name in ("isdigit", "isdecimal", "isalpha", "isalnum", "isspace", "isidentifier", "islower", "isupper"):
        return SBool(z3.Function("str_" + name, z3.StringSort(), z3.BoolSort())(z))
    if name == "count" and len(a) == 1:
        r = fresh_int("count")
        E.assume(r.e >= 0)
        return r
    if name == "copy":
        E.raise_(AttributeError, "copy")
    if E.typestate:
        return Unk("str." + name)
    raise Unsupported("str.%s on symbolic string" % name)


WS = "\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f \x85\xa0"   # python's str.isspace characters below U+0100; see STRIP note


def ws_class():
    ranges = ["\t-\r", "\x1c-\x20", "\x85-\x85", "\xa0-\xa0", "\u1680-\u1680", "\u2000-\u200a", "\u2028-\u2029",
              "\u202f-\u202f", "\u205f-\u205f", "\u3000-\u3000"]
    rs = []
    for r in ranges:
        a, b = r[0], r[2]
        rs.append(z3.Range(z3.StringVal(z3_escape(a)), z3.StringVal(z3_escape(b))))
    return z3.Union(*rs)


def strip(E, z, name, chars=None):
    """s == left + r + right with left/right blank and r not starting/ending with a blank"""
    if chars == "":
        return SStr(z)
    ws = ws_class() if chars is None else z3.Union(*[z3.Re(z3.StringVal(z3_escape(c))) for c in chars]) \
        if len(chars) > 1 else z3.Re(z3.StringVal(z3_escape(chars)))
    key = (name, z.get_id(), chars)
    cache = E.notes.setdefault("_strip", {})
    if key in cache:
        return cache[key]
    r = z3.String(fresh_name("stripped"))
    anyc = z3.AllChar(z3.ReSort(z3.StringSort()))
    left = z3.StringVal("")
    right = z3.StringVal("")
    notws = z3.Intersect(anyc, z3.Complement(ws))
    if name in ("strip", "lstrip"):
        left = z3.String(fresh_name("lws"))
        E.assume(z3.InRe(left, z3.Star(ws)))
        E.assume(z3.Or(r == z3.StringVal(""), z3.InRe(z3.SubString(r, 0, 1), notws)))
    if name in ("strip", "rstrip"):
        right = z3.String(fresh_name("rws"))
        E.assume(z3.InRe(right, z3.Star(ws)))
        E.assume(z3.Or(r == z3.StringVal(""), z3.InRe(z3.SubString(r, z3.Length(r) - 1, 1), notws)))
    E.assume(z == z3.Concat(left, r, right))
    cache[key] = SStr(r)
    cache[key, "term"] = z           # keeps the term, and so its number, in use
    return cache[key]


def to_str(E, v):
    if is_concrete(v) and not isinstance(v, type):
        return str(v)
    if isinstance(v, SStr):
        return SStr(v.e)
    if isinstance(v, SInt):
        return SStr(STROF(v.e))
    if isinstance(v, Unk):
        E.maybe_raise("str()")
        return Unk("str")
    if isinstance(v, SVal):
        f = v.attrs.get("str")
        if f is not None:
            return f(E, v)
    if isinstance(v, Model) and hasattr(v, "str_"):
        return v.str_(E)
    if isinstance(v, Obj):
        if "str" in v.hooks:
            return v.hooks["str"](E, v)
        for n in ("__str__", "__repr__"):
            m = E.class_attr(v.cls, n)
            if isinstance(m, types.FunctionType):
                return E.call(BM(m, v), [])
    return fresh_str("str")


# ------------------------------------------------------------------ attributes of builtin values
def builtin_attr(E, o, name):
    if isinstance(o, SStr) or isinstance(o, str):
        if isinstance(o, SStr) and name in o.tags:
            return o.tags[name]
        if isinstance(o, SStr) and o.cls is not str:
            ca = E.class_attr(o.cls, name)
            if isinstance(ca, property):
                return E.call(ca.fget, [o])
            if isinstance(ca, types.FunctionType):
                return BM(ca, o)
        if isinstance(o, str) and type(o) is not str:
            try:
                return E.lift(getattr(o, name))
            except AttributeError:
                return NOMODEL
        if hasattr(str, name):
            return Builtin("str." + name, lambda E, a, k: str_method(E, o, name, a, k))
        return NOMODEL
    if isinstance(o, PyList):
        if hasattr(list, name):
            return Builtin("list." + name, lambda E, a, k: list_method(E, o, name, a, k))
        return NOMODEL
    if isinstance(o, PySet):
        if hasattr(set, name):
            return Builtin("set." + name, lambda E, a, k: set_method(E, o, name, a, k))
        return NOMODEL
    if isinstance(o, PyDict):
        if hasattr(dict, name):
            return Builtin("dict." + name, lambda E, a, k: dict_method(E, o, name, a, k))
        return NOMODEL
    if isinstance(o, tuple) and hasattr(tuple, name):
        return Builtin("tuple." + name, lambda E, a, k: from_real(E, getattr(tuple(o), name)(*a)))
    if isinstance(o, (BM, Clo)):
        if name == "__name__":
            return getattr(o.func, "__name__", "?") if isinstance(o, BM) else o.name
        if name == "__doc__":
            return getattr(o.func, "__doc__", None) if isinstance(o, BM) else None
        return NOMODEL
    if isinstance(o, (SInt, SBool, SFloat, Coro, Builtin)):
        return NOMODEL
    if is_concrete(o):
        try:
            v = getattr(o, name)
        except AttributeError:
            return NOMODEL
        if isinstance(v, types.MethodType) and v.__func__.__module__.split(".")[0] == "nessaid_cli":
            return BM(v.__func__, o)
        return E.lift(v)
    return NOMODEL


def super_attr(E, o, name):
    """super().x where the base is a builtin: str.__new__, object.__init__, str.__repr__"""
    if name == "__new__":
        return Builtin("__new__", lambda E, a, k: new_base(E, a, k))
    if name == "__init__":
        return Builtin("__init__", lambda E, a, k: None)
    if name == "__repr__":
        return Builtin("__repr__", lambda E, a, k: fresh_str("repr"))
    return NOMODEL


def new_base(E, a, k):
    cls = a[0]
    if issubclass(cls, str):
        v = a[1] if len(a) > 1 else ""
        if isinstance(v, Unk):
            return Unk("str")
        if isinstance(v, SVal):
            f = v.attrs.get("str")
            if f is None:
                raise Unsupported("str of atom")
            v = f(E, v)
        v = to_str(E, v) if not is_strlike(v) else v
        if isinstance(v, Model):
            return v.as_instance(E, cls)
        return SStr(zstr(v), {}, cls)
    return E.new(Obj(cls), site=cls.__name__)


def list_method(E, o, name, a, k):
    if any(isinstance(x, Unk) for x in a) and name in ("pop", "insert", "remove", "index", "extend", "count"):
        E.note_write(o)
        E.maybe_raise("list." + name)
        if name not in ("index", "count"):
            E.havoc_unknown(o, None)
        return Unk(name)
    if name == "append":
        E.note_write(o)
        o.items.append(a[0])
        return None
    if name == "extend":
        augassign(E, ast.Add(), o, a[0])
        return None
    if name == "pop":
        E.note_write(o)
        i = a[0] if a else -1
        if not isinstance(i, int):
            raise Unsupported("pop(symbolic)")
        try:
            return o.items.pop(i)
        except IndexError:
            E.raise_(IndexError, "pop from empty list")
    if name == "copy":
        return E.new(PyList(o.items), site="copy")
    if name == "insert" and isinstance(a[0], int):
        E.note_write(o)
        o.items.insert(a[0], a[1])
        return None
    if name == "clear":
        E.note_write(o)
        o.items.clear()
        return None
    if name == "reverse":
        E.note_write(o)
        o.items.reverse()
        return None
    if name == "remove":
        E.note_write(o)
        for i, y in enumerate(o.items):
            r = equal(E, y, a[0])
            if isinstance(r, Unk):
                E.havoc_unknown(o, None)
                E.maybe_raise("remove")
                return None
            if r is True or (r is not False and E.fork(r, "remove")):
                del o.items[i]
                return None
        E.raise_(ValueError, "list.remove(x): x not in list")
    if name == "index":
        for i, y in enumerate(o.items):
            r = equal(E, y, a[0])
            if r is True or (r is not False and E.fork(r, "index")):
                return i
        E.raise_(ValueError, "not in list")
    if name == "sort":
        E.note_write(o)
        if can_real(o) and not k.get("key"):
            try:
                o.items.sort(**{x: y for x, y in k.items()})
            except TypeError as e:
                E.raise_(TypeError, str(e))
            return None
        if len(o.items) < 2:
            return None
    if E.typestate:
        E.note_write(o)
        E.maybe_raise("list." + name)
        E.havoc_unknown(o, None)
        return Unk(name)
    raise Unsupported("list.%s" % name)


def set_method(E, o, name, a, k):
    if name == "add":
        set_add(E, o, a[0])
        return None
    if name == "copy":
        return E.new(PySet(o.items))
    if name == "union" or name == "update":
        items = []
        for x in a:
            it = concrete_items(E, x)
            if it is None:
                if E.typestate:
                    if name == "update":
                        E.note_write(o)
                        E.havoc_unknown(o, None)
                        return None
                    return E.new(UnkHeap("union"), site="union")
                raise Unsupported("set.union(symbolic)")
            items += it
        t = o if name == "update" else E.new(PySet(o.items), site="union")
        for x in items:
            set_add(E, t, x)
        return None if name == "update" else t
    if name in ("remove", "discard"):
        E.note_write(o)
        for i, y in enumerate(o.items):
            r = equal(E, y, a[0])
            if isinstance(r, Unk):
                E.havoc_unknown(o, None)
                return None
            if r is True or (r is not False and E.fork(r, "remove")):
                del o.items[i]
                return None
        if name == "remove":
            E.raise_(KeyError, a[0])
        return None
    if name == "clear":
        E.note_write(o)
        o.items.clear()
        return None
    if name == "pop":
        raise Unsupported("set.pop")
    if E.typestate:
        E.note_write(o)
        E.havoc_unknown(o, None)
        return Unk(name)
    raise Unsupported("set.%s" % name)


def dict_method(E, o, name, a, k):
    if name == "get":
        r = contains(E, o, a[0])
        if isinstance(r, Unk):
            return Unk("get")
        if isinstance(r, SBool):
            r = r.e
        if r is True or (r is not False and E.fork(r, "get")):
            return getitem(E, o, a[0])
        return a[1] if len(a) > 1 else None
    if name == "items":
        return E.new(PyList([(x, y) for x, y in o.pairs]))
    if name == "keys":
        return E.new(PyList([x for x, _ in o.pairs]))
    if name == "values":
        return E.new(PyList([y for _, y in o.pairs]))
    if name == "copy":
        return E.new(PyDict(o.pairs))
    if name == "clear":
        E.note_write(o)
        o.pairs.clear()
        return None
    if name == "setdefault":
        r = contains(E, o, a[0])
        if isinstance(r, SBool):
            r = r.e
        if r is True or (r is not False and not isinstance(r, Unk) and E.fork(r, "setdefault")):
            return getitem(E, o, a[0])
        setitem(E, o, a[0], a[1] if len(a) > 1 else None)
        return a[1] if len(a) > 1 else None
    if name == "update":
        if a:
            items = dict_items(E, a[0])
            if items is None:
                if E.typestate:
                    E.note_write(o)
                    E.havoc_unknown(o, None)
                    return None
                raise Unsupported("dict.update(symbolic)")
            for x, y in items:
                setitem(E, o, x, y)
        for x, y in k.items():
            setitem(E, o, x, y)
        return None
    if name == "pop":
        r = contains(E, o, a[0])
        if isinstance(r, SBool):
            r = r.e
        if r is True or (r is not False and not isinstance(r, Unk) and E.fork(r, "pop")):
            v = getitem(E, o, a[0])
            delitem(E, o, a[0])
            return v
        if len(a) > 1:
            return a[1]
        E.raise_(KeyError, a[0])
    if E.typestate:
        return Unk("dict." + name)
    raise Unsupported("dict.%s" % name)


# ------------------------------------------------------------------ constructors and builtin functions
def construct(E, cls, args, kwargs):
    if cls is int:
        if not args:
            return 0
        v = args[0]
        if is_intlike(v):
            return SInt(zint(v)) if isinstance(v, Sym) else int(v)
        if isinstance(v, SStr):
            if E.fork(INTOK(v.e), "int()"):
                return SInt(INTOF(v.e))
            E.raise_(ValueError, "invalid literal for int()")
        if isinstance(v, Unk):
            E.maybe_raise("int()")
            return Unk("int")
        if is_concrete(v):
            try:
                return int(v)
            except Exception as e:
                E.raise_(type(e), *e.args)
        if isinstance(v, SVal) and "int" in v.attrs:
            return v.attrs["int"](E, v)
        raise Unsupported("int(%r)" % (v,))
    if cls is float:
        v = args[0] if args else 0.0
        if isinstance(v, SFloat):
            return v
        if isinstance(v, SStr):
            if E.fork(FLOATOK(v.e), "float()"):
                return SFloat(FLOATOF(v.e))
            E.raise_(ValueError, "could not convert string to float")
        if is_concrete(v):
            try:
                return float(v)
            except Exception as e:
                E.raise_(type(e), *e.args)
        if isinstance(v, SVal) and "float" in v.attrs:
            return v.attrs["float"](E, v)
        if isinstance(v, Unk):
            E.maybe_raise("float()")
            return Unk("float")
        raise Unsupported("float(%r)" % (v,))
    if cls is bool:
        if not args:
            return False
        t = E.truth_expr(args[0])
        if t is None:
            return Unk("bool")
        return t if isinstance(t, bool) else SBool(t)
    if cls is str:
        if not args:
            return ""
        return to_str(E, args[0])
    if cls is list:
        if not args:
            return E.new(PyList([]), site="list()")
        if isinstance(args[0], Model) and hasattr(args[0], "to_list"):
            return args[0].to_list(E)
        items = concrete_items(E, args[0])
        if items is None:
            if E.typestate:
                return E.new(UnkHeap("list"), site="list()")
            raise Unsupported("list(%r)" % (args[0],))
        return E.new(PyList(items), site="list()")
    if cls is tuple:
        if not args:
            return ()
        if isinstance(args[0], Model) and hasattr(args[0], "to_tuple"):
            return args[0].to_tuple(E)
        items = concrete_items(E, args[0])
        if items is None:
            if E.typestate:
                return Unk("tuple")
            raise Unsupported("tuple(%r)" % (args[0],))
        return tuple(items)
    if cls is set or cls is frozenset:
        if not args:
            f = E.models.get("set()")
            if f is not None:
                return f(E, args, kwargs)
            return E.new(PySet([]), site="set()")
        if isinstance(args[0], Model) and hasattr(args[0], "to_set"):
            r = args[0].to_set(E)
            return E.new(r, site="set()@%d" % getattr(E.cur_stmt, "lineno", 0)) if isinstance(r, Heap) and r.epoch is None else r
        items = concrete_items(E, args[0])
        if items is None:
            if E.typestate:
                return E.new(UnkHeap("set"), site="set()")
            raise Unsupported("set(%r)" % (args[0],))
        s = E.new(PySet([]), site="set()")
        for x in items:
            set_add(E, s, x)
        return s
    if cls is dict:
        if not args:
            d = E.new(PyDict([]), site="dict()")
            for k, v in kwargs.items():
                setitem(E, d, k, v)
            return d
        if isinstance(args[0], PyDict):
            return E.new(PyDict(args[0].pairs), site="dict()")
        if E.typestate:
            return E.new(UnkHeap("dict"), site="dict()")
        raise Unsupported("dict(...)")
    if cls is type:
        v = args[0]
        if isinstance(v, Unk) or isinstance(v, UnkExc):
            return Unk("type")
        if isinstance(v, SVal):
            f = v.attrs.get("type") or v.attrs.get("__class__")
            if f is not None:
                return f(E, v)
            return Unk("type")
        return E.type_of(v)
    if cls is range:
        if all(isinstance(x, int) for x in args):
            return range(*args)
        f = E.models.get("range")
        if f is not None:
            return f(E, args, kwargs)
        if any(isinstance(x, Unk) for x in args):
            return UnkHeapNew(E, "range")
        r = SymRange(E, *([0] + list(args) if len(args) == 1 else list(args)))
        if isinstance(args[min(len(args), 2) - 1], LenInt):
            r.of = args[min(len(args), 2) - 1].of
        return r
    if cls is object:
        return E.new(Obj(object))
    if cls is reversed:
        items = concrete_items(E, args[0])
        if items is None:
            if isinstance(args[0], Model) and hasattr(args[0], "reversed_"):
                return args[0].reversed_(E)
            return UnkHeapNew(E, "reversed")
        return E.new(PyList(items[::-1]))
    if cls is enumerate:
        items = concrete_items(E, args[0])
        if items is None:
            if E.typestate:
                return UnkHeapNew(E, "enumerate")
            if isinstance(args[0], Model) and hasattr(args[0], "enumerate_"):
                return args[0].enumerate_(E, *args[1:])
            if isinstance(args[0], SStr):
                from . import coll
                st = args[1] if len(args) > 1 else kwargs.get("start", 0)
                return E.new(coll.Enumerated(E.new(coll.Chars(args[0])), st), site="enumerate")
            if isinstance(args[0], Model) and hasattr(args[0], "elem"):
                from . import coll
                return E.new(coll.Enumerated(args[0], args[1] if len(args) > 1 else kwargs.get("start", 0)), site="enumerate")
            raise Unsupported("enumerate(symbolic)")
        st = args[1] if len(args) > 1 else kwargs.get("start", 0)
        return E.new(PyList([(i + st, x) for i, x in enumerate(items)]))
    if cls is zip:
        its = [concrete_items(E, x) for x in args]
        if any(i is None for i in its):
            if E.typestate:
                return UnkHeapNew(E, "zip")
            from . import coll
            args = [E.new(coll.Chars(x)) if is_strlike(x) else x for x in args]
            if args and all(isinstance(x, Model) and hasattr(x, "elem") for x in args):
                return E.new(coll.Zipped(list(args)), site="zip")
            raise Unsupported("zip(symbolic)")
        return E.new(PyList(list(zip(*its))))
    if cls in (map, filter) and len(args) == 2 and isinstance(args[1], Model) and hasattr(args[1], "mapped"):
        return args[1].mapped(E, cls, args[0])
    if cls is map:
        items = concrete_items(E, args[1])
        if items is None:
            if E.typestate:
                return UnkHeapNew(E, "map")
            raise Unsupported("map(symbolic)")
        return E.new(PyList([E.call(args[0], [x]) for x in items]))
    if cls is filter:
        items = concrete_items(E, args[1])
        if items is None:
            raise Unsupported("filter(symbolic)")
        return E.new(PyList([x for x in items if E.truth(E.call(args[0], [x]) if args[0] is not None else x)]))
    if cls is super:
        return SuperProxy(args[0], args[1])
    return NOMODEL


def UnkHeapNew(E, label):
    return E.new(UnkHeap(label), site=label)


class SymRange(Model):
    """range(lo, hi) with symbolic bounds"""
    def __init__(self, E, lo, hi, step=1):
        super().__init__()
        if step != 1:
            raise Unsupported("range with step")
        self.lo, self.hi = zint(lo), zint(hi)
        self.of = None

    def length(self, E):
        return z3.If(self.hi > self.lo, self.hi - self.lo, z3.IntVal(0))

    def elem(self, E, i):
        return SInt(self.lo + i)

    def unknown_elem(self, E):
        i = z3.Int(fresh_name("k"))
        E.assume(z3.And(i >= self.lo, i < self.hi))
        return SInt(i)

    def loop_spec(self, E, s, env):
        return None

    def contains(self, E, x):
        return z3.And(zint(x) >= self.lo, zint(x) < self.hi)

    def truth(self, E):
        return self.hi > self.lo

    def isinstance_(self, E, cls):
        return issubclass(range, cls)

    def type_(self, E):
        return range

    def len_(self, E):
        return SInt(self.length(E))

    def items_(self, E):
        lo, hi = z3.simplify(self.lo), z3.simplify(self.hi)
        if z3.is_int_value(lo) and z3.is_int_value(hi):
            return list(range(lo.as_long(), hi.as_long()))
        return None

    def any_all(self, E, which, comp, g, env):
        raise Unsupported(which + " over symbolic range")

    def comprehension(self, E, e, g, env):
        from . import bag
        if E.dom is bag.DBAG:
            return bag.comprehension(E, self, e, g, env)
        raise Unsupported("comprehension over symbolic range")

    def to_set(self, E):
        l = self.to_list(E)
        return l.to_set(E) if isinstance(l, Model) and hasattr(l, "to_set") else E.call(set, [l])

    def to_list(self, E):
        from . import bag, vlist
        if E.dom is bag.DBAG:
            return bag.range_to_list(E, self)
        if E.list_model and E.vdoms and self.items_(E) is None:
            l = vlist.of_range(E, self)
            if l is not None:
                return l
        items = self.items_(E)
        if items is None:
            raise Unsupported("list of a symbolic range")
        return E.new(PyList(items), site="list()")

    def extend_into(self, E, lst):
        from . import bag
        items = self.items_(E)
        if items is not None:
            E.note_write(lst)
            lst.items.extend(items)
            return lst
        if E.dom is bag.DBAG:
            return bag.range_to_list(E, self).extend_into(E, lst)
        raise Unsupported("list += symbolic range")


def b_len(E, args, kw):
    v = args[0]
    if isinstance(v, (PyList, PySet)):
        return len(v.items)
    if isinstance(v, PyDict):
        return len(v.pairs)
    if isinstance(v, SStr):
        if "digits" in E.models and z3.is_app(v.e) and v.e.decl().eq(STROF):
            return SInt(E.models["digits"](E, v.e.arg(0)))
        return SInt(z3.Length(v.e))
    if isinstance(v, Unk):
        E.maybe_raise("len()")
        return Unk("len")
    if isinstance(v, Model):
        r = v.len_(E) if hasattr(v, "len_") else v.length(E)
        return r if isinstance(r, (int, SInt, Unk, Model)) else SInt(r)
    if isinstance(v, Obj):
        m = E.class_attr(v.cls, "__len__")
        if isinstance(m, types.FunctionType):
            return E.call(BM(m, v), [])
        E.raise_(TypeError, "object has no len()")
    if isinstance(v, SVal) and "len" in v.attrs:
        return v.attrs["len"](E, v)
    if is_concrete(v) or isinstance(v, tuple):
        try:
            return len(v)
        except TypeError:
            E.raise_(TypeError, "object has no len()")
    if isinstance(v, (SInt, SBool, SFloat)):
        E.raise_(TypeError, "object has no len()")
    raise Unsupported("len(%r)" % (v,))


def b_isinstance(E, args, kw):
    v, c = args
    if isinstance(c, Unk):
        return Unk("isinstance")
    return wrap_bool(E.isinstance_(v, c))


def b_minmax(which):
    def f(E, args, kw):
        items = list(args)
        if len(items) == 1:
            if isinstance(items[0], Model) and hasattr(items[0], which):
                return getattr(items[0], which)(E, kw)
            it = concrete_items(E, items[0])
            if it is None:
                if E.typestate:
                    E.maybe_raise(which)
                    return Unk(which)
                raise Unsupported("%s(symbolic)" % which)
            items = it
            if not items:
                if "default" in kw:
                    return kw["default"]
                E.raise_(ValueError, which + " of empty sequence")
        if any(isinstance(x, Unk) for x in items):
            E.maybe_raise(which)
            return Unk(which)
        if all(is_concrete(x) for x in items) and not kw.get("key"):
            try:
                return getattr(builtins, which)(items)
            except TypeError as e:
                E.raise_(TypeError, str(e))
        if all(is_intlike(x) for x in items):
            r = zint(items[0])
            for x in items[1:]:
                y = zint(x)
                r = z3.If(y < r, y, r) if which == "min" else z3.If(y > r, y, r)
            return SInt(r)
        if all(isinstance(x, (SFloat, float)) for x in items):
            # min(a, b): b if b < a else a;  max(a, b): b if b > a else a
            r = zfp(items[0])
            for x in items[1:]:
                y = zfp(x)
                r = z3.If(z3.fpLT(y, r) if which == "min" else z3.fpGT(y, r), y, r)
            return SFloat(r)
        raise Unsupported(which)
    return f


def b_hasattr(E, args, kw):
    o, name = args
    if isinstance(o, Unk):
        return Unk("hasattr")
    if isinstance(name, (SStr, SVal, Unk)):
        if isinstance(o, Obj) and "hasattr" in o.hooks:
            return o.hooks["hasattr"](E, o, name)
        return Unk("hasattr")
    if isinstance(o, Obj) and "hasattr" in o.hooks:
        return o.hooks["hasattr"](E, o, name)
    try:
        E.getattr(o, name)
        return True
    except PyExc as e:
        if isinstance(e.value, Obj) and issubclass(e.value.cls, AttributeError):
            return False
        raise


def b_getattr(E, args, kw):
    o, name = args[0], args[1]
    if isinstance(o, Obj) and "getattr" in o.hooks and not isinstance(name, str):
        try:
            return o.hooks["getattr"](E, o, name)
        except PyExc as e:
            if len(args) > 2 and isinstance(e.value, Obj) and issubclass(e.value.cls, AttributeError):
                return args[2]
            raise
    if not isinstance(name, str):
        if E.typestate:
            E.maybe_raise("getattr")
            return Unk("getattr")
        raise Unsupported("getattr with symbolic name")
    if len(args) > 2:
        try:
            return E.getattr(o, name)
        except PyExc as e:
            if isinstance(e.value, Obj) and issubclass(e.value.cls, AttributeError):
                return args[2]
            raise
    return E.getattr(o, name)


def b_setattr(E, args, kw):
    o, name, v = args
    if not isinstance(name, str):
        raise Unsupported("setattr with symbolic name")
    E.setattr(o, name, v)
    return None


def b_print(E, args, kw):
    for a in args:
        if isinstance(a, StarArgs):
            continue
        to_str(E, a)
    return None


def b_any(which):
    def f(E, args, kw):
        it = args[0]
        items = concrete_items(E, it)
        if items is None:
            if isinstance(it, Model) and hasattr(it, which):
                return getattr(it, which)(E)
            if E.typestate or isinstance(it, Unk):
                return Unk(which)
            raise Unsupported(which)
        return E.fold_bool(which, items)
    return f


def b_sorted(E, args, kw):
    items = concrete_items(E, args[0])
    if items is None:
        if E.typestate:
            E.maybe_raise("sorted")
            return UnkHeapNew(E, "sorted")
        if isinstance(args[0], Model) and hasattr(args[0], "sorted_"):
            return args[0].sorted_(E, kw)
        if isinstance(args[0], Model) and hasattr(args[0], "permuted"):
            return args[0].permuted(E)
        raise Unsupported("sorted(symbolic)")
    if len(items) < 2:
        return E.new(PyList(items))
    if all(is_concrete(x) for x in items) and "key" not in kw:
        return E.new(PyList(sorted(items, **kw)))
    if E.typestate:
        return UnkHeapNew(E, "sorted")
    if len(items) <= 4 and all(isinstance(x, SVal) for x in items) and "key" not in kw:
        import itertools        # some order: all are explored
        perms = list(itertools.permutations(items))
        return E.new(PyList(perms[E.choose(len(perms), "sorted")]))
    raise Unsupported("sorted(symbolic items)")


def b_callable(E, args, kw):
    v = args[0]
    if isinstance(v, Unk):
        return Unk("callable")
    return isinstance(v, (BM, Clo, Builtin, types.FunctionType, type))


def b_iscoroutine(E, args, kw):
    from .engine import Coro
    v = args[0]
    if isinstance(v, Unk):
        return Unk("iscoroutine")
    return isinstance(v, Coro)


def b_iscoroutinefunction(E, args, kw):
    v = args[0]
    if isinstance(v, Unk):
        return Unk("iscoroutinefunction")
    if isinstance(v, BM):
        return b_iscoroutinefunction(E, [v.func], kw)
    if isinstance(v, types.FunctionType):
        return asyncio.iscoroutinefunction(v)
    if isinstance(v, Clo):
        return isinstance(v.node, ast.AsyncFunctionDef)
    if isinstance(v, Builtin):
        return getattr(v, "is_async", False)
    if isinstance(v, Model) and hasattr(v, "is_async"):
        return v.is_async(E)
    return False


def b_issubclass(E, args, kw):
    a, b = args
    if isinstance(a, type):
        return issubclass(a, b)
    return Unk("issubclass")


def b_sum(E, args, kw):
    items = concrete_items(E, args[0])
    if items is None:
        raise Unsupported("sum(symbolic)")
    r = args[1] if len(args) > 1 else 0
    for x in items:
        r = binop(E, ast.Add(), r, x)
    return r


def b_abs(E, args, kw):
    v = args[0]
    if isinstance(v, SInt):
        return SInt(z3.If(v.e < 0, -v.e, v.e))
    return abs(v)


BUILTINS = {
    len: b_len, isinstance: b_isinstance, min: b_minmax("min"), max: b_minmax("max"), hasattr: b_hasattr,
    getattr: b_getattr, setattr: b_setattr, print: b_print, any: b_any("any"), all: b_any("all"),
    sorted: b_sorted, callable: b_callable, asyncio.iscoroutinefunction: b_iscoroutinefunction, asyncio.iscoroutine: b_iscoroutine,
    inspect.iscoroutine: b_iscoroutine, inspect.isawaitable: b_iscoroutine,
    issubclass: b_issubclass, sum: b_sum, abs: b_abs,
    repr: lambda E, a, k: to_str(E, a[0]), hash: lambda E, a, k: fresh_int("hash"), id: lambda E, a, k: fresh_int("id"),
}


def call_builtin(E, f, args, kwargs):
    try:
        m = BUILTINS.get(f)
    except TypeError:
        m = None
    name = getattr(f, "__name__", "?")
    custom = E.models.get("builtin:" + name)
    if custom is not None:
        return custom(E, args, kwargs)
    if m is not None:
        return m(E, args, kwargs)
    self_ = getattr(f, "__self__", None)
    if self_ is not None and not isinstance(self_, types.ModuleType):
        if isinstance(self_, str):
            return str_method(E, self_, name, args, kwargs)
        if isinstance(self_, (dict, list, set)):
            lifted = E.lift(self_)
            return E.call(E.getattr(lifted, name), args, kwargs)
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        oc = f.__objclass__
        if oc is str:
            return str_method(E, args[0], name, args[1:], kwargs)
        if name == "__init__":
            return None
        if oc is list:
            return list_method(E, args[0], name, args[1:], kwargs)
    key = "%s:%s" % (getattr(f, "__module__", "?"), getattr(f, "__qualname__", name))
    if key in E.contracts:
        E.contracts_used.add(key)
        return E.contracts[key](E, args, kwargs)
    r = external_model(E, key, f, args, kwargs)
    if r is not NOMODEL:
        return r
    E.externals_used.add(key)
    if E.typestate:
        E.maybe_raise(key)
        return Unk(key)
    raise Unsupported("builtin %s" % key)


def external_model(E, key, f, args, kwargs):
    m = E.models.get(key)
    if m is not None:
        return m(E, args, kwargs)
    try:
        m = BUILTINS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(E, args, kwargs)
    return NOMODEL


def enter_context(E, cm):
    if isinstance(cm, Model):
        return cm.call(E, "__enter__", [], {})
    if isinstance(cm, Unk):
        E.maybe_raise("__enter__")
        return Unk("with")
    if isinstance(cm, Obj):
        m = E.class_attr(cm.cls, "__enter__")
        if isinstance(m, types.FunctionType):
            return E.call(BM(m, cm), [])
        if "__enter__" in cm.hooks:
            return cm.hooks["__enter__"](E, cm)
    raise Unsupported("with %r" % (cm,))


def exit_context(E, cm):
    if isinstance(cm, Model):
        cm.call(E, "__exit__", [None, None, None], {})
    elif isinstance(cm, Obj):
        m = E.class_attr(cm.cls, "__exit__")
        if isinstance(m, types.FunctionType):
            E.call(BM(m, cm), [None, None, None])
