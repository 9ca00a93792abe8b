"""Lists of integers up to order: the length and how often an arbitrary integer (or its decimal notation) occurs."""
import z3

from .values import *
from . import builtins_model as B
from . import coll


class BagDom(coll.Dom):
    def __init__(self):
        super().__init__("bag", z3.IntSort(), lambda e: SInt(e), coll._unwrap_int)

    def promote(self, E, o):
        v = view(E, o)
        if v is None:
            raise Unsupported("list of other than integers")
        o.__class__ = Bag
        o.n, o.mult, o.text = v


DBAG = BagDom()


def view(E, o):
    """(length, multiplicity, elements are strings)"""
    if isinstance(o, Bag):
        return o.n, o.mult, o.text
    if isinstance(o, B.SymRange):
        lo, hi = o.lo, o.hi
        return o.length(E), (lambda x: z3.If(z3.And(lo <= x, x < hi), z3.IntVal(1), z3.IntVal(0))), False
    if isinstance(o, range):
        return view(E, B.SymRange(E, o.start, o.stop)) if o.step == 1 else None
    if isinstance(o, (PyList, tuple, list)):
        items = o.items if isinstance(o, PyList) else list(o)
        if all(B.is_intlike(x) for x in items):
            es = [B.zint(x) for x in items]
            return z3.IntVal(len(es)), (lambda x: z3.Sum([z3.IntVal(0)] + [z3.If(x == e, z3.IntVal(1), z3.IntVal(0))
                                                                          for e in es])), False
        ts = []
        for x in items:
            t = int_of_text(x)
            if t is None:
                return None
            ts.append(t)
        return z3.IntVal(len(ts)), (lambda x: z3.Sum([z3.IntVal(0)] + [z3.If(x == e, z3.IntVal(1), z3.IntVal(0))
                                                                      for e in ts])), True
    return None


def int_of_text(x):
    """the integer a string is the decimal notation of, if it is one by construction"""
    if isinstance(x, SStr) and z3.is_app(x.e) and x.e.decl().eq(B.STROF):
        return x.e.arg(0)
    if isinstance(x, str):
        try:
            n = int(x)
        except ValueError:
            return None
        return z3.IntVal(n) if str(n) == x else None
    return None


class Bag(Model):
    def __init__(self, n, mult, text=False):
        super().__init__()
        self.n, self.mult, self.text = n, mult, text

    def len_(self, E):
        return SInt(self.n)

    def length(self, E):
        return self.n

    def truth(self, E):
        return self.n > 0

    def isinstance_(self, E, cls):
        return issubclass(list, cls)

    def type_(self, E):
        return list

    def loop_spec(self, E, s, env):
        return None

    def havoc(self, E):
        f = z3.Function(fresh_name("mult"), z3.IntSort(), z3.IntSort())
        self.n = z3.Int(fresh_name("len"))
        self.mult = lambda x: f(x)
        E.assume(self.n >= 0)

    def extend(self, E, o):
        v = view(E, o)
        if v is None:
            raise Unsupported("list += %r" % (o,))
        E.note_write(self)
        n, m, text = v
        if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0:
            return
        old = self.mult
        self.n = self.n + n
        self.mult = lambda x: old(x) + m(x)
        self.text = text

    def iop(self, E, op, b):
        import ast
        if isinstance(op, ast.Add):
            self.extend(E, b)
            return self
        return B.NOMODEL

    def binop(self, E, op, b, swapped):
        import ast
        if isinstance(op, ast.Add):
            r = E.new(Bag(self.n, self.mult, self.text))
            r.extend(E, b)
            return r
        return B.NOMODEL

    def call(self, E, name, a, k):
        if name == "append":
            self.extend(E, [a[0]])
            return None
        if name == "extend":
            self.extend(E, a[0])
            return None
        if name == "copy":
            return E.new(Bag(self.n, self.mult, self.text))
        if name == "clear":
            E.note_write(self)
            self.n, self.mult = z3.IntVal(0), (lambda x: z3.IntVal(0))
            return None
        raise Unsupported("list.%s" % name)

    def getattr(self, E, name):
        if not hasattr(list, name):
            E.raise_(AttributeError, name)
        return Builtin(name, lambda E2, a, k: self.call(E2, name, a, k))

    def to_list(self, E):
        return E.new(Bag(self.n, self.mult, self.text))

    def extend_into(self, E, lst):
        E.note_write(lst)
        DBAG.promote(E, lst)
        lst.extend(E, self)
        return lst

    def comprehension(self, E, e, g, env):
        return comprehension(E, self, e, g, env)

    def unknown_elem(self, E):
        raise Unsupported("element of a list")


def comprehension(E, src, e, g, env):
    from .engine import Env
    n, m, text = view(E, src)
    if g.ifs or text:
        raise Unsupported("comprehension with a test")
    c = z3.Int(fresh_name("c"))
    cenv = Env({}, env, env.globals, env.owner, env.fn_name, env.cls_cell)
    cenv.node = env.node
    E.push_pure()
    try:
        E.assign(g.target, SInt(c), cenv)
        r = E.eval(e.elt, cenv)
    finally:
        E.pop_pure()
    totext = isinstance(r, SStr)
    t = int_of_text(r) if totext else (B.zint(r) if B.is_intlike(r) else None)
    if t is None:
        raise Unsupported("comprehension element %r" % (r,))
    if z3.is_true(z3.simplify(t == c)):
        mm = m
    elif z3.is_true(z3.simplify(t == -c)):
        mm = lambda x: m(-x)
    else:
        raise Unsupported("comprehension element %s" % t)
    return E.new(Bag(n, mm, totext))


def range_to_list(E, r):
    n, m, _ = view(E, r)
    return E.new(Bag(n, m, False))
