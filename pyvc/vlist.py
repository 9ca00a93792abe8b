"""Lists and sets of unbounded size as values: what a loop changes is forgotten as a whole and described by invariants.

A list is an array with an offset (what was taken from its front), its length, the set of all elements it ever held and
the first position of each.  Two names for one list across a loop head are noticed: the list is then read-only."""
import ast

import z3

from .values import *
from . import builtins_model as B
from .coll import Dom, Enumerated

I = z3.IntSort()


def simp(t):
    return z3.simplify(t)


def dom_of(E, v):
    for d in E.vdoms:
        e = d.unwrap(v)
        if e is not None:
            return d, e
    raise Unsupported("a list element %r" % (v,))


class VL(Model):
    value_semantics = True

    def __init__(self, E, dom=None, arr=None, n=0, off=0, mem=None, pos=None, name="list"):
        super().__init__()
        self.name, self.frozen, self.cls = name, False, list
        self.dom = dom
        self.arr, self.n, self.off, self.mem, self.pos = arr, n, off, mem, pos
        self.n = z3.IntVal(n) if isinstance(n, int) else n
        self.off = z3.IntVal(off) if isinstance(off, int) else off
        self.items = []           # elements, while they are known one by one

    @staticmethod
    def of(E, dom, arr, n, mem=None, off=0, name="list"):
        """the list with these elements; facts about its members are assumed"""
        r = VL(E, dom, arr, n, off, mem, None, name)
        r.items = None
        r.describe(E)
        return r

    @staticmethod
    def display(E, items):
        if items and all(isinstance(x, type) for x in items):      # classes to compare with are no data
            return PyList(list(items))
        r = VL(E)
        for x in items:
            r.append(E, x, note=False)
        return r

    def describe(self, E):
        s = self.dom.sort
        if self.mem is None:
            self.mem = z3.Const(fresh_name("in_" + self.name), z3.ArraySort(s, z3.BoolSort()))
        self.pos = z3.Const(fresh_name("pos_" + self.name), z3.ArraySort(s, I))
        arr, mem, pos, end = self.arr, self.mem, self.pos, self.off + self.n
        E.assume(z3.And(self.n >= 0, self.off >= 0))
        E.scheme(s, lambda y: z3.Implies(z3.Select(mem, y), z3.And(
            z3.Select(pos, y) >= 0, z3.Select(pos, y) < end, z3.Select(arr, z3.Select(pos, y)) == y)))

    # --- value semantics
    def kind_key(self):
        return self.dom.name if self.dom else None

    def fresh_like(self, E):
        if self.dom is None:
            return VL(E)
        r = VL(E, self.dom, None, z3.Int(fresh_name("len_" + self.name)), z3.Int(fresh_name("off_" + self.name)),
               name=self.name)
        r.items, r.cls = None, self.cls
        r.arr = z3.Const(fresh_name(self.name), z3.ArraySort(I, self.dom.sort))
        r.describe(E)
        return r

    def havoc(self, E):
        key = getattr(self, "site", None)
        dom = self.dom or E.site_doms.get(key)
        if dom is None:
            return
        r = VL(E, dom, name=self.name).fresh_like(E)
        self.dom, self.arr, self.n, self.off, self.mem, self.pos, self.items = dom, r.arr, r.n, r.off, r.mem, r.pos, None

    def write(self, E):
        if self.frozen:
            raise Unsupported("a list with two names is changed")
        E.note_write(self)

    # --- reading
    def length(self, E):
        return self.n

    def len_(self, E):
        return SInt(self.n)

    def truth(self, E):
        if self.arr is not None and self.items is None:
            e = self.at(z3.IntVal(0))
            E.assume(z3.Implies(self.n > 0, z3.And(z3.Select(self.mem, e), z3.Select(self.pos, e) <= self.off)))
            E.point(e)
        return simp(self.n > 0)

    def at(self, k):
        return simp(z3.Select(self.arr, simp(self.off + k)))

    def elem(self, E, i):
        k = simp(self.off + i)
        E.point(k)
        e = simp(z3.Select(self.arr, k))
        E.assume(z3.Implies(z3.And(k >= self.off, k < self.off + self.n),
                            z3.And(z3.Select(self.mem, e), z3.Select(self.pos, e) <= k)))
        E.point(e)
        return self.dom.wrap(E, e)

    def has(self, e):
        return False if self.dom is None else simp(z3.Select(self.mem, e))

    def getitem(self, E, i):
        if isinstance(i, slice) and i == slice(None, None, None):
            return self.call(E, "copy", [], {})
        if isinstance(i, slice) and i.step is None and i.start == 1 and i.stop is None and self.dom is not None:
            if not E.fork(self.n > 0, "not empty"):
                return self.call(E, "copy", [], {})
            r = self.call(E, "copy", [], {})
            r.off, r.n, r.items = simp(r.off + 1), simp(r.n - 1), None
            return r
        if not isinstance(i, (int, SInt)) or isinstance(i, bool):
            raise Unsupported("slice of a list")
        k = B.zint(i)
        if not E.fork(z3.And(k < self.n, k >= -self.n), "index in range"):
            E.raise_(IndexError, "index out of range")
        if self.items is not None and isinstance(i, int):
            return self.items[i]
        neg = z3.is_true(simp(k < 0)) or not z3.is_true(simp(k >= 0)) and E.fork(k < 0, "negative index")
        return self.elem(E, simp(k + self.n) if neg else k)

    def contains(self, E, x):
        if self.dom is None:
            return False
        e = self.dom.unwrap(x)
        if e is None:
            return False
        r = z3.Bool(fresh_name("in"))
        E.point(e)
        E.assume(z3.Implies(r, self.has(e)))
        E.assume(z3.Implies(z3.And(self.has(e), z3.Select(self.pos, e) >= self.off), r))
        return r

    def isinstance_(self, E, cls):
        return issubclass(self.cls, cls)

    def type_(self, E):
        return self.cls

    def to_tuple(self, E):
        r = self.call(E, "copy", [], {})
        r.cls, r.frozen = tuple, True
        return r

    def eq(self, E, o):
        if isinstance(o, VL):
            if o.items == []:
                return simp(self.n == 0)
            if self.items == []:
                return simp(o.n == 0)
            if self is o:
                return True
        elif not isinstance(o, Model):
            return False
        raise Unsupported("comparison of lists")

    # --- writing
    def adopt(self, E, d):
        self.dom = d
        self.arr = z3.Const("no_list_of_" + d.name, z3.ArraySort(I, d.sort))
        self.mem = z3.K(d.sort, z3.BoolVal(False))
        self.pos = z3.Const("no_pos_of_" + d.name, z3.ArraySort(d.sort, I))

    def append(self, E, x, note=True):
        if self.dom is None:
            d, e = dom_of(E, x)
            self.adopt(E, d)
            E.site_doms[getattr(self, "site", None)] = d
        else:
            e = self.dom.unwrap(x)
            if e is None:
                raise Unsupported("append of %r to a list of %s" % (x, self.dom.name))
        if note:
            self.write(E)
        E.point(e)
        end = simp(self.off + self.n)
        self.pos = z3.If(self.has(e), self.pos, z3.Store(self.pos, e, end))
        self.mem = z3.Store(self.mem, e, z3.BoolVal(True))
        self.arr = z3.Store(self.arr, end, e)
        self.n = simp(self.n + 1)
        if self.items is not None:
            self.items.append(x)

    def extend(self, E, b):
        if isinstance(b, VL):
            if b.items is not None:
                for x in list(b.items):
                    self.append(E, x)
                return
            if self.dom is None:
                self.dom = b.dom
                E.site_doms[getattr(self, "site", None)] = b.dom
            self.write(E)
            d, s = self.dom, self.dom.sort
            if d.sort != b.dom.sort:
                raise Unsupported("lists of different elements joined")
            if self.arr is None:
                self.arr, self.n, self.off, self.mem, self.pos, self.items = b.arr, b.n, b.off, b.mem, b.pos, None
                return
            old = (self.arr, self.n, self.off, self.mem)
            self.n = simp(self.n + b.n)
            self.items = None
            self.arr = z3.Const(fresh_name("joined"), self.arr.sort())
            m1, m2, o1, e1 = self.mem, b.mem, self.off, simp(self.off + old[1])
            self.mem = z3.Const(fresh_name("in_joined"), m1.sort())
            mem, arr, a1, a2, o2 = self.mem, self.arr, old[0], b.arr, b.off
            p2 = b.pos
            E.scheme(s, lambda y: z3.Select(mem, y) == z3.Or(z3.Select(m1, y), z3.And(
                z3.Select(m2, y), z3.Select(p2, y) >= o2)))
            E.scheme(I, lambda k: z3.And(z3.Implies(z3.And(k >= o1, k < e1), z3.Select(arr, k) == z3.Select(a1, k)),
                                         z3.Implies(k >= e1, z3.Select(arr, k) == z3.Select(a2, k - e1 + o2))))
            self.describe(E)
            return
        items = B.concrete_items(E, b)
        if items is None:
            raise Unsupported("extend by %r" % (b,))
        for x in items:
            self.append(E, x)

    def iop(self, E, op, b):
        if isinstance(op, ast.Add) and self.cls is tuple:
            return self.binop(E, op, b, False)
        if isinstance(op, ast.Add):
            self.extend(E, b)
            return self
        return B.NOMODEL

    def binop(self, E, op, b, swapped):
        if isinstance(op, ast.Add) and (isinstance(b, VL) and b.cls is self.cls or self.cls is tuple and isinstance(b, tuple)):
            x, y = (b, self) if swapped else (self, b)
            r = x.call(E, "copy", [], {}) if isinstance(x, VL) else VL.display(E, x)
            r.cls, r.frozen = list, False
            r.extend(E, y)
            if self.cls is tuple:
                r.cls, r.frozen = tuple, True
            return r
        return B.NOMODEL

    def call(self, E, name, a, k):
        if name == "append" and len(a) == 1:
            return self.append(E, a[0])
        if name == "extend" and len(a) == 1:
            return self.extend(E, a[0])
        if name == "copy":
            r = VL(E, self.dom, self.arr, self.n, self.off, self.mem, self.pos, self.name)
            r.items = list(self.items) if self.items is not None else None
            r.cls = self.cls
            r.frozen = self.cls is tuple
            return E.new(r, site="copy")
        if name == "pop":
            i = a[0] if a else -1
            if not E.fork(self.n > 0, "pop"):
                E.raise_(IndexError, "pop from empty list")
            if not isinstance(i, int) or i not in (0, -1):
                raise Unsupported("pop inside a list")
            x = self.items[i] if self.items is not None else self.elem(E, z3.IntVal(0) if i == 0 else simp(self.n - 1))
            self.write(E)
            if self.items is not None:
                self.items.pop(i)
            self.n = simp(self.n - 1)
            if i == 0:
                self.off = simp(self.off + 1)
            else:                     # what it held before, perhaps without the one taken
                e, m = self.dom.unwrap(x), self.mem
                self.mem = None
                self.describe(E)
                mem = self.mem
                E.scheme(self.dom.sort, lambda y: z3.And(
                    z3.Implies(z3.Select(mem, y), z3.Select(m, y)),
                    z3.Implies(z3.Select(m, y), z3.Or(z3.Select(mem, y), y == e))))
            return x
        if name == "clear":
            self.write(E)
            self.off, self.n, self.items = simp(self.off + self.n), z3.IntVal(0), []
            return None
        if name == "reverse" and self.dom is not None:
            self.write(E)
            r = self.reversed_(E)
            self.arr, self.off, self.mem, self.pos = r.arr, r.off, r.mem, r.pos
            if self.items is not None:
                self.items.reverse()
            return None
        raise Unsupported("list .%s" % name)

    def reversed_(self, E):
        """the same elements the other way round"""
        if self.dom is None:
            return E.new(VL(E), site="reversed")
        r = VL(E, self.dom, z3.Const(fresh_name("reversed"), self.arr.sort()), self.n, 0, None, None, self.name)
        r.items = list(reversed(self.items)) if self.items is not None else None
        r.describe(E)
        a, b, lo, n, m, s, p = r.arr, self.arr, self.off, self.n, r.mem, self.mem, self.pos
        E.forall(I, lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, k) == z3.Select(b, E.point(simp(lo + n - 1 - k)))))
        E.scheme(self.dom.sort, lambda y: z3.And(z3.Implies(z3.Select(m, y), z3.Select(s, y)), z3.Implies(
            z3.And(z3.Select(s, y), z3.Select(p, y) >= lo), z3.Select(m, y))))
        return E.new(r, site="reversed")

    def getattr(self, E, name):
        if not hasattr(self.cls, name):
            E.raise_(AttributeError, name)
        return Builtin(name, lambda E2, a, k: self.call(E2, name, a, k))

    def loop_spec(self, E, s, env):
        return None

    def to_list(self, E):
        r = self.call(E, "copy", [], {})
        r.cls, r.frozen = list, False
        return r

    def to_set(self, E):
        if self.items is not None:
            r = E.new(VS(E), site="set()@%d" % getattr(E.cur_stmt, "lineno", 0))
            for x in self.items:
                r.call(E, "add", [x], {})
            return r
        if z3.is_true(simp(self.off == 0)) or E.entails(self.off == 0):
            return VS(E, self.dom, self.mem)
        r = VS(E, self.dom).fresh_like(E)                   # something was taken from its front: what is left
        arr, lo, hi, m = self.arr, self.off, simp(self.off + self.n), r.mem
        where = z3.Const(fresh_name("where"), z3.ArraySort(self.dom.sort, I))
        E.scheme(self.dom.sort, lambda y: z3.Implies(z3.Select(m, y), z3.And(
            z3.Select(where, y) >= lo, z3.Select(where, y) < hi, z3.Select(arr, z3.Select(where, y)) == y)))
        E.scheme(I, lambda k: z3.Implies(z3.And(k >= lo, k < hi), z3.Select(m, z3.Select(arr, k))))
        return r

    def enumerate_(self, E, start=0):
        return E.new(Enumerated(self, start), site="enumerate")


class VS(Model):
    """a set"""
    value_semantics = True

    def __init__(self, E, dom=None, mem=None, name="set"):
        super().__init__()
        self.dom, self.mem, self.name, self.frozen = dom, mem, name, False

    def kind_key(self):
        return self.dom.name if self.dom else None

    def fresh_like(self, E):
        if self.dom is None:
            return VS(E)
        return VS(E, self.dom, z3.Const(fresh_name(self.name), z3.ArraySort(self.dom.sort, z3.BoolSort())), self.name)

    def havoc(self, E):
        dom = self.dom or E.site_doms.get(getattr(self, "site", None))
        if dom is not None:
            self.dom, self.mem = dom, VS(E, dom).fresh_like(E).mem

    def write(self, E):
        if self.frozen:
            raise Unsupported("a set with two names is changed")
        E.note_write(self)

    def adopt(self, E, d):
        self.dom, self.mem = d, z3.K(d.sort, z3.BoolVal(False))

    def become(self, E, d, sure=True):
        """what it holds; without elements that may be of several kinds, its site decides"""
        if self.dom is None:
            site = getattr(self, "site", None)
            self.dom = d if sure else E.site_doms.get(site, d)
            if sure:
                E.site_doms[site] = d
        if self.mem is None:
            self.mem = z3.K(d.sort, z3.BoolVal(False))

    def has(self, e):
        return z3.BoolVal(False) if self.mem is None else simp(z3.Select(self.mem, e))

    def contains(self, E, x):
        if self.mem is None:
            return False
        e = self.dom.unwrap(x)
        return False if e is None else self.has(E.point(e))

    def truth(self, E):
        if self.mem is None:
            return False
        r = z3.Bool(fresh_name("nonempty"))
        w = z3.Const(fresh_name("w"), self.dom.sort)
        h = self.has
        E.assume(z3.Implies(r, h(E.point(w))))
        E.scheme(self.dom.sort, lambda p: z3.Or(r, z3.Not(h(p))))
        return r

    def joined(self, E, bs):
        """the union with other sets"""
        r = VS(E, self.dom, self.mem, self.name)
        for b in bs:
            if isinstance(b, VL):
                b = b.to_set(E)
            if not isinstance(b, VS):
                items = B.concrete_items(E, b)
                if items is None:
                    raise Unsupported("union with %r" % (b,))
                b = VL.display(E, items).to_set(E)
            if b.mem is None:
                continue
            if r.mem is None:
                r.dom, r.mem = b.dom, b.mem
                continue
            if r.mem.sort() != b.mem.sort():
                raise Unsupported("union of different sets")
            m = z3.Const(fresh_name("union"), r.mem.sort())
            E.scheme(r.dom.sort, lambda y, m=m, m1=r.mem, m2=b.mem: z3.Select(m, y) == z3.Or(
                z3.Select(m1, y), z3.Select(m2, y)))
            r.mem = m
        return r

    def call(self, E, name, a, k):
        if name in ("add", "discard") and len(a) == 1:
            if self.dom is None:
                self.become(E, dom_of(E, a[0])[0], not E.vague(a[0]))
            self.become(E, self.dom)
            e = self.dom.unwrap(a[0])
            if e is None:
                raise Unsupported("set .%s(%r)" % (name, a[0]))
            self.write(E)
            self.mem = z3.Store(self.mem, E.point(e), z3.BoolVal(name == "add"))
            return None
        if name == "remove" and len(a) == 1:
            if not E.fork(self.contains(E, a[0]), "in the set"):
                E.raise_(KeyError, "remove")
            return self.call(E, "discard", a, k)
        if name == "copy":
            return E.new(VS(E, self.dom, self.mem, self.name), site="copy")
        if name in ("union", "update"):
            r = self.joined(E, a)
            if name == "union":
                return E.new(r, site="union")
            self.write(E)
            if r.dom is not None:
                self.become(E, r.dom)
            self.mem = r.mem
            return None
        raise Unsupported("set .%s" % name)

    def binop(self, E, op, b, swapped):
        if isinstance(op, ast.BitOr) and isinstance(b, VS):
            return E.new(self.joined(E, [b]), site="union")
        return B.NOMODEL

    def iop(self, E, op, b):
        if isinstance(op, ast.BitOr):
            self.call(E, "update", [b], {})
            return self
        return B.NOMODEL

    def getattr(self, E, name):
        if not hasattr(set, name):
            E.raise_(AttributeError, name)
        return Builtin(name, lambda E2, a, k: self.call(E2, name, a, k))

    def isinstance_(self, E, cls):
        return issubclass(set, cls)

    def type_(self, E):
        return set

    def loop_spec(self, E, s, env):
        return None

    def to_set(self, E):
        return VS(E, self.dom, self.mem, self.name)

    def to_list(self, E):
        """its elements in some order"""
        return E.new(VL(E), site="list(set)") if self.mem is None else self.listed(E).call(E, "copy", [], {})

    def len_(self, E):
        return 0 if self.mem is None else SInt(self.listed(E).n)

    def listed(self, E):
        """the list a loop over the set goes through: each element once, in an order that stays while the set stays"""
        got = getattr(self, "_listed", None)
        if got is None or not got[0].eq(self.mem):
            r = VL(E, self.dom, z3.Const(fresh_name("order"), z3.ArraySort(I, self.dom.sort)),
                   z3.Int(fresh_name("size")), 0, self.mem, None)
            r.items = None
            r.describe(E)
            got = self._listed = (self.mem, E.new(r, site="order of a set"))
        return got[1]

    def length(self, E):
        return z3.IntVal(0) if self.mem is None else self.listed(E).n

    def elem(self, E, i):
        return self.listed(E).elem(E, i)

    def enumerate_(self, E, start=0):
        return self.to_list(E).enumerate_(E, start)


def of_range(E, r):
    """list(range(..)): its elements in order, and what it holds"""
    d = next((d for d in E.vdoms if d.sort == I), None)
    if d is None:
        return None
    lo, n = r.lo, r.length(E)
    arr = z3.Const(fresh_name("range"), z3.ArraySort(I, I))
    mem = z3.Const(fresh_name("in_range"), z3.ArraySort(I, z3.BoolSort()))
    E.scheme(I, lambda k: z3.And(z3.Implies(z3.And(k >= 0, k < n), z3.Select(arr, k) == lo + k),
                                 z3.Select(mem, k) == z3.And(k >= lo, k < lo + n)))
    return E.new(VL.of(E, d, arr, n, mem), site="list(range)")
