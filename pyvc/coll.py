"""Abstract sequences, sets and dicts of unbounded size over a z3 element sort."""
import ast

import z3

from .values import *
from .engine import LoopSpec, NOVALUE, Env
from . import builtins_model as B


class Dom:
    """how elements of a z3 sort appear as program values"""
    def __init__(self, name, sort, wrap, unwrap, pointwise=False):
        self.pointwise = pointwise      # universal facts are instantiated at the points mentioned
        self.name, self.sort, self.wrap, self.unwrap = name, sort, wrap, unwrap


def _unwrap_int(v):
    if isinstance(v, (int, SInt, SBool)) and not isinstance(v, bool):
        return B.zint(v)
    return None


def _unwrap_str(v):
    if B.is_strlike(v):
        return B.zstr(v)
    return None


DV = Dom("V", V, lambda e: SVal(e), lambda v: v.e if isinstance(v, SVal) and v.e.sort() == V else None)
DINT = Dom("int", z3.IntSort(), lambda e: SInt(e), _unwrap_int)
DSTR = Dom("str", z3.StringSort(), lambda e: SStr(e), _unwrap_str)


class SeqV(Model):
    """list or tuple: `arr` maps indices to elements, `n` its length"""
    copy_of = None
    def __init__(self, E, dom, arr=None, n=None, kind=list, name="seq", root=None, off=None):
        super().__init__()
        self.dom = dom
        self.kind = kind
        self.name = name
        self.arr = arr if arr is not None else z3.Const(fresh_name(name), z3.ArraySort(z3.IntSort(), dom.sort))
        if n is None:
            n = z3.Int(fresh_name("len_" + name))
            E.assume(n >= 0)
        self.n = z3.IntVal(n) if isinstance(n, int) else n
        self.root = root        # (root sequence, offset): folds of the root unfold on access
        self.folds = []         # (f, step): f(0) fixed by the creator, f(k+1) == step(f(k), elem k)
        self.on_elem = []
        self.first = None
        self.distinct = False   # no two elements are equal
        self.members = None     # the set of its elements, where the creator gives one
        self.copy_of = None

    # --- ghost folds
    def fold(self, E, name, init, step, sort=None):
        f = z3.Function(fresh_name(name), z3.IntSort(), sort if sort is not None else init.sort())
        E.assume(f(z3.IntVal(0)) == init)
        self.folds.append((f, step))
        return f

    def touch(self, E, k):
        for f, step in self.folds:
            E.assume(z3.Implies(k >= 0, f(k + 1) == step(f(k), z3.Select(self.arr, k))))
        for h in self.on_elem:
            h(E, k)
        if self.root is not None:
            self.root[0].touch(E, z3.simplify(k + self.root[1]))

    # --- reading
    def length(self, E):
        return self.n

    def len_(self, E):
        if self.dom.pointwise and self.members is not None:
            self.touch(E, z3.IntVal(0))
            self.touch(E, z3.IntVal(1))
        return LenInt(self.n, self)

    def at(self, k):
        return z3.Select(self.arr, k)

    def elem(self, E, i):
        self.touch(E, i)
        return self.dom.wrap(self.at(i))

    def unknown_elem(self, E):
        i = z3.Int(fresh_name("k"))
        E.assume(z3.And(i >= 0, i < self.n))
        return self.elem(E, i)

    def truth(self, E):
        return self.n > 0

    def isinstance_(self, E, cls):
        return issubclass(self.kind, cls)

    def type_(self, E):
        return self.kind

    def eq(self, E, other):
        if isinstance(other, SeqV):
            if other.kind is not self.kind:
                return False
            r = z3.Bool(fresh_name("eq"))
            E.assume(z3.Implies(r, self.n == other.n))
            if self.arr.eq(other.arr):
                E.assume(z3.Implies(self.n == other.n, r))
            return r
        if isinstance(other, (PyList, tuple)):
            items = other.items if isinstance(other, PyList) else list(other)
            if (self.kind is list) != isinstance(other, PyList):
                return False
            es = [self.dom.unwrap(x) for x in items]
            if any(e is None for e in es):
                return False
            return z3.And(self.n == len(items), *[self.at(k) == e for k, e in enumerate(es)])
        return False

    def getitem(self, E, i):
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                raise Unsupported("slice with step")
            lo, hi = B.norm_slice(self.n, i.start, i.stop)
            lo, hi = z3.simplify(lo), z3.simplify(hi)
            j = z3.Int(fresh_name("j"))
            m = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            s = SeqV(E, self.dom, z3.Lambda([j], z3.Select(self.arr, j + lo)), m, self.kind, self.name + "[:]",
                     root=(self, lo))
            return E.new(s, site="slice")
        if isinstance(i, (int, SInt)) and not isinstance(i, bool):
            k = B.zint(i)
            if E.fork(z3.And(k < self.n, k >= -self.n), "index in range"):
                k = z3.simplify(z3.If(k < 0, k + self.n, k))
                return self.elem(E, k)
            E.raise_(IndexError, "index out of range")
        E.raise_(TypeError, "indices must be integers")

    def contains(self, E, x):
        e = self.dom.unwrap(x)
        if e is None:
            return False
        if self.members is not None:
            return z3.Select(self.members, e)
        k = z3.Int(fresh_name("pos"))
        r = z3.Bool(fresh_name("in"))
        E.assume(z3.Implies(r, z3.And(0 <= k, k < self.n, self.at(k) == e)))
        j = z3.Int(fresh_name("q"))
        E.assume(z3.Implies(z3.Not(r), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), self.at(j) != e))))
        self.touch(E, k)
        return r

    def unpack(self, E, n):
        if E.fork(self.n == n, "unpack"):
            return [self.elem(E, z3.IntVal(k)) for k in range(n)]
        E.raise_(ValueError, "unpack")

    # --- writing
    def havoc(self, E):
        self.arr = z3.Const(fresh_name(self.name), self.arr.sort())
        self.n = z3.Int(fresh_name("len_" + self.name))
        self.root = None
        self.folds = []
        self.on_elem = []
        self.distinct = False
        E.assume(self.n >= 0)
        if self.members is not None and self.dom.pointwise:
            describe(E, self)
        else:
            self.members = None

    def _write(self, E):
        if self.kind is tuple:
            raise Unsupported("tuple changed")
        E.note_write(self)
        self.root = None
        self.folds = []
        self.members = None
        self.distinct = False

    def without(self, E, pos):
        """takes out the element at a position; what is known of the members stays known if they are distinct"""
        old = SeqV(E, self.dom, self.arr, self.n, self.kind, self.name, self.root)
        old.folds, old.on_elem = self.folds, self.on_elem
        mem, distinct, arr = self.members, self.distinct, self.arr
        x = z3.simplify(z3.Select(arr, pos))
        self._write(E)
        j = z3.Int(fresh_name("j"))
        self.arr = z3.Lambda([j], z3.If(j < pos, z3.Select(arr, j), z3.Select(arr, j + 1)))
        self.n = z3.simplify(self.n - 1)
        self.on_elem = [lambda E2, k: (old.touch(E2, k), old.touch(E2, z3.simplify(k + 1)))]
        if mem is not None and distinct and self.dom.pointwise:
            describe(E, self, z3.Store(mem, E.point(x), z3.BoolVal(False)))
            self.distinct = True

    def append(self, E, x):
        e = self.dom.unwrap(x)
        if e is None:
            raise Unsupported("append of %r to abstract list of %s" % (x, self.dom.name))
        mem = self.members
        self._write(E)
        self.arr = z3.Store(self.arr, self.n, e)
        self.n = z3.simplify(self.n + 1)
        if mem is not None and self.dom.pointwise:
            describe(E, self, z3.Store(mem, E.point(e), z3.BoolVal(True)))

    def extend(self, E, other):
        v = view_seq(E, other, self.dom)
        if v is None:
            raise Unsupported("extend by %r" % (other,))
        arr2, n2 = v
        self._write(E)
        j = z3.Int(fresh_name("j"))
        self.arr = z3.Lambda([j], z3.If(j < self.n, z3.Select(self.arr, j), z3.Select(arr2, j - self.n)))
        self.n = z3.simplify(self.n + n2)

    def extend_into(self, E, lst):
        promote_list(E, lst, self.dom)
        lst.extend(E, self)
        return lst

    def iop(self, E, op, b):
        if isinstance(op, ast.Add) and self.kind is list:
            self.extend(E, b)
            return self
        return B.NOMODEL

    def binop(self, E, op, b, swapped):
        if isinstance(op, ast.Add):
            x, y = (b, self) if swapped else (self, b)
            vx, vy = view_seq(E, x, self.dom), view_seq(E, y, self.dom)
            if vx is None or vy is None or type_kind(x) is not type_kind(y):
                E.raise_(TypeError, "can only concatenate")
            j = z3.Int(fresh_name("j"))
            s = SeqV(E, self.dom, z3.Lambda([j], z3.If(j < vx[1], z3.Select(vx[0], j), z3.Select(vy[0], j - vx[1]))),
                     z3.simplify(vx[1] + vy[1]), self.kind, self.name + "+")
            return E.new(s, site="seq+")
        return B.NOMODEL

    def setitem(self, E, i, v):
        e = self.dom.unwrap(v)
        if e is None or not isinstance(i, (int, SInt)):
            raise Unsupported("item assignment on abstract list")
        k = B.zint(i)
        if not E.fork(z3.And(k < self.n, k >= -self.n), "index in range"):
            E.raise_(IndexError, "assignment index out of range")
        self._write(E)
        self.arr = z3.Store(self.arr, z3.simplify(z3.If(k < 0, k + self.n, k)), e)

    def call(self, E, name, a, k):
        if name == "append" and len(a) == 1:
            return self.append(E, a[0])
        if name == "extend" and len(a) == 1:
            return self.extend(E, a[0])
        if name == "copy":
            s = SeqV(E, self.dom, self.arr, self.n, self.kind, self.name)
            s.root, s.folds, s.on_elem = self.root, list(self.folds), list(self.on_elem)
            s.members, s.first, s.distinct = self.members, self.first, self.distinct
            return E.new(s, site="copy")
        if name == "remove" and len(a) == 1:
            e = self.dom.unwrap(a[0])
            if e is not None:
                if not E.fork(self.contains(E, a[0]), "remove"):
                    E.raise_(ValueError, "list.remove(x): x not in list")
                pos, q = z3.Int(fresh_name("pos")), z3.Int(fresh_name("q"))
                self.touch(E, pos)
                E.assume(z3.And(0 <= pos, pos < self.n, self.at(pos) == e))
                if not self.distinct:
                    E.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < pos), self.at(q) != e)))
                return self.without(E, pos)
        if name == "pop" and self.distinct and self.members is not None and a and a[0] == 0 and isinstance(a[0], int):
            if not E.fork(self.n > 0, "pop"):
                E.raise_(IndexError, "pop from empty list")
            x = self.elem(E, z3.IntVal(0))
            x.e = z3.simplify(x.e)
            self.without(E, z3.IntVal(0))
            return x
        if name == "pop":
            self.members = None
            i = a[0] if a else -1
            if not E.fork(self.n > 0, "pop"):
                E.raise_(IndexError, "pop from empty list")
            if i == -1 and isinstance(i, int):
                x = self.elem(E, z3.simplify(self.n - 1))
                self._write(E)
                self.n = z3.simplify(self.n - 1)
                return x
            if i == 0 and isinstance(i, int):
                x = self.elem(E, z3.IntVal(0))
                root, folds, hooks, arr = self.root, self.folds, self.on_elem, self.arr
                old = SeqV(E, self.dom, arr, self.n, self.kind, self.name, root)
                old.folds, old.on_elem = folds, hooks
                E.note_write(self)
                j = z3.Int(fresh_name("j"))
                self.arr = z3.Lambda([j], z3.Select(arr, j + 1))
                self.n = z3.simplify(self.n - 1)
                self.root, self.folds, self.on_elem = (old, z3.IntVal(1)), [], []
                return x
        if name == "clear":
            self._write(E)
            self.n = z3.IntVal(0)
            return None
        if name == "insert" and len(a) == 2 and a[0] == 0 and isinstance(a[0], int):
            e = self.dom.unwrap(a[1])
            if e is not None:
                self._write(E)
                j = z3.Int(fresh_name("j"))
                arr = self.arr
                self.arr = z3.Lambda([j], z3.If(j == 0, e, z3.Select(arr, j - 1)))
                self.n = z3.simplify(self.n + 1)
                return None
        raise Unsupported("abstract list .%s" % name)

    def getattr(self, E, name):
        if not hasattr(self.kind, name):
            E.raise_(AttributeError, name)
        return Builtin(name, lambda E2, a, k: self.call(E2, name, a, k))

    def loop_spec(self, E, s, env):
        return None

    # --- quantified tests and comprehensions
    def pred(self, E, comp, g, env):
        """the element test as a z3 term over a fresh index"""
        k = z3.Int(fresh_name("k"))
        cenv = Env({}, env, env.globals, env.owner, env.fn_name, env.cls_cell)
        cenv.node = env.node
        E.push_pure()
        try:
            E.assign(g.target, self.dom.wrap(self.at(k)), cenv)
            ifs = [E.pure_truth(E.eval(c, cenv)) for c in g.ifs]
            elt = E.pure_truth(E.eval(comp.elt, cenv)) if comp is not None else True
        finally:
            E.pop_pure()
        return k, ifs, elt

    def any_all(self, E, which, comp, g, env):
        k, ifs, elt = self.pred(E, comp, g, env)
        guard = z3.And(0 <= k, k < self.n, *ifs)
        r = z3.Bool(fresh_name(which))
        w = z3.Int(fresh_name("w"))
        body = z3.And(guard, elt) if which == "any" else z3.And(guard, z3.Not(elt))
        body = body if z3.is_expr(body) else z3.BoolVal(body)
        at_w = z3.substitute(body, (k, w))
        hit = r if which == "any" else z3.Not(r)
        if self.dom.pointwise:
            E.assume(z3.Implies(hit, at_w))
            self.on_elem.append(lambda E2, q: E2.assume(z3.Or(hit, z3.Not(z3.substitute(body, (k, q))))))
            self.touch(E, w)
            return SBool(r)
        none = z3.ForAll([k], z3.Not(body))
        E.assume(z3.If(hit, at_w, none))
        self.touch(E, w)
        return SBool(r)


    def to_list(self, E, kind=list):
        s = SeqV(E, self.dom, self.arr, self.n, kind, self.name)
        s.members = self.members
        s.copy_of = (self, self.arr, self.n)
        s.on_elem = [lambda E2, k, o=self, arr=self.arr, n=self.n:
                     o.touch(E2, k) if o.arr.eq(arr) and o.n.eq(n) else None]
        return E.new(s, site=kind.__name__ + "()")

    def enumerate_(self, E, start=0):
        return E.new(Enumerated(self, start), site="enumerate")

    def reversed_(self, E):
        j = z3.Int(fresh_name("j"))
        return E.new(SeqV(E, self.dom, z3.Lambda([j], z3.Select(self.arr, self.n - 1 - j)), self.n, self.kind,
                          self.name + "~"), site="reversed")

    def to_tuple(self, E):
        return self.to_list(E, tuple)

    def to_set(self, E):
        m = view_set(E, self, self.dom)
        return E.new(SetV(E, self.dom, m, "set"), site="set()")

    def permuted(self, E):
        """the same elements in some order"""
        return self.to_set(E).to_list(E) if self.distinct else self.loosely(E)

    def loosely(self, E):
        r = SeqV(E, self.dom, None, self.n, list, "sorted")
        describe(E, r, view_set(E, self, self.dom))
        return E.new(r, site="sorted")

    def mapped(self, E, cls, f):
        fn = ast.Name("f", ast.Load())
        x = ast.Name("x", ast.Load())
        call = ast.Call(fn, [x], [])
        g = ast.comprehension(ast.Name("x", ast.Store()), self, [call] if cls is filter and f is not None else
                              [x] if cls is filter else [], 0)
        e = ast.ListComp(call if cls is map else x, [g])
        for n in (fn, x, call, e):
            n.lineno = 0
        from .engine import Env
        fr = Env({"f": f}, None, {}, None, cls.__name__, None)
        fr.node = None
        return self.comprehension(E, e, g, fr)

    # --- comprehensions: the elements kept by a test (sets of them), or their images
    def comprehension(self, E, e, g, env):
        k, ifs, elt = self.comp_parts(E, e, g, env)
        d = E.cdom if getattr(E, "cdom", None) is not None else self.dom
        img = d.unwrap(elt)
        if img is None:
            raise Unsupported("comprehension element %r" % (elt,))
        x = self.at(k)
        if not g.ifs:
            j = z3.Int(fresh_name("j"))
            if isinstance(e, ast.SetComp):
                raise Unsupported("set comprehension of images")
            r = SeqV(E, d, z3.Lambda([j], z3.substitute(img, (k, j))), self.n, list, "comp")
            if img.eq(x):
                r.members = self.members
            hook = getattr(E, "comp_hook", None)
            if hook is not None:
                hook(E, self, r)
            return E.new(r, site="comp@%d" % e.lineno)
        if not img.eq(x):
            raise Unsupported("filtered comprehension of images")
        y = z3.Const(fresh_name("y"), self.dom.sort)
        cond = z3.And(*[c if z3.is_expr(c) else z3.BoolVal(c) for c in ifs])
        probe = z3.substitute(cond, (x, y))
        if any(v.eq(k) for v in free_consts(probe)):
            raise Unsupported("test depends on the position")
        src = view_set(E, self, self.dom)
        mem = z3.Lambda([y], z3.And(z3.Select(src, y), probe))
        if isinstance(e, ast.SetComp):
            return E.new(SetV(E, self.dom, mem, "setcomp"), site="comp@%d" % e.lineno)
        r = SeqV(E, self.dom, None, None, list, "comp")
        E.assume(r.n <= self.n)
        r.members = mem
        at = z3.Function(fresh_name("at"), self.dom.sort, z3.IntSort())
        if self.dom.pointwise:
            arr, n = r.arr, r.n
            r.on_elem.append(lambda E2, k: E2.assume(z3.Implies(z3.And(0 <= k, k < n), z3.simplify(
                z3.Select(mem, E2.point(z3.Select(arr, k)))))))
            E.forall(self.dom.sort, lambda p: z3.Implies(z3.simplify(z3.Select(mem, p)), z3.And(
                0 <= at(p), at(p) < n, z3.Select(arr, at(p)) == p)))
            return E.new(r, site="comp@%d" % e.lineno)
        q = z3.Int(fresh_name("q"))
        E.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < r.n), z3.Select(mem, r.at(q)))))
        at = z3.Function(fresh_name("at"), self.dom.sort, z3.IntSort())
        E.assume(z3.ForAll([y], z3.Implies(z3.Select(mem, y), z3.And(0 <= at(y), at(y) < r.n, r.at(at(y)) == y)),
                           patterns=[at(y)]))
        return E.new(r, site="comp@%d" % e.lineno)

    def comp_parts(self, E, e, g, env):
        from .engine import Env
        k = z3.Int(fresh_name("k"))
        cenv = Env({}, env, env.globals, env.owner, env.fn_name, env.cls_cell)
        cenv.node = env.node
        E.push_pure()
        try:
            E.assign(g.target, self.dom.wrap(self.at(k)), cenv)
            ifs = [E.pure_truth(E.eval(c, cenv)) for c in g.ifs]
            elt = E.eval(e.elt, cenv)
        finally:
            E.pop_pure()
        return k, ifs, elt


class Enumerated(Model):
    """enumerate(seq)"""
    def __init__(self, seq, start):
        super().__init__()
        self.over, self.start = seq, start

    def length(self, E):
        return self.over.length(E)

    def elem(self, E, i):
        return (SInt(z3.simplify(B.zint(self.start) + i)), self.over.elem(E, i))

    def loop_spec(self, E, s, env):
        return self.over.loop_spec(E, s, env)

    def havoc(self, E):
        raise Unsupported("enumerate changed by a loop")

    def isinstance_(self, E, cls):
        return issubclass(enumerate, cls)


class Zipped(Model):
    """zip(seqs), for sequences of the same number of elements or any"""
    def __init__(self, seqs):
        super().__init__()
        self.over, self.seqs = seqs[0], seqs

    def length(self, E):
        def zint(x):
            return x if z3.is_expr(x) else B.zint(x)
        n = zint(self.seqs[0].length(E))
        for s in self.seqs[1:]:
            m = zint(s.length(E))
            n = z3.If(m < n, m, n)
        return z3.simplify(n)

    def elem(self, E, i):
        return tuple(s.elem(E, i) for s in self.seqs)

    def loop_spec(self, E, s, env):
        return self.over.loop_spec(E, s, env)

    def havoc(self, E):
        raise Unsupported("zip changed by a loop")

    def isinstance_(self, E, cls):
        return issubclass(zip, cls)


class Chars(Model):
    """the characters of a str"""
    def __init__(self, s):
        super().__init__()
        self.s = s

    def length(self, E):
        return z3.Length(B.zstr(self.s))

    def elem(self, E, i):
        return SStr(z3.SubString(B.zstr(self.s), i, z3.IntVal(1)))

    def loop_spec(self, E, s, env):
        return None

    def havoc(self, E):
        raise Unsupported("a text changed by a loop")


def underlying(it):
    """the sequence a loop goes through: itself, or what is enumerated, zipped, indexed or was copied"""
    while True:
        if isinstance(it, (Enumerated, Zipped)):
            it = it.over
        elif isinstance(it, B.SymRange) and it.of is not None and it.of.n.eq(it.hi) and it.lo.eq(z3.IntVal(0)):
            it = it.of
        elif isinstance(it, SeqV) and it.copy_of is not None and it.copy_of[0].arr.eq(it.arr) and it.copy_of[0].n.eq(it.n):
            it = it.copy_of[0]
        else:
            return it


def free_consts(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                out.append(x)
            todo.extend(x.children())
    return out


def type_kind(x):
    if isinstance(x, SeqV):
        return x.kind
    return tuple if isinstance(x, tuple) else list


def view_seq(E, o, dom):
    """(array, length) of a list or tuple, or None"""
    if isinstance(o, SeqV):
        return (o.arr, o.n) if o.dom.sort == dom.sort else None
    if isinstance(o, (PyList, tuple)):
        items = o.items if isinstance(o, PyList) else list(o)
        es = [dom.unwrap(x) for x in items]
        if any(e is None for e in es):
            return None
        arr = z3.Const("empty_" + dom.name, z3.ArraySort(z3.IntSort(), dom.sort))
        for k, e in enumerate(es):
            arr = z3.Store(arr, k, e)
        return arr, z3.IntVal(len(es))
    return None


def promote_list(E, o, dom):
    v = view_seq(E, o, dom)
    items = list(o.items)
    if v is None:
        raise Unsupported("list of mixed elements in an abstract operation")
    o.__class__ = SeqV
    o.dom, o.kind, o.name, o.root, o.folds, o.on_elem, o.members, o.first, o.distinct = dom, list, "list", None, [], [], None, None, False
    o.arr, o.n = v
    if dom.pointwise:
        m = view_set(E, PyList(items), dom)
        if m is not None:
            describe(E, o, m)


class SetV(Model):
    def __init__(self, E, dom, mem=None, name="set"):
        super().__init__()
        self.dom, self.name = dom, name
        self.mem = mem if mem is not None else z3.Const(fresh_name(name), z3.ArraySort(dom.sort, z3.BoolSort()))

    def has(self, e):
        return z3.Select(self.mem, e)

    def contains(self, E, x):
        e = self.dom.unwrap(x)
        return False if e is None else self.has(e)

    def comprehension(self, E, e, g, env):
        return self.to_list(E).comprehension(E, e, g, env)

    def call(self, E, name, a, k):
        if name in ("add", "discard", "remove"):
            e = self.dom.unwrap(a[0])
            if e is None:
                raise Unsupported("abstract set .%s(%r)" % (name, a[0]))
            if name == "remove" and not E.fork(self.has(e), "remove"):
                E.raise_(KeyError, "remove")
            E.note_write(self)
            self.mem = z3.Store(self.mem, e, z3.BoolVal(name == "add"))
            return None
        if name == "copy":
            return E.new(SetV(E, self.dom, self.mem, self.name), site="copy")
        if name in ("update", "union"):
            v = view_set(E, a[0], self.dom)
            if v is None:
                raise Unsupported("set update by %r" % (a[0],))
            x = z3.Const(fresh_name("x"), self.dom.sort)
            new = z3.Lambda([x], z3.Or(z3.Select(self.mem, x), z3.Select(v, x)))
            if name == "union":
                return E.new(SetV(E, self.dom, new, self.name), site="union")
            E.note_write(self)
            self.mem = new
            return None
        if name == "clear":
            E.note_write(self)
            self.mem = z3.K(self.dom.sort, z3.BoolVal(False))
            return None
        raise Unsupported("abstract set .%s" % name)

    def getattr(self, E, name):
        return Builtin(name, lambda E2, a, k: self.call(E2, name, a, k))

    def havoc(self, E):
        self.mem = z3.Const(fresh_name(self.name), self.mem.sort())

    def isinstance_(self, E, cls):
        return issubclass(set, cls)

    def type_(self, E):
        return set

    def truth(self, E):
        x = z3.Const(fresh_name("x"), self.dom.sort)
        w = z3.Const(fresh_name("w"), self.dom.sort)
        r = z3.Bool(fresh_name("nonempty"))
        if self.dom.pointwise:
            mem = self.mem
            h = lambda e: z3.simplify(z3.Select(mem, e))
            E.forall(self.dom.sort, lambda p: z3.Or(r, z3.Not(h(p))))
            E.assume(z3.Implies(r, h(E.point(w))))
            return r
        E.assume(z3.If(r, self.has(w), z3.ForAll([x], z3.Not(self.has(x)))))
        return r

    # --- cardinality as far as 0, 1 and more go
    def card(self, E):
        got = getattr(self, "_card", None)
        if got is not None and got[0].eq(self.mem):
            return got
        c = z3.Int(fresh_name("card"))
        w1, w2, x = [z3.Const(fresh_name(n), self.dom.sort) for n in ("w1", "w2", "x")]
        mem = self.mem
        h = lambda e: z3.simplify(z3.Select(mem, e))
        E.assume(c >= 0)
        self._card = (self.mem, c, w1, w2)
        if self.dom.pointwise:
            E.forall(self.dom.sort, lambda p: z3.And(z3.Implies(c == 0, z3.Not(h(p))),
                                                     z3.Implies(z3.And(c == 1, h(p)), p == w1)))
            E.assume(z3.Implies(c >= 1, h(E.point(w1))))
            E.assume(z3.Implies(c >= 2, z3.And(h(E.point(w2)), w1 != w2)))
            return self._card
        E.assume(z3.Implies(c == 0, z3.ForAll([x], z3.Not(h(x)))))
        E.assume(z3.Implies(c >= 1, h(w1)))
        E.assume(z3.Implies(c == 1, z3.ForAll([x], z3.Implies(h(x), x == w1))))
        E.assume(z3.Implies(c >= 2, z3.And(h(w2), w1 != w2)))
        self._card = (self.mem, c, w1, w2)
        return self._card

    def len_(self, E):
        return SInt(self.card(E)[1])

    def length(self, E):
        return self.card(E)[1]

    def to_list(self, E):
        _, c, w1, w2 = self.card(E)
        r = SeqV(E, self.dom, None, c, list, "list")
        r.members = self.mem
        if self.dom.pointwise:
            mem, n, arr = self.mem, c, r.arr
            r.on_elem.append(lambda E2, k: E2.assume(z3.Implies(z3.And(0 <= k, k < n), z3.simplify(
                z3.Select(mem, E2.point(z3.Select(arr, k)))))))
            at = z3.Function(fresh_name("at"), self.dom.sort, z3.IntSort())
            E.forall(self.dom.sort, lambda p: z3.Implies(z3.simplify(z3.Select(mem, p)), z3.And(
                0 <= at(p), at(p) < n, z3.Select(arr, at(p)) == p)))
            return E.new(r, site="list(set)")
        q = z3.Int(fresh_name("q"))
        E.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < c), self.has(r.at(q))), patterns=[r.at(q)]))
        return E.new(r, site="list(set)")

    permuted = to_list

    def eq(self, E, other):
        raise Unsupported("abstract set equality")

    def loop_spec(self, E, s, env):
        return None

    def binop(self, E, op, b, swapped):
        return B.NOMODEL


def describe(E, s, mem=None):
    """gives a list of any length its set of members, each with its first position"""
    sort = s.dom.sort
    if mem is None:
        mem = z3.Const(fresh_name("members"), z3.ArraySort(sort, z3.BoolSort()))
    first = z3.Function(fresh_name("first"), sort, z3.IntSort())
    arr, n = s.arr, s.n
    h = lambda y: z3.simplify(z3.Select(mem, y))
    at = lambda k: z3.simplify(z3.Select(arr, k))
    s.members, s.first = mem, first
    s.on_elem.append(lambda E2, k: E2.assume(z3.Implies(z3.And(0 <= k, k < n), z3.And(
        h(E2.point(at(k))), first(at(k)) <= k))))
    E.forall(sort, lambda y: z3.Implies(h(y), z3.And(0 <= first(y), first(y) < n, at(first(y)) == y)))


class Distinct:
    """a loop invariant: no two elements of a list are equal"""
    def __init__(self, seq):
        self.seq = seq

    def goal(self, E):
        j, k = z3.Int(fresh_name("j")), z3.Int(fresh_name("k"))
        s = self.seq
        if isinstance(s, SeqV):
            s.touch(E, j)
            s.touch(E, k)
            return z3.Implies(z3.And(0 <= j, j < k, k < s.n), s.at(j) != s.at(k))
        es = [E.dom.unwrap(x) for x in s.items]
        return z3.BoolVal(False) if any(e is None for e in es) else z3.Distinct(*es) if len(es) > 1 else z3.BoolVal(True)

    def assume(self, E):
        s = self.seq
        if isinstance(s, SeqV):
            arr, n, seen = s.arr, s.n, []

            def hook(E2, k):
                for j in seen:
                    E2.assume(z3.Implies(z3.And(0 <= j, j < n, 0 <= k, k < n, j != k),
                                         z3.Select(arr, j) != z3.Select(arr, k)))
                seen.append(k)
            s.on_elem.append(hook)
            s.distinct = True


def view_set(E, o, dom):
    if isinstance(o, SetV):
        return o.mem if o.dom.sort == dom.sort else None
    if isinstance(o, (PySet, PyList, tuple)):
        items = list(o) if isinstance(o, tuple) else o.items
        m = z3.K(dom.sort, z3.BoolVal(False))
        for x in items:
            e = dom.unwrap(x)
            if e is None:
                return None
            m = z3.Store(m, e, z3.BoolVal(True))
        return m
    if isinstance(o, SeqV) and o.dom.sort == dom.sort and o.members is not None:
        return o.members
    if isinstance(o, SeqV) and o.dom.sort == dom.sort:
        x = z3.Const(fresh_name("x"), dom.sort)
        k = z3.Int(fresh_name("k"))
        return z3.Lambda([x], z3.Exists([k], z3.And(0 <= k, k < o.n, o.at(k) == x)))
    return None


class DictV(Model):
    def __init__(self, E, kdom, vdom, dom=None, val=None, name="dict"):
        super().__init__()
        self.kdom, self.vdom, self.name = kdom, vdom, name
        self.dom = dom if dom is not None else z3.Const(fresh_name(name + "_dom"),
                                                        z3.ArraySort(kdom.sort, z3.BoolSort()))
        self.val = val if val is not None else z3.Const(fresh_name(name + "_val"),
                                                        z3.ArraySort(kdom.sort, vdom.sort))

    def contains(self, E, x):
        e = self.kdom.unwrap(x)
        return False if e is None else z3.Select(self.dom, e)

    def getitem(self, E, x):
        e = self.kdom.unwrap(x)
        if e is not None and E.fork(z3.Select(self.dom, e), "key present"):
            return self.vdom.wrap(z3.Select(self.val, e))
        E.raise_(KeyError, "key")

    def setitem(self, E, x, v):
        e, w = self.kdom.unwrap(x), self.vdom.unwrap(v)
        if e is None or w is None:
            raise Unsupported("abstract dict store of %r: %r" % (x, v))
        E.note_write(self)
        self.dom = z3.Store(self.dom, e, z3.BoolVal(True))
        self.val = z3.Store(self.val, e, w)

    def delitem(self, E, x):
        e = self.kdom.unwrap(x)
        if e is None or not E.fork(z3.Select(self.dom, e), "key present"):
            E.raise_(KeyError, "key")
        E.note_write(self)
        self.dom = z3.Store(self.dom, e, z3.BoolVal(False))

    def call(self, E, name, a, k):
        if name == "get":
            e = self.kdom.unwrap(a[0])
            if e is not None and E.fork(z3.Select(self.dom, e), "key present"):
                return self.vdom.wrap(z3.Select(self.val, e))
            return a[1] if len(a) > 1 else None
        if name == "update" and len(a) == 1 and isinstance(a[0], PyDict) and not k:
            for x, v in a[0].pairs:
                self.setitem(E, x, v)
            return None
        if name == "update" and not a and k:
            for x, v in k.items():
                self.setitem(E, x, v)
            return None
        if name == "setdefault":
            if E.fork(z3.Select(self.dom, self.kdom.unwrap(a[0])), "key present"):
                return self.getitem(E, a[0])
            self.setitem(E, a[0], a[1] if len(a) > 1 else None)
            return a[1] if len(a) > 1 else None
        if name == "pop":
            e = self.kdom.unwrap(a[0])
            if e is not None and E.fork(z3.Select(self.dom, e), "key present"):
                v = self.vdom.wrap(z3.Select(self.val, e))
                self.delitem(E, a[0])
                return v
            if len(a) > 1:
                return a[1]
            E.raise_(KeyError, "pop")
        if name == "clear":
            E.note_write(self)
            self.dom = z3.K(self.kdom.sort, z3.BoolVal(False))
            return None
        if name == "copy":
            return E.new(DictV(E, self.kdom, self.vdom, self.dom, self.val, self.name), site="copy")
        if name == "keys":
            return self
        raise Unsupported("abstract dict .%s" % name)

    def getattr(self, E, name):
        if not hasattr(dict, name):
            E.raise_(AttributeError, name)
        return Builtin(name, lambda E2, a, k: self.call(E2, name, a, k))

    def havoc(self, E):
        self.dom = z3.Const(fresh_name(self.name), self.dom.sort())
        self.val = z3.Const(fresh_name(self.name), self.val.sort())

    def isinstance_(self, E, cls):
        return issubclass(dict, cls)

    def type_(self, E):
        return dict

    def truth(self, E):
        x = z3.Const(fresh_name("x"), self.kdom.sort)
        w = z3.Const(fresh_name("w"), self.kdom.sort)
        r = z3.Bool(fresh_name("nonempty"))
        E.assume(z3.If(r, z3.Select(self.dom, w), z3.ForAll([x], z3.Not(z3.Select(self.dom, x)))))
        return r

    def eq(self, E, other):
        raise Unsupported("abstract dict equality")

    def len_(self, E):
        r = fresh_int("len_" + self.name)
        E.assume(r.e >= 0)
        return r

    def loop_spec(self, E, s, env):
        return None

    def binop(self, E, op, b, swapped):
        return B.NOMODEL


def view_dict(E, o, kdom, vdom):
    if isinstance(o, DictV):
        return o.dom, o.val
    if isinstance(o, PyDict):
        d = z3.K(kdom.sort, z3.BoolVal(False))
        v = z3.Const("empty_dict", z3.ArraySort(kdom.sort, vdom.sort))
        for x, y in o.pairs:
            e, w = kdom.unwrap(x), vdom.unwrap(y)
            if e is None or w is None:
                return None
            d, v = z3.Store(d, e, z3.BoolVal(True)), z3.Store(v, e, w)
        return d, v
    return None


def promote(E, o, dom, vdom=None):
    """turn a concrete container the loop changes into an abstract one with the same contents"""
    if isinstance(o, PyList) and hasattr(dom, "promote"):
        return dom.promote(E, o)
    if isinstance(o, PyList):
        promote_list(E, o, dom)
    elif isinstance(o, PySet):
        m = view_set(E, o, dom)
        if m is None:
            raise Unsupported("set of mixed elements in an abstract operation")
        o.__class__ = SetV
        o.dom, o.name, o.mem = dom, "set", m
    elif isinstance(o, PyDict):
        v = view_dict(E, o, dom, vdom or dom)
        if v is None:
            raise Unsupported("dict of mixed elements in an abstract operation")
        o.__class__ = DictV
        o.kdom, o.vdom, o.name = dom, vdom or dom, "dict"
        o.dom, o.val = v
