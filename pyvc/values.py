"""Symbolic values and heap objects of the verifier."""
import itertools
import z3

V = z3.DeclareSort("V")            # abstract Python values (atoms compared by ==)

_fresh = itertools.count()


def fresh_name(p):
    return "%s!%d" % (p, next(_fresh))


def reset_names():
    global _fresh
    _fresh = itertools.count()


class Sym:
    """base of scalar symbolic values; `e` is the z3 term"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.e)

    def __bool__(self):
        raise AssertionError("python truth test on symbolic value %r" % (self,))

    __hash__ = object.__hash__


class SInt(Sym):
    __slots__ = ()


class LenInt(SInt):
    """len(of)"""
    __slots__ = ("of",)

    def __init__(self, e, of):
        super().__init__(e)
        self.of = of


class SBool(Sym):
    __slots__ = ()


class SStr(Sym):
    """a str; `tags` are the attributes of a str subclass instance (ExtendedString)"""
    __slots__ = ("tags", "cls")

    def __init__(self, e, tags=None, cls=str):
        self.e = e
        self.tags = tags or {}
        self.cls = cls


class SFloat(Sym):
    __slots__ = ()


class SVal(Sym):
    """an abstract atom of sort V: immutable, == is identity of atoms"""
    __slots__ = ("attrs", "methods", "truthy", "kinds")

    def __init__(self, e, attrs=None, methods=None, truthy=None, kinds=None):
        self.e = e
        self.attrs = attrs or {}       # name -> function(engine, self) -> value
        self.methods = methods or {}   # name -> function(engine, self, args, kwargs) -> value
        self.truthy = truthy           # function(engine, self) -> z3 bool / bool, or None: unknown
        self.kinds = kinds             # function(engine, self, cls) -> isinstance answer


class Unk:
    """a value about which nothing is known; operations on it yield unknown values and may raise"""
    __slots__ = ("label",)

    def __init__(self, label="?"):
        self.label = label

    def __repr__(self):
        return "Unk(%s)" % self.label

    def __bool__(self):
        raise AssertionError("python truth test on unknown value %r" % (self,))


def fresh_int(name="i"):
    return SInt(z3.Int(fresh_name(name)))


def fresh_bool(name="b"):
    return SBool(z3.Bool(fresh_name(name)))


def fresh_str(name="s", **kw):
    return SStr(z3.String(fresh_name(name)), **kw)


def fresh_val(name="v", **kw):
    return SVal(z3.Const(fresh_name(name), V), **kw)


class Heap:
    """base of mutable objects"""
    def __init__(self):
        self.epoch = None     # set by the engine: loop nesting stamp at creation


class Obj(Heap):
    def __init__(self, cls, fields=None, label=None, hooks=None):
        super().__init__()
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.label = label
        self.hooks = hooks or {}    # attribute name -> function(engine, obj) -> value, overriding the class

    def __repr__(self):
        return "<%s%s>" % (getattr(self.cls, "__name__", self.cls), " " + self.label if self.label else "")


class PyList(Heap):
    def __init__(self, items):
        super().__init__()
        self.items = list(items)

    def __repr__(self):
        return "PyList(%r)" % (self.items,)


class PySet(Heap):
    """a set with finitely many known members (all concrete, or distinct by identity)"""
    def __init__(self, items):
        super().__init__()
        self.items = list(items)

    def __repr__(self):
        return "PySet(%r)" % (self.items,)


class PyDict(Heap):
    """insertion-ordered dict with concrete (hashable python) or identity keys"""
    def __init__(self, pairs=()):
        super().__init__()
        self.pairs = list(pairs)

    def __repr__(self):
        return "PyDict(%r)" % (self.pairs,)


class Model(Heap):
    """base of user-defined abstract heap objects: subclasses define
    call(engine, name, args, kwargs), getattr, getitem, setitem, contains, length, truth, iterate, havoc, ..."""


class BM:
    """bound method"""
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return "BM(%s)" % getattr(self.func, "__qualname__", self.func)


class Clo:
    """closure: a nested def or lambda of interpreted code"""
    def __init__(self, node, env, defaults, kwdefaults, name, owner):
        self.node = node
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.owner = owner

    def __repr__(self):
        return "Clo(%s)" % self.name


class Builtin:
    """a modelled function: fn(engine, args, kwargs) -> value"""
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "Builtin(%s)" % self.name


class SuperProxy:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class Gen:
    """a suspended generator expression / comprehension source"""
    def __init__(self, node, env):
        self.node = node
        self.env = env


class PyExc(Exception):
    """an exception of the interpreted program"""
    def __init__(self, value):
        self.value = value     # Obj with an exception class, or UnkExc

    def __repr__(self):
        return "PyExc(%r)" % (self.value,)


class UnkExc(Heap):
    """an unknown exception: instance of some subclass of `base`"""
    def __init__(self, base=Exception, origin=""):
        super().__init__()
        self.base = base
        self.origin = origin
        self.excluded = []      # classes it is known not to be an instance of

    def __repr__(self):
        return "UnkExc(%s from %s)" % (self.base.__name__, self.origin)


class Unsupported(Exception):
    """the verifier cannot handle this construct: the obligation is undecided"""


class Dead(Exception):
    """the current path is infeasible or ends here"""
