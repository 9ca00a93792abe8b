"""C12: caching never changes a result."""
import ast
import inspect
import z3

from pyvc.values import *
from pyvc import builtins_model as B
from pyvc import words as W
from pyvc.engine import func_node
from pyvc.unit import Unit, DirectUnit, attempt
from .tok import invoke, invoke_sync, is_null, method
from nessaid_cli import utils as U
from nessaid_cli import interface as IF
from nessaid_cli import elements as EL

LEVEL = "proof"
TRUSTED = ["Python's dictionaries: a key finds what was last stored under an equal key"]
ASSUMPTIONS = ["the value a token class gives for an input, its being cacheable, its failures and what its constructor builds "
               "depend on the object and the arguments only (built-in classes: C09-C11)",
               "token objects compare by identity", "the token definitions and the token classes of a command object do not change"]


class Memo(Model):
    """a cache: what was stored, found again by an equal key"""
    def __init__(self, name):
        super().__init__()
        self.name, self.entries = name, []

    def find(self, E, key):
        for i in reversed(range(len(self.entries))):
            k = self.entries[i][0]
            if type(k) is type(key) and (not isinstance(k, tuple) or len(k) == len(key)) and E.truth(B.wrap_bool(B.equal(E, k, key)), "same key"):
                return i
        return None

    def contains(self, E, key):
        return self.find(E, key) is not None

    def getitem(self, E, key):
        i = self.find(E, key)
        if i is None:
            E.raise_(KeyError, "key")
        return self.entries[i][1]

    def setitem(self, E, key, v):
        i = self.find(E, key)
        if i is not None:
            self.entries[i] = (key, v)
        else:
            self.entries.append((key, v))

    def getattr(self, E, name):
        if name == "get":
            def get(E2, a, k):
                i = self.find(E2, a[0])
                return self.entries[i][1] if i is not None else (a[1] if len(a) > 1 else None)
            return Builtin("get", get)
        if name == "setdefault":
            def setdefault(E2, a, k):
                i = self.find(E2, a[0])
                if i is None:
                    self.entries.append((a[0], a[1]))
                    return a[1]
                return self.entries[i][1]
            return Builtin("setdefault", setdefault)
        if name == "clear":
            def clear(E2, a, k):
                del self.entries[:]
            return Builtin("clear", clear)
        if name == "pop":
            def pop(E2, a, k):
                i = self.find(E2, a[0])
                if i is None:
                    return a[1]
                return self.entries.pop(i)[1]
            return Builtin("pop", pop)
        raise Unsupported("cache.%s" % name)

    def len_(self, E):
        n = fresh_int("len")
        E.assume(n.e >= len(self.entries))
        return n

    def truth(self, E):
        return len(self.entries) > 0

    def havoc(self, E):
        raise Unsupported("cache changed in a loop")

    def isinstance_(self, E, cls):
        return issubclass(dict, cls)


def interface(E):
    f = {n: E.new(Memo(n)) for n in ("_str_cache", "_token_value_cache", "_tokens")}
    f.update({n: fresh_int(n) for n in ("_str_cache_size", "_token_value_cache_size", "_token_value_hit", "_token_value_miss",
                                        "_token_hit", "_token_miss")})
    f["_token_class_map"] = None
    return E.new(Obj(IF.CliInterface, f, "interface"))


# ------------------------------------------------------------------ conversion of notations
KINDS = [None, (True, False), (True, True), (False, False)]


def notation(E, base, name, kinds=KINDS):
    k = kinds[E.choose(len(kinds), name)]
    if k is None:
        return E.new(W.Word(base))
    tags = {"quoted": k[0]}
    if k[1] is not None:
        tags["quote_incomplete"] = k[1]
    return E.new(W.Word(base, tags=tags, cls=U.ExtendedString))


def convert(E, *args, **kw):
    k, r = attempt(E, lambda: E.call(U.convert_to_python_string, list(args), kw))
    E.prove("the conversion raises nothing", k == "ok")
    if k != "ok":
        raise Dead()
    return r


_sigma = []


def base_word(E, name):
    if not _sigma:
        _sigma.append(W.alphabet(W.constants_of(U)))
    return W.Base(_sigma[0], name)


def spec_convert_same(E):
    """the same text converted before, with the same or other marks (quoted, incomplete)"""
    base = base_word(E, "text")
    x, y = notation(E, base, "first"), notation(E, base, "second")
    me = interface(E)
    first = convert(E, x, cli=me)
    again = convert(E, y, cli=me)
    W.prove_equal(E, "the conversion is the same as without a cache", again, convert(E, y))
    W.prove_equal(E, "the conversion that fills the cache is the same as without one", first, convert(E, x))
    me.fields["_str_cache"] = E.new(PyDict([]))
    E.cover("converted")


def spec_convert_other(E):
    """another text converted before"""
    a, b = base_word(E, "first"), base_word(E, "second")
    a.distinct, b.distinct = b, a
    x, y = notation(E, a, "first", KINDS[:1]), notation(E, b, "second", KINDS[:3])
    me = interface(E)
    convert(E, x, cli=me)
    again = convert(E, y, cli=me)
    if not isinstance(again, (str, W.Word)) or isinstance(again, W.Word) and again.base is not b:
        E.prove("the conversion of another text is not used", False)
        return
    W.prove_equal(E, "the conversion is the same as without a cache", again, convert(E, y))
    E.cover("converted")


# ------------------------------------------------------------------ values of inputs
VAL = z3.Function("value", V, V, V)
FAILS = z3.Function("get_value fails", V, V, z3.BoolSort())
CACHEABLE = z3.Function("cacheable", V, z3.BoolSort())


class Token(Model):
    def __init__(self, e, is_async):
        super().__init__()
        self.e, self.is_async = e, is_async

    def getattr(self, E, name):
        if name == "cacheable":
            return SBool(CACHEABLE(self.e))
        if name == "get_value":
            return E.new(GetValue(self))
        return SVal(z3.Function("token." + name, V, V)(self.e))

    def eq(self, E, o):
        return self is o

    def is_(self, E, o):
        return self is o

    def truth(self, E):
        return True

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return bool(E.choose(2, "isinstance"))


class GetValue(Model):
    def __init__(self, t):
        super().__init__()
        self.t = t

    def call(self, E, name, args, kwargs):
        from .c16 import coro

        def body():
            typed = args[0].e
            E.ghost["asked"].append((self.t, args[0]))
            if E.fork(FAILS(self.t.e, typed), "fails"):
                raise PyExc(E.new(UnkExc(Exception, "get_value")))
            return SVal(VAL(self.t.e, typed))
        return coro("get_value", body) if self.t.is_async else body()

    def truth(self, E):
        return True

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return False


def iscoroutinefunction(E, args, kwargs):
    m = args[0] if args else kwargs.get("func")
    return m.t.is_async


def value_of(E, me, t, x):
    k, r = invoke(E, me, "get_token_value", t, x)
    E.prove("get_token_value raises nothing", k == "ok")
    if k != "ok":
        raise Dead()
    return r


def spec_value(E):
    me = interface(E)
    asynch = bool(E.choose(2, "async"))
    a = E.new(Token(fresh_val("token").e, asynch))
    b = a if E.choose(2, "same token") == 0 else E.new(Token(fresh_val("token").e, asynch))
    x, y = fresh_val("input"), fresh_val("input")
    E.ghost["asked"] = []
    value_of(E, me, a, x)
    E.ghost["asked"] = []
    r = value_of(E, me, b, y)
    want_null = E.fork(FAILS(b.e, y.e), "fails")
    if want_null:
        E.cover("no value")
        E.prove("no value, as without a cache", is_null(r))
    else:
        E.cover("value")
        E.prove("the value is the same as without a cache", isinstance(r, SVal) and r.e == VAL(b.e, y.e))
    if not E.ghost["asked"]:
        E.cover("remembered")
        E.prove("only values of cacheable tokens are remembered", CACHEABLE(b.e))


# ------------------------------------------------------------------ token objects
S = z3.StringSort()
HASDEF = z3.Function("has a definition", S, z3.BoolSort())
CLASS = z3.Function("class name", S, S)
ARG = z3.Function("argument", S, V)
KNOWN = z3.Function("known class", S, z3.BoolSort())
BUILTIN = z3.Function("class of the module", S, z3.BoolSort())
BREAKS = z3.Function("constructor fails", S, S, S, z3.BoolSort())


def text(h):
    return z3.StringVal("") if h is None else h.e if isinstance(h, SStr) else z3.StringVal(h)


class Def(Model):
    def __init__(self, name):
        super().__init__()
        self.name = name

    def getattr(self, E, name):
        if name == "classname":
            return SStr(CLASS(self.name.e))
        if name == "arglist":
            return (SVal(ARG(self.name.e)),)
        return Unk(name)

    def truth(self, E):
        return True

    def eq(self, E, o):
        return isinstance(o, Def) and E.truth(SBool(o.name.e == self.name.e))

    def havoc(self, E):
        pass


class Classes(Model):
    """the classes by their names"""
    def __init__(self, f):
        super().__init__()
        self.f = f

    def contains(self, E, n):
        return self.f(text(n))

    def getitem(self, E, n):
        if not E.fork(self.f(text(n)), "class"):
            E.raise_(KeyError, "class")
        return E.new(Class(n, self.f))

    def getattr(self, E, name):
        if name == "get":
            return Builtin("get", lambda E2, a, k: self.getitem(E2, a[0]) if E2.fork(self.f(text(a[0])), "class") else
                           (a[1] if len(a) > 1 else None))
        raise Unsupported("dict.%s" % name)

    def truth(self, E):
        return True

    def is_none(self, E):
        return False

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return issubclass(dict, cls)


class Class(Model):
    def __init__(self, n, f):
        super().__init__()
        self.n, self.f = n, f

    def call(self, E, name, args, kwargs):
        h = kwargs.get("helpstring")
        if E.fork(BREAKS(text(self.n), text(args[0]), text(h)), "constructor"):
            raise PyExc(E.new(UnkExc(Exception, "constructor")))
        return E.new(Made((self.f.name(), self.n) + tuple(args), h, kwargs.get("cli")))

    def truth(self, E):
        return True

    def havoc(self, E):
        pass


class Made(Model):
    """a token object, with what it was made from"""
    def __init__(self, parts, h, cli):
        super().__init__()
        self.parts, self.h, self.cli = parts, h, cli

    def same(self, E, o):
        if len(self.parts) != len(o.parts) or (self.h is None) != (o.h is None) or self.cli is not o.cli:
            return False
        conds = [] if self.h is None else [text(self.h) == text(o.h)]
        for a, b in zip(self.parts, o.parts):
            if a is None or b is None or isinstance(a, (str, bool)) and isinstance(b, (str, bool)):
                if a != b:
                    return False
            elif isinstance(a, Def) or isinstance(b, Def):
                if not (isinstance(a, Def) and isinstance(b, Def)):
                    return False
                conds.append(a.name.e == b.name.e)
            else:
                conds.append((text(a) if isinstance(a, (str, SStr)) else a.e) == (text(b) if isinstance(b, (str, SStr)) else b.e))
        return z3.And(*conds) if conds else True

    def truth(self, E):
        return True

    def is_(self, E, o):
        return self is o

    def eq(self, E, o):
        return self is o

    def havoc(self, E):
        pass

    def getattr(self, E, name):
        return Unk(name)

    def isinstance_(self, E, cls):
        return True


def tokendef_contract(E, args, kwargs):
    n = args[1] if len(args) > 1 else kwargs["name"]
    return E.new(Def(n)) if E.fork(HASDEF(text(n)), "definition") else None


def create_contract(E, args, kwargs):
    a = dict(zip(("token_name", "helpstring", "tokendef"), args[1:]))
    a.update(kwargs)
    return E.new(Made(("default", a["token_name"], a.get("tokendef")), a.get("helpstring"), args[0]))


def token_of(E, me, n, h):
    k, r = attempt(E, lambda: E.call(BM(method(IF.CliInterface, "get_token"), me), [n], {"helpstring": h}))
    E.prove("get_token raises nothing", k == "ok")
    if k != "ok":
        raise Dead()
    E.prove("get_token gives a token object", isinstance(r, Made))
    if not isinstance(r, Made):
        raise Dead()
    return r


def spec_token(E):
    me = interface(E)
    me.fields["_token_class_map"] = E.new(Classes(KNOWN))
    me.fields["_grammars"] = E.new(Obj(EL.GrammarSpecification, {}))
    E.ghost["globals"] = E.new(Classes(BUILTIN))
    names = [fresh_str("name"), fresh_str("name")]
    for n in names:
        E.assume(n.e != z3.StringVal(""))
    helps = [None if E.choose(2, "help") else fresh_str("help") for _ in range(2)]
    a = token_of(E, me, names[0], helps[0])
    b = token_of(E, me, names[1], helps[1])
    saved = me.fields["_tokens"]
    me.fields["_tokens"] = E.new(Memo("_tokens"))
    want = token_of(E, me, names[1], helps[1])
    E.prove("the token object is made as without a cache", b.same(E, want))
    c = (names[0].e == names[1].e) if (helps[0] is None) == (helps[1] is None) else z3.BoolVal(False)
    if helps[0] is not None and helps[1] is not None:
        c = z3.And(c, helps[0].e == helps[1].e)
    me.fields["_tokens"] = saved
    if E.fork(c, "asked again"):
        E.cover("asked again")
        E.prove("asked again for a name it is the same object", a is b)
    else:
        E.cover("another")


class ClassA:
    pass


class ClassB:
    pass


def spec_classes(E):
    """the table of classes is filled from both lists, when it is first needed"""
    me = interface(E)
    me.fields["_grammars"] = E.new(Obj(EL.GrammarSpecification, {}))
    n = fresh_str("name")
    E.assume(z3.And(n.e != z3.StringVal(""), HASDEF(n.e), CLASS(n.e) == z3.StringVal(["ClassA", "ClassB"][E.choose(2, "class")])))
    k, r = attempt(E, lambda: E.call(BM(method(IF.CliInterface, "get_token"), me), [n], {"helpstring": None}))
    E.prove("get_token raises nothing", k == "ok")
    m = me.fields["_token_class_map"]
    E.prove("the classes are found by their names", isinstance(m, PyDict) and
            sorted((a, b.__name__) for a, b in m.pairs) == [("ClassA", "ClassA"), ("ClassB", "ClassB")])
    k2, r2 = attempt(E, lambda: E.call(BM(method(IF.CliInterface, "get_token"), me), [n], {"helpstring": None}))
    E.prove("asked again for a name it is the same object", k2 == "ok" and r2 is r)


# ------------------------------------------------------------------ emptying
def spec_clear(which):
    def run(E):
        me = interface(E)
        for n in ("_str_cache", "_token_value_cache", "_tokens"):
            me.fields[n].entries.append((fresh_val("key"), fresh_val("value")))
        before = dict(me.fields)
        k, r = invoke_sync(E, me, which)
        E.prove("emptying raises nothing", k == "ok")
        for n, v in before.items():
            w = me.fields.get(n)
            if n in ("_str_cache", "_token_value_cache", "_tokens"):
                E.prove("a cache is unchanged or empty: " + n,
                        w is v and len(v.entries) in (0, 1) or isinstance(w, PyDict) and not w.pairs or
                        isinstance(w, Memo) and not w.entries)
            else:
                E.prove("nothing else changes: " + n, w is v)
        E.prove("nothing else appears", set(me.fields) == set(before))
    return run


# ------------------------------------------------------------------ who writes the caches
CACHES = {"_str_cache", "_token_value_cache", "_token_class_map"}
UNDER_CONTRACT = {"convert_to_python_string", "cache_string", "get_token_value", "get_token", "clear_str_cache",
                  "clear_token_value_cache", "clear_caches", "str_cache"}


def frame():
    from nessaid_cli import cli as CL, cmd as CM, tokens as TK
    defs, writers = {}, {}
    for m in (U, IF, EL, CL, CM, TK):
        for n in ast.walk(ast.parse(inspect.getsource(m))):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                defs.setdefault(n.name, []).append(n)
                if any(isinstance(x, ast.Attribute) and (x.attr in CACHES or x.attr == "_tokens" and m is IF)
                       for x in ast.walk(n)) and not (n.name == "__init__" and m is IF):
                    writers.setdefault(n.name, []).append(m.__name__)
    allowed, todo = set(), list(UNDER_CONTRACT)
    while todo:                      # what they call is executed with them
        f = todo.pop()
        if f in allowed:
            continue
        allowed.add(f)
        for n in defs.get(f, []):
            for x in ast.walk(n):
                if isinstance(x, ast.Call):
                    g = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None)
                    if g in writers:
                        todo.append(g)
    return [dict(name="the caches are used by functions under contract only", status="proved" if set(writers) <= allowed else
                 "refuted", detail=str(sorted(set(writers) - allowed)), backend="syntactic frame"),
            dict(name="the caches exist", status="proved" if {"get_token", "get_token_value"} <= set(writers) else "refuted",
                 backend="syntactic frame")]


def units(tier):
    g = "nessaid_cli.interface:CliInterface."
    tok = {"asyncio.coroutines:iscoroutinefunction": iscoroutinefunction, "inspect:iscoroutinefunction": iscoroutinefunction}
    quiet = {"nessaid_cli.utils:StdStreamsHolder.error": lambda E, a, k: None}
    made = {**quiet, "nessaid_cli.elements:GrammarSpecification.get_tokendef": tokendef_contract, g + "create_cli_token": create_contract}
    lists = dict(made)
    lists[g + "get_base_token_classes"] = lambda E, a, k: E.new(PyList([ClassA]))
    lists[g + "get_token_classes"] = lambda E, a, k: E.new(PyList([ClassB]))
    for c in (ClassA, ClassB):
        lists["%s:%s" % (c.__module__, c.__qualname__)] = lambda E, a, k: E.new(Made(tuple(a), None, None))
    return [
        Unit("conversion, the same text", spec_convert_same, ["converted"], 3, max_paths=60000),
        Unit("conversion, another text", spec_convert_other, ["converted"], 2, max_paths=60000),
        Unit("get_token_value", spec_value, ["value", "no value", "remembered"], 4, contracts=tok),
        Unit("get_token", spec_token, ["asked again", "another"], 4, contracts=made),
        Unit("classes of tokens", spec_classes, [], 3, contracts=lists),
        Unit("clear_str_cache", spec_clear("clear_str_cache"), [], 5),
        Unit("clear_token_value_cache", spec_clear("clear_token_value_cache"), [], 5),
        Unit("clear_caches", spec_clear("clear_caches"), [], 5),
        DirectUnit("frame", frame, 2),
    ]
