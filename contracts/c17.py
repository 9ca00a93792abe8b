"""C17: completion offers and inserts only what continues the typed text.

The common prefix: the list is of any length; its smallest and its largest element in the order of strings are known by
position, the text G both begin with is defined by where they first differ, and a lemma shows that G begins every
element."""
import z3

from nessaid_cli import cli as CL
from nessaid_cli import elements as EL
from nessaid_cli import interface as IF
from nessaid_cli import tokens as TK

from pyvc.engine import LoopSpec, Coro, ast
from .tok import *

LEVEL = "proof"
TRUSTED = ["list.sort, sorted, min and max order strings by their characters, left to right"]
ASSUMPTIONS = ["match() reports as the last token what complete() gave it as such, and what set_next_tokens says about it (C03)",
               "the hooks of the editor do what their names say"]

I, S_, B_ = z3.IntSort(), z3.StringSort(), z3.BoolSort()
ELEM = z3.Function("element", I, S_)
N, KMN, KMX = z3.Int("length_of_list"), z3.Int("smallest_at"), z3.Int("largest_at")
MN, MX, G = ELEM(KMN), ELEM(KMX), z3.String("G")


def longest(E, s):
    """lemma: nothing that both begin with is longer than G"""
    E.assume(z3.Implies(z3.And(z3.PrefixOf(s, MN), z3.PrefixOf(s, MX)), z3.PrefixOf(s, G)))
    E.assume(z3.Implies(z3.And(z3.PrefixOf(s, G), z3.PrefixOf(G, s)), s == G))


def at(s, i):
    return z3.SubString(s, i, 1)


def common(g, a, b):
    """g is the longest text both begin with"""
    n = z3.Length(g)
    return z3.And(z3.PrefixOf(g, a), z3.PrefixOf(g, b),
                  z3.Or(n == z3.Length(a), n == z3.Length(b), at(a, n) != at(b, n)))


class TextList(Model):
    """a list of texts: as given, or sorted"""
    def __init__(self, order=None):
        super().__init__()
        self.order = order

    def length(self, E):
        return N

    def len_(self, E):
        return SInt(N)

    def truth(self, E):
        return N > 0

    def is_none(self, E):
        return False

    def isinstance_(self, E, cls):
        return issubclass(list, cls)

    def at(self, E, k):
        E.assume(z3.PrefixOf(G, ELEM(k)))      # lemma
        return SStr(ELEM(k), cls=IF.TokenCompletion)

    def elem(self, E, i):
        if self.order is None:
            return self.at(E, i)
        k = E.notes.setdefault("order", z3.Function("sorted_at", I, I))(i)
        E.assume(z3.And(k >= 0, k < N, z3.Implies(i == 0, ELEM(k) == (MN if self.order == "up" else MX)),
                        z3.Implies(i == N - 1, ELEM(k) == (MX if self.order == "up" else MN))))
        return self.at(E, k)

    def getitem(self, E, i):
        if isinstance(i, slice):
            if i.step is None and i.stop is None and i.start in (0, 1, None):
                return E.new(Rest(self, i.start or 0))
            if i == slice(None, None, -1):
                return E.new(TextList({"up": "down", "down": "up"}[self.order])) if self.order else E.new(TextList(None))
            raise Unsupported("slice of the suggestions")
        k = i.e if isinstance(i, SInt) else z3.IntVal(i)
        if E.fork(k < 0, "negative index"):
            k = z3.simplify(N + k)
        if not E.fork(z3.And(k >= 0, k < N), "index in range"):
            E.raise_(IndexError, "list index out of range")
        return self.elem(E, k)

    def getattr(self, E, name):
        if name == "sort":
            def sort(E2, a, k):
                if "key" in k:
                    raise Unsupported("sort with a key")
                E2.note_write(self)
                r = k.get("reverse", False)
                if not isinstance(r, (bool, int)):
                    raise Unsupported("sort order")
                self.order = "down" if r else "up"
                E2.notes.pop("order", None)
            return Builtin("sort", sort)
        if name in ("copy", "__len__"):
            return Builtin(name, lambda E2, a, k: E2.new(TextList(self.order)) if name == "copy" else SInt(N))
        raise Unsupported("suggestions .%s" % name)

    def min(self, E, kwargs=None):
        return self.extreme(E, "min", kwargs)

    def max(self, E, kwargs=None):
        return self.extreme(E, "max", kwargs)

    def sorted_(self, E, kwargs=None):
        if kwargs and set(kwargs) - {"reverse"} or kwargs and not isinstance(kwargs["reverse"], (bool, int)):
            raise Unsupported("sorted with a key")
        return E.new(TextList("down" if kwargs and kwargs["reverse"] else "up"))

    def to_list(self, E):
        return E.new(TextList(self.order))

    def to_tuple(self, E):
        return E.new(TextList(self.order))

    def to_set(self, E):
        return E.new(TextList(None))

    def extreme(self, E, which, kwargs=None):
        if kwargs and set(kwargs) - {"default"}:
            raise Unsupported(which + " with a key")
        if kwargs and not E.fork(N > 0, "not empty"):
            return kwargs["default"]
        if not E.fork(N > 0, "not empty"):
            E.raise_(ValueError, "empty")
        return self.at(E, KMN if which == "min" else KMX)

    def havoc(self, E):
        raise Unsupported("a loop changes the list")

    def loop_spec(self, E, s, env):
        return LoopSpec(inv)


class Rest(TextList):
    def __init__(self, of, k):
        super().__init__(of.order)
        self.of, self.k = of, k

    def length(self, E):
        return z3.If(N > self.k, N - self.k, 0)

    def len_(self, E):
        return SInt(self.length(E))

    def truth(self, E):
        return N > self.k

    def elem(self, E, i):
        return self.of.elem(E, i + self.k)

    def getitem(self, E, i):
        raise Unsupported("index of a slice")

    def extreme(self, E, which, kwargs=None):
        raise Unsupported("extreme of a slice")


def inv(E, env, i, it):
    ints = {n: v.e if isinstance(v, SInt) else z3.IntVal(v) for n, v in env.vars.items()
            if isinstance(v, SInt) or isinstance(v, int) and not isinstance(v, bool)}
    if i is not None:
        ints["#i"] = i
    strs = {n: B.zstr(v) for n, v in env.vars.items() if isinstance(v, (str, SStr))}
    for v in ints.values():        # what is so of all texts with a common beginning
        E.assume(z3.Implies(z3.And(v >= 0, v < z3.Length(G)), z3.And(
            at(MN, v) == at(G, v), at(MX, v) == at(G, v),
            z3.SubString(G, 0, v + 1) == z3.Concat(z3.SubString(G, 0, v), at(G, v)))))
    for s in strs.values():
        longest(E, s)
    out = []
    for n, v in ints.items():
        out += [("%s counts what is common" % n, z3.And(v >= 0, v <= z3.Length(G))), ("%s >= 0" % n, v >= 0)]
        for m, s in strs.items():
            out += [("%s has %s characters" % (m, n), z3.Length(s) == v),
                    ("%s is the first %s characters of G" % (m, n), s == z3.SubString(G, 0, v)),
                    ("%s within %s" % (n, m), v <= z3.Length(s))]
        for m, w in ints.items():
            if n < m:
                out.append(("%s == %s" % (n, m), v == w))
    for m, s in strs.items():
        out += [("G begins with %s" % m, z3.PrefixOf(s, G)), ("%s begins with G" % m, z3.PrefixOf(G, s))]
        if i is not None and isinstance(it, TextList):
            k = it.k if isinstance(it, Rest) else 0
            if it.order is None:
                at0, at1 = KMN, KMX
            else:
                at0, at1 = (0, N - 1) if it.order == "up" else (N - 1, 0)
            out += [("the smallest begins with %s when it was met" % m, z3.Implies(i + k > at0, z3.PrefixOf(s, MN))),
                    ("the largest begins with %s when it was met" % m, z3.Implies(i + k > at1, z3.PrefixOf(s, MX)))]
        out += [("the smallest begins with %s" % m, z3.PrefixOf(s, MN)), ("the largest begins with %s" % m, z3.PrefixOf(s, MX))]
    return out


def prefix_loop(E, s, env, it):
    entry = {n: B.zstr(v) for n, v in env.vars.items() if isinstance(v, (str, SStr))}

    def both(E, env, i, it):
        return inv(E, env, i, it) + [("%s only gets shorter" % n, z3.PrefixOf(B.zstr(env.vars[n]), e))
                                     for n, e in entry.items() if isinstance(env.vars.get(n), (str, SStr))]
    return LoopSpec(both)


def the_list(E):
    E.assume(N >= 0)
    E.assume(z3.Implies(N > 0, z3.And(KMN >= 0, KMN < N, KMX >= 0, KMX < N)))
    E.assume(common(G, MN, MX))
    E.assume(z3.Implies(N == 1, z3.And(KMN == 0, KMX == 0)))
    return E.new(TextList(), site="list")


def prefix_of(E, args, kwargs):
    """os.path.commonprefix"""
    if not isinstance(args[0], TextList) or isinstance(args[0], Rest):
        raise Unsupported("commonprefix")
    return SStr(G) if E.fork(N > 0, "not empty") else ""


PREFIX = {"genericpath:commonprefix": prefix_of}


def lemma(E):
    """a text between two texts begins with what both begin with; texts by their lengths and characters"""
    T_ = z3.DeclareSort("Text")
    length, char = z3.Function("length", T_, I), z3.Function("char", T_, I, I)
    a, x, b, g = [z3.Const(n, T_) for n in ("a", "x", "b", "g")]
    E.forall(T_, lambda t: length(t) >= 0)
    for t in (a, x, b, g):
        E.point(t)

    def le(lo, hi, nm):
        d = z3.Int(nm)                 # the first place where they differ
        E.point(d)
        E.assume(z3.And(d >= 0, d <= length(lo), d <= length(hi)))
        E.forall(I, lambda k: z3.Implies(z3.And(k >= 0, k < d), char(lo, k) == char(hi, k)))
        E.assume(z3.Or(d == length(lo), z3.And(d < length(lo), d < length(hi), char(lo, d) < char(hi, d))))

    def begins(t, h):
        E.assume(length(h) <= length(t))
        E.forall(I, lambda k: z3.Implies(z3.And(k >= 0, k < length(h)), char(h, k) == char(t, k)))
    le(a, x, "d1")
    le(x, b, "d2")
    begins(a, g)
    begins(b, g)
    k = E.point(z3.Int("k"))           # any place
    E.assume(z3.And(k >= 0, k < length(g)))
    E.prove("a text between a and b begins with what is common to them", z3.And(k < length(x), char(x, k) == char(g, k)))
    s, n = E.point(z3.Const("s", T_)), E.point(length(g))
    E.assume(z3.Or(n == length(a), n == length(b), char(a, n) != char(b, n)))
    begins(a, s)
    begins(b, s)
    E.prove("no text both begin with is longer", length(s) <= n)
    E.cover("lemma")


def prefix_run(E):
    res = E.new(Obj(IF.ParsingResult, {}), site="result")
    l = the_list(E)
    k, r = attempt(E, lambda: E.call(BM(method(IF.ParsingResult, "common_prefix"), res), [l], {}))
    if k != "ok":
        E.prove("the common prefix exists", False, repr(r))
        return
    if not isinstance(r, (str, SStr)):
        E.prove("the common prefix is a text", False, repr(r))
        return
    z = B.zstr(r)
    if E.fork(N > 0, "not empty"):
        longest(E, z)
        E.cover("some")
        E.prove("every suggestion begins with the common prefix", z3.PrefixOf(z, G), model_terms=dict(smallest=MN, largest=MX, prefix=z))
        E.prove("the common prefix is the longest text all suggestions begin with", z == G, model_terms=dict(smallest=MN, largest=MX, prefix=z))
    else:
        E.cover("none")
        E.prove("no suggestions have the empty common prefix", z == z3.StringVal(""))


# ------------------------------------------------------------------ set_next_tokens
TOK = z3.Function("token_at", I, V)
EOI = z3.Function("end_of_input_at", I, B_)
CPL, CI = z3.Function("completable", V, B_), z3.Function("case_insensitive", V, B_)
NC = z3.Function("number_of_completions", V, S_, I)
COMP = z3.Function("completion_of", V, S_, I, S_)
NT, IS, JS = z3.Int("number_of_tokens"), z3.Int("any_token"), z3.Int("any_completion")


def a_token(e):
    def help_(E, v, a, k):
        return Coro(lambda: fresh_str("help"), "get_helpstring")
    return SVal(e, truthy=lambda E, v: True, kinds=lambda E, v, cls: issubclass(T.CliToken, cls),
                attrs={"completable": lambda E, v: SBool(CPL(v.e)), "case_insensitive": lambda E, v: SBool(CI(v.e)),
                       "name": lambda E, v: fresh_str("name"), "helpstring": lambda E, v: fresh_str("help")},
                methods={"get_helpstring": help_})


class Base(Model):
    """what all the lists here have in common"""
    def __init__(self):
        super().__init__()

    def is_none(self, E):
        return False

    def isinstance_(self, E, cls):
        return issubclass(list, cls)

    def truth(self, E):
        return self.length(E) > 0

    def len_(self, E):
        return SInt(self.length(E))

    def havoc(self, E):
        raise Unsupported("a loop changes %s" % type(self).__name__)

    def to_list(self, E):
        return self

    def loop_spec(self, E, s, env):
        return None

    def getitem(self, E, i):
        k = i.e if isinstance(i, SInt) else z3.IntVal(i) if isinstance(i, int) else None
        if k is None:
            raise Unsupported("slice of %s" % type(self).__name__)
        n = self.length(E)
        if not E.fork(z3.And(k >= -n, k < n), "index in range"):
            E.raise_(IndexError, "list index out of range")
        return self.elem(E, k if E.entails(k >= 0) else z3.simplify(k + n) if E.entails(k < 0) else z3.If(k < 0, k + n, k))


class Tokens(Base):
    """the tokens that may follow, the end of input among them or not"""
    def length(self, E):
        return NT

    def elem(self, E, i):
        if E.fork(EOI(i), "end of input"):
            E.assume(z3.Bool("there is an end of input"))
            return E.lift(IF.EndOfInpuToken)
        return a_token(TOK(i))

    def loop_spec(self, E, s, env):
        return loop_over(E, lambda i: i)


class Comps(Base):
    """the completions a token offers"""
    def __init__(self, tok, inp):
        super().__init__()
        self.tok, self.inp = tok, inp

    def length(self, E):
        return NC(self.tok, self.inp)

    def elem(self, E, k):
        c = COMP(self.tok, self.inp, k)
        E.notes.setdefault("offered", []).append((c, self.tok, self.inp, k))
        return SStr(c)

    def loop_spec(self, E, s, env):
        return loop_over(E, None, self)


class Entry(Model):
    """a TokenCompletion: equal to another one with the same text"""
    def __init__(self, completion, helpstring):
        super().__init__()
        self.completion, self.helpstring = completion, helpstring

    def getattr(self, E, name):
        if name in ("completion", "helpstring"):
            return getattr(self, name)
        raise Unsupported("suggestion .%s" % name)

    def truth(self, E):
        return z3.Bool(fresh_name("text"))

    def has_text(self, E):
        return False if self.completion is None else z3.Length(B.zstr(self.completion)) > 0

    def havoc(self, E):
        pass


class Suggestions(Base):
    """the set of suggestions: whether it has the chosen one, whether every member has a completion, how many"""
    def __init__(self, kind=set):
        super().__init__()
        self.kind = kind
        self.has, self.good, self.n, self.eoi = z3.BoolVal(False), z3.BoolVal(True), z3.IntVal(0), False

    def state(self):
        return self.has, self.good, self.n

    def isinstance_(self, E, cls):
        return issubclass(self.kind, cls)

    def length(self, E):
        return z3.simplify(self.n + (1 if self.eoi else 0))

    def havoc(self, E):
        self.has, self.good, self.n = z3.Bool(fresh_name("has")), z3.Bool(fresh_name("good")), z3.Int(fresh_name("n"))
        E.assume(self.n >= 0)

    def copy(self, E, kind):
        o = E.new(Suggestions(kind), site="suggestions list")
        o.has, o.good, o.n, o.eoi = self.has, self.good, self.n, self.eoi
        return o

    def to_list(self, E):
        return self.copy(E, list)

    to_tuple = sorted_ = lambda self, E, kw=None: self.copy(E, list)

    def add(self, E, x):
        E.note_write(self)
        if x is IF.EndOfInpuToken:
            if self.eoi and self.kind is set:
                return
            if self.eoi:
                raise Unsupported("two ends of input")
            self.eoi = True
            return
        if not isinstance(x, Entry):
            raise Unsupported("suggestion %r" % (x,))
        if x.completion is not None:
            c = B.zstr(x.completion)
            E.prove("a suggestion is a completion a token offers for what was typed", z3.Or(*[
                z3.And(c == t, inp == E.notes["typed"]) for t, _, inp, _ in E.notes.get("offered", [])]),
                    model_terms=dict(suggestion=c))
            text = c
        else:
            text = B.zstr(x.helpstring)
        if E.fork(z3.And(self.n > 0, z3.Bool(fresh_name("there"))), "same text already there"):
            self.has = z3.simplify(z3.Or(self.has, text == COMP(TOK(IS), E.notes["typed"], JS)))
            return
        self.n = z3.simplify(self.n + 1)
        self.has = z3.simplify(z3.Or(self.has, text == COMP(TOK(IS), E.notes["typed"], JS)))
        g = x.has_text(E)
        self.good = z3.simplify(z3.And(self.good, g))

    def getattr(self, E, name):
        if name in ("add", "append") and (name == "add") == (self.kind is set):
            return Builtin(name, lambda E2, a, k: self.add(E2, a[0]))
        raise Unsupported("suggestions .%s" % name)

    def elem(self, E, i):
        if self.eoi and (self.kind is set or E.fork(i == self.n, "the end of input")):
            if self.kind is set:
                raise Unsupported("element of suggestions with the end of input")
            return E.lift(IF.EndOfInpuToken)
        c = fresh_str("suggestion")
        return E.new(Entry(c, fresh_str("help")))

    def any_all(self, E, which, comp, g, env):
        if which != "all" or g.ifs:
            raise Unsupported("%s of the suggestions" % which)
        from pyvc.engine import Env
        if self.eoi:
            raise Unsupported("completions with the end of input")

        def answer(entry):
            cenv = Env({}, env, env.globals, env.owner, env.fn_name, env.cls_cell)
            cenv.node = env.node
            E.assign(g.target, entry, cenv)
            return E.truth(E.eval(comp.elt, cenv))
        if not answer(E.new(Entry("text", "help"))):
            raise Unsupported("test of the suggestions")
        if answer(E.new(Entry(None, "help"))):
            return True
        if answer(E.new(Entry("", "help"))):
            raise Unsupported("test of the suggestions")
        return SBool(self.good)


def loop_over(E, pos, comps=None):
    """the loop over tokens (pos: position), or over the completions of a token"""
    sets = [(o, o.state()) for o in E.objects if isinstance(o, Suggestions)]

    def inv(E, env, i, it):
        typed, out = E.notes["typed"], []
        tok = TOK(IS)
        sug = z3.And(IS >= 0, IS < NT, z3.Not(EOI(IS)))
        for k, (o, (has0, good0, n0)) in enumerate(sets):
            nm = "set %d: " % k
            out += [(nm + "keeps what it has", z3.Implies(has0, o.has)), (nm + "never gets better", z3.Implies(o.good, good0)),
                    (nm + "grows", o.n >= n0)]
            out.append((nm + "grows only by going on", z3.Or(o.n == n0, (pos(i) if pos else i) > 0)))
            if comps is None:
                met = z3.And(sug, pos(i) > IS)
                out += [(nm + "has the completions of the tokens met", z3.Implies(
                    z3.And(met, CPL(tok), JS >= 0, JS < NC(tok, typed)), o.has))]
                out += [(nm + "is not empty once a token was met", z3.Implies(met, o.n > 0))]
            else:
                out += [(nm + "has the completions met", z3.Implies(
                    z3.And(comps.tok == tok, comps.inp == typed, JS >= 0, JS < i), o.has)),
                        (nm + "has as many at least", z3.Implies(i > 0, o.n > 0))]
        if comps is None:
            for m, v in env.vars.items():
                if isinstance(v, (bool, SBool)):
                    b = B.zbool(v) if hasattr(B, "zbool") else (v.e if isinstance(v, SBool) else z3.BoolVal(v))
                    out += [("%s when the end of input was met" % m, z3.Implies(
                        z3.And(IS >= 0, IS < NT, EOI(IS), pos(i) > IS), b)),
                            ("%s only if there is one" % m, z3.Implies(b, z3.Bool("there is an end of input")))]
        return out
    return LoopSpec(inv)


def next_run(E):
    typed = [None, "", fresh_str("typed")][E.choose(3, "typed")]
    if isinstance(typed, SStr):
        E.assume(z3.Length(typed.e) > 0)
    E.notes["typed"] = B.zstr("" if typed is None else typed)
    E.assume(NT >= 0)
    E.assume(z3.Implies(z3.And(IS >= 0, IS < NT, EOI(IS)), z3.Bool("there is an end of input")))
    t = z3.Const("t", V)
    res = E.new(Obj(IF.ParsingResult, {"next_tokens": None, "last_token": None, "next_constant_token": None,
                                       "case_insensitive": False}), site="result")
    toks = E.new(Tokens(), site="tokens")

    class Cli(Base):
        def getattr(self, E, name):
            if name == "complete_token":
                def complete(E, a, k):
                    tok, inp = a[0], a[1] if len(a) > 1 else k["input_str"]

                    def body():
                        if not isinstance(tok, SVal):
                            raise Unsupported("completions of %r" % (tok,))
                        c = E.new(Comps(tok.e, B.zstr(inp)))
                        E.assume(c.length(E) >= 0)
                        return (SInt(z3.Int(fresh_name("n"))), c)
                    return Coro(body, "complete_token")
                return Builtin("complete_token", complete)
            raise Unsupported("cli.%s" % name)
    k, r = attempt(E, lambda: run_async(E, BM(method(IF.ParsingResult, "set_next_tokens"), res), [E.new(Cli()), typed, toks]))
    if k != "ok":
        E.prove("the suggestions are found", False, repr(r))
        return
    f, inp = res.fields, E.notes["typed"]
    lt, nct, nt = f["last_token"], f["next_constant_token"], f["next_tokens"]
    chosen = COMP(TOK(IS), inp, JS)
    sug = z3.And(IS >= 0, IS < NT, z3.Not(EOI(IS)), CPL(TOK(IS)), JS >= 0, JS < NC(TOK(IS), inp))
    if not isinstance(nt, Suggestions):
        E.prove("the suggestions are a list", False, repr(nt))
        return
    E.prove("every completion of a token that may follow is suggested", z3.Implies(sug, nt.has))
    E.prove("the end of input is suggested when it may follow", z3.Implies(
        z3.And(IS >= 0, IS < NT, EOI(IS)), z3.BoolVal(bool(nt.eoi))))
    E.prove("the end of input is suggested only when it may follow",
            z3.Implies(z3.BoolVal(bool(nt.eoi)), z3.Bool("there is an end of input")))
    if lt is None or isinstance(lt, (PyDict, dict, PyList, tuple)) and not lt:
        E.cover("no replacement")
    else:
        ok = isinstance(lt, tuple) and len(lt) == 2 and all(isinstance(x, (str, SStr)) for x in lt)
        E.prove("the replacement of the last token is a pair of texts", ok, repr(lt))
        if not ok:
            return
        E.cover("replacement")
        a, b = B.zstr(lt[0]), B.zstr(lt[1])
        E.prove("a replacement is for what was typed", z3.And(a == inp, z3.Length(inp) > 0))
        E.prove("a replacement is the common prefix of the suggestions", z3.Or(*[b == p for p in E.notes.get("prefixes", [])] or [False]))
        E.prove("a replacement is for one or more suggestions, without the end of input",
                z3.And(z3.BoolVal(not nt.eoi), nt.n > 0))
        E.prove("every suggestion begins with the replacement", z3.Implies(sug, z3.PrefixOf(b, chosen)))
    if nct is None:
        E.cover("no constant")
        return
    E.cover("constant")
    if not isinstance(nct, (str, SStr)):
        E.prove("the constant is a text", False, repr(nct))
        return
    c = B.zstr(nct)
    E.prove("a constant is the only suggestion", nt.n == 1)
    if lt:
        E.prove("a constant is what the last token is to become", c == B.zstr(lt[1]))
    else:
        E.prove("a constant is the one completion of a token that may follow", z3.Or(*[
            z3.And(c == t, i == z3.StringVal(""), NC(tok, i) == 1,
                   z3.Or(*[tok == TOK(z3.IntVal(0))])) for t, tok, i, _ in E.notes.get("offered", [])] or [False]))


def common_prefix(E, args, kwargs):
    l = args[1]
    if not isinstance(l, Suggestions):
        raise Unsupported("common prefix of %r" % (l,))
    E.prove("the common prefix is taken of suggestions that all have a completion", z3.And(z3.BoolVal(not l.eoi), l.good))
    r = z3.String(fresh_name("common"))
    E.assume(z3.Implies(l.has, z3.PrefixOf(r, COMP(TOK(IS), E.notes["typed"], JS))))
    E.assume(z3.Implies(l.n == 0, r == z3.StringVal("")))
    E.notes.setdefault("prefixes", []).append(r)
    return SStr(r)


def entry_contract(E, args, kwargs):
    d = dict(zip(("completion", "helpstring"), args))
    d.update(kwargs)
    return E.new(Entry(d["completion"], d["helpstring"]), site="suggestion")


NEXT = {"nessaid_cli.interface:ParsingResult.common_prefix": common_prefix,
        "nessaid_cli.interface:TokenCompletion": entry_contract,
        "builtins:set": lambda E, a, k: B.construct(E, set, a, k) if a else E.new(Suggestions(), site="suggestions")}


# ------------------------------------------------------------------ complete
BACKSPACE = CL.key.BACKSPACE
RESULTS = [TK.MATCH_SUCCESS, TK.MATCH_FAILURE, TK.MATCH_PARTIAL, TK.MATCH_AMBIGUOUS]
LINE = z3.String("line")
LOWER = B.LOWER


class Editor(Model):
    """the line editor: the text in the line, which inserted text is added to"""
    def __init__(self):
        super().__init__()
        self.buf = LINE

    def havoc(self, E):
        self.buf = z3.String(fresh_name("buffer"))

    def is_none(self, E):
        return False

    def truth(self, E):
        return True

    def insert(self, E, x):
        if not isinstance(x, (str, SStr)):
            raise Unsupported("insertion of %r" % (x,))
        E.note_write(self)
        z = B.zstr(x)
        if x == BACKSPACE if isinstance(x, str) else False:
            n = z3.Length(self.buf)
            self.buf = z3.If(n > 0, z3.SubString(self.buf, 0, n - 1), self.buf)
        else:
            E.assume(z != z3.StringVal(B.z3_escape(BACKSPACE)))
            self.buf = z3.simplify(z3.Concat(self.buf, z))

    def getattr(self, E, name):
        if name == "get_line_buffer":
            return Builtin(name, lambda E2, a, k: SStr(self.buf))
        if name == "insert_text":
            return Builtin(name, lambda E2, a, k: Coro(lambda: self.insert(E2, a[0]), name))
        if name in ("play_bell", "set_prompt"):
            return Builtin(name, lambda E2, a, k: None)
        raise Unsupported("editor .%s" % name)

    def setattr(self, E, name, v):
        if name != "_input_prompt":
            raise Unsupported("editor .%s = " % name)


NTOK = z3.Int("tokens_of_line")
LASTT, QINC = z3.String("last_token"), z3.Bool("quote_incomplete")
PRE, TAIL = z3.String("line_before_it"), z3.String("line_after_it")
LPOS, LLEN = z3.Length(PRE), z3.Length(LASTT)


class InputToken(Model):
    """a token of the line: the last one, or another"""
    def __init__(self, last):
        super().__init__()
        self.last = last
        self.text = LASTT if last else z3.String(fresh_name("token"))

    def getattr(self, E, name):
        if name in ("lexpos", "lexlen") and self.last:
            return SInt(LPOS if name == "lexpos" else LLEN)
        if name in ("quote_incomplete", "quoted"):
            return SBool(QINC if self.last and name == "quote_incomplete" else z3.Bool(fresh_name(name)))
        raise Unsupported("token .%s" % name)

    def str_(self, E):
        return SStr(self.text)

    def len_(self, E):
        return SInt(z3.Length(self.text))

    def truth(self, E):
        return z3.Length(self.text) > 0

    def havoc(self, E):
        pass


class LineTokens(Base):
    def length(self, E):
        return NTOK

    def elem(self, E, i):
        return E.new(InputToken(E.fork(i == NTOK - 1, "last token")))

    def texts(self, E, f):
        for last in (True, False):
            t = E.new(InputToken(last))
            r = f(t)
            if not (isinstance(r, (SStr, InputToken)) and (r.e if isinstance(r, SStr) else r.text).eq(t.text)):
                E.prove("the matcher is given the tokens of the line", False, repr(r))
        return E.new(Texts(self), site="texts")

    def comprehension(self, E, e, g, env):
        from pyvc.engine import Env
        if g.ifs or not isinstance(e, ast.ListComp):
            raise Unsupported("tokens filtered")
        cenv = Env({}, env, env.globals, env.owner, env.fn_name, env.cls_cell)
        cenv.node = env.node

        def f(t):
            E.assign(g.target, t, cenv)
            return E.eval(e.elt, cenv)
        return self.texts(E, f)

    def mapped(self, E, cls, f):
        if cls is not map:
            raise Unsupported("tokens filtered")
        return self.texts(E, lambda t: E.call(f, [t], {}))


class Texts(Base):
    """the texts of the tokens of the line, in order"""
    def __init__(self, of):
        super().__init__()
        self.of = of

    def length(self, E):
        return NTOK

    def elem(self, E, i):
        return SStr(E.new(InputToken(E.fork(i == NTOK - 1, "last token"))).text)


class Follow(Base):
    """next_tokens of the result of matching"""
    def __init__(self, E):
        super().__init__()
        self.n, self.eoi, self.more = z3.Int("number_of_suggestions"), E.fork(z3.Bool("ends"), "end of input may follow"), 0
        E.assume(self.n >= 0)

    def length(self, E):
        return self.n + (1 if self.eoi else 0) + self.more

    def contains(self, E, x):
        if x is IF.EndOfInpuToken:
            return self.eoi
        raise Unsupported("in suggestions")

    def elem(self, E, i):
        if self.eoi:
            raise Unsupported("element of suggestions")
        if E.fork(i < self.n, "suggestion"):
            return SStr(z3.Function("suggestion", I, S_)(i))
        return "NEWLINE: Complete command"

    def iop(self, E, op, b):
        if isinstance(op, ast.Add) and isinstance(b, PyList):
            E.note_write(self)
            self.more += len(b.items)
            return self
        raise Unsupported("suggestions += ")

    def getattr(self, E, name):
        def remove(E2, a, k):
            if a[0] is not IF.EndOfInpuToken or not self.eoi:
                raise Unsupported("remove of a suggestion")
            E2.note_write(self)
            self.eoi = False

        def append(E2, a, k):
            E2.note_write(self)
            self.more += 1
        if name in ("remove", "append"):
            return Builtin(name, remove if name == "remove" else append)
        raise Unsupported("suggestions .%s" % name)


class Shown(Base):
    """the matches shown by the editor"""
    def length(self, E):
        n = z3.Int("number_shown")
        E.assume(n >= 0)
        return n

    def elem(self, E, i):
        return fresh_str("shown")

    def truth(self, E):
        return self.length(E) > 0


def tokenize(E, args, kwargs):
    E.prove("the line that is typed is what is completed", B.zstr(args[1]) == LINE)
    blanks = z3.Star(z3.Union(*[z3.Re(c) for c in " \t\n"]))
    if not E.fork(z3.Bool("accepted"), "tokenized"):
        return (False, fresh_str("error"), E.new(PyList([])))
    E.assume(NTOK >= 0)
    if E.fork(NTOK > 0, "tokens"):
        E.assume(z3.And(LLEN > 0, LINE == z3.Concat(PRE, LASTT, TAIL), z3.InRe(TAIL, blanks)))
    else:
        E.assume(z3.InRe(LINE, blanks))
    return (True, None, E.new(LineTokens(), site="tokens"))


def match(E, args, kwargs):
    a = dict(zip(("self", "tok_list", "dry_run", "last_token_complete", "arglist"), args))
    a.update(kwargs)

    def body():
        complete = z3.And(z3.Length(LINE) > 0, z3.Not(z3.And(NTOK > 0, TAIL == z3.StringVal(""))))
        E.prove("the matcher is given the tokens of the line", isinstance(a["tok_list"], Texts), repr(a["tok_list"]))
        E.prove("completion runs nothing", E.truth(a.get("dry_run", False)))
        ltc = a.get("last_token_complete", False)
        ltc = E.truth(ltc)
        E.prove("the last token is complete exactly when a blank follows it", complete == z3.BoolVal(ltc),
                model_terms=dict(line=LINE, last=LASTT))
        f = dict(result=E.notes["result"], error=fresh_str("error"),
                 case_insensitive=SBool(z3.Bool("case_insensitive")), last_token=None, next_constant_token=None,
                 next_tokens=E.new(Follow(E), site="suggestions"))
        if not ltc and E.notes["replacement"]:
            E.assume(NTOK > 0)
            f["last_token"] = (SStr(LASTT), SStr(z3.String("replacement text")))
            E.assume(z3.And(z3.Length(z3.String("replacement text")) > 0, f["next_tokens"].n > 0,
                            z3.BoolVal(not f["next_tokens"].eoi)))
            if not E.feasible():
                raise Dead()
        if E.fork(z3.Bool("constant"), "constant"):
            f["next_constant_token"] = SStr(z3.String("constant text"))
            E.assume(z3.Length(z3.String("constant text")) > 0)
        r = E.new(Obj(IF.ParsingResult, f), site="result")
        E.notes["match"] = dict(f, ltc=ltc, follow=f["next_tokens"], eoi=f["next_tokens"].eoi)
        return r
    return Coro(body, "match")


def shown(E, args, kwargs):
    E.setattr(args[0], "_completion_matches", E.new(Shown(), site="matches"))


COMPLETE = {"nessaid_cli.cli:NessaidCli.tokenize": tokenize, "nessaid_cli.cmd:NessaidCmd.match": match,
            "nessaid_cli.interface:CliInterface.match": match,
            "nessaid_cli.cli:NessaidCli.set_completion_tokens": shown}


def complete_run(E, result, replacement):
    E.notes["result"], E.notes["replacement"] = result, replacement
    ed = E.new(Editor(), site="editor")
    state = E.choose(2, "state") if result == TK.MATCH_SUCCESS else 0
    first = result == TK.MATCH_SUCCESS
    waiting, partial = first and bool(E.choose(2, "waiting for input")), first and bool(E.choose(2, "continued line"))
    before = [None, "", fresh_str("before")][E.choose(3, "before")] if partial and not waiting else ""
    old = fresh_str("completed before") if E.fork(z3.Bool("completed"), "completed before") else None
    f = dict(_waiting_input=waiting, _partial_line=partial, _effective_line=before, _current_line=old,
             _suggestion_shown=SBool(z3.Bool("suggestion_shown")), _empty_line_matching=SBool(z3.Bool("empty_line_matching")),
             _completion_matches=E.new(Shown(), site="matches"), _readline=ed, _prompt=fresh_str("prompt"), _parent=None)
    cli = E.new(Obj(CL.NessaidCli, f, hooks={"prompt": lambda E2, o: fresh_str("prompt")}), site="cli")
    k, r = attempt(E, lambda: run_async(E, BM(method(CL.NessaidCli, "complete"), cli),
                                        ["", SInt(z3.Int("state")) if state else 0]))
    buf = ed.buf
    if waiting:
        E.cover("waiting")
        E.prove("while input is waited for, TAB is a character of it", buf == z3.Concat(LINE, z3.StringVal("\t")))
        return
    if partial:
        E.cover("continued")
        E.prove("in a continued line TAB joins the line with the lines before",
                buf == z3.Concat(B.zstr("" if before is None else before), LINE), model_terms=dict(line=LINE, after=buf))
        return
    kept = "the text already typed stays"
    m = E.notes.get("match")
    if m is None:
        E.prove(kept, buf == LINE, model_terms=dict(line=LINE, after=buf))
        return
    E.cover("matched")
    allowed = [buf == LINE]
    nct = B.zstr(m["next_constant_token"]) if m["next_constant_token"] is not None else None
    if m["last_token"]:
        rep = B.zstr(m["last_token"][1])
        n = z3.Length(LASTT)
        goes_on = z3.Or(z3.PrefixOf(LASTT, rep), z3.And(z3.Bool("case_insensitive"),
                                                        z3.PrefixOf(LOWER(LASTT), LOWER(rep))))
        rest = z3.SubString(rep, n, z3.Length(rep) - n)
        if not isinstance(m["ltc"], bool) or m["ltc"]:
            raise Unsupported("replacement of a complete token")
        E.cover("replacement")
        allowed += [z3.And(goes_on, buf == z3.Concat(LINE, rest)),
                    z3.And(goes_on, m["follow"].n == 1, buf == z3.Concat(LINE, rest, z3.StringVal(" ")))]
        if nct is not None:
            allowed.append(z3.And(nct == LASTT, buf == z3.Concat(LINE, z3.StringVal(" "))))
    elif nct is not None:
        E.cover("constant")
        allowed.append(z3.And(z3.BoolVal(m["ltc"]) if not isinstance(m["ltc"], bool) else z3.Or(z3.BoolVal(m["ltc"]), LINE == z3.StringVal("")),
                              buf == z3.Concat(LINE, nct)))
    E.prove("what is inserted is the rest of the common prefix, the only suggestion, or a blank", z3.Or(*allowed),
            model_terms=dict(line=LINE, last=LASTT, after=buf))


def keeps(E, env, i, it):
    return [("the line is some of what was typed", z3.PrefixOf(o.buf, LINE)) for o in E.objects if isinstance(o, Editor)]


def units(tier):
    return [Unit("what lies between two texts begins with what both begin with", lemma, covers=("lemma",)),
            Unit("common_prefix", prefix_run, covers=("some", "none"), contracts=PREFIX,
                 loops={"*": prefix_loop}, timeout_ms=1500),
            Unit("ParsingResult.set_next_tokens", next_run, covers=("replacement", "no replacement", "constant", "no constant"),
                 contracts=NEXT),
            ] + [Unit("NessaidCli.complete (%s%s)" % (r, ", the last token can be replaced" if rep else ""),
                      lambda E, r=r, rep=rep: complete_run(E, r, rep), contracts=COMPLETE, loops={"*": LoopSpec(keeps)},
                      covers=("matched",) + (("waiting", "continued") if r == TK.MATCH_SUCCESS else ()) +
                      (("replacement",) if rep else ("constant",)))
                 for r in RESULTS for rep in (False, True)]
