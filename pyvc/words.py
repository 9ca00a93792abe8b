"""Strings as words: an input string of any length over a finite partition of the characters, values computed from it as
finite-state transductions, branch conditions as regular languages. Decides equality of computed strings, membership in
regular languages and equality of languages for all inputs (no bound on length).

The alphabet: every character that occurs in a constant of the code under verification stands for itself; all other
characters are treated alike by the code (it only compares characters with its constants), so each class of them is
represented by two characters: two are enough to tell a copy of one position from a copy of another."""
import ast
import re
import unicodedata
import collections

from .values import *
from . import builtins_model as B

MARK = "\ue000"        # separates the parts of a split string; not a character of any input


# ------------------------------------------------------------------ automata
class DFA:
    """complete deterministic automaton over the alphabet `sigma` (list of characters)"""
    def __init__(self, sigma, init, delta, acc):
        """delta: function(state, char) -> state, acc: function(state) -> bool; explored here"""
        self.sigma = sigma
        num, todo, self.d, self.acc = {init: 0}, collections.deque([init]), [], []
        while todo:
            q = todo.popleft()
            row = {}
            for c in sigma:
                p = delta(q, c)
                if p not in num:
                    num[p] = len(num)
                    if len(num) > 60000:
                        raise Unsupported("automaton too large")
                    todo.append(p)
                row[c] = num[p]
            self.d.append(row)
            self.acc.append(bool(acc(q)))

    def run(self, w, q=0):
        for c in w:
            q = self.d[q][c]
        return q

    def accepts(self, w):
        return self.acc[self.run(w)]

    def complement(self):
        return DFA(self.sigma, 0, lambda q, c: self.d[q][c], lambda q: not self.acc[q])

    def product(self, o, f):
        return DFA(self.sigma, (0, 0), lambda q, c: (self.d[q[0]][c], o.d[q[1]][c]),
                   lambda q: f(self.acc[q[0]], o.acc[q[1]])).minimal()

    def __and__(self, o):
        return self.product(o, lambda a, b: a and b)

    def __or__(self, o):
        return self.product(o, lambda a, b: a or b)

    def __sub__(self, o):
        return self.product(o, lambda a, b: a and not b)

    def minimal(self):
        cls = [int(a) for a in self.acc]
        n = len(set(cls))
        while True:
            sig, new = {}, []
            for q in range(len(self.d)):
                s = (cls[q],) + tuple(cls[self.d[q][c]] for c in self.sigma)
                new.append(sig.setdefault(s, len(sig)))
            cls = new
            if len(sig) == n:
                break
            n = len(sig)
        rep = {}
        for q in range(len(self.d)):
            rep.setdefault(cls[q], q)
        return DFA(self.sigma, cls[0], lambda k, c: cls[self.d[rep[k]][c]], lambda k: self.acc[rep[k]])

    def witness(self, start=0):
        """a shortest accepted word from a state, or None"""
        seen, todo = {start: ""}, collections.deque([start])
        while todo:
            q = todo.popleft()
            if self.acc[q]:
                return seen[q]
            for c in self.sigma:
                p = self.d[q][c]
                if p not in seen:
                    seen[p] = seen[q] + c
                    todo.append(p)
        return None

    def empty(self):
        return self.witness() is None


def lang_all(sigma):
    return DFA(sigma, 0, lambda q, c: 0, lambda q: True)


def lang_without(sigma, chars):
    return DFA(sigma, 0, lambda q, c: 1 if q or c in chars else 0, lambda q: q == 0)


def kmp(p, buf):
    """longest prefix of p that is a suffix of buf"""
    for k in range(min(len(p), len(buf)), -1, -1):
        if buf.endswith(p[:k]):
            return p[:k]


def lang_contains(sigma, p):
    return DFA(sigma, "", lambda q, c: q if q == p else kmp(p, q + c), lambda q: q == p)


def lang_prefix(sigma, p):
    return DFA(sigma, 0, lambda q, c: q if q in (-1, len(p)) else q + 1 if c == p[q] else -1, lambda q: q == len(p))


def lang_suffix(sigma, p):
    n = len(p)
    return DFA(sigma, "", lambda q, c: (q + c)[-n:] if n else "", lambda q: q == p)


def lang_is(sigma, p):
    return DFA(sigma, 0, lambda q, c: q + 1 if 0 <= q < len(p) and c == p[q] else -1, lambda q: q == len(p))


def lang_nonempty(sigma):
    return DFA(sigma, 0, lambda q, c: 1, lambda q: q == 1)


# ------------------------------------------------------------------ regular expressions (re.match of the real pattern)
def char_set(items, flags):
    """the characters of an IN node, as a predicate"""
    from re import _constants as K
    neg, preds = False, []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            preds.append(lambda c, v=av: ord(c) == v)
        elif op is K.RANGE:
            preds.append(lambda c, v=av: v[0] <= ord(c) <= v[1])
        elif op is K.CATEGORY:
            preds.append(lambda c, v=av: category(v, c))
        else:
            raise Unsupported("regex class %s" % op)
    return lambda c: any(p(c) for p in preds) != neg


def category(v, c):
    from re import _constants as K
    pat = {K.CATEGORY_DIGIT: r"\d", K.CATEGORY_NOT_DIGIT: r"\D", K.CATEGORY_SPACE: r"\s", K.CATEGORY_NOT_SPACE: r"\S",
           K.CATEGORY_WORD: r"\w", K.CATEGORY_NOT_WORD: r"\W"}.get(v)
    if pat is None:
        raise Unsupported("regex category %s" % v)
    return re.match(pat, c) is not None


class Regex:
    """prioritised NFA of a parsed pattern: transitions in order of preference"""
    def __init__(self):
        self.eps, self.step, self.n = {}, {}, 0

    def state(self):
        self.n += 1
        return self.n - 1

    def build(self, items, end, flags):
        """states for a sequence of parse nodes that continue at `end`; returns the entry"""
        from re import _constants as K
        q = end
        for op, av in reversed(list(items)):
            if op is K.LITERAL:
                q = self.char(lambda c, v=av: ord(c) == v, q)
            elif op is K.NOT_LITERAL:
                q = self.char(lambda c, v=av: ord(c) != v, q)
            elif op is K.IN:
                q = self.char(char_set(av, flags), q)
            elif op is K.ANY:
                q = self.char((lambda c: True) if flags & re.DOTALL else (lambda c: c != "\n"), q)
            elif op is K.SUBPATTERN:
                q = self.build(av[3], q, flags)
            elif op is K.BRANCH:
                s = self.state()
                self.eps[s] = [self.build(b, q, flags) for b in av[1]]
                q = s
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
                lo, hi, sub = av
                greedy = op is K.MAX_REPEAT
                if hi is K.MAXREPEAT:
                    if sub.getwidth()[0] == 0:
                        raise Unsupported("repetition of a pattern that may be empty")
                    loop = self.state()
                    body = self.build(sub, loop, flags)
                    self.eps[loop] = [body, q] if greedy else [q, body]
                    q = loop
                else:
                    after = q
                    for _ in range(hi - lo):
                        s = self.state()
                        body = self.build(sub, q, flags)
                        self.eps[s] = [body, after] if greedy else [after, body]
                        q = s
                for _ in range(lo):
                    q = self.build(sub, q, flags)
            else:
                raise Unsupported("regex node %s" % op)
        return q

    def char(self, pred, to):
        s = self.state()
        self.step[s] = (pred, to)
        return s

    def closure(self, qs):
        """ordered, without duplicates; cut after the accepting state"""
        out, seen = [], set()

        def visit(q):
            if q in seen:
                return
            seen.add(q)
            if q in self.eps:
                for p in self.eps[q]:
                    visit(p)
            else:
                out.append(q)
        for q in qs:
            visit(q)
        if self.accept in out:
            out = out[:out.index(self.accept) + 1]
        return tuple(out)


def match_dfa(pattern, flags, sigma):
    """automaton of re.match: the match ends at the last accepting position (none: no match)"""
    items = re._parser.parse(pattern, flags) if isinstance(pattern, str) else pattern
    rx = Regex()
    rx.accept = rx.state()
    start = rx.build(items, rx.accept, flags)
    init = rx.closure([start])

    def delta(q, c):
        if c == MARK:
            return ()
        return rx.closure([rx.step[s][1] for s in q if s in rx.step and rx.step[s][0](c)])
    return DFA(sigma, init, delta, lambda q: rx.accept in q)


def split_language(m, sigma):
    """{u MARK v : re.match on uv ends exactly after u}, for the match automaton m without MARK"""
    dead = "dead"

    def delta(q, c):
        if q == dead:
            return dead
        phase, s = q
        if c == MARK:
            return (1, s) if phase == 0 and m.acc[s] else dead
        s = m.d[s][c]
        if phase == 1 and m.acc[s]:
            return dead
        return (phase, s)
    return DFA(sigma, (0, 0), delta, lambda q: q != dead and q[0] == 1)


# ------------------------------------------------------------------ transducers
class FST:
    """subsequential transducer: deterministic, output on transitions, final output (None: undefined)"""
    def __init__(self, sigma, init, step, final, initout=""):
        self.sigma, self.initout = sigma, initout
        num, todo, self.d, self.fin = {init: 0}, collections.deque([init]), [], []
        while todo:
            q = todo.popleft()
            row = {}
            for c in sigma:
                p, out = step(q, c)
                if p not in num:
                    num[p] = len(num)
                    if len(num) > 60000:
                        raise Unsupported("transducer too large")
                    todo.append(p)
                row[c] = (num[p], out)
            self.d.append(row)
            self.fin.append(final(q))

    def apply(self, w):
        q, out = 0, [self.initout]
        for c in w:
            q, o = self.d[q][c]
            out.append(o)
        return None if self.fin[q] is None else "".join(out) + self.fin[q]

    def then(self, g):
        """first self, then g"""
        def feed(q, w):
            out = []
            for c in w:
                q, o = g.d[q][c]
                out.append(o)
            return q, "".join(out)
        q0, o0 = feed(0, self.initout)

        def step(q, c):
            a, o = self.d[q[0]][c]
            b, o2 = feed(q[1], o)
            return (a, b), o2

        def final(q):
            if self.fin[q[0]] is None:
                return None
            b, o = feed(q[1], self.fin[q[0]])
            return None if g.fin[b] is None else o + g.fin[b]
        r = FST(self.sigma, (0, q0), step, final, g.initout + o0)
        return r.merged()

    def merged(self):
        """states with the same behaviour (outputs as they are) identified"""
        cls = {}
        part = [cls.setdefault(f, len(cls)) for f in self.fin]
        n = len(cls)
        while True:
            sig, new = {}, []
            for q in range(len(self.d)):
                s = (part[q],) + tuple((part[self.d[q][c][0]], self.d[q][c][1]) for c in self.sigma)
                new.append(sig.setdefault(s, len(sig)))
            part = new
            if len(sig) == n:
                break
            n = len(sig)
        rep = {}
        for q in range(len(self.d)):
            rep.setdefault(part[q], q)
        return FST(self.sigma, part[0], lambda k, c: (part[self.d[rep[k]][c][0]], self.d[rep[k]][c][1]),
                   lambda k: self.fin[rep[k]], self.initout)

    def preimage(self, lang):
        def step(q, c):
            a, o = self.d[q[0]][c]
            return a, lang.run(o, q[1])
        return DFA(self.sigma, (0, lang.run(self.initout)), step,
                   lambda q: self.fin[q[0]] is not None and lang.acc[lang.run(self.fin[q[0]], q[1])]).minimal()


def fst_id(sigma):
    return FST(sigma, 0, lambda q, c: (0, c), lambda q: "")


def fst_const(sigma, w):
    return FST(sigma, 0, lambda q, c: (0, ""), lambda q: w)


def fst_replace(sigma, p, r):
    if not p:
        raise Unsupported("replace of the empty string")

    def step(q, c):
        buf = q + c
        if buf == p:
            return "", r
        k = kmp(p, buf)
        return k, buf[:len(buf) - len(k)]
    return FST(sigma, "", step, lambda q: q)


def fst_replace_n(sigma, p, r, n):
    def step(q, c):
        pend, left = q
        if not left:
            return q, c
        buf = pend + c
        if buf == p:
            return ("", left - 1), r
        k = kmp(p, buf)
        return (k, left), buf[:len(buf) - len(k)]
    return FST(sigma, ("", n), step, lambda q: q[0])


def fst_drop_first(sigma, k):
    return FST(sigma, 0, lambda q, c: (q + 1, "") if q < k else (q, c), lambda q: "")


def fst_drop_last(sigma, k):
    def step(q, c):
        buf = q + c
        return (buf, "") if len(buf) <= k else (buf[1:], buf[0])
    return FST(sigma, "", step, lambda q: "")


def fst_wrap(sigma, pre, post):
    return FST(sigma, 0, lambda q, c: (0, c), lambda q: post, pre)


def fst_translate(sigma, f):
    return FST(sigma, 0, lambda q, c: (0, f(c)), lambda q: "")


def differ(f, g, dom):
    """a word of dom on which the transducers differ, or None"""
    sigma = dom.sigma
    start = (0, 0, 0)

    def succ(q, c):
        return f.d[q[0]][c][0], g.d[q[1]][c][0], dom.d[q[2]][c]

    def done(q):
        return dom.acc[q[2]] and (f.fin[q[0]] is not None or g.fin[q[1]] is not None)
    # states from which acceptance is reachable, with a shortest completion
    seen, todo, back = {start}, collections.deque([start]), {}
    while todo:
        q = todo.popleft()
        for c in sigma:
            p = succ(q, c)
            back.setdefault(p, []).append((q, c))
            if p not in seen:
                seen.add(p)
                todo.append(p)
    comp = {q: "" for q in seen if done(q)}
    todo = collections.deque(comp)
    while todo:
        q = todo.popleft()
        for p, c in back.get(q, []):
            if p not in comp:
                comp[p] = c + comp[q]
                todo.append(p)
    if start not in comp:
        return None

    def strip(u, v):
        n = 0
        while n < len(u) and n < len(v) and u[n] == v[n]:
            n += 1
        return u[n:], v[n:]
    delay = {start: strip(f.initout, g.initout)}
    word = {start: ""}
    todo = collections.deque([start])

    def bad(*ws):
        for w in ws:
            if dom.accepts(w) and f.apply(w) != g.apply(w):
                return w
        raise AssertionError("no difference found")
    while todo:
        q = todo.popleft()
        u, v = delay[q]
        if u and v:
            return bad(word[q] + comp[q])
        if done(q):
            a, b = f.fin[q[0]], g.fin[q[1]]
            if a is None or b is None or u + a != v + b:
                return bad(word[q])
        for c in sigma:
            p = succ(q, c)
            if p not in comp:
                continue
            d = strip(u + f.d[q[0]][c][1], v + g.d[q[1]][c][1])
            if p not in delay:
                delay[p] = d
                word[p] = word[q] + c
                todo.append(p)
            elif delay[p] != d:
                return bad(word[p] + comp[p], word[q] + c + comp[p])
    return None


# ------------------------------------------------------------------ alphabets
def constants_of(*objs):
    """characters in short string constants of functions, classes and modules, and those with the code of a constant"""
    import inspect
    import textwrap
    out = set()
    for o in objs:
        tree = ast.parse(textwrap.dedent(inspect.getsource(o)))
        docs = {id(n.body[0].value) for n in ast.walk(tree)
                if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module, ast.AsyncFunctionDef)) and n.body
                and isinstance(n.body[0], ast.Expr)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                if isinstance(n.value, str):
                    out |= set(n.value) if len(n.value) <= 16 else set()
                elif type(n.value) is int and 16 <= n.value < 0x110000:
                    out.add(chr(n.value))
    return out


def regex_chars(items):
    """characters and range ends of a parsed pattern"""
    from re import _constants as K
    out = set()

    def walk(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] in (K.LITERAL, K.NOT_LITERAL) and isinstance(x[1], int):
            out.add(chr(x[1]))
        elif isinstance(x, tuple) and len(x) == 2 and x[0] is K.RANGE:
            out.update(chr(v) for v in x[1])
        elif isinstance(x, (list, tuple)) or isinstance(x, re._parser.SubPattern):
            for y in x:
                walk(y)
    walk(list(items))
    return out


PREDICATES = [lambda c: unicodedata.category(c) == "Cc", str.isspace, str.isalnum, str.isalpha, str.isdigit, str.isdecimal, str.isnumeric, str.isprintable, str.isupper,
              str.islower, str.isidentifier, lambda c: re.match(r"\s", c) is not None, lambda c: re.match(r"\w", c) is not None]


def alphabet(chars):
    """the characters given stand for themselves; two of each class of the others, where a class is what lies between two
    of the given ones in the order of the codes and what the character predicates of Python do not distinguish"""
    import bisect
    chars = sorted(set(chars) - {MARK})
    groups, table = {}, set(chars)
    for k in list(range(0x3000)) + list(range(0xff00, 0x10000)) + [0x10ffff, 0x1d7ce, 0x1d7d8, 0x1f600, 0x20000]:
        c = chr(k)
        if c not in table:
            groups.setdefault((bisect.bisect(chars, c),) + tuple(bool(p(c)) for p in PREDICATES), []).append(c)
    # classes of non-ASCII characters only matter to the predicates: one group per signature
    merged = {}
    for k, g in groups.items():
        merged.setdefault(k, []).extend(g)
    sigma = list(chars)
    for g in merged.values():
        sigma += g[:2]
    return sigma + [MARK]


class Base:
    """an input string: any word of its domain"""
    def __init__(self, sigma, name="s", dom=None):
        self.sigma, self.name = sigma, name
        self.dom = (dom if dom is not None else lang_all(sigma)) & lang_without(sigma, MARK)
        self.dom = self.dom.minimal()


_cache = {}


def cached(key, make):
    if key not in _cache:
        _cache[key] = make()
    return _cache[key]


class Word(Model):
    """the string fst(base)"""
    def __init__(self, base, fst=None, tags=None, cls=str):
        super().__init__()
        self.base, self.cls, self.tags = base, cls, dict(tags or {})
        self.fst = fst if fst is not None else cached(("id", tuple(base.sigma)), lambda: fst_id(base.sigma))

    def __repr__(self):
        return "Word(%s, %d states)" % (self.base.name, len(self.fst.d))

    def new(self, E, fst):
        return E.new(type(self)(self.base, fst))

    def map(self, E, key, make):
        s = self.base.sigma
        g = cached((key, tuple(s)), lambda: make(s))
        r = type(self)(self.base, cached(("then", id(self.fst), id(g)), lambda: (self.fst.then(g), self.fst, g))[0])
        return E.new(r) if E is not None else r

    def lang(self, key, make):
        s = self.base.sigma
        return cached((key, tuple(s)), lambda: make(s))

    def decide(self, E, lang, label):
        pre = cached(("pre", id(self.fst), id(lang)), lambda: (self.fst.preimage(lang), self.fst, lang))[0]
        yes, no = self.base.dom & pre, self.base.dom - pre
        if no.empty():
            return True
        if yes.empty():
            return False
        c = E.choose(2, label) == 0
        self.base.dom = yes if c else no
        return c

    # what the engine asks
    def truth(self, E):
        return self.decide(E, self.lang("nonempty", lang_nonempty), "empty?")

    def isinstance_(self, E, cls):
        return issubclass(self.cls, cls)

    def type_(self, E):
        return self.cls

    def is_none(self, E):
        return False

    def havoc(self, E):
        raise Unsupported("string computed in a loop")

    def contains(self, E, x):
        if not isinstance(x, str):
            raise Unsupported("in on a word")
        return self.decide(E, self.lang(("contains", x), lambda s: lang_contains(s, x)), "%r in" % x)

    def eq(self, E, o):
        if isinstance(o, str):
            if not set(o) <= set(self.base.sigma):
                return False
            return self.decide(E, self.lang(("is", o), lambda s: lang_is(s, o)), "== %r" % o)
        if isinstance(o, Word):
            if o.base is self.base:
                if differ(self.fst, o.fst, self.base.dom) is None:
                    return True
                if self.disjoint(o):
                    return False
                raise Unsupported("equality of two computed words")
            h = self.base.__dict__.get("distinct")
            if h is not None and h is o.base and len(self.fst.d) == 1 == len(o.fst.d) and \
                    differ(self.fst, fst_id(self.base.sigma), self.base.dom) is None and \
                    differ(o.fst, fst_id(self.base.sigma), o.base.dom) is None:
                return False
            raise Unsupported("equality of words of two inputs")
        return False

    def disjoint(self, o):
        """never equal (decided by their first outputs only when both are one-state)"""
        return False

    def getattr(self, E, name):
        if name in self.tags:
            return self.tags[name]
        if name == "value" and self.cls is not str:
            return self
        if name == "__class__":
            return self.cls
        if hasattr(str, name):
            return Builtin(name, lambda E2, a, k: self.call(E2, name, a, k))
        for k in self.cls.__mro__:
            if name in k.__dict__ and k not in (str, object):
                raise Unsupported("attribute %s of %s" % (name, self.cls.__name__))
        E.raise_(AttributeError, name)

    def setattr(self, E, name, v):
        if self.cls is str:
            E.raise_(AttributeError, name)
        self.tags[name] = v

    def getitem(self, E, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("slice with a step")
            lo, hi = i.start, i.stop
            if not all(x is None or isinstance(x, int) for x in (lo, hi)):
                raise Unsupported("slice of a word")
            if (lo or 0) < 0 or (hi is not None and hi >= 0 and hi != 0):
                raise Unsupported("slice of a word")
            r = self
            if lo:
                r = r.map(E, ("drop", lo), lambda s: fst_drop_first(s, lo))
            if hi is not None:
                if hi == 0:
                    return ""
                r = r.map(E, ("droplast", -hi), lambda s: fst_drop_last(s, -hi))
            return r
        if i in (0, -1):
            for c in self.base.sigma[:-1]:
                l = self.lang(("first", c), lambda s: lang_prefix(s, c)) if i == 0 else \
                    self.lang(("last", c), lambda s: lang_suffix(s, c))
                if self.decide(E, l, "[%d] == %r" % (i, c)):
                    return c
            E.raise_(IndexError, "string index out of range")
        raise Unsupported("index of a word")

    def binop(self, E, op, b, swapped):
        if isinstance(op, ast.Add) and isinstance(b, str):
            pre, post = (b, "") if swapped else ("", b)
            return self.map(E, ("wrap", pre, post), lambda s: fst_wrap(s, pre, post))
        if isinstance(op, ast.Add) and isinstance(b, Word) and b.constant() is not None:
            return self.binop(E, op, b.constant(), swapped)
        return B.NOMODEL

    def constant(self):
        """the one string this can be, or None"""
        return None

    as_text = True

    def str_(self, E):
        return self if self.cls is str else E.new(Word(self.base, self.fst))

    def as_instance(self, E, cls):
        return E.new(Word(self.base, self.fst, {}, cls))

    def len_(self, E):
        return WordLen(self)

    def call(self, E, name, a, k):
        if k:
            raise Unsupported("str.%s with keywords" % name)
        if name in ("startswith", "endswith") and len(a) == 1:
            ps = a[0] if isinstance(a[0], tuple) else (a[0],)
            if all(isinstance(p, str) for p in ps):
                f = lang_prefix if name == "startswith" else lang_suffix
                return any(self.decide(E, self.lang((name, p), lambda s: f(s, p)), "%s(%r)" % (name, p)) for p in ps)
        if name == "replace" and len(a) == 2 and all(isinstance(x, str) for x in a):
            p, r = a
            return self.map(E, ("replace", p, r), lambda s: fst_replace(s, p, r))
        if name == "replace" and len(a) == 3 and all(isinstance(x, str) for x in a[:2]) and isinstance(a[2], int):
            p, r, n = a
            return self.map(E, ("replace", p, r, n), lambda s: fst_replace_n(s, p, r, n))
        if name == "split" and len(a) == 1 and isinstance(a[0], str):
            p = a[0]
            return E.new(Parts(self.map(E, ("replace", p, MARK), lambda s: fst_replace(s, p, MARK))))
        if name == "translate" and isinstance(a[0], (dict, PyDict)):
            t = dict(a[0].pairs) if isinstance(a[0], PyDict) else a[0]

            def tr(c):
                v = t.get(ord(c), c)
                return "" if v is None else chr(v) if isinstance(v, int) else v
            return self.map(E, ("translate", tuple(sorted((k, str(v)) for k, v in t.items()))), lambda s: fst_translate(s, tr))
        if name in ("strip", "lstrip", "rstrip") and (not a or isinstance(a[0], str)):
            return E.new(Stripped(self, name, set(a[0]) if a else {c for c in self.base.sigma if c.isspace()}))
        if name in ("isspace", "isalnum", "isalpha", "isdigit", "isdecimal", "isnumeric", "isprintable", "isascii") and not a:
            good = {c for c in self.base.sigma if getattr(c, name)()}
            l = self.lang(("all", name), lambda s: lang_without(s, set(s) - good))
            return self.decide(E, l, name) and (name in ("isprintable", "isascii") or self.truth(E))
        if name == "encode" or name == "format":
            raise Unsupported("str.%s of a word" % name)
        if name == "__contains__":
            return self.contains(E, a[0])
        if name == "removeprefix" and isinstance(a[0], str):
            return self.getitem(E, slice(len(a[0]), None)) if self.call(E, "startswith", a, {}) else self
        if name == "removesuffix" and isinstance(a[0], str):
            return self.getitem(E, slice(None, -len(a[0]))) if a[0] and self.call(E, "endswith", a, {}) else self
        raise Unsupported("str.%s of a word" % name)

    # loops over the characters
    def chars_of(self):
        return self.base.sigma[:-1]

    def run_for(self, E, s, env):
        run_chars(E, self, s.target, s.body, env, s.orelse)

    def comprehension(self, E, e, g, env):
        """[f(c) for c in word]: the text of the joined list, kept as one string with marks between"""
        out = {}
        from .engine import Env
        cenv = Env({}, env, env.globals, env.owner, env.fn_name, env.cls_cell)
        cenv.node = env.node
        for c in self.chars_of():
            E.assign(g.target, c, cenv)
            keep = True
            for cond in g.ifs:
                keep = keep and E.truth(E.eval(cond, cenv))
            v = E.eval(e.elt, cenv) if keep else ""
            if not isinstance(v, str):
                raise Unsupported("list of characters")
            out[c] = v
        return E.new(Pieces(self.map(E, ("each", tuple(sorted(out.items()))), lambda s: fst_translate(s, lambda c: out.get(c, c)))))

    def any_all(self, E, which, comp, g, env):
        from .engine import Env
        cenv = Env({}, env, env.globals, env.owner, env.fn_name, env.cls_cell)
        cenv.node = env.node
        good = []
        for c in self.chars_of():
            E.assign(g.target, c, cenv)
            if all(E.truth(E.eval(x, cenv)) for x in g.ifs):
                if E.truth(E.eval(comp.elt, cenv)):
                    good.append(c)
            elif which == "all":
                good.append(c)
        sigma = self.base.sigma
        if which == "all":
            lang = self.lang(("only", tuple(good)), lambda s: lang_without(s, set(sigma) - set(good)))
        else:
            lang = self.lang(("some", tuple(good)), lambda s: lang_without(s, good).complement())
        return self.decide(E, lang, which)


class Stripped(Model):
    """w.strip(chars): whether anything is left, and whether anything is taken away"""
    def __init__(self, w, name, chars):
        super().__init__()
        self.w, self.name, self.chars = w, name, chars

    def truth(self, E):
        return self.w.decide(E, self.w.lang(("notonly", tuple(sorted(self.chars))),
                                            lambda s: lang_without(s, set(s) - self.chars).complement()), "strip")

    def same(self, E):
        """nothing is taken away"""
        def lang(s):
            r = lang_all(s)
            for c in self.chars & set(s):
                if self.name != "rstrip":
                    r = r - lang_prefix(s, c)
                if self.name != "lstrip":
                    r = r - lang_suffix(s, c)
            return r.minimal()
        return self.w.decide(E, self.w.lang(("unstripped", self.name, tuple(sorted(self.chars))), lang), "unstripped")

    def eq(self, E, o):
        if o == "" and isinstance(o, str):
            return not self.truth(E)
        if isinstance(o, Word) and o.base is self.w.base and differ(o.fst, self.w.fst, o.base.dom) is None:
            return self.same(E)
        if self.same(E):
            return self.w.eq(E, o)
        raise Unsupported("equality of a stripped word")

    def real(self, E):
        if self.same(E):
            return self.w
        raise Unsupported("a stripped word")

    def getattr(self, E, name):
        return self.real(E).getattr(E, name)

    def getitem(self, E, i):
        return self.real(E).getitem(E, i)

    def contains(self, E, x):
        return self.real(E).contains(E, x)

    def binop(self, E, op, b, swapped):
        return self.real(E).binop(E, op, b, swapped)

    def len_(self, E):
        return StrippedLen(self)

    def str_(self, E):
        return self

    def havoc(self, E):
        raise Unsupported("string computed in a loop")

    def isinstance_(self, E, cls):
        return issubclass(str, cls)

    def type_(self, E):
        return str


class StrippedLen(Model):
    def __init__(self, s):
        super().__init__()
        self.s = s

    def truth(self, E):
        return self.s.truth(E)

    def eq(self, E, o):
        if o == 0:
            return not self.s.truth(E)
        raise Unsupported("length of a stripped word")

    def order(self, E, op, b, swapped=False):
        if b == 0 and isinstance(op, ast.Gt) and not swapped:
            return self.s.truth(E)
        raise Unsupported("length of a stripped word")

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return issubclass(int, cls)


class Words(Model):
    """a list or tuple of input strings of any length; a loop over it is decided for one arbitrary element: the body may
    append one string for it to lists that were empty before, and carries nothing over to the next element"""
    def __init__(self, make, kind=tuple, on_element=None):
        super().__init__()
        self.make, self.kind, self.on_element = make, kind, on_element

    def one(self, E, target, cenv):
        w = self.make(E)
        E.assign(target, w, cenv)
        return w

    def run_for(self, E, s, env):
        from .engine import assigned_names, BreakSig, ContinueSig, ReturnSig
        names = assigned_names(s.body)
        lists = [(n, v) for n, v in env.vars.items() if isinstance(v, PyList) and grows(s.body, n)]
        for n, v in lists:
            if v.items:
                raise Unsupported("list %s is not empty before a loop over strings" % n)
        changed = [n for n in names if n in env.vars and not any(n == m for m, _ in lists)]
        for n in changed:
            del env.vars[n]
        if E.choose(2, "element@%d" % s.lineno) == 0:
            accs = {}
            for n, v in lists:
                accs[n] = env.vars[n] = E.new(Collect())
            w = self.one(E, s.target, env)
            try:
                E.exec_block(s.body, env)
            except ContinueSig:
                pass
            except (BreakSig, ReturnSig):
                raise Unsupported("loop over strings is left early")
            for n, a in accs.items():
                if env.vars[n] is not a:
                    raise Unsupported("list %s" % n)
                E.ghost["elements"](E, w, a.got)
            raise Dead()
        for n, v in lists:
            r = E.new(MappedWords())
            for m, x in list(env.vars.items()):
                if x is v:
                    env.vars[m] = r
        for n in names_in_target(s.target):
            env.vars.pop(n, None)
        E.exec_block(s.orelse, env)

    def comprehension(self, E, e, g, env):
        from .engine import Env
        if E.choose(2, "element@%d" % e.lineno) == 0:
            cenv = Env({}, env, env.globals, env.owner, env.fn_name, env.cls_cell)
            cenv.node = env.node
            w = self.one(E, g.target, cenv)
            got = []
            if all(E.truth(E.eval(c, cenv)) for c in g.ifs):
                got.append(E.eval(e.elt, cenv))
            E.ghost["elements"](E, w, got)
            raise Dead()
        return E.new(MappedWords())

    def mapped(self, E, cls, f):
        if E.choose(2, "element of map") == 0:
            w = self.make(E)
            got = [w]
            r = E.call(f, [w], {})
            E.ghost["elements"](E, w, [r] if cls is map else [w] if E.truth(r) else [])
            raise Dead()
        return E.new(MappedWords())

    def joined(self, E, sep):
        """the strings as they are"""
        if E.choose(2, "element of join") == 0:
            w = self.make(E)
            E.ghost["elements"](E, w, [w])
            raise Dead()
        return E.new(Line(sep))

    def truth(self, E):
        return z3.Bool("any arguments")

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return issubclass(self.kind, cls)

    def to_list(self, E):
        return self

    def to_tuple(self, E):
        return self

    def getattr(self, E, name):
        raise Unsupported("%s of a list of strings" % name)


def names_in_target(t):
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]


class Collect(Model):
    """the list a loop over strings appends to"""
    def __init__(self):
        super().__init__()
        self.got = []

    def getattr(self, E, name):
        if name == "append":
            return Builtin("append", lambda E2, a, k: self.got.append(a[0]))
        raise Unsupported("list.%s in a loop over strings" % name)

    def iop(self, E, op, b):
        if isinstance(op, ast.Add) and isinstance(b, PyList):
            self.got.extend(b.items)
            return self
        raise Unsupported("list in a loop over strings")

    def truth(self, E):
        raise Unsupported("a branch on what a loop collected")

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return issubclass(list, cls)


class MappedWords(Model):
    """what a loop over strings collected: the obligations on its elements are stated where they are made"""
    def joined(self, E, sep):
        return E.new(Line(sep))

    def to_list(self, E):
        return self

    def to_tuple(self, E):
        return self

    def truth(self, E):
        return z3.Bool("any arguments")

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return issubclass(list, cls)

    def getattr(self, E, name):
        raise Unsupported("list.%s of collected strings" % name)


class Line(Model):
    """the collected strings joined"""
    def __init__(self, sep):
        super().__init__()
        self.sep = sep

    def truth(self, E):
        return z3.Bool("any arguments")

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return issubclass(str, cls)

    def getattr(self, E, name):
        raise Unsupported("str.%s of a joined line" % name)


class WordLen(Model):
    def __init__(self, w):
        super().__init__()
        self.w = w

    def truth(self, E):
        return self.w.truth(E)

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return issubclass(int, cls)

    def eq(self, E, o):
        if isinstance(o, int):
            return self.at_least(E, o) and not self.at_least(E, o + 1)
        return False

    def at_least(self, E, n):
        if n <= 0:
            return True
        l = self.w.lang(("len>=", n), lambda s: DFA(s, 0, lambda q, c: min(q + 1, n), lambda q: q == n))
        return self.w.decide(E, l, "len >= %d" % n)

    def binop(self, E, op, b, swapped):
        raise Unsupported("arithmetic on the length of a word")

    def order_swapped(self, E, op, a):
        return self.order(E, op, a, True)

    def order(self, E, op, b, swapped=False):
        if not isinstance(b, int):
            raise Unsupported("length of a word")
        o = type(op)
        if swapped:
            o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[o]
        return {ast.Gt: lambda: self.at_least(E, b + 1), ast.GtE: lambda: self.at_least(E, b),
                ast.Lt: lambda: not self.at_least(E, b), ast.LtE: lambda: not self.at_least(E, b + 1)}[o]()


class Part(Word):
    """one part of a split string: every part at once; only what does not depend on which part it is"""
    def decide(self, E, lang, label):
        raise Unsupported("a branch on one part of a split string")

    def call(self, E, name, a, k):
        if name in ("replace", "translate") and not k and (name == "translate" or len(a) == 2):
            return Word.call(self, E, name, a, k)
        raise Unsupported("str.%s of a part" % name)

    def getitem(self, E, i):
        raise Unsupported("slice of a part")

    def binop(self, E, op, b, swapped):
        raise Unsupported("part + ...")

    def getattr(self, E, name):
        return Word.getattr(self, E, name)

    def run_for(self, E, s, env):
        run_chars(E, self, s.target, s.body, env, s.orelse, stateless=True)


class Parts(Model):
    """the list s.split(sep) (never empty), possibly with every part mapped"""
    def __init__(self, word):
        super().__init__()
        self.word = word

    def part(self, E):
        return E.new(Part(self.word.base, self.word.fst))

    def run_for(self, E, s, env):
        before = dict(env.vars)
        E.assign(s.target, self.part(E), env)
        lists = [v for v in before.values() if isinstance(v, PyList)]
        sizes = {id(l): len(l.items) for l in lists}
        try:
            E.exec_block(s.body, env)
        except Exception as x:
            if type(x).__name__ in ("BreakSig", "ContinueSig", "ReturnSig", "PyExc"):
                raise Unsupported("loop over parts is left early")
            raise
        for n, v in list(env.vars.items()):
            if isinstance(v, PyList) and n in before and before[n] is v and len(v.items) != sizes[id(v)]:
                if sizes[id(v)] or len(v.items) != 1 or not isinstance(v.items[0], Part):
                    raise Unsupported("list built over parts")
                p = E.new(Parts(v.items[0]))
                for m, w in list(env.vars.items()):
                    if w is v:
                        env.vars[m] = p
            elif isinstance(v, Part):
                del env.vars[n]        # what the last part was is not tracked
            elif n not in before:
                env.vars[n] = Unk("set in a loop over parts")
            elif before[n] is not v:
                raise Unsupported("variable %s changed in a loop over parts" % n)
        E.exec_block(s.orelse, env)

    def comprehension(self, E, e, g, env):
        from .engine import Env
        if g.ifs:
            raise Unsupported("filtered parts")
        cenv = Env({}, env, env.globals, env.owner, env.fn_name, env.cls_cell)
        cenv.node = env.node
        E.assign(g.target, self.part(E), cenv)
        v = E.eval(e.elt, cenv)
        if not isinstance(v, Part):
            raise Unsupported("list built over parts")
        return E.new(Parts(v))

    def mapped(self, E, cls, f):
        if cls is not map:
            raise Unsupported("filtered parts")
        v = E.call(f, [self.part(E)], {})
        if not isinstance(v, Part):
            raise Unsupported("list built over parts")
        return E.new(Parts(v))

    def joined(self, E, sep):
        w = E.new(Word(self.word.base, self.word.fst))
        return w.map(E, ("join", sep), lambda s: fst_translate(s, lambda c: sep if c == MARK else c))

    def truth(self, E):
        return True

    def havoc(self, E):
        raise Unsupported("parts in a loop")

    def isinstance_(self, E, cls):
        return issubclass(list, cls)

    def to_list(self, E):
        return self

    def getattr(self, E, name):
        raise Unsupported("list.%s of parts" % name)


class Pieces(Model):
    """a list of strings, one per character of a word; only joined"""
    def __init__(self, word):
        super().__init__()
        self.word = word

    def joined(self, E, sep):
        if sep != "":
            raise Unsupported("join of pieces with a separator")
        return self.word

    def to_list(self, E):
        return self

    def isinstance_(self, E, cls):
        return issubclass(list, cls)

    def havoc(self, E):
        raise Unsupported("pieces in a loop")

    def truth(self, E):
        return self.word.truth(E)

    def getattr(self, E, name):
        raise Unsupported("list.%s of pieces" % name)


class Acc(Model):
    """what a loop appends to: records the appended text"""
    def __init__(self, kind):
        super().__init__()
        self.kind, self.out = kind, ""

    def binop(self, E, op, b, swapped):
        if self.kind == "str" and isinstance(op, ast.Add) and not swapped and isinstance(b, str):
            r = E.new(Acc("str"))
            r.out = self.out + b
            return r
        return B.NOMODEL

    def getattr(self, E, name):
        if self.kind == "list" and name == "append":
            def app(E2, a, k):
                if not isinstance(a[0], str):
                    raise Unsupported("append of %r" % (a[0],))
                self.out += a[0]
            return Builtin("append", app)
        raise Unsupported("accumulator .%s" % name)

    def truth(self, E):
        raise Unsupported("a branch on what a loop collected so far")

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return issubclass(str if self.kind == "str" else list, cls)


def run_chars(E, word, target, body, env, orelse, stateless=False):
    """for c in word: body -- the loop as a transducer: its control state is the variables it assigns, its output what it
    appends to strings and lists"""
    from .engine import assigned_names, BreakSig, ContinueSig
    tnames = assigned_names([ast.Assign([target], ast.Constant(0))])
    names = [n for n in assigned_names(body) if n not in tnames]
    accs = {}
    for n, v in env.vars.items():
        if n in names and isinstance(v, str) and v == "" and only_appended(body, n):
            accs[n] = "str"
        elif isinstance(v, PyList) and not v.items and uses(body, n):
            accs[n] = "list"
    ctl = [n for n in names if n not in accs]
    MISSING = "<unset>"
    start = tuple(env.vars.get(n, MISSING) for n in ctl)
    num, todo, trans = {start: 0}, [start], {}
    saved = dict(env.vars)
    while todo:
        st = todo.pop()
        if len(num) > 4000:
            raise Unsupported("loop over characters has too many states")
        for c in word.base.sigma[:-1]:
            env.vars.clear()
            env.vars.update(saved)
            for n, v in zip(ctl, st):
                if v is MISSING:
                    env.vars.pop(n, None)
                else:
                    env.vars[n] = v
            for n, kind in accs.items():
                env.vars[n] = E.new(Acc(kind))
            E.assign(target, c, env)
            try:
                E.exec_block(body, env)
            except ContinueSig:
                pass
            except BreakSig:
                raise Unsupported("break in a loop over characters")
            new = []
            for n in ctl:
                v = env.vars.get(n, MISSING)
                if not (v is None or isinstance(v, (bool, int, str))):
                    raise Unsupported("variable %s of a loop over characters" % n)
                new.append(v)
            new = tuple(new)
            outs = {}
            for n in accs:
                a = env.vars[n]
                if not isinstance(a, Acc):
                    raise Unsupported("accumulator %s" % n)
                outs[n] = a.out
            if new not in num:
                num[new] = len(num)
                todo.append(new)
            trans[num[st], c] = (num[new], outs)
    env.vars.clear()
    env.vars.update(saved)
    sigma = word.base.sigma
    if stateless and len(num) > 1:
        raise Unsupported("state carried over the parts of a split string")
    states = sorted(num.items(), key=lambda kv: kv[1])
    # which state the loop ends in
    chosen = None
    for st, k in states:
        if k == len(states) - 1:
            chosen = st
            break
        lang = DFA(sigma, 0, lambda q, c: trans[q, c][0] if c != MARK else q, lambda q: q == k)
        if word.decide(E, lang, "loop ends in state %d" % k):
            chosen = st
            break
    for n, v in zip(ctl, chosen):
        if v is MISSING:
            env.vars.pop(n, None)
        else:
            env.vars[n] = v
    for n, kind in accs.items():
        f = FST(sigma, 0, lambda q, c: (trans[q, c][0], trans[q, c][1][n]) if c != MARK else (q, c), lambda q: "")
        w = word.new(E, word.fst.then(f))
        old = saved[n]
        if kind == "str":
            env.vars[n] = w
        else:
            for m, x in list(env.vars.items()):
                if x is old:
                    env.vars[m] = E.new(Pieces(w))
    E.exec_block(orelse, env)


def only_appended(body, n):
    """every use of the variable in the loop is n += ... or n = n + ..."""
    ok = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and x.target.id == n:
                ok.add(id(x.target))
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and \
                    x.targets[0].id == n and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add):
                l = x.value
                while isinstance(l.left, ast.BinOp):
                    l = l.left
                if isinstance(l.left, ast.Name) and l.left.id == n:
                    ok |= {id(x.targets[0]), id(l.left)}
    return all(id(x) in ok for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == n)


def grows(body, n):
    """the loop may change the list: it calls one of its methods, adds to it or stores into it"""
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == n and \
                    x.attr not in ("index", "count", "copy"):
                return True
            if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, (ast.Store, ast.Del)):
                return True
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == n and \
                    isinstance(x.ctx, (ast.Store, ast.Del)):
                return True
    return False


def uses(body, n):
    return any(isinstance(x, ast.Name) and x.id == n for s in body for x in ast.walk(s))


def prove_equal(E, name, a, b):
    """obligation: the two strings are equal for every input on this path"""
    if isinstance(a, str) and isinstance(b, str):
        return E.prove(name, a == b)
    w = a if isinstance(a, Word) else b if isinstance(b, Word) else None
    if w is None or not isinstance(a, (str, Word)) or not isinstance(b, (str, Word)):
        return E.prove(name, False)
    sigma = w.base.sigma
    fa, fb = [x.fst if isinstance(x, Word) else fst_const(sigma, x) for x in (a, b)]
    if isinstance(a, Word) and isinstance(b, Word) and a.base is not b.base:
        return E.prove(name, False)
    d = differ(fa, fb, w.base.dom)
    return settle(E, name, d, {w.base.name: d} if d is not None else None)


def prove_in(E, name, w, lang):
    """obligation: the string is in the language for every input on this path"""
    if isinstance(w, str):
        return E.prove(name, set(w) <= set(lang.sigma) and lang.accepts(w))
    if not isinstance(w, Word):
        return E.prove(name, False)
    d = (w.base.dom - w.fst.preimage(lang)).witness()
    return settle(E, name, d, {w.base.name: d} if d is not None else None)


def settle(E, name, witness, model):
    from .engine import VC
    E.vcs.append(VC(name, "proved" if witness is None else "refuted", "", list(E.labels), 0.0, "automata", model))
    return witness is None


def prove_subset(E, name, small, big):
    d = (small - big).witness()
    return settle(E, name, d, {"text": d} if d is not None else None)
