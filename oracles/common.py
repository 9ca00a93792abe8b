"""Shared pieces of the witness searches: building command lines from grammar text, random grammars and their
languages, running the real code with captured output."""
import asyncio
import contextlib
import io
import itertools
import os
import random
import sys
from functools import lru_cache

from pyvc import real      # noqa

_loop = None


def loop():
    global _loop
    if _loop is None or _loop.is_closed():
        _loop = asyncio.new_event_loop()
        asyncio.set_event_loop(_loop)
    return _loop


def run(coro):
    return loop().run_until_complete(coro)


def mods():
    import nessaid_cli.cli as cli
    import nessaid_cli.cmd as cmd
    import nessaid_cli.compiler as compiler
    import nessaid_cli.tokens as tokens
    import nessaid_cli.interface as interface
    return cli, cmd, compiler, tokens, interface


def compile_text(text):
    from nessaid_cli.compiler import compile_grammar
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return compile_grammar(text)


def new_cli(gs, base=None, **kw):
    from nessaid_cli.cli import NessaidCli
    return (base or NessaidCli)(gs, loop=loop(), stdout=io.StringIO(), stderr=io.StringIO(), **kw)


def match(cli, words, grammar="root", dry=False, complete=True, arglist=None):
    cli.enter_grammar(grammar)
    try:
        return run(cli.match(list(words), dry_run=dry, last_token_complete=complete,
                             arglist=[] if arglist is None else arglist))
    finally:
        cli.exit_grammar()


# ------------------------------------------------------------------ random grammars
# ('t', word) ('seq', [g..]) ('opt', g) ('alt', [g..]) ('set', [g..]) ('rep', g, lo, hi) ('ref', g)
WORDS = ["ab", "cd", "ef", "gh"]


def gen(r, d, words=WORDS, sets=True, refs=True):
    k = r.random()
    if d <= 0 or k < .28:
        return ("t", r.choice(words))
    sub = lambda: gen(r, d - 1, words, sets, refs)
    if k < .5:
        return ("seq", [sub() for _ in range(r.choice([2, 2, 3]))])
    if k < .64:
        return ("opt", sub())
    if k < .77:
        return ("alt", [sub() for _ in range(r.choice([2, 2, 3]))])
    if k < .86 and sets:
        return ("set", [sub() for _ in range(r.choice([2, 2, 3]))])
    if k < .94:
        a = r.randint(0, 2)
        b = a + r.choice([0, 0, 1, 2])
        return ("rep", sub(), a, b or 1)
    if refs:
        return ("ref", sub())
    return ("t", r.choice(words))


def text(g):
    """grammar text with root as the whole; every reference becomes a grammar of its own"""
    subs = []

    def e(g):
        k = g[0]
        if k == "t":
            return '"%s"' % g[1]
        if k == "seq":
            return "(" + " ".join(e(x) for x in g[1]) + ")"
        if k == "opt":
            return "{" + e(g[1]) + "}"
        if k == "alt":
            return "(" + " | ".join(e(x) for x in g[1]) + ")"
        if k == "set":
            return "(" + ", ".join(e(x) for x in g[1]) + ")"
        if k == "rep":
            n = "%d" % g[2] if g[2] == g[3] else "%d:%d" % (g[2], g[3])
            return "((" + e(g[1]) + ") * (" + n + "))"
        if k == "ref":
            t = e(g[1])
            n = "sub%d" % (len(subs) + 1)
            subs.append("%s: %s ;" % (n, t))
            return n
    body = e(g)
    return "\n".join(subs) + "\nroot: " + body + " ;\n"


def tup(g):
    return tuple(tup(x) if isinstance(x, (list, tuple)) else x for x in g)


@lru_cache(maxsize=200000)
def ends(g, w, i):
    """end positions of parses of w[i:] beginnings by g"""
    k = g[0]
    if k == "t":
        return frozenset([i + 1]) if i < len(w) and w[i] == g[1] else frozenset()
    if k == "seq":
        return ends_seq(g[1], w, i)
    if k == "opt":
        return ends(g[1], w, i) | {i}
    if k == "alt":
        return frozenset().union(*[ends(x, w, i) for x in g[1]])
    if k == "ref":
        return ends(g[1], w, i)
    if k == "rep":
        cur, out = {i}, set()
        for n in range(g[3] + 1):
            if n >= g[2]:
                out |= cur
            cur = set().union(*[ends(g[1], w, j) for j in cur]) if cur else set()
        return frozenset(out)
    if k == "set":
        out = set()
        for p in itertools.permutations(range(len(g[1]))):
            out |= ends_seq(tuple(g[1][x] for x in p), w, i)
        return frozenset(out)


def ends_seq(gs, w, i):
    cur = {i}
    for x in gs:
        cur = set().union(*[ends(x, w, j) for j in cur]) if cur else set()
    return frozenset(cur)


@lru_cache(maxsize=200000)
def pre(g, w, i):
    """w[i:] is a prefix of a word of g (every g here has words)"""
    if i >= len(w):
        return True
    k = g[0]
    if k == "t":
        return i + 1 == len(w) and w[i] == g[1]
    if k == "seq":
        return pre_seq(g[1], w, i)
    if k in ("opt", "ref"):
        return pre(g[1], w, i)
    if k == "alt":
        return any(pre(x, w, i) for x in g[1])
    if k == "rep":
        return pre_seq((g[1],) * g[3], w, i)
    if k == "set":
        return any(pre_seq(tuple(g[1][x] for x in p), w, i) for p in itertools.permutations(range(len(g[1]))))


def pre_seq(gs, w, i):
    cur = {i}
    for x in gs:
        if any(pre(x, w, j) for j in cur):
            return True
        cur = set().union(*[ends(x, w, j) for j in cur]) if cur else set()
    return any(j >= len(w) for j in cur)


def sample(r, g):
    """a random word of g"""
    k = g[0]
    if k == "t":
        return [g[1]]
    if k == "seq":
        return [x for s in g[1] for x in sample(r, s)]
    if k == "opt":
        return sample(r, g[1]) if r.random() < .6 else []
    if k == "alt":
        return sample(r, r.choice(g[1]))
    if k == "ref":
        return sample(r, g[1])
    if k == "rep":
        return [x for _ in range(r.randint(g[2], g[3])) for x in sample(r, g[1])]
    if k == "set":
        xs = list(g[1])
        r.shuffle(xs)
        return [x for s in xs for x in sample(r, s)]


def words_for(r, g, n, words=WORDS, maxlen=7):
    """lines near the language: sentences, prefixes, extensions, single-word edits"""
    out = []
    for _ in range(n):
        w = sample(r, g)[:maxlen]
        m = r.random()
        if m < .35:
            pass
        elif m < .5 and w:
            w = w[:r.randrange(len(w))]
        elif m < .65:
            w = w + [r.choice(words)]
        elif m < .75 and w:
            k = r.randrange(len(w))
            w = w[:k] + [r.choice(words)] + w[k + 1:]
        elif m < .85 and w:
            k = r.randrange(len(w))
            w = w[:k] + w[k + 1:]
        elif m < .93 and w:
            k = r.randrange(len(w))
            w = w[:k] + [w[k]] + w[k:]
        else:
            w = [r.choice(words) for _ in range(r.randint(1, 3))]
        if w and len(w) <= maxlen and w not in out:
            out.append(w)
    return out


def shrink_grammar(g):
    """smaller grammars"""
    k = g[0]
    if k == "t":
        return
    subs = g[1] if k in ("seq", "alt", "set") else [g[1]]
    for x in subs:
        yield x
    if k in ("seq", "alt", "set"):
        if len(g[1]) > 2:
            for i in range(len(g[1])):
                yield (k, g[1][:i] + g[1][i + 1:])
        for i, x in enumerate(g[1]):
            for y in shrink_grammar(x):
                yield (k, g[1][:i] + type(g[1])([y]) + g[1][i + 1:])
    else:
        for y in shrink_grammar(g[1]):
            yield (k, y) + tuple(g[2:])


def size(g):
    return 1 if g[0] == "t" else 1 + sum(size(x) for x in (g[1] if g[0] in ("seq", "alt", "set") else [g[1]]))


def to_list(g):
    return [to_list(x) if isinstance(x, (tuple, list)) else x for x in g]


def cmd_class(name, body, doc=None, hooks=None, bases=None, **attrs):
    from nessaid_cli.cmd import NessaidCmd
    d = dict(attrs)
    d["__doc__"] = doc or ""
    d.update(hooks or {})
    return type(name, bases or (NessaidCmd,), d)


class Streams:
    """captured stdout/stderr of the process around a block"""
    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *a):
        self.out, self.err = sys.stdout.getvalue(), sys.stderr.getvalue()
        sys.stdout, sys.stderr = self.o, self.e
        return False


def memo_compile():
    """the same grammar text is compiled once (compiled grammars are not changed by matching)"""
    import nessaid_cli.cmd as M
    f = getattr(M, "compile_grammar", None)
    if f is None or getattr(f, "memo", False):
        return
    table = {}

    def compile_grammar(text):
        if text not in table:
            table[text] = f(text)
        return table[text]
    compile_grammar.memo = True
    M.compile_grammar = compile_grammar


def _share_tables():
    """PLY parse tables of identical grammars are generated once per process (speed only)"""
    import copy
    try:
        import ply.yacc as Y
        gen = Y.LRGeneratedTable
    except (ImportError, AttributeError):
        return
    if getattr(gen, "shared", False):
        return
    table = {}

    def LRGeneratedTable(grammar, method="LALR", log=None):
        key = (method, repr(grammar.Start), tuple(str(p) + repr(p.prec) for p in grammar.Productions),
               repr(sorted(grammar.Terminals)), repr(sorted(grammar.Precedence.items())))
        if key not in table:
            table[key] = gen(grammar, method, log)
            return table[key]
        lr = copy.copy(table[key])
        lr.lr_productions = grammar.Productions
        lr.grammar = grammar
        return lr
    LRGeneratedTable.shared = True
    Y.LRGeneratedTable = LRGeneratedTable


_share_tables()
