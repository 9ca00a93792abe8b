"""Grammars whose every element has a numbered action before and after it, and the traces a line may produce."""
import itertools
import random

from . import common as C


def label(g, counter=None):
    counter = counter if counter is not None else [0]
    counter[0] += 1
    i = counter[0]
    k = g[0]
    if k == "t":
        return ("t", g[1], i)
    if k in ("seq", "alt", "set"):
        return (k, tuple(label(x, counter) for x in g[1]), i)
    if k == "rep":
        return (k, label(g[1], counter), g[2], g[3], i)
    return (k, label(g[1], counter), i)


def text(g):
    subs = []

    def e(g):
        k, i = g[0], g[-1]
        pre = "<< call sink(%d); >> " % (2 * i)
        post = " << call sink(%d); >>" % (2 * i + 1)
        if k == "t":
            return '("%s"%s)' % (g[1], post)
        if k == "seq":
            return "(" + pre + " ".join(e(x) for x in g[1]) + ")" + post
        if k == "opt":
            return "{" + pre + e(g[1]) + "}" + post
        if k == "alt":
            return "(" + " | ".join(e(x) for x in g[1]) + ")" + post
        if k == "set":
            return "(" + pre + ", ".join(e(x) for x in g[1]) + ")" + post
        if k == "rep":
            n = "%d" % g[2] if g[2] == g[3] else "%d:%d" % (g[2], g[3])
            return "((" + pre + e(g[1]) + ") * (" + n + "))"
        if k == "ref":
            t = e(g[1])
            n = "sub%d" % (len(subs) + 1)
            subs.append("%s: %s%s ;" % (n, pre, t))
            return n + post
    body = e(g)
    return "\n".join(subs) + "\nroot: " + body + " ;\n"


def matches(word, typed):
    return word == typed


def abbreviates(word, typed):
    return bool(typed) and word.startswith(typed)


def derivations(g, w, tok=matches, limit=4000):
    """the set of traces of complete derivations of w"""
    memo = {}

    def der(g, w):
        key = (g[-1], w)
        if key in memo:
            return memo[key]
        memo[key] = r = der_(g, w)
        if len(r) > limit:
            raise OverflowError
        return r

    def wrap(S, i, w, pre=True):
        p = (2 * i,) if pre else ()
        return {p + s + (2 * i + 1,) if w else s for s in S}

    def cat(gs, w):
        if not gs:
            return {()} if not w else set()
        out = set()
        for k in range(len(w) + 1):
            h = gs[0](w[:k])
            if h:
                t = cat(gs[1:], w[k:])
                out |= {a + b for a in h for b in t}
                if len(out) > limit:
                    raise OverflowError
        return out

    def der_(g, w):
        k, i = g[0], g[-1]
        if k == "t":
            return {(2 * i + 1,)} if len(w) == 1 and tok(g[1], w[0]) else set()
        if k == "seq":
            return wrap(cat([lambda v, x=x: der(x, v) for x in g[1]], w), i, w)
        if k == "opt":
            return wrap(der(g[1], w), i, w) | ({()} if not w else set())
        if k == "alt":
            return wrap(set().union(*[der(x, w) for x in g[1]]), i, w, False)
        if k == "ref":
            return wrap(der(g[1], w), i, w)
        if k == "set":
            out = set()
            for p in itertools.permutations(g[1]):
                out |= cat([lambda v, x=x: der(x, v) for x in p], w)
            return wrap(out, i, w)
        if k == "rep":
            one = lambda v: {((2 * i,) + s) if v else s for s in der(g[1], v)}
            out = set()
            for n in range(g[2], g[3] + 1):
                out |= cat([one] * n, w)
            return out
    return der(g, tuple(w))


def sink_cli(gs):
    from nessaid_cli.cli import NessaidCli
    got = []
    K = type("K", (NessaidCli,), {"sink": lambda self, *a: got.append(a[0] if len(a) == 1 else a)})
    cli = C.new_cli(gs, K)
    return cli, got


SMALL = []


def small():
    A, B, D, H = ("t", "ab"), ("t", "cd"), ("t", "ef"), ("t", "gh")
    inner = [A, ("seq", [A, B]), ("opt", A), ("opt", ("seq", [A, B])), ("alt", [A, B]), ("set", [A, B]),
             ("set", [A, ("opt", B)]), ("rep", A, 2, 2), ("rep", A, 1, 3), ("rep", A, 0, 2), ("ref", A),
             ("ref", ("seq", [A, ("opt", B)])), ("seq", [A, ("opt", B)]), ("seq", [("opt", A), ("opt", B)]),
             ("rep", ("seq", [A, B]), 2, 2), ("rep", ("seq", [A, ("opt", B)]), 1, 2), ("opt", ("ref", A)),
             ("set", [("opt", A), ("opt", B), D]), ("rep", ("alt", [A, B]), 2, 3), ("ref", ("alt", [A, B])),
             ("seq", [A, ("opt", ("seq", [B, ("opt", D)]))])]
    for x in inner:
        yield x
        yield ("seq", [x, H])
        yield ("seq", [H, x])
        yield ("seq", [H, x, ("opt", D)])
        yield ("seq", [("opt", H), x, ("opt", D)])
        yield ("set", [x, H])
        yield ("set", [x, H, ("opt", D)])
        yield ("alt", [x, ("seq", [x, H]), D])
        yield ("opt", x)
        yield ("ref", x)
        yield ("rep", x, 2, 2)
        yield ("rep", x, 1, 2)
        yield ("seq", [("ref", x), ("ref", ("seq", [x, H]))])
        yield ("ref", ("ref", x))


def lines(r, g, n, abbreviate=False):
    ws = C.words_for(r, g, n, maxlen=6)
    if abbreviate:
        ws = [[x[:r.choice([1, 2, 2])] for x in w] if r.random() < .5 else w for w in ws]
    return ws
