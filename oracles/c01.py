"""C01 on the real code: acceptance, prefixes and next tokens against the reference language."""
import itertools
import random

from . import common as C

RULE = ("grammar (small ones enumerated, then random) with lines near its language; non-trivial: a grammar with at "
        "least one operator")
DEFAULT_BUDGET = 25


def small():
    A, B, D = ("t", "ab"), ("t", "cd"), ("t", "ef")
    atoms = [A, B, ("opt", A), ("rep", A, 0, 2), ("rep", A, 2, 2), ("rep", A, 1, 3), ("seq", [A, B]), ("alt", [A, B]),
             ("set", [A, B]), ("set", [A, ("opt", B)]), ("ref", A), ("opt", ("seq", [A, B])), ("seq", [("opt", A), B]),
             ("seq", [A, ("opt", B)]), ("rep", ("alt", [A, B]), 1, 2), ("opt", ("alt", [A, ("seq", [A, B])]))]
    mids = list(atoms)
    for x, y in itertools.product(atoms, [B, D, ("opt", D), ("opt", B), ("rep", B, 0, 2), ("ref", ("opt", B))]):
        for k in ("seq", "alt", "set"):
            mids.append((k, [x, y]))
            mids.append((k, [y, x]))
    for x in atoms:
        for lo, hi in ((0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (2, 2), (2, 3), (3, 3)):
            mids.append(("rep", x, lo, hi))
        mids.append(("opt", x))
        mids.append(("ref", x))
    H = ("t", "gh")
    for ms in itertools.product(("", "o"), repeat=4):        # wide blocks and sets, some members optional
        xs = [("opt", t) if o else t for o, t in zip(ms, (A, B, D, H))]
        yield ("seq", xs)
        yield ("set", xs)
        yield ("seq", [("opt", ("seq", xs)), ("t", "ij")])
    for m in mids:
        yield m
    for m in mids:
        yield ("seq", [m, H])
        yield ("set", [m, H])
        yield ("seq", [("opt", H), m])
        yield ("rep", m, 1, 2)


def cases(r, tier, hints):
    det = list(small())
    order = random.Random(r.random())
    for i, g in enumerate(det[:700]):
        rr = random.Random(i)
        yield ("det", [C.to_list(g), C.words_for(rr, g, 14)])
    rest = det[700:]
    order.shuffle(rest)
    for n in itertools.count():
        if rest and n % 2:
            g = rest.pop()
        else:
            g = C.gen(r, r.choice([2, 2, 3, 3, 4]))
        if C.size(g) > 14:
            continue
        ws = C.words_for(r, g, 16, maxlen=6)
        if ws:
            yield [C.to_list(g), ws]


def nontrivial(c):
    return c[0][0] != "t"


def alphabet(g):
    return {g[1]} if g[0] == "t" else set().union(*[alphabet(x) for x in (g[1] if g[0] in ("seq", "alt", "set")
                                                                         else [g[1]])])


def judge(c):
    g, ws = c
    tg = C.tup(g)
    cli = C.new_cli(C.compile_text(C.text(g)))
    voc = sorted(alphabet(g) | set(C.WORDS))
    for w in ws:
        tw = tuple(w)
        sent = len(tw) in C.ends(tg, tw, 0)
        prefix = C.pre(tg, tw, 0)
        with C.Streams():
            got = C.match(cli, w).result
        want = {"success", "ambigous"} if sent else {"partial"} if prefix else {"failure"}
        if got not in want:
            return {"expected": "%s for %s with %s" % ("/".join(sorted(want)), w, C.text(g)), "got": str(got)}
        if not nullable_start(tg):
            with C.Streams():
                res = C.match(cli, w, dry=True)
            nxt = sorted("END" if str(t).startswith("<") else str(t) for t in res.next_tokens)
            wantn = sorted([x for x in voc if C.pre(tg, tw + (x,), 0)] + (["END"] if sent else [])) if prefix else []
            if nxt != wantn:
                return {"expected": "next tokens %s after %s with %s" % (wantn, w, C.text(g)), "got": str(nxt)}
    return None


def nullable_start(g):
    return False


def shrink(c):
    g, ws = c
    if len(ws) > 1:
        for w in ws:
            yield [g, [w]]
        return
    for h in C.shrink_grammar(g):
        yield [h, ws]
        for i in range(len(ws[0])):
            if len(ws[0]) > 1:
                yield [h, [ws[0][:i] + ws[0][i + 1:]]]
    for i in range(len(ws[0])):
        if len(ws[0]) > 1:
            yield [g, [ws[0][:i] + ws[0][i + 1:]]]
