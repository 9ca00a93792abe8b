"""C04 on the real code: the order and number of actions of executed lines."""
import itertools
import random

from . import actions as A
from . import common as C

RULE = ("grammar with a numbered action before and after every element, and sentences of it; non-trivial: at least "
        "one operator")


def cases(r, tier, hints):
    for i, g in enumerate(A.small()):
        rr = random.Random(i)
        ws = [C.sample(rr, g) for _ in range(10)]
        yield ("det", [C.to_list(g), [w for k, w in enumerate(ws) if w and w not in ws[:k] and len(w) < 9]])
    while True:
        g = C.gen(r, r.choice([2, 3, 3, 4]))
        if C.size(g) > 13:
            continue
        ws = [C.sample(r, g) for _ in range(8)]
        ws = [w for k, w in enumerate(ws) if w and w not in ws[:k] and len(w) < 7]
        if ws:
            yield [C.to_list(g), ws]


def nontrivial(c):
    return c[0][0] != "t"


def judge(c):
    g, ws = c
    lg = A.label(C.tup(g))
    cli, got = A.sink_cli(C.compile_text(A.text(lg)))
    for w in ws:
        try:
            D = A.derivations(lg, w)
        except OverflowError:
            continue
        del got[:]
        with C.Streams():
            res = C.match(cli, w)
        if not D:
            continue
        if res.result == "success":
            if tuple(got) not in D:
                return {"expected": "one of %s for %s with %s" % (sorted(D)[:4], w, A.text(lg)), "got": str(got)}
        elif res.result != "ambigous":
            return {"expected": "the actions of %s to run with %s" % (w, A.text(lg)), "got": str(res.result)}
    return None


def shrink(c):
    g, ws = c
    if len(ws) > 1:
        for w in ws:
            yield [g, [w]]
        return
    for h in C.shrink_grammar(g):
        yield [h, ws]
        rr = random.Random(7)
        for _ in range(6):
            w = C.sample(rr, h)
            if w:
                yield [h, [w]]
