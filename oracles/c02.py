"""C02 on the real code: which repetition counts are accepted."""
import itertools

from . import common as C

RULE = "term, bounds and number of repetitions given; non-trivial: bounds other than 1"

A, B, D = ("t", "ab"), ("t", "cd"), ("t", "ef")
TERMS = [A, ("seq", [A, B]), ("alt", [A, B]), ("opt", A), ("set", [A, B]), ("ref", A), ("ref", ("seq", [A, B])),
         ("rep", A, 2, 2), ("rep", A, 1, 2), ("rep", A, 0, 2), ("opt", ("seq", [A, B])), ("seq", [A, ("opt", B)]),
         ("rep", ("seq", [A, B]), 2, 3), ("opt", ("rep", A, 2, 2)), ("opt", ("rep", ("alt", [A, B]), 2, 2)),
         ("alt", [A, ("seq", [B, A])]), ("seq", [("opt", A), ("opt", B)]), ("set", [A, ("opt", B)]),
         ("ref", ("alt", [A, B])), ("ref", ("opt", A)),
         ("rep", A, 3, 3), ("rep", ("seq", [A, B]), 4, 4)]


def cases(r, tier, hints):
    for t in TERMS:
        for lo, hi in itertools.product(range(0, 5), repeat=2):
            if (lo, hi) != (0, 0):
                yield ("det", ["rep", C.to_list(t), lo, hi, False, max(lo, hi) + 2])
        for lo, hi in ((1, 1), (2, 2), (3, 3), (0, 2), (1, 3), (2, 3)):
            yield ("det", ["rep", C.to_list(t), lo, hi, True, hi + 2])
        yield ("det", ["opt", C.to_list(t), 0, 1, False, 2])
    for s in ("* 0", "* (0)", "* (0:0)", "* -1", "* (-1)", "* (-2:3)", "* (-3:-1)", "* (3:-2)", "* (0:-1)"):
        yield ("det", ["reject", s])
    for n in (7, 12, 25):
        yield ("det", ["rep", C.to_list(A), n, n, False, n + 1])
        yield ("det", ["rep", C.to_list(A), 0, n, False, n + 1])
        yield ("det", ["rep", C.to_list(A), n - 3, n, False, n + 1])
    while True:
        t = r.choice(TERMS) if r.random() < .5 else C.gen(r, 2)
        if C.size(t) > 8:
            continue
        lo, hi = r.randint(0, 4), r.randint(0, 5)
        if max(lo, hi) and C.size(t) * max(lo, hi) < 16:
            yield ["rep", C.to_list(t), lo, hi, r.random() < .3, max(lo, hi) + 1]


def hang_fails(c):
    return c[0] == 'reject' or c[1] == ['t', 'ab']


def nontrivial(c):
    return c[0] != "rep" or c[2:4] != [1, 1]


def judge(c):
    if c[0] == "reject":
        try:
            C.compile_text('root: "x" %s "y" ;' % c[1])
        except Exception:
            return None
        return {"expected": "the grammar is rejected", "got": "compiled " + c[1]}
    kind, t, lo, hi, opt, upto = c
    body = C.text(t)
    subs, _, root = body.rpartition("root: ")
    term = root.rsplit(" ;", 1)[0]
    if kind == "opt":
        rep = "{ %s }" % term
        g = ("opt", C.tup(t))
    else:
        m, n = min(lo, hi), max(lo, hi)
        rep = "(%s) * %s" % (term, "%d" % lo if lo == hi and lo % 2 else "(%d)" % lo if lo == hi
                             else "(%d:%d)" % (lo, hi))
        g = ("rep", C.tup(t), m, n)
        if opt:
            rep, g = "{ %s }" % rep, ("opt", g)
    g = ("seq", (g, ("t", "zz")))
    txt = "%s\nroot: %s \"zz\" ;" % (subs, rep)
    cli = C.new_cli(C.compile_text(txt))
    import random
    r = random.Random(str(c))
    tried = 0
    for k in range(upto + 1):
        for _ in range(3 if k < 6 else 1):
            w = tuple(x for _ in range(k) for x in C.sample(r, C.tup(t))) + ("zz",)
            if len(w) > 34:
                continue
            ok = len(w) in C.ends(g, w, 0)
            with C.Streams():
                got = C.match(cli, w).result
            if (got in ("success", "ambigous")) != ok:
                return {"expected": "%s %s (%d repetitions) with %s" % (
                    "accept" if ok else "reject", " ".join(w), k, txt), "got": str(got)}
    return None
