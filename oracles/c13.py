"""C13 on the real code: inline functions called directly and from grammar actions."""
import io
import json

from . import common as C

RULE = "calls of inline functions with random arguments, directly and from an action; non-trivial: at least one argument"


def cases(r, tier, hints):
    yield ("det", ["list", []])
    yield ("det", ["set", []])
    yield ("det", ["dict", []])
    for f in ("inc", "dec"):
        for v in (0, 1, -1, 5, 10 ** 30, -7, 255):
            yield ("det", [f, [v]])
    for n in range(1, 7):
        yield ("det", ["add", [3 * k * k - 4 for k in range(n)]])
        yield ("det", ["list", list(range(n))])
        yield ("det", ["list", ["s%d" % (k % 2) for k in range(n)]])
        yield ("det", ["set", [k % 3 for k in range(n)]])
        yield ("det", ["append-list", [7], list(range(n))])
        yield ("det", ["append-list", [], [5] * n])
        yield ("det", ["append-set", [1, 2], [k % 4 for k in range(n)]])
        yield ("det", ["action", ["add", list(range(n))]])
        yield ("det", ["action", ["list", list(range(n))]])
    for k in (1, 2, 3):
        yield ("det", ["update", {"1": 10, "2": 20}, k, "x"])
    yield ("det", ["twice", "list"])
    yield ("det", ["twice", "set"])
    yield ("det", ["twice", "dict"])
    while True:
        xs = [r.choice([r.randint(-50, 50), r.randint(-3, 3)]) for _ in range(r.randint(1, 9))]
        yield r.choice([["add", xs], ["list", xs], ["set", xs], ["append-list", xs[:3], xs[3:]],
                        ["append-set", xs[:3], xs[3:]], ["inc", xs[:1]], ["dec", xs[:1]],
                        ["action", ["add", [abs(x) for x in xs]]], ["action", ["list", [abs(x) for x in xs]]],
                        ["update", {str(k): v for k, v in zip("abc", xs)}, r.choice("abcd"), xs[0]]])


def hang_fails(c):
    return True


def nontrivial(c):
    return len(c) > 1 and bool(c[1])


_cli = None


def cli():
    global _cli
    if _cli is None:
        _cli = C.new_cli(C.compile_text('root: "x" ;'))
    return _cli


def call(name, *args):
    return C.run(cli().resolve_local_function_call(name, *args))


def expect(what, got):
    return None if got == what and type(got) is type(what) else {"expected": repr(what), "got": repr(got)}


def judge(c):
    kind = c[0]
    if kind == "action":
        fn, xs = c[1]
        got = []
        base = type("K", (__import__("nessaid_cli.cli", fromlist=["NessaidCli"]).NessaidCli,),
                    {"sink": lambda self, v: got.append(v)})
        k = C.new_cli(C.compile_text('root: << $r = 0; >> "x" << $r = %s(%s); call sink($r); >> ;'
                                     % (fn, ", ".join(map(str, xs)))), base)
        res = C.match(k, ["x"])
        want = sum(xs) if fn == "add" else list(xs)
        if res.result != "success" or got != [want]:
            return {"expected": repr([want]), "got": "%s %r %s" % (res.result, got, k._stderr.getvalue()[:200])}
        return None
    if not hasattr(cli(), "resolve_local_function_call"):
        return None
    if kind == "list":
        return expect(list(c[1]), call("list", *c[1]))
    if kind == "set":
        return expect(set(c[1]), call("set", *c[1]))
    if kind == "dict":
        return expect({}, call("dict"))
    if kind == "add":
        return expect(sum(c[1]), call("add", *c[1]))
    if kind == "inc":
        return expect(c[1][0] + 1, call("inc", c[1][0]))
    if kind == "dec":
        return expect(c[1][0] - 1, call("dec", c[1][0]))
    if kind == "append-list":
        l = list(c[1])
        r = call("append", l, *c[2])
        return expect(c[1] + c[2], l) or (None if r is l else {"expected": "the list itself", "got": repr(r)})
    if kind == "append-set":
        s = set(c[1])
        r = call("append", s, *c[2])
        return expect(set(c[1]) | set(c[2]), s) or (None if r is s else {"expected": "the set itself", "got": repr(r)})
    if kind == "update":
        d = dict(c[1])
        r = call("update", d, c[2], c[3])
        w = dict(c[1])
        w[c[2]] = c[3]
        return expect(w, d) or (None if r is d else {"expected": "the dict itself", "got": repr(r)})
    if kind == "twice":
        a, b = call(c[1]), call(c[1])
        if a is b:
            return {"expected": "two containers", "got": "one"}
        if c[1] == "list":
            call("append", a, 1)
        elif c[1] == "set":
            call("append", a, 1)
        else:
            call("update", a, 1, 2)
        return None if not b and not call(c[1]) else {"expected": "empty", "got": repr((b, call(c[1])))}
