"""C03 on the real code: which actions run, over completion and execution, for every kind of line."""
import itertools
import random

from . import actions as A
from . import common as C

RULE = ("grammar with numbered actions; lines of full and abbreviated keywords, matched for completion and executed; "
        "non-trivial: at least one operator")


def cases(r, tier, hints):
    for c in CMD:
        yield ("det", c)
    for i, g in enumerate(A.small()):
        rr = random.Random(i)
        yield ("det", ["g", C.to_list(g), A.lines(rr, g, 10, True)])
    while True:
        words = r.choice([C.WORDS, ["ab", "ac", "ef", "eg"], ["a", "ab", "abc", "b"]])
        g = C.gen(r, r.choice([2, 3, 3, 4]), words)
        if C.size(g) > 13:
            continue
        ws = A.lines(r, g, 8, True)
        if ws:
            yield ["g", C.to_list(g), ws]


CMD = [["cmd", l] for l in ("one", "two x", "two", "o", "two x y", "nosuch", "three a b", "three a", "thr a b",
                            "t", "both same", "fail x", "")]


def nontrivial(c):
    return c[0] == "cmd" or c[1][0] != "t"


def judge(c):
    if c[0] == "cmd":
        return judge_cmd(c[1])
    _, g, ws = c
    lg = A.label(C.tup(g))
    cli, got = A.sink_cli(C.compile_text(A.text(lg)))
    for w in ws:
        if not w:
            continue
        for complete in (True, False):
            del got[:]
            with C.Streams():
                C.match(cli, w, dry=True, complete=complete)
            if got or cli.executing:
                return {"expected": "no action during completion of %s with %s" % (w, A.text(lg)), "got": str(got)}
        del got[:]
        with C.Streams():
            res = C.match(cli, w)
        if cli.executing:
            return {"expected": "not executing after %s" % w, "got": "executing"}
        if res.result != "success":
            if got:
                return {"expected": "no action on %s of %s with %s" % (res.result, w, A.text(lg)), "got": str(got)}
            continue
        try:
            D = A.derivations(lg, w, A.abbreviates)
        except OverflowError:
            continue
        if sorted(got) not in [sorted(d) for d in D]:
            return {"expected": "the actions of exactly one derivation of %s (one of %s) with %s"
                                % (w, sorted(D)[:3], A.text(lg)), "got": str(got)}
    return None


_cmd = {}


def cmd():
    if not _cmd:
        from nessaid_cli.cmd import NessaidCmd
        calls = []

        class K(NessaidCmd):
            def do_one(self):
                """
                "one"
                """
                calls.append("one")

            async def do_two(self, v):
                """
                "two" "x" << $v = 1; >>
                """
                calls.append("two")

            def do_three(self, l):
                """
                << $l = list(); >> "three" ("a" << append($l, 1); >> | "b" << append($l, 2); >>) * 2
                """
                calls.append("three%s" % l)

            def do_s1(self):
                """
                "both" "same"
                """
                calls.append("s1")

            def do_s2(self):
                """
                "both" "same"
                """
                calls.append("s2")

        import io
        _cmd["k"] = K(loop=C.loop(), prompt="", stdout=io.StringIO(), stderr=io.StringIO(),
                      disable_default_hooks=True, use_base_grammar=False)
        _cmd["calls"] = calls
    return _cmd["k"], _cmd["calls"]


WANT = {"one": (0, ["one"]), "two x": (0, ["two"]), "three a b": (0, ["three[1, 2]"]), "thr a b": (0, ["three[1, 2]"]),
        "o": (0, ["one"])}


def judge_cmd(line):
    k, calls = cmd()
    del calls[:]
    with C.Streams():
        code = C.run(k.exec_line(line))
    want = WANT.get(line, (None, []))
    if calls != want[1] or (want[0] == 0) != (code == 0):
        return {"expected": "handlers %s for %r" % (want, line), "got": "%s %s" % (code, calls)}
    return None


def shrink(c):
    if c[0] == "cmd":
        return
    _, g, ws = c
    if len(ws) > 1:
        for w in ws:
            yield ["g", g, [w]]
        return
    for h in C.shrink_grammar(g):
        yield ["g", h, ws]
        for i in range(len(ws[0])):
            yield ["g", h, [ws[0][:i] + ws[0][i + 1:]]]
