"""C20 on the real code: programs of calls in actions, against a small interpreter."""
from . import common as C

RULE = "list of action statements with nested calls of functions that return, raise or are missing; non-trivial: a call"
FUNCS = ["f", "g", "bad", "abad", "missing", "caller", "trueish", "nonexistent", "f2", "kv"]


def expr(r, d):
    k = r.random()
    if d <= 0 or k < .3:
        return ["lit", r.choice([0, 1, 7, -3, "s", "t u", True, False, None, "x"])]
    if k < .45:
        return ["var", r.choice(["$a", "$b", "$c"])]
    if k < .75:
        return ["call", r.choice(FUNCS), [expr(r, d - 1) for _ in range(r.randint(0, 3))]]
    return ["fn", r.choice(["inc", "dec", "add", "list", "inc", "unknown"]), [expr(r, d - 1) for _ in range(r.randint(0, 3))]]


def stmt(r):
    if r.random() < .4:
        return ["set", r.choice(["$a", "$b", "$c"]), expr(r, 2)]
    e = expr(r, 3)
    while e[0] not in ("call", "fn"):
        e = expr(r, 3)
    return ["do", e]


def cases(r, tier, hints):
    for hook in (0, 1):
        for f in FUNCS:
            for args in ([], [["lit", 1]], [["lit", "s"], ["var", "$a"], ["lit", None]],
                         [["call", "f", []], ["call", "bad", []], ["call", "g", [["lit", 2]]]]):
                yield ("det", [hook, [["do", ["call", f, args]], ["do", ["call", "f", [["lit", 9]]]]]])
                yield ("det", [hook, [["set", "$a", ["call", f, args]], ["do", ["call", "g", [["var", "$a"]]]]]])
                yield ("det", [hook, [["do", ["call", "f", [["call", f, args], ["lit", 1]]]]]])
                yield ("det", [hook, [["do", ["call", "f", [["fn", "list", [["call", f, args], ["lit", 1]]]]]]]])
                yield ("det", [hook, [["do", ["fn", f, args]], ["set", "$a", ["fn", f, args]],
                                      ["do", ["call", "f", [["var", "$a"]]]]]])
    while True:
        yield [r.choice([0, 0, 1]), [stmt(r) for _ in range(r.randint(1, 6))]]


def nontrivial(c):
    return "call" in repr(c)


def lit(v):
    return '"%s"' % v if isinstance(v, str) else str(v)


def show(e):
    if e[0] == "lit":
        return lit(e[1])
    if e[0] == "var":
        return e[1]
    return ("call " if e[0] == "call" else "") + e[1] + "(" + ", ".join(show(x) for x in e[2]) + ")"


class Boom(Exception):
    pass


def behave(name, args, log):
    log.append([name, list(args)])
    if name in ("bad", "abad"):
        raise Boom(name)
    if name == "kv":
        return None
    return len(args) * 10 + len(name)


def ref(prog):
    log, env, failed = [], {"$a": None, "$b": None, "$c": None}, [0]

    def fail():
        failed[0] += 1
        return None

    def ev(e):
        if e[0] == "lit":
            return e[1]
        if e[0] == "var":
            return env[e[1]]
        args = [ev(x) for x in e[2]]
        if e[0] == "call":
            if e[1] in ("missing", "nonexistent"):
                return fail()
            try:
                return behave(e[1], args, log)
            except Boom:
                return fail()
        if e[1] == "list":
            return args
        if e[1] in ("inc", "dec", "add"):
            if not args:
                return fail()
            out = args[0]
            for x in ([1] if e[1] == "inc" else [-1] if e[1] == "dec" else args[1:]):
                try:
                    out = out + x
                except Exception:
                    pass
            return out
        return None
    for s in prog:
        if s[0] == "set":
            env[s[1]] = ev(s[2])
        else:
            ev(s[1])
    return log, failed[0]


def judge(c):
    hook, prog = c
    want, failed = ref(prog)
    code = " ".join("%s = %s;" % (s[1], show(s[2])) if s[0] == "set" else show(s[1]) + ";" for s in prog)
    init = "$a = None; $b = None; $c = None;"
    gs = C.compile_text('root: << %s >> "x" << %s >> ;' % (init, code))
    log = []
    from nessaid_cli.cli import NessaidCli

    def mk(n):
        return lambda self, *a: behave(n, a, log)

    def amk(n):
        async def f(self, *a):
            return behave(n, a, log)
        return f
    d = {}
    for n in FUNCS:
        if n in ("missing", "nonexistent"):
            continue
        d[("hook_" if hook else "") + n] = (amk if n in ("g", "abad") else mk)(n)
        if hook:
            d[n] = mk("wrong_" + n)
    if hook:
        d["get_cli_hook"] = lambda self, n: "hook_" + n
    cli = C.new_cli(gs, type("K", (NessaidCli,), d))
    with C.Streams() as st:
        res = C.match(cli, ["x"])
    if res.result != "success":
        return {"expected": "the line succeeds with " + code, "got": res.result}
    if log != want:
        return {"expected": "%s by %s" % (want, code), "got": repr(log)}
    if bool(cli.stderr.getvalue() + st.err) != bool(failed):
        return {"expected": "%d failures reported by %s" % (failed, code), "got": cli.stderr.getvalue()[:300]}
    return None


def shrink(c):
    for i in range(len(c[1])):
        if len(c[1]) > 1:
            yield [c[0], c[1][:i] + c[1][i + 1:]]
