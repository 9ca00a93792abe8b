"""C06 on the real code: what the actions of nested grammars see, against a store of cells."""
import itertools

from . import common as C

RULE = ("a chain of grammars with parameters, assignments, references with variables and literals, run on its one line; "
        "non-trivial: a variable is passed to a referenced grammar")
VARS = ["$a", "$b", "$c"]


# grammar: [params, [[element, pre?..]]]; element: ["w", acts] | ["r", grammar index, args, acts, times]
# action: ["set", v, literal] | ["cp", v, w] | ["inc", v, w] | ["show", n, v]
def gen_acts(r, n, cnt):
    out = []
    for _ in range(n):
        k = r.random()
        v = r.choice(VARS)
        if k < .3:
            out.append(["set", v, r.choice([0, 1, 2, 5, "s", "t u"])])
        elif k < .42:
            out.append(["cp", v, r.choice(VARS)])
        elif k < .5:
            out.append(["inc", v, r.choice(VARS)])
        else:
            cnt[0] += 1
            out.append(["show", cnt[0], v])
    return out


def gen(r):
    cnt = [0]
    gs = []
    for k in range(r.randint(1, 4)):
        params = VARS[:r.randint(0, 3)]
        r.shuffle(params)
        els = []
        for _ in range(r.randint(1, 3)):
            if gs and r.random() < .6:
                j = r.randrange(len(gs))
                n = r.randint(0, len(gs[j][0]))
                args = [r.choice(VARS + ["$a", 7, "lit"]) for _ in range(n)]
                els.append(["r", j, args, gen_acts(r, r.randint(0, 3), cnt), r.choice([1, 1, 1, 2])])
            else:
                els.append(["w", gen_acts(r, r.randint(0, 3), cnt)])
        gs.append([params, gen_acts(r, r.randint(0, 3), cnt), els])
    return gs


def cases(r, tier, hints):
    yield ("det", [[[], [["set", "$a", 1], ["set", "$b", 5], ["cp", "$a", "$b"], ["set", "$b", 2], ["show", 1, "$a"]],
                    [["w", []]]]])
    yield ("det", [[[], [["set", "$a", 1], ["cp", "$a", "$a"], ["show", 1, "$a"]], [["w", []]]]])
    for a, b, lit in itertools.product(VARS[:2], VARS[:2], [0, 1]):
        leaf = [[a], [["show", 1, a], ["set", a, 9], ["set", b, 8]], [["w", [["show", 2, a], ["show", 3, b]]]]]
        mid = [[b], [["show", 4, b]], [["r", 0, [b], [["show", 5, b], ["show", 6, a]], 1]]]
        for t in (1, 2):
            yield ("det", [leaf, mid, [[], [["set", "$a", 3], ["set", "$b", 4]],
                                       [["r", 1, [7 if lit else a], [["show", 7, "$a"], ["show", 8, "$b"]], t],
                                        ["r", 0, [b], [["show", 9, "$a"], ["show", 10, "$b"]], 1]]]])
    while True:
        yield gen(r)


def nontrivial(c):
    return any(e[0] == "r" and any(isinstance(a, str) and a.startswith("$") for a in e[2]) for g in c for e in g[2])


def lit(v):
    return '"%s"' % v if isinstance(v, str) else str(v)


def acts(a):
    if not a:
        return ""
    out = []
    for x in a:
        if x[0] == "set":
            out.append("%s = %s;" % (x[1], lit(x[2])))
        elif x[0] == "cp":
            out.append("%s = %s;" % (x[1], x[2]))
        elif x[0] == "inc":
            out.append("%s = inc(%s);" % (x[1], x[2]))
        else:
            out.append("call sink(%d, %s);" % (x[1], x[2]))
    return " << %s >> " % " ".join(out)


def text(gs):
    out = []
    for i, (params, pre, els) in enumerate(gs):
        name = "root" if i == len(gs) - 1 else "g%d" % i
        es = []
        for e in els:
            if e[0] == "w":
                es.append('"w"' + acts(e[1]))
            else:
                ref = "g%d[%s]" % (e[1], ", ".join(a if isinstance(a, str) and a.startswith("$") else lit(a)
                                                   for a in e[2]))
                es.append((ref if e[4] == 1 else "(%s * %d)" % (ref, e[4])) + acts(e[3]))
        out.append("%s%s:%s %s ;" % (name, "[%s]" % ", ".join(params) if params else "", acts(pre) or " ", " ".join(es)))
    return "\n".join(out)


def simulate(gs):
    shown, words = [], [0]

    def do(a, env):
        for x in a:
            if x[0] == "set":
                env.setdefault(x[1], [None])[0] = x[2]
            elif x[0] == "cp":
                cell = env.setdefault(x[1], [None])
                cell[0] = env[x[2]][0] if x[2] in env else None
            elif x[0] == "inc":
                cell = env.setdefault(x[1], [None])
                v = env[x[2]][0] if x[2] in env else None
                cell[0] = v + 1 if isinstance(v, int) else v
            else:
                shown.append([x[1], env[x[2]][0] if x[2] in env else None])

    def run(i, args):
        params, pre, els = gs[i]
        env = {}
        for k, p in enumerate(params):
            env[p] = args[k] if k < len(args) else [None]
        do(pre, env)
        for e in els:
            if e[0] == "w":
                words[0] += 1
                do(e[1], env)
            else:
                for _ in range(e[4]):
                    cells = [(env[a] if a in env else [None]) if isinstance(a, str) and a.startswith("$") else [a]
                             for a in e[2]]
                    run(e[1], cells)
                do(e[3], env)
        return env
    env = run(len(gs) - 1, [[100 + k] for k in range(len(gs[-1][0]))])
    return shown, words[0], [env[p][0] for p in gs[-1][0]]


def judge(gs):
    from nessaid_cli.cli import NessaidCli
    want, n, outs = simulate(gs)
    if n > 24:
        return None
    seen = []
    K = type("K", (NessaidCli,), {"sink": lambda self, *x: seen.append(list(x))})
    src = text(gs)
    args = [100 + k for k in range(len(gs[-1][0]))]
    with C.Streams():
        cli = C.new_cli(C.compile_text(src), K)
        res = C.match(cli, ["w"] * n, arglist=args)
    if seen != want or (gs[-1][0] and args != outs):
        return {"expected": "%s, arguments after: %s, from %s" % (want, outs, src),
                "got": "%s, arguments after: %s (%s)" % (seen, args, res.result)}
    return None


def shrink(gs):
    for i, (params, pre, els) in enumerate(gs):
        for k in range(len(pre)):
            yield gs[:i] + [[params, pre[:k] + pre[k + 1:], els]] + gs[i + 1:]
        for k, e in enumerate(els):
            if len(els) > 1:
                yield gs[:i] + [[params, pre, els[:k] + els[k + 1:]]] + gs[i + 1:]
            j = 1 if e[0] == "w" else 3
            for m in range(len(e[j])):
                f = list(e)
                f[j] = e[j][:m] + e[j][m + 1:]
                yield gs[:i] + [[params, pre, els[:k] + [f] + els[k + 1:]]] + gs[i + 1:]
    if len(gs) > 1:
        yield gs[:-1]
