"""C05 on the real code: which value each parameter gets, called directly and through compiled grammars."""
import itertools

from . import common as C

RULE = "parameter list with defaults and argument list with positions and names; non-trivial: at least one argument"
NAMES = ["$a", "$b", "$c", "$d", "$ab"]
ND = "no default"


def spec(params, args):
    """{name: value}, or None when the arguments are wrong"""
    names = [p for p, _ in params]
    got, kw = {}, False
    if len(args) > len(params):
        return None
    for i, (n, v) in enumerate(args):
        if n is None:
            if kw:
                return None
            got[names[i]] = v
        else:
            kw = True
            if n not in names or n in got:
                return None
            got[n] = v
    for p, d in params:
        if p not in got:
            got[p] = None if d == ND else d
    return got


def cases(r, tier, hints):
    for n in range(0, 4):
        for defs in itertools.product([0, 1], repeat=n):
            ps = [[NAMES[i], "d%d" % i if d else ND] for i, d in enumerate(defs)]
            for m in range(0, n + 2):
                for ns in itertools.product([None] + NAMES[:n] + ["$z"], repeat=m):
                    c = [ps, [[x, "v%d" % i] for i, x in enumerate(ns)]]
                    yield ("det", ["map"] + c)
                    if n < 3:
                        yield ("det", ["text"] + c)
    for ns in (["$ab", "$a"], ["$a", "$ab"], ["$ab", "$b"], ["$A", "$a"]):
        for m in (1, 2):
            for an in itertools.permutations(ns, m):
                yield ("det", ["map", [[n, ND] for n in ns], [[x, "v%d" % i] for i, x in enumerate(an)]])
    vals = ["v", "", "x y", 1, 0, -3, "None", None, True, False, "q\\"]
    while True:
        n = r.randint(0, 6)
        pool = r.sample(["$a", "$ab", "$abc", "$b", "$ba", "$A", "$p", "$p1", "$p10"], n)
        ps = [[pool[i], r.choice(vals[:6] + [ND, ND])] for i in range(n)]
        r.shuffle(ps)
        k = r.randint(0, n)
        args = [[None, r.choice(vals)] for _ in range(k)]
        rest = [p for p, _ in ps[k:]]
        r.shuffle(rest)
        args += [[p, r.choice(vals)] for p in rest[:r.randint(0, len(rest))]]
        m = r.random()
        if m < .1:
            args.append([None, "x"])
        elif m < .2 and ps:
            args.append([r.choice(ps)[0], "x"])
        elif m < .25:
            args.append(["$zz", 1])
        yield [r.choice(["map", "map", "text"]), ps, args]


def nontrivial(c):
    return bool(c[2])


def lit(v):
    return '"%s"' % v.replace("\\", "\\\\") if isinstance(v, str) else repr(v)


def textable(c):
    return all(not isinstance(v, str) or "\\" not in v for _, v in c[1] + c[2])


def judge(c):
    from nessaid_cli import elements as E
    from nessaid_cli.lex_yacc_common import DollarVariable
    kind, ps, args = c
    want = spec(ps, args)
    if kind == "map" or not textable(c):
        pl = [E.CliParameter(p) if d == ND else E.CliParameter(p, defvalue=d, has_def_value=True) for p, d in ps]
        al = [E.CliArgument(v) if n is None else E.CliArgument(v, param_name=DollarVariable(n)) for n, v in args]
        keep = list(pl)
        try:
            m = E.map_grammar_arguments("g", pl, al)
            got = {str(k): x.value for k, x in m.items()}
        except E.ArgumentError:
            got = None
        if pl != keep:
            return {"expected": "the parameter list unchanged", "got": repr(pl)}
    else:
        from nessaid_cli.cli import NessaidCli
        p = ", ".join(n if d == ND else "%s = %s" % (n, lit(d)) for n, d in ps)
        a = ", ".join(lit(v) if n is None else "%s = %s" % (n, lit(v)) for n, v in args)
        sub = 'sub[%s]: "x" << call sink(%s); >> ;' % (p, ", ".join(n for n, _ in ps))
        src = "%s\nroot: sub[%s] ;" % (sub, a)
        seen = []
        K = type("K", (NessaidCli,), {"sink": lambda self, *x: seen.append(x)})
        with C.Streams():
            try:
                gs = C.compile_text(src)
                cli = C.new_cli(gs, K)
                C.match(cli, ["x"])
            except E.ArgumentError:
                seen = None
            except Exception:
                if want is None:
                    return None
                raise
        if seen is None or not seen:
            got = None
        else:
            got = dict(zip([n for n, _ in ps], seen[0]))
    if got != want or (got and any(type(got[k]) is not type(want[k]) for k in got)):
        return {"expected": "argument error" if want is None else repr(want), "got": repr(got)}
    return None


def shrink(c):
    k, ps, args = c
    for i in range(len(ps)):
        yield [k, ps[:i] + ps[i + 1:], args]
    for i in range(len(args)):
        yield [k, ps, args[:i] + args[i + 1:]]
    if k != "map":
        yield ["map", ps, args]
