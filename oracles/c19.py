"""C19 on the real code: sequences of definitions against a table of names."""
from . import common as C

RULE = "sequence of grammar and token definitions, compiled and added directly; non-trivial: some name is used twice"
NAMES = ["aa", "bb", "cc", "dd", "AA", "aab", "a"]


def cases(r, tier, hints):
    kinds = ["g", "t", "p"]
    for a in kinds:
        for b in kinds:
            for n in ("aa", "bb"):
                yield ("det", [[a, "aa"], [b, n]])
                for c in kinds:
                    for m in ("aa", "cc"):
                        yield ("det", [[a, "aa"], [b, n], [c, m]])
    for ps in (["$x"], ["$x", "$y"], ["$x", "$x"], ["$x", "$y", "$x"], ["$x", "$y", "$y"], ["$x = 1", "$x"],
               ["$x", "$x = 1"], ["$x = 1", "$y = 2", "$x = 3"], ["$xy", "$x"]):
        yield ("det", [["g", "aa"], ["params", "bb", ps], ["t", "cc"]])
    while True:
        out = []
        for _ in range(r.randint(1, 7)):
            if r.random() < .2:
                out.append(["params", r.choice(NAMES), [r.choice(["$x", "$y", "$z", "$w", "$x = 1", "$X", "$xx"])
                                                        for _ in range(r.randint(0, 4))]])
            else:
                out.append([r.choice("ggtp"), r.choice(NAMES)])
        yield out


def nontrivial(c):
    return len({x[1] for x in c}) < len(c)


def judge(c):
    from nessaid_cli import elements as E
    from nessaid_cli import lex_yacc_common as L
    spec = E.GrammarSpecification()
    table = {}
    for i, d in enumerate(c):
        kind, name = d[0], d[1]
        if kind == "params":
            ps = [p.split(" = ") for p in d[2]]
            dup = len({p[0] for p in ps}) < len(ps)
            try:
                E.NamedGrammar(name, [E.CliParameter(p[0]) for p in ps], E.KeywordInputElement("k%d" % i))
                if dup:
                    return {"expected": "duplicate parameter rejected: %s" % d[2], "got": "accepted"}
            except ValueError:
                if not dup:
                    return {"expected": "accepted: %s" % d[2], "got": "rejected"}
            continue
        if kind == "t":
            o = E.TokenClassDef("StringToken", [])
            add = spec.add_token_def
            args = (name, o)
        else:
            o = E.NamedGrammar(name, [], E.KeywordInputElement("k%d" % i))
            add = spec.add_grammar
            args = (o,)
        try:
            add(*args)
            ok = True
        except (E.DuplicateDefinitionException, E.DuplicateTokendefException):
            ok = False
        if ok != (name not in table):
            return {"expected": "%s %s" % (name, "accepted" if name not in table else "rejected"), "got": str(ok)}
        if ok:
            table[name] = (kind == "t", o)
        for n in NAMES:
            g, t = spec.get_grammar(n), spec.get_tokendef(n)
            want = table.get(n)
            if (g is not (want[1] if want and not want[0] else None)
                    or t is not (want[1] if want and want[0] else None)):
                return {"expected": "definitions %s" % {k: v[0] for k, v in table.items()},
                        "got": "%s: grammar %r token %r after step %d" % (n, g, t, i)}
        if (sorted(spec.named_grammars) != sorted(k for k, v in table.items() if not v[0])
                or sorted(spec.token_defs) != sorted(k for k, v in table.items() if v[0])
                or len(spec.grammars) != len(spec.named_grammars) or len(spec.tokens) != len(spec.token_defs)):
            return {"expected": "definitions %s" % sorted(table), "got": "%s %s" % (sorted(spec.named_grammars),
                                                                                sorted(spec.token_defs))}
    return judge_text(c)


def judge_text(c):
    from nessaid_cli import elements as E
    text, seen, dup, params = "", set(), False, False
    for i, d in enumerate(c):
        kind, name = d[0], d[1]
        if name in seen:
            dup = True
        seen.add(name)
        if kind == "t":
            text += "token %s StringToken();\n" % name
        elif kind == "params":
            ps = [p.split(" = ")[0] for p in d[2]]
            params = params or len(set(ps)) < len(ps)
            # parameters with a default come last
            ds = sorted(d[2], key=lambda p: "=" in p)
            text += '%s%s: "k%d";\n' % (name, "[%s]" % ", ".join(ds) if ds else "", i)
        else:
            text += '%s: "k%d";\n' % (name, i)
    try:
        gs = C.compile_text(text)
        got = "accepted"
    except (E.DuplicateDefinitionException, E.DuplicateTokendefException) as e:
        got = "duplicate"
    except ValueError as e:
        got = "params"
    except Exception as e:
        got = "rejected %s %s" % (type(e).__name__, e)
    # a text with both faults is rejected for the one found first
    want = ["duplicate", "params"] if dup and params else ["duplicate"] if dup else ["params"] if params else ["accepted"]
    if got not in want:
        return {"expected": "%s: %s" % (want, text), "got": got}
    if got == "accepted":
        for d in c:
            kind, name = d[0], d[1]
            if (gs.get_tokendef(name) is not None) != (kind == "t") or (gs.get_grammar(name) is not None) != (kind != "t"):
                return {"expected": "%s is a %s in %s" % (name, kind, text), "got": "something else"}
            if kind != "t":
                cli = C.new_cli(gs)
                with C.Streams():
                    res = C.match(cli, ["k%d" % c.index(d)], name)
                if res.result != "success":
                    return {"expected": "%s means what it was defined as in %s" % (name, text), "got": res.result}
    return None


def shrink(c):
    for i in range(len(c)):
        if len(c) > 1:
            yield c[:i] + c[i + 1:]
