"""C09 on the real code: match results, completions and values of keywords and alternatives."""
import itertools

from . import common as C

RULE = "keyword or set of alternatives and an input near them; non-trivial: some candidate begins with the input"
POOL = ["a", "ab", "abc", "abd", "b", "ba", "bab", "c", "x y", "x z", "A", "aB", "1", "12", "é", "éa", "-", "--x",
        "x\\y", 'q"r', "a b c"]


def cases(r, tier, hints):
    small = ["a", "ab", "abc", "b", "x y"]
    for n in range(1, 4):
        for s in itertools.permutations(small, n):
            for i in ["a", "ab", "abc", "abcd", "b", "ba", "", '"x', '"x y"', "x"]:
                yield ("det", [list(s), i, "list"])
    for s in POOL:
        for k in range(0, 6):
            yield ("det", [s, k, "kw"])
    while True:
        if r.random() < .25:
            w = "".join(r.choice("ab1 é\\\"x") for _ in range(r.randint(1, 6)))
            if w.startswith('"') or w.endswith('"'):
                continue
            yield [w, r.choice([0, 1, 2, 3, -1, "x", "b", w[:-1] + "z"]), "kw"]
            continue
        n = r.randint(1, 6)
        s = [r.choice(POOL) if r.random() < .6 else "".join(r.choice("ab") for _ in range(r.randint(1, 4)))
             for _ in range(n)]
        i = r.choice(s)
        i = i[:r.randint(1, len(i))] if r.random() < .8 else i + r.choice("abz")
        yield [s, i, r.choice(["list", "tuple", "set", "args"])]


def nontrivial(c):
    return isinstance(c[0], str) or any(x.startswith(c[1]) for x in c[0])


def bad(what, got):
    return {"expected": what, "got": repr(got)}


def judge(c):
    from nessaid_cli import tokens as T
    from nessaid_cli.utils import convert_to_cli_string as cli
    s, i, kind = c
    if kind == "kw":
        t = T.CliToken(s)
        cands = [cli(s)]
        i = (cands[0][:i] if i >= 0 else cands[0] + "q") if isinstance(i, int) else i
        back = {cands[0]: s}
    else:
        arg = {"list": list, "tuple": tuple, "set": set, "args": list}[kind](s)
        t = T.AlternativeStringsToken("t", *arg) if kind == "args" else T.AlternativeStringsToken("t", arg)
        cands = sorted(set(cli(x) for x in s))
        back = {cli(x): x for x in s}
    hits = [x for x in cands if x.startswith(i)]
    m = C.run(t.match(i))
    n, comp = C.run(t.complete(i))
    v = C.run(t.get_value(i))
    if sorted(set(comp)) != hits or (i and (sorted(comp) != hits or n != len(hits))):
        return bad("completions %s of %r" % (hits, i), (n, comp))
    if i:
        if kind == "kw":
            want = T.MATCH_SUCCESS if i == cands[0] else T.MATCH_PARTIAL if hits else T.MATCH_FAILURE
        else:
            want = T.MATCH_SUCCESS if i in cands or len(hits) == 1 else T.MATCH_PARTIAL if hits else T.MATCH_FAILURE
        if m != want:
            return bad("%s for %r among %s" % (want, i, cands), m)
        if len(hits) == 1:
            want = back[hits[0]]
        elif i in cands:
            want = back[i]
        else:
            want = T.NullTokenValue
        if v is not want and (v != want or want is T.NullTokenValue):
            return bad("value %r for %r among %s" % (want, i, cands), v)
    return None


def shrink(c):
    s, i, kind = c
    if isinstance(s, list):
        for k in range(len(s)):
            if len(s) > 1:
                yield [s[:k] + s[k + 1:], i, kind]
        for k in range(len(i)):
            yield [s, i[:k] + i[k + 1:], kind]
