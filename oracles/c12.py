"""C12 on the real code: answers of an object with caches against those of fresh objects, over histories."""
import itertools

from . import common as C

RULE = ("history of values of inputs, token objects, string conversions, matches and emptied caches on one object; "
        "non-trivial: something is asked twice")
SRC = '''
token num RangedIntToken(1, 200);
token rs RangedStringToken(2, 5);
token st StringToken();
token dec RangedDecimalToken(0.5, 20);
token boo BooleanToken();
token fix FixedCountToken();
root: "ab" num | "abc" rs | st num | boo dec ;
'''
NAMES = ["num", "rs", "st", "dec", "boo", "ab", "abc", "x y"]
INPUTS = ["1", "2", "20", "200", "201", "ab", "a", "abc", "abcdef", '"ab"', '"x y"', '"ab', "true", "t", "TR", "1.5", "",
          '"a\\nb"', "a\\nb", '"1"', "fa", "x y", '"x y', '"\\""', '"\\"', '"a\\"', "\\\\"]
LINES = ["ab 1", "abc xy", "ab 300", "zz 7", "t 1.5", "ab", "abc", 'abc "x y"', "false 20", "zz"]


def toks(line):
    return line.split(" ") if '"' not in line else [line.split(" ", 1)[0], line.split(" ", 1)[1]]


def cases(r, tier, hints):
    for n in NAMES:
        for i in INPUTS:
            yield ("det", [["v", n, i], ["v", n, i]])
    for a in INPUTS:
        for b in INPUTS:
            if a != b:
                yield ("det", [["v", "st", a], ["v", "st", b], ["v", "st", a]])
    for n in NAMES:
        yield ("det", [["t", n, None], ["t", n, "help"], ["t", n, None], ["t", n, "other"], ["t", n, "help"]])
    for a, qa in itertools.product(INPUTS, [0, 1, 2]):
        for qb in [0, 1, 2]:
            yield ("det", [["s", a, qa], ["s", a, qb], ["s", a, qa]])
    for a in LINES:
        for b in LINES:
            yield ("det", [["m", a, 0], ["m", b, 0], ["m", a, 0], ["clear"], ["m", a, 1], ["m", b, 0]])
    for n in range(6):
        yield ("det", [["s", i, q] for i in INPUTS for q in (0, 1, 2)] * 2 + [["v", m, i] for m in NAMES[:5] for i in
                      INPUTS[n:n + 9]] * 2)
    while True:
        h = []
        for _ in range(r.randint(2, r.choice([6, 30, 60]))):
            k = r.random()
            if k < .4:
                h.append(["v", r.choice(NAMES), r.choice(INPUTS) if r.random() < .7 else str(r.randint(0, 300))])
            elif k < .5:
                h.append(["t", r.choice(NAMES), r.choice([None, "help", "other"])])
            elif k < .75:
                h.append(["s", r.choice(INPUTS), r.choice([0, 1, 2])])
            elif k < .9:
                h.append(["m", r.choice(LINES), r.choice([0, 1])])
            else:
                h.append(r.choice([["clear"], ["size", r.randint(0, 4)]]))
        yield h


def nontrivial(h):
    return len(set(map(repr, h))) < len(h) or len(h) > 2


def fresh():
    from nessaid_cli import tokens as T
    from nessaid_cli.cli import NessaidCli

    class FixedCountToken(T.CliToken):
        """a token that must not be cached: it counts its calls"""
        cacheable = property(lambda self: False)
    K = type("K", (NessaidCli,), {"get_token_classes": lambda self: [T.RangedIntToken, T.RangedStringToken, T.StringToken,
                                                                     T.RangedDecimalToken, T.BooleanToken]})
    if "gs" not in _c:
        _c["gs"] = C.compile_text(SRC)
    cli = C.new_cli(_c["gs"], K)
    cli._token_value_hit = cli._token_value_miss = cli._token_hit = cli._token_miss = 0
    return cli


_c = {}


def do(cli, op):
    from nessaid_cli import utils as U
    from nessaid_cli.tokenizer.tokenizer import TokenInputString
    from nessaid_cli.tokens import NullTokenValue
    if op[0] == "v":
        v = C.run(cli.get_token_value(cli.get_token(op[1]), op[2]))
        return "none" if v is NullTokenValue else [type(v).__name__, repr(v)]
    if op[0] == "t":
        t = cli.get_token(op[1], op[2])
        return [type(t).__name__, t.name, str(t.helpstring)]
    if op[0] == "s":
        s = op[1] if op[2] == 0 else TokenInputString(op[1], 0, len(op[1]), quoted=True, quote_incomplete=op[2] == 2)
        return repr(str(U.convert_to_python_string(s, cli=cli)))
    if op[0] == "m":
        w = toks(op[1])
        res = C.match(cli, w, dry=bool(op[2]), complete=not op[2])
        return [res.result, [repr(v) for v in res.matched_values], sorted(map(str, res.next_tokens))]
    if op[0] == "clear":
        cli._str_cache_size, cli._token_value_cache_size = -1, -1
        cli.clear_caches()
        return None
    cli._str_cache_size = cli._token_value_cache_size = op[1]


def judge(h):
    cli = fresh()
    objs = {}
    for k, op in enumerate(h):
        with C.Streams():
            got = do(cli, op)
            want = do(fresh(), op)
        if got != want:
            return {"expected": "%s for %s, as on a fresh object, after %s" % (want, op, h[:k]), "got": repr(got)}
        if op[0] == "t":
            o = cli.get_token(op[1], op[2])
            if objs.setdefault((op[1], op[2]), o) is not o:
                return {"expected": "the same token object for %s" % (op,), "got": "another one"}
    return None


def shrink(h):
    n = len(h)
    if n > 6:
        yield h[n // 2:]
        yield h[:n // 2]
    for i in range(n - 1):
        yield h[:i] + h[i + 1:]
