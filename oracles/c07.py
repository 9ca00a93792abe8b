"""C07 on the real code: every string through its notation and the tokenizer and back."""
import itertools

from . import common as C

RULE = "string not beginning or ending with a double quote; non-trivial: it needs quoting"
CH = ["a", " ", "\\", '"', "\n", "\t", "\r", "\0", "\b", "\v", "\a", "n", "0", "r", "b", "v", "t", "\x0c", "\x1f", "é",
      "\u2028", "$", "'", "\U0001f600", "x"]
SPECIAL = set(' \n\0\r\t\b\a\v"\\')


def ok(s):
    return not s.startswith('"') and not s.endswith('"')


def cases(r, tier, hints):
    for h in hints or []:
        for v in h.values():
            if isinstance(v, str) and ok(v):
                yield v
    for n in (0, 1, 2):
        for t in itertools.product(CH[:17], repeat=n):
            s = "".join(t)
            if ok(s):
                yield ("det", s)
    for t in itertools.product(["\\", '"', "\n", "n", " ", "0"], repeat=4):
        s = "".join(t)
        if ok(s):
            yield ("det", s)
    for c in range(0, 0x3000):
        yield ("det", chr(c)) if chr(c) != '"' else ("det", "a")
    while True:
        s = "".join(r.choice(CH) for _ in range(r.randint(1, r.choice([4, 8, 14]))))
        if r.random() < .2:
            s = "".join(chr(r.randrange(1, 0x2fff)) for _ in range(4)) + s
        if ok(s):
            yield s


def nontrivial(s):
    return bool(set(s) & SPECIAL)


_tok = []


def judge(s):
    from nessaid_cli import utils as U
    from nessaid_cli.tokenizer import tokenizer as T
    if not _tok:
        _tok.append(T.NessaidCliTokenizer())
    n = U.convert_to_cli_string(s)
    back = U.convert_to_python_string(n)
    if back != s:
        return {"expected": "%r back from %r" % (s, str(n)), "got": repr(back)}
    if not s:
        return None
    try:
        toks = _tok[0].parse(str(n))
    except Exception as e:
        toks = e
    if not isinstance(toks, list) or len(toks) != 1 or str(toks[0]) != str(n):
        return {"expected": "one token %r" % str(n), "got": repr(toks)}
    b2 = U.convert_to_python_string(toks[0])
    if b2 != s:
        return {"expected": "%r back from the token %r" % (s, str(toks[0])), "got": repr(b2)}
    return None


def shrink(s):
    for i in range(len(s)):
        t = s[:i] + s[i + 1:]
        if ok(t):
            yield t
