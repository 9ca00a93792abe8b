"""C17 on the real code: the common prefix of suggestions, and the text TAB inserts while a line is typed."""
import io
import itertools
import os.path

from . import c08
from . import common as C

RULE = ("list of suggestions, or a sequence of key presses and TABs on a line whose words have known candidates; "
        "non-trivial: two or more suggestions")
SETS = [["ab", "abc", "abd"], ["ab"], ["cd", "ce"], ["abcdef", "abcdeg", "abcx"], ["x"], ["one", "only", "on"],
        ["tab", "table", "tablet"], ["aab", "ab", "aaab"], ["A", "Ab"], ["An", "Any"]]
QUOTED = [['"ab cd"', '"ab ce"'], ['"ab cd"'], ['"a  b"', '"a c"', "x"], ['"ab "', '"ab  "']]


def quoted(w):
    return w if w[:1] == '"' else '"%s"' % w


def cases(r, tier, hints):
    for n in (0, 1, 2, 3):
        for l in itertools.product(["", "a", "ab", "abc", "b", "aa"], repeat=n):
            yield ("det", ["prefix", list(l)])
    for s in SETS:
        for k in range(len(s[0]) + 1):
            for t in (1, 2, 3):
                yield ("det", ["tab", [s], list(s[0][:k]) + ["TAB"] * t, "k"])
                yield ("det", ["tab", [["go"], s], list("go ") + list(s[0][:k]) + ["TAB"] * t, "k"])
                yield ("det", ["tab", [["ab"], s], list("ab ") + list(s[0][:k]) + ["TAB", "BS", "TAB", "TAB"], "a"])
                yield ("det", ["tab", [s, s], list(s[0] + " ") + list(s[0][:k]) + ["TAB"] * t, "k"])
                yield ("det", ["tab", [["ab"], s], list("ab ") + list(s[0][:k]) + ["TAB"] * t, "s"])
                yield ("det", ["tab", [["ab"], s], list("ab ") + list(s[0][:k]) + ["TAB"] * t, "b"])
    for s in QUOTED:
        for w in s:
            for k in range(len(w) + 1):
                for t in (1, 2, 3):
                    yield ("det", ["tab", [s], list(w[:k]) + ["TAB"] * t, "k"])
                    yield ("det", ["tab", [s, ["kw"]], list(w[:k]) + ["TAB"] * t, "k"])
                    yield ("det", ["tab", [["go"], s], list("go " + w[:k]) + ["TAB"] * t, "k"])
                yield ("det", ["tab", [s, ["kw"]], list(w[:k]) + ["TAB", " ", "TAB", "TAB"], "k"])
                yield ("det", ["tab", [s[:1]], list(w[:k]) + ["TAB", " ", "TAB", "TAB"], "s"])
                for e in ("\t", " \t", "\t ", "  "):
                    yield ("det", ["tab", [s, ["kw"]], list(w[:k] + e) + ["TAB", "TAB"], "k"])
    while True:
        if r.random() < .3:
            yield ["prefix", ["".join(r.choice("ab") for _ in range(r.randint(0, 5))) if r.random() < .8 else
                              r.choice(["abab", "ababa"]) for _ in range(r.randint(0, 5))]]
            continue
        kind = r.choice("kkas")
        ws = [r.choice(SETS if r.random() < .8 or kind != "k" else QUOTED) for _ in range(r.randint(1, 3))]
        keys = []
        for s in ws:
            w = r.choice(s)
            for ch in w[:r.randint(0, len(w))]:
                keys.append(ch)
                if r.random() < .3:
                    keys += ["TAB"] * r.randint(1, 2)
                if r.random() < .1:
                    keys.append("BS")
            keys += ["TAB"] * r.randint(0, 3)
            if r.random() < .8:
                keys.append(" " if r.random() < .95 else "\t")
            if r.random() < .1:
                keys.append(r.choice(['"', " ", "TAB", "z", "\\", "\t"]))
        yield ["tab", ws, keys, kind]


def nontrivial(c):
    return len(c[1]) > 1 or c[0] == "tab" and len(c[1][0]) > 1


def lcp(l):
    return os.path.commonprefix(list(l)) if l else ""


class Line:
    def __init__(self):
        self.buf, self.inserted = "", []

    async def insert_text(self, t):
        self.inserted.append(t)
        self.buf += t

    def get_line_buffer(self):
        return self.buf

    def play_bell(self):
        pass

    def __getattr__(self, n):
        return lambda *a, **k: None


_c = {}


def cli_for(sets, kind):
    key = repr((sets, kind))
    if key not in _c:
        from nessaid_cli.cli import NessaidCli
        import nessaid_cli.tokens as T

        class K(NessaidCli):
            def get_token_classes(self):
                return [T.StringToken, T.AlternativeStringsToken, T.BooleanToken]
        pre, seq = "", []
        for i, s in enumerate(sets):
            if kind == "a":
                pre += "token A%d AlternativeStringsToken(%s);\n" % (i, ", ".join(quoted(w) for w in s))
            if kind in "sb" and i == len(sets) - 1:
                pre += "token S%d %s();\n" % (i, "StringToken" if kind == "s" else "BooleanToken")
                seq.append("(" + " | ".join([quoted(w) for w in s][:1 if kind == "s" else 0] + ["S%d" % i]) + ")"
                           if kind == "b" else "S%d" % i)
            else:
                seq.append("A%d" % i if kind == "a" else "(" + " | ".join(quoted(w) for w in s) + ")")
        try:
            gs = C.compile_text(pre + "root: " + " ".join(seq) + " ;")
            _c[key] = C.new_cli(gs, K)
        except Exception:
            if kind != "a":
                raise
            _c[key] = None
    return _c[key]


def candidates(sets, kind, words):
    """suggestions after complete words, or None when they do not match"""
    for w, s in zip(words, sets):
        if w in s:
            continue
        if not any(x.startswith(w) for x in s):
            return None
    return sets[len(words)] if len(words) < len(sets) else None


def judge(c):
    from nessaid_cli.interface import ParsingResult
    if c[0] == "prefix":
        l = list(c[1])
        got = ParsingResult().common_prefix(list(l))
        if got != lcp(l):
            return {"expected": repr(lcp(l)), "got": repr(got)}
        return None
    _, sets, keys, kind = c
    if kind == "b":
        sets = sets[:-1] + [["True", "False"]]
    if kind == "a":
        sets = [list(dict.fromkeys(s)) for s in sets]
    cli = cli_for(c[1], kind)
    if cli is None:
        return None
    cli._readline = line = Line()
    cli.enter_grammar("root")
    cli._current_line = None
    with C.Streams():
        try:
            for k in keys:
                if k == "BS":
                    line.buf = line.buf[:-1]
                    continue
                if k != "TAB":
                    line.buf += k
                    continue
                before = line.buf
                del line.inserted[:]
                C.run(cli.complete("", 0))
                if not line.buf.startswith(before):
                    return {"expected": "the typed text %r stays" % before, "got": repr(line.buf)}
                got = line.buf[len(before):]
                if got == "":
                    continue
                t = c08.spec(before)
                if t is None:
                    return {"expected": "nothing inserted after %r" % before, "got": repr(got)}
                words = [before[a:b] for a, b, _, _ in t]
                typed = words.pop() if words and t[-1][1] == len(before) else ""
                if got == " " and typed:
                    continue
                cand = candidates(sets, kind, words)
                if kind == "s" and len(words) == len(sets) - 1:
                    cand = None
                low = (lambda x: x.lower()) if kind == "b" and len(words) == len(sets) - 1 else (lambda x: x)
                S = [x for x in cand or [] if low(x).startswith(low(typed))]
                full = lcp(S)
                rest = full[len(typed):] if S else None
                if not S or not rest or got not in ([rest, rest + " "] if len(set(S)) == 1 else [rest]):
                    return {"expected": "%r or a blank inserted after %r (suggestions %s)" % (rest, before, S),
                            "got": repr(got)}
        finally:
            cli.exit_grammar()
    return None


def shrink(c):
    if c[0] == "prefix":
        for i in range(len(c[1])):
            yield ["prefix", c[1][:i] + c[1][i + 1:]]
            yield ["prefix", c[1][:i] + [c[1][i][:-1]] + c[1][i + 1:]]
    else:
        for i in range(len(c[2])):
            yield ["tab", c[1], c[2][:i] + c[2][i + 1:], c[3]]
