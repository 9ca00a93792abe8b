"""C08 on the real code: tokens, their positions and flags, against a scan of the line character by character."""
import itertools

from . import common as C

RULE = "line of text, blanks, quotes, escapes and odd characters; non-trivial: at least two characters"
CH = ["a", "b", " ", "\t", '"', "\\", "n", "0", "\\n", '\\"', "\\\\", "  ", "é", "-", '"', " ", "x"]
ODD = ["\n", "\r", "\0", "\x0b", "\x0c", "\x85", "\u2028", "\xa0", "\x1b"]
ESC = '0nrtbva"\\'


def spec(line):
    """[(start, end, quoted, incomplete)], or None for a line that is not accepted"""
    out, i = [], 0
    while i < len(line):
        c = line[i]
        if c in " \t":
            i += 1
            continue
        if c == '"':
            j = i + 1
            while j < len(line):
                d = line[j]
                if d == '"':
                    break
                if d == "\\":
                    if j + 1 < len(line) and line[j + 1] in ESC:
                        j += 2
                        continue
                    break
                if d in "\n\r\t\0":
                    break
                j += 1
            if j < len(line) and line[j] == '"':
                out.append((i, j + 1, True, False))
                i = j + 1
                continue
            if j < len(line) and line[j] == "\\":
                j += 1
            out.append((i, j, True, True))
            i = j
            continue
        if c in "\n\\":
            return None
        j = i
        while j < len(line) and line[j] not in '"\n\\ \t':
            j += 1
        out.append((i, j, False, False))
        i = j
    return out


def cases(r, tier, hints):
    for h in hints or []:
        for v in h.values():
            if isinstance(v, str):
                yield v
    for n in range(0, 5):
        for t in itertools.product(['a', ' ', '"', '\\', 'n', '\t'], repeat=n):
            yield ("det", "".join(t))
    for o in ODD:
        for pre, post in itertools.product(["", "a", '"', '"a" ', "\\"], ["", "b", '"', ' "b"']):
            yield ("det", pre + o + post)
    while True:
        n = r.randint(1, r.choice([6, 12, 20]))
        s = "".join(r.choice(CH if r.random() < .93 else ODD) for _ in range(n))
        yield s


def nontrivial(s):
    return len(s) > 1


_tok = []


def judge(s):
    from nessaid_cli.tokenizer import tokenizer as T
    if not _tok:
        _tok.append(T.NessaidCliTokenizer())
    want = spec(s)
    try:
        toks = _tok[0].parse(s)
        got = [(t.lexpos, t.lexpos + t.lexlen, t.quoted, t.quote_incomplete) for t in toks]
        text = [str(t) for t in toks]
    except T.TokenizerException:
        got, text = None, []
    if got is None:
        with C.Streams() as st:
            toks = T.tokenize(s)
        if toks != [] or not st.err:
            return {"expected": "an error report and no tokens", "got": repr((toks, st.err))}
        return None
    if text != [s[a:b] for a, b, _, _ in got]:
        return {"expected": repr([s[a:b] for a, b, _, _ in got]), "got": repr(text)}
    at = 0
    for a, b, _, _ in got + [(len(s), len(s), False, False)]:
        if a < at or s[at:a].strip(" \t"):
            return {"expected": "blanks between the tokens", "got": repr((s[at:a], text))}
        at = b
    if want is not None and got != want:
        return {"expected": repr(want), "got": repr(got)}
    with C.Streams() as st:
        toks = T.tokenize(s)
    if [str(t) for t in toks] != text:
        return {"expected": repr(text), "got": repr(toks)}
    return None


def shrink(s):
    for i in range(len(s)):
        yield s[:i] + s[i + 1:]
