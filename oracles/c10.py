"""C10 on the real code: ranged integer tokens against a direct enumeration or count of the range."""
from . import common as C

RULE = ("bounds, suggestion limit and input; non-trivial: the input is a decimal numeral")


def cases(r, tier, hints):
    for h in hints or []:
        try:
            if "lo" in h and "hi" in h:
                yield [int(h["lo"]), int(h["hi"]), int(h.get("limit", 10)), str(h.get("input", "1"))]
                n = int(h["number"]) if "number" in h else None
                if n is not None:
                    yield [int(h["lo"]), int(h["hi"]), int(h.get("limit", 10)), str(n)]
        except Exception:
            continue
    edges = [-1000, -101, -100, -99, -20, -10, -9, -1, 0, 1, 9, 10, 11, 99, 100, 123, 1000, 12345]
    for lo in edges:
        for hi in edges:
            if lo <= hi:
                for s in ("", "-", "0", "-0", "1", "-1", "9", "-9", "10", "-10", "12", "99", "-99", "100", "1000", "05", "x", "1x",
                          "-x", "--1", "+1", "123"):
                    for m in (1, 10, 1000):
                        yield ("det", [lo, hi, m, s])
    while True:
        b = r.choice([12, 120, 1200, 10 ** 5, 10 ** 12, 10 ** 30])
        lo, hi = r.randint(-b, b), r.randint(-b, b)
        if r.random() < .3:
            hi = lo + r.randint(0, 30)
        n = r.choice([lo, hi, r.randint(min(lo, hi), max(lo, hi)), r.randint(-b, b), lo - 1, hi + 1])
        s = str(n)
        if r.random() < .6:
            s = s[:r.randint(1, len(s))]
        yield [lo, hi, r.choice([0, 1, 5, 10, 100, 1000]), s]


def nontrivial(c):
    return c[3].lstrip("-").isdigit()


def count(lo, hi, s):
    """how many integers in lo..hi have a decimal notation beginning with s (a numeral, '-' or '')"""
    if s == "":
        return max(0, hi - lo + 1)
    if s.startswith("-"):
        if s == "-":
            return max(0, min(hi, -1) - lo + 1)
        lo, hi, s = max(1, -hi), -lo, s[1:]
    if s == "0":
        return 1 if lo <= 0 <= hi else 0
    if s.startswith("0") or hi < 1:
        return 0
    p, n = int(s), 0
    k = 1
    lo = max(lo, 1)
    while p * k <= hi:
        n += max(0, min(hi, p * k + k - 1) - max(lo, p * k) + 1)
        k *= 10
    return n


def judge(c):
    from nessaid_cli import tokens as T
    a, b, limit, s = c
    lo, hi = min(a, b), max(a, b)
    t = T.RangedIntToken("t", a, b, limit)
    v, m = C.run(t.get_value(s)), C.run(t.match(s))
    d = s[1:] if s.startswith("-") else s
    num = int(s) if d.isdigit() and d.isascii() else None
    if num is not None and lo <= num <= hi:
        if v is T.NullTokenValue or v != num or type(v) is not int:
            return {"expected": "value %d" % num, "got": repr(v)}
    elif v is not T.NullTokenValue:
        return {"expected": "no value", "got": repr(v)}
    if s == "" or d.startswith("0") and d != "0" or s == "-0":
        return None
    n, comps = C.run(t.complete(s))
    if s != "-" and num is None:
        if m != T.MATCH_FAILURE or comps:
            return {"expected": "failure, no completions", "got": repr((m, n, comps))}
        return None
    k = count(lo, hi, s)
    if k == 0:
        if m != T.MATCH_FAILURE or comps or n != 0:
            return {"expected": "failure, no completions", "got": repr((m, n, comps))}
        return None
    if m == T.MATCH_FAILURE:
        return {"expected": "no failed match: %d completions" % k, "got": repr(m)}
    if not comps:
        if n != T.TOO_MANY_COMPLETIONS:
            return {"expected": "%d completions or too many" % k, "got": repr((n, comps))}
        if k <= limit:
            return {"expected": "%d completions" % k, "got": "too many"}
        return None
    if n != k or len(comps) != k or len(set(comps)) != k or not all(
            isinstance(x, str) and x.startswith(s) and str(int(x)) == x and lo <= int(x) <= hi for x in comps):
        return {"expected": "the %d integers of %d..%d beginning with %s" % (k, lo, hi, s), "got": repr((n, comps))[:300]}
    return None


def shrink(c):
    a, b, m, s = c
    for x, y in ((a // 10, b // 10), (0, b), (a, 0), (a // 2, b), (a, b // 2), (a + 1, b), (a, b - 1)):
        if (x, y) != (a, b):
            yield [x, y, m, s]
    if len(s) > 1:
        yield [a, b, m, s[:-1]]
    if m != 10:
        yield [a, b, 10, s]
