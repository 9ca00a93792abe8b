"""C11 on the real code: values and match results of string, ranged string, decimal and boolean tokens."""
import math

from . import common as C

RULE = ("token class with random bounds and inputs near them; non-trivial: the input is not empty")
CH = list('ab"\\ \t\x00é中') + ['"', '"']


def text(r, n):
    return "".join(r.choice(CH) for _ in range(n))


def cases(r, tier, hints):
    for h in hints or []:
        try:
            if "lo" in h and "input" in h:
                yield ["rs", int(h["lo"]), int(h["hi"]), h["input"]]
            elif "input" in h:
                yield ["b", h["input"]]
                yield ["s", h["input"]]
        except Exception:
            continue
    for lo in range(0, 4):
        for hi in range(0, 4):
            for n in range(0, 6):
                for q in (("", ""), ('"', '"'), ('"', ""), ("", '"')):
                    yield ("det", ["rs", lo, hi, q[0] + "abcdef"[:n] + q[1]])
    for w in ("true", "false"):
        for n in range(0, len(w) + 2):
            for m in range(2 ** min(n, 5)):
                p = "".join(c.upper() if m >> i & 1 else c for i, c in enumerate((w + "x")[:n]))
                yield ("det", ["b", p])
    for x in (0.0, 1.0, -1.0, 2.5, -2.5, 10, -10):
        for y in (0.0, 1.0, -1.0, 2.5, -2.5, 10, -10):
            for s in ("0", "-0", "1", "-1", "2.5", "-2.5", "2.50001", "10", "-10", "1e1", "11", "-11", "1e400", "nan",
                      "inf", "-inf", "", "-", "x", "1.", ".5", "0.999999", "-0.5", "1_0", "+1", "٣"):
                yield ("det", ["d", x, y, s])
    while True:
        k = r.choice(["rs", "d", "b", "s", "rs", "d"])
        if k == "rs":
            lo, hi = r.randint(0, 6), r.randint(0, 6)
            yield ["rs", lo, hi, text(r, r.randint(0, 10))]
        elif k == "s":
            yield ["s", text(r, r.randint(0, 8))]
        elif k == "b":
            yield ["b", "".join(r.choice("truefalsTRUEFALSıſ\u212aİ x") for _ in range(r.randint(0, 6)))]
        else:
            x, y = [r.choice([r.uniform(-5, 5), r.uniform(-1e9, 1e9), float(r.randint(-9, 9)), 0.0]) for _ in "xy"]
            z = r.choice([x, y, -x, r.uniform(-6, 6), math.nextafter(x, 1e300), math.nextafter(y, -1e300),
                          math.nextafter(x, -1e300), math.nextafter(y, 1e300), x + y])
            yield ["d", x, y, r.choice([repr(z), repr(z), "%.2f" % z, "%g" % z, str(int(z)), " " + repr(z)])]


def nontrivial(c):
    return c[-1] != ""


def bad(what, got):
    return {"expected": what, "got": repr(got)}


def judge(c):
    from nessaid_cli import tokens as T
    k, s = c[0], c[-1]
    if k in ("rs", "s"):
        u = s[1:] if s.startswith('"') else s
        u = u[:-1] if u.endswith('"') else u
        t = T.RangedStringToken("t", c[1], c[2]) if k == "rs" else T.StringToken("t")
        v, m = C.run(t.get_value(s)), C.run(t.match(s))
        if k == "s":
            if v != u or v is T.NullTokenValue:
                return bad("value %r" % u, v)
            return bad("no failed match", m) if m == T.MATCH_FAILURE else None
        lo, hi = min(c[1:3]), max(c[1:3])
        if lo <= len(u) <= hi:
            if v is T.NullTokenValue or v != u:
                return bad("value %r" % u, v)
            if m == T.MATCH_FAILURE:
                return bad("no failed match", m)
        elif v is not T.NullTokenValue:
            return bad("no value", v)
        if len(u) > hi and m != T.MATCH_FAILURE:
            return bad("failed match", m)
        return None
    if k == "d":
        t = T.RangedDecimalToken("t", c[1], c[2])
        v, m = C.run(t.get_value(s)), C.run(t.match(s))
        lo, hi = min(c[1:3]), max(c[1:3])
        try:
            x = float(s)
        except ValueError:
            x = None
        if x is not None and lo <= x <= hi:
            if v is T.NullTokenValue or v != x:
                return bad("value %r" % x, v)
            if m == T.MATCH_FAILURE:
                return bad("no failed match", m)
        elif v is not T.NullTokenValue:
            return bad("no value", v)
        if x is not None and (x > 0 and x > hi or x < 0 and x < lo) and m != T.MATCH_FAILURE:
            return bad("failed match", m)
        return None
    t = T.BooleanToken("t")
    v, m = C.run(t.get_value(s)), C.run(t.match(s))
    l = s.lower()
    if s and ("true".startswith(l) or "false".startswith(l)):
        want = "true".startswith(l)
        if v is not want:
            return bad("value %r" % want, v)
        if m == T.MATCH_FAILURE:
            return bad("no failed match", m)
    elif v is not T.NullTokenValue:
        return bad("no value", v)
    return None


def shrink(c):
    s = c[-1]
    for i in range(len(s)):
        yield c[:-1] + [s[:i] + s[i + 1:]]
