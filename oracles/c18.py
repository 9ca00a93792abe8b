"""C18 on the real code: tokens reaching the matcher for an argument list."""
from . import common as C

RULE = "argument list without quotes, backslashes and control characters; non-trivial: some argument has a blank"
ALPHA = "ab 1-#;$\u00e9'{}|,:\u00a0\u2003=(*)<>/"
WORDS = ["a", "a b", " a", "a ", "  x  y ", "do", "--f=1", "#x", "\u00e9t\u00e9 b", "'q r'", "a;b", "x,y z", "\u00a0", "a\u00a0b",
         "\u3000 a", "1", "$v", "{}", "a  b"]


def cases(r, tier, hints):
    for h in hints or []:
        for v in h.values():
            if isinstance(v, str) and v.strip() and not set(v) & set('"\\') and v.isprintable():
                yield [v]
                yield [v, "a"]
    for a in WORDS:
        yield ("det", [a])
        for b in WORDS:
            yield ("det", [a, b])
    while True:
        out = []
        for _ in range(r.randint(1, 5)):
            w = r.choice(WORDS) if r.random() < .4 else "".join(r.choice(ALPHA) for _ in range(r.randint(1, 7)))
            if w.strip():
                out.append(w)
        if out:
            yield out


def nontrivial(c):
    return any(" " in a for a in c)


_c = {}


def cli():
    if not _c:
        from nessaid_cli.cmd import NessaidCmd
        import io
        got = []

        class K(NessaidCmd):
            def do_x(self):
                """
                "x"
                """

            async def match(self, tok_list, *a, **k):
                got.append([str(t) for t in tok_list])
                return await super().match(tok_list, *a, **k)
        _c["k"] = K(loop=C.loop(), prompt="", stdout=io.StringIO(), stderr=io.StringIO(), disable_default_hooks=True,
                    use_base_grammar=False)
        _c["got"] = got
    return _c["k"], _c["got"]


def judge(args):
    from nessaid_cli.utils import convert_to_python_string
    if any(not a.strip() for a in args):
        return None
    k, got = cli()
    del got[:]
    with C.Streams():
        k.exec_args(*args)
    # a quoted token's text is what the notation between its quotes denotes
    want = [list(args)]
    plain = [[t[1:-1] if len(t) > 1 and t[0] == t[-1] == '"' else t for t in g] for g in got]
    if plain != want:
        return {"expected": repr(want), "got": repr(got)}
    return None


def shrink(c):
    for i in range(len(c)):
        if len(c) > 1:
            yield c[:i] + c[i + 1:]
        for j in range(len(c[i])):
            if len(c[i]) > 1:
                yield c[:i] + [c[i][:j] + c[i][j + 1:]] + c[i + 1:]
