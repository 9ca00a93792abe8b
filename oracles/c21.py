"""C21 on the real code: status of executed lines, and raising token classes against ones that answer no."""
import io

from . import common as C

RULE = ("a line executed while token methods, handlers or hooks raise, compared with a token class that answers "
        "'no' there; non-trivial: something raises")
LINES = ["go", "", " ", '"', "tok a", "tok ab", "tok", "tok a b", "nosuch", "two a b", "two a", "amb", "g", "fail",
         "x" * 50, "tok \\", "#", "go go", "\n", "two ab a", "tok \u00e9", "opt", "opt a", "opt a end", "opt end",
         "tok \t", "mix a", "mix z", "mix go", "\x00", "afail", "ret", "tok \"a b\""]
POINTS = ["match", "complete", "get_value", "helpstring", "process_cli_response", "cli_exec_init", "hook",
          "get_token_classes", "completable", "cacheable", "root_name", "create_cli_token"]


def cases(r, tier, hints):
    for base in ("cmd", "cli"):
        for l in LINES:
            yield ("det", {"base": base, "line": l, "faults": {}, "when": "always"})
            for p in POINTS:
                for w in ("always", "first", "second", "a"):
                    yield ("det", {"base": base, "line": l, "faults": {p: 1}, "when": w})
    while True:
        yield {"base": r.choice(["cmd", "cmd", "cli"]), "line": r.choice(LINES) if r.random() < .7 else
               " ".join(r.choice(["go", "tok", "a", "ab", "two", "opt", "mix", "t", "o"]) for _ in range(r.randint(1, 4))),
               "faults": {r.choice(POINTS): 1 for _ in range(r.randint(1, 3))},
               "when": r.choice(["always", "first", "second", "a", "third", "later"])}


def nontrivial(c):
    return bool(c["faults"])


class Boom(Exception):
    pass


def build(c, quiet):
    """quiet: the token methods give their neutral answers where they would raise"""
    from nessaid_cli.cmd import NessaidCmd
    from nessaid_cli.tokens import CliToken, MATCH_SUCCESS, MATCH_PARTIAL, MATCH_FAILURE, NullTokenValue
    n = {}
    seen = []

    def hits(p, s=None):
        if p not in c["faults"]:
            return False
        n[p] = n.get(p, 0) + 1
        w = c["when"]
        return (w == "always" or w == "first" and n[p] == 1 or w == "second" and n[p] == 2 or w == "third" and n[p] == 3
                or w == "later" and n[p] > 2 or w == "a" and (s is None or s == "a"))

    def fault(p):
        if hits(p):
            raise Boom(p)

    class T(CliToken):
        cands = ["ab", "ac", "b"]

        @property
        def cacheable(self):
            fault("cacheable")
            return False

        @property
        def completable(self):
            fault("completable")
            return True

        async def get_helpstring(self, s=None, cli=None):
            fault("helpstring")
            return "help"

        def own(self, s):
            return [x for x in self.cands if x.startswith(s)]

        def match(self, s, cli):
            if hits("match", s):
                if quiet:
                    return MATCH_FAILURE
                raise Boom("match")
            m = self.own(s)
            return MATCH_SUCCESS if s in m else MATCH_PARTIAL if m else MATCH_FAILURE

        def complete(self, s, cli):
            if hits("complete", s):
                if quiet:
                    return 0, []
                raise Boom("complete")
            m = self.own(s)
            return len(m), m

        def get_value(self, s=None, cli=None):
            if hits("get_value", s):
                if quiet:
                    return NullTokenValue
                raise Boom("get_value")
            m = self.own(s)
            return s if s in m else m[0] if len(m) == 1 else NullTokenValue
    calls = []

    def doc(f, t):
        f.__doc__ = t
        return f
    d = {"__doc__": "token TT T();"}

    def do_go(self):
        calls.append("go")

    def do_tok(self, v):
        calls.append("tok %r" % (v,))

    async def do_two(self, v, w):
        calls.append("two %r %r" % (v, w))

    def do_opt(self, v):
        calls.append("opt %r" % (v,))

    def do_mix(self, v):
        calls.append("mix %r" % (v,))

    def do_amb1(self):
        calls.append("amb1")

    def do_amb2(self):
        calls.append("amb2")

    def do_fail(self):
        calls.append("fail")
        raise Boom("handler")

    async def do_afail(self):
        calls.append("afail")
        raise Boom("handler")

    def do_ret(self):
        calls.append("ret")
        return 5
    for f, t in ((do_go, '"go"'), (do_tok, '"tok" TT << $v = $2; >>'),
                 (do_two, '"two" TT << $v = $2; >> TT << $w = $3; >>'),
                 (do_opt, '"opt" { TT << $v = $1; >> } { "end" }'), (do_mix, '"mix" (TT | "go") << $v = $1; >>'),
                 (do_amb1, '"amb"'), (do_amb2, '"amb"'), (do_fail, '"fail"'), (do_afail, '"afail"'),
                 (do_ret, '"ret"')):
        d[f.__name__] = doc(f, t)

    def get_token_classes(self):
        if getattr(self, "_ready", False):
            fault("get_token_classes")
        return NessaidCmd.get_token_classes(self) + [T]

    def get_cli_hook(self, name):
        if getattr(self, "_ready", False):
            fault("hook")
        return NessaidCmd.get_cli_hook(self, name)

    def process_cli_response(self, t, m):
        fault("process_cli_response")
        return NessaidCmd.process_cli_response(self, t, m)

    async def cli_exec_init(self):
        fault("cli_exec_init")

    def generate_root_grammar_name(self):
        if getattr(self, "_ready", False):
            fault("root_name")
        return NessaidCmd.generate_root_grammar_name(self)

    def create_cli_token(self, *a, **k):
        fault("create_cli_token")
        return NessaidCmd.create_cli_token(self, *a, **k)

    async def match(self, *a, **k):
        r = await NessaidCmd.match(self, *a, **k)
        seen.append(r)
        return r
    d.update(get_token_classes=get_token_classes, get_cli_hook=get_cli_hook, match=match, cli_exec_init=cli_exec_init,
             process_cli_response=process_cli_response, generate_root_grammar_name=generate_root_grammar_name,
             create_cli_token=create_cli_token)
    k = type("K", (NessaidCmd,), d)(loop=C.loop(), prompt="", stdout=io.StringIO(), stderr=io.StringIO(),
                                    disable_default_hooks=True, use_base_grammar=False)
    k._ready = True
    k.readline.play_bell = lambda *a: None
    return k, seen, calls


def run(c, quiet):
    from nessaid_cli.cli import NessaidCli
    k, seen, calls = build(c, quiet)
    with C.Streams():
        if c["base"] == "cmd":
            code = C.run(k.exec_line(c["line"]))
        else:
            k._ready = False
            k.enter_grammar(k.generate_root_grammar_name())
            k._ready = True
            code = C.run(NessaidCli.exec_line(k, c["line"]))
    return code, seen, calls, k


def judge(c):
    C.memo_compile()
    code, seen, calls, k = run(c, False)
    ok = bool(seen) and seen[-1].result == "success"
    if type(code) is not int or (code == 0 and not ok) or (code != 0 and ok and "process_cli_response" not in c["faults"]):
        return {"expected": "zero exactly on success", "got": "status %r, result %s" % (code, seen and seen[-1].result)}
    neutral = [p for p in c["faults"] if p in ("match", "complete", "get_value")]
    # the order in which tokens are asked is not fixed: a fault counted by calls would fall on different ones
    if neutral and c["when"] in ("always", "a"):
        code2, seen2, calls2, _ = run(c, True)
        f = lambda r: [(x.result, sorted(map(str, x.next_tokens)), x.matched_values) for x in r]
        if (code, f(seen), calls) != (code2, f(seen2), calls2):
            return {"expected": "as a token answering no: %s" % ((code2, f(seen2), calls2),),
                    "got": "%s" % ((code, f(seen), calls),)}
    return None
