"""C15 on the real code: grammar and loop stacks and the executing flag around lines and loops that fail anywhere."""
import asyncio
import io

from . import common as C

RULE = ("a line executed, or a loop with a nested context, with an exception (ordinary, BaseException, cancellation) "
        "raised by the n-th call of a hook, handler, token method or readline; non-trivial: some fault or nesting")
POINTS = ["preloop", "postintro", "on_exit", "handle_eof", "handle_keyboard_interrupt", "process_cli_response",
          "handler", "match", "complete", "get_value", "readline", "get_cli_hook", "child_on_exit", "child_preloop",
          "child_handler", "commented_line", "cli_exec_init", "restore"]
LINES = ["go", "go", "nest", "run", "out", "tok a", "tok ab", "tok", "nosuch", "", "amb x", '"', "# go", "nested",
         "!eof", "!int", "go \\", "both"]
EXC = ["E", "B", "C"]


class Odd(BaseException):
    pass


def cases(r, tier, hints):
    for mode in ("exec", "loop", "task"):
        for l in (["go"], ["tok a"], ["nosuch"], ["nest", "go", "out"], ["run"], ["nest", "nosuch", "go"], ["!eof"],
                  ["!int", "go"], ["nest", "pgo", "go"], ["nest", "nest", "go", "out", "out"]):
            yield ("det", {"mode": mode, "lines": l, "outer": 0, "faults": {}})
            for p in POINTS:
                for e in EXC:
                    for n in (0, 1):
                        yield ("det", {"mode": mode, "lines": l, "outer": n, "faults": {p: [None] * n + [e]}})
    while True:
        f = {}
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            f[r.choice(POINTS)] = [r.choice([None, None, "E", "E", "B", "C"]) for _ in range(r.randint(1, 3))]
        yield {"mode": r.choice(["exec", "loop", "loop", "task"]), "outer": r.randint(0, 2), "faults": f,
               "lines": [r.choice(LINES + ["pgo", "pgo"]) for _ in range(r.randint(1, 6))]}


def nontrivial(c):
    return bool(c["faults"]) or "nest" in c["lines"]


def build(case):
    from nessaid_cli.cmd import NessaidCmd
    from nessaid_cli.tokens import CliToken, MATCH_SUCCESS
    from nessaid_readline.async_readline import NessaidReadlineEOF, NessaidReadlineKeyboadInterrupt
    plan = {k: list(v) for k, v in case["faults"].items()}
    bad = []
    clis = []

    def fault(p):
        q = plan.get(p)
        if not q:
            return
        e = q.pop(0)
        if e == "E":
            raise ValueError(p)
        if e == "B":
            raise Odd(p)
        if e == "C":
            raise asyncio.CancelledError()

    class T(CliToken):
        cacheable = False

        def match(self, s, cli):
            fault("match")
            return MATCH_SUCCESS

        def complete(self, s, cli):
            fault("complete")
            return 1, ["ab"]

        def get_value(self, s=None, cli=None):
            fault("get_value")
            return s

    def mk(name, child):
        pre = "child_" if child else ""

        def doc(f, t):
            f.__doc__ = t
            return f

        def active(self, where):
            if getattr(self, "_in_loop", False):
                g = self.current_grammar
                if g is None or g.name != self.generate_root_grammar_name():
                    bad.append("%s: active grammar of the running loop is %s" % (where, g and g.name))
        d = {"__doc__": "token TT T();"}

        def do_go(self):
            active(self, "action")
            fault(pre + "handler")

        async def do_nest(self):
            active(self, "action")
            fault(pre + "handler")
            await self.enter_context(mk("Child", True), prompt=self.prompt + "x> ", match_parent_grammar=True)

        async def do_run(self):
            await self.exec_line("go")
            active(self, "action after a nested line")
            fault(pre + "handler")

        def do_out(self):
            self.exit_loop()

        def do_tok(self, v):
            fault(pre + "handler")
        d.update(do_go=doc(do_go, '"go"'), do_nest=doc(do_nest, '"nest"'), do_run=doc(do_run, '"run"'),
                 do_out=doc(do_out, '"out"'), do_tok=doc(do_tok, '"tok" TT << $v = $2; >>'))
        if not child:
            def do_pgo(self):
                fault("handler")
            d["do_pgo"] = doc(do_pgo, '"pgo"')

            def do_amb1(self):
                pass

            def do_amb2(self):
                pass
            d["do_amb1"] = doc(do_amb1, '"amb" "x"')
            d["do_amb2"] = doc(do_amb2, '"amb" "x"')

        def hook(h, sup=False):
            async def f(self, *a):
                if h == "postintro":
                    self._in_loop = True
                if h == "on_exit":
                    self._in_loop = False
                fault((pre if h in ("preloop", "on_exit") else "") + h)
                if sup:
                    return await getattr(super(K, self), h)(*a)
            return f
        for h in ("preloop", "postintro", "on_exit", "handle_eof", "handle_keyboard_interrupt"):
            d[h] = hook(h)
        for h in ("commented_line", "cli_exec_init"):
            d[h] = hook(h, True)

        def process_cli_response(self, t, m):
            fault("process_cli_response")
            return NessaidCmd.process_cli_response(self, t, m)

        def get_cli_hook(self, n):
            if getattr(self, "_ready", False):
                fault("get_cli_hook")
            return NessaidCmd.get_cli_hook(self, n)

        def get_token_classes(self):
            return NessaidCmd.get_token_classes(self) + [T]
        d.update(process_cli_response=process_cli_response, get_cli_hook=get_cli_hook,
                 get_token_classes=get_token_classes)

        def __init__(self, *a, **k):
            NessaidCmd.__init__(self, *a, **k)
            self._ready = True
            clis.append((self, self.prompt))
        d["__init__"] = __init__
        K = type(name, (NessaidCmd,), d)
        return K
    cli = mk("Top", False)(loop=C.loop(), prompt="> ", stdout=io.StringIO(), stderr=io.StringIO(),
                           disable_default_hooks=True, use_base_grammar=False)
    lines = list(case["lines"])

    async def readline(prompt):
        cur = [c for c, p in clis if p == prompt]
        for c in cur:
            if getattr(c, "_in_loop", False):
                g = c.current_grammar
                if g is None or g.name != c.generate_root_grammar_name():
                    bad.append("prompt %r: active grammar %s" % (prompt, g and g.name))
                if c.executing:
                    bad.append("executing while waiting for a line")
        if not lines:
            for c, p in clis:
                c.exit_loop()
            return ""
        l = lines.pop(0)
        if l == "!eof":
            raise NessaidReadlineEOF()
        if l == "!int":
            raise NessaidReadlineKeyboadInterrupt()
        fault("readline")
        return l
    cli.readline.readline = readline
    cli.readline.play_bell = lambda *a: None
    return cli, clis, bad


def judge(case):
    C.memo_compile()
    cli, clis, bad = build(case)
    root = cli.generate_root_grammar_name()
    for _ in range(case["outer"]):
        cli.enter_grammar("do_go")
    stack = getattr(cli, "_cli_stack", [])
    mark = object()
    if case["outer"] > 1:
        stack.append(mark)
    before = list(stack)

    def state(when):
        g = cli.current_grammar
        if (g is not None) != bool(case["outer"]) or (g is not None and g.name != "do_go"):
            bad.append("%s: active grammar %s" % (when, g and g.name))
        if list(getattr(cli, "_cli_stack", [])) != before:
            bad.append("%s: running loops %s, before %s" % (when, len(cli._cli_stack), len(before)))
        for c, _ in clis:
            if c.executing:
                bad.append("%s: still executing" % when)
            if c is not cli and c.current_grammar is not None:
                bad.append("%s: a left context still has an active grammar" % when)
    with C.Streams():
        try:
            if case["mode"] == "exec":
                for l in case["lines"]:
                    try:
                        C.run(cli.exec_line(l))
                    except BaseException as e:
                        if isinstance(e, (KeyboardInterrupt, SystemExit)) or type(e).__name__ == "Hang":
                            raise
                    state("after the line %r" % l)
            elif case["mode"] == "loop":
                try:
                    C.run(cli.cmdloop())
                except BaseException as e:
                    if isinstance(e, (KeyboardInterrupt, SystemExit)) or type(e).__name__ == "Hang":
                        raise
                state("after the loop")
            else:
                # cancelled from outside while waiting for a line
                rl = cli.readline.readline

                async def waiting(prompt):
                    l = await rl(prompt)
                    await asyncio.sleep(0)
                    return l
                cli.readline.readline = waiting

                async def main():
                    t = asyncio.ensure_future(cli.cmdloop())
                    for _ in range(3 + len(case["lines"])):
                        await asyncio.sleep(0)
                    t.cancel()
                    try:
                        await t
                    except BaseException:
                        pass
                C.run(main())
                state("after the cancelled loop")
        except AttributeError as e:
            bad.append("no exception: %r" % e)
    if case["outer"]:
        for _ in range(case["outer"]):
            if cli.current_grammar is None:
                bad.append("an outer grammar was left")
                break
            cli.exit_grammar()
        if cli.current_grammar is not None:
            bad.append("a grammar stays entered: %s" % cli.current_grammar.name)
    if bad:
        return {"expected": "stacks and flag restored", "got": "; ".join(bad[:3])}
    return None


def shrink(c):
    for i in range(len(c["lines"])):
        if len(c["lines"]) > 1:
            yield dict(c, lines=c["lines"][:i] + c["lines"][i + 1:])
    for k in c["faults"]:
        yield dict(c, faults={a: b for a, b in c["faults"].items() if a != k})
