"""C16 on the real code: what a nested context does with a line, for every pair of child and parent outcomes."""
import io

from . import common as C

RULE = ("line matched in a child context whose parent reports a given result, or whose parent has a grammar of its "
        "own; non-trivial: the line does not succeed in the child")
CHILD = {"success": "go", "failure": "zz", "partial": "half", "ambiguous": "amb"}
RES = ["success", "failure", "partial", "ambiguous"]


def cases(r, tier, hints):
    # a line the child cannot run alone and the parent can: the parent is only asked for a completion, which never
    # reports success, so the line stays in the child (see known-findings.txt)
    yield ("det", ["real", "partial-in-child complete-in-parent"])
    yield ("det", ["real", "ambiguous-in-child complete-in-parent"])
    for ch in RES:
        for pa in RES:
            for flag in (True, False):
                for dry in (True, False):
                    for comp in (True, False):
                        yield ("det", ["stub", ch, pa, flag, dry, comp])
    for ls in (["nest", "pgo", "go"], ["nest", "go", "pgo", "go"], ["nest", "nest", "pgo"], ["nest", "zz", "pgo"],
               ["nest", "half", "amb", "pgo", "nest", "go"], ["nest", "nest", "go", "pgo", "nest", "pgo"]):
        yield ("det", ["loop", ls, True])
        yield ("det", ["loop", ls, False])
    while True:
        if r.random() < .3:
            yield ["loop", [r.choice(["nest", "go", "pgo", "zz", "half", "amb", "out"]) for _ in range(r.randint(2, 7))],
                   r.random() < .7]
            continue
        g1, g2 = C.gen(r, 2), C.gen(r, 2)
        ws = [w for w in C.words_for(r, r.choice([g1, g2]), 3) if w]
        if ws:
            yield ["two", C.to_list(g1), C.to_list(g2), ws]


def nontrivial(c):
    return not (c[0] == "stub" and c[1] == "success")


def doc(f, t):
    f.__doc__ = t
    return f


def classes(log):
    from nessaid_cli.cmd import NessaidCmd

    def do_go(self):
        log.append(self.prompt + "go")

    def do_half(self):
        log.append(self.prompt + "half")

    def do_amb1(self):
        log.append(self.prompt + "amb1")

    def do_amb2(self):
        log.append(self.prompt + "amb2")

    async def on_exit(self):
        log.append(self.prompt + "exit")

    def do_out(self):
        log.append(self.prompt + "out")
        self.exit_loop()

    def do_pgo(self):
        log.append(self.prompt + "pgo")
    common = dict(do_go=doc(do_go, '"go"'), do_half=doc(do_half, '"half" "more"'), do_amb1=doc(do_amb1, '"amb"'),
                  do_amb2=doc(do_amb2, '"amb"'), on_exit=on_exit, do_out=doc(do_out, '"out"'))
    Child = type("Child", (NessaidCmd,), dict(common))
    Top = type("Top", (NessaidCmd,), dict(common, do_pgo=doc(do_pgo, '"pgo"')))
    return Child, Top


def new(K, prompt, **kw):
    return K(loop=C.loop(), prompt=prompt, stdout=io.StringIO(), stderr=io.StringIO(), disable_default_hooks=True,
             use_base_grammar=False, **kw)


def judge(c):
    C.memo_compile()
    with C.Streams():
        return globals()["judge_" + c[0]](*c[1:])


def judge_stub(ch, pa, flag, dry, comp):
    from nessaid_cli.interface import ParsingResult
    from nessaid_cli.cli import ChildCliExitException
    log = []
    Child, Top = classes(log)
    asked = []
    pres = ParsingResult()
    import nessaid_cli.tokens as T
    name = {getattr(T, "MATCH_" + x.upper()): x for x in RES}
    pres.result = getattr(T, "MATCH_" + pa.upper())

    async def match(self, tok_list, dry_run=False, last_token_complete=False, arglist=None):
        asked.append((list(tok_list), dry_run))
        log.append("asked")
        return pres
    Top = type("Top", (Top,), {"match": match})
    top = new(Top, "T ")
    child = new(Child, "C ", parent=top, match_parent_grammar=flag)
    toks = [CHILD[ch]]
    base = C.new_cli(child._grammars)
    own = C.match(base, toks, child.generate_root_grammar_name(), dry, comp).result
    own = name[own]
    child.enter_grammar(child.generate_root_grammar_name())
    try:
        res = C.run(child.match(list(toks), dry_run=dry, last_token_complete=comp, arglist=[]))
        got = ["own" if res is not pres else "parent", name[res.result]]
    except ChildCliExitException as e:
        got = ["left", list(e.token_list)]
    if not flag or own == "success":
        over = False
    elif own == "failure":
        over = pa != "failure"
    else:
        over = pa == "success"
    want = ["own", own] if not over else ["parent", pa] if dry else ["left", toks]
    if got != want:
        return {"expected": "%s (child %s, parent %s)" % (want, own, pa), "got": repr(got)}
    if any(not d for _, d in asked):
        return {"expected": "nothing executed in the parent", "got": repr(asked)}
    exits = log.count("C exit")
    if (exits > 0) != (want[0] == "left"):
        return {"expected": "exit hook run exactly when the child is left", "got": repr(log)}
    runs = [x for x in log if x.startswith("C ") and x != "C exit"]
    if bool(runs) != (own == "success" and not dry):
        return {"expected": "actions in the child only on its own success", "got": repr(log)}
    return None


def judge_real(which):
    from nessaid_cli.cli import ChildCliExitException
    log = []
    Child, Top = classes(log)
    line = ["half"] if which.startswith("partial") else ["amb"]

    def do_half0(self):
        log.append("T half")

    def do_amb0(self):
        log.append("T amb")
    base = {k: v for k, v in Top.__dict__.items() if k not in ("do_half", "do_amb1", "do_amb2", "__dict__",
                                                               "__weakref__")}
    Top = type("Top", Top.__bases__, dict(base, do_half0=doc(do_half0, '"half"'), do_amb0=doc(do_amb0, '"amb"')))
    top = new(Top, "T ")
    child = new(Child, "C ", parent=top, match_parent_grammar=True)
    top.enter_grammar(top.generate_root_grammar_name())
    child.enter_grammar(child.generate_root_grammar_name())
    try:
        res = C.run(child.match(line, dry_run=False, last_token_complete=True, arglist=[]))
    except ChildCliExitException:
        return None
    return {"expected": "%s handed to the parent, where it succeeds" % line, "got": "the child's result " + res.result}


def judge_two(g1, g2, ws):
    from nessaid_cli.cmd import NessaidCmd
    from nessaid_cli.cli import ChildCliExitException

    def bodies(g):
        subs, _, root = C.text(C.tup(g)).partition("root:")
        return subs, root.strip().rstrip(";")

    def K(name, g):
        subs, root = bodies(g)

        def do_x(self):
            log.append(self.prompt)

        async def on_exit(self):
            log.append("exit")
        return type(name, (NessaidCmd,), {"__doc__": subs, "do_x": doc(do_x, root), "on_exit": on_exit})
    log = []
    top = new(K("Top", g2), "T ")
    child = new(K("Child", g1), "C ", parent=top, match_parent_grammar=True, use_parent_grammar=False)
    cb, tb = C.new_cli(child._grammars), C.new_cli(top._grammars)
    cr, tr = child.generate_root_grammar_name(), top.generate_root_grammar_name()
    cb.do_x = tb.do_x = lambda *a: None
    top.enter_grammar(tr)
    for w in ws:
        for dry in (True, False):
            own = C.match(cb, w, cr, dry).result
            pa = C.match(tb, w, tr, True).result
            over = own != "success" and (pa != "failure" if own == "failure" else pa == "success")
            del log[:]
            child.enter_grammar(cr)
            try:
                res = C.run(child.match(list(w), dry_run=dry, last_token_complete=True, arglist=[])).result
            except ChildCliExitException as e:
                res = "left" if list(e.token_list) == list(w) else "left with %s" % e.token_list
            child.exit_grammar()
            want = own if not over else pa if dry else "left"
            if res != want:
                return {"expected": "%s for %s (child %s, parent %s)" % (want, w, own, pa), "got": res}
            ok = [] if dry else ["C "] if own == "success" else ["exit"] if over else []
            if log[:1] != ok[:1] or "T " in log:
                return {"expected": "%s for %s" % (ok, w), "got": repr(log)}
    return None


def judge_loop(lines, flag):
    log = []
    Child, Top = classes(log)
    clis = []

    async def do_nest(self):
        log.append(self.prompt + "nest")
        await self.enter_context(NC, prompt=self.prompt + "x ", match_parent_grammar=flag)
    doc(do_nest, '"nest"')

    def __init__(self, *a, **k):
        super(type(self), self).__init__(*a, **k)
        clis.append(self)
    NC = type("NC", (Child,), {"__init__": __init__, "do_nest": do_nest})
    NT = type("NT", (Top,), {"__init__": __init__, "do_nest": do_nest})
    top = new(NT, "> ")
    left = list(lines)

    async def readline(prompt):
        log.append("read " + prompt)
        if not left:
            for k in clis:
                k.exit_loop()
            return ""
        return left.pop(0)
    top.readline.readline = readline
    top.readline.play_bell = lambda *a: None
    C.run(top.cmdloop())
    got = [x for x in log if not x.endswith("exit")]
    # the rule, level by level
    want, left2, depth = [], list(lines), 0
    while True:
        p = "> " + "x " * depth
        want.append("read " + p)
        if not left2:
            want += ["read " + "> " + "x " * d for d in range(depth - 1, -1, -1)][:0]
            break
        l = left2.pop(0)
        if l in ("go", "out", "nest"):
            want.append(p + l)
            if l == "nest":
                depth += 1
            elif l == "out":
                if depth == 0:
                    break
                depth -= 1
        elif l == "pgo" and (depth == 0 or flag):
            depth = 0
            want.append("> pgo")
    if got[:len(want)] != want or [x for x in got[len(want):] if not x.startswith("read")]:
        return {"expected": repr(want), "got": repr(log)}
    for i, x in enumerate(log):
        if x == "> pgo":
            deep = log[:i]
            reads = [y for y in deep if y.startswith("read ")]
            lvl = reads[-1][5:]
            j = len(deep) - 1 - deep[::-1].index(reads[-1])
            while len(lvl) > 2:
                if lvl + "exit" not in deep[j:]:
                    return {"expected": "exit hook of %r before the parent runs the line" % lvl, "got": repr(log)}
                lvl = lvl[:-2]
    return None


def shrink(c):
    if c[0] == "loop":
        for i in range(len(c[1])):
            yield ["loop", c[1][:i] + c[1][i + 1:], c[2]]
    if c[0] == "two" and len(c[3]) > 1:
        for w in c[3]:
            yield ["two", c[1], c[2], [w]]
