"""C14 on the real code: script files run by a command loop, against a stack of remaining lines."""
import os
import shutil
import tempfile

from . import c08
from . import common as C

RULE = "set of script files loading one another, with comments and continuations; non-trivial: more than one line"
LINES = ["say a", "say b", "  say c", "say d  ", "# no", "   # no", "#", "", "say e \\", "say f\\", "# g \\", "\\",
         "say h # i", "say \\ ", " \\", '"# j" k', "say\tl", "x#y"]


def cases(r, tier, hints):
    base = [["say 1", "load 1", "say 2"], ["say 3"], []]
    yield ("det", base)
    yield ("det", [["load 1", "say 2"], [], []])
    yield ("det", [["load 1", "load 2", "say 2"], ["say 3", "load 2", "say 4"], ["say 5", "say 6"]])
    yield ("det", [["say 1 \\", "load 1", "say 2"], ["say 3"]])
    yield ("det", [["load 1 \\"], ["say 3"]])
    yield ("det", [["load 1", "say 9"], ["say 3 \\"]])
    yield ("det", [["load 3", "say 9"], ["say 3"]])
    yield ("det", [[]])
    for a in LINES:
        for b in LINES:
            yield ("det", [["say 0", a, b, "say 9"]])
    while True:
        n = r.randint(1, 4)
        out = []
        for k in range(n):
            m = r.choice([0, 1, 2, 3, 5, 8])
            out.append([("load %d" % r.randint(k + 1, n)) if r.random() < .25 else
                        r.choice(LINES) if r.random() < .6 else "say %d" % r.randint(0, 99) for _ in range(m)])
        yield out


def nontrivial(c):
    return sum(map(len, c)) > 1


def spec(files):
    """the token lists handed to the matcher"""
    stack, out, eff = [[l.rstrip() for l in files[0]]], [], ""
    while True:
        while stack and not stack[-1]:
            stack.pop()
        if stack:
            eff += stack[-1].pop(0)
        else:
            if not eff:
                return out       # the next line typed ends the loop
            eff += ""
        if eff.rstrip().endswith("\\"):
            eff = eff.rstrip()[:-1]
            continue
        line, eff = eff, ""
        if line.lstrip().startswith("#"):
            continue
        t = c08.spec(line)
        toks = [line[a:b] for a, b, _, _ in t] if t is not None else []
        if toks:
            out.append(toks)
        if len(toks) == 2 and toks[0] == "load" and int(toks[1]) < len(files):
            stack.append([l.rstrip() for l in files[int(toks[1])]])


def judge(files):
    from nessaid_cli.cli import NessaidCli
    want = spec(files)
    d = tempfile.mkdtemp(prefix="c14_")
    try:
        for i, ls in enumerate(files):
            with open(os.path.join(d, str(i)), "w") as f:
                f.write("".join(l + "\n" for l in ls))
        got = []

        class K(NessaidCli):
            async def match(self, tok_list, *a, **k):
                if tok_list:
                    got.append(list(tok_list))
                    if len(got) > 300:
                        self.exit_loop()
                if len(tok_list) == 2 and tok_list[0] == "load":
                    self.add_file_to_execute(os.path.join(d, tok_list[1]))
                return await super().match(tok_list, *a, **k)

        if "gs" not in _c:
            _c["gs"] = C.compile_text('root: "say" | "load" ;')
        cli = C.new_cli(_c["gs"], K, filename=os.path.join(d, "0"), prompt="> ")

        async def readline(prompt):
            if prompt:
                cli.exit_loop()
            return ""
        cli.readline.readline = readline
        cli.readline.play_bell = lambda *a: None
        with C.Streams():
            C.run(cli.cmdloop("root"))
        if got != want:
            return {"expected": repr(want), "got": repr(got)}
        if cli.file_data and any(cli.file_data):
            return {"expected": "no line left", "got": repr(cli.file_data)}
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


_c = {}


def shrink(c):
    for i, ls in enumerate(c):
        for k in range(len(ls)):
            yield c[:i] + [ls[:k] + ls[k + 1:]] + c[i + 1:]
