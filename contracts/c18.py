"""C18: arguments given as a list reach the matcher unchanged, one token each."""
import unicodedata
import z3

from pyvc.values import *
from pyvc import coll
from pyvc import words as W
from pyvc.unit import Unit, attempt
from pyvc.engine import StarArgs
from pyvc.coll import DV
from . import lexing, c15, c08
from .c15 import q
from .c16 import coro, RESULTS
from .tok import invoke, invoke_sync
from nessaid_cli import cmd as CM
from nessaid_cli import cli as CL
from nessaid_cli import interface as IF
from nessaid_cli import tokens as TK
from nessaid_cli.tokenizer import tokenizer as TZ

LEVEL = "proof"
TRUSTED = ["PLY applies the rules of the lexer in order at each position (C08)", "Python's re and str methods "
           "(the automata of pyvc.words)"]
ASSUMPTIONS = ["characters that no constant of the code mentions are treated alike by it",
               "the hook run before the line (cli_exec_init) and the name of the root grammar do not touch the line"]

_setup = []


def setup():
    if not _setup:
        lx = lexing.Lexer(extra=W.constants_of(CM.NessaidCmd.exec_args) | set('"\\ ')).build()
        s = lx.sigma
        blank = W.lang_without(s, {c for c in s if not c.isspace()})
        bad = {c for c in s if c in '"\\' or unicodedata.category(c) == "Cc"}
        dom = W.lang_without(s, bad) - blank
        ig = lx.ignore
        # u MARK v where v is empty or begins with a character that is skipped
        after = W.DFA(s, 0, lambda x, c: (1 if c == W.MARK else 0) if x == 0 else -1 if x == -1 or c == W.MARK else
                      2 if x == 2 or c in ig else -1, lambda x: x in (1, 2))
        _setup.append((lx, dom, after))
    return _setup[0]


def element(E, w, got):
    """the obligations on what one argument becomes in the line"""
    lx, dom, after = setup()
    E.prove("every argument gives exactly one piece of the line", len(got) == 1)
    if len(got) != 1:
        return
    m = got[0]
    if isinstance(m, str) or not isinstance(m, (W.Word,)):
        E.prove("the piece is made from the argument", False)
        return
    for i, rule in enumerate(lx.rules):
        if not m.decide(E, W.cached(("single", id(lx), i), lambda: lx.single(i)), rule.name):
            continue
        # whatever follows after a separator, the lexer takes exactly this piece
        img = image(m)
        first = W.cached(("first", id(lx), i), lambda: lx.first(i))
        d = W.DFA(lx.sigma, ("u", img.start()), lambda x, c: img.step(x, c), img.accepts) & (after - first)
        x = d.witness()
        W.settle(E, "the piece is one token of the line whatever follows", x, {"piece": x})
        text = E.new(W.Word(m.base, m.fst))
        tok = E.new(Obj(type("LexToken", (), {}), {"value": text, "lexpos": 0, "lineno": 1, "type": rule.kind}))
        k, r = attempt(E, lambda: E.call(lexing.rule_function(lx, rule), [E.new(Obj(TZ.NessaidCliTokenizerLexer, {})), tok], {}))
        E.prove("the rule accepts the piece", k == "ok" and r is tok)
        if k != "ok":
            return
        v = tok.fields["value"]
        W.prove_equal(E, "the token is the piece", v, text)
        quoted = v.tags.get("quoted", False) if isinstance(v, W.Word) else None
        E.prove("the token is not incomplete", isinstance(v, W.Word) and v.tags.get("quote_incomplete", False) is False)
        if quoted is True:
            E.cover("quoted")
            W.prove_in(E, "a quoted token stands between its quotes", text,
                       W.lang_prefix(lx.sigma, '"') & W.lang_suffix(lx.sigma, '"'))
            inner = text.getitem(E, slice(1, None, None)).getitem(E, slice(None, -1, None))
            W.prove_equal(E, "what stands between the quotes is the argument", inner, w)
        else:
            E.cover("plain")
            W.prove_equal(E, "a plain token is the argument", text, w)
        return
    if not m.base.dom.empty():
        x = m.base.dom.witness()
        W.settle(E, "an argument becomes a single token", x, {"argument": x})


class image:
    """nondeterministic: u in {fst(w): w in dom} MARK rest -- as sets of states of the transducer reading outputs"""
    def __init__(self, m):
        self.f, self.dom = m.fst, m.base.dom
        sigma = [c for c in m.base.sigma if c != W.MARK]
        # states: (transducer state, dom state, output still to be read)
        self.sigma = sigma
        self.memo = {}

    def close(self, items):
        """items (p, d, pending): expand those without pending output by reading input; returns those with pending output,
        and whether some input may end here"""
        seen, todo, out, end = set(), list(items), set(), False
        while todo:
            it = todo.pop()
            if it in seen:
                continue
            seen.add(it)
            p, d, pend = it
            if p == "end":
                if pend == "":
                    end = True
                else:
                    out.add(it)
                continue
            if pend:
                out.add(it)
                continue
            if self.dom.acc[d] and self.f.fin[p] is not None:
                todo.append(("end", 0, self.f.fin[p]))
            for c in self.sigma:
                p2, o = self.f.d[p][c]
                todo.append((p2, self.dom.d[d][c], o))
        return frozenset(out), end

    def start(self):
        return self.close([(0, 0, self.f.initout)])

    def step(self, x, c):
        if x == "dead":
            return x
        ph, st = x
        if ph == "v":
            return "dead" if c == W.MARK else x
        out, end = st
        if c == W.MARK:
            return ("v", None) if end else "dead"
        k = (st, c)
        if k not in self.memo:
            self.memo[k] = self.close([(p, d, o[1:]) for p, d, o in out if o[0] == c])
        return ("u", self.memo[k])

    def accepts(self, x):
        return x != "dead" and x[0] == "v"


def argument(E):
    lx, dom, _ = setup()
    return E.new(W.Word(W.Base(lx.sigma, "argument", dom)))


def run_line(E, args, kwargs):
    E.ghost["lines"].append(args[1:] + list(kwargs.values()))
    return coro("exec_line", lambda: E.ghost["status"])


class Loop(Model):
    def getattr(self, E, name):
        if name == "run_until_complete":
            def run(E2, a, k):
                return E2.await_(a[0])
            return Builtin("run_until_complete", run)
        return Unk(name)

    def truth(self, E):
        return True

    def havoc(self, E):
        pass


def spec_args(cls):
    def run(E):
        lx = setup()[0]
        me = E.new(Obj(cls, {"_loop": E.new(Loop())}))
        args = E.new(W.Words(argument))
        E.ghost.update(elements=element, lines=[], status=fresh_int("status"))
        k, r = attempt(E, lambda: E.call(BM(CM.NessaidCmd.exec_args, me), [StarArgs(args)], {}))
        E.prove("exec_args raises nothing", k == "ok")
        E.prove("one line is executed", len(E.ghost["lines"]) == 1)
        if len(E.ghost["lines"]) != 1:
            return
        line = E.ghost["lines"][0]
        E.cover("executed")
        E.prove("the line is the pieces joined", len(line) == 1 and isinstance(line[0], W.Line))
        if isinstance(line[0], W.Line):
            E.prove("the pieces are separated by characters the lexer skips",
                    isinstance(line[0].sep, str) and line[0].sep != "" and set(line[0].sep) <= set(lx.ignore))
        E.prove("the status of the line is the result", r is E.ghost["status"])
    return run


# ------------------------------------------------------------------ from the line to the matcher
def inner(E, args, kwargs):
    E.ghost["lines"].append(list(args[1:]) + list(kwargs.values()))
    return coro("exec_line", lambda: 0)


def spec_line_cmd(E):
    me = c15.setting(E, CM.NessaidCmd)
    line = Unk("line")
    E.ghost.update(lines=[])
    invoke(E, me, "exec_line", line)
    for l in E.ghost["lines"]:
        E.cover("passed on")
        E.prove("the line is passed on as it is", len(l) == 1 and l[0] is line)
    E.prove("the line is executed at most once", len(E.ghost["lines"]) <= 1)


STR = z3.Function("text of token", V, V)


def token(e):
    return SVal(e, attrs={"str": lambda E, v: SVal(STR(v.e))})


DTOK = coll.Dom("token", V, token, lambda v: v.e if isinstance(v, SVal) and v.e.sort() == V else None)


def tokenize(E, args, kwargs):
    E.prove("the line is tokenized as it is", args[1] is E.ghost["line"])
    if E.choose(2, "tokenize"):
        E.ghost["ok"] = False
        return (False, "Invalid input", E.new(PyList([])))
    E.ghost["ok"] = True
    E.ghost["tokens"] = E.new(coll.SeqV(E, DTOK, name="tokens"))
    return (True, None, E.ghost["tokens"])


def match(E, args, kwargs):
    def body():
        E.ghost["matched"] = E.ghost["matched"] + 1
        a = kwargs.get("tok_list", args[1] if len(args) > 1 else None)
        got = coll.view_seq(E, a, DV) if isinstance(a, (PyList, coll.SeqV)) else None
        if E.ghost["ok"]:
            E.cover("matched")
            t = E.ghost["tokens"]
            E.prove("the matcher is given a list", got is not None)
            if got is not None:
                j = z3.Int(fresh_name("j"))
                E.assume(z3.And(j >= 0, j < t.n))
                E.prove("as many texts as tokens", got[1] == t.n)
                E.prove("the texts of the tokens, in order",
                        z3.Select(got[0], j) == STR(z3.Select(t.arr, j)))
        c = E.choose(4, "match")
        return E.new(Obj(IF.ParsingResult, {"result": RESULTS[c], "error": Unk("error"), "matched_values": Unk("values")}))
    return coro("match", body)


def spec_line(E):
    E.ghost.clear()
    me = E.new(Obj(CL.NessaidCli, {}))
    line = fresh_val("line")
    E.ghost.update(line=line, ok=None, matched=0, tokens=None)
    k, r = invoke(E, me, "exec_line", line)
    if E.ghost["ok"]:
        E.prove("the tokens are matched once", E.ghost["matched"] == 1)


def spec_class(E):
    E.ghost.update(lines=[], status=fresh_int("status"), made=None)
    args = E.new(coll.SeqV(E, DV, kind=tuple, name="args"))
    k, r = attempt(E, lambda: E.call(BM(CM.NessaidCmd.__dict__["execute_args"].__func__, CM.NessaidCmd), [StarArgs(args)], {}))
    for a in E.ghost["lines"]:
        E.cover("executed")
        E.prove("the arguments are passed on as they are", len(a) == 1 and isinstance(a[0], StarArgs) and a[0].value is args)
    E.prove("they are executed once", len(E.ghost["lines"]) == 1 and k == "ok" and r is E.ghost["status"])


def exec_args(E, args, kwargs):
    E.ghost["lines"].append(list(args[1:]))
    return E.ghost["status"]


def units(tier):
    quiet = {q(CL.NessaidCli, "error"): lambda E, a, k: None, "traceback:print_tb": lambda E, a, k: None,
             q(CL.NessaidCli, "process_cli_response"): lambda E, a, k: None}
    cmd = c15.contracts()
    cmd[q(CL.NessaidCli, "exec_line")] = inner
    cmd[q(CM.NessaidCmd, "generate_root_grammar_name")] = lambda E, a, k: Unk("name")
    cmd[q(CM.NessaidCmd, "error")] = lambda E, a, k: None
    cmd[q(CL.NessaidCli, "cli_exec_init")] = c15.unknown_coroutine("cli_exec_init")
    return [
        Unit("exec_args", spec_args(CM.NessaidCmd), ["quoted", "plain", "executed"], 9,
             contracts={q(CM.NessaidCmd, "exec_line"): run_line}),
        Unit("NessaidCmd.exec_line", spec_line_cmd, ["passed on"], 2, contracts=cmd, typestate=True, may_raise=Exception,
             max_paths=60000, merge=True),
        Unit("NessaidCli.exec_line", spec_line, ["matched"], 4,
             contracts={**quiet, q(CL.NessaidCli, "tokenize"): tokenize, q(CL.NessaidCli, "match"): match}),
        Unit("execute_args", spec_class, ["executed"], 2,
             contracts={q(CM.NessaidCmd, "exec_args"): exec_args,
                        "nessaid_cli.cmd:NessaidCmd": lambda E, a, k: E.new(Obj(CM.NessaidCmd, {}))}),
    ]
