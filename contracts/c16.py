"""C16: a nested context hands a line to its parent exactly when the rule says so.

NessaidCmd.match is specified relative to what the parent reports when asked; the loop of the parent is specified by the
events of its child and of its own matching."""
import types

from nessaid_cli import cmd as CM
from nessaid_cli import cli as CL
from nessaid_cli import interface as IF
from nessaid_cli import elements as EL
from nessaid_cli import tokens as TK

from .tok import *
from . import c15
from .c15 import q, unknown_call, unknown_coroutine, contracts

LEVEL = "proof"
TRUSTED = ["user code leaves the child context and the results of matching as they are"]
ASSUMPTIONS = c15.ASSUMPTIONS + ["results are one of success, failure, partial, ambiguous"]

RESULTS = [TK.MATCH_SUCCESS, TK.MATCH_FAILURE, TK.MATCH_PARTIAL, TK.MATCH_AMBIGUOUS]
MATCH_ARGS = ("tok_list", "dry_run", "last_token_complete", "arglist")
UNSET = object()


def coro(name, body):
    from pyvc.engine import Coro
    return Coro(body, name)


def match_args(args, kwargs, defaults=(None, False, False, None)):
    """the arguments of a call of match by name (args without self)"""
    out = dict(zip(MATCH_ARGS, defaults))
    out.update(zip(MATCH_ARGS, args))
    for k, v in kwargs.items():
        if k not in out:
            raise Unsupported("match argument " + k)
        out[k] = v
    return out


def truthy(v):
    return v is True or (isinstance(v, Unk) and getattr(v, "label", "") == "true")


def same_list(E, v, toks):
    """v is the list of tokens, or a new list with the same tokens"""
    return v is toks or (isinstance(v, Heap) and getattr(v, "copy_of", None) is toks)


class Tokens(Model):
    """the token list of the line; copies of it are as good, changes are not"""
    def __init__(self, of=None):
        super().__init__()
        self.copy_of = of

    def call(self, E, name, a, k):
        if name == "copy":
            return E.new(Tokens(self.copy_of or self))
        if name in ("index", "count"):
            E.maybe_raise(name)
            return Unk(name)
        self.copy_of = None
        E.ghost["changed"] = True
        return Unk(name)

    def getattr(self, E, name):
        if not hasattr(list, name):
            E.raise_(AttributeError, name)
        return Builtin(name, lambda E, a, k: self.call(E, name, a, k))

    def getitem(self, E, i):
        if isinstance(i, slice) and i == slice(None, None, None):
            return E.new(Tokens(self.copy_of or self))
        E.maybe_raise("index")
        return Unk("token")

    def setitem(self, E, i, v):
        self.call(E, "setitem", [], {})

    delitem = setitem

    def truth(self, E):
        return z3.Bool("line not empty")

    def len_(self, E):
        return Unk("len")

    length = len_

    def contains(self, E, x):
        return Unk("in line")

    def isinstance_(self, E, cls):
        return issubclass(list, cls)

    def type_(self, E):
        return list

    def loop_spec(self, E, s, env):
        return None

    def havoc(self, E):
        pass

    def unknown_elem(self, E):
        return Unk("token")


# ------------------------------------------------------------------ NessaidCmd.match
def spec_match(E):
    E.ghost.clear()
    E.ghost["changed"] = False
    ev = []
    flag = bool(E.choose(2, "parent matching"))
    child = RESULTS[E.choose(4, "child")]
    toks = E.new(Tokens(), site="line")
    ltc, arglist = Unk("last_token_complete"), Unk("arglist")
    dry = bool(E.choose(2, "dry run"))
    resp = E.new(Obj(IF.ParsingResult, {"result": child}, "child's result"))
    presp = []

    def child_match(E, args, kwargs):
        a = match_args(args[1:], kwargs)

        def body():
            ev.append("child")
            E.prove("the child matches the line it was given",
                    same_list(E, a["tok_list"], toks) and E.truth(a["dry_run"]) == dry
                    and a["last_token_complete"] is ltc and a["arglist"] is arglist)
            if E.choose(2, "raise@child"):
                ev.append("child raised")
                raise PyExc(E.new(UnkExc(BaseException, "child")))
            return resp
        return coro("_match", body)

    def parent_match(E, args, kwargs):
        a = match_args(args, kwargs)

        def body():
            ev.append("parent")
            E.cover("parent asked")
            d = a["dry_run"]
            E.prove("nothing runs in the parent while it is asked", d is True or (not isinstance(d, Unk) and E.truth(d)))
            E.prove("the parent is asked about the same line", same_list(E, a["tok_list"], toks)
                    and a["last_token_complete"] is ltc)
            if E.choose(2, "raise@parent"):
                ev.append("parent raised")
                raise PyExc(E.new(UnkExc(BaseException, "parent")))
            p = E.new(Obj(IF.ParsingResult, {"result": RESULTS[E.choose(4, "parent")]}, "parent's result"))
            presp.append(p)
            return p
        return coro("match", body)

    def on_exit(E, args, kwargs):
        def body():
            ev.append("exit hook")
            if E.choose(2, "raise@on_exit"):
                ev.append("exit hook raised")
                raise PyExc(E.new(UnkExc(BaseException, "on_exit")))
            return None
        return coro("on_exit", body)
    E.contracts[q(CM.NessaidCmd, "_match")] = child_match
    E.contracts[q(CM.NessaidCmd, "on_exit")] = on_exit
    parent = E.new(Obj(CM.NessaidCmd, {}, "parent", {"match": lambda E, o: Builtin("match", parent_match)}), site="parent")
    me = E.new(Obj(CM.NessaidCmd, {"_match_parent_grammar": flag, "_parent": parent}, "child"), site="child")
    me.hooks["*"] = lambda E, o, name: Unk(name)
    k, r = invoke(E, me, "match", toks, dry, ltc, arglist)
    E.prove("the line itself is not changed", E.ghost["changed"] is False)
    asked = ev.count("parent")
    E.prove("the child matches once, before the parent is asked", ev.count("child") == 1 and ev[0] == "child")
    if "child raised" in ev:
        E.prove("an exception of the child is not turned into a hand-over", k == "exc" and ev == ["child", "child raised"])
        return
    E.prove("the parent is asked only with parent matching on, about a line the child cannot run, and once",
            asked <= 1 and (not asked or (flag and child != TK.MATCH_SUCCESS)))
    if "parent raised" in ev:
        E.prove("an exception of the parent is not turned into a hand-over", k == "exc" and "exit hook" not in ev)
        return
    over = False
    if flag and child != TK.MATCH_SUCCESS:
        if not presp:
            E.prove("the parent is asked", False)
            return
        pres = presp[0].fields["result"]
        over = pres != TK.MATCH_FAILURE if child == TK.MATCH_FAILURE else pres == TK.MATCH_SUCCESS
    if not over:
        E.cover("kept")
        E.prove("the child's own result is final", k == "ok" and r is resp)
        E.prove("the child is not left", "exit hook" not in ev)
        E.prove("the result is as the child reported it", resp.fields["result"] == child)
    elif dry:
        E.cover("parent's completion")
        E.prove("completion returns the parent's result", k == "ok" and r is presp[0])
        E.prove("the child is not left for completion", "exit hook" not in ev)
    else:
        E.cover("handed over")
        E.prove("the exit hook runs once, after the parent was asked", ev.count("exit hook") == 1
                and ev.index("exit hook") > ev.index("parent"))
        if "exit hook raised" in ev:
            E.prove("an exception of the exit hook is not swallowed", k == "exc")
            return
        ok = k == "exc" and isinstance(r, Obj) and r.cls is CL.ChildCliExitException
        E.prove("the child is left with the line", ok)
        if ok:
            f = {n: attempt(E, lambda n=n: E.getattr(r, n)) for n in ("token_list", "dry_run", "arglist")}
            E.prove("what it is left with can be read", all(x[0] == "ok" for x in f.values()))
            E.prove("the line handed over is the line", same_list(E, f["token_list"][1], toks)
                    and f["arglist"][1] is arglist)
            E.prove("the line is handed over for execution", not isinstance(f["dry_run"][1], Unk)
                    and E.truth(f["dry_run"][1]) is False)


def spec__match(E):
    """what the child matches is its own grammar, with the same arguments; its result is not changed"""
    me = c15.setting(E, CM.NessaidCmd)
    for n in ("_enable_profiling", "_enable_timing"):       # flags: do__profile and do__timing put True or False there
        me.hooks[n] = lambda E, o, n=n: o.fields[n] if isinstance(o.fields.get(n), bool) else SBool(z3.Bool(fresh_name(n)))
    E.ghost["changed"] = False
    toks = E.new(Tokens(), site="line")
    ltc, arglist = Unk("last_token_complete"), Unk("arglist")
    dry = bool(E.choose(2, "dry run"))
    res = E.ghost["results"] = []

    def own(E, args, kwargs):
        a = match_args(args[1:], kwargs)

        def body():
            E.prove("the command's own grammar is matched once", not res)
            E.prove("the line and the mode are passed on", same_list(E, a["tok_list"], toks) and E.truth(a["dry_run"]) == dry
                    and a["last_token_complete"] is ltc and a["arglist"] is arglist)
            res.append(E.new(Obj(IF.ParsingResult, {"result": Unk("result")}, "result")))
            if E.choose(2, "raise@match"):
                raise PyExc(E.new(UnkExc(BaseException, "match")))
            return res[-1]
        return coro("match", body)
    E.contracts[q(IF.CliInterface, "match")] = own
    k, r = invoke(E, me, "_match", toks, dry, ltc, arglist)
    E.prove("the line itself is not changed", E.ghost["changed"] is False)
    if k == "ok":
        E.cover("result")
        E.prove("the result of matching is the result", len(res) == 1 and r is res[0])


def never(name):
    def contract(E, args, kwargs):
        def body():
            E.prove("no action runs when a completion is asked for", False)
            return Unk(name)
        return coro(name, body)
    return contract


def spec_dry(E):
    """CliInterface.match with dry_run runs no action"""
    me = c15.setting(E, IF.CliInterface)
    k, r = invoke(E, me, "match", Unk("tokens"), True, Unk("last_token_complete"), Unk("arglist"))
    if k == "ok":
        E.cover("result")


# ------------------------------------------------------------------ the parent's loop
class Child(Model):
    """the child context that may have been entered"""
    def truth(self, E):
        return z3.Bool(fresh_name("child entered"))

    def getattr(self, E, name):
        if name != "context_loop":
            return Unk(name)
        return Builtin(name, lambda E, a, k: coro(name, lambda: self.run(E)))

    def run(self, E):
        quiet(E, "a child runs")
        E.on_unknown(E)
        d = E.choose(3, "child loop")
        if d == 0:
            E.cover("child left")
            return Unk("child loop")
        if d == 1:
            E.cover("line handed over")
            toks, al = E.new(Tokens(), site="line"), Unk("arglist")
            E.ghost["handed"] = toks
            E.ghost["handed args"] = al
            raise PyExc(E.new(Obj(CL.ChildCliExitException, {"token_list": toks, "dry_run": False,
                                                            "last_token_complete": Unk("ltc"), "arglist": al})))
        e = E.new(UnkExc(BaseException, "child loop"))
        e.excluded.append(CL.ChildCliExitException)
        raise PyExc(e)

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return True

    def setattr(self, E, name, v):
        pass


def quiet(E, what):
    if E.ghost.get("leaving") is not None:
        E.prove("nothing runs in a loop that is being left: " + what, False)
    if E.ghost.get("handed") is not None:
        E.prove("a line handed over is matched before anything else: " + what, False)


def loop_match(E, args, kwargs):
    a = match_args(args[1:], kwargs)

    def body():
        if E.ghost.get("leaving") is not None:
            E.prove("nothing runs in a loop that is being left: matching", False)
        h = E.ghost.get("handed")
        if h is not None:
            E.cover("matched here")
            E.prove("the line handed over is matched as the child got it", a["tok_list"] is h)
            d = a["dry_run"]
            E.prove("the line handed over is executed", d is False)
            E.ghost["handed"] = None
            E.ghost["handed args"] = None
        E.on_unknown(E)
        c = E.choose(3, "match")
        if c == 0:
            return Unk("result")
        if c == 1:
            x = E.new(Obj(CL.ChildCliExitException, {n: Unk(n) for n in ("token_list", "dry_run", "last_token_complete",
                                                                       "arglist")}))
            E.ghost["leaving"] = x
            raise PyExc(x)
        e = E.new(UnkExc(BaseException, "match"))
        e.excluded.append(CL.ChildCliExitException)
        raise PyExc(e)
    return coro("match", body)


def hook(name, last=False):
    inner = unknown_coroutine(name)

    def contract(E, args, kwargs):
        c = inner(E, args, kwargs)
        th = c.thunk

        def body():
            if not last:
                quiet(E, name)
            try:
                return th()
            except PyExc:
                if last:
                    E.ghost["exit raised"] = True
                raise
        c.thunk = body
        return c
    return contract


def spec_loop(cls, name):
    def run(E):
        me = c15.setting(E, cls)
        E.ghost.update({"handed": None, "handed args": None, "leaving": None, "exit raised": False})
        def child(E, o):
            if isinstance(o.fields.get("_child_cli", Unk()), Unk):
                o.fields["_child_cli"] = E.new(Child(), site="child")
            return o.fields["_child_cli"]
        me.hooks["_child_cli"] = child
        args = [Unk("grammar name")] if cls is CL.NessaidCli else []
        k, r = invoke(E, me, name, *args)
        E.prove("no line handed over is lost", E.ghost["handed"] is None)
        x = E.ghost["leaving"]
        if x is not None:
            E.cover("left")
            E.prove("a loop whose line is handed over ends", k == "exc")
            E.prove("the line handed over reaches the parent", r is x or E.ghost["exit raised"] is True)
    return run


def units(tier):
    kw = dict(typestate=True, may_raise=Exception, max_paths=60000)
    loop = contracts()
    for cls in (CL.NessaidCli, CM.NessaidCmd):
        for h in ("get_next_line", "handle_keyboard_interrupt", "handle_eof", "is_partial_line", "commented_line",
                  "preloop", "postintro", "cli_exec_init"):
            loop[q(cls, h)] = hook(h)
        loop[q(cls, "on_exit")] = hook("on_exit", last=True)
        loop[q(cls, "match")] = loop_match
    inner = contracts(without=[q(IF.CliInterface, "match")])
    inner.update({q(IF.CliInterface, n): unknown_coroutine(n) for n in (
        "match_token", "complete_token", "get_token_value", "fix_sequences")})
    inner[q(IF.CliInterface, "execute_success_sequence")] = never("execute_success_sequence")
    inner.update({q(IF.CliInterface, n): unknown_call(n) for n in ("get_token", "clear_caches")})
    inner["nessaid_cli.interface:ParsingResult"] = lambda E, a, k: Unk("result")
    inner.update({q(EL.GrammarWalkTree, n): unknown_call(n) for n in dir(EL.GrammarWalkTree)
                  if isinstance(getattr(EL.GrammarWalkTree, n), types.FunctionType) and n != "__init__"})
    return [
        Unit("NessaidCmd.match", spec_match, ["parent asked", "kept", "parent's completion", "handed over"], 12,
             contracts={}),
        Unit("NessaidCmd._match", spec__match, ["result"], 4, contracts=contracts(without=[q(CM.NessaidCmd, "_match")]),
             merge=True, **kw),
        Unit("CliInterface.match for completion", spec_dry, ["result"], 0, contracts=inner, merge=True, **kw),
        Unit("NessaidCli.cmdloop", spec_loop(CL.NessaidCli, "cmdloop"),
             ["child left", "line handed over", "matched here", "left"], 6, contracts=loop, merge=True, **kw),
        Unit("NessaidCmd.cmdloop", spec_loop(CM.NessaidCmd, "cmdloop"),
             ["child left", "line handed over", "matched here", "left"], 6, contracts=loop, merge=True, **kw),
        Unit("NessaidCmd.context_loop", spec_loop(CM.NessaidCmd, "context_loop"),
             ["child left", "line handed over", "matched here", "left"], 6, contracts=loop, merge=True, **kw),
    ]
