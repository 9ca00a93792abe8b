"""C21: failures of user code never escape from executing a line, the exit status tells success, and a token class that
raises counts as not matching, having no completions and having no value."""
from nessaid_cli import cmd as CM
from nessaid_cli import cli as CL
from nessaid_cli import interface as IF
from nessaid_cli import tokens as TK

from .tok import *
from . import c15
from .c15 import q, unknown_call, quiet_call, contracts
from .c16 import coro, match_args, RESULTS

LEVEL = "proof"
TRUSTED = ["user code does not change the result of matching after it was returned"]
ASSUMPTIONS = ["reading an attribute of a token object does not raise", "messages to the error stream can be written",
               "signals (KeyboardInterrupt) arrive at awaits only"]


def ordinary(r):
    """the exception may be an ordinary one (an instance of Exception)"""
    if isinstance(r, UnkExc):
        return r.base is not BaseException or not any(issubclass(Exception, c) for c in r.excluded)
    return isinstance(r, Obj) and issubclass(r.cls, Exception)


def match_contract(E, args, kwargs):
    def body():
        E.on_unknown(E)
        E.ghost["matched"] = None
        c = E.choose(6, "match")
        if c == 4:
            raise PyExc(E.new(UnkExc(BaseException, "match")))
        if c == 5:
            raise PyExc(E.new(Obj(CL.ChildCliExitException, {}, "line handed over")))
        E.ghost["matched"] = RESULTS[c]
        return E.new(Obj(IF.ParsingResult, {"result": RESULTS[c], "error": Unk("error"), "matched_values": Unk("values")}))
    return coro("match", body)


def response_contract(E, args, kwargs):
    E.on_unknown(E)
    E.ghost["told"] = "told"
    if E.choose(2, "raise@process_cli_response"):
        E.ghost["told"] = "raised"
        raise PyExc(E.new(UnkExc(BaseException, "process_cli_response")))
    return Unk("response")


def settle(E, k, r, success):
    if k != "ok":
        E.cover("ends by an exception")
        E.prove("no ordinary exception escapes", not ordinary(r))
        return
    zero = r is False or (isinstance(r, int) and not isinstance(r, bool) and r == 0)
    E.cover("status zero" if zero else "status not zero")
    E.prove("the status is a number", isinstance(r, int) and not isinstance(r, bool))
    E.prove("the status is zero exactly for success", zero == success)


def spec_line_cli(E):
    me = c15.setting(E, CL.NessaidCli)
    E.ghost.update(matched=None, told=None)
    k, r = invoke(E, me, "exec_line", Unk("line"))
    settle(E, k, r, E.ghost["matched"] == TK.MATCH_SUCCESS and E.ghost["told"] != "raised")


def inner_line(E, args, kwargs):
    """NessaidCli.exec_line: a status or an exception that is not an ordinary one (unit 'NessaidCli.exec_line')"""
    def body():
        E.on_unknown(E)
        c = E.choose(3, "exec_line")
        if c == 2:
            e = E.new(UnkExc(BaseException, "exec_line"))
            e.excluded.append(Exception)
            raise PyExc(e)
        E.ghost["inner"] = 0 if c == 0 else 12
        return E.ghost["inner"]
    return coro("exec_line", body)


def spec_line_cmd(E):
    me = c15.setting(E, CM.NessaidCmd)
    E.ghost.update(inner=None)
    k, r = invoke(E, me, "exec_line", Unk("line"))
    settle(E, k, r, E.ghost["inner"] == 0)
    if E.ghost["inner"] is not None and k == "ok":
        E.cover("executed")


# ------------------------------------------------------------------ token classes
class Token(Model):
    """any token object: what its methods give or raise is unknown"""
    def getattr(self, E, name):
        if name == "cacheable":
            return SBool(z3.Bool("cacheable"))
        if name in ("match", "complete", "get_value"):
            return E.ghost["method", name]
        return Unk(name)

    def truth(self, E):
        return z3.Bool("token true")

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return bool(E.choose(2, "isinstance"))


class Method(Model):
    def __init__(self, E, name, typed, me, is_async):
        super().__init__()
        self.name, self.typed, self.me, self.is_async = name, typed, me, is_async

    def call(self, E, name, args, kwargs):
        E.prove("the token class is given the text and the interface",
                list(args) == [self.typed] and list(kwargs) == ["cli"] and kwargs["cli"] is self.me)
        if self.is_async:
            return coro(self.name, lambda: self.outcome(E))
        return self.outcome(E)

    def outcome(self, E):
        E.ghost["asked"] = E.ghost["asked"] + (self.name,)
        if E.choose(2, "raise@" + self.name):
            E.ghost["raised"] = True
            raise PyExc(E.new(UnkExc(Exception, self.name)))
        E.ghost["result"] = Unk(self.name)
        return E.ghost["result"]

    def truth(self, E):
        return True

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return False


def iscoroutinefunction(E, args, kwargs):
    m = args[0] if args else kwargs.get("func")
    return m.is_async if isinstance(m, Method) else Unk("iscoroutinefunction")


class Cache(Model):
    """the cache of values: may hold a value for the text, and then the one remembered for it (C12)"""
    def getattr(self, E, name):
        if name == "get":
            def get(E, a, k):
                if E.fork(self.contains(E, a[0]), "cached"):
                    return E.ghost["cached"]
                return a[1] if len(a) > 1 else None
            return Builtin("get", get)
        return Unk(name)

    def contains(self, E, x):
        return z3.Bool("cached")

    def getitem(self, E, i):
        if E.fork(z3.Bool("cached"), "cached"):
            return E.ghost["cached"]
        E.raise_(KeyError, "key")

    def setitem(self, E, i, v):
        E.ghost["stored"] = v

    def len_(self, E):
        return Unk("len")

    length = len_

    def truth(self, E):
        return z3.Bool("cached")

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return issubclass(dict, cls)


def spec_token(which, method, failed, check):
    def run(E):
        me = c15.setting(E, IF.CliInterface)
        typed = Unk("typed")
        me.fields["_token_value_cache"] = E.new(Cache())
        me.fields.update({n: fresh_int(n) for n in ("_token_value_hit", "_token_value_miss", "_token_hit", "_token_miss")})
        is_async = bool(E.choose(2, "async"))
        E.ghost.update(raised=False, result=None, asked=(), cached=Unk("cached"), stored=None)
        for m in ("match", "complete", "get_value"):
            E.ghost["method", m] = E.new(Method(E, m, typed, me, is_async))
        k, r = invoke(E, me, which, E.new(Token()), typed)
        E.prove("no exception of the token class escapes", k == "ok")
        if k != "ok":
            return
        if E.ghost["asked"]:
            E.prove("only the %s method is asked, once" % method, E.ghost["asked"] == (method,))
            if E.ghost["raised"]:
                E.cover("raised")
                E.prove(failed, check(r))
                E.prove("the failure is not remembered as a result", E.ghost["stored"] is None)
            else:
                E.cover("answered")
                E.prove("what the token class answers is the result", r is E.ghost["result"])
        else:
            E.cover("remembered")
            E.prove("without asking it is the remembered value", method == "get_value" and r is E.ghost["cached"])
    return run


def no_completions(r):
    items = r.items if isinstance(r, PyList) else list(r) if isinstance(r, tuple) else None
    if items is None or len(items) != 2:
        return False
    c = items[1]
    return (isinstance(c, PyList) and not c.items) or c == ()


def units(tier):
    kw = dict(typestate=True, may_raise=Exception, max_paths=60000, merge=True)
    base = contracts()
    for cls in (CL.NessaidCli, CM.NessaidCmd):
        base[q(cls, "match")] = match_contract
        base[q(cls, "process_cli_response")] = response_contract
        base[q(cls, "error")] = quiet_call("error")
        base[q(cls, "print")] = quiet_call("print")
        base[q(cls, "cli_exec_init")] = c15.unknown_coroutine("cli_exec_init")
    base["traceback:print_tb"] = lambda E, a, k: None
    base["traceback:print_exc"] = lambda E, a, k: None
    cmd = dict(base)
    cmd[q(CL.NessaidCli, "exec_line")] = inner_line
    root = dict(cmd)
    root[q(CM.NessaidCmd, "generate_root_grammar_name")] = unknown_call("generate_root_grammar_name")
    tok = {"asyncio.coroutines:iscoroutinefunction": iscoroutinefunction, "inspect:iscoroutinefunction": iscoroutinefunction}
    both = ["status zero", "status not zero"]
    return [
        Unit("NessaidCli.exec_line", spec_line_cli, both + ["ends by an exception"], 3, contracts=base, **kw),
        Unit("NessaidCmd.exec_line", spec_line_cmd, both + ["executed"], 3, contracts=root, **kw),
        Unit("match_token", spec_token("match_token", "match", "a token class that raises does not match",
                                       lambda r: isinstance(r, str) and r == TK.MATCH_FAILURE),
             ["raised", "answered"], 4, contracts=tok, **kw),
        Unit("complete_token", spec_token("complete_token", "complete", "a token class that raises has no completions",
                                          no_completions), ["raised", "answered"], 4, contracts=tok, **kw),
        Unit("get_token_value", spec_token("get_token_value", "get_value", "a token class that raises has no value",
                                           is_null), ["raised", "answered", "remembered"], 5, contracts=tok, **kw),
    ]
