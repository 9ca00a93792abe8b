"""C15: the grammar stack and the running state are restored however a command or a loop ends.

Typestate: the object is known only by its two stacks and its flags; everything else, in particular what user code,
the reader and other methods return, is unknown and any await may raise any exception, cancellation included."""
import types

import z3

from nessaid_cli import cmd as CM
from nessaid_cli import cli as CL
from nessaid_cli import interface as IF
from nessaid_cli import elements as EL

from pyvc.builtins_model import UnkHeap
from .tok import *
from . import c19

LEVEL = "proof"
TRUSTED = ["user code (hooks, handlers, token classes, child contexts) leaves the stacks as it found them: it can reach "
           "them only through the functions proved here"]
ASSUMPTIONS = ["reading an attribute of an unknown object does not raise", "signals (KeyboardInterrupt) arrive at awaits only", "the message that an input file cannot be read "
               "can be written", "generate_root_grammar_name does not raise when overridden (it already ran in the constructor)"]

TRACKED = ("_grammars", "_grammar_stack", "_cli_stack", "_running", "_executing", "_parse_tree")


class Stack(Model):
    """a stack known relative to what it was: `under` elements of that are gone, `over` were pushed since"""
    def __init__(self, E, key):
        super().__init__()
        self.key = key
        E.ghost[key] = (0, ())
        self.base = E.new(Obj(None, {}, "earlier top of " + key))

    def state(self, E):
        return E.ghost[self.key]

    def truth(self, E):
        u, over = self.state(E)
        return True if over else z3.Bool("more than %d in %s" % (u, self.key))

    def nonempty(self, E):
        t = self.truth(E)
        return t is True or E.fork(t, "stack not empty")

    def call(self, E, name, a, k):
        u, over = self.state(E)
        if name == "append" and len(a) == 1:
            E.ghost[self.key] = (u, over + (a[0],))
            return None
        if name == "pop" and (not a or a[0] == -1):
            if over:
                E.ghost[self.key] = (u, over[:-1])
                return over[-1]
            if not self.nonempty(E):
                E.raise_(IndexError, "pop from empty list")
            E.ghost[self.key] = (u + 1, ())
            return Unk("earlier element")
        if name == "copy":
            return Unk("copy of the stack")
        raise Unsupported("stack .%s" % name)

    def getattr(self, E, name):
        if not hasattr(list, name):
            E.raise_(AttributeError, name)
        return Builtin(name, lambda E, a, k: self.call(E, name, a, k))

    def getitem(self, E, i):
        u, over = self.state(E)
        if isinstance(i, int) and i == -1:
            if over:
                return over[-1]
            if not self.nonempty(E):
                E.raise_(IndexError, "empty stack")
            return Unk("top") if u else self.base
        return Unk("element of the stack")

    def delitem(self, E, i):
        if i == -1 and isinstance(i, int):
            return self.call(E, "pop", [], {})
        raise Unsupported("stack item deleted")

    def setitem(self, E, i, v):
        raise Unsupported("stack item replaced")

    def len_(self, E):
        return fresh_int("depth")

    def iop(self, E, op, b):
        raise Unsupported("stack extended")

    def binop(self, E, op, b, swapped):
        return Unk("stack")

    def eq(self, E, other):
        return bool(E.choose(2, "stack =="))

    def contains(self, E, x):
        return bool(E.choose(2, "in stack"))

    def isinstance_(self, E, cls):
        return issubclass(list, cls)

    def type_(self, E):
        return list

    def loop_spec(self, E, s, env):
        return None

    def havoc(self, E):
        E.ghost[self.key] = (1, ())


def setting(E, cls):
    E.ghost.clear()
    gs, cs = E.new(Stack(E, "grammars")), E.new(Stack(E, "loops"))
    me = E.new(Obj(cls, {"_grammar_stack": gs, "_cli_stack": cs, "_running": Unk("running before"),
                         "_grammars": E.new(Obj(EL.GrammarSpecification, {}, "grammars"), site="grammars"),
                         "_executing": False, "_parse_tree": E.new(Obj(EL.GrammarWalkTree, {}, "tree before"))},
                   "self"), site="self")
    me.hooks["*"] = lambda E, o, name: Unk(name)
    me.tree0 = me.fields["_parse_tree"]

    def unknown(E):
        for f in me.fields:
            if f not in TRACKED:
                me.fields[f] = Unk(f)
    E.on_unknown = unknown
    E.await_raise = BaseException
    return me


def stacks_of(E, me):
    ok = isinstance(me.fields.get("_grammar_stack"), Stack) and isinstance(me.fields.get("_cli_stack"), Stack)
    E.prove("the stacks are the same objects", ok)
    if not ok:
        raise Dead()
    return E.ghost["grammars"], E.ghost["loops"]


def restored(E, me, how, running=True):
    g, c = stacks_of(E, me)
    E.prove("the stack of grammars is as before, ended by %s" % how, g == (0, ()))
    E.prove("the stack of running loops is as before, ended by %s" % how, c == (0, ()))
    x = me.fields.get("_executing")
    E.prove("nothing is recorded as executing, ended by %s" % how, isinstance(x, bool) and not x)
    if running:
        r = me.fields.get("_running")
        E.prove("the loop is not recorded as running, ended by %s" % how, isinstance(r, bool) and not r)


def tree_of_top(E, me, how):
    """the tree matched against is the one of the grammar on top of the stack"""
    t = me.fields.get("_parse_tree")
    u, over = E.ghost["grammars"]
    if over:
        E.prove("the tree is the one of the active grammar, %s" % how,
                isinstance(t, Obj) and getattr(t, "of", None) is over[-1])


# ------------------------------------------------------------------ contracts of what is called
def walk_tree(E, args, kwargs):
    """GrammarWalkTree(grammar): no exception, the tree of that grammar (unit 'tree')"""
    o = E.new(Obj(EL.GrammarWalkTree, {}, "tree"))
    o.of = args[0] if args else kwargs.get("grammar")
    return o


def get_grammar(E, args, kwargs):
    """GrammarSpecification.get_grammar(name): no exception, some grammar or None (unit 'get_grammar')"""
    return Unk("grammar")


def unknown_coroutine(name, check=None):
    def contract(E, args, kwargs):
        from pyvc.engine import Coro

        def body():
            if check is not None and args and isinstance(args[0], Obj):
                check(E, args[0], name)
            E.on_unknown(E)
            if E.choose(2, "raise@" + name):
                raise PyExc(E.new(UnkExc(BaseException, name)))
            return Unk(name)
        return Coro(body, name)
    return contract


def unknown_call(name):
    def contract(E, args, kwargs):
        E.on_unknown(E)
        if E.choose(2, "raise@" + name):
            raise PyExc(E.new(UnkExc(Exception, name)))
        return Unk(name)
    return contract


def active(E, me, name):
    """while a loop runs, its grammar is the active one, and it is the innermost loop"""
    if E.ghost.get("in loop"):
        u, over = E.ghost["grammars"]
        E.prove("the grammar of the loop is active while it runs", u == 0 and len(over) == 1)
        u, over = E.ghost["loops"]
        E.prove("the loop is the innermost one while it runs", u == 0 and len(over) == 1 and over[0] is me)
        tree_of_top(E, me, "while it runs")
        E.cover("runs")


def q(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            f = k.__dict__[name]
            f = f.fget if isinstance(f, property) else getattr(f, "__func__", f)
            return "%s:%s" % (f.__module__, f.__qualname__)
    raise Unsupported("%s has no %s" % (cls.__name__, name))


HOOKS = ["preloop", "postintro", "on_exit", "get_next_line", "handle_keyboard_interrupt", "handle_eof",
         "is_partial_line", "commented_line", "cli_exec_init"]
CALLS = ["tokenize", "process_cli_response"]


def quiet_call(name):
    """an unknown call that does not raise (proved in unit 'add_file_to_execute')"""
    def contract(E, args, kwargs):
        E.on_unknown(E)
        return Unk(name)
    return contract


def contracts(without=(), more=()):
    c = {"nessaid_cli.elements:GrammarWalkTree": walk_tree,
         "nessaid_cli.elements:GrammarSpecification.get_grammar": get_grammar}
    for cls in (CL.NessaidCli, CM.NessaidCmd):
        for h in HOOKS:
            try:
                c[q(cls, h)] = unknown_coroutine(h, active)
            except Unsupported:
                pass
        for h in CALLS + ["error", "print"]:
            try:
                c[q(cls, h)] = unknown_call(h)
            except Unsupported:
                pass
        c[q(cls, "add_file_to_execute")] = quiet_call("add_file_to_execute")
        c[q(cls, "match")] = unknown_coroutine("match", active)
    c[q(CM.NessaidCmd, "_match")] = unknown_coroutine("_match")
    for w in without:
        c.pop(w, None)
    c.update(more)
    return c


# ------------------------------------------------------------------ units
def spec_tree(E):
    """GrammarWalkTree(g) does not raise, whatever the grammar is, and is the tree of g"""
    g = E.new(Obj(EL.NamedGrammar, {}, "grammar")) if E.choose(2, "grammar") else None
    k, t = make(E, EL.GrammarWalkTree, g)
    E.prove("no exception", k == "ok")
    if k == "ok":
        E.cover("built")
        k, e = attempt(E, lambda: E.getattr(t, "element"))
        E.prove("the tree of that grammar", k == "ok" and e is g)


def spec_get_grammar(E):
    s = c19.specification(E)
    k, r = invoke_sync(E, s, "get_grammar", c19.name(z3.Const("name", V)))
    E.prove("no exception, whether or not there is such a grammar", k == "ok")
    E.cover("looked up")


def spec_add_file(cls):
    def run(E):
        me = setting(E, cls)
        k, r = invoke_sync(E, me, "add_file_to_execute", Unk("file name"))
        E.prove("a file that cannot be read does not end the loop", k == "ok")
        E.cover("added")
    return run


def spec_enter(E):
    me = setting(E, CM.NessaidCmd)
    k, r = invoke_sync(E, me, "enter_grammar", Unk("name"))
    g, c = stacks_of(E, me)
    E.prove("the stack of loops is unchanged", c == (0, ()))
    if k == "ok":
        E.cover("entered")
        E.prove("one grammar was put on top", g[0] == 0 and len(g[1]) == 1)
        tree_of_top(E, me, "after entering")
    else:
        E.cover("raised")
        E.prove("nothing was put on the stack", g == (0, ()))
        E.prove("the tree is unchanged", me.fields.get("_parse_tree") is me.tree0)


def spec_exit(E):
    me = setting(E, CM.NessaidCmd)
    top = E.new(Obj(EL.NamedGrammar, {}, "active"))
    under = E.choose(2, "outer grammar")
    lower = E.new(Obj(EL.NamedGrammar, {}, "outer"))
    E.ghost["grammars"] = (0, (lower, top) if under else (top,))
    k, r = invoke_sync(E, me, "exit_grammar")
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    E.cover("left")
    g, c = stacks_of(E, me)
    E.prove("exactly the top was taken off", g == (0, (lower,) if under else ()))
    E.prove("the stack of loops is unchanged", c == (0, ()))
    t = me.fields.get("_parse_tree")
    if under:
        tree_of_top(E, me, "after leaving")
    elif isinstance(t, Obj) and t is not me.tree0:
        E.prove("the tree is the one of the grammar below", getattr(t, "of", None) is me.fields["_grammar_stack"].base)


def ended(E, k, r):
    if k == "ok":
        return "return"
    return "cancellation or an exception"


def spec_loop(cls, method_name):
    def run(E):
        me = setting(E, cls)
        E.ghost["in loop"] = True
        args = [Unk("grammar name")] if cls is CL.NessaidCli else []
        k, r = invoke(E, me, method_name, *args)
        E.ghost["in loop"] = False
        E.cover("ends by return" if k == "ok" else "ends by an exception")
        restored(E, me, ended(E, k, r))
    return run


def spec_line(cls):
    def run(E):
        me = setting(E, cls)
        k, r = invoke(E, me, "exec_line", Unk("line"))
        E.cover("ends by return" if k == "ok" else "ends by an exception")
        restored(E, me, ended(E, k, r), running=False)
    return run


def spec_match(cls, name):
    def run(E):
        me = setting(E, cls)
        k, r = invoke(E, me, name, Unk("tokens"), *[Unk(n) for n in ("dry_run", "last_token_complete", "arglist")])
        E.cover("ends by return" if k == "ok" else "ends by an exception")
        restored(E, me, ended(E, k, r), running=False)
    return run


def units(tier):
    kw = dict(typestate=True, may_raise=Exception, max_paths=60000, merge=True)
    both = ["ends by return", "ends by an exception"]
    base = contracts()
    inner = contracts(without=[q(IF.CliInterface, "match")])
    inner.update({q(IF.CliInterface, n): unknown_coroutine(n) for n in (
        "execute_success_sequence", "match_token", "complete_token", "get_token_value", "fix_sequences")
        if hasattr(IF.CliInterface, n)})
    inner.update({q(IF.CliInterface, n): unknown_call(n) for n in ("get_token", "clear_caches")})
    inner["nessaid_cli.interface:ParsingResult"] = lambda E, a, k: Unk("result")
    inner.update({q(EL.GrammarWalkTree, n): unknown_call(n) for n in dir(EL.GrammarWalkTree)
                  if isinstance(getattr(EL.GrammarWalkTree, n), types.FunctionType) and n != "__init__"})
    wrap = contracts(without=[q(CM.NessaidCmd, "match")], more={q(IF.CliInterface, "match"): unknown_coroutine("match")})
    wrap2 = contracts(without=[q(CM.NessaidCmd, "_match")], more={q(IF.CliInterface, "match"): unknown_coroutine("match")})
    reading = contracts(without=[q(c, "add_file_to_execute") for c in (CL.NessaidCli, CM.NessaidCmd)],
                        more={q(CL.NessaidCli, "error"): quiet_call("error")})
    return [
        Unit("tree of a grammar", spec_tree, ["built"], 2),
        Unit("NessaidCli.add_file_to_execute", spec_add_file(CL.NessaidCli), ["added"], 1, contracts=reading, **kw),
        Unit("NessaidCmd.add_file_to_execute", spec_add_file(CM.NessaidCmd), ["added"], 1, contracts=reading, **kw),
        Unit("get_grammar", spec_get_grammar, ["looked up"], 2),
        Unit("enter_grammar", spec_enter, ["entered"], 3, contracts=base, **kw),
        Unit("exit_grammar", spec_exit, ["left"], 4, contracts=base, **kw),
        Unit("NessaidCli.cmdloop", spec_loop(CL.NessaidCli, "cmdloop"), both + ["runs"], 10, contracts=base, **kw),
        Unit("NessaidCmd.cmdloop", spec_loop(CM.NessaidCmd, "cmdloop"), both + ["runs"], 10, contracts=base, **kw),
        Unit("NessaidCmd.context_loop", spec_loop(CM.NessaidCmd, "context_loop"), both + ["runs"], 10, contracts=base, **kw),
        Unit("NessaidCli.exec_line", spec_line(CL.NessaidCli), ["ends by return"], 4, contracts=base, **kw),
        Unit("NessaidCmd.exec_line", spec_line(CM.NessaidCmd), ["ends by return"], 4, contracts=base, **kw),
        Unit("CliInterface.match", spec_match(IF.CliInterface, "match"), both, 7, contracts=inner, **kw),
        Unit("NessaidCmd.match", spec_match(CM.NessaidCmd, "match"), both, 7, contracts=wrap, **kw),
        Unit("NessaidCmd._match", spec_match(CM.NessaidCmd, "_match"), both, 7, contracts=wrap2, **kw),
    ]
