"""C20: calls in actions reach exactly the named function with the evaluated arguments."""
from .bind import *
from .bind import KNOWN
from .c15 import q
from pyvc.engine import StarArgs

LEVEL = "proof"
TRUSTED = []
ASSUMPTIONS = ["evaluating an argument, apart from the calls in it, does not raise: the action runs inside a grammar and "
               "an element", "messages to the error stream can be written"]


# ------------------------------------------------------------------ execute_binding_call
class Function(Model):
    def __init__(self, is_async):
        super().__init__()
        self.is_async = is_async

    def call(self, E, name, args, kwargs):
        E.ghost["calls"] += 1
        vs = E.ghost["values"]
        rest = args
        same = len(rest) == 1 and isinstance(rest[0], StarArgs)
        x = coll.view_seq(E, rest[0].value, DVAL) if same else None
        E.prove("the function gets exactly the arguments of the call, in order",
                x is not None and not kwargs and z3.And(x[1] == vs.n, z3.Implies(
                    z3.And(0 <= J, J < vs.n), z3.Select(x[0], J) == vs.at(J))))
        if self.is_async:
            return Coro(lambda: self.outcome(E), "function")
        return self.outcome(E)

    def outcome(self, E):
        E.ghost["ran"] += 1
        if E.choose(2, "raise@function"):
            E.ghost["failed"] = True
            raise PyExc(E.new(UnkExc(Exception, "function")))
        E.ghost["result"] = value(z3.Const("result", V))
        return E.ghost["result"]

    def truth(self, E):
        return True

    def isinstance_(self, E, cls):
        return False

    def havoc(self, E):
        pass


def is_coroutine_function(E, args, kwargs):
    m = args[0] if args else kwargs.get("func")
    if isinstance(m, Function):
        return m.is_async
    raise Unsupported("iscoroutinefunction of %r" % (m,))


def interface(E):
    """a command object: the hook naming gives HOOK for the name called; an attribute of that name may exist"""
    E.ghost.update(calls=0, ran=0, failed=False, result=None, reported=0)
    fn = E.new(Function(bool(E.choose(2, "async"))))
    name, hook = fresh_str("called_name"), fresh_str("hook_name")
    E.ghost["exists"] = exists = z3.Bool("function exists")

    def naming(E, args, kwargs):
        E.prove("the hook naming is asked about the name called", len(args) == 2 and args[1] is name and not kwargs)
        if E.choose(2, "raise@get_cli_hook"):
            E.ghost["failed"] = True
            raise PyExc(E.new(UnkExc(Exception, "get_cli_hook")))
        return hook

    def check(what):
        E.prove("the function looked up is the one the hook naming gives", what is hook)

    def hasattr_(E, o, n):
        check(n)
        return SBool(exists)

    def getattr_(E, o, n):
        check(n)
        if E.fork(exists, "function exists"):
            return fn
        E.raise_(AttributeError, "no such function")
    me = E.new(Obj(IF.CliInterface, {}, "interface", {"hasattr": hasattr_, "getattr": getattr_}), site="interface")

    def error(E, args, kwargs):
        E.ghost["reported"] += 1
    E.contracts[q(IF.CliInterface, "get_cli_hook")] = naming
    E.contracts[q(IF.CliInterface, "error")] = error
    E.ghost["values"] = vs = E.new(coll.SeqV(E, DVAL, kind=tuple, name="values"))
    E.dom = E.vdom = DVAL
    return me, name, vs


def spec_call(E):
    me, name, vs = interface(E)

    def inline(E, args, kwargs):
        E.prove("a call of a method runs no inline function", False)
        return Coro(lambda: None, "inline")
    E.contracts[q(IF.CliInterface, "resolve_local_function_call")] = inline
    k, r = invoke(E, me, "execute_binding_call", name, False, StarArgs(vs))
    g = E.ghost
    E.prove("no exception of the function escapes", k == "ok")
    if k != "ok":
        return
    E.prove("the function is called at most once", g["calls"] <= 1 and g["ran"] == g["calls"])
    if g["calls"]:
        E.prove("an existing function is called", g["exists"])
        if g["failed"]:
            E.cover("failed")
            E.prove("a call that fails yields nothing", r is None)
            E.prove("a call that fails is reported", g["reported"] >= 1)
        else:
            E.cover("returned")
            E.prove("the result is the value of the call", r is g["result"])
            E.prove("a call that succeeds is not reported", g["reported"] == 0)
    else:
        E.cover("missing")
        if not g["failed"]:
            E.prove("an existing function is called", z3.Not(g["exists"]))
        E.prove("a missing function yields nothing", r is None)
        E.prove("a missing function is reported", g["reported"] >= 1)


def spec_inline(E):
    me, name, vs = interface(E)
    fn = E.new(Function(True))

    def inline(E, args, kwargs):
        E.prove("the inline function of the name is called", len(args) >= 2 and args[1] is name)
        return fn.call(E, "__call__", list(args[2:]), kwargs)
    E.contracts[q(IF.CliInterface, "resolve_local_function_call")] = inline
    k, r = invoke(E, me, "execute_binding_call", name, True, StarArgs(vs))
    g = E.ghost
    E.prove("no exception of the function escapes", k == "ok")
    if k != "ok":
        return
    E.prove("the inline function is called once", g["calls"] == 1 and g["ran"] == 1)
    if g["failed"]:
        E.cover("failed")
        E.prove("a call that fails yields nothing", r is None)
        E.prove("a call that fails is reported", g["reported"] >= 1)
    else:
        E.cover("returned")
        E.prove("the result is the value of the call", r is g["result"])
        E.prove("a call that succeeds is not reported", g["reported"] == 0)


# ------------------------------------------------------------------ ExecContext
def context(E):
    w = world(E)
    iface = E.new(Obj(IF.CliInterface, {}, "interface"), site="interface")
    me = E.new(Obj(IF.ExecContext, {"_interface": iface}, "context"), site="context")
    return me, w


def spec_resolve_call(cls, kind):
    """resolving a call expression: its arguments are evaluated in order, the function is called once with their
    values, and the result of the call is the value"""
    def run(E):
        me, w = context(E)
        b = z3.Const("call", V)
        E.assume(KIND(b) == kind)
        E.ghost["block start"] = lambda E: z3.Const("state0", ST)
        E.ghost["this block"] = lambda E: b
        o = E.new(Obj(cls, {}, "call", {"name": lambda E, o: name_value(NAME(b)),
                                        "arglist": lambda E, o: args_of(E, b)}))
        k, r = invoke(E, me, "resolve_argument", o)
        E.prove("no exception", k == "ok")
        if k == "ok":
            E.cover("resolved")
            E.prove("the function was called, once", w.state == AFTER(b, z3.Const("state0", ST)))
            E.prove("the result of the call is the value", r is E.ghost.get("called result"))
    return run


def first_real(f, contract):
    """the function itself when called by the unit, its contract when it calls itself"""
    def c(E, args, kwargs):
        if not E.ghost.get("entered"):
            E.ghost["entered"] = True
            return E.call_real(f, args, kwargs)
        return contract(E, args, kwargs)
    return c


def spec_resolve_other(E):
    """a variable resolves to itself, an argument to what it holds, anything else is its own value; nothing is called"""
    me, w = context(E)
    var = E.new(Obj(BO.NamedVariable, {}, "variable"))
    inner = []

    def resolve_variable(E, args, kwargs):
        inner.append(args[1])
        return var

    def again(E, args, kwargs):
        inner.append(args[1])
        return Coro(lambda: value(z3.Const("inner result", V)), "resolve_argument")
    E.contracts[q(IF.ExecContext, "resolve_variable")] = resolve_variable
    f = method(IF.ExecContext, "resolve_argument")
    E.contracts[q(IF.ExecContext, "resolve_argument")] = first_real(f, again)
    c = E.choose(5, "argument")
    held = value(z3.Const("held", V))
    if c == 0:
        a = variable(z3.Const("v", V))
    elif c == 1:
        a = E.new(Obj(EL.CliArgument, {}, "argument", {"value": lambda E, o: held}))
    elif c == 2:
        a = fresh_str("literal")
    elif c == 3:
        a = fresh_int("literal")
    else:
        a = E.choose(2, "none") and True or None
    k, r = invoke(E, me, "resolve_argument", a)
    E.prove("no exception", k == "ok")
    E.prove("nothing is called", w.state == z3.Const("state0", ST))
    if k != "ok":
        return
    E.cover("argument kind %d" % c)
    if c == 0:
        E.prove("the variable of that name or number", r is var and len(inner) == 1 and inner[0] is a)
    elif c == 1:
        E.prove("what the argument holds is resolved", len(inner) == 1 and inner[0] is held and
                isinstance(r, SVal) and r.e.eq(z3.Const("inner result", V)))
    else:
        E.prove("the value itself", r is a and not inner)


def spec_evaluate(E):
    """the value of a variable, else the value; texts in notation are turned into the text they denote"""
    me, w = context(E)
    expr = expression(z3.Const("expr", V))
    c = E.choose(5, "resolves to")
    plain = [fresh_int("n"), None, value(z3.Const("v", V)), fresh_bool("b")]
    txt = fresh_str("text")
    conv = z3.Function("text_denoted", z3.StringSort(), z3.StringSort())
    val = txt if c in (0, 1) else plain[E.choose(len(plain), "plain")]
    plain[2].kinds = lambda E, v, cls: cls is object      # some other object
    if isinstance(val, SVal):
        val = SVal(val.e, kinds=lambda E, v, cls: cls is object)
    holder = E.new(Obj([BO.NamedVariable, BO.TokenVariable][E.choose(2, "variable kind")], {}, "variable",
                       {"value": lambda E, o: val})) if c in (1, 3) else None
    got = []

    def resolve(E, args, kwargs):
        def body():
            got.append(args[1])
            return holder if holder is not None else val
        return Coro(body, "resolve_argument")

    def convert(E, args, kwargs):
        E.prove("the text is converted with the command object's cache", B.is_strlike(args[0]) and
                (kwargs.get("cli", args[1] if len(args) > 1 else None) is me.fields["_interface"]))
        return SStr(conv(B.zstr(args[0])))
    E.contracts[q(IF.ExecContext, "resolve_argument")] = resolve
    E.contracts["nessaid_cli.utils:convert_to_python_string"] = convert
    k, r = invoke(E, me, "evaluate", expr)
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    E.prove("the expression is resolved once", len(got) == 1 and got[0] is expr)
    E.cover("text" if val is txt else "other")
    if val is txt:
        E.prove("a text is the text it denotes", B.is_strlike(r) and B.zstr(r) == conv(txt.e))
    else:
        E.prove("the value itself", r is val)


# --- a whole action
def spec_run(E):
    """execute_binding runs every block of every part of the action, in order, each exactly once"""
    me, w = context(E)
    codes = E.new(coll.SeqV(E, DCODE, name="codes"))
    U = z3.Function("running_codes", I_, ST)
    E.ghost.update(codes=codes, U=U)
    E.assume(U(0) == w.state)

    def hook(E2, k):
        E2.ghost["code at"] = k
        c = codes.at(k)
        unfold_blocks(E2, c, U(k), z3.IntVal(0))
        E2.assume(z3.Implies(k >= 0, z3.And(U(k + 1) == TB(c, U(k), NBLOCKS(c)), NBLOCKS(c) >= 0)))
    codes.on_elem.append(hook)
    E.ghost["code start"] = lambda E: U(E.ghost["code at"])

    def this(E):
        return z3.Select(BLOCKS(codes.at(E.ghost["code at"])), E.ghost["block at"])

    def start(E):
        k = E.ghost["block at"]
        unfold_blocks(E, codes.at(E.ghost["code at"]), U(E.ghost["code at"]), k)
        return TB(codes.at(E.ghost["code at"]), U(E.ghost["code at"]), k)
    E.ghost["this block"] = this
    E.ghost["block start"] = start

    # variables: resolving one finds it or not; a new one is made for a name; a value is given to one
    class Var(Model):
        def __init__(self, lhs, new=False):
            super().__init__()
            self.lhs, self.new, self.added = lhs, new, not new

        def getattr(self, E, name):
            if name == "assign":
                return Builtin("assign", lambda E, a, k: self.assign(E, *a, **k))
            if name == "value":
                return value(EV(RHS_OF(self), E.ghost["world"].state))
            raise Unsupported("variable ." + name)

        def assign(self, E, v):
            b, s = this(E), start(E)
            E.prove("the variable assigned is the one named", self.lhs == LHS(b))
            E.prove("the block is an assignment", KIND(b) == 0)
            E.prove("a variable assigned for the first time belongs to the grammar", self.added is True)
            E.prove("the value assigned is that of the expression, evaluated once",
                    isinstance(v, SVal) and z3.And(v.e == EV(RHS(b), s), E.ghost["world"].state == NX(RHS(b), s)))
            E.ghost["world"].to(E, AFTER(b, s))
            E.cover("assigned")

        def truth(self, E):
            return True

        def isinstance_(self, E, cls):
            return issubclass(BO.NamedVariable, cls)

        def type_(self, E):
            return BO.NamedVariable

        def havoc(self, E):
            raise Unsupported("variable changed by a loop")

    def resolve_variable(E, args, kwargs):
        t = unwrap(args[1])
        if t is None:
            raise Unsupported("resolve_variable %r" % (args[1],))
        if E.fork(KNOWN(t, E.ghost["world"].state), "variable exists"):
            return E.new(Var(t))
        return None

    def new_variable(E, args, kwargs):
        t = unwrap(args[0]) if args else None
        if t is None:
            raise Unsupported("NamedVariable(%r)" % (args,))
        return E.new(Var(t, True))

    def resolve_argument(E, args, kwargs):
        def body():
            t = unwrap(args[1])
            if t is None:
                raise Unsupported("resolve_argument %r" % (args[1],))
            w = E.ghost["world"]
            v = value(EV(t, w.state))
            w.to(E, NX(t, w.state))
            if E.choose(2, "expression is a variable"):
                return E.new(Obj(BO.NamedVariable, {}, "value holder", {"value": lambda E, o: v}))
            return SVal(v.e, kinds=lambda E, x, cls: cls is object)
        return Coro(body, "resolve_argument")
    E.contracts[q(IF.ExecContext, "resolve_variable")] = resolve_variable
    E.contracts[q(IF.ExecContext, "resolve_argument")] = resolve_argument
    E.contracts["nessaid_cli.binding_parser.binding_objects:NamedVariable"] = new_variable

    def add(E, args, kwargs):
        E.prove("a variable is added to the innermost grammar", isinstance(args[0], Var))
        if isinstance(args[0], Var):
            args[0].added = True
    top = E.new(Obj(EL.TreeNode, {}, "grammar in effect", {"add_named_variable": lambda E, o: Builtin("add", add)}))
    below = E.new(Obj(EL.TreeNode, {}, "outer grammar"))
    me.fields["_grammar_stack"] = E.new(PyList([below, top] if E.choose(2, "outer grammar") else [top]), site="grammars")
    k, r = invoke(E, me, "execute_binding", codes)
    E.prove("no exception", k == "ok")
    if k == "ok":
        E.cover("ran")
        E.prove("every block ran once, in order", w.state == U(codes.n))


RHS_OF = None


def units(tier):
    aio = {"asyncio.coroutines:iscoroutinefunction": is_coroutine_function, "inspect:iscoroutinefunction": is_coroutine_function}
    ctx = {q(IF.ExecContext, "evaluate"): evaluate, q(IF.CliInterface, "execute_binding_call"): call_contract}

    def kw(more=()):
        return dict(contracts=dict(ctx, **dict(more)), loops=LOOPS)
    return [
        Unit("execute_binding_call of a method", spec_call, ["failed", "returned", "missing"], 8, contracts=dict(aio)),
        Unit("execute_binding_call of an inline function", spec_inline, ["failed", "returned"], 6, contracts=dict(aio)),
        Unit("resolve_argument of a call", spec_resolve_call(BO.BindingCall, 1), ["called", "resolved"], 8, **kw()),
        Unit("resolve_argument of an inline call", spec_resolve_call(BO.FunctionCall, 2), ["called", "resolved"], 8, **kw()),
        Unit("resolve_argument of anything else", spec_resolve_other, ["argument kind %d" % k for k in range(5)], 4, **kw()),
        Unit("evaluate", spec_evaluate, ["text", "other"], 4, contracts={}),
        Unit("execute_binding", spec_run, ["ran", "called", "assigned"], 10, **kw()),
    ]
