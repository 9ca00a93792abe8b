"""Shared setting of C06 and C20: the actions of a grammar as atoms, the effect of running them as a fold over states.

A state is everything a call or an assignment can depend on.  Evaluating an expression in a state gives a value and a
next state (calls inside it have effects); a call reaches AFTER(block, state before the block), an assignment as well.
Nothing else changes the state, so reaching the specified state means: every block ran, once, in order."""
import z3

from nessaid_cli import interface as IF
from nessaid_cli import elements as EL
from nessaid_cli import lex_yacc_common as LY
from nessaid_cli.binding_parser import binding_objects as BO

from pyvc import coll
from pyvc.engine import LoopSpec, Coro
from .tok import *

ST = z3.DeclareSort("State")
I_, B_ = z3.IntSort(), z3.BoolSort()
EV = z3.Function("value_of", V, ST, V)             # value of an expression
NX = z3.Function("after_evaluating", V, ST, ST)
AFTER = z3.Function("after", V, ST, ST)            # after a call or an assignment
NAME = z3.Function("called_name", V, V)
NARGS = z3.Function("number_of_arguments", V, I_)
ARGS = z3.Function("arguments", V, z3.ArraySort(I_, V))
SB = z3.Function("evaluating_arguments", V, ST, I_, ST)     # after the first k arguments
KIND = z3.Function("kind", V, I_)                  # 0 assignment, 1 call of a method, 2 call of an inline function
LHS = z3.Function("assigned_variable", V, V)
RHS = z3.Function("assigned_expression", V, V)
ISVAR = z3.Function("is_named_variable", V, B_)    # else $<number>
NBLOCKS = z3.Function("number_of_blocks", V, I_)
BLOCKS = z3.Function("blocks", V, z3.ArraySort(I_, V))
TB = z3.Function("running_blocks", V, ST, I_, ST)
KINDS = (BO.AssignmentStatement, BO.BindingCall, BO.FunctionCall)


class World(Model):
    """the state; changed by the contracts of what has effects, forgotten by loops that change it"""
    def __init__(self, E):
        super().__init__()
        self.state = z3.Const("state0", ST)

    def to(self, E, s):
        E.note_write(self)
        self.state = s

    def havoc(self, E):
        self.state = z3.Const(fresh_name("state"), ST)

    def truth(self, E):
        return True


class Args(coll.SeqV):
    """the argument list of a call"""
    def __init__(self, E, b):
        E.assume(NARGS(b) >= 0)
        super().__init__(E, DEXP, ARGS(b), NARGS(b), list, "arguments of the call")
        self.b = b


class Blocks(coll.SeqV):
    def __init__(self, E, code):
        E.assume(NBLOCKS(code) >= 0)
        super().__init__(E, DBLOCK, BLOCKS(code), NBLOCKS(code), list, "blocks")
        self.code = code
        self.on_elem.append(lambda E, k: E.ghost.update({"block at": k}))


def value(e):
    return SVal(e, kinds=lambda E, v, cls: issubclass(str, cls) if False else None)


def expression(e):
    return SVal(e, kinds=lambda E, v, cls: None)


def block(E_, e):
    def kinds(E, v, cls):
        E.assume(z3.And(0 <= KIND(v.e), KIND(v.e) < len(KINDS)))
        return z3.Or(*[KIND(v.e) == k for k, c in enumerate(KINDS) if issubclass(c, cls)])

    def type_(E, v):
        E.assume(z3.And(0 <= KIND(v.e), KIND(v.e) < len(KINDS)))
        for k, c in enumerate(KINDS[:-1]):
            if E.fork(KIND(v.e) == k, "block is %s" % c.__name__):
                return c
        return KINDS[-1]
    return SVal(e, kinds=kinds, truthy=lambda E, v: True, attrs={
        "__class__": type_, "name": lambda E, v: name_value(NAME(v.e)),
        "arglist": lambda E, v: args_of(E, v.e), "lhs": lambda E, v: variable(LHS(v.e)),
        "rhs": lambda E, v: expression(RHS(v.e))})


def args_of(E, b):
    key = ("args", b.get_id())
    if key not in E.ghost:
        E.ghost[key] = E.new(Args(E, b), site="arglist")
    return E.ghost[key]


def name_value(e):
    return SVal(e, kinds=lambda E, v, cls: issubclass(str, cls), truthy=lambda E, v: True, attrs={"str": lambda E, v: v})


def variable(e):
    def type_(E, v):
        return LY.DollarVariable if E.fork(ISVAR(v.e), "$name") else LY.DollarNumber

    def kinds(E, v, cls):
        a, b = issubclass(LY.DollarVariable, cls), issubclass(LY.DollarNumber, cls)
        return a if a == b else (ISVAR(v.e) if a else z3.Not(ISVAR(v.e)))
    return SVal(e, kinds=kinds, truthy=lambda E, v: True, attrs={"__class__": type_, "str": lambda E, v: v})


def code(e):
    return SVal(e, truthy=lambda E, v: True, attrs={"blocks": lambda E, v: blocks_of(E, v.e)})


def blocks_of(E, c):
    key = ("blocks", c.get_id())
    if key not in E.ghost:
        E.ghost[key] = E.new(Blocks(E, c), site="blocks")
    return E.ghost[key]


def unwrap(v):
    return v.e if isinstance(v, SVal) and v.e.sort() == V else None


DEXP = coll.Dom("expression", V, expression, unwrap)
DBLOCK = coll.Dom("block", V, lambda e: block(None, e), unwrap)
DCODE = coll.Dom("code", V, code, unwrap)
DVAL = coll.Dom("value", V, value, unwrap)


def world(E):
    E.ghost["world"] = w = E.new(World(E), site="world")
    E.dom = E.vdom = DVAL
    return w


def unfold_args(E, b, s, k):
    """SB(b, s, k+1) is SB(b, s, k) after evaluating the k-th argument"""
    E.assume(SB(b, s, z3.IntVal(0)) == s)
    E.assume(z3.Implies(k >= 0, SB(b, s, k + 1) == NX(z3.Select(ARGS(b), k), SB(b, s, k))))


def block_start(E):
    """the state in which the block in question starts"""
    return E.ghost["block start"](E)


J = z3.Int("J")


def invariants(E, env, i, it):
    out = []
    w = E.ghost.get("world")
    if w is None or i is None:
        return out
    if isinstance(it, Args):
        s = block_start(E)
        unfold_args(E, it.b, s, i)
        unfold_args(E, it.b, s, i - 1)
        out.append(("the arguments are evaluated in order", w.state == SB(it.b, s, i)))
        for n, v in sorted(env.vars.items()):
            if isinstance(v, (PyList, coll.SeqV)) and not isinstance(v, (Args, Blocks)):
                x = coll.view_seq(E, v, DVAL)
                if x is not None:
                    out.append((n + " has a value for each", x[1] == i))
                    out.append((n + " has the values", z3.Implies(z3.And(0 <= J, J < i),
                                z3.Select(x[0], J) == EV(z3.Select(ARGS(it.b), J), SB(it.b, s, J)))))
    elif isinstance(it, Blocks):
        s = E.ghost["code start"](E)
        unfold_blocks(E, it.code, s, i - 1)
        out.append(("the blocks run in order", w.state == TB(it.code, s, i)))
    elif it is E.ghost.get("codes"):
        out.append(("the codes run in order", w.state == E.ghost["U"](i)))
    return out


def step(b, s):
    """the state after a block"""
    return z3.If(z3.And(KIND(b) == 0, z3.Not(ISVAR(LHS(b))), z3.Not(KNOWN(LHS(b), s))), s, AFTER(b, s))


KNOWN = z3.Function("variable_exists", V, ST, B_)


def unfold_blocks(E, c, s, k):
    E.assume(TB(c, s, z3.IntVal(0)) == s)
    b = z3.Select(BLOCKS(c), k)
    E.assume(z3.Implies(k >= 0, TB(c, s, k + 1) == step(b, TB(c, s, k))))


LOOPS = {"*": LoopSpec(invariants)}


# ------------------------------------------------------------------ contracts
def evaluate(E, args, kwargs):
    """ExecContext.evaluate(expression): the value, after the effects of the calls in it"""
    me, e = args

    def body():
        t = unwrap(e)
        if t is None:
            raise Unsupported("evaluate %r" % (e,))
        w = E.ghost["world"]
        r = value(EV(t, w.state))
        w.to(E, NX(t, w.state))
        return r
    return Coro(body, "evaluate")


def call_contract(E, args, kwargs):
    """execute_binding_call(name, inline, *values), in the block named"""
    from pyvc.engine import StarArgs

    def body():
        w = E.ghost["world"]
        t = unwrap(args[1]) if len(args) > 1 else None
        ok = t is not None and z3.is_app(t) and t.decl().eq(NAME)
        E.prove("the function called is the one named", ok and len(args) >= 3 and not kwargs)
        if not ok or len(args) < 3:
            raise Dead()
        b = t.arg(0)
        s = block_start(E)
        E.prove("the call is the one to run", b == E.ghost["this block"](E))
        inline = args[2]
        want = KIND(b) == 2
        E.prove("a plain call is of an inline function, any other of a method",
                want == inline if isinstance(inline, bool) else want == inline.e if isinstance(inline, SBool) else False)
        rest = args[3:]
        if len(rest) == 1 and isinstance(rest[0], StarArgs):
            x = coll.view_seq(E, rest[0].value, DVAL)
        else:
            x = coll.view_seq(E, tuple(rest), DVAL) if not any(isinstance(y, StarArgs) for y in rest) else None
        E.prove("the arguments are values", x is not None)
        if x is None:
            raise Dead()
        E.prove("it has as many arguments as the call", x[1] == NARGS(b))
        E.prove("each argument has the value of its expression", z3.Implies(z3.And(0 <= J, J < x[1]),
                z3.Select(x[0], J) == EV(z3.Select(ARGS(b), J), SB(b, s, J))))
        unfold_args(E, b, s, z3.IntVal(0))
        E.prove("it is called once, after its arguments were evaluated and before anything else",
                w.state == SB(b, s, NARGS(b)))
        w.to(E, AFTER(b, s))
        r = value(z3.Const(fresh_name("result"), V))
        E.ghost["called result"] = r
        E.cover("called")
        return r
    return Coro(body, "execute_binding_call")
