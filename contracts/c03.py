"""C03: actions run only after a complete, unambiguous match of the whole line."""
import z3

from nessaid_cli import interface as IF
from nessaid_cli import tokens as TK

from .tok import *
from . import ways as W
from .ways import *

LEVEL = "proof"
TRUSTED = ["asyncio", "print"]
ASSUMPTIONS = [
    "match and value of a token are functions of the token and the input while a line is matched (the cache: C12)",
    "the walk tree answers the tokens a line may begin with and, for a lookup token, those that may follow (C01); which "
    "lookup tokens follow which is left open, the end of the line is never the first of them",
    "two lists bound by one name across a loop head are read-only where the model cannot tell them apart"]


class Deciding:
    """the deciding stage: what is executed is one complete way, once, and only then is the result success"""
    def __init__(self, dry):
        self.dry = dry
        self.ran = []
        self.resolved, self.words = None, False

    def execute(self, E, a, k):
        def body():
            w, values = a[1], a[2]
            E.cover("executed")
            E.prove("nothing runs while a completion is looked for", self.dry is False)
            E.prove("one way is executed, once", not self.ran)
            self.ran.append(w)
            ok = isinstance(w, Way)
            E.prove("what is executed is a way to match", ok)
            if ok:
                E.prove("every token of it accepts its part of the line and is allowed there", GOOD(w.w))
                E.prove("it matches the whole line", LEN(w.w) == N)
                E.prove("the grammar may end after it", complete(w.w))
            if self.resolved is not None:
                E.cover("resolved")
                E.prove("an ambiguity is resolved to one way", self.resolved.n == 1)
            elif ok:
                E.cover("unambiguous")
                E.prove("no other way matches the line in full", z3.Implies(z3.And(HASW, complete(P(N))), w.w == P(N)))
            j = z3.Int("any value")
            ok = elems(values, DVAL)
            E.prove("the values of its tokens are passed", ok or values.items == [])
            E.point(j)
            if ok:
                E.prove("one value per token", values.n == N)
                E.prove("each value is the token's", z3.Implies(z3.And(0 <= j, j < N), z3.Select(values.arr, values.off + j)
                                                               == VAL(TOKEN(NAME(AT(w.w, j))), z3.Select(IN, j))))
            if E.choose(2, "raise@execution"):
                raise PyExc(E.new(UnkExc(BaseException, "execution")))
            return Unk("arguments afterwards")
        return coro("execute_success_sequence", body)

    def offered(self, E, a, k):
        return None


def spec_match(E):
    me, line = setup(E)
    dry = False
    G = Deciding(dry)
    E.contracts.update(W.contracts(G))
    ltc = fresh_bool("last_token_complete")
    inv = Inv(E, G)
    E.loops = {"*": inv.spec}
    k, r = invoke(E, me, "match", line, dry, ltc, None)
    E.prove("it ends with nothing executing", me.fields["_executing"] is False)
    if k == "exc":
        E.prove("only what an action raises escapes", isinstance(r, UnkExc))
        return
    res = r.fields["result"] if isinstance(r, Obj) else None
    E.prove("a result is reported", res in RESULTS)
    if G.ran:
        E.cover("success")
        E.prove("what was executed is a success", res == TK.MATCH_SUCCESS)
    else:
        E.cover("no success")
        E.prove("what was not executed is no success", res != TK.MATCH_SUCCESS)


def spec_fix(E):
    """fix_sequences: what is left of the ways are some of them, or it says that it cannot decide"""
    me, line = setup(E)
    G = Deciding(False)
    E.contracts.update(W.contracts(G))
    for n in ("fix_sequences", "append_matching_sequence"):
        del E.contracts[q(IF.CliInterface, n)]
    E.contracts[q(IF.CliInterface, "check_orderless_set_elements")] = same_set
    n = z3.Int("number of ways")
    E.assume(n > 1)
    given = E.new(VL.of(E, DWAY, z3.Const("ways", z3.ArraySort(I, WAY)), n, name="ways"), site="ways")
    E.assume(given.off == 0)
    E.scheme(WAY, lambda y: z3.Implies(z3.Select(given.mem, y), LEN(y) == N))
    mem, arr, pos = given.mem, given.arr, given.pos
    E.scheme(I, lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.Select(pos, z3.Select(arr, j)) == j))   # no way twice
    G.pair = p = Pair(E, given)
    E.loops = {"*": Inv(E, G).spec}
    k, r = invoke(E, me, "fix_sequences", given, line)
    if k == "exc":
        E.prove("it ends without an exception", False)
        return
    if isinstance(r, tuple):
        E.prove("a pair says that it cannot decide", len(r) == 2 and r[0] is False)
        return
    E.cover("ways")
    ok = elems(r, DWAY)
    E.prove("ways are the result", ok)
    if ok:
        j = E.point(z3.Int("any place"))
        E.prove("some way is left", r.n > 0)
        E.assume(z3.And(j >= 0, j < r.n))
        w = r.elem(E, j)
        E.prove("what is left was given", z3.Select(mem, w.w))
        if E.fork(r.n == 1, "one left"):
            E.cover("one left")
            E.prove("one way is preferred to another only if they are the same elements or it fits a word better", z3.Implies(
                w.w == p.way(p.J), z3.Or(p.BETTER, p.same(p.place))))


def spec_same(E):
    """check_orderless_set_elements: true only if all these lookup tokens are of one element"""
    me, line = setup(E)
    G = Deciding(False)
    E.loops = {"*": Inv(E, G).spec}
    x, y = [z3.Const(n, TOK) for n in ("one token", "another token")]
    for t in (x, y):
        E.point(t)
        E.point(ELEMENT(t))
    if E.choose(2, "a set or a list of tokens"):
        given = E.new(VS(E, DTOK, z3.Const("tokens", SET)), site="tokens")
        has = lambda t: z3.Select(given.mem, t)
        given.listed(E)
    else:
        given = VL.of(E, DTOK, z3.Const("tokens", z3.ArraySort(I, TOK)), z3.Int("number of tokens"), name="tokens")
        E.new(given, site="tokens")
        E.assume(given.off == 0)
        has = lambda t: z3.Select(given.mem, t)
    k, r = invoke_sync(E, me, "check_orderless_set_elements", given)
    E.prove("it ends without an exception", k == "ok")
    if k == "ok" and E.truth(r, "result"):
        E.cover("one element")
        E.prove("tokens said to be of one element are", z3.Implies(z3.And(has(x), has(y)), ELEMENT(x) == ELEMENT(y)))


def spec_append(E):
    """append_matching_sequence: the way is added to the list, and nothing else happens"""
    me, line = setup(E)
    G = Deciding(False)
    E.contracts.update(W.contracts(G))
    del E.contracts[q(IF.CliInterface, "append_matching_sequence")]
    E.contracts[q(IF.CliInterface, "check_orderless_set_elements")] = same_set
    n = z3.Int("number of ways")
    given = E.new(VL.of(E, DWAY, z3.Const("ways", z3.ArraySort(I, WAY)), n, name="ways"), site="ways")
    arr, off, w = given.arr, given.off, z3.Const("match", WAY)
    E.loops = {"*": Inv(E, G).spec}
    k, r = invoke_sync(E, me, "append_matching_sequence", given, E.new(Way(E, w), site="match"))
    E.prove("it ends without an exception", k == "ok")
    if k == "ok":
        E.cover("added")
        j = z3.Int("any place")
        E.prove("one way is added", given.n == n + 1)
        E.prove("it is the one given", z3.Select(given.arr, given.off + n) == w)
        E.prove("the others stay", z3.Implies(z3.And(0 <= j, j < n), z3.Select(given.arr, given.off + j) == z3.Select(arr, off + j)))


def units(tier):
    from . import c16
    dry = [u for u in c16.units(tier) if u.run is c16.spec_dry]
    return dry + [Unit("CliInterface.check_orderless_set_elements", spec_same, ["one element"], 1),
            Unit("CliInterface.match", spec_match, ["executed", "resolved", "unambiguous", "success", "no success"], 8),
            Unit("CliInterface.fix_sequences", spec_fix, ["ways", "one left"], 3),
            Unit("CliInterface.append_matching_sequence", spec_append, ["added"], 4)]
