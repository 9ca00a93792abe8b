"""C01: a command line is accepted exactly when it is a sentence of the grammar."""
import z3

from nessaid_cli import interface as IF
from nessaid_cli import tokens as TK

from .tok import *
from . import ways as W
from .ways import *

LEVEL = "proof"
TRUSTED = ["asyncio", "print", "PLY runs the actions of the productions bottom-up"]
ASSUMPTIONS = [
    "keywords none of which begins another: a token accepts a word in full or not at all",
    "a token that does not end the grammar is followed by at least one lookup token",
    "what a child begins with and which may be empty is what the child's own class says (its contract): the induction over "
    "the depth of the grammar is the reader's, as is that match asks next() of every way"]


class Accepting:
    """the whole line is matched in the ways the grammar allows"""
    def __init__(self):
        self.words, self.resolved, self.ran, self.asked = True, None, [], 0

    def execute(self, E, a, k):
        def body():
            w = a[1]
            ok = isinstance(w, Way)
            E.prove("a way is executed", ok)
            if ok:
                E.prove("a success is a way to match the whole line", z3.And(GOOD(w.w), LEN(w.w) == N, complete(w.w)))
            self.ran.append(w)
            return Unk("arguments afterwards")
        return coro("execute_success_sequence", body)

    def offered(self, E, a, k):
        self.asked += 1
        s = a[3]
        ok = isinstance(s, VS) and s.dom in (None, DOBJ)
        E.prove("tokens are offered", ok)
        if ok:
            E.cover("offered")
            y = E.point(z3.Const("any offered", OBJ))
            E.prove("what is offered may follow the line", z3.Implies(sel(s.mem, y), OFFER(y)))
            E.prove("what may follow the line is offered", z3.Implies(
                z3.And(HASW, z3.Select(NX(LAST(P(N))), Q), Q != EOI), sel(s.mem, TOKEN(NAME(Q)))))
            E.prove("the end is offered where the line is complete", z3.Implies(
                z3.And(HASW, complete(P(N))), sel(s.mem, NO_TOKEN)))


def spec_match(E):
    me, line = setup(E, words=True)
    G = Accepting()
    E.contracts.update(W.contracts(G))
    E.loops = {"*": Inv(E, G).spec}
    k, r = invoke(E, me, "match", line, False, True, None)
    E.prove("it ends without an exception", k == "ok")
    if k != "ok":
        return
    res = r.fields["result"]
    sentence = z3.And(HASW, complete(P(N)))
    if res == TK.MATCH_SUCCESS or res == TK.MATCH_AMBIGUOUS:
        E.cover("accepted")
        E.prove("what is accepted is a sentence", bool(self_ran(G)))
    else:
        E.prove("a sentence is accepted", z3.Not(sentence))
    if res == TK.MATCH_PARTIAL:
        E.cover("partial")
        E.prove("a partial line begins a sentence", E.some(WAY, lambda w: z3.And(LEN(w) == N, GOOD(w))))
    if res == TK.MATCH_FAILURE:
        E.cover("failure")
        E.prove("a line that begins a sentence is no failure", z3.Not(HASW))
    else:
        E.prove("tokens are offered once", G.asked == 1)
    E.prove("a result is reported", res in (TK.MATCH_SUCCESS, TK.MATCH_AMBIGUOUS, TK.MATCH_PARTIAL, TK.MATCH_FAILURE))


def self_ran(G):
    return G.ran or G.resolved is not None


def units(tier):
    from . import trees, build
    from . import c03
    lists = [u for u in c03.units(tier) if u.name in ("CliInterface.fix_sequences", "CliInterface.append_matching_sequence")]
    from . import follow
    return trees.units() + build.units() + follow.units() + lists + [Unit("CliInterface.match", spec_match, ["accepted", "partial", "failure", "offered"], 8)]
