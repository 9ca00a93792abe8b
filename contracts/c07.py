"""C07: every string survives the round trip through the command-line notation, and the notation is one token."""
import z3

from pyvc.values import *
from pyvc import words as W
from pyvc.unit import Unit, attempt
from . import lexing
from nessaid_cli import utils as U
from nessaid_cli.tokenizer import tokenizer as TZ

LEVEL = "proof"
TRUSTED = ["PLY builds the lexer from the rules of the class and applies them in order (the master pattern is read from the "
           "lexer it built)", "Python's re and str methods (the automata of pyvc.words)"]
ASSUMPTIONS = ["characters that no constant of the code mentions are treated alike by it (it compares with constants only)"]

_setup = []


def setup():
    if not _setup:
        lx = lexing.Lexer(extra=W.constants_of(U))
        _setup.append(lx.build())
    return _setup[0]


def world(E):
    lx = setup()
    s = lx.sigma
    quote = W.lang_prefix(s, '"') | W.lang_suffix(s, '"')
    base = W.Base(s, "string", quote.complement())
    return lx, base, E.new(W.Word(base))


def notation(E, w):
    k, r = attempt(E, lambda: E.call(U.convert_to_cli_string, [w], {}))
    E.prove("the conversion to the notation raises nothing", k == "ok")
    if k != "ok":
        raise Dead()
    E.prove("the notation is a string", isinstance(r, (W.Word, str)))
    return r


def text(E, r):
    return r.str_(E) if isinstance(r, W.Word) else str(r)


def back(E, x, what):
    k, v = attempt(E, lambda: E.call(U.convert_to_python_string, [x], {}))
    E.prove("%s raises nothing" % what, k == "ok")
    if k != "ok":
        raise Dead()
    return v


def spec_round(E):
    lx, base, w = world(E)
    r = notation(E, w)
    E.cover("quoted" if isinstance(r, W.Word) and r.tags.get("quoted") is True else "plain")
    W.prove_equal(E, "converting the notation back yields the string", back(E, r, "converting back"), w)


def spec_token(E):
    """the text of the notation alone determines the token and thereby the string: distinct strings have distinct notations"""
    lx, base, w = world(E)
    r = notation(E, w)
    t = text(E, r)
    if not E.truth(w):
        E.cover("empty")
        return
    for i, rule in enumerate(lx.rules):
        lang = W.cached(("single", id(lx), i), lambda: lx.single(i))
        inside = t.decide(E, lang, rule.name) if isinstance(t, W.Word) else lang.accepts(t)
        if not inside:
            continue
        tok = E.new(Obj(type("LexToken", (), {}), {"value": t, "lexpos": 0, "lineno": 1, "type": rule.kind}))
        k, v = attempt(E, lambda: E.call(lexing.rule_function(lx, rule), [E.new(Obj(TZ.NessaidCliTokenizerLexer, {})), tok], {}))
        E.prove("the rule of the lexer accepts the notation", k == "ok" and v is tok)
        if k != "ok":
            return
        v = tok.fields["value"]
        E.cover("quoted" if isinstance(v, W.Word) and v.tags.get("quoted") is True else "plain")
        W.prove_equal(E, "the token of the notation denotes the string", back(E, tok.fields["value"], "reading the token"), w)
        return
    if isinstance(t, W.Word):
        d = t.base.dom.witness()
        W.settle(E, "the notation is a single token", d, {"string": d})
    else:
        E.prove("the notation is a single token", False)


def units(tier):
    return [Unit("notation and back", spec_round, ["quoted", "plain"], 4),
            Unit("notation as a token", spec_token, ["plain", "quoted", "empty"], 5)]
