"""C08: tokenizing a line loses, invents and reorders nothing."""
import z3

from pyvc.values import *
from pyvc import coll
from pyvc import words as W
from pyvc.unit import Unit, attempt
from pyvc.coll import DV
from . import lexing
from .tok import invoke_sync, method
from nessaid_cli import cli as CL
from nessaid_cli.tokenizer import tokenizer as TZ

LEVEL = "proof"
TRUSTED = ["PLY applies the rules of the lexer in order at each position and the actions of the productions bottom-up; the "
           "parser accepts every sequence of tokens (its tables are PLY's)", "Python's re (the automata of pyvc.words)"]
ASSUMPTIONS = ["characters that no constant of the lexer mentions are treated alike by it"]

BLANKS = " \t"
ESCAPES = '\\0nrtbva"'
STOPS = "\n\r\t\0"             # characters that end a quoted token: notation has escapes for them
_setup = []


def setup():
    if not _setup:
        lx = lexing.Lexer(extra=W.constants_of(TZ) | set(BLANKS + ESCAPES + STOPS + '"')).build()
        first = [lx.first(i) for i in range(len(lx.rules))]
        _setup.append((lx, first, specification(lx)))
    return _setup[0]


def specification(lx):
    """languages of u MARK v: the token u with the rest v of the line, by the flags (quoted, incomplete) of the token"""
    s = lx.sigma
    bad = lx.nothing()

    def plain(q, c):
        # 0 start, 1 in u, 2 after MARK, 3 rest, -1 dead; the rest may begin with what nothing accepts: joined below
        if q in (0, 1):
            if c == W.MARK:
                return 2 if q else -1
            return -1 if c in BLANKS + '"' else 1
        if c == W.MARK or q == -1:
            return -1
        return 3 if q == 3 or c in BLANKS + '"' else -1

    ends = W.DFA(s, 0, plain, lambda q: q in (2, 3))
    shape = W.DFA(s, 0, lambda q, c: (plain(q, c) if q in (0, 1) else -1 if c == W.MARK else q), lambda q: q == 2)
    rest_bad = W.DFA(s, "u", lambda q, c: (("u" if c != W.MARK else ("v", 0)) if q == "u" else
                                           "dead" if q == "dead" or c == W.MARK else ("v", bad.d[q[1]][c])),
                     lambda q: isinstance(q, tuple) and bad.acc[q[1]])

    def scan(q, c):
        """a quoted token up to its closing quote: 0 start, 1 inside, 2 after a backslash, 3 closed, -1 no token"""
        if q == 0:
            return 1 if c == '"' else -1
        if q == 1:
            return 3 if c == '"' else 2 if c == "\\" else -1 if c in STOPS else 1
        if q == 2:
            return 1 if c in ESCAPES else -1
        return -1

    def quoted(q, c):
        if q == "rest":
            return q if c != W.MARK else -1
        if c == W.MARK:
            return "rest" if q == 3 else -1
        return scan(q, c)

    def incomplete(q, c):
        # the quote is not closed before the line ends or a character that cannot stand there; all up to that is the token
        if q == "rest":
            return q if c != W.MARK else -1
        if isinstance(q, tuple):
            q = q[0]
            if c == W.MARK or scan(q, c) != -1:
                return -1
            return "rest"
        if c == W.MARK:
            return (q,) if q in (1, 2) else -1
        q = scan(q, c)
        return -1 if q == 3 else q
    return {(False, False): (ends | (shape & rest_bad)).minimal(),
            (True, False): W.DFA(s, 0, quoted, lambda q: q == "rest").minimal(),
            (True, True): W.DFA(s, 0, incomplete, lambda q: q == "rest" or isinstance(q, tuple)).minimal()}


def flag(v, name):
    f = v.tags.get(name, False)
    return f if isinstance(f, bool) else None


def spec_rules(E):
    lx, first, spec = setup()
    E.prove("blanks, and nothing else, are skipped between tokens", set(lx.ignore) == set(BLANKS))
    E.prove("there is one lexer state", lx.states == ["INITIAL"])
    i = E.choose(len(lx.rules), "rule")
    rule = lx.rules[i]
    E.cover("rule %d" % i)
    text = E.new(W.Word(W.Base(lx.sigma, "text")))
    at = fresh_int("lexpos")
    E.assume(at.e >= 0)
    tok = E.new(Obj(type("LexToken", (), {}), {"value": text, "lexpos": at, "lineno": 1, "type": rule.kind}))
    k, r = attempt(E, lambda: E.call(lexing.rule_function(lx, rule),
                                     [E.new(Obj(TZ.NessaidCliTokenizerLexer, {})), tok], {}))
    E.prove("the rule raises nothing", k == "ok")
    if k != "ok":
        return
    E.prove("the rule yields its token", r is tok)
    v = tok.fields["value"]
    E.prove("the token is a string with its position", isinstance(v, W.Word) and v.cls is not str)
    if not isinstance(v, W.Word):
        return
    W.prove_equal(E, "the token is the text that was matched", v, text)
    E.prove("the token's position is where it was matched",
            isinstance(v.tags.get("lexpos"), SInt) and v.tags["lexpos"].e == at.e)
    n = v.tags.get("lexlen")
    E.prove("the token's length is that of its text", isinstance(n, W.WordLen) and n.w.base is text.base and
            W.differ(n.w.fst, text.fst, text.base.dom) is None)
    fl = (flag(v, "quoted"), flag(v, "quote_incomplete"))
    E.prove("the token is plain, quoted, or quoted and incomplete", fl in spec)
    if fl in spec:
        E.cover("flags %s" % (fl,))
        W.prove_subset(E, "what the token takes from the line, by its flags", first[i], spec[fl])


def spec_error(E):
    lx = setup()[0]
    f = lx.errorf
    E.prove("the lexer has an error rule", f is not None)
    rest = fresh_str("rest")
    E.assume(rest.e != z3.StringVal(""))
    tok = E.new(Obj(type("LexToken", (), {}), {"value": rest, "lexpos": fresh_int("p"), "type": "error"}))
    k, r = attempt(E, lambda: E.call(getattr(f, "__func__", f), [E.new(Obj(TZ.NessaidCliTokenizerLexer, {})), tok], {}))
    E.prove("an illegal character is never skipped", k == "exc" and isinstance(r, Obj) and
            issubclass(r.cls, TZ.TokenizerIllegalCharError))


# ------------------------------------------------------------------ the actions of the grammar
def classes(prods, terminals):
    """what a symbol of the grammar stands for: 'item' one token, 'nil' nothing, 'list' the tokens derived from it"""
    cls = {t: "item" for t in terminals}
    by = {}
    for p in prods:
        by.setdefault(p.name, []).append(p)
    changed = True
    while changed:
        changed = False
        for n, ps in by.items():
            if n in cls:
                continue
            if all(len(p.prod) == 0 for p in ps):
                cls[n] = "nil"
            elif all(len(p.prod) == 1 and cls.get(p.prod[0]) == "item" for p in ps):
                cls[n] = "item"
            else:
                continue
            changed = True
    return {n: cls.get(n, "list") for n in list(by) + list(terminals)}


class Production(Model):
    def __init__(self, items):
        super().__init__()
        self.items = items

    def getitem(self, E, i):
        if not isinstance(i, int):
            raise Unsupported("index of a production")
        return self.items[i]

    def setitem(self, E, i, v):
        self.items[i] = v

    def len_(self, E):
        return len(self.items)

    def truth(self, E):
        return True

    def havoc(self, E):
        pass

    def isinstance_(self, E, cls):
        return False

    def getattr(self, E, name):
        return Unk(name)


def spec_actions(E):
    tz = TZ.NessaidCliTokenizer()
    prods = [p for p in tz.parser.productions if p.name != "S'"]
    start = [p for p in tz.parser.productions if p.name == "S'"][0].prod[0]
    terminals = {x for p in prods for x in p.prod} - {p.name for p in prods}
    cls = classes(prods, terminals)
    E.prove("every token of the lexer is in the grammar", {r.kind for r in setup()[0].rules} <= terminals)
    E.prove("a line is a list of tokens", cls[start] == "list")
    p = prods[E.choose(len(prods), "production")]
    E.cover(str(p))
    vals, pieces = [None], []
    for y in p.prod:
        if cls[y] == "nil":
            vals.append(None)
        elif cls[y] == "item":
            a = fresh_val(y)
            vals.append(a)
            pieces.append(("item", a.e))
        else:
            q = E.new(coll.SeqV(E, DV, name="tokens"))
            vals.append(q)
            pieces.append(("list", q.arr, q.n))
    t = E.new(Production(vals))
    k, r = attempt(E, lambda: E.call(getattr(p.callable, "__func__", p.callable), [E.new(Obj(TZ.NessaidCliTokenizer, {})), t], {}))
    E.prove("the action raises nothing: %s" % p, k == "ok")
    if k != "ok":
        return
    v = t.items[0]
    want = cls[p.name]
    if want == "nil":
        E.prove("nothing for nothing: %s" % p, v is None)
    elif want == "item":
        E.prove("the token itself: %s" % p, isinstance(v, SVal) and v.e == pieces[0][1])
    else:
        got = coll.view_seq(E, v, DV) if isinstance(v, (PyList, coll.SeqV)) else None
        E.prove("a list: %s" % p, got is not None)
        if got is None:
            return
        arr, n = got[0], got[1]
        at = z3.IntVal(0)
        j = z3.Int(fresh_name("j"))
        for x in pieces:
            if x[0] == "item":
                E.prove("the tokens in order: %s" % p, z3.Select(arr, at) == x[1])
                at = at + 1
            else:
                E.prove("the tokens in order: %s" % p,
                        z3.Implies(z3.And(j >= 0, j < x[2]), z3.Select(arr, at + j) == z3.Select(x[1], j)))
                at = at + x[2]
        E.prove("no token more or less: %s" % p, n == at)


# ------------------------------------------------------------------ errors
def yacc_parse(E, args, kwargs):
    """PLY's parser: the tokens of the line, or the exceptions of the lexer's error rule"""
    c = E.choose(3, "parse")
    E.ghost["parsed"] = c
    if c == 0:
        E.ghost["tokens"] = E.new(coll.SeqV(E, DV, name="tokens"))
        return E.ghost["tokens"]
    raise PyExc(E.new(Obj([TZ.TokenizerIllegalCharError, TZ.TokenizerSyntaxError][c - 1],
                          {"token": fresh_str("token"), "args": ("?",)})))


class PlyParser(Model):
    def getattr(self, E, name):
        if name == "parse":
            def parse(E2, a, k):
                E2.prove("the line is given to the parser as it is", len(a) >= 1 and a[0] is E2.ghost["line"])
                return yacc_parse(E2, a, k)
            return Builtin("parse", parse)
        return Unk(name)

    def truth(self, E):
        return True

    def havoc(self, E):
        pass


def tokenizer(E):
    o = E.new(Obj(TZ.NessaidCliTokenizer, {"_parser": E.new(PlyParser()), "_lexer": E.new(Obj(TZ.NessaidCliTokenizerLexer,
                                                                                             {"_lexer": Unk("lexer")})),
                                           "_stdin": None, "_stdout": None, "_stderr": None}))
    E.ghost.update(line=fresh_str("line"), parsed=None, tokens=None, told=0)
    return o


def spec_parse(E):
    o = tokenizer(E)
    k, r = invoke_sync(E, o, "parse", E.ghost["line"])
    if E.ghost["parsed"] == 0:
        E.cover("tokens")
        E.prove("the tokens of the line are the result", k == "ok" and r is E.ghost["tokens"])
    else:
        E.cover("error")
        E.prove("a line that is not accepted is an error", k == "exc" and isinstance(r, Obj) and
                issubclass(r.cls, TZ.TokenizerException))


def error_contract(E, args, kwargs):
    E.ghost["told"] += 1
    return None


def make_tokenizer(E, args, kwargs):
    return E.ghost["tokenizer"]


def spec_tokenize(E):
    o = tokenizer(E)
    E.ghost["tokenizer"] = o
    k, r = attempt(E, lambda: E.call(TZ.tokenize, [E.ghost["line"]], {}))
    E.prove("tokenize raises nothing", k == "ok")
    if E.ghost["parsed"] == 0:
        E.cover("tokens")
        E.prove("the tokens of the line are the result", r is E.ghost["tokens"])
        E.prove("no error is reported for a line that is accepted", E.ghost["told"] == 0)
    else:
        E.cover("error")
        E.prove("a line that is not accepted is reported", E.ghost["told"] >= 1)
        E.prove("a line that is not accepted yields no tokens", isinstance(r, PyList) and not r.items)


def spec_cli(E):
    o = tokenizer(E)
    me = E.new(Obj(CL.NessaidCli, {"_nessaid_tokenizer": o}))
    E.assume(E.ghost["line"].e != z3.StringVal("\n"))
    k, r = invoke_sync(E, me, "tokenize", E.ghost["line"])
    E.prove("NessaidCli.tokenize raises nothing", k == "ok")
    if k != "ok":
        return
    E.prove("success, error and tokens", isinstance(r, tuple) and len(r) == 3)
    if not (isinstance(r, tuple) and len(r) == 3):
        return
    if E.ghost["parsed"] == 0:
        E.cover("tokens")
        E.prove("success with the tokens of the line", r[0] is True and r[1] is None and r[2] is E.ghost["tokens"])
    else:
        E.cover("error")
        E.prove("failure, a message and no tokens", r[0] is False and r[1] is not None and
                (isinstance(r[2], PyList) and not r[2].items or r[2] == ()))


def units(tier):
    q = "nessaid_cli.tokenizer.tokenizer:"
    con = {q + "NessaidCliTokenizer": make_tokenizer, "nessaid_cli.utils:StdStreamsHolder.error": error_contract,
           "nessaid_cli.utils:StdStreamsHolder.print": lambda E, a, k: None}
    three = ["flags (False, False)", "flags (True, False)", "flags (True, True)"]
    return [
        Unit("rules of the lexer", spec_rules, three, 9),
        Unit("error rule", spec_error, [], 2),
        Unit("actions of the grammar", spec_actions, [], 15),
        Unit("NessaidCliTokenizer.parse", spec_parse, ["tokens", "error"], 2, contracts={k: v for k, v in con.items() if "utils" in k}),
        Unit("tokenize", spec_tokenize, ["tokens", "error"], 5, contracts=con),
        Unit("NessaidCli.tokenize", spec_cli, ["tokens", "error"], 4, contracts=con),
    ]
