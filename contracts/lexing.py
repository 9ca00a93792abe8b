"""The tokenizer's lexer as PLY built it: the compiled master pattern and the rule functions, taken from the object the real
code constructs on every run."""
import re

from pyvc import real  # noqa
from pyvc import words as W
from pyvc.values import *
from nessaid_cli.tokenizer import tokenizer as TZ

K = re._constants


class Rule:
    def __init__(self, name, func, kind, items):
        self.name, self.func, self.kind, self.items = name, func, kind, items


class Lexer:
    """PLY's semantics (trusted): characters of `ignore` are skipped; otherwise the first rule, in order, whose pattern
    matches at the position gives the token, with the text and the position of the match; without one it is an error"""
    def __init__(self, owner=None, extra=()):
        self.owner = owner if owner is not None else TZ.NessaidCliTokenizerLexer()
        lx = self.owner.lexer
        self.states = list(lx.lexstatere)
        self.ignore = lx.lexstateignore.get("INITIAL", "")
        self.errorf = lx.lexstateerrorf.get("INITIAL")
        self.rules = []
        for rx, index in lx.lexstatere["INITIAL"]:
            names = {v: k for k, v in rx.groupindex.items()}
            tree = re._parser.parse(rx.pattern, rx.flags & ~re.DEBUG)
            alts = None
            if len(tree) == 1 and tree[0][0] is K.BRANCH:
                alts = [list(a) for a in tree[0][1][1]]
            else:
                alts = [list(tree)]
            for a in alts:
                # PLY groups every rule: (?P<t_NAME>...)
                if len(a) != 1 or a[0][0] is not K.SUBPATTERN or a[0][1][0] not in names:
                    raise Unsupported("shape of the master pattern")
                g = a[0][1][0]
                func, kind = index[g]
                self.rules.append(Rule(names[g], func, kind, list(a[0][1][3])))
                self.flags = rx.flags
        chars = set(self.ignore) | set(extra)
        for r in self.rules:
            chars |= W.regex_chars(r.items)
        self.sigma = W.alphabet(chars)

    def build(self):
        s = self.sigma
        self.match = [W.match_dfa(r.items, self.flags, s) for r in self.rules]
        ok = W.lang_without(s, W.MARK)
        # some prefix of the word matches
        self.some = [W.DFA(s, 0 if not m.acc[0] else -1,
                           lambda q, c, m=m: q if q == -1 or c == W.MARK else (-1 if m.acc[m.d[q][c]] else m.d[q][c]),
                           lambda q: q == -1) for m in self.match]
        self.split = [W.split_language(m, s) for m in self.match]
        return self

    def first(self, i):
        """{u MARK v: at the beginning of uv the lexer takes rule i, with the text u}"""
        r = self.split[i]
        for j in range(i):
            r = r - self.some[j]
        ig = self.ignore
        begins = W.DFA(self.sigma, 0, lambda q, c: q if q else (2 if c in ig else 1), lambda q: q == 2)
        return (r - begins).minimal()

    def single(self, i):
        """{w: w is a single token, of rule i}"""
        f = self.first(i)
        return W.DFA(self.sigma, 0, lambda q, c: -1 if q == -1 or c == W.MARK else f.d[q][c],
                     lambda q: q != -1 and f.acc[f.d[q][W.MARK]]).minimal()

    def nothing(self):
        """{w: no rule matches at the beginning of w, and it is not skipped} (w not empty)"""
        s = self.sigma
        r = W.lang_nonempty(s) & W.lang_without(s, W.MARK)
        for x in self.some:
            r = r - x
        ig = self.ignore
        return r - W.DFA(s, 0, lambda q, c: q if q else (2 if c in ig else 1), lambda q: q == 2)


def rule_function(lexer, rule):
    f = rule.func
    return getattr(f, "__func__", f)
