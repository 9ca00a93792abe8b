"""The actions of the grammar's productions build the elements the rule denotes (C01)."""
import z3

from nessaid_cli import compiler as CO
from nessaid_cli import elements as EL

from pyvc.engine import LoopSpec
from pyvc.vlist import VL
from .tok import *
from .c08 import Production
from .c15 import q
from .trees import ELEM, DELEM, elem, base, element

P = CO.NessaidCliParser
J = z3.Int("any place")


def atom(name):
    return elem(None, z3.Const(name, ELEM))


def seq(E, name, cls=list):
    n = z3.Int("length of " + name)
    E.assume(n >= 1)
    v = E.new(VL.of(E, DELEM, z3.Const(name, z3.ArraySort(z3.IntSort(), ELEM)), n, name=name), site=name)
    E.assume(v.off == 0)
    v.cls, v.frozen = cls, cls is tuple
    return v


def parts_of(E, v):
    """(array, offset, length) of a list or tuple of elements"""
    if isinstance(v, (tuple, PyList)):
        v = VL.display(E, list(v) if isinstance(v, tuple) else v.items)
    if not isinstance(v, VL) or v.dom is None:
        return None
    return v.arr, v.off, v.n


def consists(E, name, v, *want):
    """v holds these pieces in order: atoms and (array, offset, length)"""
    got = parts_of(E, v)
    E.prove("%s: elements" % name, got is not None)
    if got is None:
        return
    arr, off, n = got
    at = z3.IntVal(0)
    E.point(J)
    E.point(off + J)
    for w in want:
        if isinstance(w, SVal):
            E.point(z3.simplify(off + at))
            E.prove("%s: in order" % name, z3.Select(arr, off + at) == w.e)
            at = at + 1
        else:
            a, o, m = w
            E.point(z3.simplify(off + at + J))
            E.prove("%s: in order" % name, z3.Implies(z3.And(0 <= J, J < m), z3.Select(arr, off + at + J) == z3.Select(a, o + J)))
            at = at + m
    E.prove("%s: no more and no less" % name, n == at)


def plain(E, name, x, cls):
    ok = isinstance(x, Obj) and x.cls is cls
    E.prove("%s: the kind of element written" % name, ok)
    if ok:
        E.prove("%s: once" % name, B.zint(x.fields["_repeat_count"]) == 1)
        E.prove("%s: without actions of its own" % name, x.fields["_pre_match_binding"] == () and x.fields["_post_match_binding"] == ())
    return ok


def is_elem(x, e):
    return isinstance(x, SVal) and x.e.sort() == ELEM and x.e == e.e


def run(E, fn, items, name):
    o = E.new(Obj(P, {"_grammar_spec": E.new(Obj(EL.GrammarSpecification, {}, "spec"), site="spec"), "binding_parser": Unk("binding parser")}))
    p = E.new(Production([None] + items))
    k, r = attempt(E, lambda: E.call(fn, [o, p], {}))
    E.prove("%s: it answers" % name, k == "ok")
    return p.items[0] if k == "ok" else None


def spec_build(E):
    base(E)
    E.loops = {"*": lambda E, s, env, it: LoopSpec(lambda E, env, i, it: [])}
    a, b = atom("first"), atom("second")
    n = ["sequence", "set", "alternatives", "more alternatives", "list", "longer list", "members", "more members",
         "parentheses", "rule", "rule without actions", "term without actions"][E.choose(12, "production")]
    E.cover(n)
    if n == "sequence" or n == "set":
        cls = EL.SequenceInputElement if n == "sequence" else EL.OrderlessSetInputElement
        v = seq(E, "units", list if n == "sequence" else tuple)
        w = (v.arr, v.off, v.n)
        x = run(E, P.p_unit_term if n == "sequence" else P.p_unit_orderless_set, [v], n)
        if isinstance(x, SVal):
            E.prove("%s: one unit stands for itself" % n, z3.And(w[2] == 1, is_elem(x, SVal(z3.Select(w[0], w[1])))))
        elif x is not None and plain(E, n, x, cls):
            consists(E, n, x.fields["_value"], w)
    elif n == "alternatives":
        x = run(E, P.p_rule_or_rule, [a, "|", b], n)
        if x is not None and plain(E, n, x, EL.AlternativeInputElement):
            consists(E, n, x.fields["_value"], a, b)
    elif n == "more alternatives":
        alt = element(E, EL.AlternativeInputElement)
        v = alt.fields["_value"]
        v.cls = tuple
        E.assume(v.n >= 2)
        w = (v.arr, v.off, v.n)
        x = run(E, P.p_alternatives_or_rule, [alt, "|", b], n)
        if x is not None and plain(E, n, x, EL.AlternativeInputElement):
            consists(E, n, x.fields["_value"], w, b)
    elif n == "list":
        consists(E, n, run(E, P.p_term_sequence_unit, [a], n), a)
    elif n == "longer list":
        v = seq(E, "terms")
        w = (v.arr, v.off, v.n)
        consists(E, n, run(E, P.p_term_sequence, [v, b], n), w, b)
    elif n == "members":
        consists(E, n, run(E, P.p_minimal_orderless_set, [a, ",", b], n), a, b)
    elif n == "more members":
        v = seq(E, "members", tuple)
        w = (v.arr, v.off, v.n)
        consists(E, n, run(E, P.p_orderless_set, [v, ",", b], n), w, b)
    elif n == "parentheses":
        E.prove("parentheses only group", is_elem(run(E, P.p_parenthesised_rule, ["(", a, ")"], n), a))
    elif n == "rule":
        E.prove("a rule is its unit", is_elem(run(E, P.p_rule, [a], n), a))
    elif n == "rule without actions":
        E.prove("the unit itself", is_elem(run(E, P.p_rule_with_binding, [None, a], n), a))
    else:
        E.prove("the term itself", is_elem(run(E, P.p_term_with_binding, [a, None], n), a))


def spec_word(E):
    """a word of the rule is the keyword, the grammar or the token of that name"""
    base(E)
    fn, items, quoted = [(P.p_term_identifier, lambda x, h: [x], False),
                         (P.p_term_identifier_with_args, lambda x, h: [x, "[", E.new(PyList([]), site="arguments"), "]"], False),
                         (P.p_term_identifier_with_help, lambda x, h: [x, ":", h], False),
                         (P.p_term_quoted_string, lambda x, h: [x], True),
                         (P.p_term_quoted_string_with_help, lambda x, h: [x, ":", h], True)][E.choose(5, "production")]
    name = fresh_str("word")
    known = E.choose(3, "what the name is defined as")
    grammar = E.new(Obj(EL.NamedGrammar, {"_name": name, "_param_list": E.new(PyList([]), site="parameters"), "_value": Unk("rule")}), site="grammar")
    asked = []

    def get(kind, value):
        def f(E, a, k):
            E.prove("the name written is looked up", same_text(a[1], name))
            return value if known == kind else None
        return f
    E.contracts[q(EL.GrammarSpecification, "get_grammar")] = get(1, grammar)
    E.contracts[q(EL.GrammarSpecification, "get_tokendef")] = get(2, E.new(Obj(EL.TokenClassDef, {"_classname": fresh_str("class"), "_arglist": Unk("arguments")}), site="token definition"))
    E.contracts[q(EL.GrammarSpecification, "add_unresolved_element")] = lambda E, a, k: asked.append(a[1])
    x = run(E, fn, items(name, fresh_str("help")), fn.__name__)
    if not isinstance(x, Obj):
        return
    f = fn.__name__
    E.cover(f)
    E.prove("%s: once" % f, B.zint(x.fields["_repeat_count"]) == 1)
    if quoted:
        E.prove("a quoted text is a word", issubclass(x.cls, (EL.ConstantInputElement, EL.KeywordInputElement)))
    elif known == 1 and fn is not P.p_term_identifier_with_help:
        E.prove("the name of a grammar refers to it", x.cls is EL.GrammarRefElement and x.fields["_value"] is grammar)
        return
    elif known == 2 and fn is not P.p_term_identifier_with_args:
        E.prove("the name of a token is the token", issubclass(x.cls, EL.KeywordInputElement))
    else:
        E.prove("an unknown name stays unresolved", x.cls is EL.UnresolvedInputElement and asked == [x])
    E.prove("%s: the word written" % f, same_text(x.fields["_value"], name))


def same_text(a, b):
    return isinstance(a, SStr) and a.e == b.e


def units():
    return [Unit("grammar actions", spec_build, ["sequence", "set", "alternatives", "more alternatives", "list", "longer list",
                                                 "members", "more members", "parentheses", "rule", "rule without actions",
                                                 "term without actions"], 3),
            Unit("words of a rule", spec_word, ["p_term_identifier", "p_term_identifier_with_args", "p_term_identifier_with_help",
                                                "p_term_quoted_string", "p_term_quoted_string_with_help"], 3)]
