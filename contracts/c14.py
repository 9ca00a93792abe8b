"""C14: script lines run once, in order, with comments and continuations handled.

The open files are a stack of lists of lines, of any depth and any lengths; what is left of a list is a position and a
length.  The command loop is cut at an invariant: what it kept of earlier lines is the text that is pending."""
import ast
import inspect
import textwrap

import z3

from nessaid_cli import cmd as CM
from nessaid_cli import cli as CL

from pyvc import words as W
from pyvc.engine import LoopSpec, Coro
from .tok import *
from . import c15
from .c15 import q, unknown_call, unknown_coroutine, quiet_call

LEVEL = "proof"
TRUSTED = ["readlines() gives the lines of a file in order", "the editor gives each typed line once"]
ASSUMPTIONS = ["code of the application does not touch the lists of lines and the private state of the line being joined",
               "tokenize raises nothing and gives no tokens for a line it does not accept (C08)", "hooks that decide what is "
               "continued or a comment are not overridden"]

I = z3.IntSort()
LINE = z3.Function("line", I, I, z3.StringSort())      # of a list, at a position
J = z3.Int("J")                                        # any level of the stack


class Files(Model):
    """the stack: depth, and of each level what is left: position and length"""
    def __init__(self, E):
        super().__init__()
        self.n = z3.Int("depth")
        self.off, self.len = z3.Array("position", I, I), z3.Array("length", I, I)
        self.n0, self.off0, self.len0 = self.n, self.off, self.len
        self.pushed = ()
        self.ok(E)

    def ok(self, E):
        E.assume(self.n >= 0)
        for k in (J, self.n - 1):
            E.assume(z3.And(z3.Select(self.len0, k) >= 0))

    def put(self, E, **kw):
        E.note_write(self)
        for k, v in kw.items():
            setattr(self, k, v)

    def havoc(self, E):
        self.n = z3.Int(fresh_name("depth"))
        self.off, self.len = z3.Array(fresh_name("position"), I, I), z3.Array(fresh_name("length"), I, I)
        E.assume(z3.Select(self.len0, self.n - 1) >= 0)

    def truth(self, E):
        return self.n > 0

    def len_(self, E):
        return SInt(self.n)

    def level(self, E, i):
        k = i if isinstance(i, int) else i.e if isinstance(i, SInt) else None
        if k is None or isinstance(i, bool):
            raise Unsupported("index of the open files")
        neg = k < 0 if isinstance(k, int) else None
        if neg is None:
            neg = E.fork(k < 0, "negative")
        k = z3.simplify(self.n + k) if neg else z3.IntVal(k) if isinstance(k, int) else k
        if not E.fork(z3.And(k >= 0, k < self.n), "open file"):
            E.raise_(IndexError, "open files")
        E.assume(z3.Select(self.len0, k) >= 0)
        return k

    def getitem(self, E, i):
        return E.new(Level(self, self.level(E, i)))

    def delitem(self, E, i):
        self.drop(E, i)

    def drop(self, E, i):
        k = self.level(E, i)
        if not E.entails(k == self.n - 1):
            raise Unsupported("a file below the top is dropped")
        self.put(E, n=z3.simplify(self.n - 1))
        return E.new(Level(self, k))

    def getattr(self, E, name):
        if name == "pop":
            return Builtin("pop", lambda E2, a, k: self.drop(E2, a[0] if a else -1))
        if name == "append":
            def append(E2, a, k):
                m = fresh_int("lines").e
                E2.assume(m >= 0)
                self.put(E2, len=z3.Store(self.len, self.n, m), off=z3.Store(self.off, self.n, z3.IntVal(0)),
                         n=self.n + 1, pushed=self.pushed + (a[0],))
            return Builtin("append", append)
        raise Unsupported("open files .%s" % name)

    def isinstance_(self, E, cls):
        return issubclass(list, cls)

    def is_none(self, E):
        return False


class Level(Model):
    """what is left of one file"""
    def __init__(self, files, k):
        super().__init__()
        self.f, self.k = files, k

    def left(self):
        return z3.Select(self.f.len, self.k)

    def truth(self, E):
        return self.left() > 0

    def len_(self, E):
        return SInt(self.left())

    def first(self, E):
        if not E.fork(self.left() > 0, "a line is left"):
            E.raise_(IndexError, "pop from empty list")
        return SStr(LINE(self.k, z3.Select(self.f.off, self.k)))

    def take(self, E, i):
        if i != 0 or isinstance(i, bool):
            raise Unsupported("a line taken from elsewhere than the front")
        r = self.first(E)
        f = self.f
        f.put(E, off=z3.Store(f.off, self.k, z3.Select(f.off, self.k) + 1), len=z3.Store(f.len, self.k, self.left() - 1))
        return r

    def getitem(self, E, i):
        if i != 0 or isinstance(i, bool):
            raise Unsupported("a line by position")
        return self.first(E)

    def delitem(self, E, i):
        self.take(E, i)

    def getattr(self, E, name):
        if name == "pop":
            return Builtin("pop", lambda E2, a, k: self.take(E2, a[0] if a else -1))
        raise Unsupported("lines .%s" % name)

    def havoc(self, E):
        raise Unsupported("lines in a loop")

    def isinstance_(self, E, cls):
        return issubclass(list, cls)

    def is_none(self, E):
        return False


def setting(E, files=True, **fields):
    me = E.new(Obj(CL.NessaidCli, dict(_parent=None, **fields), "self"), site="self")
    if files:
        me.fields["_file_data"] = E.new(Files(E), site="files")
    me.hooks["*"] = lambda E, o, name: Unk(name)
    return me


def the_line(r):
    """(level, position) of a line"""
    if isinstance(r, SStr) and r.e.decl().eq(LINE):
        return r.e.arg(0), r.e.arg(1)
    return None


def taken(E, f, r):
    """one line was taken: the first that is left of the innermost file that has one"""
    at = lambda a: z3.Select(a, J)
    E.prove("no file is added", z3.And(f.n <= f.n0, f.n >= 0))
    E.prove("files that are closed have no lines left", z3.Implies(z3.And(f.n <= J, J < f.n0), z3.Or(
        at(f.len0) == 0, *([] if r is None else [z3.And(J == r[0], at(f.len0) == 1)]))))
    if r is None:
        E.prove("nothing is left when no line is given", z3.Implies(z3.And(0 <= J, J < f.n0), at(f.len0) == 0))
        return
    k, j = r
    E.prove("the line is the first that is left of its file", z3.And(
        0 <= k, k < f.n0, z3.Select(f.len0, k) > 0, j == z3.Select(f.off0, k)))
    E.prove("it is a line of the innermost file with lines left", z3.Implies(z3.And(k < J, J < f.n0), at(f.len0) == 0))
    E.prove("it is taken out", z3.Implies(k < f.n, z3.And(
        z3.Select(f.off, k) == z3.Select(f.off0, k) + 1, z3.Select(f.len, k) == z3.Select(f.len0, k) - 1)))
    E.prove("the others are left as they were", z3.Implies(z3.And(0 <= J, J < f.n, J != k), z3.And(
        at(f.off) == at(f.off0), at(f.len) == at(f.len0))))


def spec_file_line(E):
    me = setting(E)
    f = me.fields["_file_data"]
    k, r = attempt(E, lambda: E.getattr(me, "file_line"))
    E.prove("no exception", k == "ok")
    if k != "ok":
        return
    if r is None:
        E.cover("no line")
        taken(E, f, None)
    else:
        E.cover("a line")
        at = the_line(r)
        E.prove("a line of the files is given", at is not None)
        if at is not None:
            taken(E, f, at)


def file_loop(E, s, env, it):
    def inv(E, env, i, it):
        f = E.ghost["files"]
        at = lambda a: z3.Select(a, J)
        return [("levels", z3.And(f.n <= f.n0, f.n >= 0)),
                ("closed files have no lines left", z3.Implies(z3.And(f.n <= J, J < f.n0), at(f.len0) == 0)),
                ("the positions are unchanged", f.off == f.off0), ("what is left is unchanged", f.len == f.len0)]
    return LoopSpec(inv)


def with_files(run):
    def g(E):
        me = None
        E.ghost.clear()
        init = Files.__init__

        def note(self, E2):
            init(self, E2)
            E2.ghost["files"] = self
        Files.__init__ = note
        try:
            run(E)
        finally:
            Files.__init__ = init
    return g


def spec_parent(E):
    """a child takes the lines of its parent's files"""
    me = setting(E)
    f = me.fields["_file_data"]
    asked = []
    theirs = E.new(Obj(None, {}, "files of the parent"))

    def line(E2, o):
        asked.append(1)
        return None if E2.choose(2, "a line") else fresh_str("line of the parent")
    given = []

    def record(E2, o):
        given.append(line(E2, o))
        return given[-1]
    me.fields["_parent"] = E.new(Obj(None, {"file_data": theirs}, "parent", hooks={"file_line": record}))
    k, r = attempt(E, lambda: E.getattr(me, "file_line"))
    E.prove("the line of the parent, taken once", k == "ok" and len(given) == 1 and r is given[0])
    E.prove("no line of its own is taken", f.n is f.n0 and f.off is f.off0 and f.len is f.len0)
    k, r = attempt(E, lambda: E.getattr(me, "file_data"))
    E.prove("the files of the parent", k == "ok" and r is theirs)
    me.fields["_parent"] = None
    k, r = attempt(E, lambda: E.getattr(me, "file_data"))
    E.prove("the own files without a parent", k == "ok" and r is f)
    E.cover("asked")


# ------------------------------------------------------------------ adding a file
class File(Model):
    """a file that was opened for reading"""
    def __init__(self, E):
        super().__init__()
        self.lines = E.new(W.Words(raw_line, list))

    def call(self, E, name, a, k):
        if name == "__enter__":
            return self
        return None

    def read(self, E, name):
        E.note_write(self)
        E.ghost["read"] += 1
        if E.choose(2, "read"):
            E.ghost["failed"] = True
            raise PyExc(E.new(UnkExc(Exception, "reading")))
        return self.lines

    def getattr(self, E, name):
        if name == "readlines":
            return Builtin(name, lambda E2, a, k: self.read(E2, name))
        if name == "close":
            return Builtin(name, lambda E2, a, k: None)
        raise Unsupported("file.%s" % name)

    def run_for(self, E, s, env):
        return self.read(E, "for").run_for(E, s, env)

    def comprehension(self, E, e, g, env):
        return self.read(E, "for").comprehension(E, e, g, env)

    def mapped(self, E, cls, f):
        return self.read(E, "map").mapped(E, cls, f)

    def to_list(self, E):
        return self.read(E, "list")

    def truth(self, E):
        return True

    def havoc(self, E):
        pass


def raw_line(E):
    l = fresh_str("line")
    any_ = z3.AllChar(z3.ReSort(z3.StringSort()))
    text = z3.Star(z3.Intersect(any_, z3.Complement(z3.Re(z3.StringVal("\n")))))
    E.assume(z3.InRe(l.e, z3.Concat(text, z3.Option(z3.Re(z3.StringVal("\n"))))))
    E.assume(l.e != z3.StringVal(""))
    return l


def file_element(E, w, got):
    E.cover("a line is read")
    E.prove("every line of the file is one line", len(got) == 1)
    if len(got) != 1 or not isinstance(got[0], (str, SStr)):
        E.prove("lines are texts", False)
        return
    g = B.zstr(got[0])
    z = w.e
    n = z3.Length(z)
    ends = z3.SuffixOf(z3.StringVal("\n"), z)
    E.prove("the line as it is, except for blanks at its end", z3.Or(
        g == B.strip(E, z, "rstrip").e, z3.And(ends, g == z3.SubString(z, 0, n - 1)), z3.And(z3.Not(ends), g == z)))


def opened(E, args, kwargs):
    E.ghost["opened"] += (args[0] if args else kwargs.get("file"),)
    if E.choose(2, "open"):
        E.ghost["failed"] = True
        raise PyExc(E.new(UnkExc(Exception, "open")))
    return E.new(File(E))


def spec_add(own):
    def run(E):
        me = setting(E)
        f = me.fields["_file_data"]
        if not own:
            me.fields["_file_data"] = E.new(Obj(None, {}, "own files"))
            me.fields["_parent"] = E.new(Obj(None, {"file_data": f}, "parent"))
        E.ghost.update(opened=(), read=0, elements=file_element)
        name = fresh_val("file name")
        k, r = invoke_sync(E, me, "add_file_to_execute", name)
        E.prove("a file that cannot be read does not end anything", k == "ok")
        E.prove("the file is opened, once", len(E.ghost["opened"]) == 1 and E.ghost["opened"][0] is name)
        at = lambda a: z3.Select(a, J)
        E.prove("the lines of the files before stay as they are", z3.And(f.n >= f.n0, z3.Implies(
            z3.And(0 <= J, J < f.n0), z3.And(at(f.len) == at(f.len0), at(f.off) == at(f.off0)))))
        if f.pushed:
            E.cover("added")
            v = f.pushed[0]
            E.prove("the lines of the file are put on top, once",
                    len(f.pushed) == 1 and f.n.eq(f.n0 + 1) and isinstance(v, W.MappedWords) and E.ghost["read"] == 1)
        else:
            E.cover("cannot be read")
            E.prove("a file that can be read is put on top", bool(E.ghost.get("failed")))
    return run


# ------------------------------------------------------------------ the next line
def spec_next(method_name):
    def run(E):
        me = setting(E)
        given, typed = [], []

        def file_line(E2, o):
            given.append(None if E2.choose(2, "a line of a file") else fresh_str("line"))
            return given[-1]
        me.hooks["file_line"] = file_line

        def read(E2, a, k):
            def body():
                c = E2.choose(4, "typed")
                typed.append(fresh_str("typed") if c == 0 else c)
                if c == 0:
                    return typed[-1]
                if c == 1:
                    E2.raise_(EOFError, "end of input")
                raise PyExc(E2.new(UnkExc(BaseException if c == 3 else Exception, "reader")))
            return Coro(body, "readline")
        rl = E.new(Obj(None, {"readline": Builtin("readline", read), "input": Builtin("input", read)}))
        me.fields["_readline"] = rl
        me.hooks["readline"] = lambda E2, o: rl
        stdin = bool(E.choose(2, "from_stdin"))
        show = bool(E.choose(2, "show_prompt"))
        k, r = attempt(E, lambda: run_async(E, BM(method(CL.NessaidCli, method_name), me), [fresh_val("prompt")],
                                            {"from_stdin": stdin, "show_prompt_for_file_lines": show}))
        E.prove("at most one line is taken", len(given) + sum(1 for t in typed if t is not None and not isinstance(t, int)) <=
                (1 if given and given[0] is not None else 2) and len(given) <= 1 and len(typed) <= 1)
        if stdin:
            E.cover("from the terminal")
            E.prove("no line of a file is taken when it is to be typed", not given)
        else:
            E.prove("the files come first", len(given) == 1)
        if given and given[0] is not None:
            E.cover("of a file")
            E.prove("the line of the file is given, and nothing is read", k == "ok" and r is given[0] and not typed)
        else:
            E.prove("the line is read", len(typed) == 1)
            if typed and isinstance(typed[0], SStr):
                E.cover("typed")
                E.prove("the typed line is given", k == "ok" and r is typed[0])
            elif typed and typed[0] == 1:
                E.prove("at the end of the input the line is empty", k == "ok" and isinstance(r, str) and r == "")
    return run


# ------------------------------------------------------------------ the loop
class Text(Model):
    """a text as a free term: its pieces in order; what is taken from texts and asked about them is named by the term, so
    two texts count as equal only if they are made of the same pieces in the same way"""
    value_semantics = True

    def __init__(self, parts):
        super().__init__()
        self.parts = tuple(parts)

    def fresh_like(self, E):
        return Text((fresh_name("text"),))

    def ask(self, what):
        return SBool(z3.Bool("%s %r" % (what, self.parts)))

    def binop(self, E, op, b, swapped):
        p = pieces(b)
        if not isinstance(op, ast.Add) or p is None:
            raise Unsupported("operation on a text")
        return text(E, p + self.parts if swapped else self.parts + p)

    def iop(self, E, op, b):
        return self.binop(E, op, b, False)

    def only(self, *kinds):
        return self.parts[0] if len(self.parts) == 1 and isinstance(self.parts[0], tuple) and self.parts[0][0] in kinds else None

    def method(self, E, name, a):
        if name in ("strip", "lstrip", "rstrip") and (not a or a[0] is None):
            return text(E, ((name, self.parts),))
        if name == "endswith" and len(a) == 1 and isinstance(a[0], str):
            o = self.only("rstrip", "strip")
            return SBool(CONTINUED(o[1])) if o and a[0] == "\\" else self.ask("ends with %r" % a[0])
        if name == "startswith" and len(a) == 1 and isinstance(a[0], str):
            o = self.only("lstrip", "strip")
            return SBool(COMMENT(o[1])) if o and a[0] == "#" else self.ask("starts with %r" % a[0])
        if name == "removesuffix" and a[0] == "\\" and self.only("rstrip"):
            return text(E, (("cut", self.only("rstrip")[1]),)) if E.fork(CONTINUED(self.only("rstrip")[1]), "continued") else self
        return text(E, ((name, self.parts) + tuple(pieces(x) or repr(x) for x in a),))

    def getattr(self, E, name):
        if not hasattr(str, name):
            E.raise_(AttributeError, name)
        return Builtin(name, lambda E2, a, k: self.method(E2, name, a))

    def getitem(self, E, i):
        o = self.only("rstrip")
        if isinstance(i, slice) and i.step in (None, 1):
            if o and i.start in (None, 0) and (i.stop == -1 if isinstance(i.stop, int) else self.but_last(E, i.stop)):
                return text(E, (("cut", o[1]),))
            if isinstance(i.start, int) and i.start == -1 and i.stop is None:
                return text(E, (("last", self.parts),))
            if i.start in (None, 0) and isinstance(i.stop, int) and i.stop == 1:
                return text(E, (("first", self.parts),))
        if isinstance(i, int) and i in (0, -1):
            if not E.fork(self.truth(E), "some text"):
                E.raise_(IndexError, "string index out of range")
            return text(E, (("first" if i == 0 else "last", self.parts),))
        return text(E, (("[]", self.parts, repr(i)),))

    def but_last(self, E, stop):
        """the bound of a slice is the length less one"""
        if not isinstance(stop, SInt):
            return False
        d = z3.simplify(stop.e - self.len_(E).e)
        return z3.is_int_value(d) and d.as_long() == -1

    def contains(self, E, x):
        return self.ask("contains %r" % (pieces(x) or x,)).e

    def eq(self, E, o):
        p = pieces(o)
        if p is None:
            return False
        for end, c, what in (("last", "\\", "endswith"), ("first", "#", "startswith")):
            if p == pieces(c) and self.only(end):
                return Text(self.parts[0][1]).method(E, what, [c]).e
        return True if p == self.parts else self.ask("is %r" % (p,)).e

    def truth(self, E):
        t = self.ask("some text").e
        o = self.only("rstrip", "lstrip", "strip")
        if o and o[0] != "lstrip":
            E.assume(z3.Implies(CONTINUED(o[1]), t))
        if o and o[0] != "rstrip":
            E.assume(z3.Implies(COMMENT(o[1]), t))
        return t

    def len_(self, E):
        n = SInt(z3.Int("length %r" % (self.parts,)))
        E.assume(z3.And(n.e >= 0, (n.e > 0) == self.truth(E)))
        return n

    def str_(self, E):
        return self

    def as_text(self):
        return self

    def isinstance_(self, E, cls):
        return issubclass(str, cls)

    def type_(self, E):
        return str

    def is_none(self, E):
        return False

    def havoc(self, E):
        raise Unsupported("a text changes")


def text(E, parts):
    if not parts:
        return ""
    return Text(parts) if E is None else E.new(Text(parts))


def pieces(v):
    if isinstance(v, Text):
        return v.parts
    if isinstance(v, str):
        return (("literal", v),) if v else ()
    if isinstance(v, SStr):
        return (("string", v.e.sexpr()),)
    return None


def CONTINUED(parts):
    return z3.Bool("ends in a backslash, blanks aside: %r" % (parts,))


def COMMENT(parts):
    return z3.Bool("begins with a #, blanks aside: %r" % (parts,))


class Feed(Model):
    """what the lines given so far demand: g is pending (continued), due: text is to be matched"""
    def __init__(self):
        super().__init__()
        self.g, self.due, self.text = (), z3.BoolVal(False), ()
        self.tokens = None

    def put(self, E, **kw):
        E.note_write(self)
        for k, v in kw.items():
            setattr(self, k, v)

    def havoc(self, E):
        self.g, self.text = (fresh_name("pending"),), (fresh_name("text"),)
        self.due, self.tokens = z3.Bool(fresh_name("due")), None

    def settled(self, E, when):
        E.prove("a line that is neither continued nor a comment is matched, %s" % when, z3.Not(self.due))

    def line(self, E, l):
        self.settled(E, "before the next is read")
        full = self.g + l.parts
        if E.fork(CONTINUED(full), "continued"):
            self.put(E, g=(("cut", full),), due=z3.BoolVal(False), tokens=None)
            E.cover("continued")
        elif E.fork(COMMENT(full), "comment"):
            self.put(E, g=(), due=z3.BoolVal(False), tokens=None)
            E.cover("comment")
        else:
            self.put(E, g=(), due=z3.BoolVal(True), text=full, tokens=None)
            E.cover("command")

    def truth(self, E):
        return True


class Tokens(W.Words):
    """the tokens of a line"""
    def tag(self, v):
        if isinstance(v, W.MappedWords) and not hasattr(v, "source"):
            v.source = self
        return v

    def comprehension(self, E, e, g, env):
        return self.tag(super().comprehension(E, e, g, env))

    def mapped(self, E, cls, f):
        return self.tag(super().mapped(E, cls, f))

    def run_for(self, E, s, env):
        super().run_for(E, s, env)
        for v in env.vars.values():
            self.tag(v)

    def truth(self, E):
        return z3.Bool("any tokens")

    def len_(self, E):
        n = fresh_int("tokens")
        E.assume(n.e >= 0)
        return n


TEXT = z3.Function("text of token", V, z3.StringSort())


def token(E):
    t = fresh_val("token")
    return SVal(t.e, attrs={"str": lambda E2, v: SStr(TEXT(v.e))}, truthy=lambda E2, v: True)


def token_element(E, w, got):
    E.prove("the matcher gets every token, as its text", len(got) == 1 and (
        got[0] is w or isinstance(got[0], SStr) and got[0].e.eq(TEXT(w.e))))


def next_line(E, args, kwargs):
    def body():
        f = E.ghost["feed"]
        E.on_unknown(E)
        c = E.choose(4, "read")
        if c == 0:
            raise PyExc(E.new(UnkExc(BaseException, "reader")))
        if c == 1:
            E.raise_(CL.NessaidReadlineKeyboadInterrupt, "interrupt")
        if c == 2:
            E.raise_(CL.NessaidReadlineEOF, "end of input")
        l = E.new(Text((fresh_name("line"),)))
        E.prove("the script to start with is added once, before the first line",
                SCRIPT if E.ghost["added"] == 1 else z3.Not(SCRIPT) if not E.ghost["added"] else False)
        f.line(E, l)
        return l
    return Coro(body, "get_next_line")


SCRIPT = z3.Bool("a script to start with")


def add_file(E, args, kwargs):
    x = args[1] if len(args) > 1 else kwargs["filename"]
    E.ghost["added"] += 1
    E.prove("the script to start with is added", isinstance(x, SVal) and x.e.eq(z3.Const("filename", V)))
    E.on_unknown(E)
    return Unk("add_file_to_execute")


def tokenize(E, args, kwargs):
    f = E.ghost["feed"]
    x = args[1] if len(args) > 1 else kwargs["line"]
    E.prove("only a line that is to be matched is tokenized", f.due)
    E.prove("the line is tokenized as it was given", pieces(x) == f.text)
    E.prove("a line is tokenized once", f.tokens is None)
    if E.choose(2, "accepted"):
        f.put(E, due=z3.BoolVal(False), tokens="rejected")
        return (False, Unk("error"), E.new(PyList([])))
    t = E.new(Tokens(token, list))
    f.put(E, tokens=t)
    return (True, None, t)


def match(E, args, kwargs):
    def body():
        f = E.ghost["feed"]
        x = args[1] if len(args) > 1 else kwargs.get("tok_list")
        if isinstance(x, W.MappedWords) or isinstance(x, Tokens):
            E.prove("the tokens given to the matcher are those of the line", f.tokens is getattr(x, "source", x))
            E.prove("a line is matched once", f.due)
            f.put(E, due=z3.BoolVal(False))
            E.cover("matched")
        elif isinstance(x, PyList):
            E.prove("only the tokens of a line are matched", not x.items)
        else:
            E.prove("another list is matched only for a child that ended", isinstance(x, Unk))
            f.settled(E, "before a child's line is")
        E.on_unknown(E)
        if E.choose(2, "raise@match"):
            raise PyExc(E.new(UnkExc(BaseException, "match")))
        return Unk("result")
    return Coro(body, "match")


def stored(tree, selfname="self"):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and \
                n.value.id == selfname:
            out.add(n.attr)
    return out


_private = []


def private_state():
    if not _private:
        _private.append(frozenset(find_private()))
    return _private[0]


def find_private():
    """attributes that only the loop (with the functions it uses) and constructors change"""
    defs = {}
    for m in (CL, CM, c15.IF):
        for n in ast.walk(ast.parse(inspect.getsource(m))):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                defs.setdefault(n.name, []).append(n)
    mine, todo = set(), ["cmdloop"]
    while todo:
        f = todo.pop()
        if f in mine or f not in defs:
            continue
        mine.add(f)
        for n in defs[f]:
            for x in ast.walk(n):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                    todo.append(x.func.attr)
    mine -= set(c15.HOOKS + c15.CALLS + ["error", "print", "match", "context_loop", "enter_grammar", "exit_grammar"]) - \
        {"is_partial_line", "commented_line"}
    inside = set().union(*[stored(n) for f in mine for n in defs[f]])
    outside = set().union(*[stored(n) for f in defs if f not in mine and f != "__init__" for n in defs[f]])
    return inside - outside


class Same:
    """a place holds the pending text"""
    def __init__(self, feed, get, put):
        self.feed, self.get, self.put = feed, get, put

    def goal(self, E):
        return z3.BoolVal(pieces(self.get()) == self.feed.g)

    def assume(self, E):
        self.put(text(E, self.feed.g))


def is_text(v):
    return isinstance(v, (str, SStr, Text))


def loop_inv(E, s, env, it):
    def inv(E, env, i, it):
        f, me = E.ghost["feed"], E.ghost["me"]
        out = [("no line is left over", z3.Not(f.due))]
        for n in sorted(env.vars):
            if is_text(env.vars[n]):
                out.append(("%s is what is pending" % n, Same(f, lambda n=n: env.vars.get(n),
                                                             lambda v, n=n: env.vars.__setitem__(n, v))))
        for n in sorted(E.ghost["private"]):
            if is_text(me.fields.get(n)):
                out.append(("self.%s is what is pending" % n, Same(f, lambda n=n: me.fields.get(n),
                                                                  lambda v, n=n: me.fields.__setitem__(n, v))))
        return out
    return LoopSpec(inv)


def spec_loop(cls):
    def run(E):
        E.ghost.clear()
        me = E.new(Obj(cls, {"_filename": SVal(z3.Const("filename", V), truthy=lambda E, v: SCRIPT)}, "self"), site="self")
        me.hooks["*"] = lambda E, o, name: Unk(name)
        private = private_state()
        feed = E.new(Feed(), site="feed")
        E.ghost.update(feed=feed, me=me, private=tuple(sorted(private)), elements=token_element, added=0)
        for n in private:
            me.fields[n] = Unk(n)

        def unknown(E):
            for f in me.fields:
                if f not in private and f != "_filename":
                    me.fields[f] = Unk(f)
        E.on_unknown = unknown
        E.await_raise = BaseException
        args = [Unk("grammar name")] if cls is CL.NessaidCli else []
        k, r = invoke(E, me, "cmdloop", *args)
        if k == "ok":
            E.cover("ends")
            feed.settled(E, "before the loop ends")
    return run


def units(tier):
    fl = q(CL.NessaidCli, "file_line")
    adds = {"io:open": opened, "_io:open": opened, "builtins:open": opened, q(CL.NessaidCli, "error"): lambda E, a, k: None}
    loop = c15.contracts(without=[q(c, n) for c in (CL.NessaidCli, CM.NessaidCmd) for n in ("is_partial_line", "commented_line")])
    for c in (CL.NessaidCli, CM.NessaidCmd):
        loop[q(c, "get_next_line")] = next_line
        loop[q(c, "tokenize")] = tokenize
        loop[q(c, "match")] = match
        loop[q(c, "add_file_to_execute")] = add_file
        for n in ("enter_grammar", "exit_grammar"):
            loop[q(c, n)] = quiet_call(n)
    kw = dict(typestate=True, may_raise=Exception, max_paths=60000, merge=True)
    printing = {q(CL.NessaidCli, "print"): lambda E, a, k: None}
    return [
        Unit("file_line", with_files(spec_file_line), ["no line", "a line"], 6, loops={"*": file_loop}),
        Unit("file_line of a child", spec_parent, ["asked"], 4),
        Unit("add_file_to_execute", spec_add(True), ["added", "cannot be read", "a line is read"], 7, contracts=adds),
        Unit("add_file_to_execute of a child", spec_add(False), ["added", "cannot be read", "a line is read"], 7, contracts=adds),
        Unit("get_next_line", spec_next("get_next_line"), ["of a file", "typed", "from the terminal"], 6, contracts=printing),
        Unit("cmdloop", spec_loop(CL.NessaidCli), ["continued", "comment", "command", "matched", "ends"], 8, contracts=loop,
             loops={(q(CL.NessaidCli, "cmdloop"), "*"): loop_inv}, **kw),
        Unit("NessaidCmd.cmdloop", spec_loop(CM.NessaidCmd), ["continued", "comment", "command", "matched", "ends"], 8,
             contracts=loop, loops={(q(CL.NessaidCli, "cmdloop"), "*"): loop_inv}, **kw),
    ]
