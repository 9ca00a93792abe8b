"""Symbolic execution of the real functions' syntax trees, path by path, with z3 path conditions.

A path is replayed from its decision prefix; at a new fork both sides are checked for feasibility and the other
one is queued.  Loops over symbolic iterables and loops named in the unit's loop specs are cut at invariants;
calls to functions under contract use the contract; other functions of the repository are entered.
"""
import ast
import asyncio
import builtins
import hashlib
import inspect
import sys
import time
import types

import z3

z3.z3.Z3_DEBUG = False

from .values import *
from . import values as VAL

REPO_PREFIX = "nessaid_cli"
MAX_PATHS = 6000
MAX_UNROLL = 64

_src_cache = {}


def module_tree(filename):
    if filename not in _src_cache:
        with open(filename) as f:
            src = f.read()
        tree = ast.parse(src)
        index = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                line = n.lineno
                if not isinstance(n, ast.Lambda) and n.decorator_list:
                    line = min(line, n.decorator_list[0].lineno)
                index.setdefault((line, getattr(n, "name", "<lambda>")), n)
        _src_cache[filename] = (src, tree, index)
    return _src_cache[filename]


def func_node(fn):
    code = fn.__code__
    _src, _tree, index = module_tree(code.co_filename)
    node = index.get((code.co_firstlineno, code.co_name))
    if node is None:
        raise Unsupported("no source for %s" % fn.__qualname__)
    return node


def func_key(fn):
    return "%s:%s" % (fn.__module__, fn.__qualname__)


_memo = {}


def memo(fn):
    """cache of facts about syntax (keyed by identity; the nodes are kept alive)"""
    def wrapped(node, *more):
        k = (fn, id(node)) + more
        r = _memo.get(k)
        if r is None or r[0] is not node:
            r = _memo[k] = (node, fn(node, *more))
        return r[1]
    return wrapped


@memo
def func_digest(fn):
    node = func_node(fn)
    return hashlib.sha256(ast.dump(node).encode()).hexdigest()[:12]


@memo
def is_generator(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)
               if not isinstance(n, (ast.FunctionDef, ast.Lambda)) or n is node)


@memo
def has_await(node):
    return any(isinstance(n, ast.Await) for n in ast.walk(node))


@memo
def comp_as_loop(e):
    g = e.generators[0]
    add = ast.Expr(ast.Call(ast.Attribute(ast.Name("#comp", ast.Load()), "append", ast.Load()), [e.elt], []))
    body = [add]
    for c in reversed(g.ifs):
        body = [ast.If(c, body, [])]
    loop = ast.For(g.target, ast.Name("#src", ast.Load()), body, [])
    for n in ast.walk(loop):
        if not hasattr(n, "lineno"):
            n.lineno, n.col_offset = e.lineno, e.col_offset
    loop.comp_at = ("comp", e.lineno, e.col_offset)
    return loop


@memo
def search_loop(e, which):
    """any() and all() of a comprehension: the loop that stops at the first element that decides"""
    g = e.generators[0]
    body = [ast.If(e.elt if which == "any" else ast.UnaryOp(ast.Not(), e.elt), [ast.Break()], [])]
    for c in reversed(g.ifs):
        body = [ast.If(c, body, [])]
    loop = ast.For(g.target, ast.Name("#src", ast.Load()), body,
                   [ast.Assign([ast.Name("#none", ast.Store())], ast.Constant(True))])
    for n in ast.walk(loop):
        if not hasattr(n, "lineno"):
            n.lineno, n.col_offset = e.lineno, e.col_offset
    loop.comp_at = ("comp", e.lineno, e.col_offset)
    return loop


@memo
def loops_of(node):
    return [n for n in preorder(node) if isinstance(n, (ast.For, ast.While, ast.AsyncFor))]


def assigned_names(nodes):
    return set(_assigned_names(nodes))


@memo
def _assigned_names(nodes):
    """names a block may bind (not entering nested function bodies)"""
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # targets are local to the comprehension; walrus inside is not
            for g in n.generators:
                walk(g.iter)
                for c in g.ifs:
                    walk(c)
            return
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in nodes:
        walk(n)
    return out


class Env:
    def __init__(self, vars, parent, globals_, owner, fn_name, cls_cell=None):
        self.vars = vars
        self.parent = parent
        self.globals = globals_
        self.owner = owner          # key of the function, for loop specs
        self.fn_name = fn_name
        self.cls_cell = cls_cell
        self.nonlocals = set()
        self.node = None

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return True, e.vars[name]
            e = e.parent
        return False, None


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Coro:
    """a called but not yet awaited coroutine"""
    def __init__(self, thunk, name):
        self.thunk = thunk
        self.name = name
        self.done = False


class Restart(Exception):
    """loop frames were extended: explore the unit again"""


class VC:
    __slots__ = ("name", "status", "detail", "path", "secs", "backend", "model")

    def __init__(self, name, status, detail, path, secs, backend, model=None):
        self.name, self.status, self.detail, self.path, self.secs, self.backend, self.model = \
            name, status, detail, path, secs, backend, model


def sort_key(sort, names={}):
    k = sort.get_id()
    got = names.get(k)
    if got is None or not got[0].eq(sort):
        got = names[k] = (sort, str(sort))
    return got[1]


class Univ:
    """a loop invariant that holds for every value of a sort: fn(x) -> z3 bool"""
    def __init__(self, sort, fn):
        self.sort, self.fn = sort, fn


class LoopSpec:
    """inv(E, env, i, it) -> [(name, z3 bool)]; havoc: {local: fn(E, old, env) -> new};
    heap(E, env) -> heap objects the body may change (each is havocked in place)"""
    def __init__(self, inv, havoc=None, heap=None, assume=None, decreases=None, post_body=None):
        self.inv = inv
        self.havoc = havoc or {}
        self.heap = heap
        self.assume = assume
        self.decreases = decreases
        self.post_body = post_body


class Engine:
    def __init__(self, name, contracts=None, loops=None, models=None, typestate=False, timeout_ms=8000,
                 may_raise=None, dom=None, vdom=None, max_paths=MAX_PATHS, max_unroll=MAX_UNROLL, deadline=None,
                 merge=False):
        self.name = name
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.models = models or {}
        self.typestate = typestate
        self.timeout_ms = timeout_ms
        self.may_raise = may_raise        # base class of exceptions unknown operations raise, or None
        self.max_paths = max_paths
        self.max_unroll = max_unroll
        self.deadline = deadline
        self.dom = dom                    # element domain containers changed by a cut loop are abstracted to
        self.vdom = vdom
        self.merge = merge                # typestate: a path that reaches a state seen before ends there
        self.seen = set()
        self.merged = 0
        if merge:
            self.eval = self.eval_tracked
        self.max_restarts = 120
        self.by_scheme = False            # universal invariants are instantiated by substitution
        self.infer_first, self.frames_known = False, False      # find out what loops change before trying invariants
        self.cur_stmt = None
        self.list_model = None            # fn(E, items): what a list display evaluates to
        self.vdoms = []                   # the domains of the elements of such lists
        self.vague = lambda v: False      # may this element belong to several domains?
        self.site_doms = {}
        self.aliased = set()              # local names under which a loop keeps an object that has another name
        self.vcs = []
        self.paths = 0
        self.pruned = 0
        self.solver_secs = 0.0
        self.queries = 0
        self.functions_entered = {}
        self.contracts_used = set()
        self.externals_used = set()
        self.covers = {}
        self.inferred = {}                # loop id -> set of (object site, field) the body changes
        self.var_kinds = {}               # (loop id, local) -> kinds of value it has at the loop head
        self.protos = {}
        self.dropped = {}                 # loop id -> invariant candidates that are not inductive
        self.drop_log = []
        self.loop_nodes = {}
        self.restarts = 0
        self.undecided = []
        self.assumed = set()

    # ---------------------------------------------------------------- exploration
    def explore(self, run):
        """run(E) executes one path; raises Dead/PyExc handled by the unit"""
        while True:
            try:
                again = self._explore(run)
                if not again and self.infer_first and not self.frames_known:
                    again = self.frames_known = True      # what loops change is known: now with invariants
                if not again:
                    return
                raise Restart()
            except Restart as e:
                if e.args:                 # a loop changes more than was known: what was dropped may hold after all
                    self.dropped.clear()
                self.restarts += 1
                if self.restarts > self.max_restarts:
                    self.undecided.append("loop frame inference does not converge")
                    return
                self.vcs = []
                self.paths = 0
                self.covers = {}
                self.undecided = []
                self.seen = set()

    def _explore(self, run):
        self.pending = False
        self.rounds(run)
        return self.pending

    def rounds(self, run):
        queue = [[]]
        while queue:
            prefix = queue.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                self.undecided.append("more than %d paths" % self.max_paths)
                return
            if self.deadline and time.time() > self.deadline:
                self.undecided.append("out of time after %d paths" % self.paths)
                return
            self.begin_path(prefix)
            try:
                run(self)
            except Dead:
                pass
            except Unsupported as e:
                self.undecided.append("unsupported: %s" % e)
            except PyExc as e:
                self.undecided.append("escaped exception %r" % (e.value,))
            except (ReturnSig, BreakSig, ContinueSig) as e:
                self.undecided.append("control flow escaped: %r" % e)
            except RecursionError:
                self.undecided.append("recursion too deep")
            queue.extend(self.alternatives)
            if len(self.undecided) > 25:
                return

    def begin_path(self, prefix):
        VAL.reset_names()
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.labels = []
        self.alternatives = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.ghost = {}
        self.epoch = 0
        self.frames = []
        self.objects = []
        self.entry_obj = {}
        self.handling = []
        self.on_unknown = None            # what an unknown operation may change
        self.await_raise = None           # base class of exceptions raised at awaits, if not may_raise
        self.const_cache = {}
        self.depth = 0
        self.notes = {}
        self.pure = 0
        self.frames = []
        self.calls = []                   # active calls of interpreted functions: [env, expressions in evaluation]
        self.entries = 0
        self.entry_pos = None
        self.pendings = []
        self.alloc = {}
        self.iters = []
        self.point_ids = {}
        self.schemes = {}                 # sort -> universal facts as terms over a variable
        self.points = {}                  # sort -> terms the universal facts of that sort are instantiated at
        self.universals = {}

    def new(self, obj, site=None):
        obj.epoch = self.epoch
        obj.site = site if site is not None else self.site_here() if self.merge else "o%d" % len(self.objects)
        self.objects.append(obj)
        return obj

    def site_here(self):
        at = " ".join("%d" % getattr(c[2], "lineno", 0) for c in self.calls)
        n = self.alloc.get(at, 0)
        self.alloc[at] = n + 1
        return "o@%s#%d" % (at, n)

    # ---------------------------------------------------------------- solver
    def assume(self, cond):
        if isinstance(cond, SBool):
            cond = cond.e
        if cond is True:
            return
        if cond is False:
            raise Dead()
        self.pc.append(cond)
        self.solver.add(cond)

    # --- universal facts by explicit instantiation: each is assumed at every point mentioned, now or later
    def point(self, t):
        i = t.get_id()
        if i not in self.point_ids:
            self.point_ids[i] = t
            key = sort_key(t.sort())
            self.points.setdefault(key, []).append(t)
            for fn in list(self.universals.get(key, [])):
                self.assume(fn(t))
            for v, body in list(self.schemes.get(key, [])):
                self.assume(z3.substitute(body, (v, t)))
        return t

    def forall(self, sort, fn):
        key = sort_key(sort)
        self.universals.setdefault(key, []).append(fn)
        for p in list(self.points.get(key, [])):
            self.assume(fn(p))

    def scheme(self, sort, fn):
        """forall, for facts that read the same at every point: the term is built once"""
        key = sort_key(sort)
        v = z3.Const("_at_" + key, sort)
        body = fn(v)
        self.schemes.setdefault(key, []).append((v, body))
        for p in list(self.points.get(key, [])):
            self.assume(z3.substitute(body, (v, p)))

    def some(self, sort, fn):
        """a (stronger) goal for an existential: one of the points mentioned is a witness"""
        return z3.Or(*[fn(p) for p in self.points.get(sort_key(sort), [])])

    def _check(self, *conds):
        t = time.time()
        r = self.solver.check(*conds)
        self.solver_secs += time.time() - t
        self.queries += 1
        return r

    def feasible(self, cond=None):
        if cond is None:
            return self._check() != z3.unsat
        return self._check(cond) != z3.unsat

    def entails(self, cond):
        if isinstance(cond, SBool):
            cond = cond.e
        if cond is True:
            return True
        if cond is False:
            return self._check() == z3.unsat
        return self._check(z3.Not(cond)) == z3.unsat

    def fork(self, cond, label=""):
        """decide a condition; both outcomes are explored if feasible"""
        if isinstance(cond, SBool):
            cond = cond.e
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pure:
            raise Unsupported("case split inside an element test (%s)" % label)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self.labels.append(label)
            self.assume(cond if d else z3.Not(cond))
            return d
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if not t and not f:
            self.pruned += 1
            raise Dead()
        if t and f:
            self.alternatives.append(self.decisions + [False])
            d = True
        else:
            d = t
        self.pos += 1
        self.decisions.append(d)
        self.labels.append(label)
        self.assume(cond if d else z3.Not(cond))
        return d

    # --- evaluation of an element test as one term: no forks allowed
    def push_pure(self):
        self.pure += 1

    def pop_pure(self):
        self.pure -= 1

    def pure_truth(self, v):
        t = self.truth_expr(v)
        if t is None:
            raise Unsupported("element test of unknown truth")
        return t

    def choose(self, n, label=""):
        """a free n-way choice"""
        if n == 1:
            return 0
        if self.pure:
            raise Unsupported("choice inside an element test")
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.alternatives.append(self.decisions + [k])
        self.pos += 1
        self.decisions.append(d)
        self.labels.append("%s=%s" % (label, d))
        return d

    def maybe_raise(self, origin, base=None):
        """fork: an unknown operation raises"""
        if self.on_unknown is not None:
            self.on_unknown(self)
        if self.may_raise is None:
            return
        if self.choose(2, "raise@" + origin):
            raise PyExc(self.new(UnkExc(base or self.may_raise, origin)))

    def prove(self, name, cond, detail="", model_terms=None):
        """an obligation"""
        if isinstance(cond, SBool):
            cond = cond.e
        path = list(self.labels)
        if cond is True or (not isinstance(cond, bool) and z3.is_true(z3.simplify(cond))):
            self.vcs.append(VC(name, "proved", detail, path, 0.0, "trivial"))
            return True
        t = time.time()
        if cond is False:
            r = self._check()
            m = self.solver.model() if r == z3.sat else None
            ok = r == z3.unsat
        else:
            r = self._check(z3.Not(cond))
            m = self.solver.model() if r == z3.sat else None
            ok = r == z3.unsat
        backend = "z3"
        if r == z3.unknown:
            from . import backends
            r2, backend2 = backends.retry(self.pc, cond)
            if r2 == "unsat":
                ok, backend = True, backend2
        secs = time.time() - t
        status = "proved" if ok else ("refuted" if r == z3.sat else "unknown")
        mdl = None
        if m is not None:
            mdl = {}
            for k, v in (model_terms or self.notes).items():
                try:
                    mdl[k] = self.model_value(m, v)
                except Exception as e:       # a model term that cannot be evaluated is only left out of the report
                    mdl[k] = "?%s" % e
        self.vcs.append(VC(name, status, detail, path, secs, backend, mdl))
        if cond is not False and ok:
            self.assume(cond)
        return ok

    def prove_by(self, name, cond, extra=()):
        return self.prove(name, cond)

    def cover(self, name):
        """reachability guard: this point must be feasible on some path"""
        if self.covers.get(name):
            return
        self.covers[name] = self.feasible()

    def model_value(self, m, v):
        if isinstance(v, Sym):
            v = v.e
        if z3.is_expr(v):
            r = m.eval(v, model_completion=True)
            if z3.is_int_value(r):
                return r.as_long()
            if z3.is_string_value(r):
                return z3_unescape(r.as_string())
            if z3.is_true(r):
                return True
            if z3.is_false(r):
                return False
            return str(r)
        return v

    # ---------------------------------------------------------------- frames
    def note_write(self, obj, field=None):
        if obj.epoch is None:
            raise Unsupported("a change to something of unknown origin: %r" % (obj,))
        for fr in self.frames:
            if obj.epoch is not None and obj.epoch < fr["epoch"] and id(obj) not in fr["ok"]:
                fr["bad"].append((obj, field))

    # ---------------------------------------------------------------- functions
    def call(self, f, args, kwargs=None, node=None):
        kwargs = kwargs or {}
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported("call depth")
        try:
            return self._call(f, args, kwargs, node)
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs, node=None):
        from . import builtins_model as BMOD
        if isinstance(f, BM):
            return self._call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, Clo):
            if f.owner in self.contracts:
                self.contracts_used.add(f.owner)
                return self.contracts[f.owner](self, args, kwargs)
            return self.call_closure(f, args, kwargs)
        if isinstance(f, (staticmethod, classmethod)):
            return self._call(f.__func__, args, kwargs, node)
        if isinstance(f, types.FunctionType):
            key = func_key(f)
            if key in self.contracts:
                self.contracts_used.add(key)
                return self.contracts[key](self, args, kwargs)
            if key in self.models:
                return self.models[key](self, args, kwargs)
            if f.__module__.split(".")[0] == REPO_PREFIX:
                return self.call_real(f, args, kwargs)
            return self.external(key, f, args, kwargs)
        if isinstance(f, types.MethodType):
            return self._call(f.__func__, [f.__self__] + list(args), kwargs, node)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Unk):
            self.maybe_raise("call " + f.label)
            return Unk(f.label + "()")
        if isinstance(f, Model):
            return f.call(self, "__call__", args, kwargs)
        if isinstance(f, Obj):
            m = self.class_attr(f.cls, "__call__")
            if m is not None:
                return self._call(BM(m, f), args, kwargs)
        name = getattr(f, "__qualname__", getattr(f, "__name__", None))
        if name is not None or callable(f):
            return BMOD.call_builtin(self, f, args, kwargs)
        raise Unsupported("call of %r" % (f,))

    def external(self, key, f, args, kwargs):
        from . import builtins_model as BMOD
        r = BMOD.external_model(self, key, f, args, kwargs)
        if r is not BMOD.NOMODEL:
            return r
        self.externals_used.add(key)
        if self.typestate:
            self.maybe_raise(key)
            return Unk(key)
        raise Unsupported("external function " + key)

    def call_real(self, fn, args, kwargs):
        node = func_node(fn)
        key = func_key(fn)
        self.functions_entered[key] = func_digest(fn)
        freevars = {}
        cls_cell = None
        if fn.__closure__:
            for name, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    if name == "__class__":
                        cls_cell = cell.cell_contents
                    else:
                        freevars[name] = self.lift(cell.cell_contents)
                except ValueError:
                    pass
        parent = Env(freevars, None, fn.__globals__, key, fn.__name__, cls_cell) if freevars else None
        env = Env({}, parent, fn.__globals__, key, fn.__name__, cls_cell)
        env.node = node
        defaults = [self.lift(d) for d in (fn.__defaults__ or ())]
        kwd = {k: self.lift(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        self.bind(node.args, args, kwargs, defaults, kwd, env, fn.__qualname__)
        return self.run_body(node, env, fn.__qualname__)

    def call_closure(self, clo, args, kwargs):
        env = Env({}, clo.env, clo.env.globals, clo.owner, clo.name, clo.env.cls_cell)
        env.node = clo.node
        self.bind(clo.node.args, args, kwargs, clo.defaults, clo.kwdefaults, env, clo.name)
        if isinstance(clo.node, ast.Lambda):
            return self.eval(clo.node.body, env)
        return self.run_body(clo.node, env, clo.name)

    def run_body(self, node, env, name):
        if is_generator(node):
            raise Unsupported("generator function " + name)

        def thunk():
            if not self.calls:
                self.entries += 1
                if self.entry_pos is None:
                    self.entry_pos = len(self.decisions)
            self.calls.append([env, [], node])
            try:
                self.exec_block(node.body, env)
            except ReturnSig as r:
                return r.value
            finally:
                self.calls.pop()
            return None
        if isinstance(node, ast.AsyncFunctionDef):
            return Coro(thunk, name)
        return thunk()

    def await_(self, v, origin="await"):
        if isinstance(v, Coro):
            if v.done:
                raise Unsupported("coroutine awaited twice")
            v.done = True
            return v.thunk()
        if isinstance(v, Unk):
            self.maybe_raise(origin, self.await_raise)
            return Unk(v.label)
        if isinstance(v, Model) and hasattr(v, "await_"):
            return v.await_(self)
        if isinstance(v, Obj) and "__await__" in v.hooks:
            return v.hooks["__await__"](self, v)
        self.raise_(TypeError, "object can't be used in 'await' expression")

    def bind(self, a, args, kwargs, defaults, kwdefaults, env, name):
        args = list(args)
        kwargs = dict(kwargs)
        params = [p.arg for p in a.posonlyargs + a.args]
        nd = len(defaults)
        vals = {}
        star = None
        if args and isinstance(args[-1], StarArgs):
            star = args.pop().value
        if len(args) > len(params):
            if a.vararg is None:
                self.raise_(TypeError, "too many positional arguments for " + name)
            extra = args[len(params):]
            args = args[:len(params)]
        else:
            extra = []
        for p, v in zip(params, args):
            vals[p] = v
        if star is not None:
            if a.vararg is None or len(args) < len(params):
                raise Unsupported("symbolic star arguments into named parameters of " + name)
            if extra:
                raise Unsupported("mixed star arguments")
            vals[a.vararg.arg] = star
        elif a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        kwextra = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in params or k in kwonly:
                if k in vals:
                    self.raise_(TypeError, "multiple values for argument %s of %s" % (k, name))
                vals[k] = v
            elif a.kwarg is not None:
                kwextra[k] = v
            else:
                self.raise_(TypeError, "unexpected keyword argument %s of %s" % (k, name))
        for i, p in enumerate(params):
            if p not in vals:
                j = i - (len(params) - nd)
                if j >= 0:
                    vals[p] = defaults[j]
                else:
                    self.raise_(TypeError, "missing argument %s of %s" % (p, name))
        for p in kwonly:
            if p not in vals:
                if p in kwdefaults:
                    vals[p] = kwdefaults[p]
                else:
                    self.raise_(TypeError, "missing keyword-only argument %s of %s" % (p, name))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new(PyDict(list(kwextra.items())))
        env.vars.update(vals)

    def lift(self, v):
        """a real python object read from a module, class or closure"""
        if isinstance(v, (list, dict, set)) and not isinstance(v, (Sym,)):
            k = id(v)
            if k not in self.const_cache:
                if isinstance(v, list):
                    o = PyList([self.lift(x) for x in v])
                elif isinstance(v, dict):
                    o = PyDict([(self.lift(a), self.lift(b)) for a, b in v.items()])
                else:
                    o = PySet([self.lift(x) for x in v])
                o.epoch = -1
                o.site = "const"
                o.real = v
                self.const_cache[k] = (o, v)
            return self.const_cache[k][0]
        return v

    def raise_(self, cls, *args):
        raise PyExc(self.new(Obj(cls, {"args": tuple(args)})))

    # ---------------------------------------------------------------- classes
    def class_attr(self, cls, name):
        if cls is None:
            return None
        for k in cls.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    def instantiate(self, cls, args, kwargs):
        from . import builtins_model as BMOD
        key = "%s:%s" % (cls.__module__, cls.__qualname__)
        if key in self.contracts:
            self.contracts_used.add(key)
            return self.contracts[key](self, args, kwargs)
        r = BMOD.construct(self, cls, args, kwargs)
        if r is not BMOD.NOMODEL:
            return r
        if isinstance(cls, type) and issubclass(cls, BaseException):
            o = self.new(Obj(cls, {"args": tuple(args)}))
            init = self.class_attr(cls, "__init__")
            if isinstance(init, types.FunctionType) and init.__module__.split(".")[0] == REPO_PREFIX:
                self.call(BM(init, o), args, kwargs)
            return o
        if cls.__module__.split(".")[0] != REPO_PREFIX:
            return self.external(key, cls, args, kwargs)
        new = self.class_attr(cls, "__new__")
        if isinstance(new, staticmethod):
            new = new.__func__
        if isinstance(new, types.FunctionType):
            o = self.call(new, [cls] + list(args), kwargs)
        else:
            o = self.new(Obj(cls), site=cls.__name__)
        init = self.class_attr(cls, "__init__")
        if isinstance(init, types.FunctionType):
            if isinstance(o, SStr):
                o = self.string_object(cls, o)
            self.call(BM(init, o), args, kwargs)
        return o

    def string_object(self, cls, s):
        if isinstance(s, Model):
            return s
        return SStr(s.e, dict(s.tags), cls)

    def isinstance_(self, v, cls):
        """python bool, or a z3 bool"""
        from . import builtins_model as BMOD
        if isinstance(cls, tuple):
            rs = [self.isinstance_(v, c) for c in cls]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return z3.Or(*rs) if rs else False
        if isinstance(v, Obj):
            if v.cls is None:
                raise Unsupported("isinstance of object of unknown class")
            return isinstance(v.cls, type) and isinstance(cls, type) and issubclass(v.cls, cls)
        if isinstance(v, SVal):
            if v.kinds is not None:
                return v.kinds(self, v, cls)
            raise Unsupported("isinstance of atom")
        if isinstance(v, Model):
            return v.isinstance_(self, cls)
        if isinstance(v, UnkExc):
            if issubclass(v.base, cls):
                return True
            if any(issubclass(cls, x) for x in v.excluded):
                return False
            if self.choose(2, "isinstance " + cls.__name__):
                if issubclass(cls, v.base):
                    v.base = cls
                return True
            v.excluded.append(cls)
            return False
        if isinstance(v, Unk):
            return bool(self.choose(2, "isinstance"))
        t = self.type_of(v)
        return issubclass(t, cls)

    def type_of(self, v):
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SStr):
            return v.cls
        if isinstance(v, SFloat):
            return float
        if isinstance(v, PyList):
            return list
        if isinstance(v, PySet):
            return set
        if isinstance(v, PyDict):
            return dict
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, (BM, Clo, Builtin)):
            return types.MethodType
        if isinstance(v, Model):
            return v.type_(self)
        if isinstance(v, SVal) and v.attrs.get("__class__") is not None:
            return v.attrs["__class__"](self, v)
        if isinstance(v, (SVal, Unk, UnkExc)):
            raise Unsupported("type of %r" % (v,))
        return type(v)

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name, default=None, has_default=False):
        from . import builtins_model as BMOD
        if isinstance(o, Unk):
            if has_default:
                return Unk(o.label + "." + name)
            return Unk(o.label + "." + name)
        if isinstance(o, Model):
            return o.getattr(self, name)
        if isinstance(o, SVal):
            if name in o.attrs:
                return o.attrs[name](self, o)
            if name in o.methods:
                m = o.methods[name]
                return Builtin(name, lambda E, a, k: m(E, o, a, k))
            if self.typestate:
                return Unk(name)
            raise Unsupported("attribute %s of atom" % name)
        if isinstance(o, SuperProxy):
            mro = o.self_.__mro__ if isinstance(o.self_, type) and issubclass(o.self_, o.cls) else \
                self.type_of(o.self_).__mro__
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__ and k not in (str, object, dict, list, int, Exception, BaseException):
                    return self.bind_attr(k.__dict__[name], o.self_, k)
            r = BMOD.super_attr(self, o, name)
            if r is not BMOD.NOMODEL:
                return r
            raise Unsupported("super().%s" % name)
        if isinstance(o, UnkExc):
            return Unk("exc." + name)
        if isinstance(o, Obj):
            if name in o.hooks:
                return o.hooks[name](self, o)
            if name == "__class__" and "__class__" not in o.hooks and "__class__" not in o.fields:
                return o.cls
            if name in ("__traceback__", "__cause__", "__context__"):
                return Unk("traceback")
            ca = self.class_attr(o.cls, name)
            if isinstance(ca, property):
                if ca.fget is None:
                    self.raise_(AttributeError, name)
                return self.call(ca.fget, [o])
            if name in o.fields:
                if isinstance(o.fields[name], Lost):
                    raise Unsupported("field %s not tracked across a loop" % name)
                return o.fields[name]
            if ca is not None:
                return self.bind_attr(ca, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return self.new(PyDict(list(o.fields.items())))
            if name == "__traceback__":
                return Unk("traceback")
            ga = self.class_attr(o.cls, "__getattr__")
            if isinstance(ga, types.FunctionType):
                return self.call(BM(ga, o), [name])
            if has_default:
                return default
            if "*" in o.hooks:
                return o.hooks["*"](self, o, name)
            self.raise_(AttributeError, "%s object has no attribute %s" % (getattr(o.cls, "__name__", "?"), name))
        if isinstance(o, type):
            try:
                st = inspect.getattr_static(o, name)
            except AttributeError:
                if has_default:
                    return default
                self.raise_(AttributeError, name)
            if isinstance(st, staticmethod):
                return st.__func__
            if isinstance(st, classmethod):
                return BM(st.__func__, o)
            if isinstance(st, types.FunctionType):
                return st
            return self.lift(getattr(o, name))
        if isinstance(o, types.ModuleType):
            try:
                return self.lift(getattr(o, name))
            except AttributeError:
                self.raise_(AttributeError, name)
        r = BMOD.builtin_attr(self, o, name)
        if r is not BMOD.NOMODEL:
            return r
        if has_default:
            return default
        self.raise_(AttributeError, "%s has no attribute %s" % (type(o).__name__, name))

    def bind_attr(self, ca, o, cls):
        if isinstance(ca, types.FunctionType):
            return BM(ca, o)
        if isinstance(ca, staticmethod):
            return ca.__func__
        if isinstance(ca, classmethod):
            return BM(ca.__func__, o.cls if isinstance(o, Obj) else o)
        if isinstance(ca, property):
            return self.call(ca.fget, [o])
        if isinstance(ca, (types.MemberDescriptorType, types.GetSetDescriptorType)):
            raise Unsupported("descriptor %r" % ca)
        if isinstance(ca, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            return BM(ca, o)
        return self.lift(ca)

    def setattr(self, o, name, v):
        if isinstance(o, Unk):
            return
        if isinstance(o, Model):
            self.note_write(o)
            return o.setattr(self, name, v)
        if isinstance(o, SStr):
            # attribute of a str subclass instance: strings are values here, so the tag table is shared
            o.tags[name] = v
            return
        if isinstance(o, Obj):
            ca = self.class_attr(o.cls, name)
            if isinstance(ca, property):
                if ca.fset is None:
                    self.raise_(AttributeError, "can't set attribute " + name)
                self.call(ca.fset, [o, v])
                return
            self.note_write(o, name)
            h = o.hooks.get("=" + name)
            if h is not None:
                h(self, o, v)
                return
            o.fields[name] = v
            return
        if isinstance(o, type) or isinstance(o, types.ModuleType):
            raise Unsupported("assignment to class or module attribute " + name)
        if isinstance(o, SVal) and "=" + name in o.attrs:
            o.attrs["=" + name](self, o, v)
            return
        if isinstance(o, SVal) and "=*" in o.attrs:
            o.attrs["=*"](self, o, name, v)
            return
        self.raise_(AttributeError, name)

    # ---------------------------------------------------------------- truth, comparison, arithmetic
    def truth(self, v, label=""):
        """decide truthiness, forking if needed"""
        t = self.truth_expr(v)
        if isinstance(t, bool):
            return t
        if t is None:
            return bool(self.choose(2, "truth " + label))
        return self.fork(t, label)

    def truth_expr(self, v):
        """bool, z3 bool, or None for unknown"""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, SInt):
            return v.e != 0
        if isinstance(v, SStr):
            return v.e != z3.StringVal("")
        if isinstance(v, SFloat):
            return z3.Not(z3.fpIsZero(v.e))
        if isinstance(v, (PyList, PySet)):
            return len(v.items) > 0
        if isinstance(v, PyDict):
            return len(v.pairs) > 0
        if isinstance(v, Unk):
            return None
        if isinstance(v, SVal):
            if v.truthy is None:
                if self.typestate:
                    return None
                raise Unsupported("truth of atom")
            return v.truthy(self, v)
        if isinstance(v, Model):
            return v.truth(self)
        if isinstance(v, Obj):
            b = self.class_attr(v.cls, "__bool__")
            if isinstance(b, types.FunctionType):
                return self.truth_expr(self.call(BM(b, v), []))
            ln = self.class_attr(v.cls, "__len__")
            if isinstance(ln, types.FunctionType):
                return self.truth_expr(self.call(BM(ln, v), []))
            return True
        if isinstance(v, (BM, Clo, Builtin, Coro, UnkExc, Gen)):
            return True
        return bool(v)

    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    # ---------------------------------------------------------------- statements
    def exec(self, s, env):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        self.cur_stmt = s
        if self.merge and self.calls:
            from . import merge
            self.calls[-1][2] = s
            merge.visit(self)
        return m(s, env)

    def x_Expr(self, s, env):
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Global(self, s, env):
        raise Unsupported("global")

    def x_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def x_Import(self, s, env):
        for a in s.names:
            try:
                __import__(a.name)
                env.vars[a.asname or a.name.split(".")[0]] = sys.modules[a.name if a.asname else a.name.split(".")[0]]
            except ImportError:
                self.raise_(ImportError, a.name)

    def x_ImportFrom(self, s, env):
        try:
            mod = __import__(s.module, fromlist=[a.name for a in s.names])
        except ImportError:
            self.raise_(ImportError, s.module)
        for a in s.names:
            env.vars[a.asname or a.name] = self.lift(getattr(mod, a.name))

    def x_FunctionDef(self, s, env):
        defaults = [self.eval(d, env) for d in s.args.defaults]
        kwd = {p.arg: self.eval(d, env) for p, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        env.vars[s.name] = Clo(s, env, defaults, kwd, s.name, "%s.<locals>.%s" % (env.owner, s.name))

    x_AsyncFunctionDef = x_FunctionDef

    def x_Return(self, s, env):
        raise ReturnSig(self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise BreakSig()

    def x_Continue(self, s, env):
        raise ContinueSig()

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env), "assert@%d" % s.lineno):
            self.raise_(AssertionError)

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env), "if@%d" % s.lineno):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        from . import builtins_model as BMOD
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.Name(t.id, ast.Load()), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
        else:
            o = self.eval(t.value, env)
            i = self.eval_index(t.slice, env)
            old = BMOD.getitem(self, o, i)
        v = self.eval(s.value, env)
        new = BMOD.augassign(self, s.op, old, v)
        if isinstance(t, ast.Name):
            self.assign(t, new, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, new)
        else:
            BMOD.setitem(self, o, i, new)

    def x_Delete(self, s, env):
        from . import builtins_model as BMOD
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                BMOD.delitem(self, self.eval(t.value, env), self.eval_index(t.slice, env))
            elif isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj):
                    self.note_write(o)
                    if o.fields.pop(t.attr, o) is o:
                        self.raise_(AttributeError, t.attr)
                elif not isinstance(o, Unk):
                    raise Unsupported("del attribute")

    def assign(self, t, v, env):
        from . import builtins_model as BMOD
        if isinstance(t, ast.Name):
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.vars:
                    e = e.parent
                if e is None:
                    raise Unsupported("nonlocal " + t.id)
                e.vars[t.id] = v
            else:
                env.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            BMOD.setitem(self, self.eval(t.value, env), self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    raise Unsupported("starred assignment")
                self.assign(e, x, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, PyList):
            items = v.items
        elif isinstance(v, Unk):
            return [Unk("%s[%d]" % (v.label, i)) for i in range(n)]
        elif isinstance(v, Model):
            return v.unpack(self, n)
        else:
            raise Unsupported("unpack %r" % (v,))
        if len(items) != n:
            self.raise_(ValueError, "unpack")
        return list(items)

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            if not cur:
                self.raise_(RuntimeError, "no active exception")
            raise PyExc(cur[-1])
        v = self.eval(s.exc, env)
        if s.cause is not None:
            self.eval(s.cause, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = self.instantiate(v, [], {})
        if isinstance(v, (Obj, UnkExc)):
            raise PyExc(v)
        if isinstance(v, Unk):
            raise PyExc(self.new(UnkExc(Exception, "raise")))
        self.raise_(TypeError, "exceptions must derive from BaseException")

    def exc_matches(self, exc, cls):
        if isinstance(cls, tuple):
            for c in cls:
                if self.exc_matches(exc, c):
                    return True
            return False
        if isinstance(cls, Unk):
            return bool(self.choose(2, "except?"))
        r = self.isinstance_(exc, cls)
        return r if isinstance(r, bool) else self.fork(r)

    def x_Try(self, s, env):
        pending = None
        try:
            try:
                self.exec_block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.value, self.eval(h.type, env)):
                        break
                else:
                    raise
                if h.name:
                    env.vars[h.name] = e.value
                self.handling.append(e.value)
                try:
                    self.exec_block(h.body, env)
                finally:
                    self.handling.pop()
                    if h.name:
                        env.vars.pop(h.name, None)
            else:
                self.exec_block(s.orelse, env)
        except (Dead, Unsupported, Restart):
            raise
        except (PyExc, ReturnSig, BreakSig, ContinueSig) as e:
            pending = e
        if s.finalbody:
            self.pendings.append(pending)
            self.exec_block(s.finalbody, env)
            self.pendings.pop()
        if pending is not None:
            raise pending

    def x_With(self, s, env):
        from . import builtins_model as BMOD
        if len(s.items) != 1:
            raise Unsupported("with of several items")
        it = s.items[0]
        cm = self.eval(it.context_expr, env)
        v = BMOD.enter_context(self, cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.exec_block(s.body, env)
        except (Dead, Unsupported, Restart):
            raise
        except PyExc:
            BMOD.exit_context(self, cm)
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            BMOD.exit_context(self, cm)
            raise
        BMOD.exit_context(self, cm)

    # ---------------------------------------------------------------- loops
    def loop_ordinal(self, s, env):
        if hasattr(s, "comp_at"):
            return s.comp_at
        for i, n in enumerate(loops_of(env.node)):
            if n is s:
                return i
        return -1

    def loop_spec(self, s, env, it=None):
        ordinal = self.loop_ordinal(s, env)
        sp = self.loops.get((env.owner, ordinal), self.loops.get((env.owner, "*"), self.loops.get("*")))
        if sp is None and it is not None and isinstance(it, Model):
            sp = it.loop_spec(self, s, env)
        if callable(sp) and not isinstance(sp, LoopSpec):
            sp = sp(self, s, env, it)
        return sp

    def iterate(self, it, env=None, node=None):
        """list of items if the length is known on this path, else None"""
        from . import builtins_model as BMOD
        return BMOD.concrete_items(self, it)

    def x_For(self, s, env):
        from . import coll
        it = self.eval(s.iter, env)
        if hasattr(it, "run_for"):
            return it.run_for(self, s, env)
        spec = self.loop_spec(s, env, coll.underlying(it))
        if spec is None:
            items = self.iterate(it)
            if items is not None:
                if isinstance(it, PyList):
                    return self.for_live(s, it, env)
                return self.for_concrete(s, items, env)
            if self.typestate:
                return self.for_unknown(s, it, env)
            raise Unsupported("loop at line %d over %r without invariant" % (s.lineno, it))
        from . import builtins_model as BMOD
        self.cut_for(s, it, env, spec)

    x_AsyncFor = x_For

    def for_concrete(self, s, items, env):
        items = list(items)
        for n, x in enumerate(items):
            self.assign(s.target, x, env)
            self.iters.append((s, items[n + 1:]))
            try:
                self.exec_block(s.body, env)
            except BreakSig:
                return
            except ContinueSig:
                pass
            finally:
                self.iters.pop()
        self.exec_block(s.orelse, env)

    def for_live(self, s, lst, env):
        """python's list iterator looks at the list again on every step"""
        i = 0
        while True:
            if not isinstance(lst, PyList):
                raise Unsupported("list changed shape during iteration")
            if i >= len(lst.items):
                break
            self.assign(s.target, lst.items[i], env)
            i += 1
            self.iters.append((s, [i, lst]))
            try:
                self.exec_block(s.body, env)
            except BreakSig:
                return
            except ContinueSig:
                pass
            finally:
                self.iters.pop()
        self.exec_block(s.orelse, env)

    # --- loops cut at invariants.  Every invariant is a candidate: one that does not hold on entry or is not kept
    # by the body is dropped and the exploration starts over (Houdini), so the survivors are inductive.
    # The frame (what the body changes) is inferred the same way and over-approximated by havoc.
    def kind_of(self, v, lid, name):
        if v is None:
            return "none"
        if isinstance(v, (bool, SBool)):
            return "bool"
        if isinstance(v, (int, SInt)):
            return "int"
        if isinstance(v, (str, SStr)):
            if isinstance(v, SStr) and v.tags:
                return "lost"
            return "str"
        if isinstance(v, SVal):
            fam = getattr(v, "family", None) or "val " + str(v.e.sort())
            self.protos[(lid, name, fam)] = v
            return ("val", fam)
        if isinstance(v, Heap):
            if isinstance(v, Model) and hasattr(v, "fresh_like") and getattr(v, "value_semantics", False):
                kind = ("model", type(v).__name__)
                if hasattr(v, "kind_key"):      # a container whose elements are not known yet is any container
                    kind += (v.kind_key(),)
                    kinds = self.var_kinds.setdefault((lid, name), [])
                    if kind[2] is None:
                        for k in kinds:
                            if k[:2] == kind[:2]:
                                return k
                    elif kind[:2] + (None,) in kinds:
                        kinds.remove(kind[:2] + (None,))
                self.protos[(lid, name, kind)] = v
                return kind
            if v.epoch is not None and v.epoch <= self.epoch and v.site is not None:
                return ("same", v.site)
            return "lost"
        return "lost"

    def havoc_kind(self, kind, name, lid):
        if kind == "none":
            return None
        if kind == "bool":
            return fresh_bool(name)
        if kind == "int":
            return fresh_int(name)
        if kind == "str":
            return fresh_str(name)
        if kind[0] == "val":
            p = self.protos[(lid, name, kind[1])]
            return SVal(z3.Const(fresh_name(name), p.e.sort()), p.attrs, p.methods, p.truthy, p.kinds)
        if kind[0] == "model":
            r = self.new(self.protos[(lid, name, kind)].fresh_like(self), site=name)
            if (lid, name) in self.aliased:
                r.frozen = True
            return r
        if kind[0] == "entry":
            return self.entry_obj.get((lid, name), NOVALUE)
        if kind[0] == "same":
            cands = [o for o in self.objects if o.site == kind[1]]
            return cands[0] if len(cands) == 1 else NOVALUE
        return NOVALUE

    def havoc(self, s, env, spec, lid, extra=()):
        names = assigned_names(s.body) | set(extra)
        if isinstance(s, ast.While):
            names |= assigned_names([ast.Expr(s.test)])
        self.head_kinds = {}
        for n in sorted(names):
            if n not in env.vars:
                continue
            if n in spec.havoc:
                env.vars[n] = spec.havoc[n](self, env.vars.get(n), env)
                continue
            kinds = self.var_kinds.setdefault((lid, n), [])
            entry = env.vars[n]
            k = self.kind_of(entry, lid, n)
            if isinstance(entry, Heap) and k[0] == "same":
                k = ("entry",)          # the object bound at loop entry, whatever it is on this path
                self.entry_obj[(lid, n)] = entry
            if k not in kinds:
                kinds.append(k)
            if "lost" in kinds:
                v = Unk(n) if self.typestate else NOVALUE
            elif kinds == [("entry",)] and k == ("entry",):
                v = entry
            else:
                v = self.havoc_kind(kinds[self.choose(len(kinds), "kind of " + n)], n, lid)
            if v is NOVALUE:
                env.vars.pop(n)      # reading it after the loop head is then an error: undecided
            else:
                env.vars[n] = v
        objs = list(spec.heap(self, env)) if spec.heap else []
        for o in objs:
            self.note_write(o)
            o.havoc(self)
        sites = self.inferred.setdefault(lid, set())
        for o in list(self.objects):
            for site, field in sorted(sites, key=repr):
                if o.site == site:
                    self.note_write(o, field)       # a change for the loops around this one
                    self.havoc_site(o, field, lid)
        return objs, names

    def havoc_site(self, o, field, lid):
        if isinstance(o, Obj) and field is not None and field in o.fields:
            k = self.kind_of(o.fields[field], lid, "." + field)
            kinds = self.var_kinds.setdefault((lid, "." + field), [])
            if k not in kinds:
                kinds.append(k)
            if "lost" in kinds:
                v = NOVALUE
            else:
                v = self.havoc_kind(kinds[self.choose(len(kinds), "kind of ." + field)], "." + field, lid)
            if v is NOVALUE:
                o.fields[field] = Unk(field) if self.typestate else Lost(field)
            else:
                o.fields[field] = v
        elif isinstance(o, Model):
            o.havoc(self)
        elif isinstance(o, Obj) and field is not None and not self.typestate:
            o.fields[field] = Lost(field)
        elif self.typestate:
            self.havoc_unknown(o, field)
        else:
            self.havoc_lost(o)

    def havoc_lost(self, o):
        if isinstance(o, (PyList, PySet, PyDict)) and self.dom is not None:
            from . import coll
            coll.promote(self, o, self.dom, self.vdom)
            o.havoc(self)
        elif isinstance(o, Obj):
            for f in o.fields:
                o.fields[f] = Lost(f)
        else:
            raise Unsupported("a loop changes %r" % (o,))

    def adopt(self, env, lid):
        """an empty container is one of what it will hold: candidates speak of it as such"""
        for n, v in env.vars.items():
            if hasattr(v, "adopt") and v.dom is None:
                for k in self.var_kinds.get((lid, n), []):
                    if k[0] == "model" and len(k) == 3 and k[2] is not None:
                        v.adopt(self, self.protos[(lid, n, k)].dom)
        for o in self.objects:
            if hasattr(o, "adopt") and o.dom is None and o.site in self.site_doms:
                o.adopt(self, self.site_doms[o.site])

    def live_invs(self, spec, env, i, it, lid, when, known=None):
        """the candidates not dropped, and all their names; those not among the known ones are dropped"""
        if self.site_doms:
            self.adopt(env, lid)
        dropped = self.dropped.setdefault(lid, set())
        self.cur_loop, self.cur_dropped = self.loop_nodes[lid], dropped
        if self.infer_first and not self.frames_known:
            return [], set()
        out, names = [], set()
        univ = {}
        for name, cond in spec.inv(self, env, i, it):
            if name in dropped:
                continue
            if known is not None and name not in known:     # it was not there to be checked on entry
                self.drop(lid, [name], when + " MISSING")
                continue
            names.add(name)
            if callable(cond):
                cond = cond()
            if isinstance(cond, SBool):
                cond = cond.e
            if isinstance(cond, Univ):
                if when == "head":
                    if self.by_scheme:
                        univ.setdefault(sort_key(cond.sort), []).append(cond)
                    else:
                        self.forall(cond.sort, cond.fn)
                    continue
                cond = cond.fn(self.point(z3.Const(fresh_name("any"), cond.sort)))
            if hasattr(cond, "goal"):
                if when == "head":
                    cond.assume(self)
                    continue
                cond = cond.goal(self)
            out.append((name, cond))
        for cs in univ.values():
            self.scheme(cs[0].sort, lambda x: z3.And(*[c.fn(x) for c in cs]))
        return out, names

    def drop(self, lid, names, when):
        self.dropped[lid].update(names)
        self.drop_log += ["%s %s @%s %s" % (n, when, lid[1], self.labels[-6:]) for n in names]
        self.pending = True             # the round goes on: what fails under more assumptions fails under fewer

    def check_inv(self, spec, env, i, it, when, lid, assumed=()):
        """candidates that need not hold here are dropped: first those false in some state, then the undecided"""
        live, names = self.live_invs(spec, env, i, it, lid, when)
        live = [(n, z3.BoolVal(c) if isinstance(c, bool) else c) for n, c in live]
        drop = [n for n in assumed if n not in names and n not in self.dropped[lid]]     # assumed, not checked here
        self.drop_log += ["%s MISSING" % n for n in drop]
        while live:
            goal = z3.And(*[c for _, c in live])
            r = self._check(z3.Not(goal))
            if r == z3.unsat:
                break
            if r == z3.sat:
                m = self.solver.model()
                bad = [n for n, c in live if z3.is_false(m.eval(c, model_completion=True))]
                if bad:
                    drop += bad
                    live = [(n, c) for n, c in live if n not in bad]
                    continue
            # one by one
            from . import backends
            for n, c in live:
                if not self.entails(c) and not (self._check(z3.Not(c)) == z3.unknown and
                                                backends.retry(self.pc, c)[0] == "unsat"):
                    drop.append(n)
            break
        if drop:
            self.drop(lid, drop, when)
        for name, _ in live:
            self.vcs.append(VC("loop@%s/%s/%s" % (env.fn_name, name, when), "proved", "", [], 0.0, "z3"))
        return names

    def assume_inv(self, spec, env, i, it, lid, known):
        live, names = self.live_invs(spec, env, i, it, lid, "head", known)
        for _name, cond in live:
            self.assume(cond)
        return names

    def cut_for(self, s, it, env, spec):
        from . import builtins_model as BMOD
        lid = (env.owner, self.loop_ordinal(s, env))
        self.loop_nodes[lid] = s
        from . import coll
        seq = BMOD.as_sequence(self, it)
        it = coll.underlying(it)
        n = seq.length(self)
        if isinstance(n, int):
            n = z3.IntVal(n)
        known = self.check_inv(spec, env, z3.IntVal(0), it, "entry", lid)
        objs, names = self.havoc(s, env, spec, lid, assigned_names([ast.Assign([s.target], ast.Constant(0))]))
        mode = self.choose(2, "loop@%d" % s.lineno)
        self.epoch += 1
        if mode == 0:      # after the loop
            self.assume(n >= 0)
            self.assume_inv(spec, env, n, it, lid, known)
            if not self.feasible():
                raise Dead()
            self.exec_block(s.orelse, env)
            return
        i = z3.Int(fresh_name("i"))
        self.assume(z3.And(i >= 0, i < n))
        known = self.assume_inv(spec, env, i, it, lid, known)
        if not self.feasible():
            raise Dead()
        self.assign(s.target, seq.elem(self, i), env)
        self.run_cut_body(s, env, spec, objs, names, lid,
                          lambda: self.check_inv(spec, env, i + 1, it, "step", lid, known))

    def run_cut_body(self, s, env, spec, objs, names, lid, back):
        fr = dict(epoch=self.epoch, ok=set(id(o) for o in objs), bad=[])
        self.frames.append(fr)
        before = set(env.vars)
        try:
            self.exec_block(s.body, env)
        except BreakSig:
            self.frames.remove(fr)
            return
        except ContinueSig:
            pass
        # back edge: what the body changed must be covered by what the loop head forgot
        new = False
        sites = self.inferred.setdefault(lid, set())
        for o, field in fr["bad"]:
            if o.site is None:
                raise Unsupported("a loop changes %r" % (o,))
            if (o.site, field) not in sites:
                sites.add((o.site, field))
                new = True
            if isinstance(o, Obj) and field in o.fields:
                new |= self.add_kind(o.fields[field], lid, "." + field)
        for n in names:
            if n in env.vars and n not in spec.havoc and (lid, n) in self.var_kinds:
                new |= self.add_kind(env.vars[n], lid, n)
                v = env.vars[n]
                if hasattr(v, "kind_key") and (lid, n) not in self.aliased and any(
                        w is v for m, w in env.vars.items() if m != n):
                    self.aliased.add((lid, n))
                    new = True
        if new:
            raise Restart("frame")
        back()
        raise Dead()

    def add_kind(self, v, lid, n):
        kinds = self.var_kinds.setdefault((lid, n), [])
        self.epoch -= 1
        k = self.kind_of(v, lid, n)
        if isinstance(v, Heap) and self.entry_obj.get((lid, n)) is v:
            k = ("entry",)
        self.epoch += 1
        if k not in kinds and "lost" not in kinds:
            kinds.append(k)
            return True
        return False

    def x_While(self, s, env):
        spec = self.loop_spec(s, env)
        if spec is None:
            n = 0
            while True:
                if self.typestate:
                    return self.while_unknown(s, env)
                t = self.eval(s.test, env)
                if not self.truth(t, "while@%d" % s.lineno):
                    break
                n += 1
                if n > self.max_unroll:
                    raise Unsupported("loop at line %d has no invariant" % s.lineno)
                try:
                    self.exec_block(s.body, env)
                except BreakSig:
                    return
                except ContinueSig:
                    pass
            self.exec_block(s.orelse, env)
            return
        lid = (env.owner, self.loop_ordinal(s, env))
        self.loop_nodes[lid] = s
        known = self.check_inv(spec, env, None, None, "entry", lid)
        objs, names = self.havoc(s, env, spec, lid)
        self.epoch += 1
        known = self.assume_inv(spec, env, None, None, lid, known)
        if spec.assume:
            spec.assume(self, env)
        if not self.feasible():
            raise Dead()
        if self.truth(self.eval(s.test, env), "while@%d" % s.lineno):
            dec0 = spec.decreases(self, env) if spec.decreases else None

            def back():
                self.check_inv(spec, env, None, None, "step", lid, known)
                if dec0 is not None:
                    d = spec.decreases(self, env)
                    self.prove("loop@%s/decreases" % env.fn_name, z3.And(dec0 >= 0, d < dec0))
            self.run_cut_body(s, env, spec, objs, names, lid, back)
            return
        self.exec_block(s.orelse, env)

    # --- loops of typestate units: everything the body assigns becomes unknown, ghost state must not change
    def for_unknown(self, s, it, env):
        self.cut_unknown(s, env, names_of_target(s.target), None,
                         lambda: self.assign_unknown(s.target, it, env))

    def assign_unknown(self, t, it, env):
        v = it.unknown_elem(self) if isinstance(it, Model) and hasattr(it, "unknown_elem") else Unk("elem")
        self.assign(t, v, env)

    def while_unknown(self, s, env):
        self.cut_unknown(s, env, (), lambda: self.eval(s.test, env), None)

    def cut_unknown(self, s, env, extra, test, bind):
        """loop spec entries: ("keep", owner, ordinal) -> {local: fn(E, old)}, ("ghost", owner, ordinal) ->
        fn(E, env, before) -> [(name, cond)] replacing 'the ghost state is unchanged'"""
        lid = (env.owner, self.loop_ordinal(s, env))
        keep = self.loops.get(("keep",) + lid, {})
        for n in sorted(assigned_names(s.body) | set(extra)):
            if n in keep and n in env.vars:
                env.vars[n] = keep[n](self, env.vars[n])
            elif n in env.vars:
                env.vars[n] = Unk(n)
        sites = self.inferred.setdefault(lid, set())
        for o in self.objects:
            for site, field in sites:
                if o.site == site:
                    self.note_write(o, field)
                    self.havoc_unknown(o, field)
        ghavoc = self.loops.get(("ghosthavoc",) + lid)
        if ghavoc is not None:
            ghavoc(self, env)
        before = dict(self.ghost)
        self.epoch += 1
        if bind is not None:
            go = self.choose(2, "for@%d" % s.lineno)
        else:
            go = self.truth(test(), "while@%d" % s.lineno)
        if not go:
            self.exec_block(s.orelse, env)
            return
        if bind:
            bind()
        fr = dict(epoch=self.epoch, ok=set(), bad=[])
        self.frames.append(fr)
        try:
            self.exec_block(s.body, env)
        except BreakSig:
            self.frames.remove(fr)
            return
        except ContinueSig:
            pass
        new = False
        for o, field in fr["bad"]:
            if o.site is None:
                self.prove("loop@%s/frame" % env.fn_name, False, "body changes %r" % (o,))
            elif (o.site, field) not in sites:
                sites.add((o.site, field))
                new = True
        if new:
            raise Restart("frame")
        chk = self.loops.get(("ghost",) + lid)
        if chk is not None:
            for name, cond in chk(self, env, before):
                self.prove("loop@%s/ghost/%s" % (env.fn_name, name), cond)
        else:
            self.ghost_unchanged("loop@%s" % env.fn_name, before)
        raise Dead()

    def ghost_unchanged(self, name, before):
        for k in sorted(set(before) | set(self.ghost)):
            a, b = before.get(k), self.ghost.get(k)
            if isinstance(a, Sym) and isinstance(b, Sym):
                same = a.e == b.e
            else:
                same = a is b or (type(a) is type(b) and not isinstance(a, (Sym, Heap)) and a == b)
            self.prove("%s/ghost/%s unchanged" % (name, k), same)

    def havoc_unknown(self, o, field):
        if isinstance(o, Obj):
            if field is None:
                for f in o.fields:
                    o.fields[f] = Unk(f)
            else:
                o.fields[field] = Unk(field)
        elif isinstance(o, (PyList, PyDict, PySet)):
            from .builtins_model import UnkHeap
            o.__class__ = UnkHeap
            o.label = str(o.site)
        else:
            o.havoc(self)

    # ---------------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def eval_tracked(self, e, env):
        if not self.calls:
            return Engine.eval(self, e, env)
        x = self.calls[-1][1]
        x.append(e)
        try:
            return Engine.eval(self, e, env)
        finally:
            x.pop()

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        ok, v = env.lookup(e.id)
        if ok:
            return v
        if e.id in env.globals:
            g = env.globals[e.id]
            return self.lift(g)
        if e.id in self.models:
            return Builtin(e.id, self.models[e.id])
        if hasattr(builtins, e.id):
            return getattr(builtins, e.id)
        # a local that is unbound on this path, or lost at a loop head
        node = env.node
        if node is not None and e.id in assigned_names(node.body if isinstance(node.body, list) else []):
            if self.typestate:
                if self.choose(2, "unbound " + e.id):
                    self.raise_(UnboundLocalError, e.id)
                return Unk(e.id)
            if self.frames or self.epoch:
                raise Unsupported("local %s not tracked across a loop" % e.id)
            self.raise_(UnboundLocalError, e.id)
        self.raise_(NameError, e.id)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Await(self, e, env):
        return self.await_(self.eval(e.value, env), "await@%d" % getattr(e, "lineno", 0))

    def e_Tuple(self, e, env):
        return tuple(self.eval_list(e.elts, env))

    def e_List(self, e, env):
        if self.list_model is not None:
            site = "list@%d" % e.lineno
            r = self.new(self.list_model(self, self.eval_list(e.elts, env)), site=site)
            if getattr(r, "dom", None) is not None:
                self.site_doms[site] = r.dom
            return r
        return self.new(PyList(self.eval_list(e.elts, env)), site="list@%d" % e.lineno)

    def e_Set(self, e, env):
        from . import builtins_model as BMOD
        s = self.new(PySet([]), site="set@%d" % e.lineno)
        for x in self.eval_list(e.elts, env):
            BMOD.set_add(self, s, x)
        return s

    def e_Dict(self, e, env):
        from . import builtins_model as BMOD
        d = self.new(PyDict([]), site="dict@%d" % e.lineno)
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            BMOD.setitem(self, d, self.eval(k, env), self.eval(v, env))
        return d

    def eval_list(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                items = self.iterate(v)
                if items is None:
                    out.append(StarArgs(v))
                else:
                    out.extend(items)
            else:
                out.append(self.eval(x, env))
        return out

    def e_JoinedStr(self, e, env):
        from . import builtins_model as BMOD
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(x.value, env)
                if x.format_spec is not None or x.conversion != -1:
                    parts.append(fresh_str("fmt"))
                else:
                    parts.append(BMOD.to_str(self, v))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return BMOD.str_concat(parts)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            if self.truth(v, "boolop@%d" % e.lineno) != is_and:
                return v
        return v

    def e_UnaryOp(self, e, env):
        from . import builtins_model as BMOD
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth_expr(v)
            if isinstance(t, bool):
                return not t
            if t is None:
                return not self.truth(v, "not@%d" % e.lineno)
            return SBool(z3.Not(t))
        return BMOD.unary(self, e.op, v)

    def e_BinOp(self, e, env):
        from . import builtins_model as BMOD
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return BMOD.binop(self, e.op, a, b)

    def e_Compare(self, e, env):
        from . import builtins_model as BMOD
        left = self.eval(e.left, env)
        if len(e.ops) == 1:
            return BMOD.compare(self, e.ops[0], left, self.eval(e.comparators[0], env))
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, env)
            r = BMOD.compare(self, op, left, right)
            if i == len(e.ops) - 1:
                return r
            if not self.truth(r, "cmp@%d" % e.lineno):
                return False
            left = right

    def e_IfExp(self, e, env):
        if self.truth(self.eval(e.test, env), "ifexp@%d" % e.lineno):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Lambda(self, e, env):
        defaults = [self.eval(d, env) for d in e.args.defaults]
        return Clo(e, env, defaults, {}, "<lambda>", env.owner + ".<lambda>")

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def eval_index(self, e, env):
        if isinstance(e, ast.Slice):
            return slice(self.eval(e.lower, env) if e.lower else None,
                         self.eval(e.upper, env) if e.upper else None,
                         self.eval(e.step, env) if e.step else None)
        return self.eval(e, env)

    def e_Subscript(self, e, env):
        from . import builtins_model as BMOD
        return BMOD.getitem(self, self.eval(e.value, env), self.eval_index(e.slice, env))

    def e_Call(self, e, env):
        from . import builtins_model as BMOD
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            ok, selfv = env.lookup(env.node.args.args[0].arg) if env.node.args.args else (False, None)
            return SuperProxy(env.cls_cell, selfv)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and len(e.args) == 2:
            return SuperProxy(self.eval(e.args[0], env), self.eval(e.args[1], env))
        if isinstance(e.func, ast.Name) and e.func.id == "globals" and not e.args:
            return BMOD.GlobalsView(env.globals)
        # any/all over a comprehension: evaluated lazily, element by element
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and \
                isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and not env.lookup(e.func.id)[0]:
            return self.any_all(e.func.id, e.args[0], env)
        f = self.eval(e.func, env)
        args = self.eval_list(e.args, env)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                items = BMOD.dict_items(self, v)
                if items is None:
                    if self.typestate:
                        continue
                    raise Unsupported("symbolic ** arguments")
                for a, b in items:
                    kwargs[a] = b
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, e)

    def any_all(self, which, comp, env):
        if len(comp.generators) != 1:
            items = self.comp_items(comp, env)
            return self.fold_bool(which, items)
        g = comp.generators[0]
        it = self.eval(g.iter, env)
        items = self.iterate(it)
        if items is None:
            if isinstance(it, Unk):
                self.maybe_raise("iter")
                return Unk(which)
            if isinstance(it, Model) and self.list_model:
                cenv = Env({"#src": it}, env, env.globals, env.owner, env.fn_name, env.cls_cell)
                cenv.node = env.node
                self.exec(search_loop(comp, which), cenv)
                return ("#none" in cenv.vars) == (which == "all")
            if isinstance(it, Model):
                return it.any_all(self, which, comp, g, env)
            raise Unsupported("%s over %r" % (which, it))
        cenv = Env({}, env, env.globals, env.owner, env.fn_name, env.cls_cell)
        cenv.node = env.node
        # Conjunction or disjunction as one term when evaluation has no side conditions, else by forking
        for x in items:
            self.assign(g.target, x, cenv)
            skip = False
            for c in g.ifs:
                if not self.truth(self.eval(c, cenv), which):
                    skip = True
                    break
            if skip:
                continue
            if self.truth(self.eval(comp.elt, cenv), which) != (which == "all"):
                return which == "any"
        return which == "all"

    def fold_bool(self, which, items):
        for v in items:
            if self.truth(v, which) != (which == "all"):
                return which == "any"
        return which == "all"

    def comp_items(self, comp, env):
        """items of a list/set/generator comprehension; None if a source is symbolic"""
        out = []
        cenv = Env({}, env, env.globals, env.owner, env.fn_name, env.cls_cell)
        cenv.node = env.node

        def rec(k):
            if k == len(comp.generators):
                if isinstance(comp, ast.DictComp):
                    out.append((self.eval(comp.key, cenv), self.eval(comp.value, cenv)))
                else:
                    out.append(self.eval(comp.elt, cenv))
                return
            g = comp.generators[k]
            it = self.eval(g.iter, env if k == 0 else cenv)
            items = self.iterate(it)
            if items is None:
                raise SymSource(it, g)
            for x in items:
                self.assign(g.target, x, cenv)
                if all(self.truth(self.eval(c, cenv), "comp") for c in g.ifs):
                    rec(k + 1)
        rec(0)
        return out

    def comp(self, e, env, make):
        try:
            items = self.comp_items(e, env)
        except SymSource as s:
            if isinstance(s.it, Model) and len(e.generators) == 1 and \
                    (has_await(e) or getattr(s.it, "as_loop", False)) and isinstance(e, (ast.ListComp, ast.GeneratorExp)):
                return self.comp_loop(e, s.it, env)
            if self.list_model and isinstance(s.it, Model) and len(e.generators) == 1 and not isinstance(e, ast.DictComp):
                r = self.comp_loop(e, s.it, env)
                return self.new(r.to_set(self), site="setcomp@%d" % e.lineno) if isinstance(e, ast.SetComp) else r
            if isinstance(s.it, Model) and len(e.generators) == 1:
                return s.it.comprehension(self, e, s.gen, env)
            if self.typestate:
                return self.comp_unknown(e, s, env, make)
            raise Unsupported("comprehension over %r" % (s.it,))
        return make(items)

    def comp_loop(self, e, it, env):
        """a comprehension whose elements are awaited is the loop that appends them"""
        g = e.generators[0]
        made = self.list_model(self, []) if self.list_model else PyList([])
        cenv = Env({"#comp": self.new(made, site="listcomp@%d:%d" % (e.lineno, e.col_offset)), "#src": it}, env, env.globals,
                   env.owner, env.fn_name, env.cls_cell)
        cenv.node = env.node
        self.exec(comp_as_loop(e), cenv)
        return cenv.vars["#comp"]

    def comp_unknown(self, e, s, env, make):
        # evaluate one arbitrary element for its effects and exceptions
        cenv = Env({}, env, env.globals, env.owner, env.fn_name, env.cls_cell)
        cenv.node = env.node
        before = dict(self.ghost)
        if self.choose(2, "comp@%d" % e.lineno):
            for g in e.generators:
                self.assign_unknown(g.target, s.it, cenv)
                for c in g.ifs:
                    self.eval(c, cenv)
            if isinstance(e, ast.DictComp):
                self.eval(e.key, cenv)
                self.eval(e.value, cenv)
            else:
                self.eval(e.elt, cenv)
            self.ghost_unchanged("comprehension@%s" % env.fn_name, before)
        return Unk("comp")

    def e_ListComp(self, e, env):
        return self.comp(e, env, lambda items: self.new(PyList(items), site="listcomp@%d" % e.lineno))

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, lambda items: self.new(PyList(items), site="gen@%d" % e.lineno))

    def e_SetComp(self, e, env):
        from . import builtins_model as BMOD

        def make(items):
            s = self.new(PySet([]))
            for x in items:
                BMOD.set_add(self, s, x)
            return s
        return self.comp(e, env, make)

    def e_DictComp(self, e, env):
        from . import builtins_model as BMOD

        def make(items):
            d = self.new(PyDict([]))
            for k, v in items:
                BMOD.setitem(self, d, k, v)
            return d
        return self.comp(e, env, make)


class StarArgs:
    def __init__(self, value):
        self.value = value


class SymSource(Exception):
    def __init__(self, it, gen):
        self.it = it
        self.gen = gen


class _NoValue:
    pass


class Lost:
    """a field or local whose value the loop abstraction does not track"""
    def __init__(self, what):
        self.what = what


NOVALUE = _NoValue()


@memo
def names_of_target(t):
    return frozenset(assigned_names([ast.Assign([t], ast.Constant(0))]))


def preorder(node):
    """nodes in source order, not entering nested functions"""
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield c
        yield from preorder(c)


def z3_unescape(s):
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
