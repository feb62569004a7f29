"""Names, variables, attributes and arguments are there when they are used."""

import ast
import builtins
import importlib

from ..framework import *
from ..program import Func, INTERNAL, PACKAGE, Prop, dotted
from ..scen import *
from .messages import V3, outgoing
from .requests import MGR, REPORT_KINDS, Monitor, explore
from .routing import processors
from .usm import USM, decoded, incoming_models, usm_models

LIMIT = 400


# -- definite assignment -------------------------------------------------------

def key(e):
    return ast.dump(e)


def plain(e):
    """Whether an expression has the same value until a name in it changes."""
    return not any(isinstance(n, (ast.Call, ast.Await, ast.Yield,
                                  ast.YieldFrom, ast.NamedExpr))
                   for n in ast.walk(e))


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class St:
    """What is known before a statement: the locals that are not assigned and
    the truth of conditions."""
    __slots__ = ("un", "facts")

    def __init__(self, un, facts=()):
        self.un = un
        self.facts = frozenset(facts)

    def __eq__(self, o):
        return self.un == o.un and self.facts == o.facts

    def __hash__(self):
        return hash((self.un, self.facts))

    def put(self, name):
        return St(self.un - {name}, self.without(name))

    def drop(self, name):
        return St(self.un | {name}, self.without(name))

    def without(self, name):
        return {f for f in self.facts if name not in f[2]}

    def truth(self, e):
        k = key(e)
        for f in self.facts:
            if f[0] == k:
                return f[1]
        return None

    def learn(self, e, value):
        if not plain(e):
            return self
        return St(self.un, self.facts | {(key(e), value,
                                          frozenset(names_in(e)))})


class Flow:
    """Walks one function; reports reads of locals that may be unassigned."""

    def __init__(self, f):
        self.f = f
        a = f.node.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.params |= {x.arg for x in (a.vararg, a.kwarg) if x is not None}
        self.locals = f.locals
        self.reads = {}         # id(node) -> [node, bound once, unbound once]
        self.breaks, self.continues, self.catch = [], [], []
        self.exits = []

    def run(self):
        body = self.f.node.body
        st = {St(frozenset(self.locals - self.params))}
        if isinstance(body, list):
            self.block(body, st)
        else:
            self.use(body, st)
        return self

    # states are sets of St
    def cap(self, ss):
        if len(ss) > LIMIT:
            un = {}
            for s in ss:
                un.setdefault(s.un, []).append(s.facts)
            return {St(u, frozenset.intersection(*f)) for u, f in un.items()}
        return ss

    def block(self, stmts, ss):
        for s in stmts:
            if not ss:
                return ss
            ss = self.cap(self.stmt(s, ss))
        return ss

    def may_raise(self, ss):
        for sink in self.catch[-1:]:
            sink |= ss

    def stmt(self, s, ss):
        if not isinstance(s, (ast.Pass, ast.Break, ast.Continue, ast.Global,
                              ast.Nonlocal, ast.Import, ast.ImportFrom)) \
                and not harmless(s):
            self.may_raise(ss)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            return m(s, ss)
        return self.use(s, ss)

    def use(self, e, ss):
        """Reads in an expression; walrus targets are assigned."""
        if e is None:
            return ss
        if isinstance(e, ast.IfExp):
            ss = self.use(e.test, ss)
            return self.use(e.body, self.split(e.test, ss, True)) \
                | self.use(e.orelse, self.split(e.test, ss, False))
        if isinstance(e, ast.BoolOp):
            out, cur = set(), ss
            for i, v in enumerate(e.values):
                cur = self.use(v, cur)
                if i < len(e.values) - 1:
                    stop = isinstance(e.op, ast.Or)
                    out |= self.split(v, cur, stop)
                    cur = self.split(v, cur, not stop)
            return out | cur
        if isinstance(e, ast.NamedExpr):
            return self.store(e.target, self.use(e.value, ss))
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals:
                self.read(e, ss)
            return ss
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            ss = self.use(e.generators[0].iter, ss)
            own = {n.id for g in e.generators for n in ast.walk(g.target)
                   if isinstance(n, ast.Name)}
            inner = [e.elt] if not isinstance(e, ast.DictComp) else [
                e.key, e.value]
            for g in e.generators:
                inner += g.ifs
                if g is not e.generators[0]:
                    inner.append(g.iter)
            if not isinstance(e, ast.GeneratorExp):
                for x in inner:
                    for n in ast.walk(x):
                        if isinstance(n, ast.Name) and n.id not in own \
                                and n.id in self.locals and isinstance(
                                    n.ctx, ast.Load):
                            self.read(n, ss)
            return ss
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + e.args.kw_defaults:
                ss = self.use(d, ss)
            return ss
        for x in ast.iter_child_nodes(e):
            if isinstance(x, (ast.expr, ast.keyword, ast.slice,
                              ast.FormattedValue)):
                ss = self.use(x, ss)
        return ss

    def read(self, n, ss):
        r = self.reads.setdefault(id(n), [n, False, False])
        for s in ss:
            r[2 if n.id in s.un else 1] = True

    def split(self, test, ss, want):
        """The states in which a condition has the truth value."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.split(test.operand, ss, not want)
        if isinstance(test, ast.BoolOp):
            every = isinstance(test.op, ast.And)
            if every == want:
                for v in test.values:
                    ss = self.split(v, ss, want)
                return ss
            if len(test.values) == 2:
                a, b = test.values
                return self.split(a, ss, want) | self.split(
                    b, self.split(a, ss, not want), want)
            return ss
        if isinstance(test, ast.Constant):
            return ss if bool(test.value) == want else set()
        if isinstance(test, ast.Compare) and len(test.ops) == 1 \
                and isinstance(test.ops[0], (ast.IsNot, ast.NotEq, ast.NotIn)):
            op = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq,
                  ast.NotIn: ast.In}[type(test.ops[0])]()
            return self.split(ast.Compare(test.left, [op], test.comparators),
                              ss, not want)
        out = set()
        for s in ss:
            t = s.truth(test)
            if t is None:
                out.add(s.learn(test, want))
            elif t == want:
                out.add(s)
        return out

    def store(self, t, ss):
        if isinstance(t, ast.Name):
            return {s.put(t.id) for s in ss} if t.id in self.locals else ss
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                ss = self.store(x, ss)
            return ss
        if isinstance(t, ast.Starred):
            return self.store(t.value, ss)
        return self.use(t, ss)

    # statements
    def s_Assign(self, s, ss):
        ss = self.use(s.value, ss)
        for t in s.targets:
            ss = self.store(t, ss)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                and isinstance(s.value, ast.Constant):
            n = ast.Name(s.targets[0].id, ast.Load())
            v = s.value.value
            none = ast.Compare(n, [ast.Is()], [ast.Constant(None)])
            ss = {x.learn(n, bool(v)).learn(none, v is None) for x in ss}
        return ss

    def s_AnnAssign(self, s, ss):
        if s.value is None:
            return ss
        return self.store(s.target, self.use(s.value, ss))

    def s_AugAssign(self, s, ss):
        if isinstance(s.target, ast.Name) and s.target.id in self.locals:
            self.read(s.target, ss)
        else:
            ss = self.use(s.target, ss)
        return self.store(s.target, self.use(s.value, ss))

    def s_Delete(self, s, ss):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in self.locals:
                    self.read(t, ss)
                    ss = {x.drop(t.id) for x in ss}
            else:
                ss = self.use(t, ss)
        return ss

    def s_Return(self, s, ss):
        self.use(s.value, ss)
        return self.leave(ss)

    def leave(self, ss):
        self.exits.append(ss)
        return set()

    def s_Raise(self, s, ss):
        ss = self.use(s.exc, ss)
        ss = self.use(s.cause, ss)
        self.may_raise(ss)
        return self.leave(ss)

    def s_Assert(self, s, ss):
        ss = self.use(s.test, ss)
        self.use(s.msg, self.split(s.test, ss, False))
        return self.split(s.test, ss, True)

    def s_If(self, s, ss):
        ss = self.use(s.test, ss)
        return self.block(s.body, self.split(s.test, ss, True)) \
            | self.block(s.orelse, self.split(s.test, ss, False))

    def loop(self, s, enter, ss, surely):
        """enter(states) -> (into the body, past the loop)"""
        self.breaks.append(set())
        self.continues.append(set())
        seen, past, cur, first = set(), set(), ss, True
        while True:
            into, out = enter(cur)
            if not (first and surely):
                past |= out
            first = False
            into -= seen
            if not into:
                break
            seen |= into
            if len(seen) > LIMIT:
                un = {x.un for x in seen}
                into = {St(u) for u in un}
                if into <= seen:
                    break
                seen |= into
            nxt = self.block(s.body, into)
            cur = self.cap(nxt | self.continues[-1])
            self.continues[-1] = set()
        self.continues.pop()
        past = self.block(s.orelse, past)
        return self.cap(past | self.breaks.pop())

    def s_While(self, s, ss):
        def enter(ss):
            ss = self.use(s.test, ss)
            return self.split(s.test, ss, True), self.split(s.test, ss, False)
        return self.loop(s, enter, ss, False)

    def s_For(self, s, ss):
        ss = self.use(s.iter, ss)

        def enter(ss):
            return self.store(s.target, ss), ss
        return self.loop(s, enter, ss, never_empty(s.iter))

    s_AsyncFor = s_For

    def s_Break(self, s, ss):
        self.breaks[-1] |= ss
        return set()

    def s_Continue(self, s, ss):
        self.continues[-1] |= ss
        return set()

    def s_With(self, s, ss):
        for i in s.items:
            ss = self.use(i.context_expr, ss)
            self.may_raise(ss)
            if i.optional_vars is not None:
                ss = self.store(i.optional_vars, ss)
        return self.block(s.body, ss)

    s_AsyncWith = s_With

    def s_Try(self, s, ss):
        self.catch.append(set())
        outer = [self.breaks, self.continues]
        if s.finalbody:
            jumps = [set() for _ in self.breaks], [
                set() for _ in self.continues]
            self.breaks, self.continues = jumps
            n = len(self.exits)
        done = self.block(s.body, ss)
        raised = self.catch.pop()
        if s.finalbody:
            # what the handlers raise passes the final block as well
            self.catch.append(set())
        done = self.block(s.orelse, done)
        caught = False
        for h in s.handlers:
            caught |= h.type is None or dotted(h.type) in (
                "Exception", "BaseException")
            hs = self.use(h.type, raised) if h.type is not None else raised
            if h.name:
                hs = {x.put(h.name) for x in hs}
            hs = self.block(h.body, hs)
            if h.name:
                hs = {x.drop(h.name) for x in hs}
            done = done | hs
        if s.finalbody:
            late = self.catch.pop()
            away = late | (set() if caught else raised)
            left = set().union(*self.exits[n:]) if self.exits[n:] else set()
            self.breaks, self.continues = outer
            for mine, theirs in ((self.breaks, jumps[0]),
                                 (self.continues, jumps[1])):
                for a, b in zip(mine, theirs):
                    if b:
                        a |= self.block(s.finalbody, b)
            gone = self.block(s.finalbody, away | left)
            self.may_raise(gone)
            return self.block(s.finalbody, self.cap(done))
        if not caught:
            self.may_raise(raised)
        return self.cap(done)

    s_TryStar = s_Try

    def s_Match(self, s, ss):
        ss = self.use(s.subject, ss)
        out, total = set(), False
        for case in s.cases:
            cur = ss
            for n in ast.walk(case.pattern):
                nm = getattr(n, "name", None) or getattr(n, "rest", None)
                if isinstance(nm, str):
                    cur = {x.put(nm) for x in cur}
            if case.guard is not None:
                cur = self.use(case.guard, cur)
            elif isinstance(case.pattern, ast.MatchAs) \
                    and case.pattern.pattern is None:
                total = True
            out |= self.block(case.body, cur)
        return out if total else out | ss

    def s_FunctionDef(self, s, ss):
        for d in s.decorator_list + s.args.defaults + s.args.kw_defaults:
            ss = self.use(d, ss)
        return {x.put(s.name) for x in ss}

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, ss):
        for d in s.decorator_list + s.bases:
            ss = self.use(d, ss)
        return {x.put(s.name) for x in ss}

    def s_Import(self, s, ss):
        for a in s.names:
            n = (a.asname or a.name).split(".")[0]
            ss = {x.put(n) for x in ss}
        return ss

    s_ImportFrom = s_Import


def harmless(s):
    """Statements that raise nothing."""
    if isinstance(s, ast.Assign):
        return all(isinstance(t, ast.Name) for t in s.targets) and isinstance(
            s.value, (ast.Constant, ast.Name))
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) \
        or isinstance(s, (ast.Return, ast.FunctionDef)) and getattr(
            s, "value", None) is None and not getattr(s, "decorator_list", 0) \
        or isinstance(s, (ast.If, ast.While, ast.Try, ast.With, ast.For)) \
        and False


def never_empty(e):
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return bool(e.elts) and not any(isinstance(x, ast.Starred)
                                        for x in e.elts)
    if isinstance(e, ast.Call) and dotted(e.func) == "range" and all(
            isinstance(a, ast.Constant) for a in e.args) and e.args:
        return bool(range(*[a.value for a in e.args]))
    return False


def functions(c):
    """Every function, with those nested in others."""
    return sorted(set(c.prog.funcs.values()), key=lambda f: f.qual)


def variables(c):
    for f in functions(c):
        flow = Flow(f).run()
        c.functions.add(f.qual)
        for n, bound, unbound in flow.reads.values():
            c.count("reads of variables")
            if not c.expect(not unbound, "variables", f"{f.qual}: {n.id}",
                            f"{f.module.relpath}:{n.lineno}",
                            f"{n.id} is read on a path on which it was not "
                            "assigned"):
                break


# -- names ------------------------------------------------------------------------

def bound_inside(node):
    """Names a scope of its own binds (comprehensions, lambdas)."""
    out = set()
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp,
                         ast.GeneratorExp)):
        for g in node.generators:
            out |= {n.id for n in ast.walk(g.target)
                    if isinstance(n, ast.Name)}
    elif isinstance(node, (ast.Lambda, ast.FunctionDef,
                           ast.AsyncFunctionDef)):
        a = node.args
        out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        out |= {x.arg for x in (a.vararg, a.kwarg) if x is not None}
    return out


def stored(body):
    out = set()
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                            ast.ClassDef)):
            out.add(n.name)
            continue
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Lambda):
            continue
        for x in ("name", "rest"):
            if isinstance(n, (getattr(ast, "MatchAs", ()), getattr(
                    ast, "MatchStar", ()), getattr(ast, "MatchMapping", ()))) \
                    and isinstance(getattr(n, x, None), str):
                out.add(getattr(n, x))
        todo += ast.iter_child_nodes(n)
    return out


class Names(ast.NodeVisitor):
    def __init__(self, c, m):
        self.c = c
        self.m = m
        self.scopes = []
        self.known = {}
        self.where = m.name

    def defined(self, name):
        if any(name in s for s in self.scopes):
            return True
        if name not in self.known:
            self.known[name] = bool(
                self.c.prog.resolve(self.m.name, name)) or hasattr(
                    builtins, name) or name in (
                        "__name__", "__file__", "__path__", "__doc__",
                        "__class__", "__all__", "__package__", "__spec__") \
                or name in stored(self.m.tree.body)
        return self.known[name]

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.c.count("names")
            self.c.expect(self.defined(n.id), "names",
                          f"{self.where}: {n.id}",
                          f"{self.m.relpath}:{n.lineno}",
                          f"{n.id} is not defined anywhere")

    def visit_Attribute(self, n):
        self.generic_visit(n)
        d = dotted(n.value)
        if d is None or any(d.split(".")[0] in s for s in self.scopes):
            return
        bs = self.c.prog.resolve_expr(self.m.name, n.value)
        if len(bs) != 1:
            return
        k, what = bs[0][0], bs[0][1]
        if k == "mod" and what in self.c.prog.modules:
            self.c.count("names")
            self.c.expect(
                bool(self.c.prog.resolve(what, n.attr))
                or n.attr.startswith("__")
                or n.attr in stored(self.c.prog.modules[what].tree.body),
                "names", f"{self.where}: {d}.{n.attr}",
                f"{self.m.relpath}:{n.lineno}",
                f"module {what} has no {n.attr}")
        elif k == "ext" and "." not in what and not what.startswith(PACKAGE):
            mod = external(what)
            if mod is not None:
                self.c.count("names")
                self.c.expect(hasattr(mod, n.attr), "names",
                              f"{self.where}: {d}.{n.attr}",
                              f"{self.m.relpath}:{n.lineno}",
                              f"module {what} has no {n.attr}")

    def enter(self, names, nodes):
        self.scopes.append(names)
        for x in nodes:
            if x is not None:
                self.visit(x)
        self.scopes.pop()

    def function(self, n):
        for x in n.decorator_list + n.args.defaults + n.args.kw_defaults:
            if x is not None:
                self.visit(x)
        was, self.where = self.where, f"{self.where}.{n.name}"
        # a class body is no scope for the functions in it
        hidden = [s for s in self.scopes if isinstance(s, ClassScope)]
        self.scopes = [s for s in self.scopes if s not in hidden] \
            if hidden else self.scopes
        self.enter(bound_inside(n) | stored(n.body) | {"__class__"}, n.body)
        self.scopes += hidden
        self.where = was

    visit_FunctionDef = visit_AsyncFunctionDef = function

    def visit_Lambda(self, n):
        for x in n.args.defaults + n.args.kw_defaults:
            if x is not None:
                self.visit(x)
        self.enter(bound_inside(n), [n.body])

    def comp(self, n):
        self.enter(bound_inside(n), list(ast.iter_child_nodes(n)))

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_comprehension(self, n):
        self.generic_visit(n)

    def visit_ClassDef(self, n):
        for x in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.visit(x)
        was, self.where = self.where, f"{self.where}.{n.name}"
        self.enter(ClassScope(stored(n.body)), n.body)
        self.where = was

    def visit_AnnAssign(self, n):
        # annotations of locals are not evaluated
        if n.value is not None:
            self.visit(n.value)
        self.visit(n.target)


class ClassScope(set):
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o


_ext = {}


def external(name):
    import sys
    if name not in _ext:
        _ext[name] = None
        if name in sys.stdlib_module_names:
            try:
                _ext[name] = importlib.import_module(name)
            except ImportError:
                pass
    return _ext[name]


def names(c):
    for m in c.prog.modules.values():
        Names(c, m).visit(m.tree)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and not n.level:
                mod = external((n.module or "").split(".")[0]) \
                    if "." not in (n.module or "") else None
                if mod is None:
                    continue
                for a in n.names:
                    c.count("names")
                    c.expect(a.name == "*" or hasattr(mod, a.name), "names",
                             f"{m.name}: import {a.name}",
                             f"{m.relpath}:{n.lineno}",
                             f"module {n.module} has no {a.name}")


# -- attributes ---------------------------------------------------------------------

class Attributes:
    """The attributes of instances of one class."""

    def __init__(self, c, cls):
        self.c = c
        self.prog = c.prog
        self.cls = cls
        self.real = []
        self.open = False
        for k in cls.mro:
            for b in k.ext_bases:
                n = b if isinstance(b, str) else str(b)
                mod, _, leaf = n.rpartition(".")
                try:
                    self.real.append(getattr(importlib.import_module(
                        mod or "builtins"), leaf))
                except (ImportError, AttributeError):
                    self.open = True
            if any(n in k.members for n in ("__getattr__",
                                            "__getattribute__")):
                self.open = True
        self.members = {n for k in cls.mro for n in k.members}
        self.anywhere = set()   # set by some method of the class
        self.methods = {}
        for k in reversed(cls.mro):
            for n, mem in k.members.items():
                self.methods[n] = (mem, k)
        for k in cls.mro:
            for n, mem in k.members.items():
                for f in funcs_in(mem):
                    me = self_name(f)
                    for x in ast.walk(f.node):
                        if me and isinstance(x, ast.Attribute) and isinstance(
                                x.value, ast.Name) and x.value.id == me \
                                and isinstance(x.ctx, ast.Store):
                            self.anywhere.add(x.attr)
                        if isinstance(x, ast.Call) and dotted(x.func) in (
                                "setattr", "object.__setattr__") or \
                                isinstance(x, ast.Attribute) and x.attr == \
                                "__dict__" or isinstance(x, ast.Call) \
                                and dotted(x.func) == "vars":
                            self.open = True
        self.surely = self.after("__init__", None, frozenset())

    def has(self, name):
        return name in self.members or name in (
            "__class__", "__dict__", "__doc__", "__module__") or any(
                hasattr(r, name) for r in self.real) or hasattr(object, name)

    def after(self, name, start, seen):
        """Attributes set on every normal path of a method, that of the
        class after `start` in its linearization."""
        owner = self.prog.member_owner(self.cls, name, after=start)
        if owner is None or (owner, name) in seen:
            return frozenset()
        fs = funcs_in(owner.members[name])
        if len(fs) != 1:
            return frozenset()
        a = SetAttrs(self, fs[0], owner, seen | {(owner, name)})
        return a.result()


def funcs_in(mem):
    if isinstance(mem, Func):
        return [mem]
    if isinstance(mem, Prop):
        return [f for f in (mem.getter, mem.setter) if f is not None]
    return []


def self_name(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    if f.kind in ("staticmethod", "classmethod") or not pos:
        return None
    return pos[0].arg


class SetAttrs(Flow):
    """Definite assignment of the attributes of self along one method."""

    def __init__(self, attrs, f, owner, seen):
        Flow.__init__(self, f)
        self.attrs = attrs
        self.owner = owner
        self.seen = seen
        self.me = self_name(f)
        self.selfreads = {}
        self.normal = []

    def result(self):
        self.names = frozenset("." + n for n in self.attrs.anywhere)
        st = {St(frozenset(self.locals - self.params) | self.names)}
        end = self.block(self.f.node.body, st)
        ends = set().union(end, *self.normal)
        if not ends:
            return frozenset(n for n in self.attrs.anywhere)
        un = frozenset().union(*[s.un for s in ends])
        return frozenset(n for n in self.attrs.anywhere if "." + n not in un)

    def s_Return(self, s, ss):
        ss = self.use(s.value, ss)
        self.normal.append(ss)
        return self.leave(ss)

    def store(self, t, ss):
        if isinstance(t, ast.Attribute) and isinstance(
                t.value, ast.Name) and t.value.id == self.me:
            mem = self.attrs.prog.member(self.attrs.cls, t.attr)
            if isinstance(mem, Prop) and mem.setter is not None:
                if (mem, "set") in self.seen:
                    return ss
                got = SetAttrs(self.attrs, mem.setter, self.owner,
                               self.seen | {(mem, "set")}).result()
                return {St(s.un - {"." + n for n in got}, s.facts)
                        for s in ss}
            return {St(s.un - {"." + t.attr}, s.facts) for s in ss}
        return Flow.store(self, t, ss)

    def use(self, e, ss):
        if isinstance(e, ast.Attribute) and isinstance(
                e.value, ast.Name) and e.value.id == self.me \
                and isinstance(e.ctx, ast.Load):
            r = self.selfreads.setdefault(id(e), [e, False])
            r[1] |= any("." + e.attr in s.un for s in ss)
        ss = Flow.use(self, e, ss)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            v, name = e.func.value, e.func.attr
            got = frozenset()
            if isinstance(v, ast.Name) and v.id == self.me:
                got = self.attrs.after(name, None, self.seen)
            elif isinstance(v, ast.Call) and dotted(v.func) == "super":
                got = self.attrs.after(name, self.owner, self.seen)
            elif e.args and isinstance(e.args[0], ast.Name) \
                    and e.args[0].id == self.me and dotted(v):
                for b in self.attrs.prog.resolve_expr(
                        self.f.module.name, v):
                    if b[0] == "class" and b[1] in self.attrs.cls.mro:
                        o = self.attrs.prog.member_owner(b[1], name)
                        i = self.attrs.cls.mro.index(o) if o in \
                            self.attrs.cls.mro else 0
                        got = self.attrs.after(
                            name, self.attrs.cls.mro[i - 1] if i else None,
                            self.seen)
            if got:
                ss = {St(s.un - {"." + n for n in got}, s.facts) for s in ss}
        return ss


def guarded(f):
    """Nodes for which a missing attribute is provided for."""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try) and any(
                h.type is None or any(
                    dotted(x) in ("AttributeError", "Exception",
                                  "BaseException")
                    for x in (h.type.elts if isinstance(h.type, ast.Tuple)
                              else [h.type])) for h in n.handlers):
            for s in n.body:
                out |= {id(x) for x in ast.walk(s)}
        if isinstance(n, (ast.If, ast.IfExp, ast.BoolOp)) and any(
                isinstance(x, ast.Call) and dotted(x.func) in (
                    "hasattr", "getattr") for x in ast.walk(n)):
            out |= {id(x) for x in ast.walk(n)}
    return out


def made(c):
    """Classes that are constructed by name somewhere."""
    out = set()
    for m in c.prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and dotted(n.func):
                out |= {b[1].qual for b in c.prog.resolve_expr(
                    m.name, n.func) if b[0] == "class"}
    return out


def in_use(c):
    """Classes whose own instances there are: those made somewhere, or that
    have no subclasses."""
    out = []
    direct = made(c)
    for k in c.prog.classes.values():
        subs = [x for x in c.prog.subclasses.get(k.qual, []) if x is not k]
        if subs and k.qual not in direct or c.prog.is_enum(k):
            continue
        out.append(k)
    return out


def attributes(c):
    table = {}
    for k in in_use(c):
        a = table[k.qual] = Attributes(c, k)
        c.count("classes")
        if a.open:
            continue
        done = set()
        for m, (mem, owner) in sorted(a.methods.items()):
            for f in funcs_in(mem):
                me = self_name(f)
                if me is None or f.node in done:
                    continue
                done.add(f.node)
                reads(c, a, k, f, owner, me, m)
    stores = {n.attr for m in c.prog.modules.values()
              for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)
              and isinstance(n.ctx, ast.Store)}
    typed(c, table, stores)


def reads(c, a, k, f, owner, me, m):
    flow = SetAttrs(a, f, owner, frozenset())
    flow.names = None
    start = frozenset("." + n for n in a.anywhere)
    if m != "__init__":
        start -= {"." + n for n in a.surely}
    flow.block(f.node.body, {St(frozenset(flow.locals - flow.params) | start)})
    skip = guarded(f)
    inner = {id(n): n for n in ast.walk(f.node)
             if isinstance(n, ast.Attribute) and isinstance(
                 n.value, ast.Name) and n.value.id == me
             and isinstance(n.ctx, ast.Load)}
    for i, n in inner.items():
        if i in skip or a.has(n.attr):
            continue
        late = flow.selfreads.get(i, [n, m != "__init__" and
                                      n.attr not in a.surely])[1]
        c.count("reads of attributes")
        c.expect(n.attr in a.anywhere and not late, "attributes",
                 f"{k.qual}: {n.attr} in {f.qual}",
                 f"{f.module.relpath}:{n.lineno}",
                 f"a {k.name} may have no attribute {n.attr} here")


def typed(c, table, stores):
    """Attributes of values of known classes."""
    found = {}
    for ctx, s in c.inf.summ.items():
        for e in s.events:
            if e[0] == "attr" and e[1][0][0] == "inst" and e[1][2] == "r":
                q = e[1][0][1]
                k = c.prog.classes[q]
                good = e[1][1] in stores or c.prog.is_enum(k)
                for x in {k.qual: k, **{x.qual: x for x in
                                        c.prog.subclasses.get(q, [])}}.values():
                    a = table.get(x.qual)
                    if a is None:
                        a = table[x.qual] = Attributes(c, x)
                    good |= a.open or a.has(e[1][1]) or e[1][1] in a.anywhere
                r = found.setdefault(id(e[5]), [e[5], e[4], e[1][1], set(),
                                                False, ctx])
                r[3].add(q)
                r[4] |= good
    safe = set()
    for f in functions(c):
        safe |= guarded(f)
    for i, (n, where, name, qs, good, ctx) in sorted(
            found.items(), key=lambda x: x[1][1]):
        if i in safe or i in c.inf.mixed:
            continue
        c.count("reads of attributes")
        c.expect(good, "attributes", f"{sorted(qs)[0]}: {name}", where,
                 f"{', '.join(sorted(x.rsplit('.', 1)[-1] for x in qs))} has "
                 f"no attribute {name}")


# -- arguments and stubs -------------------------------------------------------------

def arguments(c):
    for i, (n, where, got) in sorted(c.inf.sites.items(),
                                     key=lambda x: x[1][1]):
        if i in c.inf.mixed:
            continue
        c.count("calls")
        why = [w for ws in got.values() for w in ws]
        q = sorted(got)[0]
        c.expect(None in why, "arguments", f"call of {q}", where,
                 f"{q} is called with {why[0] if why else ''}")


def stub(f):
    body = [s for s in f.node.body if not (
        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise) \
        and body[0].exc is not None and (dotted(body[0].exc) or dotted(
            getattr(body[0].exc, "func", body[0].exc))) \
        == "NotImplementedError" or any(
            (dotted(d) or "").split(".")[-1] == "abstractmethod"
            for d in f.node.decorator_list)


def implemented(c):
    for k in in_use(c):
        for n in sorted({n for x in k.mro for n in x.members}):
            mem = c.prog.member(k, n)
            for f in funcs_in(mem):
                if f.cls is k or not stub(f):
                    continue
                c.count("operations inherited")
                c.bad("operations", f"{k.qual}.{n}", k.module.relpath + ":"
                      + str(k.node.lineno), f"{k.name} leaves {n}() "
                      "unimplemented")
        c.ok("operations", k.qual)


# -- messages and comparisons ---------------------------------------------------

def sound(c, v, s, construct, where):
    """An outcome that is not a failure inside the library itself."""
    c.count("outcomes")
    c.expect(not (isinstance(v, Exc) and v.cls in INTERNAL), "outcomes",
             construct if not isinstance(v, Exc) else
             f"{construct}: {v.cls.rsplit('.', 1)[-1]}",
             getattr(v, "where", None) or where,
             f"fails with {getattr(v, 'cls', None)}", c.trace(s, v)
             if isinstance(v, Exc) else None)


def secured(c):
    """The security module on any datagram and any message."""
    it = c.engine(incoming_models(c.prog))
    it.maxsteps *= 4
    fn = f"{USM}.processIncoming"
    for s0, msg, usm in decoded(c, it):
        for s, v in call(it, s0, usm, "processIncoming", msg, F("now")):
            sound(c, v, s, fn, "snmp/security/usm/implementation.py")
    c.used(it)
    fn = f"{USM}.prepareOutgoing"
    for lname in LEVELS:
        it = c.engine(usm_models(c.prog))
        st = State()
        usm = it.input_obj(st, USM, "usm")
        st, msg = v3_message(it, st, lname, "snmp.pdu.GetRequestPDU", "out")
        for s, v in call(it, st, usm, "prepareOutgoing", msg, B("engine"),
                         B("user"), F("now")):
            sound(c, v, s, fn, "snmp/security/usm/implementation.py")
        c.used(it)


def processed(c):
    """The message processors on any request and any datagram."""
    for lname in LEVELS:
        it = c.engine(v3_models(c.prog))
        st = State()
        mp = it.input_obj(st, V3, "processor")
        h = it.input_any_of(st, "snmp.message.RequestHandle", "handle")
        st, level = level_const(it, st, lname)
        for s, v in outgoing(c, it, st, mp, h, level)[1]:
            sound(c, v, s, f"{V3}.prepareOutgoingMessage",
                  "snmp/message/v3.py")
        c.used(it)
    it = c.engine(v3_models(c.prog))
    st = State()
    mp = it.input_obj(st, V3, "processor")
    for s, v in call(it, st, mp, "prepareDataElements", B("wire")):
        sound(c, v, s, f"{V3}.prepareDataElements", "snmp/message/v3.py")
    c.used(it)
    for qual in sorted(set(processors(c).values()) - {V3}):
        where = c.prog.cls(qual).module.relpath
        it = c.engine({"snmp.asn1.ASN1.decode": community_wire})
        st = State()
        mp = it.input_obj(st, qual, "processor")
        h = it.input_any_of(st, "snmp.message.RequestHandle", "handle")
        st, pdu = make(it, st, "snmp.pdu.GetRequestPDU", requestID=ZERO)
        for s, v in call(it, st.fork(), mp, "prepareOutgoingMessage", pdu, h,
                         B("community")):
            sound(c, v, s, f"{qual}.prepareOutgoingMessage", where)
        for s, v in call(it, st, mp, "prepareDataElements", B("wire")):
            sound(c, v, s, f"{qual}.prepareDataElements", where)
        c.used(it)


class Sound(Monitor):
    """No operation of a manager fails inside the library."""

    def step(self, x, t):
        c = self.c
        c.count("operations of managers")
        sound(c, t.value, t.st, f"{MGR[self.version]}: {t.kind}",
              self.where(t))


def managed(c):
    deep = c.tier == "thorough"
    parts = [("v3", dict(engine=e, levels=("authPriv",), kinds=REPORT_KINDS,
                         horizon=0.0, limit=700 if deep else 150))
             for e in (False, True)]
    parts += [(v, dict(requests=2, horizon=3.0, limit=1200 if deep else 150))
              for v in ("v1", "v2c")]
    explore(c, Sound, parts)


def compared(c):
    """Every comparison a class defines, with anything."""
    for k in sorted(c.prog.classes.values(), key=lambda k: k.qual):
        mine = [n for n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__",
                            "__ge__") if n in k.members]
        if not mine:
            continue
        it = c.engine({}, protocol=True)
        for i, other in enumerate((NONE, N("z"), S("z"), ("tup", ()), B("z"),
                                   None)):
            st = State()
            a = it.input_obj(st, k.qual, "a")
            b = it.input_obj(st, k.qual, "b") if other is None else other
            for n in mine:
                if other is not None and n not in ("__eq__", "__ne__"):
                    continue
                for s, v in call(it, st.fork(), a, n, b):
                    sound(c, v, s, f"{k.qual}.{n}", k.module.relpath)
        c.used(it)


def e02(c):
    c.rule("names: every name that is read is defined in its scope, its "
           "module (following wildcard imports), the module it is taken "
           "from, or the language")
    c.rule("variables: no path of a function, including those through "
           "handlers, reads a local variable before it is assigned")
    c.rule("attributes: what a method reads of its object is set by the "
           "class or on every path of its initialization, or earlier in the "
           "method; what is read of a value of inferred class exists in that "
           "class")
    c.rule("arguments: every call of a function of the library fits its "
           "parameters, for at least one function it may call")
    c.rule("operations: a class that is used implements what its bases only "
           "declare")
    c.rule("outcomes: no path of processing an arbitrary message of any "
           "version, in or out, or of comparing a value with an arbitrary "
           "one, ends in AttributeError, NameError or TypeError")
    names(c)
    variables(c)
    attributes(c)
    arguments(c)
    implemented(c)
    secured(c)
    processed(c)
    managed(c)
    compared(c)
    c.floor("outcomes", 60)
    c.floor("operations of managers", 200)
    c.floor("names", 2000)
    c.floor("reads of variables", 1500)
    c.floor("reads of attributes", 300)
    c.floor("calls", 300)
    c.floor("classes", 50)
