"""Whole-program type-and-effect inference.

A context-sensitive (per argument types), flow-sensitive (per local variable)
abstract interpretation over types: for every function context it computes the
types that may be returned, the exceptions that may escape (with a witness
chain), and the effects performed, each with the locks that may / must be held
at that point.  Attributes, globals and container elements are summarised
flow-insensitively (per class, per allocation site)."""

import ast
import builtins
import importlib
import inspect

from .program import AnalysisError, Class, Func, Prop, dotted, is_overload

E0 = frozenset()
KEYED = {"None", "True", "False", "cls", "func", "meth"}


def norm(av):
    """Merge tuples of equal length, and iterators, into one atom each."""
    groups = {}
    rest = []
    for a in av:
        if a[0] == "tuple":
            groups.setdefault(("tuple", len(a[1])), []).append(a)
        elif a[0] == "iterof":
            groups.setdefault(("iterof",), []).append(a)
        elif a[0] == "genexp":
            groups.setdefault(("genexp", a[2]), []).append(a)
        elif a[0] == "kw":
            groups.setdefault(("kw",), []).append(a)
        else:
            rest.append(a)
    if all(len(g) == 1 for g in groups.values()):
        return av
    for k, g in groups.items():
        if len(g) == 1:
            rest.append(g[0])
        elif k[0] == "tuple":
            rest.append(("tuple", tuple(
                norm(frozenset().union(*[a[1][i] for a in g]))
                for i in range(k[1]))))
        elif k[0] == "iterof":
            rest.append(("iterof", norm(
                frozenset().union(*[a[1] for a in g]))))
        elif k[0] == "genexp":
            rest.append(("genexp", norm(
                frozenset().union(*[a[1] for a in g])), k[1]))
        else:
            m = {}
            for a in g:
                for n, v in a[1]:
                    m[n] = m.get(n, frozenset()) | v
            rest.append(("kw", tuple(sorted(
                (n, norm(v)) for n, v in m.items())),
                any(a[2] for a in g)))
    return frozenset(rest)
INT, STR, BYTES, FLOAT, BOOL = (
    ("int",), ("str",), ("bytes",), ("float",), ("bool",))
BYTE = ("byte",)
TRUE, FALSE, NONE, ANY = ("True",), ("False",), ("None",), ("any",)
EXT_CONTAINERS = {"builtins.dict": "dict", "builtins.list": "list",
                  "builtins.set": "set", "collections.deque": "list",
                  "builtins.bytearray": "bytearray",
                  "collections.OrderedDict": "dict",
                  "collections.defaultdict": "dict",
                  "builtins.frozenset": "set",
                  "weakref.WeakValueDictionary": "dict"}
LOCK_TYPES = {"threading.Lock", "threading.RLock"}
CONTAINER_MUTATORS = {
    "append", "appendleft", "add", "extend", "insert", "pop", "popleft",
    "popitem", "remove", "discard", "clear", "update", "setdefault", "sort",
    "reverse", "extendleft",
}

# External calls that can block the calling thread.
BLOCKING_METHODS = {
    ("threading.Thread", "join"), ("threading.Event", "wait"),
    ("threading.Condition", "wait"), ("select.poll", "poll"),
    ("queue.Queue", "get"), ("queue.Queue", "put"),
    ("threading.Semaphore", "acquire"),
}
BLOCKING_FUNCS = {"time.sleep", "select.select", "os.read", "input"}

EXT_RAISES = {
    "socket.inet_aton": ["builtins.OSError"],
    "socket.inet_ntoa": ["builtins.OSError"],
    "socket.inet_pton": ["builtins.OSError", "builtins.TypeError"],
    "os.read": ["builtins.OSError"],
    "os.write": ["builtins.OSError"],
    "os.close": ["builtins.OSError"],
    "select.select": ["builtins.OSError", "builtins.ValueError"],
    "socket.socket": ["builtins.OSError"],
    "importlib.import_module": ["builtins.ImportError"],
    "builtins.chr": ["builtins.ValueError"],
}
EXT_RETURNS = {
    "time.time": FLOAT, "time.monotonic": FLOAT, "os.urandom": BYTES,
    "os.read": BYTES, "math.ceil": INT, "math.floor": INT,
    "socket.inet_aton": BYTES, "socket.inet_ntoa": STR,
    "socket.inet_pton": BYTES, "random.randint": INT,
    "builtins.len": INT, "builtins.hash": INT, "builtins.repr": STR,
    "builtins.str": STR, "builtins.abs": INT, "builtins.ord": INT,
    "builtins.isinstance": BOOL, "builtins.issubclass": BOOL,
    "builtins.any": BOOL, "builtins.all": BOOL, "builtins.callable": BOOL,
    "builtins.hasattr": BOOL, "builtins.id": INT, "builtins.float": FLOAT,
    "hmac.compare_digest": BOOL, "builtins.round": INT, "builtins.pow": INT,
    "math.log2": FLOAT, "builtins.bin": STR, "builtins.hex": STR,
}


class St:
    __slots__ = ("env", "may", "must")

    def __init__(self, env, may=E0, must=E0):
        self.env = env
        self.may = may
        self.must = must

    def copy(self):
        return St(dict(self.env), self.may, self.must)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = dict(a.env)
    for k, v in b.env.items():
        o = env.get(k, E0)
        env[k] = o if v <= o else norm(o | v)
    return St(env, a.may | b.may, a.must & b.must)


class Summary:
    __slots__ = ("ret", "yields", "raises", "events")

    def __init__(self):
        self.ret = E0
        self.yields = E0
        self.raises = {}
        self.events = []


class Infer:
    MAXARGS = 14

    def __init__(self, prog, escapes_any=()):
        self.prog = prog
        self.attrs = {}
        self.elems = {}
        self.factories = {}     # what makes the missing items of a dict
        self.keys = {}
        self.globals = {}
        self.closenv = {}
        self.params = {}
        self.genraises = {}
        self.allocs = {}
        self.summ = {}
        self.ctxs = {}
        self.readers = {}
        self.queue = []
        self.queued = set()
        self.current = None
        self.roots = set()
        self.seeded = set()
        self.func_ctxs = {}
        self.lambdas = {}
        self.escapes_any = set(escapes_any)
        self.lock_names = {}
        self.mixed = set()      # expressions whose operand is not only that
        self.sites = {}         # id(call) -> (call, where, {callee: misfits})
        # expressions whose value is bound to a variable or returned
        self.bound = {
            id(n.value) for m in prog.modules.values()
            for n in ast.walk(m.tree)
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.Return,
                              ast.NamedExpr))}
        self.tagged = {
            c.qual for c in prog.classes.values()
            if any((dotted(b.value) or "").split(".")[-1] == "Generic"
                   for b in c.node.bases if isinstance(b, ast.Subscript))
            and not any(sc.qual != c.qual
                        for sc in prog.subclasses.get(c.qual, []))
        }
        self.run()

    # -- tables -----------------------------------------------------------

    def read(self, table, key):
        if self.current is not None:
            self.readers.setdefault((table, key), set()).add(self.current)
        return getattr(self, table).get(key, E0)

    def write(self, table, key, av):
        t = getattr(self, table)
        old = t.get(key, E0)
        if av <= old:
            return
        new = norm(old | av)
        if new != old:
            t[key] = new
            self.dirty(table, key)

    def limit(self, av):
        return norm(av)

    def dirty(self, table, key):
        for c in self.readers.get((table, key), ()):
            self.enqueue(c)

    def enqueue(self, ctx):
        if ctx not in self.queued:
            self.queued.add(ctx)
            self.queue.append(ctx)

    # -- driver -----------------------------------------------------------

    def run(self):
        for m in self.prog.modules.values():
            self.ensure(("<module>", m.name))
        self.drain()
        for qual, name in (
            ("snmp.engine.Engine", None),
        ):
            if qual in self.prog.classes:
                for n, mem in self.prog.classes[qual].members.items():
                    for f in funcs_of(mem):
                        self.seed(f)
        self.drain()
        # user-facing methods of what Engine hands out, then anything else
        for _ in range(6):
            todo = [f for f in self.prog.funcs.values()
                    if f.qual not in self.func_ctxs]
            if not todo:
                break
            for f in todo:
                self.seed(f)
            self.drain()
        # user code may call any public method with annotated arguments
        for c in self.prog.classes.values():
            for n, mem in c.members.items():
                for f in funcs_of(mem):
                    if not n.startswith("_") and f.qual not in self.seeded:
                        self.seed(f)
        self.drain()

    def drain(self):
        n = 0
        while self.queue:
            ctx = self.queue.pop()
            self.queued.discard(ctx)
            self.analyze(ctx)
            n += 1
            if n > 400000:
                raise AnalysisError("type inference does not converge")

    def seed(self, f):
        if f.qual in self.seeded:
            return
        self.seeded.add(f.qual)
        owners = [None]
        if f.cls is not None and f.kind in ("method", "classmethod"):
            owners = [c for c in self.prog.subclasses.get(f.cls.qual, [])
                      if self.prog.member_owner(c, f.name) is f.cls]
            if not owners:
                owners = [f.cls]
        for owner in owners:
            params = {}
            names = self.param_names(f)
            for i, arg in enumerate(names):
                if i == 0 and owner is not None:
                    if f.kind == "method":
                        params[arg.arg] = self.insts(owner)
                    else:
                        params[arg.arg] = frozenset([("cls", owner.qual)])
                    continue
                av = self.annot(f.module.name, arg.annotation, f.cls)
                params[arg.arg] = av | self.default_av(f, arg.arg)
            a = f.node.args
            if a.vararg is not None:
                site = ("seed", f.qual, a.vararg.arg)
                self.write("elems", site,
                           self.annot(f.module.name, a.vararg.annotation,
                                      f.cls))
                params[a.vararg.arg] = frozenset([("tuplev", site)])
            if a.kwarg is not None:
                params[a.kwarg.arg] = frozenset([("kwany",)])
            ctx = self.ctx_key(f, params)
            self.roots.add(ctx)
            self.ensure(ctx)

    def insts(self, cls):
        if cls.qual in self.tagged:
            tags = [a for a in self.allocs.get(cls.qual, ())]
            if tags:
                return frozenset(tags)
        return frozenset([("inst", cls.qual, None)])

    def param_names(self, f):
        a = f.node.args
        return a.posonlyargs + a.args + a.kwonlyargs

    def default_expr(self, f, name):
        a = f.node.args
        pos = a.posonlyargs + a.args
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if arg.arg == name:
                return d
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if arg.arg == name:
                return d
        return None

    def default_av(self, f, name):
        d = self.default_expr(f, name)
        if d is None:
            return E0
        return self.eval_static(d, f.module.name, f.cls)

    def eval_static(self, node, modname, cls):
        fr = Frame(self, None, modname, cls, None)
        return fr.eval(node, St({}))

    def annot(self, modname, node, cls, depth=0):
        if node is None or depth > 5:
            return E0
        if isinstance(node, ast.Constant):
            if node.value is None:
                return frozenset([NONE])
            if isinstance(node.value, str):
                try:
                    node = ast.parse(node.value, mode="eval").body
                except SyntaxError:
                    return E0
                return self.annot(modname, node, cls, depth + 1)
            return E0
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return (self.annot(modname, node.left, cls, depth + 1)
                    | self.annot(modname, node.right, cls, depth + 1))
        if isinstance(node, ast.Subscript):
            head = (dotted(node.value) or "").split(".")[-1]
            args = (node.slice.elts if isinstance(node.slice, ast.Tuple)
                    else [node.slice])
            sub = lambda i: self.annot(modname, args[i], cls, depth + 1) \
                if i < len(args) else E0
            if head == "Optional":
                return sub(0) | {NONE}
            if head == "Union":
                out = E0
                for i in range(len(args)):
                    out |= sub(i)
                return out
            if head in ("ClassVar", "Final"):
                return sub(0)
            if head == "Type":
                return frozenset(
                    ("cls", a[1]) for a in sub(0) if a[0] == "inst")
            if head in ("Dict", "Mapping", "dict"):
                site = ("ann", ast.dump(node), modname)
                self.write("keys", site, sub(0))
                self.write("elems", site, sub(1))
                return frozenset([("dict", site)])
            if head in ("List", "Deque", "list", "Iterable", "Iterator",
                        "Set", "set", "Sequence"):
                if head == "Sequence" and self.prog.follow(
                        self.prog.resolve(modname, "Sequence")):
                    pass
                site = ("ann", ast.dump(node), modname)
                self.write("elems", site, sub(0))
                return frozenset([("list", site)])
            if head in ("Tuple", "tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) \
                        and args[1].value is Ellipsis:
                    site = ("ann", ast.dump(node), modname)
                    self.write("elems", site, sub(0))
                    return frozenset([("tuplev", site)])
                return frozenset([("tuple", tuple(
                    sub(i) for i in range(len(args))))])
            if head == "Callable":
                return E0
            if head == "Literal":
                out = E0
                for x in args:
                    if isinstance(x, ast.Constant):
                        out |= const_av(x.value)
                return out
            return self.annot(modname, node.value, cls, depth + 1)
        if isinstance(node, (ast.Name, ast.Attribute)):
            name = dotted(node)
            simple = {"int": INT, "str": STR, "bytes": BYTES, "float": FLOAT,
                      "bool": BOOL, "None": NONE}
            if name in simple:
                return frozenset([simple[name]])
            out = E0
            for b in self.prog.follow(
                    self.prog.resolve_expr(modname, node, cls)):
                if b[0] == "class":
                    for c in self.prog.subclasses[b[1].qual]:
                        out |= self.insts(c)
                elif b[0] == "var":
                    # a Union alias, or a TypeVar with a bound
                    for d in self.prog.modules[b[1]].defs[b[2]]:
                        v = getattr(d, "value", None)
                        if isinstance(v, ast.Subscript):
                            out |= self.annot(b[1], v, cls, depth + 1)
                        elif isinstance(v, ast.Call) and (
                                dotted(v.func) or "").endswith("TypeVar"):
                            for kw in v.keywords:
                                if kw.arg == "bound":
                                    out |= self.annot(
                                        b[1], kw.value, cls, depth + 1)
            return out
        return E0

    # -- contexts ---------------------------------------------------------

    def ctx_key(self, f, params):
        """Contexts distinguish the receiver, and arguments that are classes,
        functions, booleans or None; the types of all other arguments are
        merged per context."""
        first = None
        if f.cls is not None and f.kind in ("method", "classmethod") \
                and f.parent is None:
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            first = names[0] if names else None
        items = []
        for k in sorted(params):
            v = params[k]
            if k == first or (v and len(v) <= 3 and all(
                    a[0] in KEYED for a in v)):
                items.append((k, v))
            else:
                items.append((k, "*"))
        ctx = (f.qual, tuple(items))
        if ctx not in self.summ:
            known = self.func_ctxs.get(f.qual, ())
            if len(known) > 40:
                ctx = (f.qual, tuple(
                    (k, v if k == first else "*") for k, v in items))
        for k, v in ctx[1]:
            if v == "*":
                self.write("params", (ctx, k), params[k])
        return ctx

    def ensure(self, ctx):
        if ctx not in self.summ:
            q = ctx[0]
            known = self.func_ctxs.setdefault(q, [])
            known.append(ctx)
            self.summ[ctx] = Summary()
            self.enqueue(ctx)
        return ctx

    def func_of(self, qual):
        return self.prog.funcs.get(qual) or self.lambdas.get(qual)

    def analyze(self, ctx):
        self.current = ctx
        old = self.summ[ctx]
        new = Summary()
        if ctx[0] == "<module>":
            m = self.prog.modules[ctx[1]]
            fr = Frame(self, None, m.name, None, new)
            fr.module_level = True
            fr.block(m.tree.body, St({}))
        elif ctx[0] == "<class>":
            c = self.prog.classes[ctx[1][0]]
            fr = Frame(self, None, c.module.name, c, new)
            new.ret = fr.eval(c.members[ctx[1][1]], St({}))
        else:
            f = self.func_of(ctx[0])
            fr = Frame(self, f, f.module.name, f.cls, new)
            st = St({k: (self.read("params", (ctx, k)) if v == "*" else v)
                     for k, v in ctx[1]})
            if isinstance(f.node, ast.Lambda):
                new.ret = fr.eval(f.node.body, st)
            else:
                end = fr.block(f.node.body, st)
                if end is not None:
                    new.ret |= {NONE}
                    fr.leave(end, None)
                new.ret = fr.summary.ret
        new.raises = fr.sink
        if f_is_gen(self, ctx):
            new.ret = frozenset([("gen", ctx)])
        new.ret = self.limit(new.ret | old.ret)
        new.yields = self.limit(new.yields | old.yields)
        changed = (new.ret != old.ret or new.yields != old.yields
                   or set(new.raises) != set(old.raises))
        for k, v in old.raises.items():
            new.raises.setdefault(k, v)
        self.summ[ctx] = new
        self.current = None
        if changed:
            self.dirty("summ", ctx)

    def call_summary(self, ctx):
        ctx = self.ensure(ctx)
        if self.current is not None:
            self.readers.setdefault(("summ", ctx), set()).add(self.current)
        return ctx, self.summ[ctx]

    def class_attr(self, cls, name):
        owner = self.prog.member_owner(cls, name)
        if owner is None:
            return None
        mem = owner.members[name]
        if isinstance(mem, ast.expr):
            if self.prog.is_enum(owner):
                return frozenset([("inst", owner.qual, None)])
            ctx, s = self.call_summary(("<class>", (owner.qual, name)))
            return s.ret
        return mem


def funcs_of(mem):
    if isinstance(mem, Func):
        return [mem]
    if isinstance(mem, Prop):
        return [f for f in (mem.getter, mem.setter) if f is not None]
    return []


def mismatch(f, n, kwargs, star, kwstar):
    """Why a function does not take these arguments, if so."""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    only = {x.arg for x in a.posonlyargs}
    kwonly = [x.arg for x in a.kwonlyargs]
    if n > len(pos) and a.vararg is None:
        return f"{n} positional arguments where it takes {len(pos)}"
    for k in kwargs:
        if k in pos[:n] and k not in only:
            return f"two values for {k}"
        if (k not in pos or k in only) and k not in kwonly \
                and a.kwarg is None:
            return f"no parameter {k}"
    if star is not None or kwstar:
        return None
    need = pos[:len(pos) - len(a.defaults)][n:] + [
        k for k, d in zip(kwonly, a.kw_defaults) if d is None]
    for k in need:
        if k not in kwargs or k in only:
            return f"no value for {k}"
    return None


def f_is_gen(inf, ctx):
    if ctx[0] in ("<module>", "<class>"):
        return False
    f = inf.func_of(ctx[0])
    return not isinstance(f.node, ast.Lambda) and f.is_generator


def const_av(v):
    if v is None:
        return frozenset([NONE])
    if v is True:
        return frozenset([TRUE])
    if v is False:
        return frozenset([FALSE])
    if isinstance(v, int):
        return frozenset([BYTE if 0 <= v <= 255 else INT])
    if isinstance(v, float):
        return frozenset([FLOAT])
    if isinstance(v, str):
        return frozenset([STR])
    if isinstance(v, bytes):
        return frozenset([BYTES])
    return frozenset([ANY])


class Frame:
    """Abstract execution of one function body in one context."""

    def __init__(self, inf, func, modname, cls, summary):
        self.inf = inf
        self.prog = inf.prog
        self.func = func
        self.mod = modname
        self.cls = cls
        self.summary = summary if summary is not None else Summary()
        self.sink = {}
        self.handling = []
        self.loops = []
        self.module_level = False
        self.derefs = {}

    # -- effects ----------------------------------------------------------

    def where(self, node):
        m = self.prog.modules.get(self.mod)
        return f"{m.relpath}:{getattr(node, 'lineno', 0)}"

    def raise_(self, exc, node, chain=()):
        w = (f"{self.where(node)} in "
             f"{self.func.qual if self.func else self.mod}",) + tuple(chain)
        if exc not in self.sink:
            self.sink[exc] = w[:8]

    def event(self, kind, node, st, *data):
        self.summary.events.append(
            (kind, data, st.may, st.must, self.where(node), node))

    # -- statements -------------------------------------------------------

    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        self.eval(s.value, st)
        return st

    def s_Pass(self, s, st):
        return st

    def s_Return(self, s, st):
        av = self.eval(s.value, st) if s.value is not None \
            else frozenset([NONE])
        self.summary.ret |= av
        self.leave(st, s, s.value.id if isinstance(s.value, ast.Name)
                   else None)
        return None

    def leave(self, st, node, returned=None):
        for name, (atoms, n) in self.derefs.items():
            if name != returned:
                self.event("drop", n, st, atoms)

    def s_Assign(self, s, st):
        av = self.eval(s.value, st)
        for t in s.targets:
            st = self.assign(t, av, st, s.value)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return st
        return self.assign(s.target, self.eval(s.value, st), st, s.value)

    def s_AugAssign(self, s, st):
        cur = self.eval(as_load(s.target), st)
        val = self.eval(s.value, st)
        return self.assign(
            s.target, self.binop(s.op, cur, val, s, st), st, None)

    def assign(self, t, av, st, value):
        if isinstance(t, ast.Name):
            st = st.copy()
            if t.id in self.derefs:
                self.event("drop", t, st, self.derefs[t.id][0])
            weak = frozenset(a for a in av if a[0] == "inst") \
                if value is not None and isinstance(value, ast.Call) \
                and getattr(self, "last_deref", None) is value else E0
            if weak:
                self.derefs[t.id] = (weak, t)
            st.env[t.id] = av
            if self.module_level or (
                    self.func and t.id not in self.func.locals
                    and t.id not in st.env):
                self.inf.write("globals", (self.mod, t.id), av)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(av, len(t.elts), t, st)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    site = ("star", self.where(t), i)
                    self.inf.write("elems", site, parts[i])
                    st = self.assign(
                        e.value, frozenset([("list", site)]), st, None)
                else:
                    st = self.assign(e, parts[i], st, None)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st)
            self.set_attr(base, t.attr, av, t, st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st)
            key = self.eval(t.slice, st)
            for b in base:
                if b[0] == "dict":
                    self.inf.write("keys", b[1], key)
                    self.inf.write("elems", b[1], av)
                    self.event("store", t, st, b)
                elif b[0] in ("list", "tuplev"):
                    self.inf.write("elems", b[1], av)
                    self.event("store", t, st, b)
                elif b[0] == "inst":
                    self.call_method(b, "__setitem__", [key, av], t, st)
        elif isinstance(t, ast.Starred):
            st = self.assign(t.value, av, st, None)
        return st

    def unpack(self, av, n, node, st):
        parts = [E0] * n
        for a in av:
            if a[0] == "tuple" and len(a[1]) == n:
                for i in range(n):
                    parts[i] |= a[1][i]
            elif a[0] == "tuple":
                self.raise_("builtins.ValueError", node)
            elif a[0] in (ANY[0], NONE[0]):
                parts = [p | {ANY} for p in parts]
            else:
                e = self.iterate(frozenset([a]), node, st)
                parts = [p | e for p in parts]
                if a[0] in ("list", "tuplev", "bytes", "str", "inst", "gen"):
                    self.raise_("builtins.ValueError", node)
        return parts

    def set_attr(self, base, name, av, node, st):
        for b in base:
            if b[0] == "inst":
                c = self.prog.classes[b[1]]
                mem = self.prog.member(c, name)
                if isinstance(mem, Prop):
                    if mem.setter is not None:
                        self.call_func(mem.setter, [frozenset([b]), av], {},
                                       node, st)
                    else:
                        self.raise_("builtins.AttributeError", node)
                    continue
                self.inf.write("attrs", (b[1], b[2], name), av)
                self.event("attr", node, st, b, name, "w")
            elif b[0] == "cls":
                self.inf.write("attrs", (b[1], "<cls>", name), av)
                self.event("attr", node, st, b, name, "w")
            elif b[0] == "mod":
                self.inf.write("globals", (b[1], name), av)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value, st)
                self.eval(t.slice, st)
                for b in base:
                    self.event("del", t, st, b)
                    if b[0] == "dict":
                        self.raise_("builtins.KeyError", t)
                    elif b[0] in ("list",):
                        self.raise_("builtins.IndexError", t)
                    elif b[0] == "inst":
                        self.call_method(b, "__delitem__", [E0], t, st)
            elif isinstance(t, ast.Name):
                if t.id in self.derefs:
                    self.event("drop", t, st, self.derefs[t.id][0])
        return st

    def s_If(self, s, st):
        tv = self.eval(s.test, st)
        self.truth(tv, s, st)
        a = self.refine(s.test, st, True, tv)
        b = self.refine(s.test, st, False, tv)
        a = self.block(s.body, a) if a is not None else None
        b = self.block(s.orelse, b) if b is not None else None
        return join(a, b)

    def s_Assert(self, s, st):
        tv = self.eval(s.test, st)
        self.truth(tv, s, st)
        a = self.refine(s.test, st, True, tv)
        b = self.refine(s.test, st, False, tv)
        if b is not None:
            if s.msg is not None:
                self.eval(s.msg, b)
            self.raise_("builtins.AssertionError", s)
        return a

    def s_While(self, s, st):
        brk = []
        cur = st
        for _ in range(12):
            cont = []
            tv = self.eval(s.test, cur)
            self.truth(tv, s, cur)
            inside = self.refine(s.test, cur, True, tv)
            self.loops.append((brk, cont))
            end = self.block(s.body, inside) if inside is not None else None
            self.loops.pop()
            for c in cont:
                end = join(end, c)
            new = join(cur, end)
            if same(new, cur):
                break
            cur = new
        tv = self.eval(s.test, cur)
        out = self.refine(s.test, cur, False, tv)
        if out is not None and s.orelse:
            out = self.block(s.orelse, out)
        for b in brk:
            out = join(out, b)
        return out

    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        elem = self.iterate(it, s.iter, st)
        brk = []
        cur = st
        for _ in range(12):
            cont = []
            inside = self.assign(s.target, elem, cur, None)
            self.loops.append((brk, cont))
            end = self.block(s.body, inside)
            self.loops.pop()
            for c in cont:
                end = join(end, c)
            new = join(cur, end)
            if same(new, cur):
                break
            cur = new
        out = self.block(s.orelse, cur) if s.orelse else cur
        for b in brk:
            out = join(out, b)
        return out

    def s_Break(self, s, st):
        if self.loops:
            self.loops[-1][0].append(st)
        return None

    def s_Continue(self, s, st):
        if self.loops:
            self.loops[-1][1].append(st)
        return None

    def s_With(self, s, st):
        outer = st
        entered = []
        for item in s.items:
            av = self.eval(item.context_expr, st)
            val = E0
            locks = set()
            for a in av:
                if a[0] == "extinst" and a[1] in LOCK_TYPES:
                    locks.add(a)
                    val |= {TRUE}
                elif a[0] == "inst":
                    val |= self.call_method(a, "__enter__", [], s, st)
                else:
                    val |= {ANY}
            if locks:
                self.acquire(locks, s, st)
                st = st.copy()
                st.may = st.may | locks
                if len(locks) == 1:
                    st.must = st.must | locks
            if item.optional_vars is not None:
                st = self.assign(item.optional_vars, val, st, None)
            entered.append((av, locks))
        # a return or raise inside leaves the with statement: only states
        # that flow on, break or continue keep the outer lock set
        nb = [len(b) for b, _ in self.loops], [len(c) for _, c in self.loops]
        end = self.block(s.body, st)
        released = set().union(*[l for _, l in entered]) if entered else set()

        def restore(x):
            x = x.copy()
            x.may = (x.may - released) | (outer.may & frozenset(released))
            x.must = (x.must - released) | (outer.must & frozenset(released))
            return x
        for i, (b, c) in enumerate(self.loops):
            for j in range(nb[0][i], len(b)):
                b[j] = restore(b[j])
            for j in range(nb[1][i], len(c)):
                c[j] = restore(c[j])
        for av, _ in entered:
            for a in av:
                if a[0] == "inst":
                    self.call_method(a, "__exit__",
                                     [E0, E0, E0], s, end or st)
        return restore(end) if end is not None else None

    def acquire(self, locks, node, st):
        for l in locks:
            self.event("acquire", node, st, l)

    def s_Raise(self, s, st):
        if s.exc is None:
            if self.handling:
                for k, w in self.handling[-1].items():
                    self.sink.setdefault(k, w)
            return None
        av = self.eval(s.exc, st)
        if s.cause is not None:
            self.eval(s.cause, st)
        named = False
        for a in av:
            if a[0] in ("inst", "cls"):
                if self.prog.is_exception(self.prog.classes[a[1]]):
                    self.raise_(a[1], s)
                    named = True
                    if a[0] == "cls":
                        self.instantiate(a[1], [], {}, s, st)
            elif a[0] == "extinst":
                self.raise_(a[1], s)
                named = True
            elif a[0] == "ext":
                self.raise_(a[1], s)
                named = True
        if not named:
            self.raise_("builtins.Exception", s)
        return None

    def s_Try(self, s, st):
        outer = self.sink
        self.sink = {}
        # state at any point of the body
        mid = st
        cur = st
        for x in s.body:
            if cur is None:
                break
            n = self.stmt(x, cur)
            mid = join(mid, n)
            cur = n
        # locals assigned anywhere in the body may reach the handlers
        raised = self.sink
        self.sink = outer
        out = None
        if cur is not None:
            out = self.block(s.orelse, cur) if s.orelse else cur
        rest = dict(raised)
        for h in s.handlers:
            caught = {}
            types = self.handler_types(h, mid)
            for k in list(rest):
                anc = self.prog.exc_ancestors(k)
                if any(t in anc for t in types):
                    caught[k] = rest.pop(k)
                elif any(k in self.prog.exc_ancestors(t) for t in types):
                    caught[k] = rest[k]     # maybe caught
            hst = mid.copy()
            hst.may, hst.must = st.may, st.must
            if h.name:
                hst.env[h.name] = frozenset(
                    ("inst", k, None) if k in self.prog.classes
                    else ("extinst", k, None)
                    for k in (caught or {t: 1 for t in types}))
            self.handling.append(caught)
            save = self.sink
            if not caught:
                self.sink = {}
            ho = self.block(h.body, hst)
            self.sink = save
            self.handling.pop()
            if caught or not self.decidable(types):
                out = join(out, ho)
        for k, w in rest.items():
            self.sink.setdefault(k, w)
        if s.finalbody:
            if out is not None:
                out = self.block(s.finalbody, out)
            else:
                self.block(s.finalbody, mid)
        return out

    def decidable(self, types):
        return False

    def handler_types(self, h, st):
        if h.type is None:
            return {"builtins.BaseException"}
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = set()
        for n in nodes:
            for a in self.eval(n, st):
                if a[0] == "cls":
                    out.add(a[1])
                elif a[0] == "ext":
                    out.add("builtins." + a[1].split(".")[-1])
                elif a[0] == "tuple":
                    for x in a[1]:
                        for y in x:
                            if y[0] == "cls":
                                out.add(y[1])
                            elif y[0] == "ext":
                                out.add("builtins." + y[1].split(".")[-1])
        return out

    def s_FunctionDef(self, s, st):
        st = st.copy()
        if self.func is None:
            # module level: names resolve statically
            for d in s.decorator_list:
                self.eval(d, st)
            return st
        f = self.prog.closure(s, self.func)
        self.inf.lambdas[f.qual] = f
        self.capture(f, st)
        st.env[s.name] = frozenset([("func", f.qual)])
        return st

    def s_ClassDef(self, s, st):
        return st

    def s_Import(self, s, st):
        return st

    s_ImportFrom = s_Import
    s_Global = s_Import
    s_Nonlocal = s_Import

    # -- refinement -------------------------------------------------------

    def refine(self, test, st, polarity, tv=None):
        if tv is not None:
            if polarity and tv and all(a in (FALSE, NONE) for a in tv):
                return None
            if not polarity and tv == frozenset([TRUE]):
                return None
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not polarity)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == polarity:
                for v in test.values:
                    st = self.refine(v, st, polarity)
                    if st is None:
                        return None
                return st
            out = None
            cur = st
            for v in test.values:
                if cur is None:
                    break
                out = join(out, self.refine(v, cur, polarity))
                cur = self.refine(v, cur, not polarity)
            return out
        if isinstance(test, ast.Name):
            cur = st.env.get(test.id)
            if cur is None:
                return st
            new = frozenset(a for a in cur if may_be(self.inf, a, polarity))
            return self.narrow(test.id, cur, new, st)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 \
                and isinstance(test.left, ast.Name):
            op, right = test.ops[0], test.comparators[0]
            if isinstance(right, ast.Constant) and right.value is None \
                    and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                want = isinstance(op, (ast.Is, ast.Eq)) == polarity
                cur = st.env.get(test.left.id)
                if cur is None:
                    return st
                new = frozenset(
                    a for a in cur
                    if (a == NONE or a == ANY) == want or a == ANY)
                return self.narrow(test.left.id, cur, new, st)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) \
                and test.func.id == "isinstance" and len(test.args) == 2 \
                and isinstance(test.args[0], ast.Name):
            cur = st.env.get(test.args[0].id)
            if cur is None:
                return st
            types = self.eval(test.args[1], st)
            new = frozenset(
                a for a in cur
                if isinstance_av(self.prog, a, types) in (polarity, None))
            return self.narrow(test.args[0].id, cur, new, st)
        return st

    def narrow(self, name, cur, new, st):
        if not new and cur:
            return None
        if new == cur:
            return st
        st = st.copy()
        st.env[name] = new
        return st

    # -- expressions ------------------------------------------------------

    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return frozenset([ANY])
        return m(e, st)

    def e_Constant(self, e, st):
        return const_av(e.value)

    def e_Name(self, e, st):
        name = e.id
        if name in st.env:
            return st.env[name]
        f = self.func
        if f is not None:
            if name in f.locals:
                return E0
            if f.parent is not None or isinstance(f.node, ast.Lambda):
                key = (f.qual, name)
                if key in self.inf.closenv:
                    return self.inf.read("closenv", key)
        if f is None and self.cls is not None:
            mem = self.cls.members.get(name)
            if mem is not None:
                return self.member_av(("cls", self.cls.qual), mem, name, e, st)
        return self.global_av(self.mod, name)

    def global_av(self, mod, name):
        out = E0
        for b in self.prog.resolve(mod, name):
            if b[0] == "class":
                out |= {("cls", b[1].qual)}
            elif b[0] == "func":
                out |= {("func", b[1].qual)}
            elif b[0] == "mod":
                out |= {("mod", b[1])}
            elif b[0] == "ext":
                out |= {("ext", b[1])}
            elif b[0] == "var":
                out |= self.inf.read("globals", (b[1], b[2]))
        return out

    def e_Attribute(self, e, st):
        base = self.eval(e.value, st)
        out = E0
        if any(b[0] != "inst" for b in base):
            self.inf.mixed.add(id(e))
        for b in base:
            out |= self.get_attr(b, e.attr, e, st)
        return out

    def get_attr(self, b, name, node, st):
        k = b[0]
        if k == "inst":
            if name == "__class__":
                return frozenset([("cls", b[1])])
            c = self.prog.classes[b[1]]
            mem = self.prog.member(c, name)
            if isinstance(mem, Prop):
                return self.call_func(
                    mem.getter, [frozenset([b])], {}, node, st)
            self.event("attr", node, st, b, name, "r")
            out = self.inf.read("attrs", (b[1], b[2], name))
            if c.qual in self.inf.tagged and b[2] is None:
                for t in self.inf.allocs.get(c.qual, ()):
                    out |= self.inf.read("attrs", (t[1], t[2], name))
            if mem is not None:
                out |= self.member_av(b, mem, name, node, st)
            elif self.prog.is_exception(c) and name == "args":
                out |= {ANY}
            elif self.prog.is_enum(c):
                if name == "name":
                    out |= {STR}
                elif name == "value":
                    out |= {INT}
            return out
        if k == "cls":
            c = self.prog.classes[b[1]]
            mem = self.prog.member(c, name)
            out = E0
            for x in c.mro:
                out |= self.inf.read("attrs", (x.qual, "<cls>", name))
            if mem is not None:
                out |= self.member_av(b, mem, name, node, st)
            elif name == "__name__" or name == "__qualname__":
                out |= {STR}
            elif name in ("from_bytes", "to_bytes"):
                out |= {ANY}
            return out
        if k == "super":
            owner = self.prog.classes[b[1]]
            recv = b[2]
            c = self.prog.classes[recv[1]]
            mem = self.prog.member(c, name, after=owner)
            if mem is None:
                return frozenset([("extmeth", recv, name)])
            return self.member_av(recv, mem, name, node, st)
        if k == "mod":
            return self.global_av(b[1], name)
        if k == "ext":
            return self.ext_attr(b[1], name)
        if k == "any":
            return frozenset([ANY])
        if k == "None":
            return E0
        return frozenset([("extmeth", b, name)])

    def ext_attr(self, base, name):
        return frozenset([("ext", f"{base}.{name}")])

    def member_av(self, b, mem, name, node, st):
        if isinstance(mem, Func):
            if mem.kind == "staticmethod":
                return frozenset([("func", mem.qual)])
            if mem.kind == "classmethod":
                recv = b if b[0] == "cls" else ("cls", b[1])
                return frozenset([("meth", mem.qual, recv)])
            if b[0] == "inst":
                return frozenset([("meth", mem.qual, b)])
            return frozenset([("func", mem.qual)])
        if isinstance(mem, Prop):
            if b[0] == "inst":
                return self.call_func(
                    mem.getter, [frozenset([b])], {}, node, st)
            return frozenset([ANY])
        if isinstance(mem, Class):
            return frozenset([("cls", mem.qual)])
        av = self.inf.class_attr(self.prog.classes[b[1]], name)
        if isinstance(av, frozenset):
            out = E0
            for a in av:
                if a[0] == "func" and b[0] == "inst":
                    out |= {("meth", a[1], b)}
                else:
                    out |= {a}
            return out
        return frozenset([ANY])

    def e_Call(self, e, st):
        # cast(T, x), super()
        fn = self.eval(e.func, st)
        if fn == frozenset([("ext", "typing.cast")]) and len(e.args) == 2:
            return self.eval(e.args[1], st)
        args, star = [], None
        for a in e.args:
            if isinstance(a, ast.Starred):
                av = self.eval(a.value, st)
                exact = [x for x in av if x[0] == "tuple"]
                if len(exact) == 1 and len(av) == 1:
                    args += [x for x in exact[0][1]]
                else:
                    star = (star or E0) | self.iterate(av, a, st)
            elif star is not None:
                star |= self.eval(a, st)
            else:
                args.append(self.eval(a, st))
        kwargs, kwstar = {}, False
        for kw in e.keywords:
            if kw.arg is None:
                for x in self.eval(kw.value, st):
                    if x[0] == "kw":
                        for n, v in x[1]:
                            kwargs[n] = kwargs.get(n, E0) | v
                        if x[2]:
                            kwstar = True
                    else:
                        kwstar = True
            else:
                kwargs[kw.arg] = self.eval(kw.value, st)
        out = E0
        if any(f[0] not in ("func", "meth", "cls") for f in fn):
            self.inf.mixed.add(id(e))
        for f in fn:
            out |= self.call(f, args, kwargs, e, st, star, kwstar)
        return out

    def call(self, f, args, kwargs, node, st, star=None, kwstar=False):
        k = f[0]
        if k == "func":
            return self.call_func(self.inf.func_of(f[1]), args, kwargs, node,
                                  st, star, kwstar)
        if k == "meth":
            return self.call_func(
                self.inf.func_of(f[1]), [frozenset([f[2]])] + args, kwargs,
                node, st, star, kwstar)
        if k == "cls":
            return self.instantiate(f[1], args, kwargs, node, st, star, kwstar)
        if k == "inst":
            return self.call_method(f, "__call__", args, node, st, kwargs)
        if k == "weak":
            self.last_deref = node
            self.event("deref", node, st, f[1])
            if id(node) not in self.inf.bound:
                self.event("drop", node, st, frozenset([f[1]]))
            return frozenset([f[1], NONE])
        if k == "ext":
            return self.call_ext(f[1], args, kwargs, node, st, star)
        if k == "extmeth":
            return self.call_extmeth(f[1], f[2], args, kwargs, node, st, star)
        if k == "any":
            return frozenset([ANY])
        return E0

    def call_func(self, f, args, kwargs, node, st, star=None, kwstar=False):
        if isinstance(node, ast.Call):
            self.inf.sites.setdefault(id(node), (node, self.where(node), {}))[
                2].setdefault(f.qual, set()).add(
                    mismatch(f, len(args), kwargs, star, kwstar))
        params = self.bind(f, args, kwargs, star, kwstar)
        ctx, s = self.inf.call_summary(self.inf.ctx_key(f, params))
        self.event("call", node, st, ctx)
        if not f_is_gen(self.inf, ctx):
            for k, w in s.raises.items():
                self.raise_(k, node, w)
            if f.qual in self.inf.escapes_any:
                self.raise_("builtins.Exception", node)
        # a function returning the result of dereferencing a weak reference
        for c in s.events:
            if c[0] == "deref" and any(
                    a in s.ret for a in [c[1][0]]):
                self.last_deref = node
                if id(node) not in self.inf.bound:
                    self.event("drop", node, st, frozenset([c[1][0]]))
        return s.ret

    def bind(self, f, args, kwargs, star, kwstar):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        anns = {x.arg: x.annotation
                for x in a.posonlyargs + a.args + a.kwonlyargs}
        params = {}
        for name, av in zip(pos, args):
            params[name] = av
        rest = args[len(pos):]
        if star is not None:
            for name in pos[len(args):]:
                if name not in kwargs:
                    params[name] = star | self.inf.default_av(f, name)
        extra = {}
        for n, v in kwargs.items():
            if n in pos or n in kwonly:
                params[n] = params.get(n, E0) | v
            else:
                extra[n] = v
        for name in pos + kwonly:
            if name not in params:
                params[name] = self.inf.default_av(f, name)
                if kwstar:
                    params[name] |= self.inf.annot(
                        f.module.name, anns[name], f.cls)
        if a.vararg is not None:
            if star is None:
                params[a.vararg.arg] = frozenset([("tuple", tuple(
                    depth_limit(x) for x in rest))])
            else:
                site = ("vararg", f.qual)
                av = star
                for x in rest:
                    av |= x
                self.inf.write("elems", site, av)
                params[a.vararg.arg] = frozenset([("tuplev", site)])
        if a.kwarg is not None:
            params[a.kwarg.arg] = frozenset([
                ("kw", tuple(sorted(
                    (n, v) for n, v in extra.items())), kwstar)])
        return params

    def instantiate(self, qual, args, kwargs, node, st, star=None,
                    kwstar=False):
        c = self.prog.classes[qual]
        if self.prog.is_enum(c):
            self.raise_("builtins.ValueError", node)
            return frozenset([("inst", qual, None)])
        tag = None
        if qual in self.inf.tagged:
            tag = f"{self.where(node)}"
        inst = ("inst", qual, tag)
        known = self.inf.allocs.setdefault(qual, [])
        if inst not in known:
            known.append(inst)
        init = self.prog.member(c, "__init__")
        if isinstance(init, Func):
            self.call_func(init, [frozenset([inst])] + args, kwargs, node, st,
                           star, kwstar)
        return frozenset([inst])

    def call_method(self, inst, name, args, node, st, kwargs=None):
        c = self.prog.classes[inst[1]]
        mem = self.prog.member(c, name)
        if isinstance(mem, Func):
            first = [] if mem.kind == "staticmethod" else [frozenset([inst])]
            return self.call_func(mem, first + list(args), kwargs or {}, node,
                                  st)
        if isinstance(mem, ast.expr):
            out = E0
            for a in self.member_av(inst, mem, name, node, st):
                out |= self.call(a, list(args), kwargs or {}, node, st)
            return out
        return E0

    # -- external ---------------------------------------------------------

    def site(self, node):
        return (self.mod, self.func.qual if self.func else "",
                getattr(node, "lineno", 0), getattr(node, "col_offset", 0))

    def call_ext(self, name, args, kwargs, node, st, star=None):
        self.event("ext", node, st, name)
        arg = lambda i: args[i] if i < len(args) else (star or E0)
        short = name.split(".")[-1]
        if name in BLOCKING_FUNCS:
            self.event("block", node, st, name)
        for exc in EXT_RAISES.get(name, ()):
            self.raise_(exc, node)
        if name == "weakref.ref":
            return frozenset(("weak", a) for a in arg(0) if a[0] == "inst")
        if name == "weakref.proxy":
            return arg(0)
        if name in EXT_CONTAINERS:
            kind = EXT_CONTAINERS[name]
            if kind == "bytearray":
                return frozenset([("bytearray",)])
            site = self.site(node)
            if name == "collections.defaultdict" and args:
                self.inf.factories[site] = arg(0)
                args = args[1:]
            for k, av in kwargs.items():
                if kind == "dict":
                    self.inf.write("keys", site, frozenset([STR]))
                    self.inf.write("elems", site, av)
            if args:
                el = self.iterate(args[0], node, st)
                if kind == "dict":
                    for a in el:
                        if a[0] == "tuple" and len(a[1]) == 2:
                            self.inf.write("keys", site, a[1][0])
                            self.inf.write("elems", site, a[1][1])
                else:
                    self.inf.write("elems", site, el)
            return frozenset([(kind, site)])
        if name == "builtins.tuple":
            if args and all(a[0] == "tuple" for a in arg(0)):
                return arg(0)
            site = self.site(node)
            if args:
                self.inf.write("elems", site, self.iterate(arg(0), node, st))
            return frozenset([("tuplev", site)])
        if name == "builtins.super":
            if self.func is not None and self.func.cls is not None:
                first = self.func.node.args.args[0].arg
                if args and len(args) >= 2:
                    recv = arg(1)
                else:
                    recv = st.env.get(first, E0)
                return frozenset(
                    ("super", self.func.cls.qual, a) for a in recv
                    if a[0] in ("inst", "cls"))
            return frozenset([ANY])
        if name == "builtins.type" and len(args) == 1:
            return frozenset(
                ("cls", a[1]) if a[0] == "inst" else ANY for a in arg(0))
        if name == "builtins.isinstance" and len(args) == 2:
            res = {isinstance_av(self.prog, a, arg(1)) for a in arg(0)}
            if res == {True}:
                return frozenset([TRUE])
            if res == {False}:
                return frozenset([FALSE])
            return frozenset([BOOL])
        if name == "builtins.next":
            out = E0
            for a in arg(0):
                if a[0] == "inst":
                    out |= self.call_method(a, "__next__", [], node, st)
                else:
                    out |= self.iterate(frozenset([a]), node, st)
                    if len(args) < 2 and a not in (ANY,):
                        self.raise_("builtins.StopIteration", node)
            return out | (arg(1) if len(args) > 1 else E0)
        if name == "builtins.iter":
            out = E0
            for a in arg(0):
                if a[0] == "inst":
                    out |= self.call_method(a, "__iter__", [], node, st)
                else:
                    out |= {("iterof", depth_limit(
                        self.iterate(frozenset([a]), node, st)))}
            return out
        if name in ("builtins.reversed", "builtins.sorted"):
            for f in kwargs.get("key", ()):
                self.call(f, [self.iterate(arg(0), node, st)], {}, node, st)
            return frozenset([("iterof", depth_limit(
                self.iterate(arg(0), node, st)))])
        if name == "builtins.map":
            els = [self.iterate(a, node, st) for a in args[1:]]
            out = E0
            for f in arg(0):
                out |= self.call(f, els, {}, node, st)
            return frozenset([("iterof", depth_limit(out))])
        if name == "builtins.filter":
            el = self.iterate(arg(1), node, st)
            for f in arg(0):
                self.call(f, [el], {}, node, st)
            return frozenset([("iterof", depth_limit(el))])
        if name == "builtins.zip":
            return frozenset([("iterof", frozenset([("tuple", tuple(
                depth_limit(self.iterate(a, node, st)) for a in args))]))])
        if name == "builtins.enumerate":
            return frozenset([("iterof", frozenset([("tuple", (
                frozenset([INT]),
                depth_limit(self.iterate(arg(0), node, st))))]))])
        if name == "builtins.range":
            return frozenset([("iterof", frozenset([INT]))])
        if name in ("builtins.any", "builtins.all"):
            self.iterate(arg(0), node, st)
            return frozenset([BOOL])
        if name in ("builtins.min", "builtins.max", "builtins.sum"):
            if len(args) == 1:
                return self.iterate(arg(0), node, st)
            out = E0
            for a in args:
                out |= a
            for a in out:
                if a[0] == "inst":
                    self.call_method(a, "__lt__", [out], node, st)
            return out
        if name == "builtins.divmod":
            t = frozenset([INT])
            if arg(0) <= {BYTE}:
                t = frozenset([BYTE])
            return frozenset([("tuple", (t, t))])
        if name == "builtins.int":
            if any(a in (STR, BYTES, ANY) for a in arg(0)):
                self.raise_("builtins.ValueError", node)
            return frozenset([INT])
        if name == "builtins.int.from_bytes":
            self.iterate(arg(0), node, st)
            return frozenset([INT])
        if name in ("builtins.bytes", "builtins.bytearray"):
            for a in arg(0):
                if a[0] == "inst":
                    el = self.iterate(frozenset([a]), node, st)
                elif a[0] in ("list", "tuple", "tuplev", "iterof", "gen",
                              "set"):
                    el = self.iterate(frozenset([a]), node, st)
                else:
                    el = E0
                if any(x == INT for x in el):
                    self.raise_("builtins.ValueError", node)
            return frozenset([BYTES])
        if name == "builtins.getattr":
            return frozenset([ANY])
        if name == "builtins.len":
            for a in arg(0):
                if a[0] == "inst":
                    self.call_method(a, "__len__", [], node, st)
            return frozenset([INT])
        if name == "builtins.bool":
            self.truth(arg(0), node, st)
            return frozenset([BOOL]) if args else frozenset([FALSE])
        if name in ("builtins.str", "builtins.repr"):
            for a in arg(0):
                if a[0] == "inst":
                    self.stringify(a, node, st)
            return frozenset([STR])
        if name == "builtins.hash":
            for a in arg(0):
                if a[0] == "inst":
                    self.call_method(a, "__hash__", [], node, st)
            return frozenset([INT])
        if name == "builtins.print":
            return frozenset([NONE])
        if name.startswith("heapq."):
            heap = arg(0)
            els = E0
            for h in heap:
                if h[0] == "list":
                    if short in ("heappush", "heapreplace", "heappushpop"):
                        self.inf.write("elems", h[1], arg(1))
                    els |= self.inf.read("elems", h[1])
                    self.event("mutate", node, st, h)
            for a in els:
                if a[0] == "inst":
                    self.call_method(a, "__lt__", [els], node, st)
            if short in ("heappop", "heapreplace", "heappushpop"):
                return els
            if short == "heapify" or short == "heappush":
                return frozenset([NONE])
            return frozenset([ANY])
        if name == "threading.Thread":
            inst = ("extinst", name, self.site(node))
            targs = E0
            targets = kwargs.get("target", E0)
            cargs = []
            for a in kwargs.get("args", E0):
                if a[0] == "tuple":
                    cargs = list(a[1])
            for f in targets:
                before = len(self.summary.events)
                self.call(f, cargs, {}, node, St({}, E0, E0))
                # what the new thread does is not done by this caller
                evs = self.summary.events[before:]
                del self.summary.events[before:]
                for ev in evs:
                    if ev[0] == "call":
                        self.event("spawn", node, st, ev[1][0])
            return frozenset([inst])
        if name == "socket.socket":
            return frozenset([("extinst", "socket.socket", None)])
        if name == "select.poll":
            return frozenset([("extinst", "select.poll", None)])
        if name == "select.select":
            return frozenset([("tuple", (arg(0), arg(1), arg(2)))])
        if name == "os.pipe":
            return frozenset([("tuple", (
                frozenset([INT]), frozenset([INT])))])
        if name in EXT_RETURNS:
            for a in args:
                self.iterate_if_gen(a, node, st)
            return frozenset([EXT_RETURNS[name]])
        if name in ("typing.TypeVar",):
            return frozenset([ANY])
        if name in ("builtins.object", "builtins.property"):
            return frozenset([ANY])
        cls = ext_class(name)
        if cls is not None:
            if issubclass(cls, BaseException):
                return frozenset([("extinst", "builtins." + cls.__name__
                                   if cls.__module__ == "builtins" else name,
                                   None)])
            site = self.site(node) if name in LOCK_TYPES else None
            return frozenset([("extinst", name, site)])
        if name in ("threading.Lock", "threading.RLock"):
            return frozenset([("extinst", name, self.site(node))])
        return frozenset([ANY])

    def iterate_if_gen(self, av, node, st):
        for a in av:
            if a[0] == "gen":
                self.iterate(frozenset([a]), node, st)

    def call_extmeth(self, recv, name, args, kwargs, node, st, star=None):
        arg = lambda i: args[i] if i < len(args) else (star or E0)
        k = recv[0]
        if k in ("list", "dict", "set", "tuplev", "tuple", "iterof"):
            return self.container_method(recv, name, args, kwargs, node, st,
                                         star)
        if k == "gen":
            return self.inf.summ[recv[1]].yields
        if k in ("kw", "kwany"):
            if name in ("get", "pop"):
                return frozenset([ANY]) | arg(1)
            return frozenset([ANY])
        if k == "extinst":
            cls = recv[1]
            self.event("extmeth", node, st, cls, name, recv)
            if (cls, name) in BLOCKING_METHODS:
                self.event("block", node, st, f"{cls}.{name}")
            if cls in LOCK_TYPES:
                if name == "acquire":
                    self.acquire([recv], node, st)
                    st.may = st.may | {recv}
                    st.must = st.must | {recv}
                elif name == "release":
                    st.may = st.may - {recv}
                    st.must = st.must - {recv}
                return frozenset([BOOL])
            if cls == "socket.socket":
                self.raise_("builtins.OSError", node)
                if name == "recvfrom":
                    return frozenset([("tuple", (
                        frozenset([BYTES]), frozenset([ANY])))])
                if name == "recv":
                    return frozenset([BYTES])
                if name == "fileno":
                    return frozenset([INT])
                return frozenset([ANY])
            if cls == "select.poll":
                if name == "poll":
                    return frozenset([("iterof", frozenset([("tuple", (
                        frozenset([INT]), frozenset([INT])))]))])
                return frozenset([NONE])
            if cls == "threading.Event":
                return frozenset([BOOL if name != "set" else NONE])
            return frozenset([ANY])
        if recv in (BYTES, ("bytearray",)):
            if name == "decode":
                self.raise_("builtins.UnicodeDecodeError", node)
                return frozenset([STR])
            if name == "join":
                self.iterate(arg(0), node, st)
                return frozenset([BYTES])
            if name in ("append", "extend"):
                if any(a == INT for a in arg(0)):
                    self.raise_("builtins.ValueError", node)
                return frozenset([NONE])
            if name in ("index",):
                self.raise_("builtins.ValueError", node)
                return frozenset([INT])
            if name in ("find", "count", "pop"):
                return frozenset([INT])
            if name in ("startswith", "endswith"):
                return frozenset([BOOL])
            if name in ("reverse", "clear"):
                return frozenset([NONE])
            if name == "hex":
                return frozenset([STR])
            return frozenset([BYTES])
        if recv == STR:
            if name == "encode":
                return frozenset([BYTES])
            if name in ("split", "splitlines", "rsplit"):
                site = ("strsplit",)
                self.inf.write("elems", site, frozenset([STR]))
                return frozenset([("list", site)])
            if name in ("join", "format"):
                for a in args:
                    for x in self.iterate(a, node, st) if name == "join" \
                            else a:
                        if x[0] == "inst":
                            self.stringify(x, node, st)
                return frozenset([STR])
            if name in ("startswith", "endswith", "isdigit"):
                return frozenset([BOOL])
            if name in ("find", "count"):
                return frozenset([INT])
            return frozenset([STR])
        if recv in (INT, BYTE, BOOL, TRUE, FALSE):
            if name == "to_bytes":
                self.raise_("builtins.OverflowError", node)
                return frozenset([BYTES])
            return frozenset([INT])
        if k == "inst":
            # a method of an external base class (Enum, Exception, object)
            c = self.prog.classes[recv[1]]
            if name == "to_bytes" and self.prog.is_enum(c):
                return frozenset([BYTES])
            return frozenset([ANY])
        return frozenset([ANY])

    def container_method(self, recv, name, args, kwargs, node, st, star):
        arg = lambda i: args[i] if i < len(args) else (star or E0)
        if name in CONTAINER_MUTATORS:
            self.event("mutate", node, st, recv)
        else:
            self.event("use", node, st, recv)
        k = recv[0]
        if k in ("tuple", "iterof"):
            if name == "__getitem__":
                self.raise_("builtins.IndexError", node)
                return self.iterate(frozenset([recv]), node, st)
            if name == "__hash__":
                return frozenset([INT])
            return frozenset([INT])
        site = recv[1]
        if name in ("append", "appendleft", "add"):
            self.inf.write("elems", site, arg(0))
            return frozenset([NONE])
        if name == "insert":
            self.inf.write("elems", site, arg(1))
            return frozenset([NONE])
        if name in ("extend", "extendleft", "update"):
            if k == "dict":
                for a in arg(0):
                    if a[0] == "dict":
                        self.inf.write("keys", site,
                                       self.inf.read("keys", a[1]))
                        self.inf.write("elems", site,
                                       self.inf.read("elems", a[1]))
            else:
                self.inf.write("elems", site, self.iterate(arg(0), node, st))
            return frozenset([NONE])
        if name in ("pop", "popleft", "popitem"):
            if k == "dict":
                if len(args) < 2:
                    self.raise_("builtins.KeyError", node)
                if name == "popitem":
                    return frozenset([("tuple", (
                        self.inf.read("keys", site),
                        self.inf.read("elems", site)))])
                return self.inf.read("elems", site) | arg(1)
            self.raise_("builtins.KeyError" if k == "set"
                        else "builtins.IndexError", node)
            return self.inf.read("elems", site)
        if name == "get":
            self.hash_key(arg(0), node, st)
            return (self.inf.read("elems", site)
                    | (arg(1) if len(args) > 1 else frozenset([NONE])))
        if name == "setdefault":
            self.inf.write("keys", site, arg(0))
            self.inf.write("elems", site, arg(1))
            return self.inf.read("elems", site)
        if name == "items":
            return frozenset([("iterof", frozenset([("tuple", (
                depth_limit(self.inf.read("keys", site)),
                depth_limit(self.inf.read("elems", site))))]))])
        if name == "keys":
            return frozenset([("iterof", self.inf.read("keys", site))])
        if name == "values":
            return frozenset([("iterof", self.inf.read("elems", site))])
        if name == "copy":
            return frozenset([recv])
        if name == "__getitem__":
            self.raise_("builtins.IndexError", node)
            return self.inf.read("elems", site)
        if name in ("remove", "index"):
            self.raise_("builtins.ValueError" if k != "set"
                        else "builtins.KeyError", node)
            return frozenset([NONE, INT])
        if name == "count":
            return frozenset([INT])
        return frozenset([NONE])

    def hash_key(self, av, node, st):
        for a in av:
            if a[0] == "inst":
                self.call_method(a, "__hash__", [], node, st)
                self.call_method(a, "__eq__", [av], node, st)

    def stringify(self, a, node, st, which=("__str__", "__repr__")):
        c = self.prog.classes[a[1]]
        for n in which:
            if self.prog.member(c, n) is not None:
                self.call_method(a, n, [], node, st)
                return

    def iterate(self, av, node, st):
        out = E0
        for a in av:
            k = a[0]
            if k in ("list", "set", "tuplev"):
                self.event("use", node, st, a)
                out |= self.inf.read("elems", a[1])
            elif k == "dict":
                self.event("use", node, st, a)
                out |= self.inf.read("keys", a[1])
            elif k == "tuple":
                for x in a[1]:
                    out |= x
            elif k == "iterof":
                out |= a[1]
            elif k == "bytes" or k == "bytearray":
                out |= {BYTE}
            elif k == "str":
                out |= {STR}
            elif k == "gen":
                ctx, s = self.inf.call_summary(a[1])
                self.event("call", node, st, ctx)
                for exc, w in s.raises.items():
                    if exc == "builtins.StopIteration":
                        exc = "builtins.RuntimeError"
                    self.raise_(exc, node, w)
                out |= s.yields
            elif k == "genexp":
                out |= a[1]
                for exc, w in sorted(self.inf.genraises.get(
                        a[2], {}).items()):
                    self.raise_(exc, node, w)
            elif k == "inst":
                c = self.prog.classes[a[1]]
                if self.prog.member(c, "__next__") is not None:
                    out |= self.call_method(a, "__next__", [], node, st)
                elif self.prog.member(c, "__iter__") is not None:
                    r = self.call_method(a, "__iter__", [], node, st)
                    if a not in r:
                        out |= self.iterate(r, node, st)
                elif self.prog.member(c, "__getitem__") is not None:
                    out |= self.call_method(a, "__getitem__", [
                        frozenset([INT])], node, st)
            elif k == "cls" and self.prog.is_enum(self.prog.classes[a[1]]):
                out |= {("inst", a[1], None)}
            elif k == "any":
                out |= {ANY}
        return out

    def truth(self, av, node, st):
        for a in av:
            if a[0] in ("dict", "list", "set") and len(a) > 1:
                self.event("use", node, st, a)
            if a[0] == "inst":
                c = self.prog.classes[a[1]]
                for n in ("__bool__", "__len__"):
                    if self.prog.member(c, n) is not None:
                        self.call_method(a, n, [], node, st)
                        break

    def e_BoolOp(self, e, st):
        out = E0
        cur = st
        conj = isinstance(e.op, ast.And)
        for i, v in enumerate(e.values):
            av = self.eval(v, cur)
            last = i == len(e.values) - 1
            if not last:
                self.truth(av, e, cur)
                out |= frozenset(
                    a for a in av if may_be(self.inf, a, not conj))
                nxt = self.refine(v, cur, conj, av)
                if nxt is None:
                    return out
                cur = nxt
            else:
                out |= av
        return out

    def e_UnaryOp(self, e, st):
        av = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            self.truth(av, e, st)
            res = set()
            for a in av:
                if may_be(self.inf, a, True):
                    res.add(FALSE)
                if may_be(self.inf, a, False):
                    res.add(TRUE)
            return frozenset(res) if len(res) == 1 else frozenset([BOOL])
        return frozenset(INT if a == BYTE else a for a in av)

    def e_BinOp(self, e, st):
        return self.binop(
            e.op, self.eval(e.left, st), self.eval(e.right, st), e, st)

    def binop(self, op, l, r, node, st):
        out = E0
        if isinstance(op, (ast.BitAnd,)):
            if BYTE in l | r and all(
                    a in (BYTE, INT, BOOL, TRUE, FALSE) for a in l | r):
                if l <= {BYTE} or r <= {BYTE}:
                    return frozenset([BYTE])
        if isinstance(op, (ast.BitXor, ast.BitOr)):
            if l and r and l | r <= {BYTE}:
                return frozenset([BYTE])
        if isinstance(op, ast.RShift) and l <= {BYTE} and l:
            return frozenset([BYTE])
        for a in l:
            if a[0] == "inst":
                opn = OPS.get(type(op))
                c = self.prog.classes[a[1]]
                if opn and self.prog.member(c, opn) is not None:
                    out |= self.call_method(a, opn, [r], node, st)
                elif self.prog.is_enum(c):
                    out |= {INT}
            elif a in (INT, BYTE, BOOL, TRUE, FALSE):
                if isinstance(op, ast.Div) or FLOAT in r:
                    out |= {FLOAT}
                for b in r:
                    if b in (INT, BYTE, BOOL, TRUE, FALSE) or b[0] == "inst":
                        out |= {INT}
                    elif b in (BYTES, STR):
                        out |= {b}
            elif a == FLOAT:
                out |= {FLOAT}
            elif a == STR:
                out |= {STR}
            elif a in (BYTES, ("bytearray",)):
                out |= {BYTES}
            elif a[0] in ("list", "tuple", "tuplev"):
                if a[0] == "list":
                    for b in r:
                        self.inf.write("elems", a[1], self.iterate(
                            frozenset([b]), node, st))
                    out |= {a}
                else:
                    site = self.site(node)
                    self.inf.write("elems", site, self.iterate(
                        frozenset([a]) | r, node, st))
                    out |= {("tuplev", site)}
            elif a == ANY:
                out |= {ANY}
        return out

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        for op, cmp in zip(e.ops, e.comparators):
            right = self.eval(cmp, st)
            if isinstance(op, (ast.In, ast.NotIn)):
                for b in right:
                    if b[0] in ("list", "dict", "set", "tuplev"):
                        self.event("use", e, st, b)
                        self.hash_key(left, e, st)
                    elif b[0] == "inst":
                        self.call_method(b, "__contains__", [left], e, st)
            elif not isinstance(op, (ast.Is, ast.IsNot)):
                opn = CMPS[type(op)]
                for a in left:
                    if a[0] == "inst":
                        c = self.prog.classes[a[1]]
                        if self.prog.member(c, opn[0]) is not None:
                            self.call_method(a, opn[0], [right], e, st)
                        else:
                            for b in right:
                                if b[0] == "inst":
                                    self.call_method(
                                        b, opn[1], [left], e, st)
            elif len(e.ops) == 1 and isinstance(cmp, ast.Constant) \
                    and cmp.value is None and left:
                pos = isinstance(op, ast.Is)
                if left == frozenset([NONE]):
                    return frozenset([TRUE if pos else FALSE])
                if NONE not in left and ANY not in left:
                    return frozenset([FALSE if pos else TRUE])
            left = right
        return frozenset([BOOL])

    def e_IfExp(self, e, st):
        tv = self.eval(e.test, st)
        self.truth(tv, e, st)
        a = self.refine(e.test, st, True, tv)
        b = self.refine(e.test, st, False, tv)
        out = E0
        if a is not None:
            out |= self.eval(e.body, a)
        if b is not None:
            out |= self.eval(e.orelse, b)
        return out

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            site = self.site(e)
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.inf.write("elems", site, self.iterate(
                        self.eval(x.value, st), e, st))
                else:
                    self.inf.write("elems", site, self.eval(x, st))
            return frozenset([("tuplev", site)])
        return frozenset([("tuple", tuple(
            depth_limit(self.eval(x, st)) for x in e.elts))])

    def e_List(self, e, st):
        site = self.site(e)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.inf.write("elems", site, self.iterate(
                    self.eval(x.value, st), e, st))
            else:
                self.inf.write("elems", site, self.eval(x, st))
        return frozenset([("list", site)])

    def e_Set(self, e, st):
        site = self.site(e)
        for x in e.elts:
            self.inf.write("elems", site, self.eval(x, st))
        return frozenset([("set", site)])

    def e_Dict(self, e, st):
        site = self.site(e)
        for k, v in zip(e.keys, e.values):
            if k is None:
                for a in self.eval(v, st):
                    if a[0] == "dict":
                        self.inf.write("keys", site,
                                       self.inf.read("keys", a[1]))
                        self.inf.write("elems", site,
                                       self.inf.read("elems", a[1]))
            else:
                self.inf.write("keys", site, self.eval(k, st))
                self.inf.write("elems", site, self.eval(v, st))
        return frozenset([("dict", site)])

    def comp(self, e, st):
        st = st.copy()
        for g in e.generators:
            el = self.iterate(self.eval(g.iter, st), e, st)
            st = self.assign(g.target, el, st, None)
            for c in g.ifs:
                tv = self.eval(c, st)
                st = self.refine(c, st, True, tv) or st
        return st

    def e_ListComp(self, e, st):
        inner = self.comp(e, st)
        site = self.site(e)
        self.inf.write("elems", site, self.eval(e.elt, inner))
        return frozenset([("list", site)])

    def e_SetComp(self, e, st):
        inner = self.comp(e, st)
        site = self.site(e)
        self.inf.write("elems", site, self.eval(e.elt, inner))
        return frozenset([("set", site)])

    def e_DictComp(self, e, st):
        inner = self.comp(e, st)
        site = self.site(e)
        self.inf.write("keys", site, self.eval(e.key, inner))
        self.inf.write("elems", site, self.eval(e.value, inner))
        return frozenset([("dict", site)])

    def e_GeneratorExp(self, e, st):
        save = self.sink
        self.sink = {}
        inner = self.comp(e, st)
        av = self.eval(e.elt, inner)
        raised = self.sink
        self.sink = save
        # raised when the generator is iterated; StopIteration inside a
        # generator becomes RuntimeError
        site = self.site(e)
        table = self.inf.genraises.setdefault(site, {})
        for k, w in sorted(raised.items()):
            if k == "builtins.StopIteration":
                k = "builtins.RuntimeError"
            table.setdefault(k, w)
        return frozenset([("genexp", depth_limit(av), site)])

    def e_Lambda(self, e, st):
        f = self.prog.closure(e, self.func or ModuleFunc(
            self.prog.modules[self.mod], self.cls))
        if f.qual not in self.inf.lambdas:
            base, n = f.qual, 1
            while f.qual in self.inf.lambdas:
                f.qual = f"{base}#{n}"
                n += 1
        elif self.inf.lambdas[f.qual] is not f:
            f.qual += f":{e.col_offset}"
        self.inf.lambdas[f.qual] = f
        self.capture(f, st)
        return frozenset([("func", f.qual)])

    def capture(self, f, st):
        for k, v in st.env.items():
            self.inf.write("closenv", (f.qual, k), v)
        if self.func is not None and (
                self.func.parent or isinstance(self.func.node, ast.Lambda)):
            for (q, k), v in list(self.inf.closenv.items()):
                if q == self.func.qual and k not in st.env:
                    self.inf.write("closenv", (f.qual, k), v)

    def e_JoinedStr(self, e, st):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.e_FormattedValue(v, st)
        return frozenset([STR])

    def e_FormattedValue(self, e, st):
        av = self.eval(e.value, st)
        which = ("__repr__",) if e.conversion == 114 else (
            "__format__", "__str__", "__repr__")
        for a in av:
            if a[0] == "inst":
                self.stringify(a, e, st, which)
        return frozenset([STR])

    def e_Subscript(self, e, st):
        base = self.eval(e.value, st)
        if isinstance(e.slice, ast.Slice):
            key = frozenset([("slice",)])
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    self.eval(x, st)
        else:
            key = self.eval(e.slice, st)
        return self.subscript(base, key, e, st)

    def subscript(self, base, key, e, st):
        sl = key == frozenset([("slice",)])
        out = E0
        for b in base:
            k = b[0]
            if k == "dict":
                self.event("use", e, st, b)
                self.hash_key(key, e, st)
                made = self.inf.factories.get(b[1], E0)
                if made:
                    for f in made:
                        self.inf.write("elems", b[1],
                                       self.call(f, [], {}, e, st))
                    self.inf.write("keys", b[1], key)
                else:
                    self.raise_("builtins.KeyError", e)
                out |= self.inf.read("elems", b[1])
            elif k in ("list", "tuplev"):
                self.event("use", e, st, b)
                if sl:
                    out |= {b}
                else:
                    self.raise_("builtins.IndexError", e)
                    out |= self.inf.read("elems", b[1])
                    if ("slice",) in key:
                        out |= {b}
            elif k == "tuple":
                s = e.slice if isinstance(e, ast.Subscript) else None
                i = s.value if isinstance(s, ast.Constant) else None
                if isinstance(i, int) and -len(b[1]) <= i < len(b[1]):
                    out |= b[1][i]
                elif sl:
                    site = self.site(e)
                    self.inf.write("elems", site, self.iterate(
                        frozenset([b]), e, st))
                    out |= {("tuplev", site)}
                else:
                    self.raise_("builtins.IndexError", e)
                    for x in b[1]:
                        out |= x
            elif b in (BYTES, ("bytearray",)):
                if sl:
                    out |= {BYTES}
                else:
                    self.raise_("builtins.IndexError", e)
                    out |= {BYTE}
                    if ("slice",) in key:
                        out |= {BYTES}
            elif b == STR:
                if not sl:
                    self.raise_("builtins.IndexError", e)
                out |= {STR}
            elif k == "inst":
                out |= self.call_method(b, "__getitem__", [key], e, st)
            elif k in ("kw", "kwany"):
                out |= {ANY}
            elif k in ("cls", "ext"):
                out |= {b}
            elif k == "any":
                out |= {ANY}
        return out

    def e_Slice(self, e, st):
        return frozenset([("slice",)])

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_NamedExpr(self, e, st):
        av = self.eval(e.value, st)
        st.env[e.target.id] = av
        return av

    def e_Yield(self, e, st):
        av = self.eval(e.value, st) if e.value is not None \
            else frozenset([NONE])
        self.summary.yields |= av
        return frozenset([ANY])

    def e_YieldFrom(self, e, st):
        av = self.eval(e.value, st)
        self.summary.yields |= self.iterate(av, e, st)
        return frozenset([ANY])

    def e_Await(self, e, st):
        return self.eval(e.value, st)


class ModuleFunc:
    def __init__(self, module, cls):
        self.qual = module.name
        self.module = module
        self.cls = cls
        self.parent = None


OPS = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__",
       ast.BitOr: "__or__", ast.BitAnd: "__and__", ast.BitXor: "__xor__"}
CMPS = {ast.Eq: ("__eq__", "__eq__"), ast.NotEq: ("__eq__", "__eq__"),
        ast.Lt: ("__lt__", "__gt__"), ast.Gt: ("__gt__", "__lt__"),
        ast.LtE: ("__le__", "__ge__"), ast.GtE: ("__ge__", "__le__")}


def as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(
            ast.Attribute(t.value, t.attr, ast.Load()), t)
    return ast.copy_location(
        ast.Subscript(t.value, t.slice, ast.Load()), t)


def same(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    return a.env == b.env and a.may == b.may and a.must == b.must


def depth(av):
    d = 0
    for a in av:
        if a[0] == "tuple":
            for x in a[1]:
                d = max(d, 1 + depth(x))
        elif a[0] in ("iterof", "genexp"):
            d = max(d, 1 + depth(a[1]))
    return d


def depth_limit(av):
    return frozenset([ANY]) if depth(av) > 3 else av


def may_be(inf, a, polarity):
    if a in (NONE, FALSE):
        return not polarity
    if a == TRUE:
        return polarity
    if not polarity and a[0] == "inst":
        c = inf.prog.classes[a[1]]
        return (inf.prog.member(c, "__bool__") is not None
                or inf.prog.member(c, "__len__") is not None
                or inf.prog.is_enum(c))
    if not polarity and a[0] in ("cls", "func", "meth", "extinst", "mod"):
        return False
    if a[0] == "tuple":
        return bool(a[1]) == polarity
    return True


PYTYPE = {"int": "int", "byte": "int", "str": "str", "bytes": "bytes",
          "float": "float", "bool": "bool", "True": "bool", "False": "bool",
          "None": "NoneType", "dict": "dict", "list": "list", "set": "set",
          "tuple": "tuple", "tuplev": "tuple", "slice": "slice",
          "bytearray": "bytearray", "cls": "type", "kw": "dict",
          "kwany": "dict"}


def isinstance_av(prog, a, types):
    """True / False / None (unknown)"""
    if a == ANY:
        return None
    flat = set()
    for t in types:
        if t[0] == "tuple":
            for x in t[1]:
                flat |= x
        else:
            flat.add(t)
    result = False
    for t in flat:
        if t[0] == "cls":
            if a[0] == "inst":
                if any(c.qual == t[1] for c in prog.classes[a[1]].mro):
                    return True
        elif t[0] == "ext":
            n = t[1].split(".")[-1]
            if a[0] in PYTYPE:
                p = PYTYPE[a[0]]
                if p == n or n == "object" or (p == "bool" and n == "int"):
                    return True
            elif a[0] == "inst":
                if t[1] in prog.classes[a[1]].ext_bases:
                    return True
                if prog.is_enum(prog.classes[a[1]]) and n == "int":
                    return True
            elif a[0] == "extinst":
                if a[1] == t[1]:
                    return True
        else:
            result = None
    return result


_ext_cache = {}


def ext_class(name):
    """The class object behind an external (standard library) name."""
    if name not in _ext_cache:
        mod, _, attr = name.rpartition(".")
        obj = None
        if mod and not mod.startswith("snmp") and not mod.startswith("Crypto"):
            try:
                obj = getattr(importlib.import_module(mod), attr, None)
            except Exception:
                obj = None
        _ext_cache[name] = obj if inspect.isclass(obj) else None
    return _ext_cache[name]
