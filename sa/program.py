"""Loads the current source of the package under analysis: modules, classes,
functions, name scopes.  Nothing of the package is imported or executed."""

import ast
import builtins
import hashlib
import importlib
import inspect
import os

from .desugar import desugar

REPO = os.environ.get("SA_REPO", "/repo")
PACKAGE = "snmp"

# Names that the package binds by importing a module chosen at run time.  Both
# alternatives are analysed.
DYNAMIC = {
    ("snmp.transport.udp", "UdpMultiplexor"): [
        ("snmp.transport.posix.udp", "UdpMultiplexor"),
        ("snmp.transport.generic.udp", "UdpMultiplexor"),
    ],
    ("snmp.security.usm.priv", "AesCfb128"): [
        ("snmp.security.usm.priv.openssl.aes", "AesCfb128"),
        ("snmp.security.usm.priv.pycryptodome.aes", "AesCfb128"),
    ],
    ("snmp.security.usm.priv", "DesCbc"): [
        ("snmp.security.usm.priv.openssl.des", "DesCbc"),
        ("snmp.security.usm.priv.pycryptodome.des", "DesCbc"),
    ],
}


class AnalysisError(Exception):
    """The analysis itself is broken (a vanished anchor, an unreadable file)."""


class AlwaysFails(AnalysisError):
    """What the scenario starts with raises an internal error on every path."""

    def __init__(self, what, exc):
        AnalysisError.__init__(self, f"{what}: always {exc.cls}")
        self.what = what
        self.exc = exc


INTERNAL = ("builtins.AttributeError", "builtins.NameError",
            "builtins.UnboundLocalError", "builtins.TypeError")


def require(results, what, exc_type):
    """The only normal outcome; an error if that is not what there is."""
    vs = [x for x in results if not isinstance(x[1], exc_type)]
    if not vs and results and all(x[1].cls in INTERNAL for x in results):
        raise AlwaysFails(what, results[0][1])
    if len(vs) != 1:
        raise AnalysisError(f"{what}: {len(vs)} outcomes")
    return vs[0]


class Module:
    def __init__(self, name, path, is_pkg, src):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        self.src = src
        self.tree = desugar(ast.parse(src, path))
        self.imports = {}       # local name -> [(module, name | None)]
        self.stars = []         # modules
        self.defs = {}          # name -> [ast node]  (functions, classes, assigns)
        self.all = None
        self.classes = {}
        self.funcs = {}

    def __repr__(self):
        return f"<Module {self.name}>"


class Class:
    def __init__(self, qual, node, module, outer):
        self.qual = qual
        self.name = node.name
        self.node = node
        self.module = module
        self.outer = outer
        self.members = {}       # name -> Func | Prop | Class | ast expr
        self.annots = {}        # name -> annotation
        self.mro = None
        self.ext_bases = []

    def __repr__(self):
        return self.qual


class Prop:
    def __init__(self, getter):
        self.getter = getter
        self.setter = None


class Func:
    def __init__(self, qual, node, module, cls, kind, parent=None):
        self.qual = qual
        self.name = getattr(node, "name", "<lambda>")
        self.node = node
        self.module = module
        self.cls = cls
        self.kind = kind        # function method classmethod staticmethod
        self.parent = parent    # enclosing Func for closures
        self._locals = None
        self._gen = None

    def __repr__(self):
        return self.qual

    @property
    def args(self):
        return self.node.args

    @property
    def where(self):
        return f"{self.module.relpath}:{self.node.lineno}"

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = False
            body = self.node.body
            for stmt in body if isinstance(body, list) else [body]:
                for n in walk_scope(stmt):
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        self._gen = True
        return self._gen

    @property
    def locals(self):
        if self._locals is None:
            names = set()
            a = self.node.args
            for arg in a.posonlyargs + a.args + a.kwonlyargs:
                names.add(arg.arg)
            for arg in (a.vararg, a.kwarg):
                if arg is not None:
                    names.add(arg.arg)
            body = self.node.body
            outer = set()
            for stmt in body if isinstance(body, list) else [body]:
                for n in walk_scope(stmt):
                    if isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)
                    ):
                        names.add(n.id)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        names.add(n.name)
                    elif isinstance(n, ast.ExceptHandler) and n.name:
                        names.add(n.name)
                    elif isinstance(n, (ast.Global, ast.Nonlocal)):
                        outer.update(n.names)
            self._locals = names - outer
        return self._locals


def walk_scope(node):
    """Like ast.walk(), without entering nested scopes (their names are not
    this scope's); comprehension targets are excluded, except for the first
    iterable, which is evaluated here."""
    yield node
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
        for d in node.decorator_list:
            yield from walk_scope(d)
        return
    if isinstance(node, ast.Lambda):
        return
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp,
                         ast.GeneratorExp)):
        yield from walk_scope(node.generators[0].iter)
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr):
                yield from walk_scope(n.target)
        return
    for child in ast.iter_child_nodes(node):
        yield from walk_scope(child)


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        base = dotted(node.value)
        return None if base is None else f"{base}.{node.attr}"
    return None


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        self.node_func = {}
        digest = hashlib.sha256()
        root = os.path.join(self.repo, PACKAGE)
        if not os.path.isdir(root):
            raise AnalysisError(f"no package at {root}")
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(path, encoding="utf-8") as fp:
                    src = fp.read()
                digest.update(rel.encode() + b"\0" + src.encode() + b"\0")
                m = Module(name, path, is_pkg, src)
                m.relpath = rel
                self.modules[name] = m
        self.digest = digest.hexdigest()
        for m in self.modules.values():
            self._scan_module(m)
        for c in self.classes.values():
            self._linearize(c)
        self.subclasses = {}
        for c in self.classes.values():
            for b in c.mro:
                self.subclasses.setdefault(b.qual, []).append(c)
        self.lines = sum(m.src.count("\n") for m in self.modules.values())

    # -- scanning ---------------------------------------------------------

    def _resolve_from(self, m, level, name):
        if not level:
            return name
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        if name:
            parts = parts + name.split(".")
        return ".".join(parts)

    def _scan_module(self, m):
        seen = set()

        def bind(name, what):
            b = m.imports.setdefault(name, [])
            if what not in b:
                b.append(what)

        def imported(s):
            seen.add(id(s))
            if isinstance(s, ast.Import):
                for al in s.names:
                    if al.asname:
                        bind(al.asname, (al.name, None))
                    else:
                        top = al.name.split(".")[0]
                        bind(top, (top, None))
            else:
                target = self._resolve_from(m, s.level, s.module)
                for al in s.names:
                    if al.name == "*":
                        m.stars.append(target)
                    else:
                        bind(al.asname or al.name, (target, al.name))

        def visit(stmts):
            for s in stmts:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    imported(s)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.defs.setdefault(s.name, []).append(s)
                    if not is_overload(s):
                        f = self._add_func(s, m, None, m.name, None)
                        m.funcs[s.name] = f
                elif isinstance(s, ast.ClassDef):
                    m.defs.setdefault(s.name, []).append(s)
                    m.classes[s.name] = self._scan_class(s, m, None, m.name)
                else:
                    for n in walk_scope(s):
                        if isinstance(n, ast.Name) and isinstance(
                                n.ctx, ast.Store):
                            m.defs.setdefault(n.id, []).append(s)
                    if (isinstance(s, ast.Assign)
                            and isinstance(s.targets[0], ast.Name)
                            and s.targets[0].id == "__all__"):
                        try:
                            m.all = list(ast.literal_eval(s.value))
                        except ValueError:
                            pass
                    for field in ("body", "orelse", "finalbody"):
                        sub = getattr(s, field, None)
                        if isinstance(sub, list):
                            visit([x for x in sub if isinstance(x, (
                                ast.Import, ast.ImportFrom, ast.FunctionDef,
                                ast.ClassDef, ast.If, ast.Try, ast.For,
                                ast.While, ast.With))])
                    for h in getattr(s, "handlers", []):
                        visit(h.body)
        visit(m.tree.body)
        # names imported inside functions are treated as the module's
        for s in ast.walk(m.tree):
            if isinstance(s, (ast.Import, ast.ImportFrom)) \
                    and id(s) not in seen:
                imported(s)

    def _add_func(self, node, m, cls, prefix, parent):
        kind = "function"
        if cls is not None and parent is None:
            kind = "method"
            for d in node.decorator_list:
                n = dotted(d)
                if n == "classmethod":
                    kind = "classmethod"
                elif n == "staticmethod":
                    kind = "staticmethod"
            if node.name in ("__init_subclass__", "__class_getitem__"):
                kind = "classmethod"
        f = Func(f"{prefix}.{node.name}", node, m, cls, kind, parent)
        key = f.qual
        while key in self.funcs:
            key += "'"
        f.qual = key
        self.funcs[key] = f
        self.node_func[node] = f
        return f

    def _scan_class(self, node, m, outer, prefix):
        c = Class(f"{prefix}.{node.name}", node, m, outer)
        self.classes[c.qual] = c

        def visit(stmts):
            for s in stmts:
                if isinstance(s, ast.FunctionDef):
                    if is_overload(s):
                        continue
                    f = self._add_func(s, m, c, c.qual, None)
                    decs = [dotted(d) for d in s.decorator_list]
                    if "property" in decs or "functools.cached_property" in decs:
                        c.members[s.name] = Prop(f)
                    elif any(d and d.endswith(".setter") for d in decs):
                        p = c.members.get(s.name)
                        if isinstance(p, Prop):
                            f2 = Prop(p.getter)
                            f2.setter = f
                            c.members[s.name] = f2
                    else:
                        c.members[s.name] = f
                elif isinstance(s, ast.ClassDef):
                    c.members[s.name] = self._scan_class(s, m, c, c.qual)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.members[t.id] = s.value
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name):
                        c.annots[s.target.id] = s.annotation
                        if s.value is not None:
                            c.members[s.target.id] = s.value
                elif isinstance(s, (ast.If, ast.Try)):
                    visit(s.body)
                    visit(s.orelse)
        visit(node.body)
        return c

    def closure(self, node, outer):
        """The Func of a lambda or nested def inside the function `outer`."""
        f = self.node_func.get(node)
        if f is None:
            name = getattr(node, "name", f"<lambda:{node.lineno}>")
            f = Func(f"{outer.qual}.{name}", node, outer.module, outer.cls,
                     "function", outer)
            self.node_func[node] = f
        return f

    # -- names ------------------------------------------------------------

    def exports(self, modname):
        m = self.modules.get(modname)
        if m is None:
            return None
        if m.all is not None:
            return set(m.all)
        names = {n for n in m.defs if not n.startswith("_")}
        names |= {n for n in m.imports if not n.startswith("_")}
        for s in m.stars:
            e = self.exports(s)
            if e:
                names |= e
        return names

    def resolve(self, modname, name, seen=None):
        """All bindings of a module-level name:
        ('class', Class) ('func', Func) ('mod', name) ('ext', dotted)
        ('var', modname, name)"""
        seen = seen or set()
        if (modname, name) in seen:
            return []
        seen = seen | {(modname, name)}
        if (modname, name) in DYNAMIC:
            out = []
            for mn, n in DYNAMIC[(modname, name)]:
                if mn in self.modules:
                    out += self.resolve(mn, n, seen)
            return out
        m = self.modules.get(modname)
        if m is None:
            return [("ext", f"{modname}.{name}")]
        out = []
        if name in m.defs:
            for d in m.defs[name]:
                if isinstance(d, ast.ClassDef):
                    b = ("class", m.classes[name])
                elif isinstance(d, ast.FunctionDef):
                    if is_overload(d):
                        continue
                    b = ("func", m.funcs[name])
                else:
                    b = ("var", modname, name)
                if b not in out:
                    out.append(b)
        for mod, n in m.imports.get(name, []):
            if n is None:
                if mod in self.modules:
                    out.append(("mod", mod))
                else:
                    out.append(("ext", mod))
            elif f"{mod}.{n}" in self.modules and not (
                    mod in self.modules and n in self.modules[mod].defs):
                out.append(("mod", f"{mod}.{n}"))
            else:
                out += self.resolve(mod, n, seen)
        if out:
            return out
        for s in reversed(m.stars):
            e = self.exports(s)
            if e is None:
                try:
                    real = importlib.import_module(s) if not s.startswith(
                        PACKAGE) else None
                except Exception:
                    real = None
                if real is not None and hasattr(real, name):
                    return [("ext", f"{s}.{name}")]
                if s == PACKAGE + ".openssl" and name in ("ffi", "lib"):
                    return [("ext", f"{s}.{name}")]
            elif name in e:
                r = self.resolve(s, name, seen)
                if r:
                    return r
        if m.is_pkg and f"{modname}.{name}" in self.modules:
            return [("mod", f"{modname}.{name}")]
        if hasattr(builtins, name):
            return [("ext", f"builtins.{name}")]
        if name in ("__name__", "__file__", "__debug__"):
            return [("ext", f"builtins.{name}")]
        return []

    def resolve_expr(self, modname, node, cls=None):
        """Bindings of a dotted expression at module or class level."""
        if isinstance(node, ast.Subscript):
            return self.resolve_expr(modname, node.value, cls)
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                return self.resolve_expr(
                    modname, ast.parse(node.value, mode="eval").body, cls)
            except SyntaxError:
                return []
        if isinstance(node, ast.Name):
            c = cls
            while c is not None:
                mem = c.members.get(node.id)
                if isinstance(mem, Class):
                    return [("class", mem)]
                c = c.outer
            return self.resolve(modname, node.id)
        if isinstance(node, ast.Attribute):
            out = []
            for b in self.resolve_expr(modname, node.value, cls):
                if b[0] == "class":
                    mem = self.member(b[1], node.attr)
                    if isinstance(mem, Class):
                        out.append(("class", mem))
                elif b[0] == "mod":
                    out += self.resolve(b[1], node.attr)
                elif b[0] == "ext":
                    out.append(("ext", f"{b[1]}.{node.attr}"))
            return out
        return []

    # -- classes ----------------------------------------------------------

    def follow(self, bindings, depth=0):
        """Replace ('var', ...) bindings that are plain aliases of a class,
        function or module by what they alias."""
        out = []
        for b in bindings:
            if b[0] != "var" or depth > 8:
                out.append(b)
                continue
            rs = []
            for d in self.modules[b[1]].defs[b[2]]:
                value = getattr(d, "value", None)
                if isinstance(d, (ast.Assign, ast.AnnAssign)) and isinstance(
                        value, (ast.Name, ast.Attribute)):
                    rs += self.follow(
                        self.resolve_expr(b[1], value), depth + 1)
            rs = [r for r in rs if r[0] in ("class", "func", "mod")]
            out += rs if rs else [b]
        return out

    def _linearize(self, c):
        if c.mro is not None:
            return c.mro
        c.mro = [c]
        bases = []
        for b in c.node.bases:
            rs = self.follow(
                self.resolve_expr(c.module.name, b, c.outer))
            if not rs:
                c.ext_bases.append(dotted(b) or "?")
            for r in rs:
                if r[0] == "class":
                    self._linearize(r[1])
                    bases.append(r[1])
                    c.ext_bases += [x for x in r[1].ext_bases
                                    if x not in c.ext_bases]
                elif r[0] == "ext":
                    c.ext_bases.append(r[1])
        seqs = [list(b.mro) for b in bases] + [list(bases)]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            c.mro.append(cand)
            for s in seqs:
                if s and s[0] is cand:
                    s.pop(0)
        return c.mro

    def member(self, cls, name, after=None):
        """Class attribute lookup along the MRO (after class `after`, for
        super())."""
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if name in c.members:
                return c.members[name]
        return None

    def member_owner(self, cls, name, after=None):
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if name in c.members:
                return c
        return None

    def is_enum(self, cls):
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "Flag", "IntFlag")
                   for b in cls.ext_bases)

    def is_exception(self, cls):
        for b in cls.ext_bases:
            o = getattr(builtins, b.split(".")[-1], None)
            if inspect.isclass(o) and issubclass(o, BaseException):
                return True
        return False

    def exc_ancestors(self, name):
        """All names (program quals and 'builtins.X') a raised class is an
        instance of."""
        if name in self.classes:
            out = {c.qual for c in self.classes[name].mro}
            for b in self.classes[name].ext_bases:
                out |= self.exc_ancestors(
                    b if b.startswith("builtins.") else "builtins." + b)
            return out
        short = name.split(".")[-1]
        o = getattr(builtins, short, None)
        if inspect.isclass(o):
            return {f"builtins.{k.__name__}" for k in o.__mro__}
        return {name, "builtins.Exception", "builtins.BaseException",
                "builtins.object"}

    def cls(self, qual):
        try:
            return self.classes[qual]
        except KeyError:
            raise AnalysisError(f"vanished anchor: class {qual}")

    def method(self, qual, name):
        c = self.cls(qual)
        m = self.member(c, name)
        if m is None:
            raise AnalysisError(f"vanished anchor: {qual}.{name}")
        return m

    def func(self, qual):
        if qual in self.funcs:
            return self.funcs[qual]
        mod, _, name = qual.rpartition(".")
        for r in self.resolve(mod, name) if mod in self.modules else []:
            if r[0] == "func":
                return r[1]
        raise AnalysisError(f"vanished anchor: function {qual}")


def is_overload(node):
    return any((dotted(d) or "").split(".")[-1] == "overload"
               for d in node.decorator_list)
