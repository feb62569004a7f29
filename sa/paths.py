"""Path-sensitive (trace-partitioned) abstract interpreter over value-numbered
terms.  Helper calls are inlined, loops are summarised (the locations a loop
writes are forgotten, one generic iteration is analysed from there), states are
split at branches and pruned only by the facts of the term domain."""

import ast
import builtins

from .infer import EXT_CONTAINERS, LOCK_TYPES, isinstance_av, ext_class
from .program import AnalysisError, Class, Func, Prop, dotted
from .state import *
from .terms import *

MAXSTEPS = 400000


# types whose terms are values of exactly that type (those of bytes may stand
# for any bytes-like object)
PLAIN = {"int": int, "bool": bool, "float": float, "str": str,
         "tuple": tuple}


class Exc:
    """A raised exception, as an evaluation result."""
    __slots__ = ("cls", "val", "where")

    def __init__(self, cls, val, where):
        self.cls = cls
        self.val = val
        self.where = where

    def __repr__(self):
        return f"<Exc {self.cls} at {self.where}>"


class Fr:
    _n = 0

    def __init__(self, it, func, modname, cls, parent=None):
        Fr._n += 1
        self.id = Fr._n
        self.func = func
        self.mod = modname
        self.cls = cls
        self.parent = parent
        self.relpath = it.prog.modules[modname].relpath
        self.selfname = None

    def where(self, node):
        return (f"{self.relpath}:{getattr(node, 'lineno', 0)} in "
                f"{self.func.qual if self.func else self.mod}")


class Top:
    """The frame of a scenario's own calls."""
    id, func, mod, cls, parent, relpath = 0, None, None, None, None, ""
    selfname = None

    def where(self, node):
        return "scenario"


TOP = Top()


class Interp:
    def __init__(self, inf, opaque=None, ext=None, maxdepth=60):
        self.inf = inf
        self.prog = inf.prog
        self.opaque = dict(opaque or {})
        self.extmodels = dict(ext or {})
        self.steps = 0
        self.nid = 0
        self.depth = 0
        self.maxdepth = maxdepth
        self.nesting = 3
        self.inlined = {}
        self.fresh_n = 0
        self.loops = 0
        self.branches = 0
        self.handling = []
        self.unroll_while = 0
        self.interfere = None
        self.cut_while = False
        self.exact_heaps = False        # heapq's algorithms, comparing
        self.all_alive = False          # objects die only when told to
        self.one_set_order = False      # sets are emptied in one order only
        self.cut = 0
        self.unroll = 4
        self.evid = {}
        self.settled = {}

    # -- construction -----------------------------------------------------

    def new(self, st, obj):
        self.nid += 1
        st.heap[self.nid] = obj
        return ("obj", self.nid)

    def fresh(self, hint):
        self.fresh_n += 1
        return ("n", f"{hint}#{self.fresh_n}")

    def input_obj(self, st, qual, name):
        """An object that existed before the analysed code ran."""
        quals = frozenset([qual] if isinstance(qual, str) else qual)
        for q in quals:
            self.prog.cls(q)
        key = ("n", name)
        o = Obj("inst", quals, key, True)
        t = self.new(st, o)
        st.names[key] = t
        return t

    def input_any_of(self, st, qual, name):
        """As input_obj, of the class or any of its subclasses."""
        quals = [c.qual for c in self.prog.subclasses[self.prog.cls(qual).qual]]
        return self.input_obj(st, quals, name)

    # -- types ------------------------------------------------------------

    def declared(self, qual, name):
        """Type atoms of an attribute: its annotation, else the annotation of
        the constructor argument it is assigned from, else inferred."""
        c = self.prog.classes[qual]
        for k in c.mro:
            if name in k.annots:
                av = self.inf.annot(k.module.name, k.annots[name], k)
                if av:
                    return av
        for k in c.mro:
            for mem in k.members.values():
                for f in ([mem] if isinstance(mem, Func) else
                          [x for x in (mem.getter, mem.setter) if x]
                          if isinstance(mem, Prop) else []):
                    names = [a.arg for a in f.node.args.args]
                    if not names:
                        continue
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.AnnAssign) and isinstance(
                                n.target, ast.Attribute) and isinstance(
                                n.target.value, ast.Name) \
                                and n.target.value.id == names[0] \
                                and n.target.attr == name:
                            av = self.inf.annot(
                                k.module.name, n.annotation, k)
                            av = frozenset(
                                a for a in av if a[0] != "any")
                            if av:
                                return self.merge_inferred(
                                    av, qual, name)
        scalar = self.evidence(c, name)
        if scalar:
            out = frozenset()
            for (q, tag, n), av in self.inf.attrs.items():
                if n == name and q == qual and tag != "<cls>":
                    out |= av
            if self.settled[c.qual, name]:
                out = scalar
            return frozenset(a for a in scalar if a[0] != "None") \
                | frozenset(a for a in out if a[0] == "None")
        for k in c.mro:
            init = k.members.get("__init__")
            if isinstance(init, Func):
                anns = {a.arg: a.annotation for a in init.node.args.args
                        + init.node.args.kwonlyargs}
                for n in ast.walk(init.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 \
                            and isinstance(n.targets[0], ast.Attribute) \
                            and n.targets[0].attr == name \
                            and isinstance(n.value, ast.Name) \
                            and anns.get(n.value.id) is not None:
                        av = self.inf.annot(
                            k.module.name, anns[n.value.id], k)
                        if av:
                            return av
        out = frozenset()
        for (q, tag, n), av in self.inf.attrs.items():
            if n == name and q == qual and tag != "<cls>":
                out |= av
        if any(a[0] != "any" for a in out):
            out = frozenset(a for a in out if a[0] != "any")
        return out

    SCALARS = {"int", "byte", "bytes", "str", "float", "bool", "True",
               "False"}

    def evidence(self, c, name):
        """The scalar type an attribute must have, from the annotations of
        what is assigned to it and of the properties that return it; empty if
        the annotations do not settle it."""
        key = (c.qual, name)
        if key in self.evid:
            return self.evid[key]
        out = set()
        for k in c.mro:
            for mem in k.members.values():
                fs = [mem] if isinstance(mem, Func) else \
                    [x for x in (mem.getter, mem.setter) if x] \
                    if isinstance(mem, Prop) else []
                for f in fs:
                    out |= self.evidence_in(k, f, name)
        self.settled[key] = ("?",) not in out
        out.discard(("?",))
        ok = any(a[0] != "None" for a in out) and all(
            a[0] in self.SCALARS or a[0] == "None" for a in out)
        r = frozenset(out) if ok else frozenset()
        self.evid[key] = r
        return r

    def evidence_in(self, k, f, name):
        args = f.node.args.posonlyargs + f.node.args.args \
            + f.node.args.kwonlyargs
        if not args:
            return set()
        me = args[0].arg
        anns = {a.arg: a.annotation for a in args}
        out = set()

        def mine(t):
            return isinstance(t, ast.Attribute) and t.attr == name \
                and isinstance(t.value, ast.Name) and t.value.id == me

        def of(e):
            if isinstance(e, ast.Name) and anns.get(e.id) is not None:
                return self.inf.annot(k.module.name, anns[e.id], k)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) \
                    and e.func.id in ("min", "max"):
                return frozenset().union(*[of(x) for x in e.args])
            if isinstance(e, ast.Constant) and isinstance(
                    e.value, (int, str, bytes, float)):
                return frozenset([(type(e.value).__name__,)])
            if isinstance(e, ast.Constant) and e.value is None:
                return frozenset([("None",)])
            if isinstance(e, ast.BinOp):
                return frozenset([("!",)])
            if isinstance(e, ast.Attribute) and isinstance(
                    e.value, ast.Name) and e.value.id == me:
                for q in k.mro:
                    if e.attr in q.annots:
                        return self.inf.annot(
                            q.module.name, q.annots[e.attr], q)
            return frozenset([("?",)])
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if mine(t):
                        out |= set(of(n.value))
            elif isinstance(n, ast.Return) and n.value is not None \
                    and mine(n.value) and f.node.returns is not None:
                out |= set(self.inf.annot(k.module.name, f.node.returns, k))
        if ("any",) in out:
            out = set(out) | {("?",)}
        return {a for a in out if a[0] not in ("any", "!")}

    def merge_inferred(self, av, qual, name):
        """Annotated containers take their element types from inference when
        the annotation's are unknown."""
        return av

    def atom_groups(self, types):
        groups = {}
        for a in types:
            k = a[0]
            if k in ("True", "False", "bool"):
                groups["bool"] = True
            elif k == "None":
                groups["None"] = True
            elif k in ("int", "byte"):
                groups["int"] = max(groups.get("int", 0),
                                    1 if k == "int" else 0)
            elif k in ("str", "bytes", "float", "bytearray"):
                groups["bytes" if k == "bytearray" else k] = True
            elif k == "inst":
                c = self.prog.classes[a[1]]
                if self.prog.is_enum(c):
                    groups.setdefault("enum", set()).add(a[1])
                else:
                    groups.setdefault("inst", set()).add(a[1])
            elif k in ("dict", "list", "set", "tuplev"):
                groups.setdefault(k, set()).add(a[1])
            elif k == "tuple":
                groups.setdefault(("tuple", len(a[1])), []).append(a[1])
            elif k == "weak":
                groups.setdefault("weak", set()).add(a[1])
            elif k == "cls":
                groups.setdefault("cls", set()).add(a[1])
            elif k in ("func", "meth"):
                groups.setdefault("callable", set()).add(a)
            elif k == "extinst":
                groups.setdefault("ext", set()).add((a[1], a[2]))
            elif k == "any":
                pass
            else:
                groups.setdefault("other", True)
        if not groups:
            groups["any"] = True
        return groups

    def materialize(self, st, key, types):
        """All shapes of the unknown value called `key`: [(state, value)]."""
        if key in st.names:
            return [(st, st.names[key])]
        groups = self.atom_groups(types)
        order = sorted(groups, key=str)
        out = []
        for i, g in enumerate(order):
            s = st if i == len(order) - 1 else st.fork()
            v = groups[g]
            if g == "None":
                val = NONE
            elif g in ("bool", "str", "bytes", "float", "any"):
                val = sym(key, g)
            elif g == "int":
                val = sym(key, "int") if v else ("s", key, "int", (0, 255))
            elif g == "enum":
                val = ("s", key, "enum", None, tuple(sorted(v)))
            elif g == "inst":
                val = self.new(s, Obj("inst", frozenset(v), key, True))
            elif g in ("dict", "list", "set", "tuplev"):
                o = Obj("list" if g == "tuplev" else g, None, key, True)
                o.base = key
                kt, et = frozenset(), frozenset()
                for site in v:
                    kt |= self.inf.keys.get(site, frozenset())
                    et |= self.inf.elems.get(site, frozenset())
                o.types = (kt, et)
                makers = {a for site in v for a in self.inf.factories.get(
                    site, ((),))}
                if g == "dict" and len(makers) == 1:
                    for a in makers:
                        if a and a[0] in ("cls", "ext", "func"):
                            o.attrs["factory"] = a
                val = self.new(s, o)
            elif isinstance(g, tuple):
                partials = [(s, [])]
                for j in range(g[1]):
                    ts = frozenset().union(*[a[j] for a in v])
                    nxt = []
                    for ss, vals in partials:
                        for s2, x in self.materialize(
                                ss, ("k", "item", key, j), ts):
                            nxt.append((s2, vals + [x]))
                    partials = nxt
                for s2, vals in partials:
                    t = ("tup", tuple(vals))
                    s2.names[key] = t
                    out.append((s2, t))
                continue
            elif g == "weak":
                val = ("weak", ("unknown", key, frozenset(v)))
            elif g == "cls":
                vs = sorted(v)
                for j, q in enumerate(vs):
                    s2 = s if j == len(vs) - 1 else s.fork()
                    s2.names[key] = ("cls", q)
                    out.append((s2, ("cls", q)))
                continue
            elif g == "ext":
                o = Obj("ext", None, key, True)
                o.attrs["class"] = sorted(v, key=str)[0][0]
                o.attrs["site"] = sorted(v, key=str)[0][1]
                val = self.new(s, o)
            elif g == "callable":
                val = ("s", key, "callable", None, tuple(sorted(v, key=str)))
            else:
                val = sym(key, "any")
            s.names[key] = val
            out.append((s, val))
        return out

    def atoms_of(self, st, v):
        """The type atoms of a value (inverse of materialize)."""
        k = v[0]
        if k == "obj":
            o = st.obj(v)
            if o.kind == "inst":
                return frozenset(("inst", q, None) for q in o.cls)
            return None
        if k == "enum":
            return frozenset([("inst", v[1], None)])
        if k == "s" and v[2] == "enum":
            return frozenset(("inst", q, None) for q in v[4])
        if v == NONE:
            return frozenset([("None",)])
        t = tyof(v)
        if t in ("int", "float", "str", "bytes", "bool"):
            return frozenset([(t,)])
        if k == "cls":
            return frozenset([("cls", v[1])])
        return None

    # -- running ----------------------------------------------------------

    maxsteps = MAXSTEPS

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise AnalysisError("path analysis exceeded its step budget")

    def seq(self, results, f):
        out = []
        for st, v in results:
            if isinstance(v, Exc):
                out.append((st, v))
            else:
                out += f(st, v)
        return out

    def evs(self, exprs, st, fr):
        """Evaluate expressions left to right: [(state, [values]) | Exc]"""
        acc = [(st, ())]
        for e in exprs:
            acc = self.seq(acc, lambda s, vs, e=e: self.seq(
                self.ev(e, s, fr), lambda s2, v: [(s2, vs + (v,))]))
        return acc

    def exc(self, st, qual, where, val=None):
        return [(st, Exc(qual, val, where))]

    def split(self, st, atom):
        """Case split on a boolean atom: [(state, bool)]"""
        d = st.decide(atom)
        if d is not None:
            return [(st, d)]
        self.branches += 1
        t = st.fork()
        out = []
        if st.assume(atom, True):
            out.append((st, True))
        if t.assume(atom, False):
            out.append((t, False))
        return out

    def truth(self, st, v, fr=None, node=None):
        k = v[0]
        if k == "c":
            return [(st, bool(v[2]))]
        if k in ("cls", "func", "bound", "mod", "ext", "clo", "weak",
                 "super"):
            return [(st, True)]
        if k == "enum":
            return [(st, bool(v[3]) if isinstance(v[3], int) else True)]
        if k == "tup":
            return [(st, bool(v[1]))]
        if k == "s" and v[2] == "enum":
            return [(s, not b) for s, b in self.split(st, mk_eq(v, ZERO))]
        if k == "obj":
            o = st.obj(v)
            if o.kind == "inst":
                for n in ("__bool__", "__len__"):
                    if any(self.prog.member(self.prog.classes[q], n)
                           is not None for q in o.cls):
                        return self.seq(
                            self.call_method(st, v, n, [], {}, fr, node),
                            lambda s, r: self.truth(s, r, fr, node))
                return [(st, True)]
            if o.kind in ("list", "set", "dict"):
                return self.container_truth(st, v)
            if o.kind == "bytearray":
                return self.truth(st, o.attrs["data"], fr, node)
            return [(st, True)]
        t = tyof(v)
        if t == "bool":
            if k == "op" and v[1] == "not":
                return [(s, not b) if not isinstance(b, Exc) else (s, b)
                        for s, b in self.truth(st, v[2])]
            if k == "s":
                return self.split(st, op("truth", v))
            return self.split(st, v)
        if t in ("int", "float") or k == "lin":
            return [(s, not b) for s, b in self.split(
                st, mk_eq(v, ZERO))]
        if t in ("bytes", "str"):
            return [(s, not b) for s, b in self.split(
                st, mk_eq(mk_len(v), ZERO))]
        return self.split(st, op("truth", v))

    def container_truth(self, st, v):
        o = st.obj(v)
        if o.kind == "dict":
            live = [e for e in o.items if e[1] is not None]
            if live:
                return [(st, True)]
            if o.base is None:
                return [(st, False)]
        else:
            if o.items:
                return [(st, True)]
            if o.base is None:
                return [(st, False)]
        return self.split(st, op("nonempty", o.base, ("v", o.ver)))

    # -- calls ------------------------------------------------------------

    def call_func(self, st, f, args, kwargs, fr, node, clo=None):
        self.tick()
        h = self.opaque.get(f.qual)
        if h is not None:
            r = h(self, st, f, args, kwargs, fr, node)
            if r is not None:
                return r
        if self.depth >= self.maxdepth or self.recursive(f):
            return self.default_opaque(st, f, args, kwargs, fr, node)
        self.inlined[f.qual] = self.inlined.get(f.qual, 0) + 1
        nf = Fr(self, f, f.module.name, f.cls, clo)
        out = []
        for s, ok in self.bind(st, nf, f, args, kwargs, fr, node):
            if isinstance(ok, Exc):
                out.append((s, ok))
                continue
            if not isinstance(f.node, ast.Lambda) and f.is_generator:
                g = Obj("iter")
                g.attrs["gen"] = nf
                out.append((s, self.new(s, g)))
                continue
            self.depth += 1
            self.stack.append(f.qual)
            try:
                if isinstance(f.node, ast.Lambda):
                    out += self.ev(f.node.body, s, nf)
                else:
                    for k, s2, v in self.block(f.node.body, s, nf):
                        if k == "ret":
                            out.append((s2, v))
                        elif k == "raise":
                            out.append((s2, v))
                        else:
                            out.append((s2, NONE))
            finally:
                self.depth -= 1
                self.stack.pop()
        self.gc_env(out, nf)
        if len(out) > 1 and f.module.name in self.joinmods:
            out = self.join(st, out)
        return out

    def join(self, entry, outs):
        """Merge the outcomes of a call that differ only in the conditions
        under which they were reached; the merged state keeps the facts they
        share."""
        groups, order = {}, []
        for s, v in outs:
            g = self.outcome(entry, s, v)
            if g not in groups:
                groups[g] = []
                order.append(g)
            groups[g].append((s, v))
        res = []
        for g in order:
            s, v = groups[g][0]
            for s2, _ in groups[g][1:]:
                s.facts = {k: x for k, x in s.facts.items()
                           if s2.facts.get(k) == x}
                s.lins = [x for x in s.lins if x in s2.lins]
                s.eqs = {k: x for k, x in s.eqs.items()
                         if s2.eqs.get(k) == x}
                n = 0
                while n < min(len(s.order), len(s2.order)) \
                        and s.order[n] == s2.order[n]:
                    n += 1
                del s.order[n:]
            res.append((s, v))
        return res

    def outcome(self, entry, s, v):
        """What a call did, with the objects it created numbered in order of
        discovery."""
        ids = {}
        todo = []
        before = entry.heap

        def ren(t):
            if isinstance(t, dict):
                return tuple((k, ren(x)) for k, x in sorted(
                    t.items(), key=lambda z: str(z[0])))
            if not isinstance(t, tuple):
                return t
            if len(t) == 2 and t[0] == "obj":
                if t[1] in before and before[t[1]] is s.heap.get(t[1]):
                    return t
                if t[1] not in ids:
                    ids[t[1]] = len(ids)
                    todo.append(t[1])
                return ("obj#", ids[t[1]] if t[1] not in before else t)
            return tuple(ren(x) for x in t)
        if isinstance(v, Exc):
            out = [("exc", v.cls, ren(v.val) if v.val else None, v.where)]
        else:
            out = [ren(s.canon(v))]
        changed = [i for i in before if s.heap.get(i) is not before[i]]
        for i in changed:
            if i not in ids:
                ids[i] = len(ids)
                todo.append(i)
        while todo:
            i = todo.pop(0)
            o = s.heap.get(i)
            if o is None:
                continue
            out.append((ids[i], o.kind, o.cls, ren(o.attrs), ren(o.items),
                        o.base, o.sym))
        out.append((s.held, tuple(sorted((str(k), ren(x)) for k, x in
                                         s.globs.items()))))
        return tuple(out)

    joinmods = frozenset()
    stack = []

    def recursive(self, f):
        return self.stack.count(f.qual) > self.nesting

    def gc_env(self, out, nf):
        if nf.id in self.captured:
            return
        for s, v in out:
            if isinstance(v, tuple) and v and v[0] == "obj" and \
                    s.obj(v).kind == "iter":
                continue
            for k in [k for k in s.env if k[0] == nf.id]:
                del s.env[k]

    captured = set()

    def default_opaque(self, st, f, args, kwargs, fr, node):
        """An unmodelled call: a value of the inferred return type, or any
        exception that the function may raise."""
        self.event(st, "call", fr, node, f.qual, tuple(args),
                   tuple(sorted(kwargs.items())))
        types = frozenset()
        raises = {}
        for c in self.inf.func_ctxs.get(f.qual, ()):
            s = self.inf.summ[c]
            types |= s.ret
            raises.update(s.raises)
        name = ("k", "call", f.qual, self.fresh_n)
        self.fresh_n += 1
        out = []
        for e in sorted(raises):
            s2 = st.fork()
            out += self.exc(s2, e, fr.where(node) if fr else f.qual)
        return out + self.materialize(st, name, types)

    def bind(self, st, nf, f, args, kwargs, fr, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        if pos and f.cls is not None:
            nf.selfname = pos[0]
        env = {}
        for n, v in zip(pos, args):
            env[n] = v
        extra = tuple(args[len(pos):])
        rest = {}
        for n, v in kwargs.items():
            if n in pos or n in kwonly:
                env[n] = v
            else:
                rest[n] = v
        bad = None
        if extra and a.vararg is None:
            bad = "too many arguments"
        if a.vararg is not None:
            env[a.vararg.arg] = ("tup", extra)
        if rest and a.kwarg is None and "**" not in rest:
            bad = "unexpected keyword"
        acc = [(st, None)]
        dnode = {}
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            dnode[arg] = d
        for arg, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                dnode[arg] = d
        df = Fr(self, None, f.module.name, f.cls, nf.parent)
        for n in pos + kwonly:
            if n in env:
                continue
            if "**" in rest:
                # an unknown keyword mapping may or may not provide it
                ann = next((x.annotation for x in a.posonlyargs + a.args
                            + a.kwonlyargs if x.arg == n), None)
                types = self.inf.annot(f.module.name, ann, f.cls)
                nacc = []
                for s, _ in acc:
                    for s2, v in self.materialize(
                            s, ("k", "kwarg", rest["**"], n), types):
                        s2.env[(nf.id, n)] = v
                        nacc.append((s2, None))
                acc = nacc
                continue
            if n not in dnode:
                bad = f"missing argument {n}"
                continue
            nacc = []
            for s, _ in acc:
                for s2, v in self.ev(dnode[n], s, df):
                    if not isinstance(v, Exc):
                        s2.env[(nf.id, n)] = v
                    nacc.append((s2, v if isinstance(v, Exc) else None))
            acc = nacc
        if bad:
            return self.exc(st, "builtins.TypeError",
                            fr.where(node) if fr else f.qual)
        for s, _ in acc:
            for n, v in env.items():
                s.env[(nf.id, n)] = v
            if a.kwarg is not None:
                o = Obj("dict")
                o.items = tuple((const(k), v) for k, v in rest.items()
                                if k != "**")
                if "**" in rest:
                    o.base = rest["**"]
                    o.types = (frozenset([("str",)]), frozenset())
                s.env[(nf.id, a.kwarg.arg)] = self.new(s, o)
        return acc

    def call(self, st, fn, args, kwargs, fr, node):
        k = fn[0]
        if k == "func":
            return self.call_func(st, self.inf.func_of(fn[1]), list(args),
                                  kwargs, fr, node)
        if k == "bound":
            return self.call_func(st, self.inf.func_of(fn[1]),
                                  [fn[2]] + list(args), kwargs, fr, node)
        if k == "clo":
            f, parent = self.closures[fn[1]]
            return self.call_func(st, f, list(args), kwargs, fr, node, parent)
        if k == "cls":
            return self.instantiate(st, fn[1], list(args), kwargs, fr, node)
        if k == "weak":
            return self.deref(st, fn, fr, node)
        if k == "ext":
            return self.call_ext(st, fn[1], list(args), kwargs, fr, node)
        if k == "extm":
            return self.call_extm(st, fn[1], fn[2], list(args), kwargs, fr,
                                  node)
        if k == "obj":
            o = st.obj(fn)
            if o.kind == "inst":
                return self.call_method(st, fn, "__call__", list(args),
                                        kwargs, fr, node)
        if k == "s" and fn[2] == "callable":
            out = []
            targets = fn[4]
            for i, a in enumerate(targets):
                s = st if i == len(targets) - 1 else st.fork()
                if a[0] == "func":
                    out += self.call(s, ("func", a[1]), args, kwargs, fr,
                                     node)
                else:
                    for s2, recv in self.materialize(
                            s, ("k", "recv", fn[1], a[1]),
                            frozenset([a[2]])):
                        out += self.call(s2, ("bound", a[1], recv), args,
                                         kwargs, fr, node)
            return out
        self.event(st, "callsym", fr, node, fn, tuple(args))
        return [(st, sym(self.fresh("callsym"), "any"))]

    def deref(self, st, ref, fr, node):
        target = ref[1]
        if target[0] == "unknown":
            types = frozenset(target[2])
            key = ("k", "deref", target[1])
            outs = []
            for s, v in self.materialize(st, key, types):
                outs.append((s, v))
            res = []
            for s, v in outs:
                res += self.deref_known(s, v, fr, node)
            return res
        return self.deref_known(st, target, fr, node)

    def deref_known(self, st, v, fr, node):
        if ("strong", v) in st.facts:
            return [(st, v)]
        if self.all_alive and st.facts.get(op("alive", v)) is not False:
            return [(st, v)]
        out = []
        for s, b in self.split(st, op("alive", v)):
            out.append((s, v if b else NONE))
        return out

    def instantiate(self, st, qual, args, kwargs, fr, node):
        c = self.prog.classes[qual]
        h = self.opaque.get(qual)
        if h is not None:
            r = h(self, st, c, args, kwargs, fr, node)
            if r is not None:
                return r
        if self.prog.is_enum(c):
            return self.enum_by_value(st, c, args[0], fr, node)
        if self.prog.is_exception(c):
            o = Obj("inst", frozenset([qual]))
            o.attrs["args"] = ("tup", tuple(args))
            t = self.new(st, o)
            init = self.prog.member(c, "__init__")
            if isinstance(init, Func):
                return self.seq(self.call_func(
                    st, init, [t] + args, kwargs, fr, node),
                    lambda s, _: [(s, t)])
            return [(st, t)]
        o = Obj("inst", frozenset([qual]))
        t = self.new(st, o)
        self.event(st, "new", fr, node, qual, t, tuple(args))
        init = self.prog.member(c, "__init__")
        if isinstance(init, Func):
            return self.seq(self.call_func(
                st, init, [t] + args, kwargs, fr, node),
                lambda s, _: [(s, t)])
        return [(st, t)]

    def enum_attr(self, st, b, c, name, fr):
        """An attribute that the enumeration's constructor gives a member."""
        init = self.prog.member(c, "__init__")
        expr = c.members.get(b[2])
        if not isinstance(init, Func) or not isinstance(expr, ast.expr):
            return None
        key = ("members", c.qual, b[2])
        if key not in st.globs:
            cf = Fr(self, None, c.module.name, c)
            res = self.ev(expr, st, cf)
            if len(res) != 1 or isinstance(res[0][1], Exc):
                return None
            st, v = res[0]
            v = st.canon(v)
            args = list(v[1]) if v[0] == "tup" else [v]
            t = self.new(st, Obj("inst", frozenset([c.qual])))
            res = self.call_func(st, init, [t] + args, {}, fr, expr)
            if len(res) != 1 or isinstance(res[0][1], Exc):
                return None
            st = res[0][0]
            st.globs[key] = t
        o = st.obj(st.globs[key])
        if name in o.attrs:
            return [(st, o.attrs[name])]
        return None

    def enum_members(self, c):
        out = []
        for k in c.mro:
            for n, v in k.members.items():
                if isinstance(v, ast.expr) and not n.startswith("_"):
                    try:
                        val = eval_const(v)
                    except ValueError:
                        val = None
                    out.append(("enum", k.qual, n, val))
        return out

    def enum_by_value(self, st, c, v, fr, node):
        if v[0] == "enum" and v[1] == c.qual:
            return [(st, v)]
        if v[0] == "s" and v[2] == "enum" and v[4] == (c.qual,):
            return [(st, v)]
        if is_const(v):
            for m in self.enum_members(c):
                if m[3] == v[2]:
                    return [(st, m)]
            return self.exc(st, "builtins.ValueError", fr.where(node))
        if numeric(v) and tyof(v) == "int":
            lo, hi = lin_range(v)
            if hi - lo < 8:
                by = {m[3]: m for m in self.enum_members(c)
                      if isinstance(m[3], int)}
                if all(x in by for x in range(lo, hi + 1)):
                    out, cur = [], st
                    for x in range(lo, hi + 1):
                        nxt = None
                        for s, b in self.split(cur, mk_eq(v, const(x))):
                            if b:
                                out.append((s, by[x]))
                            else:
                                nxt = s
                        if nxt is None:
                            break
                        cur = nxt
                    return out
        good = op("enumval", v, ("k", c.qual))
        out = []

        def member(s, b):
            if b:
                val = ("s", ("k", "enumof", v), "enum", None, (c.qual,))
                s.merge(val, v) if numeric(v) else None
                out.append((s, val))
            else:
                out.extend(self.exc(s, "builtins.ValueError", fr.where(node)))

        values = {m[3] for m in self.enum_members(c)}
        if not (numeric(v) and tyof(v) == "int" and all(
                isinstance(x, int) for x in values)):
            pass
        elif len(values) <= 4:
            rest = st
            for x in sorted(values):
                more = None
                for s, b in self.split(rest, mk_eq(v, const(x))):
                    if not b:
                        more = s
                    elif s.assume(good, True):
                        member(s, True)
                if more is None:
                    return out
                rest = more
            if rest.assume(good, False):
                member(rest, False)
            return out
        elif values == set(range(min(values), max(values) + 1)):
            # consecutive values: two comparisons decide
            for s, low in self.split(st, op("lt", sub(v, const(min(values))))):
                for s, b in [(s, True)] if low else self.split(
                        s, op("lt", sub(const(max(values)), v))):
                    if s.assume(good, not b):
                        member(s, not b)
            return out
        for s, b in self.split(st, good):
            member(s, b)
        return out

    def call_method(self, st, recv, name, args, kwargs, fr, node):
        return self.seq(self.getattr(st, recv, name, fr, node),
                        lambda s, m: self.call(s, m, args, kwargs, fr, node))

    # -- attributes -------------------------------------------------------

    def narrow(self, st, t, quals):
        o = st.mut(t)
        o.cls = frozenset(quals)

    def by_member(self, st, t, name):
        """Split an object of several possible classes by the class member
        that `name` denotes: [(state, member, a class)]"""
        o = st.obj(t)
        groups = {}
        for q in sorted(o.cls):
            c = self.prog.classes[q]
            owner = self.prog.member_owner(c, name)
            key = (id(owner.members[name]) if owner else None)
            if owner is not None and isinstance(
                    owner.members[name], ast.expr):
                key = (owner.qual, name)
            groups.setdefault(key, []).append(q)
        items = sorted(groups.items(), key=lambda kv: kv[1])
        out = []
        for i, (k, qs) in enumerate(items):
            s = st if i == len(items) - 1 else st.fork()
            if len(items) > 1:
                self.narrow(s, t, qs)
            c = self.prog.classes[qs[0]]
            owner = self.prog.member_owner(c, name)
            out.append((s, owner.members[name] if owner else None, c, owner))
        return out

    def getattr(self, st, b, name, fr, node):
        k = b[0]
        if k == "obj":
            o = st.obj(b)
            if o.kind == "inst":
                return self.getattr_inst(st, b, o, name, fr, node)
            if o.kind == "ext":
                if name in o.attrs:
                    return [(st, o.attrs[name])]
            return [(st, ("extm", b, name))]
        if k == "cls":
            c = self.prog.classes[b[1]]
            owner = self.prog.member_owner(c, name)
            if (b, name) in st.globs:
                return [(st, st.globs[(b, name)])]
            if owner is not None:
                return self.member_val(st, b, owner.members[name], c, owner,
                                       name, fr, node)
            if name in ("__name__", "__qualname__"):
                return [(st, const(c.name))]
            if name == "__members__":
                return [(st, sym(("n", f"members:{c.qual}"), "any"))]
            return [(st, ("extm", b, name))]
        if k == "super":
            owner, recv = b[1], b[2]
            out = []
            quals = st.obj(recv).cls if recv[0] == "obj" else [recv[1]]
            c = self.prog.classes[sorted(quals)[0]]
            oc = self.prog.classes[owner]
            own = self.prog.member_owner(c, name, after=oc)
            if own is None:
                return [(st, ("extm", b, name))]
            return self.member_val(st, recv, own.members[name], c, own, name,
                                   fr, node)
        if k == "mod":
            return self.global_(st, b[1], name, fr, node)
        if k == "ext":
            return [(st, ("ext", f"{b[1]}.{name}"))]
        if k == "enum" or (k == "s" and b[2] == "enum"):
            qual = b[1] if k == "enum" else b[4][0]
            c = self.prog.classes[qual]
            owner = self.prog.member_owner(c, name)
            if owner is not None and isinstance(
                    owner.members[name], (Func, Prop)):
                return self.member_val(st, b, owner.members[name], c, owner,
                                       name, fr, node)
            if name == "value":
                if k == "enum" and b[3] is not None:
                    return [(st, const(b[3]))]
                return [(st, op("typed", "int", op("value", b)))]
            if name == "name":
                if k == "enum":
                    return [(st, const(b[2]))]
                return [(st, op("typed", "str", op("name", b)))]
            if k == "enum":
                got = self.enum_attr(st, b, c, name, fr)
                if got is not None:
                    return got
            return [(st, ("extm", b, name))]
        if k == "slice" and name in ("start", "stop", "step"):
            return [(st, b[1 + ("start", "stop", "step").index(name)])]
        if b == NONE and name == "__class__":
            return [(st, ("ext", "builtins.NoneType"))]
        if b == NONE and not hasattr(None, name):
            return self.exc(st, "builtins.AttributeError", fr.where(node))
        if k == "s" and b[2] == "any":
            return self.materialize(st, ("k", "attr", b[1], name),
                                    frozenset())
        if k != "enum":
            ty = PLAIN.get(tyof(b))
            if ty is not None and name == "__class__":
                return [(st, ("ext", f"builtins.{tyof(b)}"))]
            if ty is not None and not hasattr(ty, name):
                return self.exc(st, "builtins.AttributeError",
                                fr.where(node))
        return [(st, ("extm", b, name))]

    def getattr_inst(self, st, b, o, name, fr, node):
        out = []
        for s, mem, c, owner in self.by_member(st, b, name):
            if isinstance(mem, Prop):
                self.event(s, "read", fr, node, b, name)
                out += self.call_func(s, mem.getter, [b], {}, fr, node)
                continue
            o = s.obj(b)
            if name in o.attrs:
                self.event(s, "read", fr, node, b, name)
                out.append((s, o.attrs[name]))
                continue
            if mem is not None:
                out += self.member_val(s, b, mem, c, owner, name, fr, node)
                continue
            if name == "__class__":
                out.append((s, ("cls", sorted(o.cls)[0])))
                continue
            if not o.sym:
                if self.prog.is_exception(c) or c.ext_bases and any(
                        x not in ("typing.Generic", "builtins.object")
                        and not x.endswith("Generic")
                        for x in c.ext_bases):
                    out.append((s, ("extm", b, name)))
                    continue
                if name.startswith("__"):
                    out.append((s, ("extm", b, name)))
                    continue
                out += self.exc(s, "builtins.AttributeError",
                                fr.where(node))
                continue
            self.event(s, "read", fr, node, b, name)
            types = frozenset()
            for q in o.cls:
                types |= self.declared(q, name)
            if not types and (name.startswith("__")
                              or self.prog.is_exception(c)):
                out.append((s, ("extm", b, name)))
                continue
            key = ("k", "attr", o.name, name)
            for s2, v in self.materialize(s, key, types):
                s2.mut(b).attrs[name] = v
                out.append((s2, v))
        return out

    def member_val(self, st, b, mem, c, owner, name, fr, node):
        if isinstance(mem, Func):
            if mem.kind == "staticmethod":
                return [(st, ("func", mem.qual))]
            if mem.kind == "classmethod":
                recv = b
                if b[0] == "obj":
                    recv = ("cls", sorted(st.obj(b).cls)[0])
                elif b[0] != "cls":
                    recv = ("cls", c.qual)
                return [(st, ("bound", mem.qual, recv))]
            if b[0] != "cls":
                return [(st, ("bound", mem.qual, b))]
            return [(st, ("func", mem.qual))]
        if isinstance(mem, Prop):
            if b[0] != "cls":
                return self.call_func(st, mem.getter, [b], {}, fr, node)
            return [(st, sym(("n", f"prop:{c.qual}.{name}"), "any"))]
        if isinstance(mem, Class):
            return [(st, ("cls", mem.qual))]
        if self.prog.is_enum(owner):
            try:
                v = eval_const(mem)
            except ValueError:
                v = None
            return [(st, ("enum", owner.qual, name, v))]
        key = (("cls", owner.qual), name)
        if key not in st.globs:
            cf = Fr(self, None, owner.module.name, owner)
            res = self.ev(mem, st, cf)
            res = [(s, v) for s, v in res if not isinstance(v, Exc)]
            if len(res) != 1:
                raise AnalysisError(
                    f"class attribute {owner.qual}.{name} is not a constant")
            st, v = res[0]
            st.globs[key] = v
        v = st.globs[key]
        if v[0] in ("func", "clo") and b[0] != "cls":
            if v[0] == "func":
                return [(st, ("bound", v[1], b))]
        return [(st, v)]

    def setattr(self, st, b, name, v, fr, node):
        if b[0] == "obj" and st.obj(b).kind == "inst":
            out = []
            for s, mem, c, owner in self.by_member(st, b, name):
                if isinstance(mem, Prop):
                    if mem.setter is None:
                        out += self.exc(s, "builtins.AttributeError",
                                        fr.where(node))
                        continue
                    out += self.call_func(s, mem.setter, [b, v], {}, fr, node)
                    continue
                self.event(s, "set", fr, node, b, name, v)
                s.mut(b).attrs[name] = v
                out.append((s, NONE))
            return out
        if b[0] == "cls":
            self.event(st, "set", fr, node, b, name, v)
            st.globs[(b, name)] = v
            return [(st, NONE)]
        if b == NONE:
            return self.exc(st, "builtins.AttributeError", fr.where(node))
        self.event(st, "set", fr, node, b, name, v)
        return [(st, NONE)]

    # -- names ------------------------------------------------------------

    def global_(self, st, mod, name, fr, node):
        bs = self.prog.resolve(mod, name)
        vals = []
        for b in bs:
            if b[0] == "class":
                vals.append(("cls", b[1].qual))
            elif b[0] == "func":
                vals.append(("func", b[1].qual))
            elif b[0] == "mod":
                vals.append(("mod", b[1]))
            elif b[0] == "ext":
                vals.append(("ext", b[1]))
            elif b[0] == "var":
                return self.global_var(st, b[1], b[2], fr, node)
        # a name for annotations only: which of its definitions holds does
        # not matter
        vals = [v for v in vals if v[0] == "ext" and v[1].startswith(
            "typing.")][:1] or vals
        if len(vals) == 1:
            return [(st, vals[0])]
        if vals:
            key = ("g", mod, name)
            if key in st.names:
                return [(st, st.names[key])]
            out = []
            for i, v in enumerate(vals):
                s = st if i == len(vals) - 1 else st.fork()
                s.names[key] = v
                out.append((s, v))
            return out
        return self.exc(st, "builtins.NameError",
                        fr.where(node) if fr else mod)

    def global_var(self, st, mod, name, fr, node):
        key = ("g", mod, name)
        if key in st.globs:
            return [(st, st.globs[key])]
        defs = self.prog.modules[mod].defs[name]
        if len(defs) == 1 and isinstance(defs[0], (ast.Assign, ast.AnnAssign)) \
                and defs[0].value is not None and (
                isinstance(defs[0], ast.AnnAssign)
                or isinstance(defs[0].targets[0], ast.Name)):
            gf = Fr(self, None, mod, None)
            n0 = len(st.events)
            res = self.ev(defs[0].value, st.fork(), gf)
            good = [(s, v) for s, v in res if not isinstance(v, Exc)]
            if len(good) == 1:
                s, v = good[0]
                if v[0] == "obj" and s.obj(v).kind != "closure":
                    o = s.mut(v)
                    if o.name is None:
                        o.name = key
                del s.events[n0:]
                s.globs[key] = v
                return [(s, v)]
        av = self.inf.globals.get((mod, name), frozenset())
        out = []
        for s, v in self.materialize(st, key, av):
            s.globs[key] = v
            out.append((s, v))
        return out

    def name(self, st, n, fr, node):
        f = fr
        while f is not None:
            if (f.id, n) in st.env:
                v = st.env[(f.id, n)]
                if v == ("unbound",):
                    return self.exc(st, "builtins.UnboundLocalError",
                                    fr.where(node))
                return [(st, v)]
            if f.func is not None and n in f.func.locals:
                return self.exc(st, "builtins.UnboundLocalError",
                                fr.where(node))
            f = f.parent
        if fr.func is None and fr.cls is not None:
            mem = fr.cls.members.get(n)
            if mem is not None:
                return self.member_val(st, ("cls", fr.cls.qual), mem, fr.cls,
                                       fr.cls, n, fr, node)
        return self.global_(st, fr.mod, n, fr, node)

    # -- events -----------------------------------------------------------

    def event(self, st, kind, fr, node, *data):
        st.events.append((kind, data, st.held, len(st.order),
                          fr.where(node) if fr is not None else "?"))

    # -- statements -------------------------------------------------------

    def block(self, stmts, st, fr):
        """[(kind, state, value)], kind: next ret raise brk cont"""
        cur = [st]
        out = []
        for s in stmts:
            nxt = []
            for c in cur:
                for r in self.stmt(s, c, fr):
                    if r[0] == "next":
                        nxt.append(r[1])
                    else:
                        out.append(r)
            cur = nxt
            if not cur:
                break
        return out + [("next", c, None) for c in cur]

    def stmt(self, s, st, fr):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError(
                f"unsupported statement {type(s).__name__} at {fr.where(s)}")
        return m(s, st, fr)

    def lift(self, results):
        return [("raise", s, v) if isinstance(v, Exc) else ("next", s, None)
                for s, v in results]

    def s_Expr(self, s, st, fr):
        return self.lift(self.ev(s.value, st, fr))

    def s_Pass(self, s, st, fr):
        return [("next", st, None)]

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [("ret", st, NONE)]
        return [("raise", a, v) if isinstance(v, Exc) else ("ret", a, v)
                for a, v in self.ev(s.value, st, fr)]

    def s_Break(self, s, st, fr):
        return [("brk", st, None)]

    def s_Continue(self, s, st, fr):
        return [("cont", st, None)]

    def s_Assign(self, s, st, fr):
        def go(a, v):
            acc = [(a, NONE)]
            for t in s.targets:
                acc = self.seq(acc, lambda b, _, t=t: self.assign(
                    t, v, b, fr))
            return acc
        return self.lift(self.seq(self.ev(s.value, st, fr), go))

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [("next", st, None)]
        return self.lift(self.seq(
            self.ev(s.value, st, fr),
            lambda a, v: self.assign(s.target, v, a, fr)))

    def s_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            return self.lift(self.seq(
                self.evs([ast.copy_location(ast.Name(t.id, ast.Load()), t),
                          s.value], st, fr),
                lambda a, vs: self.seq(
                    self.binop(s.op, vs[0], vs[1], a, fr, s, True),
                    lambda b, v: self.assign(t, v, b, fr))))
        if isinstance(t, ast.Attribute):
            return self.lift(self.seq(
                self.ev(t.value, st, fr),
                lambda a, base: self.seq(
                    self.getattr(a, base, t.attr, fr, t),
                    lambda b, cur: self.seq(
                        self.ev(s.value, b, fr),
                        lambda c, rhs: self.seq(
                            self.binop(s.op, cur, rhs, c, fr, s, True),
                            lambda d, v: self.setattr(
                                d, base, t.attr, v, fr, t))))))
        return self.lift(self.seq(
            self.evs([t.value, t.slice], st, fr),
            lambda a, bk: self.seq(
                self.getitem(a, bk[0], bk[1], fr, t),
                lambda b, cur: self.seq(
                    self.ev(s.value, b, fr),
                    lambda c, rhs: self.seq(
                        self.binop(s.op, cur, rhs, c, fr, s, True),
                        lambda d, v: self.setitem(
                            d, bk[0], bk[1], v, fr, t))))))

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            f = fr
            if fr.func is not None and t.id not in fr.func.locals:
                f = fr.parent
                while f is not None and (
                        f.func is None or t.id not in f.func.locals):
                    f = f.parent
            if f is None:
                st.globs[("g", fr.mod, t.id)] = v
                self.event(st, "global", fr, t, fr.mod, t.id, v)
            else:
                st.env[(f.id, t.id)] = v
            return [(st, NONE)]
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = next((i for i, e in enumerate(t.elts)
                         if isinstance(e, ast.Starred)), None)

            def go(s, items):
                if items is None:
                    acc = [(s, NONE)]
                    for i, e in enumerate(t.elts):
                        acc = self.seq(acc, lambda a, _, e=e, i=i: self.assign(
                            e, sym(("k", "unpack", v, i), "any"), a, fr))
                    return acc
                if star is None and len(items) != n or (
                        star is not None and len(items) < n - 1):
                    return self.exc(s, "builtins.ValueError", fr.where(t))
                acc = [(s, NONE)]
                tail = n - 1 - star if star is not None else 0
                for i, e in enumerate(t.elts):
                    if star is not None and i == star:
                        o = Obj("list")
                        o.items = tuple(items[i:len(items) - tail])

                        def put(a, _, e=e, o=o):
                            return self.assign(
                                e.value, self.new(a, o), a, fr)
                        acc = self.seq(acc, put)
                        continue
                    j = i if star is None or i < star else \
                        len(items) - (n - i)
                    acc = self.seq(acc, lambda a, _, e=e, j=j: self.assign(
                        e, items[j], a, fr))
                return acc
            return self.seq(self.iter_items(st, v, fr, t), go)
        if isinstance(t, ast.Attribute):
            return self.seq(self.ev(t.value, st, fr),
                            lambda a, b: self.setattr(
                                a, b, t.attr, v, fr, t))
        if isinstance(t, ast.Subscript):
            return self.seq(self.evs([t.value, t.slice], st, fr),
                            lambda a, bk: self.setitem(
                                a, bk[0], bk[1], v, fr, t))
        raise AnalysisError(f"unsupported target at {fr.where(t)}")

    def s_Delete(self, s, st, fr):
        acc = [(st, NONE)]
        for t in s.targets:
            if isinstance(t, ast.Name):
                def go(a, _, t=t):
                    a.env[(fr.id, t.id)] = ("unbound",)
                    return [(a, NONE)]
            elif isinstance(t, ast.Subscript):
                def go(a, _, t=t):
                    return self.seq(self.evs([t.value, t.slice], a, fr),
                                    lambda b, bk: self.delitem(
                                        b, bk[0], bk[1], fr, t))
            else:
                def go(a, _, t=t):
                    return self.seq(
                        self.ev(t.value, a, fr),
                        lambda b, o: self.delattr(b, o, t.attr, fr, t))
            acc = self.seq(acc, go)
        return self.lift(acc)

    def delattr(self, st, o, name, fr, node):
        self.event(st, "delattr", fr, node, o, name)
        if o[0] == "obj":
            st.mut(o).attrs.pop(name, None)
        return [(st, NONE)]

    def cond(self, e, st, fr):
        """[(state, bool | Exc)]"""
        return self.seq(self.ev(e, st, fr),
                        lambda s, v: self.truth(s, v, fr, e))

    def s_If(self, s, st, fr):
        out = []
        for a, b in self.cond(s.test, st, fr):
            if isinstance(b, Exc):
                out.append(("raise", a, b))
            else:
                out += self.block(s.body if b else s.orelse, a, fr)
        return out

    def s_Assert(self, s, st, fr):
        out = []
        for a, b in self.cond(s.test, st, fr):
            if isinstance(b, Exc):
                out.append(("raise", a, b))
            elif b:
                out.append(("next", a, None))
            else:
                out.append(("raise", a, Exc("builtins.AssertionError", None,
                                            fr.where(s))))
        return out

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            cur = self.handling[-1] if self.handling else None
            if cur is None:
                raise AnalysisError(f"bare raise at {fr.where(s)}")
            return [("raise", st, cur)]
        out = []
        for a, v in self.ev(s.exc, st, fr):
            if isinstance(v, Exc):
                out.append(("raise", a, v))
                continue
            if v[0] == "cls":
                for a2, o in self.instantiate(a, v[1], [], {}, fr, s):
                    if isinstance(o, Exc):
                        out.append(("raise", a2, o))
                    else:
                        out.append(("raise", a2, Exc(v[1], o, fr.where(s))))
            elif v[0] == "obj" and a.obj(v).kind == "inst":
                for q in sorted(a.obj(v).cls):
                    out.append(("raise", a.fork(), Exc(q, v, fr.where(s))))
            elif v[0] == "ext":
                out.append(("raise", a, Exc(
                    "builtins." + v[1].split(".")[-1], None, fr.where(s))))
            elif v[0] == "obj" and a.obj(v).kind == "ext":
                out.append(("raise", a, Exc(
                    a.obj(v).attrs["class"], v, fr.where(s))))
            else:
                out.append(("raise", a, Exc("builtins.Exception", v,
                                            fr.where(s))))
        return out

    def handler_types(self, h, st, fr):
        if h.type is None:
            return st, ["builtins.BaseException"]
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in nodes:
            (st, v), = self.ev(n, st, fr)
            vs = list(v[1]) if v[0] == "tup" else [v]
            for x in vs:
                if x[0] == "cls":
                    out.append(x[1])
                elif x[0] == "ext":
                    out.append("builtins." + x[1].split(".")[-1])
        return st, out

    def s_Try(self, s, st, fr):
        res = self.block(s.body, st, fr)
        mid = []
        for k, a, v in res:
            if k == "next":
                mid += self.block(s.orelse, a, fr)
            elif k != "raise":
                mid.append((k, a, v))
            else:
                mid += self.handle(s, a, v, fr)
        if not s.finalbody:
            return mid
        out = []
        for k, a, v in mid:
            for k2, b, v2 in self.block(s.finalbody, a, fr):
                if k2 == "next":
                    out.append((k, b, v))
                else:
                    out.append((k2, b, v2))
        return out

    def handle(self, s, st, exc, fr):
        anc = self.prog.exc_ancestors(exc.cls)
        out = []
        for h in s.handlers:
            st, types = self.handler_types(h, st, fr)
            hit = any(t in anc for t in types)
            maybe = not hit and any(
                exc.cls in self.prog.exc_ancestors(t) for t in types)
            if not hit and not maybe:
                continue
            a = st.fork() if maybe else st
            if h.name:
                v = exc.val
                if v is None:
                    o = Obj("inst" if exc.cls in self.prog.classes else "ext")
                    if o.kind == "inst":
                        o.cls = frozenset([exc.cls])
                        o.sym = True
                        o.name = self.fresh("exc")
                    else:
                        o.attrs["class"] = exc.cls
                    v = self.new(a, o)
                a.env[(fr.id, h.name)] = v
            self.event(a, "caught", fr, h, exc.cls, exc.where)
            self.handling.append(exc)
            try:
                out += self.block(h.body, a, fr)
            finally:
                self.handling.pop()
            if hit:
                return out
        out.append(("raise", st, exc))
        return out

    def lock_name(self, st, v):
        o = st.obj(v)
        return v

    def is_lock(self, st, v):
        return v[0] == "obj" and st.obj(v).kind == "ext" and \
            st.obj(v).attrs.get("class") in LOCK_TYPES

    def acquire(self, st, v, fr, node):
        self.event(st, "acquire", fr, node, v)
        st.held = st.held + (v,)

    def release(self, st, v, fr, node):
        self.event(st, "release", fr, node, v)
        h = list(st.held)
        if v in h:
            h.reverse()
            h.remove(v)
            h.reverse()
        st.held = tuple(h)

    def others(self, st, lock, fr, node):
        """The states in which the lock is obtained: those the rule says
        other threads may have left in the meantime."""
        if self.interfere is None or st.held:
            return [st]
        return self.interfere(st, lock, fr, node)

    def s_With(self, s, st, fr):
        return self.with_items(s, 0, st, fr)

    def with_items(self, s, i, st, fr):
        if i == len(s.items):
            return self.block(s.body, st, fr)
        item = s.items[i]
        out = []
        for a, v in self.ev(item.context_expr, st, fr):
            if isinstance(v, Exc):
                out.append(("raise", a, v))
                continue
            if self.is_lock(a, v):
                entered = []
                for b in self.others(a, v, fr, s):
                    self.acquire(b, v, fr, s)
                    entered.append((b, TRUE))
            elif v[0] == "obj" and a.obj(v).kind == "inst":
                entered = self.call_method(a, v, "__enter__", [], {}, fr, s)
            else:
                entered = [(a, sym(self.fresh("with"), "any"))]
            for b, ev in entered:
                if isinstance(ev, Exc):
                    out.append(("raise", b, ev))
                    continue
                if item.optional_vars is not None:
                    rs = self.assign(item.optional_vars, ev, b, fr)
                else:
                    rs = [(b, NONE)]
                for c, x in rs:
                    if isinstance(x, Exc):
                        out.append(("raise", c, x))
                        continue
                    for k, d, r in self.with_items(s, i + 1, c, fr):
                        if self.is_lock(d, v):
                            self.release(d, v, fr, s)
                            out.append((k, d, r))
                        elif v[0] == "obj" and d.obj(v).kind == "inst":
                            info = [NONE, NONE, NONE]
                            if k == "raise":
                                q = r.cls
                                info = [("cls", q) if q in self.prog.classes
                                        else ("ext", q),
                                        r.val if r.val is not None
                                        else sym(self.fresh("exc"), "any"),
                                        sym(self.fresh("tb"), "any")]
                                d.fact(op("truth", info[1]))
                            for e, y in self.call_method(
                                    d, v, "__exit__", info, {}, fr, s):
                                if isinstance(y, Exc):
                                    out.append(("raise", e, y))
                                    continue
                                if k != "raise" or y == NONE:
                                    out.append((k, e, r))
                                    continue
                                for f, b in self.truth(e, y, fr, s):
                                    if isinstance(b, Exc):
                                        out.append(("raise", f, b))
                                    else:
                                        out.append(("next", f, None) if b
                                                   else (k, f, r))
                        else:
                            out.append((k, d, r))
        return out

    def s_FunctionDef(self, s, st, fr):
        st.env[(fr.id, s.name)] = self.closure(s, fr)
        return [("next", st, None)]

    closures = {}

    def closure(self, node, fr):
        f = self.prog.node_func.get(node)
        if f is None:
            owner = fr.func
            if owner is None:
                name = getattr(node, "name", f"<lambda:{node.lineno}>")
                f = Func(f"{fr.mod}.{name}", node,
                         self.prog.modules[fr.mod], fr.cls, "function", None)
                self.prog.node_func[node] = f
            else:
                f = self.prog.closure(node, owner)
        key = (f.qual, fr.id)
        self.closures[key] = (f, fr)
        p = fr
        while p is not None:
            self.captured.add(p.id)
            p = p.parent
        return ("clo", key)

    # -- loops ------------------------------------------------------------

    def s_For(self, s, st, fr):
        out = []
        for a, it in self.ev(s.iter, st, fr):
            if isinstance(it, Exc):
                out.append(("raise", a, it))
                continue
            for b, items in self.iter_items(a, it, fr, s.iter):
                if isinstance(items, Exc):
                    out.append(("raise", b, items))
                elif items is not None and len(items) <= max(64, self.unroll):
                    out += self.unrolled(s, items, b, fr)
                elif self.draws(s.body, it):
                    out += self.counted(s, b, fr, it)
                else:
                    out += self.loop(s, b, fr, it)
        return out

    def draws(self, body, it):
        """Whether each round of `for ... in range(...)` takes something from
        an iterator, so that the rounds are bounded by what there is."""
        return self.unroll_while and it[:2] == ("op", "range") \
            and it[4] == const(1) and any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                and n.func.id == "next" for x in body for n in ast.walk(x))

    def counted(self, s, st, fr, it):
        """The first rounds of `for ... in range(lo, hi)` one by one."""
        cur, out = [st], []
        for i in range(self.unroll_while):
            v = add(it[2], const(i))
            nxt = []
            for c in cur:
                for a, more in self.split(c, op("lt", sub(v, it[3]))):
                    if not more:
                        out += self.block(s.orelse, a, fr)
                        continue
                    for k, b, r in self.unrolled_once(s, v, a, fr):
                        if k in ("next", "cont"):
                            nxt.append(b)
                        elif k == "brk":
                            out.append(("next", b, None))
                        else:
                            out.append((k, b, r))
            cur = nxt
            if not cur:
                return out
        if self.cut_while:
            self.cut += len(cur)
            return out
        for c in cur:
            out += self.loop(s, c, fr, op("range", add(
                it[2], const(self.unroll_while)), it[3], it[4]))
        return out

    def unrolled_once(self, s, v, st, fr):
        out = []
        for a, x in self.assign(s.target, v, st, fr):
            if isinstance(x, Exc):
                out.append(("raise", a, x))
            else:
                out += self.block(s.body, a, fr)
        return out

    def unrolled(self, s, items, st, fr):
        cur = [st]
        out = []
        for v in items:
            nxt = []
            for c in cur:
                for a, x in self.assign(s.target, v, c, fr):
                    if isinstance(x, Exc):
                        out.append(("raise", a, x))
                        continue
                    for k, b, r in self.block(s.body, a, fr):
                        if k in ("next", "cont"):
                            nxt.append(b)
                        elif k == "brk":
                            out.append(("next", b, None))
                        else:
                            out.append((k, b, r))
            cur = nxt
        for c in cur:
            out += self.block(s.orelse, c, fr)
        return out

    def s_While(self, s, st, fr):
        if self.unroll_while:
            return self.peeled(s, st, fr)
        return self.loop(s, st, fr, None)

    def peeled(self, s, st, fr):
        """The first iterations one by one; what is left after them is
        summarised, or given up and counted in a bounded scenario."""
        cur, out = [st], []
        for i in range(self.unroll_while):
            nxt = []
            for c in cur:
                for a, b in self.cond(s.test, c, fr):
                    if isinstance(b, Exc):
                        out.append(("raise", a, b))
                        continue
                    if not b:
                        out += self.block(s.orelse, a, fr)
                        continue
                    for k, x, r in self.block(s.body, a, fr):
                        if k in ("next", "cont"):
                            nxt.append(x)
                        elif k == "brk":
                            out.append(("next", x, None))
                        else:
                            out.append((k, x, r))
            cur = nxt
            if not cur:
                return out
        if self.cut_while:
            self.cut += len(cur)
            return out
        for c in cur:
            out += self.loop(s, c, fr, None)
        return out

    def loop(self, s, st, fr, it):
        """Forget what the loop writes, then analyse one generic iteration and
        the exit.  Counters keep the bounds that prove inductive."""
        self.loops += 1
        entry = st
        havoc_env, havoc_attr, havoc_cont = set(), set(), set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                havoc_env.add((fr.id, n.id))
        cands = {}
        tag = f"{fr.relpath}:{s.lineno}"
        for rnd in range(8):
            heads = self.loop_heads(entry, havoc_env, havoc_attr, havoc_cont,
                                    cands, tag, fr)
            if cands == {} and rnd == 0:
                cands = self.candidates(entry, heads, havoc_env, havoc_attr,
                                        s, fr)
                if cands:
                    heads = self.loop_heads(
                        entry, havoc_env, havoc_attr, havoc_cont, cands, tag,
                        fr)
            changed = False
            traces, outs = [], []
            for h in heads:
                self.loop_body(s, h, fr, it, traces, outs)
            # what did an iteration write?
            for h, b in traces:
                for k, v in b.env.items():
                    if k in entry.env and entry.env[k] != v \
                            and k not in havoc_env \
                            and h.env.get(k) != v:
                        havoc_env.add(k)
                        changed = True
                for oid, o in b.heap.items():
                    if oid not in entry.heap:
                        continue
                    ho = h.heap.get(oid)
                    if ho is o or ho is None:
                        continue
                    for n, v in o.attrs.items():
                        if ho.attrs.get(n) != v and n in ho.attrs and \
                                (oid, n) not in havoc_attr:
                            havoc_attr.add((oid, n))
                            changed = True
                        elif n not in ho.attrs and (
                                not o.sym or self.written(b, h, oid, n)) \
                                and (oid, n) not in havoc_attr:
                            havoc_attr.add((oid, n))
                            changed = True
                    if (ho.items != o.items or ho.base != o.base) \
                            and oid not in havoc_cont:
                        havoc_cont.add(oid)
                        changed = True
            # candidate bounds that are not inductive are dropped
            for key, preds in list(cands.items()):
                keep = []
                for p in preds:
                    if all(self.pred_holds(b, key, p) for _, b in traces):
                        keep.append(p)
                    else:
                        changed = True
                cands[key] = keep
            if not changed:
                break
        else:
            raise AnalysisError(f"loop at {tag} does not stabilise")
        its = tuple(tuple(b.events[len(h.events):]) for h, b in traces)
        self.accumulated(s, entry, heads, traces, outs, it, havoc_env,
                         havoc_attr)
        result = []
        for k, a, v in outs:
            a.events.append(("loop", (tag, its), a.held, len(a.order), tag))
            if k == "exit":
                result += self.block(s.orelse, a, fr)
            elif k == "brk":
                result.append(("next", a, None))
            else:
                result.append((k, a, v))
        return result

    def accumulated(self, s, entry, heads, traces, outs, it, env, attr):
        """`for ... in range(n)` that appends the same octets each time: what
        it leaves behind is known."""
        if not isinstance(s, ast.For) or len(heads) != 1 or len(traces) != 1 \
                or it[:2] != ("op", "range") or it[2] != ZERO \
                or it[4] != const(1) or any(k != "exit" for k, _, _ in outs):
            return
        if not entry.holds(op("le", scale(it[3], -1))):
            return
        h, b = traces[0]
        for key in [("env", k) for k in env] + [("attr", k) for k in attr]:
            v0 = self.loop_value(entry, key)
            v, w = self.loop_value(h, key), self.loop_value(b, key)
            if v0 is None or v is None or w is None or tyof(v0) != "bytes" \
                    or w[:2] != ("op", "cat") or w[2] != v:
                continue
            x = mk_cat(list(w[3:]))
            if any(y[0] in ("s", "op") and "'loop'" in skey(y)
                   or "'elem'" in skey(y) for y in subterms(x)):
                continue
            r = mk_cat([v0, op("bytes.mul", x, it[3])])
            for _, a, _ in outs:
                if key[0] == "env":
                    a.env[key[1]] = r
                else:
                    a.mut(("obj", key[1][0])).attrs[key[1][1]] = r

    def written(self, b, h, oid, name):
        for e in b.events[len(h.events):]:
            if e[0] == "set" and e[1][0] == ("obj", oid) and e[1][1] == name:
                return True
        return False

    def loop_value(self, st, key):
        kind, k = key
        if kind == "env":
            return st.env.get(k)
        o = st.heap.get(k[0])
        return o.attrs.get(k[1]) if o else None

    def candidates(self, entry, heads, env, attr, s, fr):
        out = {}
        keys = [("env", k) for k in env] + [("attr", k) for k in attr]
        others = []
        for (fid, n), v in entry.env.items():
            if fid == fr.id and (fid, n) not in env:
                if tyof(v) == "int":
                    others.append(v)
                if tyof(v) == "bytes":
                    others.append(mk_len(v))
                if v[0] == "obj" and entry.obj(v).kind == "inst":
                    for an, av in entry.obj(v).attrs.items():
                        if tyof(av) == "int" or tyof(av) == "bytes":
                            x = av if tyof(av) == "int" else mk_len(av)
                            if x not in others and len(others) < 8:
                                others.append(x)
        for key in keys:
            v0 = self.loop_value(entry, key)
            if v0 is None or not (tyof(v0) in ("int", "float")
                                  or v0[0] == "lin"):
                continue
            preds = [("ge", v0), ("le", v0), ("ge", ZERO)]
            for o in others[:8]:
                preds.append(("le", o))
                preds.append(("ge", o))
            preds = [p for p in dict.fromkeys(preds)
                     if self.pred_on(entry, v0, p)]
            if preds:
                out[key] = preds
        return out

    def pred_atom(self, v, p):
        return op("le", sub(v, p[1]) if p[0] == "le" else sub(p[1], v))

    def pred_on(self, st, v, p):
        return st.holds(self.pred_atom(v, p))

    def pred_holds(self, st, key, p):
        v = self.loop_value(st, key)
        if v is None or not numeric(v):
            return False
        return self.pred_on(st, v, p)

    def loop_heads(self, entry, env, attr, cont, cands, tag, fr):
        st = entry.fork()
        heads = [st]
        keys = sorted([("env", k) for k in env if k in entry.env]
                      + [("attr", k) for k in attr], key=str)
        for oid in sorted(cont):
            o = st.mut(("obj", oid))
            self.fresh_n += 1
            o.base = ("k", "looped", tag, oid)
            o.items = ()
            o.ver += 1
            if o.types is None:
                o.types = (frozenset(), frozenset())
        for key in keys:
            v0 = self.loop_value(entry, key)
            name = ("k", "loop", tag, self.depth, skey(key[1]))
            nxt = []
            if key[0] == "attr" and entry.heap[key[1][0]].kind == "iter":
                # an iterator that is used up in the loop
                for h in heads:
                    h.mut(("obj", key[1][0])).attrs.pop(key[1][1], None)
                continue
            for h in heads:
                if v0 is None:
                    o = h.mut(("obj", key[1][0]))
                    if o.sym:
                        o.attrs.pop(key[1][1], None)
                        types = frozenset()
                        for q in o.cls:
                            types |= self.declared(q, key[1][1])
                    else:
                        types = frozenset()
                    vals = self.materialize(h, name, types)
                elif v0[0] == "obj" and h.obj(v0).kind != "inst":
                    # a container rebound in the loop
                    o = Obj(h.obj(v0).kind)
                    o.base = name
                    o.types = h.obj(v0).types or (frozenset(), frozenset())
                    vals = [(h, self.new(h, o))]
                else:
                    types = self.loop_types(entry, key, v0, fr)
                    vals = self.materialize(h, name, types)
                for h2, v in vals:
                    if key[0] == "env":
                        h2.env[key[1]] = v
                    else:
                        h2.mut(("obj", key[1][0])).attrs[key[1][1]] = v
                    ok = True
                    for p in cands.get(key, ()):
                        if numeric(v) and not h2.assume(
                                self.pred_atom(v, p), True):
                            ok = False
                    if ok:
                        nxt.append(h2)
            heads = nxt
        return heads

    def loop_types(self, entry, key, v0, fr):
        """Types a loop-carried variable may have: inferred for its name."""
        types = self.atoms_of(entry, v0)
        if key[0] == "attr":
            o = entry.heap[key[1][0]]
            t = frozenset()
            for q in (o.cls or ()):
                t |= self.declared(q, key[1][1])
            if t:
                return t | (types or frozenset())
        if types is None:
            return frozenset()
        if key[0] == "env" and fr.func is not None:
            extra = self.local_types.get((fr.func.qual, key[1][1]))
            if extra:
                types |= extra
        return types

    local_types = {}

    def loop_body(self, s, h, fr, it, traces, outs):
        if isinstance(s, ast.While):
            for a, b in self.cond(s.test, h.fork(), fr):
                if isinstance(b, Exc):
                    outs.append(("raise", a, b))
                elif not b:
                    outs.append(("exit", a, None))
                else:
                    self.loop_iter(s, h, a, fr, traces, outs)
        else:
            a = h.fork()
            outs.append(("exit", h.fork(), None))
            for b, v in self.iter_elem(a, it, fr, s):
                if isinstance(v, Exc):
                    outs.append(("raise", b, v))
                    continue
                for c, x in self.assign(s.target, v, b, fr):
                    if isinstance(x, Exc):
                        outs.append(("raise", c, x))
                    else:
                        self.loop_iter(s, h, c, fr, traces, outs)

    def loop_iter(self, s, h, st, fr, traces, outs):
        for k, b, v in self.block(s.body, st, fr):
            if k in ("next", "cont"):
                traces.append((h, b))
                self.note_types(h, b, fr)
            else:
                outs.append((k, b, v))

    def note_types(self, h, b, fr):
        if fr.func is None:
            return
        for (fid, n), v in b.env.items():
            if fid == fr.id and h.env.get((fid, n)) != v:
                t = self.atoms_of(b, v)
                if t:
                    k = (fr.func.qual, n)
                    self.local_types[k] = self.local_types.get(
                        k, frozenset()) | t

    # -- iteration --------------------------------------------------------

    def iter_items(self, st, v, fr, node):
        """[(state, list of items | None when unknown | Exc)]"""
        k = v[0]
        if k == "tup":
            return [(st, list(v[1]))]
        if k == "c" and isinstance(v[2], (str, bytes)):
            if len(v[2]) <= max(64, self.unroll):
                return [(st, [const(x) for x in v[2]])]
            return [(st, None)]
        if k == "obj":
            o = st.obj(v)
            if o.kind in ("list", "set"):
                return [(st, list(o.items) if o.base is None else None)]
            if o.kind == "dict":
                if o.base is None:
                    return [(st, [a for a, b in o.items if b is not None])]
                return [(st, None)]
            if o.kind == "bytearray":
                return self.iter_items(st, o.attrs["data"], fr, node)
            if o.kind == "iter":
                if "items" in o.attrs:
                    items = o.attrs["items"]
                    st.mut(v).attrs["items"] = ()
                    return [(st, list(items))]
                if "gen" in o.attrs:
                    return self.run_gen(st, v, fr, node)
                return [(st, None)]
            if o.kind == "inst":
                c = self.prog.classes[sorted(o.cls)[0]]
                if self.prog.member(c, "__iter__") is not None:
                    return self.seq(
                        self.call_method(st, v, "__iter__", [], {}, fr, node),
                        lambda s, it: [(s, None)] if it == v else
                        self.iter_items(s, it, fr, node))
                return [(st, None)]
        if k == "cls":
            c = self.prog.classes[v[1]]
            if self.prog.is_enum(c):
                return [(st, self.enum_members(c))]
        if k == "op" and v[1] == "range":
            lo, hi, step = v[2:]
            if all(is_const(x) for x in (lo, hi, step)):
                r = range(lo[2], hi[2], step[2])
                if len(r) <= self.unroll:
                    return [(st, [const(x) for x in r])]
            return [(st, None)]
        if tyof(v) == "bytes":
            n = st.canon(mk_len(v))
            if is_const(n) and n[2] <= self.unroll:
                return [(st, [byte_at(v, const(i)) for i in range(n[2])])]
        return [(st, None)]

    def iter_elem(self, st, it, fr, node):
        """A generic element of an iterable of unknown length."""
        k = it[0]
        name = ("k", "elem", skey(it), self.bump())
        if k == "obj":
            o = st.obj(it)
            if o.kind in ("list", "set"):
                return self.materialize(st, name, (o.types or (0, frozenset()))[1])
            if o.kind == "dict":
                return self.materialize(st, name, (o.types or (frozenset(), 0))[0])
            if o.kind == "iter" and "elem" in o.attrs:
                return o.attrs["elem"](st, name, fr, node)
            if o.kind == "inst":
                c = self.prog.classes[sorted(o.cls)[0]]
                if self.prog.member(c, "__next__") is not None:
                    return self.drop_stop(self.call_method(
                        st, it, "__next__", [], {}, fr, node))
                if self.prog.member(c, "__iter__") is not None:
                    return self.seq(
                        self.call_method(st, it, "__iter__", [], {}, fr,
                                         node),
                        lambda s, x: self.iter_elem(s, x, fr, node)
                        if x != it else self.materialize(
                            s, name, frozenset()))
        if k == "op" and it[1] == "range":
            v = sym(name, "int")
            if st.holds(op("lt", scale(it[4], -1))):
                st.assume(op("le", sub(it[2], v)), True)
                st.assume(op("lt", sub(v, it[3])), True)
            return [(st, v)]
        if tyof(it) == "bytes":
            return [(st, ("s", name, "int", (0, 255)))]
        if tyof(it) == "str":
            return [(st, sym(name, "str"))]
        return [(st, sym(name, "any"))]

    def drop_stop(self, results):
        return [(s, v) for s, v in results if not (
            isinstance(v, Exc) and v.cls == "builtins.StopIteration")]

    def bump(self):
        self.fresh_n += 1
        return self.fresh_n

    def run_gen(self, st, g, fr, node):
        """Run a generator function to completion, collecting what it yields."""
        nf = st.obj(g).attrs["gen"]
        saved = st.ylds
        st.ylds = []
        out = []
        self.depth += 1
        self.stack.append(nf.func.qual)
        try:
            if isinstance(nf.func.node, ast.GeneratorExp):
                res = self.gen_exp(nf.func.node, st, nf)
            else:
                res = self.block(nf.func.node.body, st, nf)
        finally:
            self.depth -= 1
            self.stack.pop()
        for k, s, v in res:
            ys, s.ylds = s.ylds, saved
            if k == "raise":
                if v.cls == "builtins.StopIteration":
                    v = Exc("builtins.RuntimeError", None, v.where)
                out.append((s, v))
                continue
            unknown = any(y[0] == "unknown" for y in ys)
            o = s.mut(g)
            o.attrs.pop("gen", None)
            if unknown or any(e[0] == "loop" and any(
                    x[0] == "yield" for t in e[1][1] for x in t)
                    for e in s.events):
                out.append((s, None))
            else:
                o.attrs["items"] = ()
                out.append((s, ys))
        return out

    def call_ext(self, st, name, args, kwargs, fr, node):
        from . import extmodel
        return extmodel.call_ext(self, st, name, args, kwargs, fr, node)

    def call_extm(self, st, recv, name, args, kwargs, fr, node):
        from . import extmodel
        return extmodel.call_extm(self, st, recv, name, args, kwargs, fr,
                                  node)

    # expressions are in exprs.py


def eval_const(node):
    """Value of a constant expression (literals and arithmetic on them)."""
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, ast.UnaryOp):
        v = eval_const(node.operand)
        if isinstance(node.op, ast.USub):
            return -v
        if isinstance(node.op, ast.Invert):
            return ~v
        if isinstance(node.op, ast.Not):
            return not v
    if isinstance(node, ast.BinOp):
        a, b = eval_const(node.left), eval_const(node.right)
        return fold(type(node.op), a, b)
    if isinstance(node, ast.Tuple):
        return tuple(eval_const(x) for x in node.elts)
    raise ValueError(ast.dump(node))


def fold(o, a, b):
    import operator as O
    table = {ast.Add: O.add, ast.Sub: O.sub, ast.Mult: O.mul,
             ast.LShift: O.lshift, ast.RShift: O.rshift, ast.BitOr: O.or_,
             ast.BitAnd: O.and_, ast.BitXor: O.xor, ast.FloorDiv: O.floordiv,
             ast.Mod: O.mod, ast.Pow: O.pow, ast.Div: O.truediv}
    if o not in table:
        raise ValueError(str(o))
    if o is ast.Pow and (abs(b) > 128 or abs(a) > 1 << 64):
        raise ValueError("too big")
    if o is ast.LShift and b > 4096:
        raise ValueError("too big")
    try:
        return table[o](a, b)
    except (TypeError, ZeroDivisionError) as e:
        raise ValueError(str(e))
