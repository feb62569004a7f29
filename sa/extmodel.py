"""Models of builtins, container methods and the standard library calls that
the package makes, for the path analysis."""

import ast
import builtins
import math

from .infer import EXT_CONTAINERS, EXT_RAISES, EXT_RETURNS, LOCK_TYPES, \
    ext_class
from .paths import Exc
from .state import *
from .terms import *
from .exprs import mk_cat, mk_not, mk_slice

PY = {"int": "int", "str": "str", "bytes": "bytes", "float": "float",
      "bool": "bool"}


def call_ext(it, st, name, args, kwargs, fr, node):
    h = it.extmodels.get(name)
    if h is not None:
        r = h(it, st, args, kwargs, fr, node)
        if r is not None:
            return r
    f = TABLE.get(name)
    if f is not None:
        args, kwargs = positional(PARAMS.get(name, ()), args, kwargs)
        return f(it, st, args, kwargs, fr, node)
    it.event(st, "ext", fr, node, name, tuple(args),
             tuple(sorted(kwargs.items())))
    if name in LOCK_TYPES or name == "threading.Event" \
            or name == "threading.Thread" or name == "socket.socket" \
            or name == "select.poll":
        o = Obj("ext")
        o.attrs["class"] = name
        o.attrs["args"] = ("tup", tuple(args))
        for k, v in kwargs.items():
            o.attrs["kw:" + k] = v
        if name == "threading.Event":
            o.attrs["flag"] = FALSE
        t = it.new(st, o)
        st.names[it.fresh(name)] = t
        return [(st, t)]
    cls = ext_class(name)
    if cls is not None and issubclass(cls, BaseException):
        o = Obj("ext")
        o.attrs["class"] = ("builtins." + cls.__name__
                            if cls.__module__ == "builtins" else name)
        o.attrs["args"] = ("tup", tuple(args))
        return [(st, it.new(st, o))]
    out = []
    for e in EXT_RAISES.get(name, ()):
        out += it.exc(st.fork(), e, fr.where(node))
    ty = EXT_RETURNS.get(name)
    if ty is not None and ty[0] in PY:
        n = sym(it.fresh(name), ty[0])
        it.event(st, "extret", fr, node, name, n)
        return out + [(st, n)]
    r = sym(it.fresh(name), "any")
    it.event(st, "extret", fr, node, name, r)
    return out + [(st, r)]


# what may be given by position and also by name
PARAMS = {
    "builtins.enumerate": ("iterable", "start"),
    "builtins.sum": ("iterable", "start"), "builtins.int": (None, "base"),
    "builtins.int.from_bytes": ("bytes", "byteorder"),
    "builtins.bytes": ("source", "encoding", "errors"),
    "builtins.bytearray": ("source", "encoding", "errors"),
    "builtins.str": ("object", "encoding", "errors"),
    "hmac.new": ("key", "msg", "digestmod"),
    "hmac.digest": ("key", "msg", "digest"),
    "hashlib.new": ("name", "data"), "typing.cast": ("typ", "val"),
    "weakref.ref": ("object", "callback"),
    "collections.deque": ("iterable", "maxlen"),
    "builtins.slice": (), "builtins.print": (),
}


def positional(names, args, kwargs):
    """The arguments with those given by name moved to their positions."""
    args = list(args)
    rest = dict(kwargs)
    while len(args) < len(names) and names[len(args)] in rest:
        args.append(rest.pop(names[len(args)]))
    return args, rest


def b_isinstance(it, st, args, kwargs, fr, node):
    v, types = args[0], args[1]
    ts = list(types[1]) if types[0] == "tup" else [types]
    if any(t[0] in ("k", "c", "enum", "obj") or t[0] == "s"
           and tyof(t) != "any" for t in ts):
        return it.exc(st, "builtins.TypeError", fr.where(node))
    if v[0] == "obj" and st.obj(v).kind == "inst":
        yes, no = [], []
        for q in sorted(st.obj(v).cls):
            mro = {c.qual for c in it.prog.classes[q].mro}
            ext = set()
            for b in it.prog.classes[q].ext_bases:
                ext.add(b.split(".")[-1])
            if it.prog.is_exception(it.prog.classes[q]):
                ext |= {x.split(".")[-1] for x in it.prog.exc_ancestors(q)
                        if x.startswith("builtins.")}
            hit = any(t[0] == "cls" and t[1] in mro
                      or t[0] == "ext" and t[1].split(".")[-1] in ext
                      or t == ("ext", "builtins.object") for t in ts)
            (yes if hit else no).append(q)
        if not no:
            return [(st, TRUE)]
        if not yes:
            return [(st, FALSE)]
        s2 = st.fork()
        it.branches += 1
        it.narrow(st, v, yes)
        it.narrow(s2, v, no)
        st.order.append((op("isinst", v, ("k",) + tuple(sorted(yes))), True))
        s2.order.append((op("isinst", v, ("k",) + tuple(sorted(yes))), False))
        return [(st, TRUE), (s2, FALSE)]
    res = []
    for t in ts:
        res.append(isinst1(it, st, v, t))
    if True in res:
        return [(st, TRUE)]
    if all(r is False for r in res):
        return [(st, FALSE)]
    return [(st, op("isinst", v, types))]


def isinst1(it, st, v, t):
    ty = tyof(v)
    if v[0] == "enum" or (v[0] == "s" and v[2] == "enum"):
        qual = v[1] if v[0] == "enum" else v[4][0]
        if t[0] == "cls":
            return t[1] in {c.qual for c in it.prog.classes[qual].mro}
        n = t[1].split(".")[-1]
        return n == "int" and any("IntEnum" in b for b in
                                  it.prog.classes[qual].ext_bases)
    if t[0] == "ext":
        n = t[1].split(".")[-1]
        if ty == "any":
            return None
        if v[0] == "obj":
            k = st.obj(v).kind
            if k == "ext":
                return st.obj(v).attrs.get("class", "").split(".")[-1] == n
            return k == n
        if ty == "bool" and n == "int":
            return True
        if ty == "NoneType":
            return n == "NoneType"
        return ty == n
    if t[0] == "cls":
        return None if ty == "any" else False
    return None


def b_slice(it, st, args, kwargs, fr, node):
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    return [(st, ("slice",) + tuple((a + [NONE, NONE])[:3]))]


def b_len(it, st, args, kwargs, fr, node):
    v = args[0]
    if v[0] == "obj":
        o = st.obj(v)
        if o.kind == "inst":
            return it.call_method(st, v, "__len__", [], {}, fr, node)
        if o.kind in ("list", "set", "dict") and "crowded" in o.attrs \
                and o.base is None:
            # these and others
            n = len([1 for i in o.items if o.kind != "dict"
                     or i[1] is not None])
            return [(st, ("s", it.fresh("len"), "int", (n, 2 ** 40)))]
        if o.kind in ("list", "set"):
            if o.base is None:
                return [(st, const(len(o.items)))]
            return [(st, op("len", o.base, ("v", o.ver)))]
        if o.kind == "dict":
            if o.base is None:
                return [(st, const(len([1 for i in o.items
                                        if i[1] is not None])))]
            return [(st, op("len", o.base, ("v", o.ver)))]
        if o.kind == "bytearray":
            return [(st, mk_len(o.attrs["data"]))]
    if v == NONE:
        return it.exc(st, "builtins.TypeError", fr.where(node))
    if v[0] == "op" and v[1] == "slice":
        lo, hi = v[3], v[4]
        if st.holds(op("le", sub(lo, hi))):
            return [(st, sub(hi, lo))]
    if v[0] == "op" and v[1] == "bytes.mul" and v[2][0] == "c" \
            and len(v[2][2]) == 1:
        if st.holds(op("le", scale(v[3], -1))):
            return [(st, v[3])]
    if v[0] == "op" and v[1] == "cat":
        out = ZERO
        acc = [(st, ZERO)]
        for p in v[2:]:
            acc = it.seq(acc, lambda s, t, p=p: it.seq(
                b_len(it, s, [p], {}, fr, node),
                lambda s2, n: [(s2, add(t, n))]))
        return acc
    return [(st, mk_len(v))]


def st_le(s, a, b):
    """Whether a <= b is known."""
    return bool(s.le0(sub(s.canon(a), s.canon(b))))


def minmax(which):
    def run(it, st, args, kwargs, fr, node):
        items = args
        if len(args) == 1:
            rs = it.iter_items(st, args[0], fr, node)
            out = []
            for s, its in rs:
                if its is None or isinstance(its, Exc):
                    out.append((s, its if isinstance(its, Exc) else
                                sym(it.fresh(which), "any")))
                elif not its:
                    out += ([(s, kwargs["default"])] if "default" in kwargs
                            else it.exc(s, "builtins.ValueError",
                                        fr.where(node)))
                else:
                    out += keyed(it, s, list(its), kwargs, fr, node)
            return out
        return keyed(it, st, list(items), kwargs, fr, node)

    def keyed(it, st, items, kwargs, fr, node):
        key = kwargs.get("key", NONE)
        if key == NONE:
            return go(it, st, items, fr, node)
        pairs = with_keys(it, st, items, key, fr, node)

        def pick(s, ps):
            acc = [(s, ps[0])]
            for p in ps[1:]:
                acc = it.seq(acc, lambda s2, cur, p=p: it.seq(
                    less(it, s2, p[0], cur[0], fr, node) if which == "min"
                    else less(it, s2, cur[0], p[0], fr, node),
                    lambda s3, t: [(s3, p if t else cur)]))
            return it.seq(acc, lambda s2, p: [(s2, p[1])])
        return it.seq(pairs, pick)

    def go(it, st, items, fr, node):
        top = ("ext", "math.inf")
        if top in items and which == "min":
            items = [x for x in items if x != top] or [top]
        acc = [(st, items[0])]
        for x in items[1:]:
            def step(s, cur, x=x):
                import ast
                # min returns the first of equal elements
                o = ast.Lt()
                a, b = (x, cur) if which == "min" else (cur, x)
                if tyof(a) == tyof(b) == "int" and st_le(s, a, b):
                    return [(s, x)]     # at most b, so x either way
                return it.seq(
                    it.compare(o, a, b, s, fr, node),
                    lambda s2, t: [
                        (s3, v if isinstance(v, Exc) else (x if v else cur))
                        for s3, v in it.truth(s2, t, fr, node)])
            acc = it.seq(acc, step)
        return acc
    return run


def b_int(it, st, args, kwargs, fr, node):
    if not args:
        return [(st, ZERO)]
    v = it.num(st, args[0])
    if v[0] == "c" and isinstance(v[2], (int, float)):
        return [(st, const(int(v[2])))]
    if v[0] == "c" and isinstance(v[2], (str, bytes)):
        base = [a[2] for a in args[1:] if is_const(a)]
        try:
            return [(st, const(int(v[2], *base)))]
        except ValueError:
            return it.exc(st, "builtins.ValueError", fr.where(node))
    if tyof(v) == "int" or tyof(v) == "bool":
        return [(st, v)]
    if v[0] == "s" and v[2] == "enum":
        return [(st, op("value", v))]
    if tyof(v) == "float":
        return [(st, op("int", v))]
    if v[0] == "obj" and st.obj(v).kind == "inst" and it.has(
            st.obj(v), "__int__"):
        return it.call_method(st, v, "__int__", [], {}, fr, node)
    out = []
    if tyof(v) in ("str", "bytes", "any"):
        s2 = st.fork()
        out += it.exc(s2, "builtins.ValueError", fr.where(node))
    return out + [(st, op("int", v))]


def b_bytes(it, st, args, kwargs, fr, node):
    if not args:
        return [(st, const(b""))]
    v = args[0]
    if tyof(v) == "bytes":
        return [(st, v)]
    if tyof(v) == "int":
        if is_const(v):
            return [(st, const(bytes(min(v[2], 4096))))]
        out = []
        for s, neg in it.split(st, op("lt", v)):
            if neg:
                out += it.exc(s, "builtins.ValueError", fr.where(node))
                continue
            r = op("bytes.mul", const(b"\0"), v)
            if s.fact(mk_eq(mk_len(r), v)):
                out.append((s, r))
        return out
    if v[0] == "obj":
        o = st.obj(v)
        if o.kind == "bytearray":
            return [(st, o.attrs["data"])]
        if o.kind == "inst" and it.has(o, "__bytes__"):
            return it.call_method(st, v, "__bytes__", [], {}, fr, node)
        if o.kind == "inst" and o.cls and o.cls <= {"snmp.utils.subbytes"}:
            # (property D11: it iterates over the octets it copies)
            return it.getitem(st, v, ("slice", NONE, NONE, NONE), fr, node)
        if o.kind == "inst" and it.has(o, "__iter__"):
            s = st
            return [(s, op("bytes", v))]
    def go(s, items):
        if items is None:
            out = []
            s2 = s.fork()
            out += it.exc(s2, "builtins.ValueError", fr.where(node))
            return out + [(s, op("bytes", v))]
        parts = []
        acc = [(s, ())]
        for x in items:
            acc = it.seq(acc, lambda a, ps, x=x: byte_of(
                it, a, ps, x, fr, node))
        return it.seq(acc, lambda a, ps: [
            (a, mk_cat(list(ps)) if ps else const(b""))])
    return it.seq(it.iter_items(st, v, fr, node), go)


def byte_of(it, st, ps, x, fr, node):
    x = it.num(st, x)
    if is_const(x):
        if 0 <= x[2] <= 255:
            return [(st, ps + (const(bytes([x[2]])),))]
        return it.exc(st, "builtins.ValueError", fr.where(node))
    out = []
    for s, lo in it.split(st, op("lt", x)):
        if lo:
            out += it.exc(s, "builtins.ValueError", fr.where(node))
            continue
        for s2, hi in it.split(s, op("lt", sub(const(255), x))):
            if hi:
                out += it.exc(s2, "builtins.ValueError", fr.where(node))
            else:
                out.append((s2, ps + (op("tobytes", x, const(1)),)))
    return out


def b_bytearray(it, st, args, kwargs, fr, node):
    def go(s, v):
        o = Obj("bytearray")
        o.attrs["data"] = v
        return [(s, it.new(s, o))]
    return it.seq(b_bytes(it, st, args, kwargs, fr, node), go)


def b_str(it, st, args, kwargs, fr, node):
    if not args:
        return [(st, const(""))]
    if tyof(args[0]) == "str":
        return [(st, args[0])]
    v = args[0]
    if v[0] == "c":
        return [(st, const(str(v[2])))]
    return [(st, op("str", v))]


def b_bool(it, st, args, kwargs, fr, node):
    if not args:
        return [(st, FALSE)]
    if tyof(args[0]) == "bool":
        return [(st, args[0])]
    return [(s, b if isinstance(b, Exc) else (TRUE if b else FALSE))
            for s, b in it.truth(st, args[0], fr, node)]


def b_type(it, st, args, kwargs, fr, node):
    v = args[0]
    if v[0] == "obj" and st.obj(v).kind == "inst":
        out = []
        qs = sorted(st.obj(v).cls)
        if len(qs) > 3:
            return [(st, sym(("k", "type", v), "any"))]
        for i, q in enumerate(qs):
            s = st if i == len(qs) - 1 else st.fork()
            if len(qs) > 1:
                it.narrow(s, v, [q])
            out.append((s, ("cls", q)))
        return out
    if v[0] == "enum":
        return [(st, ("cls", v[1]))]
    return [(st, ("ext", "builtins." + tyof(v)))]


def b_range(it, st, args, kwargs, fr, node):
    args = [it.num(st, a) for a in args]
    if len(args) == 1:
        args = [ZERO, args[0]]
    if len(args) == 2:
        args = args + [const(1)]
    return [(st, op("range", *args))]


def b_cast(it, st, args, kwargs, fr, node):
    return [(st, args[1])]


def b_weakref(it, st, args, kwargs, fr, node):
    v = args[0]
    it.event(st, "weakref", fr, node, v)
    return [(st, ("weak", v))]


def b_proxy(it, st, args, kwargs, fr, node):
    it.event(st, "proxy", fr, node, args[0])
    return [(st, args[0])]


def container(kind):
    def f(it, st, args, kwargs, fr, node):
        o = Obj(kind)
        if not args:
            if kind == "dict" and kwargs:
                o.items = tuple((const(k), v) for k, v in kwargs.items())
            return [(st, it.new(st, o))]

        def go(s, items):
            if items is None:
                o.base = it.fresh(kind)
                src = args[0]
                o.types = (frozenset(), frozenset())
                if src[0] == "obj":
                    so = s.obj(src)
                    if so.types:
                        o.types = so.types
                        if so.kind == "dict" and kind != "dict":
                            o.types = (frozenset(), so.types[0])
                    if "elems" in so.attrs:
                        o.attrs["elems"] = so.attrs["elems"]
                    o.attrs["copyof"] = src
            elif kind == "dict":
                if args[0][0] == "obj" and s.obj(args[0]).kind == "dict":
                    o.items = s.obj(args[0]).items
                else:
                    o.items = tuple(
                        (p[1][0], p[1][1]) for p in items if p[0] == "tup")
            elif kind == "set":
                o.items = tuple(dict.fromkeys(items))
            else:
                o.items = tuple(items)
            return [(s, it.new(s, o))]
        return it.seq(it.iter_items(st, args[0], fr, node), go)
    return f


def b_defaultdict(it, st, args, kwargs, fr, node):
    def go(s, d):
        if args and args[0] != NONE:
            s.mut(d).attrs["factory"] = args[0]
        return [(s, d)]
    return it.seq(container("dict")(it, st, args[1:], kwargs, fr, node), go)


def b_tuple(it, st, args, kwargs, fr, node):
    if not args:
        return [(st, ("tup", ()))]

    def go(s, items):
        if items is None:
            src = args[0]
            if src[0] == "obj" and s.obj(src).kind == "list":
                return [(s, src)]
            o = Obj("list")
            o.base = it.fresh("tuple")
            o.types = (frozenset(), frozenset())
            o.attrs["copyof"] = src
            return [(s, it.new(s, o))]
        return [(s, ("tup", tuple(items)))]
    return it.seq(it.iter_items(st, args[0], fr, node), go)


def b_iter(it, st, args, kwargs, fr, node):
    v = args[0]
    if v[0] == "obj" and st.obj(v).kind == "inst":
        return it.call_method(st, v, "__iter__", [], {}, fr, node)
    if v[0] == "obj" and st.obj(v).kind == "iter":
        return [(st, v)]

    def go(s, items):
        o = Obj("iter")
        if items is not None:
            o.attrs["items"] = tuple(items)
        else:
            o.base = v
            o.attrs["src"] = v
        return [(s, it.new(s, o))]
    return it.seq(it.iter_items(st, v, fr, node), go)


def b_next(it, st, args, kwargs, fr, node):
    v = args[0]
    if v[0] == "obj":
        o = st.obj(v)
        if o.kind == "inst":
            return it.call_method(st, v, "__next__", [], {}, fr, node)
        if o.kind == "iter" and "items" in o.attrs:
            items = o.attrs["items"]
            if not items:
                if len(args) > 1:
                    return [(st, args[1])]
                return it.exc(st, "builtins.StopIteration", fr.where(node))
            st.mut(v).attrs["items"] = items[1:]
            return [(st, items[0])]
        if o.kind == "list" and o.base is None and o.name is None:
            # a generator expression
            items = o.items
            if not items:
                if len(args) > 1:
                    return [(st, args[1])]
                return it.exc(st, "builtins.StopIteration", fr.where(node))
            st.mut(v).items = items[1:]
            return [(st, items[0])]
        if o.kind == "iter" and "gen" in o.attrs:
            def go(s, items):
                if items is None:
                    o2 = s.mut(v)
                    return unknown(s)
                s.mut(v).attrs["items"] = tuple(items)
                return b_next(it, s, args, kwargs, fr, node)
            return it.seq(it.run_gen(st, v, fr, node), go)

    def unknown(s):
        out = []
        s2 = s.fork()
        if len(args) > 1:
            out.append((s2, args[1]))
        else:
            out += it.exc(s2, "builtins.StopIteration", fr.where(node))
        return out + it.iter_elem(s, v, fr, node)
    return unknown(st)


def b_map(it, st, args, kwargs, fr, node):
    def go(s, items):
        if items is None:
            o = Obj("list")
            o.base = it.fresh("map")
            o.types = (frozenset(), frozenset())
            o.attrs["map"] = (args[0], args[1])
            out = []
            results = []
            for s2, e in it.iter_elem(s.fork(), args[1], fr, node):
                if isinstance(e, Exc):
                    out.append((s2, e))
                    continue
                for s3, x in it.call(s2, args[0], [e], {}, fr, node):
                    if isinstance(x, Exc):
                        out.append((s3, x))
                    else:
                        results.append((x, (), s3))
            types = frozenset()
            for x, _, s3 in results:
                types |= it.atoms_of(s3, x) or frozenset()
            o.types = (frozenset(), types)
            o.attrs["elems"] = tuple(results)
            return out + [(s, it.new(s, o))]
        acc = [(s, ())]
        for x in items:
            acc = it.seq(acc, lambda a, vs, x=x: it.seq(
                it.call(a, args[0], [x], {}, fr, node),
                lambda b, v: [(b, vs + (v,))]))

        def fin(a, vs):
            o = Obj("list")
            o.items = vs
            return [(a, it.new(a, o))]
        return it.seq(acc, fin)
    return it.seq(it.iter_items(st, args[1], fr, node), go)


def b_zip(it, st, args, kwargs, fr, node):
    acc = [(st, ())]
    for a in args:
        acc = it.seq(acc, lambda s, ls, a=a: [
            (s2, v if isinstance(v, Exc) else ls + (v,))
            for s2, v in it.iter_items(s, a, fr, node)])

    def go(s, ls):
        o = Obj("list")
        if any(l is None for l in ls):
            o.base = it.fresh("zip")
            o.types = (frozenset(), frozenset())
        else:
            o.items = tuple(("tup", tuple(t)) for t in zip(*ls))
        return [(s, it.new(s, o))]
    return it.seq(acc, go)


def b_enumerate(it, st, args, kwargs, fr, node):
    def go(s, items):
        o = Obj("list")
        if items is None:
            o.base = it.fresh("enumerate")
            o.types = (frozenset(), frozenset())
        else:
            n0 = it.num(s, args[1]) if len(args) > 1 else ZERO
            o.items = tuple(("tup", (add(const(i), n0), v))
                            for i, v in enumerate(items))
        return [(s, it.new(s, o))]
    return it.seq(it.iter_items(st, args[0], fr, node), go)


def b_reversed(it, st, args, kwargs, fr, node):
    def go(s, items):
        o = Obj("list")
        if items is None:
            o.base = it.fresh("reversed")
            o.types = (frozenset(), frozenset())
            if args[0][0] == "obj":
                so = s.obj(args[0])
                if so.types:
                    o.types = so.types
            elif tyof(args[0]) == "bytes":
                o.types = (frozenset(), frozenset([("byte",)]))
        else:
            o.items = tuple(reversed(items))
        return [(s, it.new(s, o))]
    return it.seq(it.iter_items(st, args[0], fr, node), go)


def quant(which):
    def f(it, st, args, kwargs, fr, node):
        def go(s, items):
            if items is None:
                src = args[0]
                o = s.obj(src) if src[0] == "obj" else None
                t = op("typed", "bool", op(which, o.base if o else src,
                                           it.fresh(which)))
                return [(s, op("truth", t))]
            acc = [(s, FALSE if which == "any" else TRUE)]
            for x in items:
                def step(a, cur, x=x):
                    out = []
                    for b, v in it.truth(a, cur, fr, node):
                        if isinstance(v, Exc):
                            out.append((b, v))
                        elif v == (which == "any"):
                            out.append((b, TRUE if v else FALSE))
                        else:
                            out += [(c, w if isinstance(w, Exc) else
                                     (TRUE if w else FALSE))
                                    for c, w in it.truth(b, x, fr, node)]
                    return out
                acc = it.seq(acc, step)
            return acc
        return it.seq(it.iter_items(st, args[0], fr, node), go)
    return f


def b_sum(it, st, args, kwargs, fr, node):
    def go(s, items):
        if items is None:
            return [(s, op("sum", args[0], it.fresh("sum")))]
        t = args[1] if len(args) > 1 else ZERO
        for x in items:
            t = add(t, it.num(s, x))
        return [(s, t)]
    return it.seq(it.iter_items(st, args[0], fr, node), go)


def b_divmod(it, st, args, kwargs, fr, node):
    import ast
    a, b = args
    return it.seq(it.binop(ast.FloorDiv(), a, b, st, fr, node),
                  lambda s, q: it.seq(
                      it.binop(ast.Mod(), a, b, s, fr, node),
                      lambda s2, r: [(s2, ("tup", (q, r)))]))


def b_abs(it, st, args, kwargs, fr, node):
    a = it.num(st, args[0])
    if is_const(a):
        return [(st, const(abs(a[2])))]
    return [(s, scale(a, -1) if b else a)
            for s, b in it.split(st, op("lt", a))]


def b_getattr(it, st, args, kwargs, fr, node):
    if is_const(args[1]):
        return it.getattr(st, args[0], args[1][2], fr, node)
    return [(st, sym(it.fresh("getattr"), "any"))]


def b_hasattr(it, st, args, kwargs, fr, node):
    if is_const(args[1]) and args[0][0] == "obj":
        o = st.obj(args[0])
        if o.kind == "inst":
            if args[1][2] in o.attrs or it.has(o, args[1][2]):
                return [(st, TRUE)]
            if not o.sym:
                return [(st, FALSE)]
    return [(st, op("truth", op("hasattr", *args)))]


def b_setattr(it, st, args, kwargs, fr, node):
    if is_const(args[1]):
        return it.setattr(st, args[0], args[1][2], args[2], fr, node)
    return [(st, NONE)]


def b_frombytes(it, st, args, kwargs, fr, node):
    signed = kwargs.get("signed", FALSE)
    order = args[1] if len(args) > 1 else kwargs.get("byteorder",
                                                      const("big"))

    def go(s, v):
        if v[0] == "c" and is_const(signed) and is_const(order):
            return [(s, const(int.from_bytes(v[2], order[2],
                                             signed=signed[2])))]
        if v[:2] == ("op", "tobytes") and is_const(order) and v[4:] == (
                () if order[2] == "big" and signed == FALSE
                else (signed, order)):
            return [(s, v[2])]          # what int.to_bytes made of a number
        if v[:2] == ("op", "tobytes") and v[4:] == () and is_const(order) \
                and v[3] == const(1) and signed == FALSE:
            return [(s, v[2])]
        return [(s, op("frombytes", v, signed, order))]
    return it.seq(b_bytes(it, st, [args[0]], {}, fr, node), go)


def b_time(it, st, args, kwargs, fr, node):
    v = sym(it.fresh("time"), "float")
    it.event(st, "ext", fr, node, "time.time", ())
    it.event(st, "extret", fr, node, "time.time", v)
    return [(st, v)]


def b_ceil(it, st, args, kwargs, fr, node):
    return rounding(it, st, "ceil", math.ceil, args[0], fr, node)


def b_floor(it, st, args, kwargs, fr, node):
    return rounding(it, st, "floor", math.floor, args[0], fr, node)


def rounding(it, st, n, f, x, fr, node):
    x = st.canon(x)
    if x[0] == "c" and isinstance(x[2], (int, float)):
        try:
            return [(st, const(f(x[2])))]
        except (OverflowError, ValueError) as e:
            return it.exc(st, f"builtins.{type(e).__name__}", fr.where(node))
    return [(st, op(n, x))]


def b_compare_digest(it, st, args, kwargs, fr, node):
    return it.eqv(args[0], args[1], st, fr, node)


def less(it, st, a, b, fr, node):
    """[(state, bool or Exc)] of a < b"""
    return it.seq(it.compare(ast.Lt(), a, b, st, fr, node),
                  lambda s, t: it.truth(s, t, fr, node))


def sift_down(it, st, xs, start, pos, fr, node):
    """heapq's algorithms on a known list: [(state, items or Exc)]"""
    if pos <= start:
        return [(st, xs)]
    up = (pos - 1) >> 1

    def go(s, smaller):
        if not smaller:
            return [(s, xs)]
        ys = list(xs)
        ys[pos], ys[up] = ys[up], ys[pos]
        return sift_down(it, s, ys, start, up, fr, node)
    return it.seq(less(it, st, xs[pos], xs[up], fr, node), go)


def sift_up(it, st, xs, pos, fr, node, start=None):
    start = pos if start is None else start
    c = 2 * pos + 1
    if c >= len(xs):
        return sift_down(it, st, xs, start, pos, fr, node)

    def move(s, c):
        ys = list(xs)
        ys[pos], ys[c] = ys[c], ys[pos]
        return sift_up(it, s, ys, c, fr, node, start)
    if c + 1 >= len(xs):
        return move(st, c)
    return it.seq(less(it, st, xs[c], xs[c + 1], fr, node),
                  lambda s, lt: move(s, c if lt else c + 1))


def heapified(it, st, xs, fr, node):
    res = [(st, xs)]
    for i in reversed(range(len(xs) // 2)):
        res = it.seq(res, lambda s, ys, i=i: sift_up(it, s, ys, i, fr, node))
    return res


def heap_op(which):
    def f(it, st, args, kwargs, fr, node):
        h = args[0]
        it.event(st, "heap", fr, node, which, h, tuple(args[1:]))
        if h[0] != "obj" or st.obj(h).kind != "list":
            return [(st, sym(it.fresh(which), "any"))]
        if it.exact_heaps and st.obj(h).base is None:
            return exact_heap(it, st, which, h, args, fr, node)
        if which == "heappush":
            o = st.mut(h)
            o.items = o.items + (args[1],)
            return [(st, NONE)]
        if which == "heapify":
            return [(st, NONE)]
        if which == "heappushpop":
            o = st.mut(h)
            o.items = o.items + (args[1],)
        out = []
        for s, ne in it.container_truth(st, h):
            if not ne:
                out += it.exc(s, "builtins.IndexError", fr.where(node))
                continue
            o = s.obj(h)
            if o.base is None:
                first = [(s, o.items[0])]
            else:
                key = ("k", "item", o.base, ZERO, o.ver)
                first = it.materialize(
                    s, key, (o.types or (0, frozenset()))[1])
            for s2, v in first:
                o = s2.mut(h)
                if o.base is None:
                    o.items = o.items[1:]
                else:
                    o.ver += 1
                if which == "heapreplace":
                    o.items = o.items + (args[1],)
                out.append((s2, v))
        return out
    return f


def exact_heap(it, st, which, h, args, fr, node):
    xs = list(st.obj(h).items)
    ret = NONE
    if which == "heappushpop":
        if not xs:
            return [(st, args[1])]
        return it.seq(
            less(it, st, xs[0], args[1], fr, node),
            lambda s, t: exact_heap(it, s, "heapreplace", h, args, fr, node)
            if t else [(s, args[1])])
    if which == "heapify":
        res = heapified(it, st, xs, fr, node)
    elif which == "heappush":
        xs.append(args[1])
        res = sift_down(it, st, xs, 0, len(xs) - 1, fr, node)
    elif not xs:
        return it.exc(st, "builtins.IndexError", fr.where(node))
    elif which == "heappop":
        last = xs.pop()
        ret = last
        if xs:
            ret, xs[0] = xs[0], last
        res = sift_up(it, st, xs, 0, fr, node) if xs else [(st, xs)]
    else:
        ret, xs[0] = xs[0], args[1]
        res = sift_up(it, st, xs, 0, fr, node)

    def done(s, ys):
        s.mut(h).items = tuple(ys)
        return [(s, ret)]
    return it.seq(res, done)


def algorithm(t):
    """The canonical term of a hash algorithm, named or by constructor."""
    if t[0] == "c" and isinstance(t[2], str):
        return ("ext", "hashlib." + t[2].lower().replace("-", ""))
    return t


def b_hmac(it, st, args, kwargs, fr, node):
    o = Obj("ext")
    o.attrs["class"] = "hmac"
    key = args[0]
    msg = args[1] if len(args) > 1 else kwargs.get("msg", NONE)
    alg = args[2] if len(args) > 2 else kwargs.get("digestmod", NONE)
    o.attrs["key"] = key
    o.attrs["alg"] = algorithm(alg)
    o.attrs["data"] = const(b"") if msg == NONE else msg
    it.event(st, "ext", fr, node, "hmac.new", tuple(args),
             tuple(sorted(kwargs.items())))
    return [(st, it.new(st, o))]


def b_hmac_digest(it, st, args, kwargs, fr, node):
    a = list(args) + [NONE] * (3 - len(args))
    key = a[0] if a[0] != NONE else kwargs.get("key", NONE)
    msg = a[1] if a[1] != NONE else kwargs.get("msg", NONE)
    alg = a[2] if a[2] != NONE else kwargs.get("digest", NONE)
    return [(st, op("hmac", key, msg, algorithm(alg)))]


def hash_new(alg_arg):
    def f(it, st, args, kwargs, fr, node):
        o = Obj("ext")
        o.attrs["class"] = "hash"
        if alg_arg is None:
            o.attrs["alg"] = algorithm(args[0])
            data = args[1] if len(args) > 1 else const(b"")
        else:
            o.attrs["alg"] = ("ext", alg_arg)
            data = args[0] if args else const(b"")
        o.attrs["data"] = data
        return [(st, it.new(st, o))]
    return f


def with_keys(it, st, items, key, fr, node):
    """[(state, [(key, item)])]"""
    acc = [(st, [])]
    for x in items:
        acc = it.seq(acc, lambda s, ps, x=x: it.seq(
            [(s, x)] if key == NONE else it.call(s, key, [x], {}, fr, node),
            lambda s2, k: [(s2, ps + [(k, x)])]))
    return acc


def in_order(it, st, items, kwargs, fr, node):
    """The items sorted, by insertion: [(state, items or Exc)]; None if there
    are too many to follow every order."""
    key = kwargs.get("key", NONE)
    rev = kwargs.get("reverse", FALSE)
    if rev not in (TRUE, FALSE) or len(items) > 4:
        return None

    def insert(s, done, p, i):
        # p goes in before the first element after which it need not come
        if i == 0:
            return [(s, [p] + done)]
        a, b = (p, done[i - 1]) if rev == FALSE else (done[i - 1], p)
        return it.seq(less(it, s, a[0], b[0], fr, node),
                      lambda s2, t: insert(s2, done, p, i - 1) if t
                      else [(s2, done[:i] + [p] + done[i:])])

    def go(s, ps):
        acc = [(s, [])]
        for p in ps:
            acc = it.seq(acc, lambda s2, d, p=p: insert(s2, d, p, len(d)))
        return it.seq(acc, lambda s2, d: [(s2, tuple(v for _, v in d))])
    return it.seq(with_keys(it, st, items, key, fr, node), go)


def b_sorted(it, st, args, kwargs, fr, node):
    def go(s, items):
        res = None if items is None else in_order(it, s, list(items), kwargs,
                                                  fr, node)
        if res is None:
            return unknown_sorted(it, s, args, fr, node)

        def done(s2, ys):
            o = Obj("list")
            o.items = tuple(ys)
            return [(s2, it.new(s2, o))]
        return it.seq(res, done)
    return it.seq(it.iter_items(st, args[0], fr, node), go)


def unknown_sorted(it, st, args, fr, node):
    o = Obj("list")
    o.base = it.fresh("sorted")
    src = args[0]
    o.types = (frozenset(), frozenset())
    if src[0] == "obj" and st.obj(src).types:
        o.types = st.obj(src).types
    return [(st, it.new(st, o))]


def b_repr(it, st, args, kwargs, fr, node):
    return [(st, op("repr", args[0]))]


def b_print(it, st, args, kwargs, fr, node):
    it.event(st, "ext", fr, node, "print", tuple(args))
    return [(st, NONE)]


def b_hash(it, st, args, kwargs, fr, node):
    v = args[0]
    if v[0] == "obj" and st.obj(v).kind == "inst" and it.has(
            st.obj(v), "__hash__"):
        return it.call_method(st, v, "__hash__", [], {}, fr, node)
    return [(st, op("hash", v))]


def b_vars(it, st, args, kwargs, fr, node):
    return [(st, op("vars", *args))]


def b_id(it, st, args, kwargs, fr, node):
    return [(st, op("id", args[0]))]


def b_callable(it, st, args, kwargs, fr, node):
    if args[0][0] in ("func", "bound", "clo", "cls"):
        return [(st, TRUE)]
    return [(st, op("truth", op("callable", args[0])))]


def b_object(it, st, args, kwargs, fr, node):
    o = Obj("ext")
    o.attrs["class"] = "object"
    return [(st, it.new(st, o))]


def b_super(it, st, args, kwargs, fr, node):
    return [(st, ("super", args[0][1], args[1]))]


def b_float(it, st, args, kwargs, fr, node):
    v = it.num(st, args[0]) if args else ZERO
    if v[0] == "c":
        try:
            return [(st, const(float(v[2])))]
        except ValueError:
            return it.exc(st, "builtins.ValueError", fr.where(node))
    return [(st, v if numeric(v) else op("typed", "float",
                                         op("float", v)))]


def b_chr(it, st, args, kwargs, fr, node):
    return [(st, op("typed", "str", op("chr", args[0])))]


def b_ord(it, st, args, kwargs, fr, node):
    return [(st, op("ord", args[0]))]


def b_urandom(it, st, args, kwargs, fr, node):
    v = sym(it.fresh("urandom"), "bytes")
    it.event(st, "extret", fr, node, "os.urandom", v)
    st.assume(mk_eq(mk_len(v), args[0]), True)
    return [(st, v)]


def x_enum(it, st, args, kwargs, fr, node):
    """The functional way to define an enumeration."""
    if args and args[0][0] == "c" and isinstance(args[0][2], str):
        return [(st, ("ext", "enumeration." + args[0][2]))]
    return [(st, sym(it.fresh("enum"), "any"))]


SIZES = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}


def fields(fmt):
    """[(octets, signed)] of a big-endian struct format, or None."""
    if fmt[0] != "c" or not isinstance(fmt[2], str) or fmt[2][:1] not in "!>":
        return None
    out = []
    for ch in fmt[2][1:]:
        if ch.upper() not in SIZES:
            return None
        out.append((SIZES[ch.upper()], ch.islower()))
    return out


def b_pack(it, st, args, kwargs, fr, node):
    fs = fields(args[0])
    if fs is None or len(fs) != len(args) - 1:
        return [(st, sym(it.fresh("pack"), "bytes"))]
    acc = [(st, [])]
    for (n, signed), v in zip(fs, args[1:]):
        acc = it.seq(acc, lambda s, ps, n=n, signed=signed, v=v: [
            (s2, Exc("struct.error", None, x.where) if isinstance(x, Exc)
             else ps + [x])
            for s2, x in call_extm(
                it, s, it.num(s, v), "to_bytes", [const(n), const("big")],
                {"signed": TRUE if signed else FALSE}, fr, node)])
    return it.seq(acc, lambda s, ps: [(s, mk_cat(ps))])


def b_unpack(it, st, args, kwargs, fr, node):
    fs = fields(args[0])
    if fs is None:
        return [(st, sym(it.fresh("unpack"), "any"))]

    def go(s, data):
        out = []
        total = const(sum(n for n, _ in fs))
        for s2, t in it.eqv(mk_len(data), total, s, fr, node):
            for s3, same in it.truth(s2, t, fr, node):
                if not same:
                    out += it.exc(s3, "struct.error", fr.where(node))
                    continue
                acc, at = [(s3, [])], 0
                for n, signed in fs:
                    acc = it.seq(acc, lambda a, vs, at=at, n=n, signed=signed:
                                 it.seq(it.getitem(
                                     a, data, ("slice", const(at),
                                               const(at + n), NONE), fr,
                                     node), lambda b, part: it.seq(
                                         b_frombytes(
                                             it, b, [part, const("big")],
                                             {"signed": TRUE if signed
                                              else FALSE}, fr, node),
                                         lambda c, v: [(c, vs + [v])])))
                    at += n
                out += it.seq(acc, lambda a, vs: [(a, ("tup", tuple(vs)))])
        return out
    return it.seq(b_bytes(it, st, [args[1]], {}, fr, node), go)


def b_issubclass(it, st, args, kwargs, fr, node):
    ts = args[1][1] if args[1][0] == "tup" else (args[1],)
    if args[0][0] == "cls" and all(t[0] in ("cls", "ext") for t in ts):
        c = it.prog.classes[args[0][1]]
        mro = {x.qual for x in c.mro}
        ext = {b.split(".")[-1] for b in c.ext_bases}
        return [(st, TRUE if any(
            t[1] in mro if t[0] == "cls" else
            t[1].split(".")[-1] in ext | {"object"} for t in ts) else FALSE)]
    return [(st, op("truth", op("issubclass", *args)))]


def b_pow(it, st, args, kwargs, fr, node):
    if len(args) == 2:
        return it.binop(ast.Pow(), args[0], args[1], st, fr, node)
    return [(st, op("pow", *args))]


TABLE = {
    "enum.Enum": x_enum,
    "builtins.isinstance": b_isinstance, "builtins.len": b_len,
    "builtins.min": minmax("min"), "builtins.max": minmax("max"),
    "builtins.int": b_int, "builtins.bytes": b_bytes,
    "builtins.bytearray": b_bytearray, "builtins.str": b_str,
    "builtins.bool": b_bool, "builtins.type": b_type,
    "builtins.range": b_range, "builtins.slice": b_slice, "typing.cast": b_cast,
    "weakref.ref": b_weakref, "weakref.proxy": b_proxy,
    "builtins.list": container("list"), "builtins.dict": container("dict"),
    "builtins.set": container("set"),
    "builtins.frozenset": container("set"),
    "collections.deque": container("list"),
    "collections.OrderedDict": container("dict"),
    "collections.defaultdict": b_defaultdict,
    "weakref.WeakValueDictionary": container("dict"),
    "builtins.tuple": b_tuple, "builtins.iter": b_iter,
    "builtins.next": b_next, "builtins.map": b_map, "builtins.zip": b_zip,
    "builtins.enumerate": b_enumerate, "builtins.reversed": b_reversed,
    "builtins.any": quant("any"), "builtins.all": quant("all"),
    "builtins.sum": b_sum, "builtins.divmod": b_divmod,
    "builtins.abs": b_abs, "builtins.getattr": b_getattr,
    "builtins.hasattr": b_hasattr, "builtins.setattr": b_setattr,
    "builtins.int.from_bytes": b_frombytes, "time.time": b_time,
    "math.ceil": b_ceil, "math.floor": b_floor, "hmac.compare_digest": b_compare_digest,
    "hmac.new": b_hmac, "hmac.digest": b_hmac_digest,
    "hashlib.new": hash_new(None),
    "hashlib.md5": hash_new("hashlib.md5"),
    "hashlib.sha1": hash_new("hashlib.sha1"),
    "hashlib.sha224": hash_new("hashlib.sha224"),
    "hashlib.sha256": hash_new("hashlib.sha256"),
    "hashlib.sha384": hash_new("hashlib.sha384"),
    "hashlib.sha512": hash_new("hashlib.sha512"),
    "heapq.heappush": heap_op("heappush"),
    "heapq.heappop": heap_op("heappop"),
    "heapq.heapreplace": heap_op("heapreplace"),
    "heapq.heapify": heap_op("heapify"),
    "heapq.heappushpop": heap_op("heappushpop"),
    "struct.pack": b_pack, "struct.unpack": b_unpack,
    "builtins.issubclass": b_issubclass, "builtins.pow": b_pow,
    "builtins.sorted": b_sorted, "builtins.repr": b_repr,
    "builtins.print": b_print, "builtins.hash": b_hash,
    "builtins.id": b_id, "builtins.vars": b_vars, "builtins.callable": b_callable,
    "builtins.object": b_object, "builtins.super": b_super,
    "builtins.float": b_float, "builtins.chr": b_chr,
    "builtins.ord": b_ord, "os.urandom": b_urandom,
}


# -- methods of external and container values --------------------------------

COMPARISONS = {"__eq__": ast.Eq, "__ne__": ast.NotEq, "__lt__": ast.Lt,
               "__le__": ast.LtE, "__gt__": ast.Gt, "__ge__": ast.GtE}


def operator_method(it, st, recv, name, args, fr, node):
    """A method that stands for an operator, called by its name on a builtin
    value; None if it is another one."""
    if name == "__getitem__" and len(args) == 1:
        return it.getitem(st, recv, args[0], fr, node)
    if name == "__contains__" and len(args) == 1:
        return it.contains(st, recv, args[0], fr, node)
    if name == "__hash__" and not args:
        return b_hash(it, st, [recv], {}, fr, node)
    if name == "__len__" and not args:
        return b_len(it, st, [recv], {}, fr, node)
    if name == "__iter__" and not args:
        return b_iter(it, st, [recv], {}, fr, node)
    if name in COMPARISONS and len(args) == 1 and (
            tyof(recv) == tyof(args[0]) or recv[0] == args[0][0] == "tup"):
        return it.compare(COMPARISONS[name](), recv, args[0], st, fr, node)
    return None


def call_extm(it, st, recv, name, args, kwargs, fr, node):
    k = recv[0]
    if name[:2] == "__" and not kwargs and (
            k == "tup" or tyof(recv) in ("bytes", "str", "int", "bool")):
        r = operator_method(it, st, recv, name, args, fr, node)
        if r is not None:
            return r
    if k == "obj":
        o = st.obj(recv)
        if o.kind in ("list", "set", "dict"):
            return container_method(it, st, recv, o, name, args, kwargs, fr,
                                    node)
        if o.kind == "bytearray":
            return bytearray_method(it, st, recv, o, name, args, fr, node)
        if o.kind == "ext":
            return ext_method(it, st, recv, o, name, args, kwargs, fr, node)
        if o.kind == "iter":
            if name == "__next__":
                return b_next(it, st, [recv], {}, fr, node)
            if name == "__iter__":
                return [(st, recv)]
        if o.kind == "inst":
            # a method of an external base class
            if name == "__init__":
                o = st.mut(recv)
                if args:
                    o.attrs["args"] = ("tup", tuple(args))
                return [(st, NONE)]
            if name in ("__class_getitem__",):
                return [(st, recv)]
    if k == "super":
        if name == "__init__" and recv[2][0] == "obj":
            o = st.mut(recv[2])
            o.attrs["args"] = ("tup", tuple(args))
            return [(st, NONE)]
        if name == "__init_subclass__":
            return [(st, NONE)]
        if name == "__eq__":
            return [(st, ("ext", "builtins.NotImplemented"))]
        it.event(st, "extm", fr, node, recv, name, tuple(args))
        return [(st, sym(it.fresh(name), "any"))]
    t = tyof(recv)
    if t == "bytes":
        return bytes_method(it, st, recv, name, args, kwargs, fr, node)
    if t == "str":
        return str_method(it, st, recv, name, args, kwargs, fr, node)
    if t in ("int", "bool", "enum") or k == "lin":
        v = it.num(st, recv)
        if name == "to_bytes":
            n = args[0] if args else kwargs.get("length", const(1))
            order = args[1] if len(args) > 1 else kwargs.get(
                "byteorder", const("big"))
            signed = kwargs.get("signed", FALSE)
            if is_const(v) and is_const(n) and is_const(order) \
                    and is_const(signed):
                try:
                    return [(st, const(v[2].to_bytes(
                        n[2], order[2], signed=signed[2])))]
                except OverflowError:
                    return it.exc(st, "builtins.OverflowError",
                                  fr.where(node))
            return int_to_bytes(it, st, v, n, signed, order, fr, node)
        if name == "bit_length":
            if is_const(v):
                return [(st, const(v[2].bit_length()))]
            lo, hi = lin_range(v)
            if lo >= 0 and hi != float("inf") and \
                    int(lo).bit_length() == int(hi).bit_length():
                return [(st, const(int(lo).bit_length()))]
            return [(st, op("bitlen", v))]
    if recv == NONE:
        return it.exc(st, "builtins.AttributeError", fr.where(node))
    it.event(st, "extm", fr, node, recv, name, tuple(args),
             tuple(sorted(kwargs.items())))
    return [(st, sym(it.fresh(name), "any"))]


def int_to_bytes(it, st, v, n, signed, order, fr, node):
    out = []
    r = op("tobytes", v, n) if order == const("big") and signed == FALSE \
        else op("tobytes", v, n, signed, order)
    if is_const(n) and is_const(signed):
        bits = 8 * n[2]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed[2] \
            else (0, (1 << bits) - 1)
        for s, b in it.split(st, op("lt", sub(v, const(lo)))):
            if b:
                out += it.exc(s, "builtins.OverflowError", fr.where(node))
                continue
            for s2, b2 in it.split(s, op("lt", sub(const(hi), v))):
                if b2:
                    out += it.exc(s2, "builtins.OverflowError",
                                  fr.where(node))
                else:
                    out.append((s2, r))
        return out
    fits = op("fits", v, n, signed)
    for s, b in it.split(st, op("truth", fits)):
        if b:
            out.append((s, r))
        else:
            out += it.exc(s, "builtins.OverflowError", fr.where(node))
    return out


def container_method(it, st, recv, o, name, args, kwargs, fr, node):
    it.event(st, "mutate" if name in MUTATORS else "use", fr, node, recv,
             name, tuple(args))
    if o.kind == "dict":
        return dict_method(it, st, recv, o, name, args, kwargs, fr, node)
    if name in ("append", "add", "appendleft", "insert"):
        x = args[1] if name == "insert" else args[0]
        o = st.mut(recv)
        if name == "add" and x in o.items:
            return [(st, NONE)]
        if name == "appendleft" or (name == "insert" and args[0] == ZERO):
            o.items = (x,) + o.items
        elif name == "insert" and o.base is None and is_const(args[0]):
            l = list(o.items)
            l.insert(args[0][2], x)
            o.items = tuple(l)
        else:
            o.items = o.items + (x,)
        return [(st, NONE)]
    if name in ("extend", "update", "extendleft"):
        def go(s, items):
            o = s.mut(recv)
            if items is None:
                if o.base is None:
                    o.types = (frozenset(), frozenset())
                o.base = it.fresh("extended")
                o.ver += 1
                o.attrs["extended"] = args[0]
            else:
                o.items = o.items + tuple(items)
            return [(s, NONE)]
        return it.seq(it.iter_items(st, args[0], fr, node), go)
    if name in ("pop", "popleft"):
        out = []
        last = name == "pop" and not args
        for s, ne in it.container_truth(st, recv):
            if not ne:
                out += it.exc(s, "builtins.KeyError" if o.kind == "set"
                              else "builtins.IndexError", fr.where(node))
                continue
            oo = s.mut(recv)
            if oo.base is None and oo.kind == "list" and (
                    last or name == "popleft"
                    or is_const(args[0])):
                l = list(oo.items)
                i = -1 if last else 0 if name == "popleft" else args[0][2]
                try:
                    v = l.pop(i)
                except IndexError:
                    out += it.exc(s, "builtins.IndexError", fr.where(node))
                    continue
                oo.items = tuple(l)
                out.append((s, v))
                continue
            if oo.items and (last and oo.kind == "list"):
                v = oo.items[-1]
                oo.items = oo.items[:-1]
                out.append((s, v))
                continue
            if oo.base is None and oo.kind == "set":
                # any of the elements
                items = oo.items
                if it.one_set_order and items:
                    oo.items = items[:-1]
                    out.append((s, items[-1]))
                    continue
                for i, v in enumerate(items):
                    s2 = s if i == len(items) - 1 else s.fork()
                    o2 = s2.mut(recv)
                    o2.items = items[:i] + items[i + 1:]
                    out.append((s2, v))
                continue
            # any element: an old one, or one of those known
            known = oo.items
            for i, v in enumerate(known):
                s2 = s.fork()
                o2 = s2.mut(recv)
                o2.items = known[:i] + known[i + 1:]
                out.append((s2, v))
            oo.ver += 1
            out += it.materialize(
                s, ("k", "pop", oo.base, oo.ver),
                (oo.types or (0, frozenset()))[1])
        return out
    if name == "clear":
        o = st.mut(recv)
        o.items = ()
        o.base = None
        o.ver += 1
        return [(st, NONE)]
    if name == "copy":
        c = o.copy()
        c.name = None
        return [(st, it.new(st, c))]
    if name in ("remove", "discard"):
        o = st.mut(recv)
        if args[0] in o.items:
            i = o.items.index(args[0])
            o.items = o.items[:i] + o.items[i + 1:]
            return [(st, NONE)]
        o.ver += 1
        s2 = st.fork()
        out = [(st, NONE)]
        if name == "remove":
            out += it.exc(s2, "builtins.ValueError" if o.kind == "list"
                          else "builtins.KeyError", fr.where(node))
        return out
    if name in ("reverse", "sort"):
        o = st.mut(recv)
        if o.base is None and name == "reverse":
            o.items = tuple(reversed(o.items))
        elif o.base is None:
            res = in_order(it, st, list(o.items), kwargs, fr, node)
            if res is None:
                o.base = it.fresh("sorted")
                o.types = (frozenset(), frozenset())
                o.items = ()
                return [(st, NONE)]

            def done(s, ys):
                s.mut(recv).items = tuple(ys)
                return [(s, NONE)]
            return it.seq(res, done)
        elif o.base is not None:
            o.ver += 1
        return [(st, NONE)]
    if name == "__iter__":
        return b_iter(it, st, [recv], {}, fr, node)
    if name == "index":
        s2 = st.fork()
        return it.exc(s2, "builtins.ValueError", fr.where(node)) + [
            (st, sym(it.fresh("index"), "int"))]
    if name == "count":
        return [(st, sym(it.fresh("count"), "int"))]
    return [(st, sym(it.fresh(name), "any"))]


MUTATORS = {"append", "appendleft", "add", "extend", "insert", "pop",
            "popleft", "popitem", "remove", "discard", "clear", "update",
            "setdefault", "sort", "reverse", "extendleft"}


def dict_method(it, st, recv, o, name, args, kwargs, fr, node):
    if name == "get":
        d = args[1] if len(args) > 1 else NONE
        return it.seq(it.lookup(st, recv, args[0], fr, node),
                      lambda s, v: [(s, d if v == ("missing",) else v)])
    if name == "pop":
        def go(s, v):
            if v == ("missing",):
                if len(args) > 1:
                    return [(s, args[1])]
                return it.exc(s, "builtins.KeyError", fr.where(node))
            it.dict_delete(s, recv, args[0], fr, node)
            return [(s, v)]
        return it.seq(it.lookup(st, recv, args[0], fr, node), go)
    if name == "setdefault":
        d = args[1] if len(args) > 1 else NONE

        def go(s, v):
            if v == ("missing",):
                return it.seq(it.setitem(s, recv, args[0], d, fr, node),
                              lambda s2, _: [(s2, d)])
            return [(s, v)]
        return it.seq(it.lookup(st, recv, args[0], fr, node), go)
    if name in ("items", "keys", "values"):
        n = Obj("list")
        if o.base is None:
            live = [(k, v) for k, v in o.items if v is not None]
            n.items = tuple(
                ("tup", (k, v)) if name == "items" else
                k if name == "keys" else v for k, v in live)
        else:
            kt, et = o.types or (frozenset(), frozenset())
            n.base = ("k", name, o.base, o.ver)
            n.types = (frozenset(), frozenset([("tuple", (kt, et))])
                       if name == "items" else kt if name == "keys" else et)
        return [(st, it.new(st, n))]
    if name == "clear":
        o = st.mut(recv)
        o.items = ()
        o.base = None
        return [(st, NONE)]
    if name == "copy":
        c = o.copy()
        c.name = None
        return [(st, it.new(st, c))]
    if name == "update":
        src = args[0] if args else None
        m = st.mut(recv)
        if src is not None and src[0] == "obj" and st.obj(src).kind == \
                "dict" and st.obj(src).base is None:
            new = st.obj(src).items
            keys = {k for k, _ in new}
            m.items = tuple(i for i in m.items if i[0] not in keys) + new
        elif src is not None:
            m.base = it.fresh("updated")
            m.ver += 1
        for k, v in kwargs.items():
            if k != "**":
                m.items = m.items + ((const(k), v),)
        return [(st, NONE)]
    if name == "popitem":
        m = st.mut(recv)
        m.ver += 1
        return [(st, sym(it.fresh("popitem"), "any"))]
    return [(st, sym(it.fresh(name), "any"))]


def parts_of(data):
    return data[2:] if data[:2] == ("op", "cat") else (data,)


def bytearray_method(it, st, recv, o, name, args, fr, node):
    data = o.attrs["data"]
    if name == "append":
        def go(s, ps):
            s.mut(recv).attrs["data"] = mk_cat([data] + list(ps))
            return [(s, NONE)]
        return it.seq(byte_of(it, st, (), args[0], fr, node), go)
    if name == "extend":
        def go(s, v):
            s.mut(recv).attrs["data"] = mk_cat([data, v])
            return [(s, NONE)]
        return it.seq(b_bytes(it, st, args, {}, fr, node), go)
    if name == "reverse" and all(
            p[0] == "c" or p[:2] == ("op", "tobytes") and p[3] == const(1)
            for p in parts_of(data)):
        st.mut(recv).attrs["data"] = mk_cat([
            const(p[2][::-1]) if p[0] == "c" else p
            for p in reversed(parts_of(data))])
        return [(st, NONE)]
    if name == "reverse":
        st.mut(recv).attrs["data"] = op("typed", "bytes",
                                        op("reversed", data))
        return [(st, NONE)]
    if name == "insert":
        def go(s, ps):
            if args[0] == ZERO:
                s.mut(recv).attrs["data"] = mk_cat(list(ps) + [data])
            else:
                s.mut(recv).attrs["data"] = op("typed", "bytes", op(
                    "ins", data, args[0], args[1]))
            return [(s, NONE)]
        return it.seq(byte_of(it, st, (), args[1], fr, node), go)
    if name == "pop":
        s2 = st.fork()
        st.mut(recv).attrs["data"] = op("typed", "bytes", op("popped", data))
        return it.exc(s2, "builtins.IndexError", fr.where(node)) + [
            (st, ("s", it.fresh("pop"), "int", (0, 255)))]
    return bytes_method(it, st, data, name, args, {}, fr, node)


def bytes_method(it, st, recv, name, args, kwargs, fr, node):
    if name == "decode":
        out = []
        if recv[0] == "c":
            try:
                return [(st, const(recv[2].decode()))]
            except UnicodeDecodeError:
                return it.exc(st, "builtins.UnicodeDecodeError",
                              fr.where(node))
        if recv[0] == "op" and recv[1] == "encode":
            return [(st, recv[2])]
        for s, b in it.split(st, op("truth", op("utf8", recv))):
            if b:
                out.append((s, op("decode", recv)))
            else:
                out += it.exc(s, "builtins.UnicodeDecodeError",
                              fr.where(node))
        return out
    if name == "join":
        def go(s, items):
            if items is None:
                return [(s, op("typed", "bytes", op("join", recv, args[0],
                                                    it.fresh("join"))))]
            if not items:
                return [(s, const(b""))]
            parts = []
            for i, x in enumerate(items):
                if i and recv != const(b""):
                    parts.append(recv)
                if x[0] == "obj" and s.obj(x).kind == "bytearray":
                    x = s.obj(x).attrs["data"]
                parts.append(x)
            return [(s, mk_cat(parts))]
        return it.seq(it.iter_items(st, args[0], fr, node), go)
    if name in ("startswith", "endswith") and len(args) == 1 \
            and tyof(args[0]) == "bytes":
        n = mk_len(args[0])
        if name == "startswith":
            cut = ("slice", NONE, n, NONE)
        elif is_const(n) and n[2]:
            cut = ("slice", scale(n, -1), NONE, NONE)
        else:
            cut = None
        if cut is not None:
            return it.seq(it.getitem(st, recv, cut, fr, node),
                          lambda s, v: it.eqv(v, args[0], s, fr, node))
    if name in ("startswith", "endswith"):
        return [(st, op("truth", op(name, recv, *args)))]
    if name in ("ljust", "rjust", "strip", "replace", "lstrip", "rstrip"):
        return [(st, op("typed", "bytes", op(name, recv, *args)))]
    if name == "hex":
        return [(st, op("typed", "str", op("hex", recv)))]
    if name in ("find", "index", "count"):
        return [(st, sym(it.fresh(name), "int"))]
    it.event(st, "extm", fr, node, recv, name, tuple(args))
    return [(st, sym(it.fresh(name), "any"))]


def str_method(it, st, recv, name, args, kwargs, fr, node):
    if name == "encode":
        if recv[0] == "c":
            return [(st, const(recv[2].encode()))]
        if recv[0] == "op" and recv[1] == "decode":
            return [(st, recv[2])]
        return [(st, op("typed", "bytes", op("encode", recv)))]
    if name in ("join", "format"):
        return [(st, op("fstr", recv, *[a for a in args]))]
    if name in ("split", "rsplit"):
        o = Obj("list")
        if all(x[0] == "c" for x in [recv] + list(args)):
            o.items = tuple(const(x) for x in getattr(recv[2], name)(
                *[a[2] for a in args]))
            return [(st, it.new(st, o))]
        o.base = ("k", "split", recv, tuple(args))
        o.types = (frozenset(), frozenset([("str",)]))
        return [(st, it.new(st, o))]
    if name in ("startswith", "endswith", "isdigit"):
        return [(st, op("truth", op(name, recv, *args)))]
    if name in ("find", "count"):
        return [(st, sym(it.fresh(name), "int"))]
    return [(st, op("typed", "str", op(name, recv, *args)))]


def ext_method(it, st, recv, o, name, args, kwargs, fr, node):
    cls = o.attrs.get("class")
    h = it.extmodels.get(f"{cls}.{name}")
    if h is not None:
        return h(it, st, [recv] + list(args), kwargs, fr, node)
    if cls in LOCK_TYPES:
        if name == "acquire":
            out = []
            for s in it.others(st, recv, fr, node):
                it.acquire(s, recv, fr, node)
                out.append((s, TRUE))
            return out
        if name == "release":
            it.release(st, recv, fr, node)
            return [(st, NONE)]
    if cls == "hmac" or cls == "hash":
        if name == "update":
            st.mut(recv).attrs["data"] = mk_cat([o.attrs["data"], args[0]])
            return [(st, NONE)]
        if name == "digest":
            if cls == "hmac":
                return [(st, op("hmac", o.attrs["key"], o.attrs["data"],
                                o.attrs["alg"]))]
            return [(st, op("hash.digest", o.attrs["data"],
                            o.attrs["alg"]))]
        if name == "copy":
            return [(st, it.new(st, o.copy()))]
    if cls == "threading.Event":
        it.event(st, "extm", fr, node, recv, name, tuple(args),
                 tuple(sorted(kwargs.items())))
        if name == "set":
            st.mut(recv).attrs["flag"] = TRUE
            return [(st, NONE)]
        if name == "is_set" or name == "isSet":
            f = o.attrs.get("flag")
            if f is None:
                f = op("truth", op("flag", o.name or recv))
                st.mut(recv).attrs["flag"] = f
            return [(st, f)]
        if name == "wait":
            f = o.attrs.get("flag")
            if f == TRUE:
                return [(st, TRUE)]
            # another thread may set it while this one waits
            s2 = st.fork()
            s2.mut(recv).attrs["flag"] = TRUE
            it.event(s2, "woken", fr, node, recv)
            out = [(s2, TRUE)]
            if f is None:
                if not st.assume(op("truth", op("flag", o.name or recv)),
                                 False):
                    return out
            st.mut(recv).attrs["flag"] = FALSE
            out.append((st, FALSE))
            out += it.exc(st.fork(), "builtins.KeyboardInterrupt",
                          fr.where(node))
            return out
    it.event(st, "extm", fr, node, recv, name, tuple(args),
             tuple(sorted(kwargs.items())))
    out = []
    if cls == "socket.socket":
        out += it.exc(st.fork(), "builtins.OSError", fr.where(node))
        if name == "recvfrom":
            return out + [(st, ("tup", (sym(it.fresh("data"), "bytes"),
                                        sym(it.fresh("addr"), "any"))))]
    if name == "fileno":
        return out + [(st, sym(it.fresh("fileno"), "int"))]
    return out + [(st, sym(it.fresh(f"{cls}.{name}"), "any"))]
