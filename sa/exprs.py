"""Expression evaluation of the path analysis."""

import ast

from .paths import Exc, Fr, Interp, eval_const, fold
from .program import AnalysisError, Func
from .state import *
from .terms import *

BINM = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__",
        ast.BitOr: "__or__", ast.BitAnd: "__and__", ast.BitXor: "__xor__",
        ast.LShift: "__lshift__", ast.RShift: "__rshift__",
        ast.FloorDiv: "__floordiv__", ast.Mod: "__mod__",
        ast.Div: "__truediv__", ast.Pow: "__pow__"}
SYMB = {ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<",
        ast.RShift: ">>", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
        ast.Div: "/", ast.Mult: "*"}
CMPM = {ast.Lt: ("__lt__", "__gt__"), ast.Gt: ("__gt__", "__lt__"),
        ast.LtE: ("__le__", "__ge__"), ast.GtE: ("__ge__", "__le__")}
NOTIMPL = ("ext", "builtins.NotImplemented")


def mk_not(t):
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    if t[0] == "op" and t[1] == "not":
        return t[2]
    return op("not", t)


def ground(st, v):
    """A value object all of whose content is known, as a Python value."""
    if v[0] == "c" or v[0] == "enum":
        return v
    if v[0] == "tup":
        xs = tuple(ground(st, x) for x in v[1])
        return None if None in xs else ("tup", xs)
    if v[0] == "obj":
        o = st.obj(v)
        if o.kind != "inst" or o.sym or len(o.cls) != 1 or not o.attrs:
            return None
        xs = tuple((n, ground(st, x)) for n, x in sorted(o.attrs.items()))
        return None if any(x is None for _, x in xs) else (
            sorted(o.cls)[0], xs)
    return None


def by_bits(t, st):
    """Turn a bound on the number of bits of t into a bound on t."""
    c, d = lin_parts(t[2])
    if len(d) != 1:
        return t
    (a, k), = d.items()
    if a[:2] != ("op", "bitlen") or k not in (1, -1) \
            or not isinstance(c, int):
        return t
    x = a[2]
    if not st.holds(op("le", scale(x, -1))):
        if not st.holds(op("le", x)):
            return t
        x = scale(x, -1)
    strict = t[1] == "lt"
    if k == 1:                      # bitlen(x) <= n
        n = -c - 1 if strict else -c
        return FALSE if n < 0 else op("lt", sub(x, const(1 << n)))
    n = c + 1 if strict else c      # bitlen(x) >= n
    return TRUE if n <= 0 else op("le", sub(const(1 << (n - 1)), x))


def octet_terms(v):
    """The octets of a short byte string, if each of them is known."""
    if v[0] == "c":
        return tuple(const(x) for x in v[2]) if isinstance(
            v[2], bytes) and len(v[2]) <= 32 else None
    if v[0] != "op" or v[1] not in ("cat", "tobytes"):
        return None
    if v[1] == "tobytes":
        return (v[2],) if v[3:] == (const(1),) else None
    out = ()
    for x in v[2:]:
        o = octet_terms(x)
        if o is None:
            return None
        out += o
    return out if len(out) <= 32 else None


class Engine(Interp):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.opaque_eq = {"snmp.asn1.ASN1"}
        self.closures = {}
        self.captured = set()
        self.stack = []
        self.local_types = {}

    def ev(self, e, st, fr):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError(
                f"unsupported expression {type(e).__name__} at {fr.where(e)}")
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return [(st, ("ext", "builtins.Ellipsis"))]
        return [(st, const(e.value))]

    def e_Name(self, e, st, fr):
        return self.name(st, e.id, fr, e)

    def e_Attribute(self, e, st, fr):
        return self.seq(self.ev(e.value, st, fr),
                        lambda s, b: self.getattr(s, b, e.attr, fr, e))

    def e_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" \
                and not e.args and fr.func is not None:
            f = fr
            while f.parent is not None and f.selfname is None:
                f = f.parent
            recv = st.env[(f.id, f.selfname)]
            return [(st, ("super", f.func.cls.qual, recv))]

        def go(s, fn):
            return self.seq(self.call_args(e, s, fr), lambda a, ak: self.call(
                a, fn, ak[0], ak[1], fr, e))
        return self.seq(self.ev(e.func, st, fr), go)

    def call_args(self, e, st, fr):
        acc = [(st, ((), {}))]
        for a in e.args:
            if isinstance(a, ast.Starred):
                def star(s, ak, a=a):
                    def items(s2, v):
                        def add_(s3, its):
                            if its is None:
                                its = [("star", v)]
                            return [(s3, (ak[0] + tuple(its), ak[1]))]
                        return self.seq(self.iter_items(s2, v, fr, a), add_)
                    return self.seq(self.ev(a.value, s, fr), items)
                acc = self.seq(acc, star)
            else:
                acc = self.seq(acc, lambda s, ak, a=a: self.seq(
                    self.ev(a, s, fr),
                    lambda s2, v: [(s2, (ak[0] + (v,), ak[1]))]))
        for kw in e.keywords:
            def one(s, ak, kw=kw):
                def put(s2, v):
                    d = dict(ak[1])
                    if kw.arg is not None:
                        d[kw.arg] = v
                    elif v[0] == "obj" and s2.obj(v).kind == "dict":
                        o = s2.obj(v)
                        for k, x in o.items:
                            if is_const(k) and x is not None:
                                d[k[2]] = x
                        if o.base is not None:
                            d["**"] = o.base
                    else:
                        d["**"] = v
                    return [(s2, (ak[0], d))]
                return self.seq(self.ev(kw.value, s, fr), put)
            acc = self.seq(acc, one)
        return acc

    # -- operators --------------------------------------------------------

    def e_BinOp(self, e, st, fr):
        return self.seq(self.evs([e.left, e.right], st, fr),
                        lambda s, ab: self.binop(e.op, ab[0], ab[1], s, fr, e))

    def num(self, st, t):
        """A numeric view of a term (enum members are their values)."""
        if t[0] == "enum" and isinstance(t[3], (int, float)):
            return const(t[3])
        if t == TRUE or t == FALSE:
            return const(int(t[2]))
        return t

    def binop(self, o, a, b, st, fr, node, inplace=False):
        k = type(o)
        if a[0] == "c" and b[0] == "c":
            try:
                return [(st, const(fold(k, a[2], b[2])))]
            except ValueError:
                if k in (ast.FloorDiv, ast.Mod, ast.Div) and b[2] == 0:
                    return self.exc(st, "builtins.ZeroDivisionError",
                                    fr.where(node))
        if a[0] == "obj" or b[0] == "obj":
            r = self.binop_obj(k, a, b, st, fr, node, inplace)
            if r is not None:
                return r
        if a[0] == "tup" and b[0] == "tup" and k is ast.Add:
            return [(st, ("tup", a[1] + b[1]))]
        ta, tb = tyof(a), tyof(b)
        if k is ast.Add and (ta in ("bytes", "str") or tb in (
                "bytes", "str")):
            if ta == "str" or tb == "str":
                if a[0] == "c" and a[2] == "":
                    return [(st, b)]
                return [(st, op("fstr", a, b))]
            return [(st, mk_cat([a, b]))]
        if k is ast.Mult and ("bytes" in (ta, tb)):
            x, n = (a, b) if ta == "bytes" else (b, a)
            return [(st, op("bytes.mul", x, n))]
        if k is ast.Mod and ta == "str":
            return [(st, op("fstr", a, b))]
        a, b = self.num(st, a), self.num(st, b)
        if numeric(a) and numeric(b):
            if k in (ast.FloorDiv, ast.Mod, ast.Div) and not is_const(b):
                out = []
                for s, z in self.split(st, mk_eq(b, ZERO)):
                    if z:
                        out += self.exc(s, "builtins.ZeroDivisionError",
                                        fr.where(node))
                        continue
                    r = self.arith(k, a, b, s)
                    if k is ast.Mod and r[:2] == ("op", "%"):
                        if s.holds(op("lt", scale(b, -1))):
                            s.fact(op("le", scale(r, -1)))
                            s.fact(op("lt", sub(r, b)))
                    if k is ast.FloorDiv and s.holds(
                            op("lt", scale(b, -1))) and s.holds(
                            op("le", scale(a, -1))):
                        s.fact(op("le", scale(r, -1)))
                    out.append((s, r))
                return out
            return [(st, self.arith(k, a, b, st))]
        if a == NONE or b == NONE:
            return self.exc(st, "builtins.TypeError", fr.where(node))
        return [(st, op("bin" + SYMB.get(k, k.__name__), a, b))]

    def arith(self, k, a, b, st):
        a, b = st.canon(a), st.canon(b)
        if k is ast.Add:
            return add(a, b)
        if k is ast.Sub:
            return sub(a, b)
        if k is ast.Mult:
            if is_const(a):
                return scale(b, a[2])
            if is_const(b):
                return scale(a, b[2])
        if k is ast.LShift and is_const(b) and 0 <= b[2] <= 512:
            return scale(a, 1 << b[2])
        if k is ast.Div and is_const(b) and b[2]:
            pass
        if k is ast.BitOr or k is ast.BitXor or k is ast.Add:
            for x, y in ((a, b), (b, a)):
                if y == ZERO:
                    return x
                m = self.multiple_of(x)
                if m > 1 and st.holds(op("le", scale(y, -1))) and st.holds(
                        op("lt", sub(y, const(m)))):
                    return add(x, y)
            r = self.set_bits(k, a, b, st)
            if r is not None:
                return r
        if k is ast.BitAnd:
            for x, y in ((a, b), (b, a)):
                if is_const(y) and y[2] >= 0:
                    m = y[2]
                    if m == 0:
                        return ZERO
                    if (m & (m + 1)) == 0 and st.holds(
                            op("le", scale(x, -1))) and st.holds(
                            op("le", sub(x, const(m)))):
                        return x
                    r = self.masked(x, m, st)
                    if r is not None:
                        return r
            if is_const(a):
                a, b = b, a
        if k in (ast.FloorDiv, ast.Mod, ast.RShift) and is_const(b) \
                and 0 < b[2] < (512 if k is ast.RShift else 1 << 512) \
                and isinstance(b[2], int):
            m = 1 << b[2] if k is ast.RShift else b[2]
            r = self.cut_at(a, m, st)
            if r is not None:
                return r[1] if k is ast.Mod else r[0]
        if k is ast.Mod and is_const(b) and b[2] > 0:
            if st.holds(op("le", scale(a, -1))) and st.holds(
                    op("lt", sub(a, b))):
                return a
            if (b[2] & (b[2] - 1)) == 0 and tyof(a) == "int":
                return op("&", a, const(b[2] - 1))
        if k is ast.FloorDiv and is_const(b) and b[2] > 0 and \
                (b[2] & (b[2] - 1)) == 0 and tyof(a) == "int":
            return op(">>", a, const(b[2].bit_length() - 1))
        if k is ast.RShift and b == ZERO:
            return a
        if k in (ast.BitOr, ast.BitXor, ast.Mult):
            if skey(b) < skey(a):
                a, b = b, a
        n = SYMB[k]
        if n in ("*", "/", "**"):
            ty = "int" if tyof(a) == tyof(b) == "int" and n != "/" \
                else "float"
            return op("typed", ty, op(n, a, b))
        return op(n, a, b)

    def cut_at(self, t, m, st):
        """(t // m, t % m), if t is a multiple of m plus something that is
        known to be less than m; else None."""
        if tyof(t) != "int" and t[0] != "lin":
            return None
        c, d = lin_parts(t)
        if not all(isinstance(x, int) for x in [c] + list(d.values())):
            return None
        low = {a: k for a, k in d.items() if k % m}
        if len(low) == len(d) and d:
            lo, hi = lin_range(t)
            if 0 <= lo and hi < m:
                return ZERO, t
            if st.holds(op("le", scale(t, -1))) \
                    and st.holds(op("lt", sub(t, const(m)))):
                return ZERO, t
        rest = mk_lin(c % m, low)
        lo, hi = lin_range(rest)
        if not (0 <= lo and hi < m) and not (
                st.holds(op("le", scale(rest, -1)))
                and st.holds(op("lt", sub(rest, const(m))))):
            return None
        return mk_lin(c // m, {a: k // m for a, k in d.items()
                               if a not in low}), rest

    def masked(self, t, m, st):
        """t & m for a constant m: the runs of its bits, one by one."""
        out = ZERO
        at = 0
        while m >> at:
            if not (m >> at) & 1:
                at += 1
                continue
            end = at
            while (m >> end) & 1:
                end += 1
            low = self.cut_at(t, 1 << end, st)
            part = self.cut_at(low[1], 1 << at, st) if low else None
            if part is None:
                return None
            out = add(out, scale(part[0], 1 << at))
            at = end
        return out

    def set_bits(self, k, a, b, st):
        """a | b (or a ^ b) for a constant that covers whole runs of bits."""
        if k not in (ast.BitOr, ast.BitXor):
            return None
        for t, y in ((a, b), (b, a)):
            if not is_const(y) or not isinstance(y[2], int) or y[2] < 0 \
                    or is_const(t):
                continue
            have = self.masked(t, y[2], st)
            if have is None:
                continue
            if k is ast.BitOr:
                return add(sub(t, have), y)
            if have == ZERO:
                return add(t, y)
            if have == y:
                return sub(t, y)
        return None

    def multiple_of(self, t):
        c, d = lin_parts(t)
        m = 0
        import math
        for v in [c] + list(d.values()):
            if not isinstance(v, int):
                return 1
            m = math.gcd(m, v)
        if m == 0:
            return 1
        return m & -m

    def binop_obj(self, k, a, b, st, fr, node, inplace):
        n = BINM.get(k)
        if a[0] == "obj":
            o = st.obj(a)
            if o.kind == "inst":
                if inplace and n == "__add__" and self.has(o, "__iadd__"):
                    return self.call_method(st, a, "__iadd__", [b], {}, fr,
                                            node)
                if n and self.has(o, n):
                    return self.call_method(st, a, n, [b], {}, fr, node)
            if o.kind == "list" and k is ast.Add and b[0] in ("obj", "tup"):
                def go(s, items):
                    x = s.obj(a)
                    if inplace:
                        r, t = s.mut(a), a
                    else:
                        r = x.copy()
                        r.name = None
                        t = self.new(s, r)
                    if items is None:
                        r.base = self.fresh("concat")
                        r.types = r.types or (frozenset(), frozenset())
                    else:
                        r.items = r.items + tuple(items)
                    return [(s, t)]
                return self.seq(self.iter_items(st, b, fr, node), go)
            if o.kind == "bytearray" and k is ast.Add:
                bb = st.obj(b).attrs["data"] if b[0] == "obj" and \
                    st.obj(b).kind == "bytearray" else b
                v = mk_cat([o.attrs["data"], bb])
                if inplace:
                    st.mut(a).attrs["data"] = v
                    return [(st, a)]
                x = Obj("bytearray")
                x.attrs["data"] = v
                return [(st, self.new(st, x))]
            if o.kind == "set":
                return [(st, sym(self.fresh("setop"), "any"))]
        if b[0] == "obj":
            o = st.obj(b)
            if o.kind == "inst" and n:
                r = n.replace("__", "__r", 1)
                if self.has(o, r):
                    return self.call_method(st, b, r, [a], {}, fr, node)
            if o.kind == "bytearray" and k is ast.Add:
                return [(st, mk_cat([a, o.attrs["data"]]))]
        return None

    def has(self, o, name):
        return any(self.prog.member(self.prog.classes[q], name) is not None
                   for q in o.cls)

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return self.seq(
                self.ev(e.operand, st, fr),
                lambda s, v: [(s, mk_not(v))] if tyof(v) == "bool"
                and v[0] == "op" else self.seq(
                    self.truth(s, v, fr, e),
                    lambda s2, b: [(s2, FALSE if b else TRUE)]))

        def go(s, v):
            v = self.num(s, v)
            if isinstance(e.op, ast.USub):
                return [(s, scale(v, -1) if numeric(v)
                         else op("neg", v))]
            if isinstance(e.op, ast.UAdd):
                return [(s, v)]
            if numeric(v):
                return [(s, sub(const(-1), v))]
            return [(s, op("invert", v))]
        return self.seq(self.ev(e.operand, st, fr), go)

    def e_BoolOp(self, e, st, fr):
        conj = isinstance(e.op, ast.And)

        def rest(i):
            def go(s, v):
                if i == len(e.values) - 1:
                    return [(s, v)]
                out = []
                for s2, b in self.truth(s, v, fr, e):
                    if isinstance(b, Exc):
                        out.append((s2, b))
                    elif b == conj:
                        out += self.seq(self.ev(e.values[i + 1], s2, fr),
                                        rest(i + 1))
                    else:
                        r = v
                        if tyof(v) == "bool":
                            r = FALSE if conj else TRUE
                        out.append((s2, r))
                return out
            return go
        return self.seq(self.ev(e.values[0], st, fr), rest(0))

    def e_Compare(self, e, st, fr):
        def step(i, left):
            def go(s, right):
                last = i == len(e.ops) - 1

                def fin(s2, t):
                    if last:
                        return [(s2, t)]
                    out = []
                    for s3, b in self.truth(s2, t, fr, e):
                        if isinstance(b, Exc):
                            out.append((s3, b))
                        elif b:
                            out += self.seq(
                                self.ev(e.comparators[i + 1], s3, fr),
                                step(i + 1, right))
                        else:
                            out.append((s3, FALSE))
                    return out
                return self.seq(
                    self.compare(e.ops[i], left, right, s, fr, e), fin)
            return go
        return self.seq(self.ev(e.left, st, fr),
                        lambda s, l: self.seq(
                            self.ev(e.comparators[0], s, fr), step(0, l)))

    def compare(self, o, a, b, st, fr, node):
        if isinstance(o, ast.Eq):
            return self.eqv(a, b, st, fr, node)
        if isinstance(o, ast.NotEq):
            if a[0] == "obj" and st.obj(a).kind == "inst" and self.has(
                    st.obj(a), "__ne__"):
                return self.call_method(st, a, "__ne__", [b], {}, fr, node)
            return self.seq(self.eqv(a, b, st, fr, node),
                            lambda s, t: [(s, mk_not(t))])
        if isinstance(o, ast.Is):
            return [(st, self.is_(a, b, st))]
        if isinstance(o, ast.IsNot):
            return [(st, mk_not(self.is_(a, b, st)))]
        if isinstance(o, ast.In):
            return self.contains(st, b, a, fr, node)
        if isinstance(o, ast.NotIn):
            return self.seq(self.contains(st, b, a, fr, node),
                            lambda s, t: [(s, mk_not(t))])
        m, r = CMPM[type(o)]
        for x, y, n in ((a, b, m), (b, a, r)):
            if x[0] == "obj" and st.obj(x).kind == "inst" and self.has(
                    st.obj(x), n):
                return self.call_method(st, x, n, [y], {}, fr, node)
        if a[0] == "obj" or b[0] == "obj":
            # functools.total_ordering derives the others from __lt__
            for x, y, flip in ((a, b, isinstance(o, (ast.Gt, ast.LtE))),
                               ):
                if x[0] == "obj" and st.obj(x).kind == "inst" and self.has(
                        st.obj(x), "__lt__"):
                    if isinstance(o, ast.GtE):
                        return self.seq(
                            self.call_method(st, a, "__lt__", [b], {}, fr,
                                             node),
                            lambda s, t: [(s, mk_not(t))])
                    # a > b == not (a < b or a == b);  a <= b == a < b or a == b

                    def go(s, t):
                        out = []
                        for s2, v in self.truth(s, t, fr, node):
                            if isinstance(v, Exc):
                                out.append((s2, v))
                            elif v:
                                out.append((s2, TRUE))
                            else:
                                out += self.eqv(a, b, s2, fr, node)
                        return out
                    rs = self.seq(self.call_method(
                        st, a, "__lt__", [b], {}, fr, node), go)
                    if isinstance(o, ast.Gt):
                        rs = self.seq(rs, lambda s, t: [(s, mk_not(t))])
                    return rs
        if a[0] == "tup" and b[0] == "tup":
            return self.compare_tuples(o, a[1], b[1], st, fr, node)
        a, b = self.num(st, a), self.num(st, b)
        if numeric(a) and numeric(b):
            if isinstance(o, ast.Lt):
                t = op("lt", sub(a, b))
            elif isinstance(o, ast.LtE):
                t = op("le", sub(a, b))
            elif isinstance(o, ast.Gt):
                t = op("lt", sub(b, a))
            else:
                t = op("le", sub(b, a))
            t = by_bits(t, st)
            if is_const(t):
                return [(st, t)]
            d = st.decide(t)
            if d is not None:
                return [(st, TRUE if d else FALSE)]
            return [(st, t)]
        if a == NONE or b == NONE:
            return self.exc(st, "builtins.TypeError", fr.where(node))
        names = {ast.Lt: ("cmp<", a, b), ast.Gt: ("cmp<", b, a),
                 ast.LtE: ("cmp<=", a, b), ast.GtE: ("cmp<=", b, a)}
        return [(st, op("truth", op(*names[type(o)])))]

    def compare_tuples(self, o, xs, ys, st, fr, node):
        """Lexicographic: the first elements that differ decide."""
        if not xs or not ys:
            n, m = len(xs), len(ys)
            t = {ast.Lt: n < m, ast.LtE: n <= m, ast.Gt: n > m,
                 ast.GtE: n >= m}[type(o)]
            return [(st, TRUE if t else FALSE)]
        out = []
        for s, t in self.eqv(xs[0], ys[0], st, fr, node):
            for s2, eq in self.truth(s, t, fr, node):
                if isinstance(eq, Exc):
                    out.append((s2, eq))
                elif eq:
                    out += self.compare_tuples(o, xs[1:], ys[1:], s2, fr,
                                               node)
                else:
                    out += self.compare(o, xs[0], ys[0], s2, fr, node)
        return out

    def is_(self, a, b, st):
        a, b = st.canon(a), st.canon(b)
        if a == b:
            return TRUE
        if a[0] == "obj" and b[0] == "obj":
            oa, ob = st.obj(a), st.obj(b)
            if not (oa.sym and ob.sym) or oa.kind != ob.kind or not (
                    (oa.cls or frozenset()) & (ob.cls or frozenset())):
                return FALSE
            x, y = sorted([a, b])
            return op("is", x, y)
        d = st.decide(mk_eq(a, b))
        if d is not None:
            return TRUE if d else FALSE
        return mk_eq(a, b)

    def uses_opaque_eq(self, o):
        for q in o.cls:
            for c in self.prog.classes[q].mro:
                if c.qual in self.opaque_eq:
                    return True
        return False

    def eqv(self, a, b, st, fr, node):
        if a == b and not (a[0] == "obj"):
            return [(st, TRUE)]
        for x, y in ((a, b), (b, a)):
            if x[0] == "obj" and st.obj(x).kind == "inst" and y != NONE:
                o = st.obj(x)
                if x == y:
                    return [(st, TRUE)]
                if self.uses_opaque_eq(o):
                    p, q = ground(st, x), ground(st, y)
                    if p is not None and q is not None and p[0] == q[0]:
                        return [(st, TRUE if p == q else FALSE)]
                    if y[0] == "obj" or y[0] == "s" and y[2] == "any":
                        t = mk_eq(x, y)
                        return [(st, t)]
                    return [(st, FALSE)]
                if self.has(o, "__eq__"):
                    def fin(s, t, x=x, y=y):
                        if t != NOTIMPL:
                            return [(s, t)]
                        if x == a and y[0] == "obj" and s.obj(
                                y).kind == "inst" and self.has(
                                    s.obj(y), "__eq__"):
                            return self.seq(
                                self.call_method(s, y, "__eq__", [x], {}, fr,
                                                 node),
                                lambda s2, u: [(s2, FALSE if u == NOTIMPL
                                                else u)])
                        return [(s, FALSE)]
                    return self.seq(self.call_method(
                        st, x, "__eq__", [y], {}, fr, node), fin)
        if a[0] == "obj" and b[0] == "obj":
            oa, ob = st.obj(a), st.obj(b)
            if oa.kind == "inst" or ob.kind == "inst":
                return [(st, self.is_(a, b, st))]
            if oa.kind == "bytearray":
                a = oa.attrs["data"]
            if ob.kind == "bytearray":
                b = ob.attrs["data"]
        oa, ob = octet_terms(a), octet_terms(b)
        if oa is not None and ob is not None:
            a, b = ("tup", oa), ("tup", ob)
        if a[0] == "tup" and b[0] == "tup":
            if len(a[1]) != len(b[1]):
                return [(st, FALSE)]
            acc = [(st, TRUE)]
            for p, q in zip(a[1], b[1]):
                def go(s, t, p=p, q=q):
                    out = []
                    for s2, v in self.truth(s, t, fr, node):
                        if isinstance(v, Exc) or not v:
                            out.append((s2, v if isinstance(v, Exc)
                                        else FALSE))
                        else:
                            out += self.eqv(p, q, s2, fr, node)
                    return out
                acc = self.seq(acc, go)
            return acc
        t = mk_eq(a, b)
        d = st.decide(t)
        if d is not None:
            return [(st, TRUE if d else FALSE)]
        return [(st, t)]

    def contains(self, st, c, x, fr, node):
        if c[0] == "obj":
            o = st.obj(c)
            if o.kind == "dict":
                return self.seq(self.lookup(st, c, x, fr, node),
                                lambda s, v: [(s, FALSE if v == ("missing",)
                                               else TRUE)])
            if o.kind == "inst":
                if self.has(o, "__contains__"):
                    return self.seq(
                        self.call_method(st, c, "__contains__", [x], {}, fr,
                                         node),
                        lambda s, t: [(s, t)])
            if o.kind in ("list", "set"):
                self.event(st, "use", fr, node, c, "contains")
                if o.base is None:
                    return self.any_eq(st, x, o.items, fr, node)
                return [(st, op("in", x, o.base, ("v", o.ver)))]
        if c[0] == "tup":
            return self.any_eq(st, x, c[1], fr, node)
        return [(st, op("in", x, c))]

    def any_eq(self, st, x, items, fr, node):
        acc = [(st, FALSE)]
        for y in items:
            def go(s, t, y=y):
                out = []
                for s2, v in self.truth(s, t, fr, node):
                    if isinstance(v, Exc):
                        out.append((s2, v))
                    elif v:
                        out.append((s2, TRUE))
                    else:
                        out += self.eqv(x, y, s2, fr, node)
                return out
            acc = self.seq(acc, go)
        return acc

    # -- subscripts -------------------------------------------------------

    def e_Subscript(self, e, st, fr):
        return self.seq(self.evs([e.value, e.slice], st, fr),
                        lambda s, bk: self.getitem(s, bk[0], bk[1], fr, e))

    def e_Slice(self, e, st, fr):
        parts = [e.lower, e.upper, e.step]
        nodes = [ast.copy_location(ast.Constant(None), e) if p is None else p
                 for p in parts]
        return self.seq(self.evs(nodes, st, fr),
                        lambda s, v: [(s, ("slice",) + v)])

    def lookup(self, st, d, k, fr, node):
        """[(state, value | ('missing',))] for a dict object."""
        o = st.obj(d)
        self.event(st, "use", fr, node, d, "lookup", k)
        return self.lookup_items(st, d, k, len(o.items) - 1, fr, node)

    def lookup_items(self, st, d, k, i, fr, node):
        o = st.obj(d)
        if i < 0:
            if o.base is None:
                return [(st, ("missing",))]
            out = []
            atom = op("haskey", o.base, k)
            for s, b in self.split(st, atom):
                if not b:
                    out.append((s, ("missing",)))
                    continue
                ck = s.canon(k)
                key = ("k", "get", o.base, ck)
                types = (o.types or (0, frozenset()))[1]
                out += self.materialize(s, key, types)
            return out
        ki, v = o.items[i]
        out = []

        def go(s, t):
            res = []
            for s2, b in self.truth(s, t, fr, node):
                if isinstance(b, Exc):
                    res.append((s2, b))
                elif b:
                    res.append((s2, ("missing",) if v is None else v))
                else:
                    res += self.lookup_items(s2, d, k, i - 1, fr, node)
            return res
        return self.seq(self.eqv(ki, k, st, fr, node), go)

    def getitem(self, st, b, k, fr, node):
        kind = b[0]
        if kind == "obj":
            o = st.obj(b)
            if o.kind == "inst":
                return self.call_method(st, b, "__getitem__",
                                        [self.slice_obj(k)], {}, fr, node)
            if o.kind == "dict":
                def found(s, v):
                    if v != ("missing",):
                        return [(s, v)]
                    f = s.obj(b).attrs.get("factory")
                    if f is None:
                        return self.exc(s, "builtins.KeyError",
                                        fr.where(node))
                    return self.seq(
                        self.call(s, f, [], {}, fr, node),
                        lambda s2, x: self.seq(
                            self.setitem(s2, b, k, x, fr, node),
                            lambda s3, _: [(s3, x)]))
                return self.seq(self.lookup(st, b, k, fr, node), found)
            if o.kind == "list":
                return self.list_item(st, b, o, k, fr, node)
            if o.kind == "bytearray":
                return self.getitem(st, o.attrs["data"], k, fr, node)
        if kind in ("cls", "ext"):
            return [(st, b)]
        if kind == "tup":
            if k[0] == "slice" and all(
                    is_const(x) for x in k[1:]):
                return [(st, ("tup", b[1][slice(*(x[2] for x in k[1:]))]))]
            if is_const(k):
                try:
                    return [(st, b[1][k[2]])]
                except IndexError:
                    return self.exc(st, "builtins.IndexError",
                                    fr.where(node))
            out = []
            cur = st
            for i, v in enumerate(b[1]):
                for s, c in self.split(cur, mk_eq(k, const(i))):
                    if c:
                        out.append((s, v))
                    else:
                        cur = s
            return out + self.exc(cur, "builtins.IndexError", fr.where(node))
        if tyof(b) in ("bytes", "str"):
            return self.bytes_item(st, b, k, fr, node)
        if b == NONE:
            return self.exc(st, "builtins.TypeError", fr.where(node))
        return self.materialize(st, ("k", "item", b, k), frozenset())

    def slice_obj(self, k):
        return k

    def clamp(self, st, x, n, default):
        """Python slice bound semantics: [(state, bound in 0..n)]"""
        if x == NONE:
            return [(st, default)]
        out = []
        for s, neg in self.split(st, op("lt", x)):
            if neg:
                y = add(n, x)
                for s2, b in self.split(s, op("lt", y)):
                    out.append((s2, ZERO if b else y))
            else:
                for s2, b in self.split(s, op("le", sub(x, n))):
                    out.append((s2, x if b else n))
        return out

    def bytes_item(self, st, b, k, fr, node):
        n = mk_len(b)
        if k[0] == "slice":
            if k[3] not in (NONE, const(1)):
                if tyof(b) == "bytes" and is_const(n) and n[2] < 64 and all(
                        is_const(x) for x in k[1:]) and k[3] != ZERO:
                    at = range(n[2])[slice(*[x[2] for x in k[1:]])]
                    return [(st, mk_cat([mk_slice(
                        b, const(i), const(i + 1), st) for i in at])
                        if at else const(b""))]
                return [(st, op("typed", tyof(b), op("stride", b, *k[1:])))]
            out = []
            for s, lo in self.clamp(st, k[1], n, ZERO):
                for s2, hi in self.clamp(s, k[2], n, n):
                    for s3, c in self.split(s2, op("le", sub(lo, hi))):
                        if tyof(b) == "str":
                            out.append((s3, op("typed", "str", op(
                                "sub", b, lo, hi))))
                            continue
                        out.append((s3, mk_slice(b, lo, hi, s3) if c
                                    else const(b"")))
            return out
        if b[0] == "c" and is_const(k):
            try:
                return [(st, const(b[2][k[2]]))]
            except IndexError:
                return self.exc(st, "builtins.IndexError", fr.where(node))
        out = []
        for s, neg in self.split(st, op("lt", k)):
            i = add(n, k) if neg else k
            bad = op("lt", i) if neg else op("le", sub(n, i))
            for s2, e in self.split(s, bad):
                if e:
                    out += self.exc(s2, "builtins.IndexError",
                                    fr.where(node))
                else:
                    base, j = b, i
                    if base[0] == "op" and base[1] == "slice":
                        base, j = base[2], add(base[3], i)
                    out.append((s2, byte_at(base, j)
                                if tyof(b) == "bytes" else
                                op("typed", "str", op("char", base, j))))
        return out

    def list_item(self, st, b, o, k, fr, node):
        self.event(st, "use", fr, node, b, "item", k)
        if k[0] == "slice":
            if o.base is None and all(is_const(x) for x in k[1:]):
                n = Obj("list")
                n.items = o.items[slice(*(x[2] for x in k[1:]))]
                return [(st, self.new(st, n))]
            n = Obj("list")
            n.base = ("k", "sub", o.base or b, k, o.ver)
            n.types = o.types
            return [(st, self.new(st, n))]
        if o.base is None:
            if is_const(k):
                try:
                    return [(st, o.items[k[2]])]
                except IndexError:
                    return self.exc(st, "builtins.IndexError",
                                    fr.where(node))
            return self.materialize(
                st, ("k", "item", b, k, o.ver), frozenset())
        out = []
        for s, ne in self.container_truth(st, b):
            if not ne:
                out += self.exc(s, "builtins.IndexError", fr.where(node))
                continue
            if not (k == ZERO or k == const(-1)):
                s2 = s.fork()
                out += self.exc(s2, "builtins.IndexError", fr.where(node))
            o = s.obj(b)
            if k == const(-1) and o.items:
                out.append((s, o.items[-1]))
                continue
            out += self.materialize(
                s, ("k", "item", o.base, k, o.ver),
                (o.types or (0, frozenset()))[1])
        return out

    def setitem(self, st, b, k, v, fr, node):
        if b[0] == "obj":
            o = st.obj(b)
            if o.kind == "inst":
                return self.call_method(st, b, "__setitem__", [k, v], {}, fr,
                                        node)
            self.event(st, "store", fr, node, b, k, v)
            if o.kind == "dict":
                o = st.mut(b)
                items = tuple(e for e in o.items if e[0] != k)
                o.items = items + ((k, v),)
                o.ver += 1
                return [(st, NONE)]
            if o.kind == "list":
                if o.base is None and is_const(k) and isinstance(k[2], int):
                    o = st.mut(b)
                    l = list(o.items)
                    try:
                        l[k[2]] = v
                    except IndexError:
                        return self.exc(st, "builtins.IndexError",
                                        fr.where(node))
                    o.items = tuple(l)
                else:
                    o = st.mut(b)
                    o.base = self.fresh("stored")
                    o.types = o.types or (frozenset(), frozenset())
                    o.items = ()
                    o.ver += 1
                return [(st, NONE)]
            if o.kind == "bytearray":
                if k[0] == "slice":
                    st.mut(b).attrs["data"] = op("typed", "bytes", op(
                        "upd", o.attrs["data"], k, v))
                    return [(st, NONE)]
                return self.set_octet(st, b, o.attrs["data"], k, v, fr, node)
        self.event(st, "store", fr, node, b, k, v)
        return [(st, NONE)]

    def set_octet(self, st, b, data, k, v, fr, node):
        """data[k] = v for a bytearray: the octets before and after stay."""
        from . import extmodel
        n = mk_len(data)
        k = self.num(st, k)
        out = []
        for s, neg in self.split(st, op("lt", k)):
            i = add(n, k) if neg else k
            over = op("lt", i) if neg else op("le", sub(n, i))
            for s2, bad in self.split(s, over):
                if bad:
                    out += self.exc(s2, "builtins.IndexError",
                                    fr.where(node))
                    continue

                def put(a, ps, i=i):
                    a.mut(b).attrs["data"] = mk_cat(
                        [mk_slice(data, ZERO, i, a)] + list(ps)
                        + [mk_slice(data, add(i, const(1)), n, a)])
                    return [(a, NONE)]
                out += self.seq(extmodel.byte_of(self, s2, (), v, fr, node),
                                put)
        return out

    def delitem(self, st, b, k, fr, node):
        if b[0] == "obj":
            o = st.obj(b)
            if o.kind == "inst":
                return self.call_method(st, b, "__delitem__", [k], {}, fr,
                                        node)
            if o.kind == "dict":
                def go(s, v):
                    if v == ("missing",):
                        return self.exc(s, "builtins.KeyError",
                                        fr.where(node))
                    self.dict_delete(s, b, k, fr, node)
                    return [(s, NONE)]
                return self.seq(self.lookup(st, b, k, fr, node), go)
            o = st.mut(b)
            self.event(st, "del", fr, node, b, k)
            if o.base is None and is_const(k):
                l = list(o.items)
                del l[k[2]]
                o.items = tuple(l)
            else:
                o.base = self.fresh("deleted")
                o.ver += 1
            return [(st, NONE)]
        self.event(st, "del", fr, node, b, k)
        return [(st, NONE)]

    def dict_delete(self, st, d, k, fr, node):
        self.event(st, "del", fr, node, d, k)
        o = st.mut(d)
        o.ver += 1
        items = []
        for ki, v in o.items:
            if st.decide(mk_eq(ki, k)) is not True and ki != k:
                items.append((ki, v))
        if o.base is not None:
            items.append((k, None))
        o.items = tuple(items)

    # -- displays and comprehensions --------------------------------------

    def elements(self, elts, st, fr):
        acc = [(st, ())]
        for e in elts:
            if isinstance(e, ast.Starred):
                def go(s, vs, e=e):
                    return self.seq(self.ev(e.value, s, fr),
                                    lambda s2, v: self.seq(
                        self.iter_items(s2, v, fr, e),
                        lambda s3, its: [(s3, vs + (tuple(its) if its
                                         is not None else (("star", v),)))]))
            else:
                def go(s, vs, e=e):
                    return self.seq(self.ev(e, s, fr),
                                    lambda s2, v: [(s2, vs + (v,))])
            acc = self.seq(acc, go)
        return acc

    def e_Tuple(self, e, st, fr):
        return self.seq(self.elements(e.elts, st, fr),
                        lambda s, vs: [(s, ("tup", vs))])

    def e_List(self, e, st, fr):
        def go(s, vs):
            o = Obj("list")
            o.items = vs
            return [(s, self.new(s, o))]
        return self.seq(self.elements(e.elts, st, fr), go)

    def e_Set(self, e, st, fr):
        def go(s, vs):
            o = Obj("set")
            o.items = tuple(dict.fromkeys(vs))
            return [(s, self.new(s, o))]
        return self.seq(self.elements(e.elts, st, fr), go)

    def e_Dict(self, e, st, fr):
        acc = [(st, ())]
        for k, v in zip(e.keys, e.values):
            if k is None:
                def go(s, items, v=v):
                    def merge(s2, d):
                        o = s2.obj(d) if d[0] == "obj" else None
                        if o is not None and o.kind == "dict" \
                                and o.base is None:
                            return [(s2, items + o.items)]
                        return [(s2, items + ((("star", d), d),))]
                    return self.seq(self.ev(v, s, fr), merge)
            else:
                def go(s, items, k=k, v=v):
                    return self.seq(self.evs([k, v], s, fr),
                                    lambda s2, kv: [(s2, tuple(
                                        i for i in items if i[0] != kv[0])
                                        + (kv,))])
            acc = self.seq(acc, go)

        def fin(s, items):
            o = Obj("dict")
            o.items = items
            return [(s, self.new(s, o))]
        return self.seq(acc, fin)

    def comp(self, e, st, fr, emit):
        """Run the generators of a comprehension: emit(state, frame) at each
        element; returns [(state, list | None | Exc)]"""
        nf = Fr(self, fr.func, fr.mod, fr.cls, fr)
        nf.func = None
        nf.selfname = None

        def gen(i, s, acc):
            if i == len(e.generators):
                return self.seq(emit(s, nf), lambda s2, v: [
                    (s2, acc + (v,))])
            g = e.generators[i]

            def counted(s3, it):
                """Round by round, while there is something to take."""
                cur, out = [(s3, acc)], []
                for n in range(self.unroll_while):
                    v = add(it[2], const(n))
                    nxt = []
                    for s4, a in cur:
                        for s5, more in self.split(
                                s4, op("lt", sub(v, it[3]))):
                            if not more:
                                out.append((s5, a))
                                continue
                            nxt += self.seq(
                                self.assign_comp(g.target, v, s5, nf),
                                lambda s6, _, a=a: gen(i + 1, s6, a))
                    out += [x for x in nxt if isinstance(x[1], Exc)]
                    cur = [x for x in nxt if not isinstance(x[1], Exc)]
                    if not cur:
                        return out
                return out + [(s4, ("unknown", it, i)) for s4, _ in cur]

            def over(s2, it):
                def items(s3, its):
                    if its is None and not g.ifs and len(
                            e.generators) == 1 and self.draws([e], it):
                        return counted(s3, it)
                    if its is None:
                        return [(s3, ("unknown", it, i))]
                    cur = [(s3, acc)]
                    for v in its:
                        def one(s4, a, v=v):
                            if a and a[0] == "unknown":
                                return [(s4, a)]

                            def filt(s5, _):
                                return self.ifs(g.ifs, s5, nf, lambda s6: gen(
                                    i + 1, s6, a), lambda s6: [(s6, a)])
                            return self.seq(self.assign_comp(
                                g.target, v, s4, nf), filt)
                        cur = self.seq(cur, one)
                    return cur
                return self.seq(self.iter_items(s2, it, fr, e), items)
            return self.seq(self.ev(g.iter, s, nf), over)
        return gen(0, st, ()), nf

    def ifs(self, conds, st, fr, yes, no):
        if not conds:
            return yes(st)
        out = []
        for s, b in self.cond(conds[0], st, fr):
            if isinstance(b, Exc):
                out.append((s, b))
            elif b:
                out += self.ifs(conds[1:], s, fr, yes, no)
            else:
                out += no(s)
        return out

    def assign_comp(self, t, v, st, nf):
        if isinstance(t, ast.Name):
            st.env[(nf.id, t.id)] = v
            return [(st, NONE)]
        n = len(t.elts)

        def go(s, items):
            if items is None:
                for i, e in enumerate(t.elts):
                    s.env[(nf.id, e.id)] = sym(("k", "unpack", v, i), "any")
                return [(s, NONE)]
            if len(items) != n:
                return self.exc(s, "builtins.ValueError", nf.where(t))
            acc = [(s, NONE)]
            for e, x in zip(t.elts, items):
                acc = self.seq(acc, lambda a, _, e=e, x=x: self.assign_comp(
                    e, x, a, nf))
            return acc
        return self.seq(self.iter_items(st, v, nf, t), go)

    def comp_unknown(self, e, st, nf, acc, emit, kind):
        """A comprehension over an iterable of unknown length: a container
        whose generic element is `emit` evaluated once."""
        g = e.generators[acc[2]]
        out = []
        o = Obj(kind)
        o.base = self.fresh("comp")
        o.types = (frozenset(), frozenset())
        results = []
        for s, v in self.iter_elem(st.fork(), acc[1], nf, e):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            for s2, _ in self.assign_comp(g.target, v, s, nf):
                for s3, x in self.ifs(g.ifs, s2, nf,
                                      lambda a: emit(a, nf),
                                      lambda a: []):
                    if isinstance(x, Exc):
                        out.append((s3, x))
                    else:
                        results.append((s3, x))
        types = frozenset()
        for s3, x in results:
            t = self.atoms_of(s3, x)
            types |= t or frozenset()
        o.types = (frozenset(), types)
        o.attrs["elems"] = tuple(
            (x, tuple(s3.order[len(st.order):]), s3) for s3, x in results)
        t = self.new(st, o)
        out.append((st, t))
        return out

    def e_ListComp(self, e, st, fr, kind="list"):
        emit = lambda s, nf: self.ev(e.elt, s, nf)
        res, nf = self.comp(e, st, fr, emit)

        def fin(s, acc):
            if acc and acc[0] == "unknown":
                return self.comp_unknown(e, s, nf, acc, emit, kind)
            o = Obj(kind)
            o.items = acc
            return [(s, self.new(s, o))]
        return self.seq(res, fin)

    def e_SetComp(self, e, st, fr):
        return self.e_ListComp(e, st, fr, "set")

    def e_DictComp(self, e, st, fr):
        emit = lambda s, nf: self.seq(
            self.evs([e.key, e.value], s, nf),
            lambda s2, kv: [(s2, ("tup", kv))])
        res, nf = self.comp(e, st, fr, emit)

        def fin(s, acc):
            if acc and acc[0] == "unknown":
                o = Obj("dict")
                o.base = self.fresh("comp")
                o.types = (frozenset(), frozenset())
                return [(s, self.new(s, o))]
            o = Obj("dict")
            items = []
            for t in acc:
                items = [i for i in items if i[0] != t[1][0]]
                items.append((t[1][0], t[1][1]))
            o.items = tuple(items)
            return [(s, self.new(s, o))]
        return self.seq(res, fin)

    def e_GeneratorExp(self, e, st, fr):
        # evaluated at once; an exhausted iterator within a generator is an
        # error where the generator is used (PEP 479)
        return [(s, Exc("builtins.RuntimeError", None, v.where)
                 if isinstance(v, Exc) and v.cls == "builtins.StopIteration"
                 else v) for s, v in self.e_ListComp(e, st, fr, "list")]

    def e_Lambda(self, e, st, fr):
        return [(st, self.closure(e, fr))]

    def e_IfExp(self, e, st, fr):
        out = []
        for s, b in self.cond(e.test, st, fr):
            if isinstance(b, Exc):
                out.append((s, b))
            else:
                out += self.ev(e.body if b else e.orelse, s, fr)
        return out

    def e_JoinedStr(self, e, st, fr):
        acc = [(st, ())]
        for v in e.values:
            if isinstance(v, ast.Constant):
                acc = self.seq(acc, lambda s, p, v=v: [
                    (s, p + (const(v.value),))])
            else:
                acc = self.seq(acc, lambda s, p, v=v: self.seq(
                    self.ev(v.value, s, fr),
                    lambda s2, x: [(s2, p + (x,))]))
        return self.seq(acc, lambda s, p: [(s, ("op", "fstr") + p)])

    def e_FormattedValue(self, e, st, fr):
        return self.seq(self.ev(e.value, st, fr),
                        lambda s, v: [(s, op("fstr", v))])

    def e_NamedExpr(self, e, st, fr):
        return self.seq(self.ev(e.value, st, fr),
                        lambda s, v: self.seq(
                            self.assign(e.target, v, s, fr),
                            lambda s2, _: [(s2, v)]))

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        def go(s, v):
            self.event(s, "yield", fr, e, v)
            if s.ylds is not None:
                s.ylds.append(v)
            return [(s, sym(self.fresh("sent"), "any"))]
        if e.value is None:
            return go(st, NONE)
        return self.seq(self.ev(e.value, st, fr), go)

    def e_YieldFrom(self, e, st, fr):
        def go(s, v):
            def items(s2, its):
                if s2.ylds is not None:
                    if its is None:
                        s2.ylds.append(("unknown", v))
                    else:
                        s2.ylds += list(its)
                return [(s2, NONE)]
            return self.seq(self.iter_items(s, v, fr, e), items)
        return self.seq(self.ev(e.value, st, fr), go)
