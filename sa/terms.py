"""Interned value terms and the numeric domain (linear forms over terms, with
a convex-polyhedra style projection to answer entailment queries)."""

from fractions import Fraction

NONE = ("c", "NoneType", None)
TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)
ZERO = ("c", "int", 0)
INF = float("inf")


def const(v):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    return ("c", type(v).__name__, v)


def is_const(t):
    return t[0] == "c"


def op(name, *args):
    return ("op", name) + args


def sym(name, ty):
    return ("s", name, ty)


_skeys = {}


def skey(t):
    k = _skeys.get(t)
    if k is None:
        k = repr(t)
        if len(_skeys) > 200000:
            _skeys.clear()
        _skeys[t] = k
    return k


INT_OPS = {"len", "&", "|", "^", "<<", ">>", "//", "%", "bitlen", "int",
           "ord", "frombytes", "index", "hash", "sum", "ceil", "floor", "id", "intlike", "ber.hdr",
           "ber.size"}
BYTES_OPS = {"ber.head", "mac", "key", "localkey", "cipher", "pdu", "cat", "slice", "tobytes", "hmac", "hash.digest", "bytes",
             "bytes.mul"}
BOOL_OPS = {"eq", "le", "lt", "in", "isinst", "nonempty", "truth", "not",
            "is", "is_set"}
STR_OPS = {"fstr", "str", "repr", "decode"}


def tyof(t):
    k = t[0]
    if k == "c":
        return t[1]
    if k == "s":
        return t[2]
    if k == "lin":
        for a, _ in t[2]:
            if tyof(a) != "int":
                return "float"
        return "int" if isinstance(t[1], int) else "float"
    if k == "op":
        n = t[1]
        if n in INT_OPS:
            return "int"
        if n in BOOL_OPS:
            return "bool"
        if n in BYTES_OPS:
            return "bytes"
        if n in STR_OPS:
            return "str"
        if n == "typed":
            return t[2]
        return "any"
    if k == "tup":
        return "tuple"
    if k == "enum":
        return "enum"
    return k


def numeric(t):
    return tyof(t) in ("int", "float", "bool", "enum") or t[0] == "lin"


# -- linear forms -----------------------------------------------------------

def lin_parts(t):
    """(constant, {atom: coefficient})"""
    if t[0] == "c" and isinstance(t[2], (int, float)):
        return t[2], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, atoms):
    atoms = {a: k for a, k in atoms.items() if k != 0}
    if not atoms:
        return const(c)
    if c == 0 and len(atoms) == 1:
        (a, k), = atoms.items()
        if k == 1:
            return a
    return ("lin", c, tuple(sorted(atoms.items(), key=lambda x: skey(x[0]))))


def add(a, b, sign=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    out = dict(da)
    for k, v in db.items():
        out[k] = out.get(k, 0) + sign * v
    return mk_lin(ca + sign * cb, out)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = lin_parts(a)
    return mk_lin(c * k, {t: v * k for t, v in d.items()})


def base_range(t):
    """Bounds that hold for the term whatever the state."""
    if t[0] == "c" and isinstance(t[2], (int, float)):
        return t[2], t[2]
    if t[0] == "s":
        if len(t) > 3 and t[3] is not None:
            return t[3]
        if t[2] == "bool":
            return 0, 1
        return -INF, INF
    if t[0] == "op":
        n = t[1]
        if n == "&":
            hi = INF
            for x in t[2:]:
                if is_const(x) and x[2] >= 0:
                    hi = min(hi, x[2])
            if hi != INF:
                return 0, hi
        elif n == "len" and t[2][:2] == ("op", "ber.head"):
            return 2, INF
        elif n == ">>" and is_const(t[3]):
            lo, hi = lin_range(t[2])
            k = 1 << t[3][2]
            return (lo if lo == -INF else lo // k,
                    hi if hi == INF else hi // k)
        elif n == "bitlen":
            lo, hi = lin_range(t[2])
            if lo != -INF and hi != INF:
                return 0, max(abs(int(lo)), abs(int(hi))).bit_length()
            return 0, INF
        elif n in ("len", "ord"):
            return 0, INF
        elif n == "index":
            return 0, 255
        elif n in ("^", "|"):
            top = 0
            for x in t[2:]:
                lo, hi = lin_range(x)
                if lo < 0 or hi == INF:
                    return -INF, INF
                top = max(top, int(hi).bit_length())
            return 0, (1 << top) - 1
        elif n == "//" and is_const(t[3]) and t[3][2] > 0:
            lo, hi = lin_range(t[2])
            return (lo if lo == -INF else lo // t[3][2],
                    hi if hi == INF else hi // t[3][2])
        elif n == "%":
            if is_const(t[3]) and t[3][2] > 0:
                return 0, t[3][2] - 1
        elif n == "frombytes" and len(t) > 3 and t[3] == FALSE:
            return 0, INF
        elif n in BOOL_OPS:
            return 0, 1
    return -INF, INF


def lin_range(t):
    """Bounds of a linear form from those of its atoms."""
    c, d = lin_parts(t)
    lo = hi = c
    for a, k in d.items():
        x, y = base_range(a)
        if k < 0:
            x, y = y, x
        lo += k * x
        hi += k * y
    return lo, hi


def diff_unsat(cons, q):
    """Whether the difference constraints in `cons` (x - y + c <= 0, x + c <=
    0, -x + c <= 0) together with the difference constraint q close a negative
    cycle.  None if q is not a difference constraint."""
    e = diff_edge(q)
    if e is None:
        return None
    x, y, w, strict = e         # x - y <= w
    adj = {}
    for c in cons:
        f = diff_edge(c)
        if f is not None:
            adj.setdefault(f[0], []).append(f)
    # unsat iff the shortest bound on (y - x) plus w is negative
    dist = {y: (0, 0)}
    queue, rounds = [y], 0
    while queue and rounds < 60:
        rounds += 1
        nxt = []
        for u in queue:
            du = dist[u]
            for _, v, b, s in adj.get(u, ()):
                # u - v <= b  and  y - u <= du   gives   y - v <= du + b
                nd = (du[0] + b, du[1] - (1 if s else 0))
                if v not in dist or nd < dist[v]:
                    dist[v] = nd
                    nxt.append(v)
                    if v == x:
                        t = (nd[0] + w, nd[1] - (1 if strict else 0))
                        if t < (0, 0):
                            return True
        queue = nxt
    return False


def diff_edge(con):
    d, c, strict = con
    if len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a, None, -c, strict
        if k == -1:
            return None, a, -c, strict
        return None
    if len(d) == 2:
        (a, k), (b, m) = d.items()
        if k == 1 and m == -1:
            return a, b, -c, strict
        if k == -1 and m == 1:
            return b, a, -c, strict
    return None


_fm_memo = {}


def fm_unsat(cons, limit=400):
    key = frozenset((frozenset(d.items()), c, s) for d, c, s in cons)
    r = _fm_memo.get(key)
    if r is None:
        if len(_fm_memo) > 100000:
            _fm_memo.clear()
        r = _fm_memo[key] = fm_project(cons, limit)
    return r


def fm_project(cons, limit):
    """Whether a conjunction of constraints (sum + c <= 0, strict flag) has no
    rational solution: Fourier-Motzkin projection of every variable."""
    cons = [(dict(d), c, s) for d, c, s in cons]
    while True:
        live = []
        for d, c, s in cons:
            d = {k: v for k, v in d.items() if v != 0}
            if not d:
                if c > 0 or (s and c == 0):
                    return True
            else:
                live.append((d, c, s))
        if not live:
            return False
        # dedupe
        seen = {}
        for d, c, s in live:
            k = frozenset(d.items())
            o = seen.get(k)
            if o is None or c > o[1] or (c == o[1] and s):
                seen[k] = (d, c, s)
        live = list(seen.values())
        occ = {}
        for d, c, s in live:
            for k, v in d.items():
                p = occ.setdefault(k, [0, 0])
                p[0 if v > 0 else 1] += 1
        var = min(occ, key=lambda k: occ[k][0] * occ[k][1])
        pos, neg, rest = [], [], []
        for x in live:
            v = x[0].get(var, 0)
            (pos if v > 0 else neg if v < 0 else rest).append(x)
        out = rest
        for d1, c1, s1 in pos:
            for d2, c2, s2 in neg:
                a, b = d1[var], -d2[var]
                d = {}
                for k, v in d1.items():
                    if k != var:
                        d[k] = d.get(k, 0) + v * b
                for k, v in d2.items():
                    if k != var:
                        d[k] = d.get(k, 0) + v * a
                out.append((d, c1 * b + c2 * a, s1 or s2))
        if len(out) > limit:
            return False
        cons = out


def subterms(t):
    yield t
    if t[0] == "op":
        for x in t[2:]:
            if isinstance(x, tuple):
                yield from subterms(x)
    elif t[0] == "lin":
        for a, _ in t[2]:
            yield from subterms(a)
    elif t[0] == "tup":
        for x in t[1]:
            yield from subterms(x)


def mentions(t, needle):
    return any(x == needle for x in subterms(t))
