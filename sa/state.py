"""The abstract state of one path: environment, heap, facts, events."""

from .terms import *


class Obj:
    """kind: inst list dict set bytearray iter closure exc lock ext
    sym: the object existed before the analysed code ran, so attributes that
    were never written here are materialised on demand."""
    __slots__ = ("kind", "cls", "attrs", "items", "base", "sym", "name",
                 "types", "ver")

    def __init__(self, kind, cls=None, name=None, sym=False):
        self.kind = kind
        self.cls = cls          # frozenset of class quals (inst)
        self.attrs = {}
        self.items = ()         # list: values; dict: (key, val|None) overlay
        self.base = None        # unknown initial content: a name term
        self.sym = sym
        self.name = name
        self.types = None       # (key atoms, element atoms) of containers
        self.ver = 0

    def copy(self):
        o = Obj(self.kind, self.cls, self.name, self.sym)
        o.attrs = dict(self.attrs)
        o.items = self.items
        o.base = self.base
        o.types = self.types
        o.ver = self.ver
        return o


def rounded(a):
    """The atoms a rounding operation depends on."""
    if a[0] == "op" and a[1] in ("int", "ceil", "floor") and len(a) == 3 \
            and numeric(a[2]):
        out = set(lin_parts(a[2])[1])
        for x in list(out):
            out |= rounded(x)
        return out
    return set()


_deriving = [False]


class State:
    __slots__ = ("env", "heap", "facts", "lins", "eqs", "events", "held",
                 "names", "globs", "order", "ylds", "dead")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = {}
        self.lins = []
        self.eqs = {}
        self.events = []
        self.held = ()
        self.names = {}
        self.globs = {}
        self.order = []
        self.ylds = None
        self.dead = False

    def fork(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.lins = list(self.lins)
        s.eqs = dict(self.eqs)
        s.events = list(self.events)
        s.held = self.held
        s.names = dict(self.names)
        s.globs = dict(self.globs)
        s.order = list(self.order)
        s.ylds = None if self.ylds is None else list(self.ylds)
        s.dead = self.dead
        return s

    # -- heap -------------------------------------------------------------

    def obj(self, t):
        return self.heap[t[1]]

    def mut(self, t):
        o = self.heap[t[1]].copy()
        self.heap[t[1]] = o
        return o

    # -- facts ------------------------------------------------------------

    def canon(self, t):
        if not self.eqs:
            return t
        return self._canon(t, {})

    def _canon(self, t, memo):
        r = memo.get(t)
        if r is not None:
            return r
        k = t[0]
        if k == "op":
            n = ("op", t[1]) + tuple(
                self._canon(x, memo) if isinstance(x, tuple) else x
                for x in t[2:])
        elif k == "tup":
            n = ("tup", tuple(self._canon(x, memo) for x in t[1]))
        elif k == "lin":
            c, out = t[1], {}
            for a, co in t[2]:
                ca = self._canon(a, memo)
                cc, d = lin_parts(ca)
                c += cc * co
                for y, v in d.items():
                    out[y] = out.get(y, 0) + v * co
            n = mk_lin(c, out)
        else:
            n = t
        n = self.eqs.get(n, n)
        memo[t] = n
        return n

    def lin_cons(self, seed):
        """Constraints connected with the atoms in `seed`."""
        want = set(seed)
        for a in seed:
            want |= rounded(a)
        pending = list(self.lins)
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for c in pending:
                atoms = set(c[0])
                for a in c[0]:
                    if a[0] == "op" and a[1] in ("int", "ceil", "floor"):
                        atoms |= rounded(a)
                if want & atoms:
                    out.append(c)
                    if not atoms <= want:
                        want |= atoms
                        changed = True
                else:
                    rest.append(c)
            pending = rest
        for a in want:
            lo, hi = base_range(a)
            if lo != -INF:
                out.append(({a: -1}, lo, False))
            if hi != INF:
                out.append(({a: 1}, -hi, False))
            out += self.derived(a)
        return out

    def unsigned_top(self, a):
        """The largest value of an unsigned term, from the lengths of the
        octet strings it is read from."""
        if a[:2] == ("op", "frombytes"):
            if len(a) > 3 and a[3] != FALSE:
                return None
            n = self.canon(mk_len(a[2]))
            if not is_const(n):
                return None
            return (1 << (8 * n[2])) - 1
        if a[0] == "op" and a[1] in ("^", "|"):
            tops = [self.unsigned_top(x) for x in a[2:]]
            if None in tops:
                return None
            return (1 << max(t.bit_length() for t in tops)) - 1
        lo, hi = lin_range(a)
        return int(hi) if lo >= 0 and hi != INF else None

    def derived(self, a):
        """Facts that hold of a term by its construction."""
        out = []
        if a[0] == "op" and a[1] in ("frombytes", "^", "|"):
            top = self.unsigned_top(a)
            if top is not None:
                out.append(({a: 1}, -top, False))
                out.append(({a: -1}, 0, False))
        if a[0] == "op" and a[1] == ">>" and is_const(a[3]):
            # x >> k  <=  x / 2^k  <  (x >> k) + 1
            k = 1 << a[3][2]
            c, d = lin_parts(a[2])
            e = {y: -v for y, v in d.items()}
            e[a] = e.get(a, 0) + k
            out.append((e, -c, False))
            e = {y: v for y, v in d.items()}
            e[a] = e.get(a, 0) - k
            out.append((e, c - (k - 1), False))
        if a[0] == "op" and a[1] == "//" and is_const(a[3]) and a[3][2] > 0:
            k = a[3][2]
            c, d = lin_parts(a[2])
            e = {y: -v for y, v in d.items()}
            e[a] = e.get(a, 0) + k
            out.append((e, -c, False))
            e = {y: v for y, v in d.items()}
            e[a] = e.get(a, 0) - k
            out.append((e, c - (k - 1), False))
        if a[0] == "op" and a[1] in ("int", "ceil", "floor") and len(a) == 3 \
                and numeric(a[2]):
            c, d = lin_parts(a[2])
            up = dict(d)
            up[a] = up.get(a, 0) - 1
            dn = {y: -v for y, v in d.items()}
            dn[a] = dn.get(a, 0) + 1
            if a[1] == "ceil":
                out.append((up, c, False))          # x <= ceil(x)
                out.append((dn, -c - 1, True))      # ceil(x) < x + 1
            elif a[1] == "floor":
                out.append((up, c - 1, True))       # x - 1 < floor(x)
                out.append((dn, -c, False))         # floor(x) <= x
            else:
                neg = pos = None
                if not _deriving[0]:
                    _deriving[0] = True
                    neg = self.le0(a[2])
                    pos = self.le0(scale(a[2], -1))
                    _deriving[0] = False
                # rounds towards zero
                out.append((up, c, False) if neg else (up, c - 1, True))
                out.append((dn, -c, False) if pos else (dn, -c - 1, True))
        return out

    def le0(self, t, strict=False):
        """Whether t <= 0 (t < 0) holds: True, False (its negation holds) or
        None."""
        t = self.canon(t)
        c, d = lin_parts(t)
        if not d:
            return c < 0 if strict else c <= 0
        lo, hi = lin_range(t)
        if hi < 0 or hi <= 0 and not strict:
            return True
        if lo > 0 or lo >= 0 and strict:
            return False
        integral = all(tyof(a) in ("int", "bool", "enum") for a in d) \
            and isinstance(c, int) and all(isinstance(v, int)
                                           for v in d.values())
        cons = self.lin_cons(d)
        # entailed iff the negation is unsatisfiable: t > 0 (t >= 0)
        neg = {a: -v for a, v in d.items()}
        if integral:
            if strict:
                q = (neg, -c, False)
            else:
                q = (neg, -c + 1, False)
        else:
            q = (neg, -c, not strict)
        if integral and strict:
            p = (d, c + 1, False)
        else:
            p = (d, c, strict)
        a, b = diff_unsat(cons, q), diff_unsat(cons, p)
        if a:
            return True
        if b:
            return False
        if a is not None and all(diff_edge(x) is not None for x in cons):
            return None
        if fm_unsat(cons + [q]):
            return True
        if fm_unsat(cons + [p]):
            return False
        return None

    def interval(self, t):
        """A bound found by probing (used in messages only)."""
        return base_range(t)

    def decide(self, a):
        """Truth of a boolean atom under the facts of this path."""
        a = self.canon(a)
        if a[0] == "c":
            return bool(a[2])
        if a[0] != "op":
            return self.facts.get(a)
        n = a[1]
        if n == "le" or n == "lt":
            r = self.le0(a[2], n == "lt")
            return r
        if n == "eq":
            x, y = a[2], a[3]
            if x == y:
                return True
            r = const_eq(x, y)
            if r is not None:
                return r
            if numeric(x) and numeric(y) and not (
                    tyof(x) == "enum" and tyof(y) == "enum"):
                d = sub(x, y)
                f = self.facts.get(mk_eq(x, y))
                if f is not None:
                    return f
                lo = self.le0(d)
                hi = self.le0(scale(d, -1))
                if lo and hi:
                    return True
                if lo is False or hi is False:
                    return False
                return None
            if tyof(x) in ("bytes", "str") and tyof(y) in ("bytes", "str"):
                lx, ly = mk_len(x), mk_len(y)
                d = sub(lx, ly)
                if self.le0(d) is False or self.le0(
                        scale(d, -1)) is False:
                    return False
                if lx == ZERO or ly == ZERO:
                    # empty exactly if of length 0
                    f = self.decide(mk_eq(lx, ly))
                    if f is not None:
                        return f
            if x[0] == "tup" and y[0] == "tup":
                if len(x[1]) != len(y[1]):
                    return False
                rs = [self.decide(mk_eq(p, q)) for p, q in zip(x[1], y[1])]
                if False in rs:
                    return False
                if all(rs):
                    return True
            return self.facts.get(mk_eq(x, y))
        return self.facts.get(a)

    def fact(self, a):
        """Assume something true by construction (not a branch decision)."""
        n = len(self.order)
        ok = self.assume(a, True)
        del self.order[n:]
        return ok

    def assume(self, a, pol):
        """Add a fact; False if it contradicts what is known."""
        a = self.canon(a)
        known = self.decide(a)
        if known is not None:
            return known == pol
        self.order.append((a, pol))
        n = a[1] if a[0] == "op" else None
        if n in ("le", "lt"):
            t = a[2]
            c, d = lin_parts(t)
            integral = all(tyof(x) in ("int", "bool", "enum") for x in d)
            strict = n == "lt"
            if not pol:
                d = {k: -v for k, v in d.items()}
                c = -c
                strict = not strict
            if strict and integral and isinstance(c, int):
                c, strict = c + 1, False
            self.lins.append((d, c, strict))
            return True
        if n == "eq":
            x, y = a[2], a[3]
            if pol:
                return self.merge(x, y)
            self.facts[mk_eq(x, y)] = False
            if tyof(x) in ("bytes", "str") and (
                    mk_len(x) == ZERO or mk_len(y) == ZERO):
                m = len(self.order)
                self.assume(mk_eq(mk_len(x), mk_len(y)), False)
                del self.order[m:]
            if tyof(x) == tyof(y) == "int":
                # an end of the range that is excluded
                t = sub(x, y)
                for u in (t, scale(t, -1)):
                    if self.le0(u):
                        c, d = lin_parts(self.canon(u))
                        if d:
                            self.lins.append((d, c + 1, False))
            return True
        self.facts[a] = pol
        return True

    def merge(self, x, y):
        # representative: constants first, then the smaller term
        if is_const(y) or y[0] == "enum" or (
                not is_const(x) and x[0] != "enum"
                and len(skey(y)) < len(skey(x))):
            rep, old = y, x
        else:
            rep, old = x, y
        if x[0] == "tup" and y[0] == "tup":
            return all(self.assume(mk_eq(p, q), True)
                       for p, q in zip(x[1], y[1]))
        if numeric(x) and numeric(y) and (x[0] == "lin" or y[0] == "lin"):
            c, d = lin_parts(sub(x, y))
            self.lins.append((d, c, False))
            self.lins.append(({k: -v for k, v in d.items()}, -c, False))
            self.facts[mk_eq(x, y)] = True
            return True
        if mentions(rep, old):
            rep, old = old, rep
        lens = None
        if tyof(x) in ("bytes", "str"):
            lens = (mk_len(x), mk_len(y))
        self.eqs = {k: (rep if v == old else v) for k, v in self.eqs.items()}
        self.eqs[old] = rep
        # canonicalise what is known
        facts = {}
        for k, v in self.facts.items():
            nk = self.canon(k)
            if nk[0] == "op" and nk[1] == "eq":
                r = True if nk[2] == nk[3] else const_eq(nk[2], nk[3])
                if r is not None:
                    if r != v:
                        return False
                    continue
                nk = mk_eq(nk[2], nk[3])
            if facts.get(nk, v) != v:
                return False
            facts[nk] = v
        self.facts = facts
        lins = []
        for d, c, s in self.lins:
            nd, nc = {}, c
            for k, v in d.items():
                cc, dd = lin_parts(self.canon(k))
                nc += cc * v
                for z, w in dd.items():
                    nd[z] = nd.get(z, 0) + w * v
            nd = {k: v for k, v in nd.items() if v}
            if not nd:
                if nc > 0 or (s and nc == 0):
                    return False
                continue
            lins.append((nd, nc, s))
        self.lins = lins
        if numeric(x) and numeric(y) and lins:
            atoms = set()
            for z in (rep,):
                atoms |= set(lin_parts(z)[1])
            if fm_unsat(self.lin_cons(atoms)):
                return False
        if lens is not None:
            d = sub(self.canon(lens[0]), self.canon(lens[1]))
            c, dd = lin_parts(d)
            if not dd:
                return c == 0
            self.lins.append((dd, c, False))
            self.lins.append(({k: -v for k, v in dd.items()}, -c, False))
        return True

    def holds(self, a):
        return self.decide(a) is True

    def refuted(self, a):
        return self.decide(a) is False


DIGEST = {"hashlib.md5": 16, "hashlib.sha1": 20, "hashlib.sha224": 28,
          "hashlib.sha256": 32, "hashlib.sha384": 48, "hashlib.sha512": 64}


def mk_len(t):
    if t[0] == "c":
        return const(len(t[2]))
    if t[0] == "tup":
        return const(len(t[1]))
    if t[0] == "op" and t[1] == "cat":
        out = ZERO
        for x in t[2:]:
            out = add(out, mk_len(x))
        return out
    if t[0] == "op" and t[1] == "tobytes":
        return t[3]
    if t[0] == "op" and t[1] in ("hmac", "hash.digest"):
        n = DIGEST.get(t[-1][1]) if t[-1][0] == "ext" else None
        return const(n) if n else op("len", t)
    if t[0] == "op" and t[1] == "cipher":
        return mk_len(t[-1])
    if t[0] == "op" and t[1] == "slice":
        return sub(t[4], t[3])      # only built with bounds in range
    if t[0] == "op" and t[1] == "bytes.mul" and is_const(t[2]) \
            and numeric(t[3]) and lin_range(t[3])[0] >= 0:
        return scale(t[3], len(t[2][2]))
    return op("len", t)


def mk_cat(parts):
    out = []
    for p in parts:
        if p[0] == "op" and p[1] == "cat":
            out += list(p[2:])
        else:
            out.append(p)
    merged = []
    for p in out:
        if p[0] == "c" and len(p[2]) == 0:
            continue
        if merged and p[0] == "c" and merged[-1][0] == "c":
            merged[-1] = const(merged[-1][2] + p[2])
        else:
            merged.append(p)
    # re-join adjacent slices of the same base
    i = 0
    while i + 1 < len(merged):
        a, b = merged[i], merged[i + 1]
        if a[0] == "op" and a[1] == "slice" and b[0] == "op" \
                and b[1] == "slice" and a[2] == b[2] and a[4] == b[3]:
            merged[i:i + 2] = [mk_slice(a[2], a[3], b[4])]
        else:
            i += 1
    if not merged:
        return out[0] if out else const(b"")
    if len(merged) == 1:
        return merged[0]
    return ("op", "cat") + tuple(merged)


def mk_slice(base, lo, hi, st=None):
    can = (lambda t: t) if st is None else st.canon
    lo, hi = can(lo), can(hi)
    if lo == ZERO and hi == can(mk_len(base)):
        return base
    if lo == hi:
        return const(b"" if tyof(base) == "bytes" else "") \
            if tyof(base) in ("bytes", "str") else op("slice", base, lo, hi)
    if base[0] == "op" and base[1] == "slice":
        return mk_slice(base[2], add(base[3], lo), add(base[3], hi), st)
    if base[0] == "c" and is_const(lo) and is_const(hi):
        return const(base[2][lo[2]:hi[2]])
    if base[0] == "op" and base[1] == "cat":
        # cut at the boundaries of the parts
        at, i, j = ZERO, None, None
        for n, x in enumerate(base[2:] + (None,)):
            if i is None and at == lo:
                i = n
            if i is not None and at == hi:
                j = n
                break
            if x is not None:
                at = can(add(at, mk_len(x)))
        if j is not None:
            return mk_cat(base[2 + i:2 + j])
        sizes = [can(mk_len(x)) for x in base[2:]]
        if is_const(lo) and is_const(hi) and all(map(is_const, sizes)):
            # cut inside the parts
            out, at = [], 0
            for x, n in zip(base[2:], sizes):
                a, b = max(lo[2] - at, 0), min(hi[2] - at, n[2])
                if a < b:
                    out.append(mk_slice(x, const(a), const(b), st))
                at += n[2]
            if out:
                return mk_cat(out)
    return op("slice", base, lo, hi)


def byte_at(t, i):
    """Octet i of a term: of the part of a concatenation it falls into when
    that is known."""
    if t[0] == "c":
        return const(t[2][i[2]]) if is_const(i) and i[2] < len(t[2]) \
            else op("index", t, i)
    if t[:2] == ("op", "slice"):
        return byte_at(t[2], add(t[3], i))
    if t[:2] == ("op", "cat") and is_const(i):
        k = i[2]
        for p in t[2:]:
            n = mk_len(p)
            if not is_const(n):
                break
            if k < n[2]:
                return byte_at(p, const(k))
            k -= n[2]
    if t[:2] == ("op", "tobytes") and t[3] == const(1) and i == ZERO:
        return t[2]
    return op("index", t, i)


def const_eq(x, y):
    cx = x[2] if x[0] == "c" else x[3] if x[0] == "enum" else None
    cy = y[2] if y[0] == "c" else y[3] if y[0] == "enum" else None
    isx = x[0] in ("c", "enum")
    isy = y[0] in ("c", "enum")
    if isx and isy:
        if x[0] == "enum" and y[0] == "enum":
            if x[1] == y[1]:
                return x[2] == y[2]
            return cx is not None and cx == cy
        if (x == NONE) != (y == NONE):
            return False
        return cx == cy
    if x == NONE or y == NONE:
        o = y if x == NONE else x
        if o[0] in ("obj", "tup", "lin", "enum", "cls", "func", "bound",
                    "ext", "mod", "weak") or (
                o[0] == "s" and o[2] in ("int", "bytes", "str", "float",
                                         "bool")) \
                or (o[0] == "op" and tyof(o) != "any"):
            return False
        return None
    kinds = ("obj", "cls", "func", "mod", "ext", "enum", "bound", "tup")
    if x[0] in kinds and y[0] in kinds:
        if x[0] == "tup" and y[0] == "tup":
            return None
        if x[0] == "obj" and y[0] == "obj":
            return None
        return x == y
    tx, ty = tyof(x), tyof(y)
    num = ("int", "float", "bool", "enum")
    if tx in ("bytes", "str", "int", "float", "bool") and ty in (
            "bytes", "str", "int", "float", "bool") and tx != ty:
        if tx in num and ty in num:
            return None
        return False
    return None


def mk_eq(a, b):
    if skey(b) < skey(a):
        a, b = b, a
    return ("op", "eq", a, b)
