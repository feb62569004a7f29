"""Windows into a buffer, and comparisons of values."""

from ..scen import *
from .codec import attr, octets, SUB, plain

UTILS = "snmp/utils.py"


def clamp(it, st, v, n, default):
    """Where a bound of a slice of something of length n lies."""
    if v == NONE:
        return [(st, default)]
    out = []
    for s, neg in it.split(st, op("lt", v)):
        w = add(v, n) if neg else v
        for s2, low in it.split(s, op("lt", w)):
            if low:
                out.append((s2, ZERO))
                continue
            for s3, high in it.split(s2, op("le", sub(n, w))):
                out.append((s3, n if high else w))
    return out


def window(it, st, a, b, lo, hi):
    """Where a slice of the window [lo, hi) lies: [(state, lo, hi)]"""
    n = sub(hi, lo)
    out = []
    for s, x in clamp(it, st, a, n, ZERO):
        for s2, y in clamp(it, s, b, n, n):
            for s3, none in it.split(s2, op("lt", sub(y, x))):
                out.append((s3, add(lo, x), add(lo, x if none else y)))
    return out


class Windows:
    def __init__(self, c, it, D):
        self.c, self.it, self.D = c, it, D

    def bad(self, ok, what, message, s, v):
        return self.c.expect(ok, "window", what, v.where if isinstance(
            v, Exc) else UTILS, message, self.c.trace(s, v))

    def is_window(self, s, x, lo, hi, what):
        """x is a window of D from lo to hi."""
        self.c.count("windows")
        if not self.bad(not isinstance(x, Exc), what, "cannot be made", s, x):
            return False
        s, W = attr(self.it, s, x, "data")
        s, a = attr(self.it, s, x, "start")
        s, z = attr(self.it, s, x, "stop")
        empty = s.decide(op("le", sub(hi, lo)))
        ok = same(s, W, self.D) is True and same(
            s, sub(z, a), sub(hi, lo)) is True and (
            empty is True or same(s, a, lo) is True)
        return self.bad(ok, what, "another part of the buffer", s, x)

    def content(self, s, lo, hi):
        return normal(self.it.getitem(s, self.D, ("slice", lo, hi, NONE), TOP,
                                      None))[0]

    def reads(self, s, x, lo, hi):
        it, c = self.it, self.c
        n = sub(hi, lo)
        for s2, v in it.call_ext(s.fork(), "builtins.len", [x], {}, TOP,
                                 None):
            self.bad(same(s2, v, n) is True, "len()", "another length", s2, v)
        for s2, b in it.truth(s.fork(), x, TOP, None):
            if isinstance(b, Exc):
                self.bad(False, "bool()", "raises", s2, b)
                continue
            self.bad(s2.decide(op("lt", sub(lo, hi))) is b, "bool()",
                     "not whether it is non-empty", s2, x)
        for s2, v in it.getitem(s.fork(), x, ("slice", NONE, NONE, NONE), TOP,
                                None):
            s2, w = self.content(s2, lo, hi)
            self.bad(self.same_octets(s2, v, w) or self.empty(
                s2, v, lo, hi), "copy", "other octets", s2,
                     v)
        i = N("i", -2 ** 40, 2 ** 40)
        for s1, neg in it.split(s.fork(), op("lt", i)):
            k = add(i, n) if neg else i
            for s2, good in it.split(s1, op("lt", sub(k, n))):
                for s3, low in it.split(s2, op("lt", k)):
                    fits = good and not low
                    for s4, v in it.getitem(s3, x, i, TOP, None):
                        c.count("octets read")
                        if isinstance(v, Exc):
                            self.bad(not fits and v.cls ==
                                     "builtins.IndexError", "octet",
                                     f"{v.cls}", s4, v)
                            continue
                        if not self.bad(fits, "octet", "read from outside "
                                        "the window", s4, v):
                            continue
                        for s5, w in it.getitem(s4, self.D, add(lo, k), TOP,
                                                None):
                            self.bad(not isinstance(w, Exc) and same(
                                s5, v, w) is True, "octet", "another octet",
                                s5, v)

    def parts(self, s, x, lo, hi, deep):
        """Everything that makes a window or octets out of another."""
        it = self.it
        p, q = N("p", -2 ** 40, 2 ** 40), N("q", -2 ** 40, 2 ** 40)
        for a, b in ((p, NONE), (NONE, q), (p, q)):
            for s1, l, h in window(it, s.fork(), a, b, lo, hi):
                for s2, y in it.instantiate(s1.fork(), SUB, [x, a, b], {},
                                            TOP, None):
                    self.is_window(s2, y, l, h, "window of a window")
                for s2, v in it.getitem(s1, x, ("slice", a, b, NONE), TOP,
                                        None):
                    s2, w = self.content(s2, l, h)
                    self.c.count("slices")
                    self.bad(not isinstance(v, Exc) and (
                        self.same_octets(s2, v, w) or self.empty(
                            s2, v, l, h)),
                        "slice", "other octets", s2, v)
        for s1, l, h in window(it, s.fork(), const(1), NONE, lo, hi):
            for s2, y in call(it, s1, x, "advance"):
                self.is_window(s2, y, l, h, "advance()")
        for s1, l, h in window(it, s.fork(), NONE, q, lo, hi):
            for s1b, l2, h2 in window(it, s1, q, NONE, lo, hi):
                for s2, y in call(it, s1b, x, "split", q):
                    if not self.bad(y[0] == "tup" if not isinstance(y, Exc)
                                    else False, "split()", "raises", s2, y):
                        continue
                    self.is_window(s2, y[1][0], l, h, "split()")
                    self.is_window(s2, y[1][1], l2, h2, "split()")
        for s1, some in it.split(s.fork(), op("lt", sub(lo, hi))):
            for s2, v in call(it, s1, x, "dereference"):
                if isinstance(v, Exc):
                    self.bad(not some and v.cls == "builtins.IndexError",
                             "dereference()", f"{v.cls}", s2, v)
                elif self.bad(some, "dereference()", "reads an empty "
                              "sequence", s2, v):
                    s2, w = normal(it.getitem(s2, self.D, lo, TOP, None))[0]
                    self.bad(same(s2, v, w) is True, "dereference()",
                             "another octet", s2, v)
        for s1, v in call(it, s.fork(), x, "replace", B("new")):
            s1, w1 = self.content(s1, ZERO, lo)
            s1, w2 = self.content(s1, hi, mk_len(self.D))
            self.bad(not isinstance(v, Exc) and (same(s1, v, mk_cat(
                [w1, B("new"), w2])) is True or self.replaced(
                    s1, v, (w1, ZERO, lo), (w2, hi, mk_len(self.D)))),
                "replace()", "not the buffer with the window replaced", s1, v)

    def replaced(self, s, v, *around):
        ps = list(v[2:]) if v[:2] == ("op", "cat") else [v]
        if ps.count(B("new")) != 1:
            return False
        i = ps.index(B("new"))
        for (w, l, h), p in zip(around, (ps[:i], ps[i + 1:])):
            p = mk_cat(p) if p else const(b"")
            if not self.same_octets(s, p, w) and not self.empty(s, p, l, h):
                return False
        return True

    def same_octets(self, s, v, w):
        """Equal, or slices of the same with equal bounds."""
        if isinstance(v, Exc) or same(s, v, w) is True:
            return not isinstance(v, Exc)
        x, y = self.place(v), self.place(w)
        return None not in (x, y) and all(
            same(s, i, j) is True for i, j in zip(x, y))

    def place(self, v):
        if v == self.D:
            return ZERO, mk_len(self.D)
        return v[3:5] if v[:3] == ("op", "slice", self.D) else None

    def empty(self, s, v, l, h):
        return s.decide(op("le", sub(h, l))) is True and (
            v == const(b"") or s.decide(mk_eq(mk_len(v), ZERO)) is True)


def d11(c):
    c.rule("A window stands for the slice of the buffer with the same "
           "bounds, whatever integers they are: its length, truth, octets, "
           "copies, and the windows made from it are those of the slice, "
           "without touching other octets.")
    it = plain(c)
    st = State()
    st.fact(op("lt", sub(ZERO, mk_len(B("D")))))
    windows(c, it, st, B("D"))
    windows(c, it, State(), const(b""))
    iterations(c, it)
    c.used(it)
    c.floor("windows", 200)
    c.floor("octets read", 20)


def windows(c, it, st, D):
    w = Windows(c, it, D)
    L = mk_len(D)
    a, b = N("a", -2 ** 40, 2 ** 40), N("b", -2 ** 40, 2 ** 40)
    for x, y in ((NONE, NONE), (a, NONE), (NONE, b), (a, b)):
        for s, lo, hi in window(it, st.fork(), x, y, ZERO, L):
            args = [D] + ([] if x == y == NONE else [x, y])
            for s2, o in it.instantiate(s, SUB, args, {}, TOP, None):
                if w.is_window(s2, o, lo, hi, "window"):
                    w.reads(s2, o, lo, hi)
                    w.parts(s2, o, lo, hi, c.tier == "thorough")


def iterations(c, it):
    """Iteration and comparison, octet by octet."""
    for n in range(0, 4):
        for before in (0, 2):
            for after in (0, 1):
                ds = [N(f"d{i}", 0, 255) for i in range(before + n + after)]
                D = octets(*ds)
                mine = ds[before:before + n]
                for s, x in it.instantiate(
                        State(), SUB, [D, const(before), const(before + n)],
                        {}, TOP, None):
                    for s2, v in it.call_ext(s.fork(), "builtins.tuple", [x],
                                             {}, TOP, None):
                        c.count("iterations")
                        c.expect(not isinstance(v, Exc) and same(
                            s2, v, ("tup", tuple(mine))) is True, "window",
                            "iteration", UTILS, "other octets than those of "
                            "the window", c.trace(s2, v))
                    stepped(c, it, s, x, mine)
                    for m in range(0, 4):
                        equal(c, it, s, x, mine,
                              [N(f"e{i}", 0, 255) for i in range(m)])


def stepped(c, it, st, x, mine):
    """Slices with a step, backwards too."""
    bounds = [None, 0, 1, -1, -2]
    for step in (-2, -1, 1, 2):
        for a in bounds:
            for b in bounds:
                want = octets(*mine[a:b:step])
                key = [NONE if y is None else const(y) for y in (a, b, step)]
                for s, v in it.getitem(st.fork(), x, ("slice", *key), TOP,
                                       None):
                    c.count("slices")
                    c.expect(not isinstance(v, Exc) and same(
                        s, v, want) is True, "window",
                        f"[{a}:{b}:{step}] of {len(mine)}", UTILS,
                        "other octets than those of the slice",
                        c.trace(s, v))


def equal(c, it, st, x, mine, other):
    conds = [mk_eq(a, b) for a, b in zip(mine, other)]
    states = [(st.fork(), len(mine) == len(other))]
    for cond in conds:
        states = [(s2, eq and b) for s, eq in states
                  for s2, b in it.split(s, cond)]
    for s, want in states:
        for how in ("bytes", "window"):
            s1, y = s.fork(), octets(*other)
            if how == "window":
                s1, y = normal(it.instantiate(s1, SUB, [mk_cat(
                    [const(b"x"), y]), const(1)], {}, TOP, None))[0]
            for s2, v in it.eqv(x, y, s1, TOP, None):
                for s3, t in it.truth(s2, v, TOP, None):
                    c.count("comparisons")
                    c.expect(t is want, "window", "comparison", UTILS,
                             "equal octets compare unequal, or others equal",
                             c.trace(s3, x))


# -- comparisons -------------------------------------------------------------

LEVELS3 = ("noAuthNoPriv", "authNoPriv", "authPriv")
UNI, APP, CTX = 0, 1, 2
TAGS = {"snmp.asn1.INTEGER": (2, UNI), "snmp.smi.Integer32": (2, UNI),
        "snmp.smi.Unsigned32": (2, APP), "snmp.smi.Counter32": (1, APP),
        "snmp.smi.Gauge32": (2, APP), "snmp.smi.TimeTicks": (3, APP),
        "snmp.smi.Counter64": (6, APP), "snmp.asn1.OCTET_STRING": (4, UNI),
        "snmp.smi.OctetString": (4, UNI), "snmp.smi.Opaque": (4, APP),
        "snmp.smi.IpAddress": (0, APP), "snmp.asn1.NULL": (5, UNI),
        "snmp.pdu.NoSuchObject": (0, CTX), "snmp.pdu.NoSuchInstance":
        (1, CTX), "snmp.pdu.EndOfMibView": (2, CTX),
        "snmp.asn1.OBJECT_IDENTIFIER": (6, UNI), "snmp.smi.OID": (6, UNI)}


def some(q, x):
    """[(constructor arguments, terms that make the content)]"""
    kind = TAGS[q]
    if kind in ((2, UNI), (2, APP), (1, APP), (3, APP), (6, APP)):
        v = N(f"n{x}", 0, 2 ** 31 - 1)
        return [([v], (v,))]
    if q == "snmp.smi.IpAddress":
        ds = tuple(N(f"a{x}{i}", 0, 255) for i in range(4))
        return [([op("typed", "str", op("ntoa", octets(*ds)))], ds)]
    if kind in ((4, UNI), (4, APP)):
        return [([B(f"b{x}")], (B(f"b{x}"),))]
    if kind == (6, UNI):
        out = []
        for n in (2, 3):
            s = (N(f"i{x}0", 0, 2), N(f"i{x}1", 0, 39)) + tuple(
                N(f"i{x}{j}", 0, 2 ** 32 - 1) for j in range(2, n))
            out.append((list(s), s))
        return out
    return [([], ())]


def truth_of(it, st, a, b, o):
    import ast
    f = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE,
         ">": ast.Gt, ">=": ast.GtE}[o]
    return it.seq(it.compare(f(), a, b, st.fork(), TOP, None),
                  lambda s, v: it.truth(s, v, TOP, None))


def d07(c):
    c.rule("Two values are equal exactly when their encodings are: the same "
           "tag and the same content; a value is equal to nothing that is "
           "not such a value, and comparing never raises.")
    c.rule("Equal values that can be hashed have equal hashes.")
    c.rule("Object identifiers are ordered lexicographically; security "
           "levels by what they protect.")
    from .index import platform
    it = c.engine(protocol=False, join=False, ext=platform(c))
    it.unroll = 40
    it.nesting = 12
    it.opaque_eq = frozenset()
    it.maxsteps = 10 ** 9
    values(c, it)
    structures(c, it)
    tags(c, it)
    identifiers(c, it)
    levels(c, it)
    strangers(c, it)
    c.used(it)
    c.floor("comparisons", 1000)


def compared(c, it, st, a, b, conds, possible, what, hashable=False):
    """a and b are to be equal if all conditions hold, if possible at all."""
    states = [(st.fork(), possible)]
    for cond in conds:
        states = [(s2, eq and b) for s, eq in states
                  for s2, b in (it.split(s, cond) if possible and eq
                                else [(s, False)])]
    for s, want in states:
        for o in ("==", "!="):
            for s2, t in truth_of(it, s, a, b, o):
                c.count("comparisons")
                c.expect(t is (want if o == "==" else not want), "equality",
                         what, t.where if isinstance(t, Exc) else
                         "snmp/asn1.py", f"{t!r} where the encodings are "
                         f"{'equal' if want else 'different'}",
                         c.trace(s2, a))
        if want and hashable:
            hashes(c, it, s, a, b, what)


def hashes(c, it, s, a, b, what):
    for s2, x in it.call_ext(s.fork(), "builtins.hash", [a], {}, TOP, None):
        for s3, y in it.call_ext(s2, "builtins.hash", [b], {}, TOP, None):
            c.count("hashes")
            c.expect(not isinstance(x, Exc) and not isinstance(y, Exc)
                     and same(s3, x, y) is True, "hash", what,
                     "snmp/asn1.py", "equal values have different hashes",
                     c.trace(s3, x))


def values(c, it):
    for q1, t1 in TAGS.items():
        for q2, t2 in TAGS.items():
            for xs, cx in some(q1, "x"):
                for ys, cy in some(q2, "y"):
                    st, a = make(it, State(), q1, *xs)
                    st, b = make(it, st, q2, *ys)
                    compared(c, it, st, a, b, [mk_eq(x, y) for x, y in zip(
                        cx, cy)] if t1 == t2 else [],
                        t1 == t2 and len(cx) == len(cy), f"{q1} == {q2}",
                        t1 == (6, UNI))
        for xs, cx in some(q1, "x"):
            for other in (NONE, N("z"), B("z"), S("z"), ("tup", ())):
                st, a = make(it, State(), q1, *xs)
                compared(c, it, st, a, other, [], False, f"{q1} == "
                         f"{tyof(other)}")


def structures(c, it):
    """Sequences: of the same class, with equal elements."""
    from .codec import PDUS, pdu_of, Layout
    pairs = []
    for name in PDUS:
        f = ("nonRepeaters", "maxRepetitions") if "Bulk" in name else (
            "errorIndex",)
        pairs.append(("snmp.pdu." + name, f))
    def build(st, q, f, x, kinds):
        args = []
        eqs = []
        for i, k in enumerate(kinds):
            n = N(f"{x}name{i}", 0, 2 ** 32 - 1)
            st, oid = make(it, st, "snmp.smi.OID", const(1), const(3), n)
            v = N(f"{x}value{i}", 0, 2 ** 31 - 1)
            st, val = make(it, st, k, v)
            st, vb = make(it, st, "snmp.pdu.VarBind", oid, val)
            args.append(vb)
            eqs += [n, v]
        kw = {n: N(x + n, 0, 2 ** 31 - 1) for n in f + ("requestID",)}
        r = normal(it.instantiate(st, q, args, kw, TOP, None))
        return r[0][0], r[0][1], [kw[n] for n in sorted(kw)] + eqs
    I, G = "snmp.smi.Integer32", "snmp.smi.Gauge32"
    for (q1, f1) in pairs:
        for (q2, f2) in pairs:
            for k1, k2 in (((), ()), ((I,), (I,)), ((I,), (G,)),
                           ((I,), (I, I)), ((I, G), (I, G))):
                if q1 != q2 and (k1, k2) != ((), ()):
                    continue
                st, a, ex = build(State(), q1, f1, "x", k1)
                st, b, ey = build(st, q2, f2, "y", k2)
                compared(c, it, st, a, b, [mk_eq(x, y) for x, y in zip(
                    ex, ey)], q1 == q2 and k1 == k2, f"{q1} == {q2}")


def tags(c, it):
    from .codec import mk_tag
    for cl1 in range(4):
        for cl2 in range(4):
            for k1 in (False, True):
                for k2 in (False, True):
                    n, m = N("n", 0, 2 ** 32), N("m", 0, 2 ** 32)
                    st, a = mk_tag(it, State(), n, k1, cl1)
                    st, b = mk_tag(it, st, m, k2, cl2)
                    compared(c, it, st, a, b, [mk_eq(n, m)],
                             cl1 == cl2 and k1 == k2, "snmp.ber.Tag", True)


def strangers(c, it):
    """Structures, tags and levels against anything else."""
    from .codec import mk_tag
    st, tag = mk_tag(it, State(), N("n", 0, 2 ** 32), False, 0)
    st, level = normal(it.global_(st, "snmp.security.levels", "authPriv",
                                  TOP, None))[0]
    st, oid = make(it, st, "snmp.smi.OID", const(1), const(3))
    st, val = make(it, st, "snmp.smi.Integer32", N("v", 0, 9))
    st, vb = make(it, st, "snmp.pdu.VarBind", oid, val)
    st, pdu = make(it, st, "snmp.pdu.GetRequestPDU", vb)
    mine = {"snmp.ber.Tag": tag, "snmp.security.levels.SecurityLevel": level,
            "snmp.pdu.VarBind": vb, "snmp.pdu.GetRequestPDU": pdu}
    others = [NONE, N("z"), S("z"), ("tup", ()), val]
    for q, a in mine.items():
        for b in others + [x for x in mine.values() if x is not a]:
            compared(c, it, st.fork(), a, b, [], False,
                     f"{q} == {tyof(b) or 'another object'}")
            if b in mine.values():
                continue
            compared(c, it, st.fork(), b, a, [], False,
                     f"{tyof(b) or 'another object'} == {q}")


def identifiers(c, it):
    q = "snmp.smi.OID"
    for n in range(0, 4):
        for m in range(0, 4):
            xs = [N("x0", 0, 2), N("x1", 0, 39), N("x2", 0, 2 ** 32 - 1)][:n]
            ys = [N("y0", 0, 2), N("y1", 0, 39), N("y2", 0, 2 ** 32 - 1)][:m]
            st, a = make(it, State(), q, *xs)
            st, b = make(it, st, q, *ys)
            # the first difference decides
            states, done = [(st, None)], []
            for x, y in zip(xs, ys):
                nxt = []
                for s, _ in states:
                    for s2, lt in it.split(s, op("lt", sub(x, y))):
                        if lt:
                            done.append((s2, -1))
                            continue
                        for s3, gt in it.split(s2, op("lt", sub(y, x))):
                            (done if gt else nxt).append((s3, 1))
                states = nxt
            done += [(s, (n > m) - (n < m)) for s, _ in states]
            for s, sign in done:
                for o, want in (("<", sign < 0), (">", sign > 0),
                                ("==", sign == 0)):
                    for s2, t in truth_of(it, s, a, b, o):
                        c.count("comparisons")
                        c.expect(t is want, "order", f"{q} {o}",
                                 t.where if isinstance(t, Exc) else
                                 "snmp/asn1.py", "not the lexicographic "
                                 "order", c.trace(s2, a))


def levels(c, it):
    q = "snmp.security.levels"
    for i, x in enumerate(LEVELS3):
        for j, y in enumerate(LEVELS3):
            st, a = normal(it.global_(State(), q, x, TOP, None))[0]
            st, b = normal(it.global_(st, q, y, TOP, None))[0]
            for o, want in (("<", i < j), ("<=", i <= j), ("==", i == j),
                            ("!=", i != j), (">", i > j), (">=", i >= j)):
                for s2, t in truth_of(it, st, a, b, o):
                    c.count("comparisons")
                    c.expect(t is want, "order", f"{x} {o} {y}", t.where if
                             isinstance(t, Exc) else
                             "snmp/security/levels.py", f"{t!r}",
                             c.trace(s2, a))
    cls = "snmp.security.levels.SecurityLevel"
    for auth in (False, True):
        for priv in (False, True):
            for s, r in it.instantiate(State(), cls, [const(auth),
                                                      const(priv)], {}, TOP,
                                       None):
                c.count("comparisons")
                if priv and not auth:
                    c.expect(isinstance(r, Exc) and r.cls ==
                             "builtins.ValueError", "order", cls,
                             "snmp/security/levels.py", "privacy without "
                             "authentication is not refused", c.trace(s, r))
                    continue
                got = [normal(it.getattr(s, r, n, TOP, None))[0][1]
                       for n in ("auth", "priv")] if not isinstance(
                           r, Exc) else None
                c.expect(got == [const(auth), const(priv)], "order", cls,
                         "snmp/security/levels.py", "another level than "
                         "asked for", c.trace(s, r))
