"""Numbers by which responses find their requests."""

from ..framework import *
from ..explore import objects
from ..scen import *
from .messages import V3, one
from .routing import NAMES, processors

GENERATOR = "snmp.utils.NumberGenerator"
HANDLE = "snmp.message.RequestHandle"
#: the values an ID may have, by protocol version (RFC 3412, RFC 3416)
FIELD = {"SNMPv1": (-2**31, 2**31 - 1), "SNMPv2c": (-2**31, 2**31 - 1),
         "SNMPv3": (0, 2**31 - 1)}


class Ids:
    """A processor and requests made through it.  Drawing a number gives any
    number of the generator's range (the first drawn from a generator is not
    zero); after `free` draws, one that has not been drawn before, or, if
    stuck, the first one again."""

    def __init__(self, c, version, qual, free=2, stuck=False, nozero=False):
        self.c, self.version, self.qual = c, version, qual
        self.free, self.stuck, self.nozero = free, stuck, nozero
        models = {
            GENERATOR + ".__init__": self.new,
            GENERATOR + ".__next__": self.draw,
            HANDLE + ".addCallback": self.given,
        }
        if version == "SNMPv3":
            models.update(v3_models(c.prog))
        else:
            models["snmp.asn1.ASN1.decode"] = community_wire
        self.it = c.engine(models)
        self.it.unroll = self.it.unroll_while = 24
        self.st = State()
        args = [N("maxSize", 484)] if version == "SNMPv3" else []
        self.st, self.mp = make(self.it, self.st, qual, *args)
        self.st.fact(op("le", sub(mk_len(B("community")), const(255))))
        self.st = self.ready(self.st)

    def ready(self, st):
        if self.version != "SNMPv3":
            return st
        it = self.it
        mod = it.input_obj(st, "snmp.security.SecurityModule", "module")
        st.mut(mod).attrs["MODEL"] = enum_const(
            it, "snmp.security.models.SecurityModel", "USM")
        return one(self.c, call(it, st, self.mp, "addSecurityModuleIfNeeded",
                                mod), "adding a security module")[0]

    # -- models -------------------------------------------------------------
    def new(self, it, st, f, args, kwargs, fr, node):
        b = bindargs(f, args, kwargs)
        names = [a.arg for a in f.node.args.args]
        n, signed = b[names[1]], b[names[2]]
        if n[0] != "c" or signed[0] != "c":
            raise AnalysisError("a generator of an unknown range")
        half = 1 << (n[2] - 1)
        lo, hi = (-half, half - 1) if signed[2] else (0, 2 * half - 1)
        o = st.mut(args[0])
        o.attrs["ids range"] = ("tup", (const(lo), const(hi)))
        o.attrs["ids first"] = TRUE
        return [(st, NONE)]

    def drawn(self, st):
        return [e[1][0] for e in st.events if e[0] == "drawn"]

    def draw(self, it, st, f, args, kwargs, fr, node):
        o = st.obj(args[0])
        r = o.attrs.get("ids range")
        if r is None:
            raise AnalysisError("a generator that was not constructed")
        lo, hi = (x[2] for x in r[1])
        old = self.drawn(st)
        v = ("s", it.fresh("drawn"), "int", (lo, hi))
        first = o.attrs["ids first"] == TRUE
        if first:
            st.mut(args[0]).attrs["ids first"] = FALSE
        it.event(st, "drawn", fr, node, v)
        if first or len(old) >= self.free or self.nozero:
            if not st.assume(mk_eq(v, ZERO), False):
                return []
        if len(old) >= self.free:
            if self.stuck:
                return [(st, old[0])]
            for x in old:
                if not st.assume(mk_eq(v, x), False):
                    return []
        return [(st, v)]

    def given(self, it, st, f, args, kwargs, fr, node):
        it.event(st, "given", fr, node, *args)
        return [(st, NONE)]

    # -- operations ---------------------------------------------------------
    def send(self, st):
        """Prepare a new message: [(state, handle, ID, failure)]"""
        it = self.it
        st = st.fork()
        i = len(events(st, "asked"))
        it.event(st, "asked", TOP, None)
        h = it.input_obj(st, HANDLE, f"handle{i}")
        st.fact(("strong", h))
        st.fact(op("alive", h))
        st, pdu = make(it, st, "snmp.pdu.GetRequestPDU", requestID=ZERO)
        st.names[("n", f"pdu{i}")] = pdu
        k = len(st.events)
        if self.version == "SNMPv3":
            st, level = level_const(it, st, "noAuthNoPriv")
            r = call(it, st, self.mp, "prepareOutgoingMessage", pdu, h,
                     B("engineID"), B("user"), level, contextName=B("ctx"))
        else:
            r = call(it, st, self.mp, "prepareOutgoingMessage", pdu, h,
                     B("community"))
        out = []
        for s, v in r:
            if isinstance(v, Exc):
                out.append((s, h, None, v))
                continue
            if self.version == "SNMPv3":
                msg = events(s, "outgoing", k)[-1][1][0]
                s, sid = one(self.c, get(it, s, msg, "header", "id"), "ID")
            else:
                s, sid = one(self.c, get(it, s, pdu, "requestID"), "ID")
            got = [e[1] for e in events(s, "given", k)
                   if s.canon(e[1][0]) == h]
            out.append((s, h, sid, None if len(got) == 1 and same(
                s, got[0][2], sid) is True else "callback"))
        return out

    def again(self, st, i):
        """Send a message once more: [(state, ID, failure)]"""
        it = self.it
        st = st.fork()
        pdu = st.names[("n", f"pdu{i}")]
        h = st.names[("n", f"handle{i}")]
        k = len(st.events)
        for s, v in call(it, st, self.mp, "prepareOutgoingMessage", pdu, h,
                         B("community")):
            if isinstance(v, Exc):
                yield s, None, v
                continue
            s, sid = one(self.c, get(it, s, pdu, "requestID"), "ID")
            yield s, sid, "callback" if events(s, "given", k) else None

    def release(self, st, i):
        """The request is over: what was registered with it is called."""
        h = st.names[("n", f"handle{i}")]
        for e in events(st, "given"):
            if st.canon(e[1][0]) == h:
                st, _ = one(self.c, self.it.call(
                    st, e[1][1], [e[1][2]], {}, TOP, None), "release")
        return st

    def receive(self, st, wire):
        """[state] after a message, whatever becomes of it."""
        st.names["wire"] = const(wire)
        out = [s for s, _ in call(self.it, st, self.mp,
                                  "prepareDataElements", B(wire))]
        for s in out:
            s.names.pop("wire", None)
        return out

    def found(self, st):
        """[(state, handle, wire ID)] a received message may be handed to."""
        it = self.it
        out = []
        for s, v in normal(call(it, st, self.mp, "prepareDataElements",
                                B("wire"))):
            msg, h = v[1]
            path = ("header", "id") if self.version == "SNMPv3" else \
                ("pdu", "requestID")
            s, wid = one(self.c, get(it, s, msg, *path), "received ID")
            out.append((s, s.canon(h), wid))
        return out


def fits(st, v, lo, hi):
    return st.decide(op("le", sub(const(lo), v))) is True and \
        st.decide(op("le", sub(v, const(hi)))) is True


def r01(c):
    c.rule("in range: the ID given to a new message is not zero and fits the "
           "field that carries it, and it is the one the request gives back "
           "when it is over")
    c.rule("distinct: it differs from the ID of every other open request, "
           "whatever numbers are drawn and whatever other threads do "
           "between two acquisitions of a lock; if none can be found the "
           "call fails")
    c.rule("found: a response is handed to a request exactly if it carries "
           "that request's ID, as long as the request is open, whatever "
           "became of the others")
    procs = processors(c)
    byname = {v[2]: q for v, q in procs.items()}
    for name in NAMES.values():
        if name not in byname:
            raise AnalysisError(f"no processor for {name}")
        sequence(c, name, byname[name])
        exhausted(c, name, byname[name])
        meanwhile(c, name, byname[name])
    c.floor("messages", 60)
    c.floor("pairs of open requests", 60)
    c.floor("deliveries", 60)
    c.floor("interferences", 6)


def check_new(c, x, s, sid, bad, where):
    fn = f"{x.qual}.prepareOutgoingMessage"
    c.count("messages")
    tr = c.trace(s)
    c.expect(bad is None, "in range", f"{fn}: release", where,
             "the ID of a message is not given to its request, once, to be "
             "released", tr)
    c.expect(same(s, sid, ZERO) is False, "in range", f"{fn}: zero", where,
             "a message may carry the ID 0", tr)
    c.expect(fits(s, sid, *FIELD[x.version]), "in range", f"{fn}: field",
             where, "the ID of a message may not fit its field", tr)


def distinct(c, x, s, ids, where):
    fn = f"{x.qual}.prepareOutgoingMessage"
    for i, a in enumerate(ids):
        for b in ids[:i]:
            c.count("pairs of open requests")
            c.expect(same(s, a, b) is False, "distinct", f"{fn}: distinct",
                     where, "two open requests may have the same ID",
                     c.trace(s))


def delivered(c, x, s, handles, ids, gone, where, failed=()):
    fn = f"{x.qual}.prepareDataElements"
    seen = set()
    for s2, h, wid in x.found(s):
        if h in failed:
            continue
        if h not in handles:
            c.expect(False, "found", f"{fn}: handle", where,
                     "a message is handed to an unknown request",
                     c.trace(s2))
            continue
        i = handles.index(h)
        c.count("deliveries")
        c.expect(i not in gone, "found", f"{fn}: released", where,
                 "a message is handed to a request that is over",
                 c.trace(s2))
        c.expect(same(s2, wid, ids[i]) is True, "found", f"{fn}: ID", where,
                 "a message is handed to a request with another ID",
                 c.trace(s2))
        seen.add(i)
    for i in range(len(handles)):
        if i not in gone:
            c.expect(i in seen, "found", f"{fn}: open", where,
                     "no message is ever handed to an open request",
                     c.trace(s))


def changed(a, b, root):
    """Whether the container or instance objects that belong to root in
    state a are others in state b."""
    seen, todo = set(), [root]
    while todo:
        r = todo.pop()
        if r in seen or r[1] not in a.heap:
            continue
        seen.add(r)
        x, y = a.heap[r[1]], b.heap[r[1]]
        if x.kind in ("inst", "dict", "list", "set"):
            def contents(o):
                return o.kind, o.items, o.base, o.ver, {
                    k: v for k, v in o.attrs.items()}
            if contents(x) != contents(y):
                return True
            for v in list(x.attrs.values()) + [x.items]:
                todo += objects(v, a)
    return False


def sequence(c, version, qual):
    where = c.prog.cls(qual).module.relpath
    x = Ids(c, version, qual, 3 if c.tier == "quick" else 5)
    todo = [(x.st, [], [])]
    for i in range(3):
        nxt = []
        for st, hs, ids in todo:
            for s, h, sid, bad in x.send(st):
                if sid is None:
                    if len(events(s, "outgoing")) == i + 1:
                        continue        # refused by the security module
                    c.expect(False, "distinct",
                             f"{qual}.prepareOutgoingMessage: {bad.cls}",
                             bad.where, "a message fails although there are "
                             "free IDs", c.trace(s))
                    continue
                check_new(c, x, s, sid, bad, where)
                distinct(c, x, s, ids + [sid], where)
                nxt.append((s, hs + [h], ids + [sid]))
        todo = nxt
    for s, hs, ids in todo:
        delivered(c, x, s, hs, ids, (), where)
        for i in range(3):
            delivered(c, x, x.release(s.fork(), i), hs, ids, (i,), where)
    # however many are open
    for s, h, sid, bad in x.send(x.st):
        for s2, h2, sid2, bad2 in x.send(crowd(s, x.mp)) if sid else ():
            if sid2 is not None:
                c.count("sent among many")
                delivered(c, x, s2, [h, h2], [sid, sid2], (), where)
    # a message that is sent again
    for s, hs, ids in todo if version != "SNMPv3" else ():
        for s2, sid, bad in x.again(s, 0):
            c.count("messages sent again")
            if c.expect(bad is None and same(s2, sid, ids[0]) is True,
                        "again", f"{qual}.prepareOutgoingMessage", where,
                        "a request that is sent again does not keep its ID",
                        c.trace(s2)) and changed(s, s2, x.mp):
                delivered(c, x, s2, hs, ids, (), where)
    # a message leaves every request open, whether it is accepted or not
    x.it.maxsteps *= 10
    for s, hs, ids in todo[:1]:
        for s2 in x.receive(s.fork(), "earlier"):
            c.count("messages before a delivery")
            if changed(s, s2, x.mp):
                delivered(c, x, s2, hs, ids, (), where)
            else:
                c.ok("found", f"{qual}: unchanged")
    c.expect(bool(todo), "distinct", f"{qual}: outcomes", where,
             "no three requests can be made")
    c.used(x.it)


def exhausted(c, version, qual):
    where = c.prog.cls(qual).module.relpath
    x = Ids(c, version, qual, 1, stuck=True)
    for s, h, sid, bad in x.send(x.st):
        if sid is None:
            continue
        for s2, h2, id2, bad2 in x.send(s):
            c.count("exhaustions")
            c.expect(id2 is None, "distinct",
                     f"{qual}.prepareOutgoingMessage: exhausted", where,
                     "a message is sent although no free ID was found",
                     c.trace(s2))
            delivered(c, x, s2, [h], [sid], (), where, (h2,))
    c.used(x.it)


def meanwhile(c, version, qual):
    """Another thread sends a message, or ends its request, wherever the
    first does not hold a lock."""
    where = c.prog.cls(qual).module.relpath
    for what in ("send", "release"):
        x = Ids(c, version, qual, 3, nozero=True)
        for s, h0, id0, bad in x.send(x.st):
            if id0 is None:
                continue

            x.it.interfere = lambda st, lock, fr, node: between(
                c, x, st, what)
            try:
                res = x.send(s)
            finally:
                x.it.interfere = None
            for s2, h, sid, bad in res:
                mine = [e[1] for e in events(s2, "interfered")]
                hs, ids, gone, lost = [h0], [id0], (), ()
                if what == "release":
                    gone = (0,) if mine else ()
                if sid is not None:
                    check_new(c, x, s2, sid, bad, where)
                    hs.append(h)
                    ids.append(sid)
                else:
                    lost = (h,)
                for e in mine:
                    if e[0] is not None:
                        hs.append(e[0])
                        ids.append(e[1])
                distinct(c, x, s2, ids if not gone else ids[1:], where)
                delivered(c, x, s2, hs, ids, gone, where, lost)
        c.used(x.it)


def between(c, x, st, what):
    if events(st, "interfered"):
        return [st]
    hook, x.it.interfere = x.it.interfere, None
    out = [st.fork()]
    try:
        c.count("interferences")
        if what == "release":
            s = x.release(st.fork(), 0)
            x.it.event(s, "interfered", TOP, None, None, None)
            return out + [s]
        for s, h, sid, bad in x.send(st):
            if sid is not None:
                x.it.event(s, "interfered", TOP, None, h, sid)
                out.append(s)
        return out
    finally:
        x.it.interfere = hook


# -- the generator ----------------------------------------------------------

def bounded(it, name, lo, hi):
    return ("s", it.fresh(name), "int", (lo, hi))


def rnd_int(it, st, args, kwargs, fr, node):
    lo, hi = args
    if lo[0] != "c" or hi[0] != "c":
        raise AnalysisError("random number in an unknown range")
    if lo[2] > hi[2]:
        return it.exc(st, "builtins.ValueError", fr.where(node))
    return [(st, bounded(it, "random", lo[2], hi[2]))]


def rnd_range(it, st, args, kwargs, fr, node):
    args = [a[2] for a in args]
    lo, hi, by = (0, args[0], 1) if len(args) == 1 else \
        (*args, 1) if len(args) == 2 else args
    if lo >= hi:
        return it.exc(st, "builtins.ValueError", fr.where(node))
    k = bounded(it, "random", 0, (hi - lo - 1) // by)
    return [(st, add(const(lo), scale(k, by)))]


def rnd_bits(it, st, args, kwargs, fr, node):
    return [(st, bounded(it, "random", 0, (1 << args[0][2]) - 1))]


RANDOM = {"random.randint": rnd_int, "random.randrange": rnd_range,
          "random.getrandbits": rnd_bits, "secrets.randbelow": rnd_range,
          "secrets.randbits": rnd_bits}


def residue(t, m):
    """A linear form that is congruent to t modulo m."""
    c, d = lin_parts(t)
    acc = const(c % m)
    for a, k in d.items():
        acc = add(acc, scale(reduced(a, m), k))
    c, d = lin_parts(acc)
    return mk_lin(c % m, {a: k % m for a, k in d.items()})


def reduced(a, m):
    if a[0] == "op" and len(a) == 4:
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if not is_const(y) or not isinstance(y[2], int):
                continue
            if a[1] == "&" and (y[2] + 1) % m == 0:
                return residue(x, m)
            if a[1] == "^" and y[2] == m // 2:
                return residue(add(x, y), m)
        if a[1] == "%" and is_const(a[3]) and a[3][2] % m == 0:
            return residue(a[2], m)
    return a


def odd(t):
    c, d = lin_parts(t)
    odd = c % 2
    for a, k in d.items():
        if k % 2 == 0:
            continue
        if a[0] == "op" and a[1] == "|" and any(
                is_const(x) and x[2] % 2 for x in a[2:]):
            odd = 1 - odd
        else:
            return False
    return odd == 1


def r03(c):
    c.rule("step: from every state, the next number is the state, or the "
           "state before, moved by the same odd constant modulo 2^n, and "
           "lies in the range of n-bit numbers; so does the new state")
    c.rule("start: the first number is that constant modulo 2^n; hence the "
           "k-th is k times it, every number of the range comes exactly once "
           "in 2^n, and zero comes last")
    for n in (1, 2, 8, 16, 31, 32, 64) if c.tier == "quick" else \
            tuple(range(1, 130)):
        for signed in (True, False):
            generator(c, n, signed)
    c.floor("steps", 14)


def generator(c, n, signed):
    cls = c.prog.cls(GENERATOR)
    where = cls.module.relpath
    what = f"NumberGenerator({n}, signed={signed})"
    it = c.engine({})
    it.extmodels = dict(it.extmodels, **RANDOM)
    it.unroll = it.unroll_while = 8
    m = 1 << n
    lo, hi = (-m // 2, m // 2 - 1) if signed else (0, m - 1)
    made = normal(it.instantiate(State(), GENERATOR, [const(n)],
                                 {"signed": const(signed)}, TOP, None))
    c.expect(bool(made), "start", f"{what}: constructed", where,
             "a generator cannot be made")
    for s0, g in made:
        s0, me = one(c, call(it, s0, g, "__iter__"), "__iter__")
        c.expect(s0.canon(me) == g, "start", f"{what}: iterator", where,
                 "iterating over a generator does not give itself")
        before = dict(s0.obj(g).attrs)
        first = call(it, s0, g, "__next__")
        moving = sorted({k for s, _ in first for k, v in
                         s.obj(g).attrs.items()
                         if s.canon(v) != s0.canon(before.get(k, NONE))})
        if len(moving) != 1:
            raise AnalysisError(f"{what}: state kept in {moving}")
        a = moving[0]
        start = s0.canon(before[a])
        c.expect(fits(s0, start, lo, hi), "start", f"{what}: state", where,
                 "the first state is out of range")
        p = ("s", it.fresh("state"), "int", (lo, hi))
        st = s0.fork()
        st.mut(g).attrs[a] = p
        steps = set()
        for s1, r in call(it, st, g, "__next__"):
            c.count("steps")
            tr = c.trace(s1, r)
            if isinstance(r, Exc):
                c.expect(False, "step", f"{what}: {r.cls}", r.where,
                         f"drawing a number fails with {r.cls}", tr)
                continue
            r = s1.canon(r)
            q = s1.canon(s1.obj(g).attrs[a])
            d = residue(sub(q, p), m)
            e = residue(sub(r, p), m)
            steps.add((d, e))
            c.expect(fits(s1, r, lo, hi), "step", f"{what}: range", where,
                     f"a number may lie outside of {lo}..{hi}", tr)
            c.expect(fits(s1, q, lo, hi), "step", f"{what}: state", where,
                     f"the state may leave {lo}..{hi}", tr)
            c.expect(m == 1 or odd(d), "step", f"{what}: odd", where,
                     "the numbers are not an odd constant apart", tr)
            c.expect(not mentions(d, p) and all(
                x in s0_symbols(s0, g) for x in subterms(d)
                if x[0] == "s"), "step", f"{what}: constant", where,
                "the distance between numbers varies", tr)
            c.expect(e in (ZERO, d), "step", f"{what}: number", where,
                     "the number drawn is not the state", tr)
            c.expect(residue(sub(add(start, e), d), m) == ZERO, "start",
                     f"{what}: first", where, "the first number is not one "
                     "step away from zero", tr)
        c.expect(len(steps) == 1, "step", f"{what}: same", where,
                 "the distance between numbers varies")
    c.used(it)


def s0_symbols(s0, g):
    out = set()
    for v in s0.obj(g).attrs.values():
        out |= {x for x in subterms(s0.canon(v)) if x[0] == "s"}
    return out
