"""What is accepted from the network, and what is rejected."""

from ..scen import *
from ..program import AnalysisError
from .codec import (attr, message_engine, Layout, PDUS, VERSION_PDUS, VALUES,
                    pdu_of, pdu_types, varbinds, small_ok, plain_int,
                    inet, OID)

INCOMING = "snmp.exception.IncomingMessageError"
VALUE_TAGS = {(2, 0), (4, 0), (5, 0), (6, 0), (0, 1), (1, 1), (2, 1), (3, 1),
              (4, 1), (6, 1), (0, 2), (1, 2), (2, 2)}
VERSIONS = {"SNMPv1": 0, "SNMPv2c": 1, "SNMPv3": 3}


class Gate:
    def __init__(self, c):
        self.c = c
        self.it = message_engine(c)
        self.it.extmodels.update(inet(c))
        self.w = Layout(self.it)

    def verdict(self, what, results, good, where):
        """good: True, False, or a function of the state giving a condition
        that must be known where the message is accepted, and refuted where
        it is not."""
        if not results:
            raise AnalysisError(f"{what}: no outcome")
        for s, r in results:
            self.c.count("messages judged")
            if isinstance(r, Exc):
                self.c.expect(is_incoming(self.it, r.cls), "rejection", what, r.where,
                              f"{r.cls} instead of a rejection",
                              self.c.trace(s, r))
            g = good(s) if callable(good) else good
            if g is None:
                self.c.bad("acceptance", what, where, "decided without "
                           "regard to the field", self.c.trace(s, r))
                continue
            self.c.expect(g is not isinstance(r, Exc), "acceptance", what,
                          r.where if isinstance(r, Exc) else where,
                          "a valid message is rejected" if g else
                          "an invalid message is accepted",
                          self.c.trace(s, r))

    # -- pieces --------------------------------------------------------------

    def pdu(self, tag, body):
        return self.w.seq(*body, tag=(tag, True, 2))

    def fields(self, a=ZERO, b=ZERO, bindings=()):
        w = self.w
        return [w.int(N("rid", -2 ** 31, 2 ** 31 - 1)), w.int(a), w.int(b),
                w.seq(*bindings)]

    def binding(self, value=None):
        w = self.w
        return w.seq(w.oid(const(1), const(3), N("sub", 0, 2 ** 32 - 1)),
                     w.null() if value is None else value)

    def community(self, version, *pdu):
        w = self.w
        return w.seq(w.int(version), w.octets(B("community")), *pdu)

    def v3(self, data, version=const(3), mid=None, size=None, flags=None,
           model=const(3), head=()):
        w = self.w
        return w.seq(
            w.int(version), w.seq(
                w.int(mid or N("msgID")), w.int(size or N("size", 484)),
                w.octets(flags or const(b"\0")), w.int(model), *head),
            w.octets(B("params")), *data)

    def scoped(self, *parts):
        w = self.w
        return w.seq(w.octets(B("engine")), w.octets(B("context")), *parts)

    # -- decoders ------------------------------------------------------------

    def state(self):
        return small_ok(State(), B("community"), B("params"), B("engine"),
                        B("context"), B("secret"))

    def read(self, ver, data, st=None):
        it = self.it
        st = st or self.state()
        if ver == "SNMPv3":
            return call(it, st, ("cls", "snmp.message.v3.SNMPv3Message"),
                        "decode", data)
        mod = {"SNMPv1": "snmp.message.v1", "SNMPv2c": "snmp.message.v2c"}
        st, types = pdu_types(it, st, mod[ver])
        return it.call_method(st, ("cls", self.core), "decode", [data],
                              {"types": types}, TOP, None)

    @property
    def core(self):
        return self.it.prog.cls("snmp.message.core.Message").qual

    def whole(self, ver, *pdu):
        return self.v3([self.scoped(*pdu)]) if ver == "SNMPv3" else \
            self.community(const(VERSIONS[ver]), *pdu)


def is_incoming(it, q):
    if q not in it.prog.classes:
        return False
    return INCOMING in [k.qual for k in it.prog.classes[q].mro]


def between(v, lo, hi):
    """Whether a value is known to lie in a range, or outside it."""
    def f(s):
        x = s.decide(op("le", sub(const(lo), v)))
        y = s.decide(op("le", sub(v, const(hi))))
        if x and y:
            return True
        return False if x is False or y is False else None
    return f


def among(x, *vs):
    """Whether a value is known to be one of some, or none of them."""
    def f(s):
        known = [s.decide(mk_eq(x, const(v))) for v in vs]
        if True in known:
            return True
        return None if None in known else False
    return f


def d09(c):
    c.rule("A message is accepted if and only if its version, PDU type, value "
           "types and fixed fields are those its protocol version allows; "
           "every other is rejected with an error of the kind that means a "
           "bad incoming message.")
    g = Gate(c)
    it, w = g.it, g.w
    N32 = N("x", -2 ** 31, 2 ** 31 - 1)
    for ver in VERSIONS:
        # PDU types
        for cl in range(4):
            for k in (False, True):
                for n in list(range(0, 12)) + [30]:
                    good = cl == 2 and k and n in VERSION_PDUS[ver]
                    p = w.seq(*g.fields(bindings=[g.binding()]),
                              tag=(n, k, cl))
                    g.verdict(f"{ver}: PDU type ({cl}, {k}, {n})",
                              g.read(ver, g.whole(ver, p)), good,
                              "snmp/message")
        one_pdu = g.pdu(2, g.fields())
        # missing and additional parts
        g.verdict(f"{ver}: no PDU", g.read(ver, g.whole(ver)), False,
                  "snmp/message")
        g.verdict(f"{ver}: two PDUs", g.read(ver, g.whole(
            ver, one_pdu, one_pdu)), False, "snmp/message")
        g.verdict(f"{ver}: octets after the message", g.read(
            ver, mk_cat([g.whole(ver, one_pdu), w.null()])), False,
            "snmp/message")
    pdus(g)
    versions(g)
    headers(g)
    c.used(it)
    c.floor("messages judged", 400)


def pdus(g):
    w, it = g.w, g.it
    x = N("x", -2 ** 31, 2 ** 31 - 1)
    for name, tag in PDUS.items():
        q = "snmp.pdu." + name

        def read(*parts, q=q, tag=tag):
            return call(it, g.state(), ("cls", q), "decode",
                        g.pdu(tag, parts))
        where = "snmp/pdu.py"
        f = g.fields(bindings=[g.binding()])
        g.verdict(f"{name}: complete", read(*f), True, where)
        for i in range(len(f)):
            g.verdict(f"{name}: without field {i + 1}",
                      read(*f[:i], *f[i + 1:]), False, where)
        g.verdict(f"{name}: one field more", read(*f, w.null()), False,
                  where)
        for i in range(3):
            bad = list(f)
            bad[i] = w.octets(B("community"))
            g.verdict(f"{name}: field {i + 1} no number", read(*bad), False,
                      where)
        if tag == 5:
            for i in (0, 1):
                a = [ZERO, ZERO]
                a[i] = x
                for n in (0, 1, 3):
                    g.verdict(f"{name}: count", read(*g.fields(
                        *a, [g.binding()] * n)), between(
                        x, 0, 2 ** 31 - 1), where)
        else:
            g.verdict(f"{name}: error status", read(*g.fields(x)), between(
                x, 0, 18), where)
            for n in (0, 1, 3):
                g.verdict(f"{name}: error index", read(*g.fields(
                    const(5), x, [g.binding()] * n)), between(x, 0, n),
                    where)
                g.verdict(f"{name}: error index", read(*g.fields(
                    ZERO, N("y", 0, 2 ** 31 - 1), [g.binding()] * n)),
                    between(N("y", 0, 2 ** 31 - 1), 0, n), where)
    # bindings
    q = "snmp.pdu.VarBindList"

    def bind(*parts):
        return call(it, g.state(), ("cls", q), "decode", w.seq(*parts))
    where = "snmp/pdu.py"
    name = w.oid(const(1), const(3), N("sub", 0, 2 ** 32 - 1))
    for cl in range(4):
        for k in (False, True):
            for n in list(range(0, 9)) + [16, 30]:
                good = not k and (n, cl) in VALUE_TAGS
                body = const(b"")
                if good and cl < 2:
                    body = value_body(n, cl)
                g.verdict(f"value type ({cl}, {k}, {n})", bind(w.seq(
                    name, w.tlv((n, k, cl), body))), good, where)
    g.verdict("binding without value", bind(w.seq(name)), False, where)
    g.verdict("binding of three", bind(w.seq(name, w.null(), w.null())),
              False, where)
    g.verdict("binding whose name is no identifier", bind(w.seq(
        w.int(ZERO), w.null())), False, where)
    g.verdict("binding that is no sequence", bind(w.null()), False, where)


def value_body(n, cl):
    if (n, cl) == (6, 0):
        return op("typed", "bytes", op("oid.octets", ("tup", (
            const(1), const(3), const(6)))))
    if (n, cl) in ((4, 0), (4, 1)):
        return B("community")
    if (n, cl) == (0, 1):
        return op("tobytes", N("addr", 0, 2 ** 32 - 1), const(4))
    if (n, cl) == (5, 0):
        return const(b"")
    return op("typed", "bytes", op("int.octets", N("v", 0, 2 ** 31 - 1)))


def versions(g):
    w, it = g.w, g.it
    x = N("x", -2 ** 31, 2 ** 31 - 1)
    p = g.pdu(2, g.fields())

    q = "snmp.message.version.VersionOnlyMessage"
    g.verdict("version of any message", call(it, g.state(), ("cls", q),
                                             "decode", g.community(x, p)),
              among(x, 0, 1, 3), "snmp/message/version.py")
    for v in ("SNMPv1", "SNMPv2c"):
        g.verdict("version of a community message",
                  g.read(v, g.community(x, p)), among(x, 0, 1),
                  "snmp/message/core.py")
    g.verdict("version of a v3 message", g.read("SNMPv3", g.v3(
        [g.scoped(p)], version=x)), among(x, 3), "snmp/message/v3.py")


def headers(g):
    w, it = g.w, g.it
    where = "snmp/message/v3.py"
    x = N("x", -2 ** 31, 2 ** 31 - 1)
    p = g.scoped(g.pdu(2, g.fields()))
    secret = w.octets(B("secret"))

    def read(data=(p,), **kw):
        return g.read("SNMPv3", g.v3(list(data), **kw))
    g.verdict("message ID", read(mid=x), between(x, 0, 2 ** 31 - 1), where)
    g.verdict("maximum size", read(size=x), between(x, 484, 2 ** 31 - 1),
              where)
    g.verdict("security model", read(model=x), among(x, 3), where)
    g.verdict("header with five fields", read(head=[w.null()]), False, where)
    for bits in range(256):
        # the reserved bits are ignored; privacy needs authentication
        level = bits & 3
        data = [secret] if level & 2 else [p]
        other = [p] if level & 2 else [secret]
        f = const(bytes([bits]))
        if bits < 8 or bits in (8, 0x10, 0x20, 0x40, 0x80, 0xff, 0xfe, 0xfc):
            g.verdict(f"flags {bits:#04x}", read(data, flags=f), level != 2,
                      where)
            g.verdict(f"flags {bits:#04x} with the other kind of data",
                      read(other, flags=f), False, where)
    g.verdict("no flags", read(flags=const(b"")), False, where)
    g.verdict("no data", read([]), False, where)
    g.verdict("data twice", read([p, p]), False, where)
    g.verdict("encrypted data and more", read(
        [secret, w.null()], flags=const(b"\3")), False, where)
    g.verdict("data and more", read([p, w.null()]), False, where)
