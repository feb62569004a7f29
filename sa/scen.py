"""Helpers to write scenarios: sequences of API calls on abstract values."""

from .program import AnalysisError, require
from .models import *
from .paths import Exc, TOP
from .state import *
from .terms import *


def B(name):
    return sym(("n", name), "bytes")


def I(name):
    return sym(("n", name), "int")


def N(name, lo=0, hi=2**31 - 1):
    """An integer within bounds."""
    return ("s", ("n", name), "int", (lo, hi))


def F(name):
    return sym(("n", name), "float")


def S(name):
    return sym(("n", name), "str")


def get(it, st, obj, *path):
    """The single value of an attribute chain: [(state, value)]"""
    res = [(st.fork(), obj)]
    for p in path:
        res = it.seq(res, lambda s, v, p=p: it.getattr(s, v, p, TOP, None))
    return res


def call(it, st, obj, name, *args, **kwargs):
    return it.call_method(st.fork(), obj, name, list(args), kwargs, TOP,
                          None)


def chain(results, f):
    """Continue every normal outcome; drops the exceptional ones."""
    out = []
    for s, v in results:
        if not isinstance(v, Exc):
            out += f(s, v)
    return out


def normal(results):
    return [(s, v) for s, v in results if not isinstance(v, Exc)]


def failed(results):
    return [(s, v) for s, v in results if isinstance(v, Exc)]


def events(st, kind, start=0):
    return [e for e in st.events[start:] if e[0] == kind]


def same(st, a, b):
    """True/False/None: whether two terms are equal on this path."""
    a, b = st.canon(a), st.canon(b)
    if a == b:
        return True
    if a[0] == "obj" and b[0] == "obj":
        return a == b
    return st.decide(mk_eq(a, b))


def consistent(st, *atoms):
    """A copy of st with the atoms assumed, or None if they contradict it.
    Each atom is (term, polarity)."""
    s = st.fork()
    for a, pol in atoms:
        if not s.assume(a, pol):
            return None
    return s


def where_of(st, default):
    return default


LEVELS = ("noAuthNoPriv", "authNoPriv", "authPriv")


def level_const(it, st, name):
    """(state, value) of one of the security levels the library exports."""
    r = it.global_(st, "snmp.security.levels", name, TOP, None)
    if len(r) != 1:
        raise AnalysisError(f"security level {name} is not a constant")
    return r[0]


def make(it, st, qual, *args, **kwargs):
    """Construct an object; the scenario needs exactly one outcome."""
    return require(it.instantiate(st, qual, list(args), kwargs, TOP, None),
                   f"constructing {qual}", Exc)


def enum_const(it, qual, name):
    c = it.prog.cls(qual)
    for m in it.enum_members(c):
        if m[2] == name:
            return m
    raise AnalysisError(f"vanished anchor: {qual}.{name}")


def response_pdus(prog):
    """PDU classes a v3 message may carry: one per kind that is treated
    differently."""
    return ("snmp.pdu.ResponsePDU", "snmp.pdu.ReportPDU",
            "snmp.pdu.GetRequestPDU")


def wire_name(st):
    """What the symbols of the message that is received are called."""
    return st.names.get("wire", const("wire"))[2]


def v3_wire(it, st, f, args, kwargs, fr, node):
    """SNMPv3Message.decode of an arbitrary datagram: rejected, or a message
    with arbitrary fields, at each level and with each kind of PDU."""
    out = it.exc(st.fork(), PARSE, fr.where(node))
    for lname in LEVELS:
        pdus = response_pdus(it.prog) if lname != "authPriv" else (None,)
        for q in pdus:
            s = st.fork()
            out.append(v3_message(it, s, lname, q, wire_name(st)))
    return out


def v3_message(it, s, lname, pduclass, prefix="wire"):
    s, lv = level_const(it, s, lname)
    s, flags = make(it, s, "snmp.message.v3.MessageFlags", lv,
                    sym(("n", f"{prefix}.reportable"), "bool"))
    model = enum_const(it, "snmp.security.models.SecurityModel", "USM")
    s, header = make(it, s, "snmp.message.v3.HeaderData",
                     N(f"{prefix}.msgID"), N(f"{prefix}.maxSize", 484), flags,
                     model)
    s, params = make(it, s, "snmp.smi.OctetString", B(f"{prefix}.params"))
    kw = {"securityParameters": params}
    if pduclass is None:
        s, enc = make(it, s, "snmp.smi.OctetString",
                      B(f"{prefix}.ciphertext"))
        kw["encryptedPDU"] = enc
    else:
        s, scoped = v3_scoped(it, s, pduclass, prefix)
        kw["scopedPDU"] = scoped
    return make(it, s, "snmp.message.v3.SNMPv3Message", header, **kw)


def v3_scoped(it, s, pduclass, prefix="wire"):
    pdu = it.input_obj(s, pduclass, f"{prefix}.pdu")
    return make(it, s, "snmp.message.v3.ScopedPDU", pdu,
                B(f"{prefix}.contextEngineID"), B(f"{prefix}.contextName"))


def v3_plaintext(it, st, f, args, kwargs, fr, node):
    """ScopedPDU.decode of decrypted bytes."""
    cls = args[0]
    if cls != ("cls", "snmp.message.v3.ScopedPDU"):
        return None
    out = it.exc(st.fork(), PARSE, fr.where(node))
    left = kwargs.get("leftovers") or (args[2] if len(args) > 2 else FALSE)
    for q in response_pdus(it.prog):
        w = wire_name(st)
        s, p = v3_scoped(it, st.fork(), q, w)
        if left == TRUE:
            s, rest = make(it, s, "snmp.utils.subbytes", B(f"{w}.padding"))
            p = ("tup", (p, rest))
        out.append((s, p))
    return out


def v3_models(prog):
    """Decoding replaced by "any message"."""
    out = security_models(prog)
    for q in overrides(prog, "snmp.message.v3.SNMPv3Message", "decode"):
        if q.startswith("snmp.message.v3."):
            out[q] = v3_wire
    out["snmp.asn1.ASN1.decode"] = v3_plaintext
    return out


def community_wire(it, st, f, args, kwargs, fr, node):
    """Message.decode of an arbitrary datagram."""
    if args[0] != ("cls", "snmp.message.core.Message"):
        return None
    out = it.exc(st.fork(), PARSE, fr.where(node))
    for q in ("snmp.pdu.ResponsePDU", "snmp.pdu.GetRequestPDU",
              "snmp.pdu.GetBulkRequestPDU"):
        s = st.fork()
        w = wire_name(st)
        pdu = it.input_obj(s, q, f"{w}.pdu")
        v = ("s", ("n", f"{w}.version"), "enum", None,
             ("snmp.message.version.ProtocolVersion",))
        out.append(make(it, s, "snmp.message.core.Message", v,
                        B(f"{w}.community"), pdu))
    return out


class Element:
    """One element of an encoding: its tag and its content, which is the list
    of the elements it is made of or a term."""

    def __init__(self, tag, content):
        self.tag = tag
        self.content = content

    def __repr__(self):
        return f"<{self.tag} {self.content!r}>"

    @property
    def elements(self):
        return self.content if isinstance(self.content, list) else []


def tag_text(t):
    """UNIVERSAL/16c: class, number and the constructed flag of a tag term."""
    if t[0] != "op" or t[1] != "tag":
        return str(t)
    cls = num = con = None
    for x in t[2:]:
        if x[0] == "enum":
            cls = x[2]
        elif x[1] == "bool":
            con = x[2]
        elif x[1] == "int":
            num = x[2]
    return f"{cls}/{num}{'c' if con else ''}"


def ber_tree(it, st, t):
    """The elements an encoded term consists of, or None if the term is not a
    sequence of complete encodings."""
    t = st.canon(t)
    parts = list(t[2:]) if t[0] == "op" and t[1] == "cat" else [t]
    out = []
    while parts:
        h = parts.pop(0)
        if h[:2] != ("op", "ber.head"):
            return None
        want = st.canon(it.ber_body[h])
        have, body = ZERO, []
        while have != want and parts:
            x = parts.pop(0)
            body.append(x)
            have = st.canon(add(have, mk_len(x)))
        if have != want:
            return None
        term = mk_cat(body) if body else const(b"")
        sub_ = ber_tree(it, st, term) if body else []
        out.append(Element(tag_text(h[2]),
                           sub_ if sub_ is not None and body else term))
    return out


def int_value(t):
    """The integer a content term encodes, or None."""
    if t[0] == "c" and isinstance(t[2], bytes):
        return const(int.from_bytes(t[2], "big", signed=True))
    if t[0] == "op" and t[1] == "tobytes":
        return t[2]
    return None


def crowd(st, root):
    """The containers that belong to root hold other things as well, as many
    as there may be: their length is unknown from now on."""
    st = st.fork()
    seen, todo = set(), [st.canon(root)]
    while todo:
        r = todo.pop()
        if not (isinstance(r, tuple) and len(r) == 2 and r[0] == "obj") \
                or r in seen or r[1] not in st.heap:
            continue
        seen.add(r)
        o = st.heap[r[1]]
        if o.kind in ("dict", "list", "set"):
            st.mut(r).attrs["crowded"] = TRUE
        if o.kind in ("inst", "dict", "list", "set"):
            stack = list(o.attrs.values()) + [o.items]
            while stack:
                t = stack.pop()
                if isinstance(t, tuple):
                    if len(t) == 2 and t[0] == "obj":
                        todo.append(t)
                    else:
                        stack += t
    return st
