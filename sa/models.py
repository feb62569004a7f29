"""Summaries the protocol rules use instead of inlining a callee.

ber.decode is replaced by its contract: either it raises ParseError, or it
yields the body (and tail) as windows into the same buffer, the body starting
after a header of at least two octets and ending within the data.  The rules
D03 and D11 check that contract on the real code."""

from .exprs import mk_cat
from .paths import Exc, NONE
from .state import *
from .terms import *

PARSE = "snmp.ber.ParseError"


def bindargs(f, args, kwargs):
    """Positional/keyword arguments by parameter name (constants only for
    defaults)."""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = dict(zip(names, args))
    out.update(kwargs)
    ds = a.defaults
    for n, d in zip(names[len(names) - len(ds):], ds):
        if n not in out and hasattr(d, "value"):
            out[n] = const(d.value)
    return out


def cbool(v):
    return bool(v[2]) if v is not None and v[0] == "c" else None


def ber_decode(it, st, f, args, kwargs, fr, node):
    b = bindargs(f, args, kwargs)
    left, copy = cbool(b["leftovers"]), cbool(b["copy"])
    if left is None or copy is None:
        outs = []
        for n in ("leftovers", "copy"):
            if cbool(b[n]) is None:
                for s, v in it.truth(st, b[n], fr, node):
                    kw = dict(b)
                    kw[n] = const(v)
                    outs += ber_decode(it, s, f, [], kw, fr, node)
                return outs
    expected = b.get("expected", NONE)
    out = []
    sb = "snmp.utils.subbytes"

    def window(s, d):
        """The whole of d as (buffer, start, stop)."""
        return it.seq(
            it.instantiate(s, sb, [d], {}, fr, node),
            lambda s1, w: it.seq(
                it.getattr(s1, w, "data", fr, node),
                lambda s2, W: it.seq(
                    it.getattr(s2, w, "start", fr, node),
                    lambda s3, lo: it.seq(
                        it.getattr(s3, w, "stop", fr, node),
                        lambda s4, hi: found(s4, W, lo, hi)))))

    def view(s, w):
        """A subbytes over w: (buffer, start, stop)."""
        t = window_obj(it, s, *w)
        if t is not None:
            return [(s, t)]
        return it.instantiate(s, sb, list(w), {}, fr, node)

    def found(s, W, lo, hi):
        W = s.canon(W)
        tk = tagkey(it, s, expected)
        known = encoded_at(it, s, W, s.canon(lo), s.canon(hi), tk, left)
        if known is not None:
            a, z = known
            return it.seq(it.seq(view(s, (W, a, z)), copied),
                          lambda s1, w: shape(s1, W, w, z, hi))
        if impossible(it, s, W, s.canon(lo), s.canon(hi), tk, left):
            return it.exc(s, PARSE, fr.where(node) if fr else "?")
        bad = s.fork()
        ok = op("ber.ok", W, s.canon(lo), s.canon(hi), const(left), tk)
        res = []
        if bad.assume(ok, False):
            res += it.exc(bad, PARSE, fr.where(node) if fr else "?")
        if not s.assume(ok, True):
            return res
        a, z = positions(it, W, s.canon(lo))
        s.fact(op("le", sub(add(lo, const(2)), a)))
        s.fact(op("le", sub(a, z)))
        s.fact(op("le", sub(z, hi)))
        if not left:
            s.fact(op("le", sub(hi, z)))
        body = it.seq(view(s, (W, a, z)),
                      lambda s1, w: copied(s1, w))
        return res + it.seq(body, lambda s1, w: shape(s1, W, w, z, hi))

    def copied(s, w):
        if not copy:
            return [(s, w)]
        return it.getitem(s, w, ("slice", NONE, NONE, NONE), fr, node)

    def shape(s, W, body, z, hi):
        parts = [body]
        if expected == NONE:
            parts = [op("ber.tag", W, z), body]
        if not left:
            return [(s, parts[0] if len(parts) == 1
                     else ("tup", tuple(parts)))]
        return it.seq(view(s, (W, z, hi)),
                      lambda s1, t: [(s1, ("tup", tuple(parts + [t])))])
    return window(st, b["data"])


def window_obj(it, st, W, lo, hi):
    """Build the object the constructor of subbytes would, given bounds known
    to be in range: its layout is read off a constructor call on one fresh
    buffer."""
    lay = getattr(it, "subbytes_layout", None)
    if lay is None:
        s = State()
        B = sym(("n", "subbytes?"), "bytes")
        lay = {}
        for s2, v in it.instantiate(s, "snmp.utils.subbytes", [B], {}, None,
                                    None):
            if not isinstance(v, Exc):
                lay = dict(s2.obj(v).attrs)
        roles = {}
        for k, v in lay.items():
            r = {B: 0, ZERO: 1, mk_len(B): 2}.get(v)
            if r is None or r in roles.values():
                roles = {}
                break
            roles[k] = r
        lay = it.subbytes_layout = roles if len(roles) == 3 else {}
    if not lay:
        return None
    o = Obj("inst", frozenset(["snmp.utils.subbytes"]))
    o.attrs = {k: (W, lo, hi)[r] for k, r in lay.items()}
    return it.new(st, o)


def positions(it, W, lo):
    """Names for where the body of the element at lo of buffer W starts and
    ends (the same element always gets the same names)."""
    memo = it.__dict__.setdefault("ber_positions", {})
    r = memo.get((W, lo))
    if r is None:
        i = len(memo) + 1
        r = (sym(("n", f"a{i}"), "int"), sym(("n", f"z{i}"), "int"))
        memo[(W, lo)] = r
    return r


def tagkey(it, st, t):
    """A term standing for an expected tag."""
    if t == NONE:
        return NONE
    if t[0] == "obj":
        o = st.obj(t)
        if o.name is not None:
            return ("s", o.name, "any")
        vals = [st.canon(o.attrs[k]) for k in sorted(o.attrs)]
        return op("tag", *vals)
    return t


def tag_decode(it, st, f, args, kwargs, fr, node):
    """Tag.decode: the tag of the element at the start of the data, and the
    rest of the data."""
    data = args[1] if len(args) > 1 else kwargs["data"]
    bad = st.fork()
    return it.exc(bad, PARSE, fr.where(node) if fr else "?") + it.seq(
        it.getattr(st, data, "data", fr, node),
        lambda s1, W: it.seq(
            it.getattr(s1, data, "start", fr, node),
            lambda s2, lo: it.seq(
                it.call_method(s2, data, "advance", [], {}, fr, node),
                lambda s3, rest: [(s3, ("tup", (
                    position_tag(it, s3, W, lo), rest)))])))


def position_tag(it, st, W, lo):
    """The tag found at an offset of a buffer: one object per position."""
    a, z = positions(it, st.canon(W), st.canon(lo))
    key = ("n", f"tag@{a[1][1]}")
    return st.names[key] if key in st.names else it.input_obj(
        st, "snmp.ber.Tag", key[1])


def pdu_deserialize(it, st, f, args, kwargs, fr, node):
    """The contents of a PDU, as an unknown PDU of that class."""
    cls = args[0]
    data = args[1] if len(args) > 1 else kwargs.get("data")
    if data is None or cls[0] != "cls":
        return None
    bad = st.fork()
    n = it.__dict__.setdefault("pdu_names", {})
    key = (cls, st.canon(data) if data[0] != "obj" else tuple(
        sorted((k, st.canon(v)) for k, v in st.obj(data).attrs.items())))
    name = n.setdefault(key, f"pdu{len(n) + 1}")
    return it.exc(bad, PARSE, fr.where(node) if fr else "?") \
        + [(st, it.input_obj(st, cls[1], name))]


def ber_encode(it, st, f, args, kwargs, fr, node):
    """ber.encode(tag, data): a header (at least two octets, a function of the
    tag and the length), then the data."""
    b = bindargs(f, args, kwargs)
    data = b["data"]

    def put(s, d):
        d = s.canon(d)
        return [(s, mk_cat([ber_head(it, tagkey(it, s, b["tag"]), d), d]))]
    if data[0] == "obj":
        return it.seq(it.call_ext(st, "builtins.bytes", [data], {}, fr,
                                  node), put)
    return put(st, data)


def ber_head(it, tag, data):
    """The header in front of some data: named by a number, because the
    lengths of nested encodings would otherwise repeat one another."""
    memo = it.__dict__.setdefault("ber_heads", {})
    r = memo.get((tag, data))
    if r is None:
        r = memo[tag, data] = op("ber.head", tag, const(len(memo) + 1))
        it.__dict__.setdefault("ber_body", {})[r] = mk_len(data)
    return r


def impossible(it, s, W, lo, hi, tk, left):
    """Whether there cannot be such an element there: each takes two octets,
    and a known one may not be the last."""
    if s.le0(sub(sub(hi, lo), const(1))):
        return True
    if W[0] == "op" and W[1] == "cat":
        at = ZERO
        for x in W[2:]:
            if at == lo and x[:2] == ("op", "ber.head"):
                if tk != x[2] and all(
                        t[:2] == ("op", "tag") and
                        all(y[0] in ("c", "enum") for y in t[2:])
                        for t in (tk, x[2])):
                    return True
                z = add(add(at, mk_len(x)), s.canon(it.ber_body[x]))
                return bool(s.le0(sub(hi, z)) is False and not left)
            at = add(at, mk_len(x))
    return False


def encoded_at(it, st, W, lo, hi, tk, left):
    """(start, end) of the body of the element at lo if W is known to hold an
    encoding with that tag there."""
    if W[0] != "op" or W[1] != "cat":
        return None
    at = ZERO
    for x in W[2:]:
        if at == lo:
            if x[:2] != ("op", "ber.head") or x[2] != tk:
                return None
            a = add(at, mk_len(x))
            z = add(a, st.canon(it.ber_body[x]))
            end = st.le0(sub(z, hi))
            if not end or not left and not st.le0(sub(hi, z)):
                return None
            return a, z
        at = add(at, mk_len(x))
    return None


def pdu_serialize(it, st, f, args, kwargs, fr, node):
    """The contents of a PDU."""
    me = args[0]
    if me[0] != "obj":
        return None
    o = st.obj(me)
    if o.kind != "inst" or not all(
            it.prog.classes[q].module.name == "snmp.pdu" for q in o.cls):
        return None
    return [(st, op("pdu", me, st.canon(
        o.attrs.get("requestID", ("s", o.name or me, "any")))))]


def overrides(prog, base, name):
    """Every implementation of a method among the subclasses of a class."""
    out = set()
    for c in prog.subclasses[prog.cls(base).qual]:
        owner = prog.member_owner(c, name)
        if owner is not None:
            m = owner.members[name]
            if hasattr(m, "qual"):
                out.add(m.qual)
    return out


def protocol_models(prog):
    """The summaries for rules about the protocol layers."""
    out = {"snmp.ber.decode": ber_decode, "snmp.ber.Tag.decode": tag_decode}
    for q, f in prog.funcs.items():
        if f.module.name == "snmp.pdu" and f.name == "deserialize":
            out[q] = pdu_deserialize
    for q in overrides(prog, "snmp.asn1.Constructed", "serialize"):
        out[q] = pdu_serialize
    out["snmp.ber.encode"] = ber_encode
    for q in list(out):
        prog.func(q)
    return out


def security_outgoing(it, st, f, args, kwargs, fr, node):
    """prepareOutgoing of a security module: some bytes, or an error."""
    b = bindargs(f, args, kwargs)
    it.event(st, "outgoing", fr, node, b["message"], b["engineID"],
             b["securityName"])
    return it.exc(st.fork(), "builtins.Exception", "?") + [
        (st, sym(it.fresh("datagram"), "bytes"))]


def security_models(prog):
    out = {}
    base = "snmp.security.SecurityModule"
    for q in overrides(prog, base, "processIncoming"):
        out[q] = security_incoming
    for q in overrides(prog, base, "prepareOutgoing"):
        out[q] = security_outgoing
    return out


INCOMING_ERRORS = "snmp.exception.IncomingMessageError"


def security_incoming(it, st, f, args, kwargs, fr, node):
    """processIncoming of a security module, as the message processor sees
    it: the message is rejected, or it gets a security engine ID and name,
    and a plaintext if it was encrypted.  Nothing else about it changes."""
    me, message = args[0], args[1] if len(args) > 1 else kwargs["message"]
    it.event(st, "security", fr, node, me, message)
    wire = st.names.get("wire", const("wire"))[2]
    out = it.exc(st.fork(), INCOMING_ERRORS, fr.where(node) if fr else "?")

    def named(s, _=None):
        return it.seq(
            it.setattr(s, message, "securityEngineID",
                       sym(("n", f"{wire}.engineID"), "bytes"), fr, node),
            lambda s2, _: it.seq(
                it.setattr(s2, message, "securityName",
                           sym(("n", f"{wire}.userName"), "bytes"), fr, node),
                lambda s3, _: [(s3, NONE)]))
    def flag(s, header):
        return it.seq(it.getattr(s, header, "flags", fr, node),
                      lambda s1, fl: it.seq(
                          it.getattr(s1, fl, "privFlag", fr, node),
                          lambda s2, p: it.truth(s2, p, fr, node)))
    for s, priv in it.seq(it.getattr(st, message, "header", fr, node), flag):
        if isinstance(priv, Exc):
            out.append((s, priv))
        elif priv:
            out += it.seq(it.setattr(s, message, "plaintext", sym(
                ("n", "decrypted"), "bytes"), fr, node), named)
        else:
            out += named(s)
    return out


DATA_MODULES = frozenset(["snmp.ber", "snmp.asn1", "snmp.smi", "snmp.utils"])
