"""Matching responses to requests."""

from ..framework import *
from ..scen import *

V3 = "snmp.message.v3.SNMPv3MessageProcessor"
USM = "snmp.security.models.SecurityModel"


def pdu_kind(it, st, pdu):
    """(is a response-class PDU, is a report) of a PDU object."""
    o = st.obj(pdu)
    ks = set()
    for q in o.cls:
        names = {c.qual for c in it.prog.classes[q].mro}
        ks.add(("snmp.pdu.Response" in names, "snmp.pdu.Internal" in names))
    return ks


def rank(it, st, level):
    """(auth, priv) of a SecurityLevel object as booleans."""
    r = []
    for n in ("auth", "priv"):
        vs = get(it, st, level, n)
        if len(vs) != 1:
            raise AnalysisError("security level is not a constant here")
        v = st.canon(vs[0][1])
        if v[0] != "c":
            raise AnalysisError("security level is not a constant here")
        r.append(bool(v[2]))
    return tuple(r)


def outgoing(c, it, st, mp, handle, level, tag=""):
    """prepareOutgoingMessage with unknown arguments."""
    pdu = it.input_obj(st, "snmp.pdu.GetRequestPDU", "pdu" + tag)
    eid, user, ctx = B("engineID" + tag), B("user" + tag), B("context" + tag)
    r = call(it, st, mp, "prepareOutgoingMessage", pdu, handle, eid, user,
             level, contextName=ctx)
    return (pdu, eid, user, ctx), r


def m01(c):
    c.rule("For every path of SNMPv3MessageProcessor.prepareOutgoingMessage "
           "followed by every path of prepareDataElements on an arbitrary "
           "datagram: if the result hands the message to the handle of that "
           "request, the path condition entails that the message ID, user "
           "name and context name equal those of the request and, unless the "
           "PDU is a report, that the security engine ID, the context engine "
           "ID and the security level do too (level: at least). Paths that "
           "reject a message although all of these hold are reported as "
           "well. Callees are inlined; security modules are replaced by "
           "their contract.")
    delivered = 0
    for lname in LEVELS:
        it = c.engine(v3_models(c.prog))
        st = State()
        mp = it.input_obj(st, V3, "processor")
        h = it.input_any_of(st, "snmp.message.RequestHandle", "handle")
        st, level = level_const(it, st, lname)
        want = rank(it, st, level)
        (pdu, eid, user, ctx), r1 = outgoing(c, it, st, mp, h, level)
        sent = normal(r1)
        c.count("request paths", len(sent))
        # one representative per allocated state
        for s, _ in sent:
            ev = events(s, "outgoing")
            if not c.expect(
                    len(ev) == 1, "one security call per request",
                    f"{V3}.prepareOutgoingMessage", "snmp/message/v3.py",
                    "the message is not passed to the security module exactly "
                    "once", c.trace(s)):
                continue
            msg = ev[0][1][0]
            vs = get(it, s, msg, "header", "id")
            sid = vs[0][1]
            n0 = len(s.order)
            r2 = call(it, vs[0][0], mp, "prepareDataElements", B("wire"))
            for s2, v in r2:
                delivered += m01_outcome(
                    c, it, s2, v, h, sid, eid, user, ctx, want, lname)
        c.used(it)
    c.count("delivering paths", delivered)
    c.floor("delivering paths", 6)
    c.assumptions.append("SecurityModule.processIncoming rejects the message "
                         "or sets its security engine ID, user name and "
                         "plaintext; U01-U03 check the one implementation.")


def one(c, results, what):
    return require(results, what, Exc)


def m01_outcome(c, it, s, v, h, sid, eid, user, ctx, want, lname):
    rule = "v3 response matching"
    if isinstance(v, Exc):
        return m01_rejected(c, it, s, v, h, sid, eid, user, ctx, want, lname)
    if v[0] != "tup" or len(v[1]) != 2:
        raise AnalysisError("prepareDataElements does not return a pair")
    msg, got = v[1]
    got = s.canon(got)
    if got != h:
        # a handle found in the table as it was before this request: the
        # rule says nothing here (that request's own scenario covers it)
        return 0
    f = read_message(c, it, s, msg)
    s = f["state"]
    fn = f"{V3}.prepareDataElements"
    where = "snmp/message/v3.py"
    tr = c.trace(s, v)
    c.sample({"level sent": lname, "path": tr[:12]})
    c.expect(same(s, f["id"], sid) is True, rule, f"{fn}: message ID", where,
             "a message is delivered to a request with another message ID",
             tr)
    c.expect(same(s, f["user"], user) is True, rule, f"{fn}: user name",
             where, "a message is delivered although its user name need not "
             "equal that of the request", tr)
    c.expect(same(s, f["ctx"], ctx) is True, rule, f"{fn}: context name",
             where, "a message is delivered although its context name need "
             "not equal that of the request", tr)
    ks = pdu_kind(it, s, f["pdu"])
    c.expect(all(k[0] for k in ks), rule, f"{fn}: PDU class", where,
             "a PDU that is not a response is delivered to a request", tr)
    if not all(k[1] for k in ks):
        c.expect(same(s, f["eid"], eid) is True, rule,
                 f"{fn}: security engine ID", where,
                 "a response is delivered although its security engine ID "
                 "need not equal that of the request", tr)
        c.expect(same(s, f["ceid"], eid) is True, rule,
                 f"{fn}: context engine ID", where,
                 "a response is delivered although its context engine ID "
                 "need not equal that of the request", tr)
        c.expect(f["level"][0] >= want[0] and f["level"][1] >= want[1],
                 rule, f"{fn}: security level", where,
                 f"a response at level auth={f['level'][0]} "
                 f"priv={f['level'][1]} is delivered to a request sent with "
                 f"{lname}", tr)
    return 1


def read_message(c, it, s, msg):
    out = {}
    s, out["id"] = one(c, get(it, s, msg, "header", "id"), "msgID")
    s, lv = one(c, get(it, s, msg, "header", "flags", "securityLevel"),
                "securityLevel")
    out["level"] = rank(it, s, lv)
    s, out["user"] = one(c, get(it, s, msg, "securityName"), "securityName")
    s, out["eid"] = one(c, get(it, s, msg, "securityEngineID"),
                        "securityEngineID")
    s, out["ctx"] = one(c, get(it, s, msg, "scopedPDU", "contextName"),
                        "contextName")
    s, out["ceid"] = one(c, get(it, s, msg, "scopedPDU", "contextEngineID"),
                         "contextEngineID")
    s, out["pdu"] = one(c, get(it, s, msg, "scopedPDU", "pdu"), "pdu")
    out["state"] = s
    return out


def m01_rejected(c, it, s, v, h, sid, eid, user, ctx, want, lname):
    """A rejection after the security module accepted the message must be
    for a reason."""
    ev = events(s, "security")
    if not ev:
        return 0
    msg = ev[-1][1][1]
    o = s.obj(msg)
    try:
        f = read_message(c, it, s, msg)
    except AnalysisError:
        return 0        # the security module itself rejected it
    if s.canon(f["user"]) == NONE or s.canon(f["eid"]) == NONE:
        return 0
    ks = pdu_kind(it, s, f["pdu"])
    if not all(k[0] for k in ks):
        return 0
    report = all(k[1] for k in ks)
    if not report and not (f["level"][0] >= want[0]
                           and f["level"][1] >= want[1]):
        return 0
    atoms = [(mk_eq(f["id"], sid), True), (mk_eq(f["user"], user), True),
             (mk_eq(f["ctx"], ctx), True)]
    if not report:
        atoms += [(mk_eq(f["eid"], eid), True),
                  (mk_eq(f["ceid"], eid), True)]
    s2 = consistent(s, *atoms)
    if s2 is None:
        c.ok("v3 response matching", "a rejected response has a mismatch")
        return 0
    if any(a[0] == "op" and a[1] == "alive" and pol is False
           for a, pol in list(s2.facts.items())):
        return 0        # the handle is gone
    c.bad("v3 response matching",
          f"{V3}.prepareDataElements: rejects {v.cls.rsplit('.', 1)[-1]}",
          v.where, "a message that matches its request in every field is "
          f"rejected with {v.cls}", c.trace(s, v))
    return 0


def m02(c):
    c.rule("For both community-based message processors, every path of "
           "prepareOutgoingMessage for a new request followed by every path "
           "of prepareDataElements on an arbitrary datagram: a message is "
           "handed to the request only if it carries a response PDU and the "
           "path condition entails that its request ID and community equal "
           "those the request was sent with; a message that matches is not "
           "rejected.")
    for mod in ("v1", "v2c"):
        base = "snmp.message." + mod
        qs = [x.qual for x in c.prog.subclasses[c.prog.cls(
            "snmp.message.MessageProcessor").qual]
            if x.module.name == base]
        if len(qs) != 1:
            raise AnalysisError(f"no message processor in {base}")
        community(c, qs[0])
    c.floor("delivering paths", 2)


def community(c, qual):
    rule = "community response matching"
    fn = qual + ".prepareDataElements"
    where = c.prog.cls(qual).module.relpath
    it = c.engine({"snmp.asn1.ASN1.decode": community_wire})
    st = State()
    mp = it.input_obj(st, qual, "processor")
    h = it.input_any_of(st, "snmp.message.RequestHandle", "handle")
    st, pdu = make(it, st, "snmp.pdu.GetRequestPDU", requestID=ZERO)
    com = B("community")
    sent = normal(call(it, st, mp, "prepareOutgoingMessage", pdu, h, com))
    c.count("request paths", len(sent))
    for s, _ in sent:
        s, rid = one(c, get(it, s, pdu, "requestID"), "requestID")
        for s2, v in call(it, s, mp, "prepareDataElements", B("wire")):
            tr = c.trace(s2, v)
            if isinstance(v, Exc):
                wp = s2.names.get(("n", "wire.pdu"))
                if wp is None or "snmp.pdu.ResponsePDU" not in \
                        s2.obj(wp).cls:
                    continue
                s3, wid = one(c, get(it, s2, wp, "requestID"), "requestID")
                s4 = consistent(s3, (mk_eq(wid, rid), True),
                                (mk_eq(B("wire.community"), com), True))
                if s4 is None or any(
                        a[0] == "op" and a[1] == "alive" and p is False
                        for a, p in s4.facts.items()):
                    c.ok(rule, "a rejected response has a mismatch")
                else:
                    c.bad(rule, f"{fn}: rejects "
                          f"{v.cls.rsplit('.', 1)[-1]}", v.where,
                          "a response with the request ID and community of "
                          "the request is rejected", tr)
                continue
            if v[0] != "tup" or len(v[1]) != 2:
                raise AnalysisError("prepareDataElements: not a pair")
            msg, got = v[1]
            if s2.canon(got) != h:
                continue
            c.count("delivering paths")
            c.sample({"processor": qual, "path": tr[:8]})
            s2, wc = one(c, get(it, s2, msg, "community"), "community")
            s2, wp = one(c, get(it, s2, msg, "pdu"), "pdu")
            s2, wid = one(c, get(it, s2, wp, "requestID"), "requestID")
            c.expect(all(k[0] for k in pdu_kind(it, s2, wp)), rule,
                     f"{fn}: PDU class", where,
                     "a PDU that is not a response is delivered", tr)
            c.expect(same(s2, wid, rid) is True, rule, f"{fn}: request ID",
                     where, "a response is delivered to a request with "
                     "another request ID", tr)
            c.expect(same(s2, wc, com) is True, rule, f"{fn}: community",
                     where, "a response is delivered although its community "
                     "need not equal that of the request", tr)
    c.used(it)
