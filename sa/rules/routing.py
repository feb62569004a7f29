"""Which way messages take: version, processor, channel."""

from ..pretty import pp
from ..world import *
from .messages import one

VERSION = "snmp.message.version.ProtocolVersion"
PROCESSOR = "snmp.message.MessageProcessor"
NAMES = {"v1": "SNMPv1", "v2c": "SNMPv2c", "v3": "SNMPv3"}
CHANNEL = "snmp.transport.TransportChannel"


def processors(c):
    """{version: class} of the message processors, by the version they
    declare."""
    out = {}
    it = c.engine()
    for k in c.prog.subclasses[c.prog.cls(PROCESSOR).qual]:
        r = it.getattr(State(), ("cls", k.qual), "VERSION", TOP, None)
        s, v = one(c, r, f"VERSION of {k.qual}")
        if v[0] == "enum":
            out[v] = k.qual
    return out


def m05(c):
    c.rule("sending: a manager hands every message to the dispatcher with "
           "its own channel and its own version; the dispatcher lets the "
           "processor registered for that version encode it, for the same "
           "handle and arguments, and sends exactly the result, once, on "
           "that channel; the channel sends it to its own address through "
           "its own transport; without a processor it raises ValueError and "
           "sends nothing")
    c.rule("receiving: a datagram is given, unchanged, to the processor "
           "registered for the version it states and to no other; what that "
           "returns is handed to the handle it returned, once, and to "
           "nothing else")
    c.rule("stated version: what a processor encodes states the version the "
           "processor is registered for")
    procs = processors(c)
    want = {n: enum_const(c.engine(), VERSION, x) for n, x in NAMES.items()}
    for n, v in want.items():
        c.expect(v in procs, "stated version", f"processor for {NAMES[n]}",
                 c.prog.cls(PROCESSOR).module.relpath,
                 f"no message processor is for {NAMES[n]}")
    if not set(want.values()) <= set(procs):
        return
    managers(c, want)
    dispatching(c, procs, want)
    hearing(c, procs, want)
    channels(c)
    stated(c, procs, want)
    c.floor("messages of managers", 9)
    c.floor("messages sent by the dispatcher", 3)
    c.floor("datagrams handled", 3)
    c.floor("messages encoded", 3)


def managers(c, want):
    for n in MANAGER:
        for how in ("get", "getNext", "getBulk", "set"):
            if c.prog.member(c.prog.cls(MANAGER[n]), how) is None:
                continue
            w = World(c, n)
            w.freeze(w.st, const(0.0))
            kw = {"engine": w.E[0]} if n == "v3" else {}
            s, m = one(c, w.manager(w.st, **kw), "manager")
            fn = f"{MANAGER[n].rsplit('.', 1)[-1]}.{how}"
            for s2, r in normal(w.request(s, m, how)):
                w.freeze(s2, const(2.0))
                for s3, _ in normal(call(w.it, s2, m, "refresh")):
                    for e in w.sends(s3):
                        c.count("messages of managers")
                        c.expect(
                            s3.canon(e.channel) == w.channel, "sending",
                            f"{fn}: channel", e.where, "a message is not "
                            "sent on the channel of its manager",
                            c.trace(s3))
                        c.expect(
                            s3.canon(e.version) == want[n], "sending",
                            f"{fn}: version", e.where, "a message is sent "
                            f"as {pp(e.version)} by a manager for "
                            f"{NAMES[n]}", c.trace(s3))
            c.used(w.it)


class Board:
    """A dispatcher with some processors, each of which records what it is
    asked."""

    def __init__(self, c, procs, which):
        self.c = c
        o = {}
        for v, q in procs.items():
            for name, f in (("prepareOutgoingMessage", self.outgoing),
                            ("prepareDataElements", self.incoming)):
                o[c.prog.func(f"{q}.{name}").qual] = f
        o["snmp.asn1.ASN1.decode"] = self.decode
        for q in overrides(c.prog, PROCESSOR, "prepareOutgoingMessage"):
            o.setdefault(q, self.outgoing)
        for q in c.prog.subclasses[c.prog.cls(
                "snmp.message.RequestHandle").qual]:
            m = c.prog.member(q, "push")
            if m is not None:
                o[c.prog.func(f"{q.qual}.push").qual] = self.push
        for q in overrides(c.prog, CHANNEL, "send"):
            o[q] = self.sent
        o[c.prog.func(f"{CHANNEL}.send").qual] = self.sent
        it = self.it = c.engine(o)
        it.all_alive = True
        it.exact_heaps = True
        it.unroll = it.unroll_while = 8
        st = State()
        self.mux = it.input_obj(st, "snmp.transport.TransportMultiplexor",
                                "multiplexor")
        st, self.d = make(it, st, DISPATCHER, self.mux)
        self.p = {}
        for v in which:
            st, self.p[v] = make(it, st, procs[v],
                                 *self.arguments(procs[v]))
            st, _ = one(c, call(it, st, self.d, "addMessageProcessor",
                                self.p[v]), "addMessageProcessor")
        self.st = st
        self.stated = None

    def arguments(self, q):
        f = self.c.prog.member(self.c.prog.cls(q), "__init__")
        n = len(f.node.args.args) - 1 - len(f.node.args.defaults) \
            if f is not None else 0
        return [N("size", 484)] * n

    def outgoing(self, it, st, f, args, kwargs, fr, node):
        r = B("encoded")
        it.event(st, "encoded", fr, node, args[0], tuple(args[1:]),
                 tuple(sorted(kwargs.items())))
        return [(st, r)]

    def incoming(self, it, st, f, args, kwargs, fr, node):
        it.event(st, "handled", fr, node, args[0], tuple(args[1:]))
        out = it.exc(st.fork(), "snmp.exception.IncomingMessageError",
                     fr.where(node))
        out += it.exc(st.fork(), "builtins.AssertionError", fr.where(node))
        h = it.input_obj(st, "snmp.manager.v3.RequestMessage", "receiver")
        m = it.input_obj(st, "snmp.message.v3.SNMPv3Message", "received")
        st.names["#got"] = (m, h)
        return out + [(st, ("tup", (m, h)))]

    def push(self, it, st, f, args, kwargs, fr, node):
        it.event(st, "push", fr, node, args[0],
                 args[1] if len(args) > 1 else kwargs.get("response"))
        return [(st.fork(), NONE)] + it.exc(st, "builtins.ValueError",
                                            fr.where(node))

    def sent(self, it, st, f, args, kwargs, fr, node):
        it.event(st, "transmitted", fr, node, args[0],
                 args[1] if len(args) > 1 else kwargs.get("data"))
        return [(st, NONE)]

    def decode(self, it, st, f, args, kwargs, fr, node):
        """Of the version of a datagram."""
        if args[0] != ("cls", "snmp.message.version.VersionOnlyMessage"):
            return None
        it.event(st, "version read", fr, node, args[1])
        out = it.exc(st.fork(), "snmp.ber.ParseError", fr.where(node))
        out += it.exc(st.fork(), "snmp.message.version.BadVersion",
                      fr.where(node))
        return out + [make(it, st, args[0][1], self.stated)]


def dispatching(c, procs, want):
    fn = f"{DISPATCHER.rsplit('.', 1)[-1]}.sendPdu"
    where = c.prog.cls(DISPATCHER).module.relpath
    for which in [tuple(want.values())] + [(v,) for v in want.values()]:
        for n, v in want.items():
            x = Board(c, procs, which)
            it = x.it
            st = x.st.fork()
            ch = it.input_obj(st, CHANNEL, "channel")
            pdu = it.input_obj(st, "snmp.pdu.GetRequestPDU", "pdu")
            h = it.input_obj(st, "snmp.manager.v3.RequestMessage", "handle")
            extra = [B("extra0"), B("extra1")]
            kw = {"contextName": B("extra2")}
            for s, r in call(it, st, x.d, "sendPdu", ch, v, pdu, h, *extra,
                             **kw):
                tr = c.trace(s, r)
                enc, out = events(s, "encoded"), events(s, "transmitted")
                if v not in which:
                    c.expect(isinstance(r, Exc) and not enc and not out
                             and r.cls == "builtins.ValueError", "sending",
                             f"{fn}: no processor", where, "sending in a "
                             "version without a processor does not fail with "
                             "ValueError", tr)
                    continue
                c.count("messages sent by the dispatcher")
                c.expect(not isinstance(r, Exc), "sending",
                         f"{fn}: outcome", where,
                         "sending a message fails", tr)
                c.expect(len(enc) == 1 and enc[0][1][0] == x.p[v]
                         and [s.canon(a) for a in enc[0][1][1]]
                         == [pdu, h] + extra
                         and enc[0][1][2] == tuple(kw.items()), "sending",
                         f"{fn}: encoding", where, "the message is not "
                         "encoded, once, by the processor for its version "
                         "with the arguments given", tr)
                c.expect(len(out) == 1 and s.canon(out[0][1][0]) == ch
                         and s.canon(out[0][1][1]) == B("encoded"),
                         "sending", f"{fn}: transmission", where,
                         "what is sent is not exactly the encoded message "
                         "on the given channel", tr)
            c.used(it)


def hearing(c, procs, want):
    fn = f"{DISPATCHER.rsplit('.', 1)[-1]}.hear"
    where = c.prog.cls(DISPATCHER).module.relpath
    for which in [tuple(want.values()), ()] + [(v,) for v in want.values()]:
        for n, v in want.items():
            x = Board(c, procs, which)
            x.stated = v
            it = x.it
            st = x.st.fork()
            t = it.input_obj(st, "snmp.transport.Transport", "transport")
            data = B("datagram")
            for s, r in call(it, st, x.d, "hear", t, ("tup", (S("a"),
                                                              I("p"))), data):
                tr = c.trace(s, r)
                got, push = events(s, "handled"), events(s, "push")
                c.expect(all(s.canon(e[1][0]) == data for e in events(
                    s, "version read")), "receiving", f"{fn}: version",
                    where, "the version is not read from the datagram", tr)
                if v not in which or not got:
                    read = any(e[0] == "version read" for e in s.events)
                    c.expect(not got and not push, "receiving",
                             f"{fn}: no processor", where, "a datagram is "
                             "given to the processor for another version",
                             tr)
                    c.expect(v not in which or read, "receiving",
                             f"{fn}: version", where,
                             "a datagram is dropped unread", tr)
                    continue
                c.count("datagrams handled")
                e = got[0][1]
                c.expect(len(got) == 1 and e[0] == x.p[v]
                         and [s.canon(a) for a in e[1]] == [data],
                         "receiving", f"{fn}: processor", where,
                         "a datagram is not given, once and unchanged, to "
                         "the processor for the version it states", tr)
                pair = s.names.get("#got")
                ok = not push if pair is None else (
                    len(push) == 1
                    and (s.canon(push[0][1][1]), s.canon(push[0][1][0]))
                    == pair)
                c.expect(ok, "receiving", f"{fn}: delivery", where,
                         "the message is not delivered, once, to the handle "
                         "the processor gave for it", tr)
            if v in which:
                c.expect(c.counts.get("datagrams handled", 0) > 0,
                         "receiving", f"{fn}: {n}", where,
                         "a datagram is never handled")
            c.used(it)


def channels(c):
    """A channel sends to its own address through its own transport."""
    def send(it, st, f, args, kwargs, fr, node):
        it.event(st, "send", fr, node, *args)
        return [(st, NONE)]
    o = {}
    for k in [c.prog.cls("snmp.transport.Transport")] + list(
            c.prog.subclasses["snmp.transport.Transport"]):
        if "send" in k.members:
            o[f"{k.qual}.send"] = send
    it = c.engine(o)
    st = State()
    t = it.input_obj(st, "snmp.transport.udp.UdpIPv4Socket", "transport")
    addr = ("tup", (S("host"), I("port")))
    local = ("tup", (S("localHost"), I("localPort")))
    st, ch = make(it, st, CHANNEL, t, addr, local)
    where = c.prog.cls(CHANNEL).module.relpath
    for s, r in call(it, st, ch, "send", B("encoded")):
        ev = events(s, "send")
        c.expect(not isinstance(r, Exc) and len(ev) == 1
                 and [s.canon(a) for a in ev[0][1]]
                 == [t, addr, B("encoded")], "sending",
                 "TransportChannel.send", where, "a channel does not send "
                 "the message to its address through its transport",
                 c.trace(s, r))
    c.used(it)
    sockets(c)


def sockets(c):
    """A socket sends the whole message to the address it is given."""
    for q in ("snmp.transport.udp.UdpIPv4Socket",
              "snmp.transport.udp.UdpIPv6Socket"):
        def sendto(it, st, args, kwargs, fr, node):
            it.event(st, "sendto", fr, node, *args[1:])
            return [(st, I("sent"))]
        it = c.engine()
        it.extmodels["socket.socket.sendto"] = sendto
        st = State()
        t = it.input_obj(st, q, "transport")
        addr = ("tup", (S("host"), I("port")))
        for s, r in normal(call(it, st, t, "send", addr, B("encoded"))):
            ev = events(s, "sendto")
            c.expect(len(ev) == 1 and [s.canon(a) for a in ev[0][1]]
                     == [B("encoded"), addr], "sending",
                     f"{q.rsplit('.', 1)[-1]}.send",
                     c.prog.cls(q).module.relpath, "a socket does not send "
                     "the message to the address given", c.trace(s, r))
            c.count("messages sent by a socket")
        c.used(it)


def stated(c, procs, want):
    """The version in what a processor encodes."""
    for n, v in want.items():
        q = procs[v]
        kept = []

        def prepare(it, st, f, args, kwargs, fr, node):
            kept.append((st, args[1]))
            return [(st, B("secured"))]
        o = {p: prepare for p in overrides(
            c.prog, "snmp.security.SecurityModule", "prepareOutgoing")}
        o[c.prog.func("snmp.utils.NumberGenerator.__next__").qual] = \
            lambda it, st, f, args, kwargs, fr, node: [(st, N("id", 1))]
        it = c.engine(o)
        st = State()
        p = it.input_obj(st, q, "processor")
        h = it.input_any_of(st, "snmp.message.RequestHandle", "handle")
        st, pdu = make(it, st, "snmp.pdu.GetRequestPDU", requestID=ZERO)
        if n == "v3":
            st, lv = level_const(it, st, "noAuthNoPriv")
            args = [pdu, h, B("engineID"), B("user"), lv]
        else:
            args = [pdu, h, B("community")]
        res = normal(call(it, st, p, "prepareOutgoingMessage", *args))
        outs = kept and [x for k, m in kept
                         for x in normal(call(it, k, m, "encode"))] or res
        for s, b in outs:
            c.count("messages encoded")
            tree = ber_tree(it, s, b)
            first = tree and len(tree) == 1 and tree[0].elements
            val = first and int_value(first[0].content)
            c.expect(val == const(v[-1]) if v[0] == "c" else
                     val is not None and val[0] == "c"
                     and val[2] == number(it, v), "stated version",
                     f"{q.rsplit('.', 1)[-1]}.prepareOutgoingMessage",
                     c.prog.cls(q).module.relpath,
                     f"a message is encoded as version {val!r}, not "
                     f"{NAMES[n]}", c.trace(s))
        c.used(it)


def number(it, v):
    """The number of an enumeration member."""
    for m in it.enum_members(it.prog.cls(v[1])):
        if m == v:
            r = it.getattr(State(), v, "value", TOP, None)
            return r[0][1][2]
    return None
