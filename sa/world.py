"""A manager under symbolic histories: requests are made, messages arrive for
their handles, time passes, references are dropped. The dispatcher and the
security module are replaced by recorders at their interfaces."""

from .program import AnalysisError
from .scen import *

USM = "snmp.security.usm.implementation.UserBasedSecurityModule"
DISPATCHER = "snmp.dispatcher.Dispatcher"
MANAGER = {"v1": "snmp.manager.v1.SNMPv1Manager",
           "v2c": "snmp.manager.v2c.SNMPv2cManager",
           "v3": "snmp.manager.v3.SNMPv3UsmManager"}
NOW = ("n", "#now")
USM_STATS = (1, 3, 6, 1, 6, 3, 15, 1, 1)
REPORTS = {"unsupportedSecLevel": 1, "notInTimeWindow": 2,
           "unknownUserName": 3, "unknownEngineID": 4, "wrongDigest": 5,
           "decryptionError": 6, "other": 7}


def parameter(f, args, kwargs, name):
    """One argument of a call by the name of the parameter."""
    if name in kwargs:
        return kwargs[name]
    names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
    if name in names and names.index(name) < len(args):
        return args[names.index(name)]
    return NONE


class Sent:
    """One message handed to the dispatcher."""

    def __init__(self, e):
        (self.channel, self.version, self.pdu, self.handle, self.engine,
         self.user, self.level, self.community, self.id, self.now,
         self.varbinds, self.held) = e[1]
        self.held = e[2]
        self.where = e[4]
        self.at = e[3]


class World:
    def __init__(self, c, version, opaque=None, fails=False):
        """fails: the dispatcher may also raise."""
        self.c = c
        self.version = version
        self.fails = fails
        o = {c.prog.func(DISPATCHER + ".sendPdu").qual: self.sent}
        for n, m in (("registerRemoteEngine", self.register),
                     ("unregisterRemoteEngine", self.unregister)):
            o[c.prog.func(f"{USM}.{n}").qual] = m
        o[c.prog.func("snmp.utils.NumberGenerator.__next__").qual] = \
            self.next_id
        o[c.prog.func("snmp.utils.NumberGenerator.__init__").qual] = \
            self.new_ids
        o.update(opaque or {})
        self.it = c.engine(o, ext={"time.time": self.time,
                                   "scenario.uncache": self.uncached})
        self.it.maxsteps *= 20
        self.refuse = ()        # engines of another namespace
        st = State()
        it = self.it
        self.dispatcher = it.input_obj(st, DISPATCHER, "dispatcher")
        self.usm = it.input_obj(st, USM, "usm")
        self.channel = it.input_obj(st, "snmp.transport.TransportChannel",
                                    "channel")
        for o in (self.dispatcher, self.usm, self.channel):
            self.hold(st, o)
        self.levels = {}
        for n in LEVELS:
            st, self.levels[n] = level_const(it, st, n)
        self.st = st
        self.E = [const(b"\x80\0\0\0\5engine%d" % i) for i in range(4)]
        self.U = [const(b"alice"), const(b"bob")]

    # -- interfaces ---------------------------------------------------------

    def hold(self, st, v):
        st.facts[("strong", v)] = True

    def drop(self, st, v):
        """The last reference to v goes away."""
        st.facts.pop(("strong", v), None)
        st.assume(op("alive", v), False)

    def time(self, it, st, args, kwargs, fr, node):
        if FROZEN in st.names:
            t = st.names[FROZEN]
            it.event(st, "time", fr, node, t)
            return [(st, t)]
        t = sym(it.fresh("now"), "float")
        last = st.names.get(NOW)
        if last is not None:
            st.assume(op("le", sub(last, t)), True)
        st.names[NOW] = t
        it.event(st, "time", fr, node, t)
        return [(st, t)]

    def new_ids(self, it, st, f, args, kwargs, fr, node):
        n = parameter(f, args, kwargs, "n")
        signed = parameter(f, args, kwargs, "signed") != FALSE
        if n[0] == "c" and isinstance(n[1], int):
            n = n[1] - signed
            st.facts[("numbers", args[0])] = (-(1 << n) if signed else 1,
                                              (1 << n) - 1)
        return [(st, NONE)]

    def next_id(self, it, st, f, args, kwargs, fr, node):
        r = ("s", it.fresh("id"), "int",
             st.facts.get(("numbers", args[0]), (1, 2**31 - 1)))
        st.assume(mk_eq(r, ZERO), False)    # the last of the sequence
        it.event(st, "nextid", fr, node, args[0], r)
        return [(st, r)]

    def register(self, it, st, f, args, kwargs, fr, node):
        e = parameter(f, args, kwargs, "engineID")
        ns = parameter(f, args, kwargs, "namespace")
        ok = e not in self.refuse
        it.event(st, "register", fr, node, e, ns, ok)
        return [(st, TRUE if ok else FALSE)]

    def unregister(self, it, st, f, args, kwargs, fr, node):
        it.event(st, "unregister", fr, node,
                 parameter(f, args, kwargs, "engineID"),
                 parameter(f, args, kwargs, "namespace"))
        return [(st, NONE)]

    def sent(self, it, st, f, args, kwargs, fr, node):
        args = list(args)
        kw = dict(kwargs)
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        b = dict(zip(names, args))
        rest = args[len(names):]
        for n in names[len(args):]:
            if n in kw:
                b[n] = kw.pop(n)
        proc = {"v1": "snmp.message.v1.SNMPv1MessageProcessor",
                "v2c": "snmp.message.v2c.SNMPv2cMessageProcessor",
                "v3": "snmp.message.v3.SNMPv3MessageProcessor"}[self.version]
        g = self.c.prog.func(proc + ".prepareOutgoingMessage")
        gn = [x.arg for x in g.node.args.posonlyargs + g.node.args.args][3:]
        p = dict(zip(gn, rest))
        p.update(kw)
        pdu, handle = b["pdu"], b["handle"]
        i = it.fresh("msgid")
        mid = ("s", i, "int", (1, 2**31 - 1))
        level = p.get("securityLevel")
        if self.version == "v3" and level is None:
            level = self.levels["noAuthNoPriv"]
        vb = NONE
        got = normal(it.getattr(st.fork(), pdu, "variableBindings", TOP,
                                None))
        if len(got) == 1:
            vb = got[0][1]
        it.event(st, "sent", fr, node, b["channel"], b["msgVersion"], pdu,
                 handle, p.get("engineID"), p.get("securityName"), level,
                 p.get("community"), mid, st.names.get(NOW), vb, None)
        out = []
        if self.fails:
            out += it.exc(st.fork(), "builtins.OSError", fr.where(node))
        cb = ("ext", "scenario.uncache")
        first = True
        if self.version != "v3":
            # a retransmission reuses the ID and the cache entry
            first = ("cached", handle) not in st.facts
        if first:
            st.facts[("cached", handle)] = True
            it.event(st, "cached", fr, node, handle, mid)
            if self.version != "v3":
                r = normal(it.setattr(st, pdu, "requestID", mid, fr, node))
                st = r[0][0]
            out += [(s, v if isinstance(v, Exc) else NONE) for s, v in
                    it.call_method(st, handle, "addCallback", [cb, mid], {},
                                   fr, node)]
        else:
            out.append((st, NONE))
        return out

    def uncached(self, it, st, args, kwargs, fr, node):
        it.event(st, "uncached", fr, node, args[0])
        return [(st, NONE)]

    # -- what a scenario does ----------------------------------------------

    def manager(self, st, *, engine=None, level="authPriv", autowait=False):
        """[(state, manager)]"""
        it = self.it
        q = MANAGER[self.version]
        if self.version == "v3":
            args = [self.dispatcher, self.usm, self.channel, S("namespace"),
                    self.U[0], self.levels[level],
                    NONE if engine is None else engine,
                    TRUE if autowait else FALSE]
        else:
            args = [self.dispatcher, self.channel, B("community"),
                    TRUE if autowait else FALSE]
        out = []
        for s, m in it.instantiate(st.fork(), q, args, {}, TOP, None):
            if not isinstance(m, Exc):
                self.hold(s, m)
                out.append((s, m))
        return out

    def request(self, st, m, how="get", args=(), **kw):
        """[(state, request)] of a call to get() etc. without waiting."""
        kw.setdefault("wait", FALSE)
        out = []
        for s, r in call(self.it, st, m, how, *args, **kw):
            if not isinstance(r, Exc):
                self.hold(s, r)
            out.append((s, r))
        return out

    def sends(self, st, start=0):
        return [Sent(e) for e in st.events[start:] if e[0] == "sent"]

    def message(self, st, level, pdu, engine):
        """A received v3 message: (state, message)"""
        it = self.it
        s = st
        s, flags = make(it, s, "snmp.message.v3.MessageFlags",
                        self.levels[level], FALSE)
        model = enum_const(it, "snmp.security.models.SecurityModel", "USM")
        s, header = make(it, s, "snmp.message.v3.HeaderData", N("msgID"),
                         N("maxSize", 484), flags, model)
        s, params = make(it, s, "snmp.smi.OctetString", B("params"))
        s, scoped = make(it, s, "snmp.message.v3.ScopedPDU", pdu,
                         B("contextEngineID"), B("contextName"))
        s, msg = make(it, s, "snmp.message.v3.SNMPv3Message", header,
                      securityParameters=params, scopedPDU=scoped)
        for n, v in (("securityEngineID", engine), ("securityName",
                                                    self.U[0])):
            r = normal(it.setattr(s, msg, n, v, TOP, None))
            if len(r) != 1:
                raise AnalysisError(f"{n} cannot be set")
            s = r[0][0]
        return s, msg

    def report(self, st, kind, level, engine):
        return self.report_of(st, kind, level, engine)[:2]

    def report_of(self, st, kind, level, engine):
        """(state, message, the symbol that marks its content)"""
        it = self.it
        s, oid = make(it, st.fork(), "snmp.smi.OID",
                      *(const(x) for x in USM_STATS + (REPORTS[kind], 0)))
        tok = it.fresh("counter")
        s, value = make(it, s, "snmp.smi.Counter32",
                        ("s", tok, "int", (0, 2**32 - 1)))
        s, vb = make(it, s, "snmp.pdu.VarBind", oid, value)
        s, pdu = make(it, s, "snmp.pdu.ReportPDU", vb)
        return self.message(s, level, pdu, engine) + (tok,)

    def response(self, st, level=None, engine=None):
        return self.response_of(st, level, engine)[:2]

    def response_of(self, st, level=None, engine=None, error=False):
        """(state, message, the symbol that marks its content)"""
        it = self.it
        s = st.fork()
        tok = it.fresh("response")
        vbs = it.input_obj(s, "snmp.pdu.VarBindList", tok[1])
        kw = {"variableBindings": vbs, "requestID": N("requestID", 1)}
        if error:
            kw["errorStatus"] = enum_const(it, "snmp.pdu.ErrorStatus",
                                           "genErr")
            kw["errorIndex"] = ("s", tok, "int", (100, 200))
        s, pdu = make(it, s, "snmp.pdu.ResponsePDU", **kw)
        if self.version == "v3":
            return self.message(s, level, pdu, engine) + (tok,)
        v = enum_const(it, "snmp.message.version.ProtocolVersion",
                       {"v1": "SNMPv1", "v2c": "SNMPv2c"}[self.version])
        return make(it, s, "snmp.message.core.Message", v, B("community"),
                    pdu) + (tok,)

    def push(self, st, handle, message):
        return call(self.it, st, handle, "push", message)

    def outcome(self, st, req):
        """What a request that is waited for, after it was finished, gives:
        [(state, result)] without the paths on which it waits any longer."""
        return call(self.it, st, req, "wait")

    # -- the clock ------------------------------------------------------------

    def freeze(self, st, t):
        """All looks at the clock give t from now on."""
        st.names[FROZEN] = t
        st.names[NOW] = t

    def clock(self, st):
        return st.names.get(NOW)


FROZEN = ("n", "#frozen")


def renamer():
    table = {}

    def rename(name):
        if "#" in name:
            base = name.split("#")[0]
            return table.setdefault(name, f"{base}#{len(table)}")
        return name
    return rename


def signature(st, roots, skip=()):
    """The heap reachable from roots, up to the names of objects and of fresh
    symbols: two states with one signature behave alike as far as equalities
    recorded in them go."""
    seen, ren, out = {}, renamer(), []
    todo = []

    def enc(t):
        if not isinstance(t, tuple):
            return t
        if len(t) == 2 and t[0] == "obj" and t[1] in st.heap:
            n = seen.get(t[1])
            if n is None:
                n = seen[t[1]] = len(seen)
                todo.append(t)
            return ("o", n)
        if len(t) == 2 and t[0] == "n" and isinstance(t[1], str):
            return ("n", ren(t[1]))
        return tuple(enc(x) for x in t)
    out.append(enc(tuple(st.canon(r) for r in roots)))
    while todo:
        t = todo.pop(0)
        o = st.heap[t[1]]
        if o.sym and not o.attrs and not o.items:
            out.append((o.kind, repr(o.name)))
            continue
        attrs = []
        for n in sorted(o.attrs):
            v = o.attrs[n]
            try:
                v = st.canon(v)
            except Exception:
                continue
            attrs.append((n, enc(v)))
        items = o.items
        if o.kind == "set":
            items = tuple(sorted(items, key=repr))
        alive = st.facts.get(op("alive", t))
        out.append((o.kind, tuple(sorted(o.cls or ())) if not isinstance(
            o.cls, str) else o.cls, tuple(attrs), enc(items), enc(o.base),
            ("strong", t) in st.facts, alive))
    return repr(out)
