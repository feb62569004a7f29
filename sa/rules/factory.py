"""Engine.Manager(): a manager is what was asked for."""

from ..world import *
from .messages import one
from .routing import NAMES, PROCESSOR, VERSION

ENGINE = "snmp.engine.Engine"
DOMAIN = "snmp.transport.TransportDomain"
TRANSPORT = "snmp.transport.Transport"
USAGE = "snmp.transport.AddressUsage"
MODEL = "snmp.security.models.SecurityModel"
HANDLE = "snmp.message.RequestHandle"
MUX = "snmp.transport.TransportMultiplexor"
NODEFAULT = "snmp.engine.NoDefaultUser"


def concrete(prog, base):
    """The classes below base that declare a DOMAIN."""
    return [k for k in prog.subclasses[prog.cls(base).qual]]


class Shop(World):
    """An engine; sockets, addresses and the user table are models."""

    def __init__(self, c, version="v3", nobody=False):
        self.nobody = nobody
        prog = c.prog
        models = {HANDLE + ".addCallback": self.ignore}
        models.update(security_models(prog))
        base = prog.cls(TRANSPORT)
        for k in (base, *prog.subclasses[base.qual]):
            for n, m in (("__init__", self.bind),
                         ("normalizeAddress", self.normalize)):
                if n in k.members:
                    models[f"{k.qual}.{n}"] = m
        for k in prog.subclasses[prog.cls(MUX).qual]:
            if "__init__" in k.members:
                models[k.qual + ".__init__"] = self.mux
        models[prog.func("snmp.dispatcher.Dispatcher.connectTransport").qual] \
            = self.connect
        models[prog.func(
            "snmp.dispatcher.Dispatcher.addMessageProcessor").qual] = self.add
        models[prog.func(USM + ".getDefaultUser").qual] = self.user
        models[prog.func(USM + ".getDefaultSecurityLevel").qual] = self.level
        World.__init__(self, c, version, opaque=models)
        self.it.unroll = 40
        self.it.all_alive = True
        self.it.exact_heaps = True
        self.it.unroll_while = 12
        self.it.cut_while = True
        self.it.extmodels["threading.Event.wait"] = self.waits
        self.freeze(self.st, const(0.0))

    # -- models -------------------------------------------------------------
    def ignore(self, it, st, f, args, kwargs, fr, node):
        return [(st, NONE)]

    def bind(self, it, st, f, args, kwargs, fr, node):
        it.event(st, "bound", fr, node, args[0], tuple(args[1:]),
                 tuple(sorted(kwargs.items())))
        return [(st, NONE)]

    def mux(self, it, st, f, args, kwargs, fr, node):
        it.event(st, "mux", fr, node, args[0],
                 (list(args[1:]) + list(kwargs.values()))[0])
        return [(st, NONE)]

    def normalize(self, it, st, f, args, kwargs, fr, node):
        cls = args[0]
        names = [a.arg for a in f.node.args.args]
        p = dict(zip(names, args))
        p.update(kwargs)
        address, usage = p.get(names[1], NONE), p.get(names[2], NONE)
        key = ("#at", cls, st.canon(address), usage)
        if key not in st.names:
            st.names[key] = ("tup", (
                sym(it.fresh("host"), "str"),
                ("s", it.fresh("port"), "int", (0, 65535))))
        it.event(st, "normalized", fr, node, cls, address, usage,
                 st.names[key])
        return [(st, st.names[key])]

    def connect(self, it, st, f, args, kwargs, fr, node):
        it.event(st, "connected", fr, node, args[0],
                 parameter(f, args, kwargs, "transport"))
        return [(st, NONE)]

    def add(self, it, st, f, args, kwargs, fr, node):
        it.event(st, "added", fr, node, args[0],
                 parameter(f, args, kwargs, "mp"))
        return None

    def user(self, it, st, f, args, kwargs, fr, node):
        it.event(st, "default user", fr, node, args[0],
                 parameter(f, args, kwargs, "namespace"))
        return [(st, NONE if self.nobody else S("default user"))]

    def level(self, it, st, f, args, kwargs, fr, node):
        it.event(st, "default level", fr, node, args[0],
                 parameter(f, args, kwargs, "userName"),
                 parameter(f, args, kwargs, "namespace"))
        return [(st, self.levels["authPriv"])]

    def register(self, it, st, f, args, kwargs, fr, node):
        it.event(st, "registering", fr, node, args[0])
        return World.register(self, it, st, f, args, kwargs, fr, node)

    def waits(self, it, st, args, kwargs, fr, node):
        it.event(st, "waited", fr, node)
        return []

    # -- operations ---------------------------------------------------------
    def engine(self, **kw):
        return one(self.c, self.it.instantiate(
            self.st.fork(), ENGINE, [], kw, TOP, None), "an engine")

    def version_const(self, v):
        return enum_const(self.it, VERSION, NAMES[v])

    def domain(self, n):
        return enum_const(self.it, DOMAIN, n)


class Asked:
    """What a call of Manager() asked for, and what must come of it."""

    def __init__(self, x, version, given, engine):
        it = x.it
        self.version = version
        self.kw, self.engine_kw = {}, {}
        self.address = S("address")
        kw = self.kw
        if "version" in given:
            kw["version"] = x.version_const(version)
        elif "number" in given:
            kw["version"] = const(x.version_const(version)[3])
        else:
            self.engine_kw["defaultVersion"] = x.version_const(version)
        self.dom = "UDP_IPv6" if "domain" in given or "domain default" \
            in given else "UDP_IPv4"
        if "domain" in given:
            kw["domain"] = x.domain(self.dom)
        elif "domain default" in given:
            self.engine_kw["defaultDomain"] = x.domain(self.dom)
        self.local = NONE
        if "local" in given:
            self.local = kw["localAddress"] = S("local address")
        self.autowait = True
        if "wait" in given:
            kw["autowait"], self.autowait = FALSE, False
        elif "wait default" in given:
            self.engine_kw["autowait"], self.autowait = FALSE, False
        elif "wait anyway" in given:
            self.engine_kw["autowait"] = FALSE
            kw["autowait"] = TRUE
        self.community = const(b"")
        if "community" in given:
            self.community = kw["community"] = B("community given")
        if "community default" in given:
            self.engine_kw["defaultCommunity"] = B("community default")
            if "community" not in given:
                self.community = B("community default")
        self.id = None
        self.namespace = const("")
        self.user, self.level = S("default user"), x.levels["authPriv"]
        if "engineID" in given:
            self.id = kw["engineID"] = engine
        if "namespace" in given:
            self.namespace = kw["namespace"] = S("namespace")
        if "user" in given:
            self.user = kw["defaultUserName"] = S("user given")
        if "level" in given:
            self.level = kw["defaultSecurityLevel"] = x.levels["authNoPriv"]
        if "model" in given:
            kw["securityModel"] = const(3)


COMMON = ((), ("version",), ("number",), ("domain",), ("domain default",),
          ("local",), ("wait",), ("wait default",), ("wait anyway",),
          ("version", "domain", "local", "wait"))
COMMUNITY = (("community",), ("community default",),
             ("community", "community default"))
V3 = (("engineID",), ("engineID", "namespace"), ("engineID", "user"),
      ("engineID", "level"), ("engineID", "user", "level", "namespace"),
      ("engineID", "user", "namespace"), ("engineID", "level", "namespace"),
      ("user",), ("model",), ("engineID", "model"))


def e01(c):
    c.rule("kind: Manager() gives a manager of the version asked for, or of "
           "the engine's default version, whose processor the dispatcher "
           "then has; a version, domain or security model that is not "
           "supported is refused with ValueError, and an SNMPv3 manager "
           "without user with NoDefaultUser")
    c.rule("addresses: its channel leads to the address given, normalized "
           "for an agent, through a socket of the domain asked for that is "
           "bound to the local address given, normalized for a sender, and "
           "that the dispatcher listens on")
    c.rule("sharing: a second manager uses the same processor, and the same "
           "socket if it has the same domain and local address and another "
           "otherwise; nothing is connected or added twice")
    c.rule("parameters: what it sends has the community, or engine, user, "
           "level and namespace asked for, or the defaults of the engine and "
           "the namespace; it waits if asked to, or by default")
    c.rule("transports: a transport that is handed over is listened on if it "
           "is the first of a domain that is supported, and refused with "
           "ValueError otherwise")
    c.rule("size: the size SNMPv3 messages announce is the one the engine "
           "reads datagrams with")
    for version in MANAGER:
        for given in COMMON + (V3 if version == "v3" else COMMUNITY):
            single(c, version, given)
    for a in MANAGER:
        for b in MANAGER:
            for first, second in (((), ()), ((), ("domain",)),
                                  (("local",), ("local",)),
                                  (("local",), ())):
                double(c, a, b, first, second)
            double(c, a, b, (), (), implicit=True)
    for a in MANAGER:
        third(c, a)
    refused(c)
    handed(c)
    c.floor("transports handed over", 4)
    c.floor("managers", 80)
    c.floor("messages", 60)
    c.floor("refusals", 6)


def manager_of(c, x, st, e, want):
    """Normal outcomes of Manager(); anything else is reported."""
    fn = f"{ENGINE}.Manager"
    out = []
    for s, m in call(x.it, st, e, "Manager", want.address, **want.kw):
        if isinstance(m, Exc):
            c.expect(False, "kind", f"{fn}: {m.cls}", m.where,
                     f"a manager is refused with {m.cls}", c.trace(s, m))
            continue
        x.hold(s, m)
        c.count("managers")
        kinds = s.obj(m).cls if m[0] == "obj" else ()
        c.expect(set(kinds) == {MANAGER[want.version]}, "kind",
                 f"{fn}: class", "snmp/engine.py",
                 f"a manager for {want.version} is a {sorted(kinds)}",
                 c.trace(s, m))
        out.append((s, m))
    return out


def socket_for(c, x, s, want, k):
    """The socket that was bound from event k on, if it is the right one."""
    it = x.it
    fn = f"{ENGINE}.Manager"
    norm = [e[1] for e in events(s, "normalized", k)]
    dom = x.domain(want.dom)

    def of(usage, address):
        u = constant(x, s, USAGE, usage)
        for n in norm:
            if s.canon(n[2]) == u and s.canon(n[1]) == s.canon(address) \
                    and domain_of(c, x, s, n[0]) == dom:
                return n[3]
        return None
    far, near = of("LISTENER", want.address), of("SENDER", want.local)
    c.expect(far is not None and near is not None, "addresses",
             f"{fn}: normalized", "snmp/engine.py", "an address is not "
             "normalized for its use and domain", c.trace(s))
    return far, near


def constant(x, s, qual, name):
    """A member of an enumeration, however that is defined."""
    m, n = qual.rsplit(".", 1)
    r = it_chain(x.it, x.it.global_(s.fork(), m, n, TOP, None), name)
    return r[0][0].canon(r[0][1])


def it_chain(it, results, name):
    r = it.seq(results, lambda s, v: it.getattr(s, v, name, TOP, None))
    if len(r) != 1:
        raise AnalysisError(f"{name} is not a constant")
    return r


def domain_of(c, x, s, cls):
    r = normal(x.it.getattr(s.fork(), cls, "DOMAIN", TOP, None))
    return r[0][0].canon(r[0][1]) if len(r) == 1 else None


def bound_to(x, s, k):
    """{socket: its arguments} made from event k on."""
    out = {}
    for e in events(s, "bound", k):
        a = list(e[1][1])
        kw = dict(e[1][2])
        for n in ("host", "port")[len(a):]:
            if n in kw:
                a.append(kw[n])
        out[s.canon(e[1][0])] = tuple(s.canon(v) for v in a)
    return out


def channel_parts(c, x, s, ch):
    out = []
    for n in ("transport", "address"):
        s, v = one(c, get(x.it, s, ch, n), n)
        out.append(s.canon(v))
    return s, out


def flat(s, t):
    t = s.canon(t)
    return tuple(s.canon(v) for v in t[1]) if t[0] == "tup" else t


def single(c, version, given):
    fn = f"{ENGINE}.Manager"
    x = Shop(c, version)
    want = Asked(x, version, given, x.E[0])
    size = N("size", 484)
    st, e = x.engine(msgMaxSize=size, **want.engine_kw)
    k = len(st.events)
    for s, m in manager_of(c, x, st, e, want):
        tr = c.trace(s)
        far, near = socket_for(c, x, s, want, k)
        if far is None or near is None:
            continue
        socks = bound_to(x, s, k)
        good = [o for o, a in socks.items() if a == flat(s, near)
                and domain_of(c, x, s, o) == x.domain(want.dom)]
        c.expect(len(good) == 1 == len(socks), "addresses",
                 f"{fn}: local", "snmp/engine.py", "no socket, or more than "
                 "one, or one of another domain, is bound to the local "
                 "address", tr)
        con = [s.canon(v[1][1]) for v in events(s, "connected", k)]
        c.expect(con == good, "addresses", f"{fn}: connected",
                 "snmp/engine.py", "the dispatcher does not listen on the "
                 "socket of the manager", tr)
        sent_by(c, x, s, m, want, good, far, e, size)
        processor(c, x, s, e, want, size, k)
    c.used(x.it)


def sent_by(c, x, st, m, want, socks, far, e, size):
    """What the manager sends."""
    it = x.it
    fn = f"{ENGINE}.Manager"
    k = len(st.events)
    st = st.fork()
    st, oid = make(it, st, "snmp.smi.OID", *(const(i) for i in (1, 3, 6)))
    done = 0
    x.it.extmodels["threading.Event.wait"] = x.waits
    waits = []

    def wait(it, s, args, kwargs, fr, node):
        waits.append(s)
        return []
    x.it.extmodels["threading.Event.wait"] = wait
    states = [s for s, r in call(it, st, m, "get", oid)
              if not isinstance(r, Exc)]
    c.expect(bool(waits) == want.autowait and bool(states)
             != want.autowait, "parameters", f"{fn}: autowait",
             "snmp/engine.py", "a manager waits although it should not, or "
             "the other way round", c.trace(st))
    for s in states + waits:
        for t in x.sends(s, k)[:1]:
            done += 1
            c.count("messages")
            tr = c.trace(s)
            s1, (sock, addr) = channel_parts(c, x, s, t.channel)
            c.expect([sock] == socks, "addresses", f"{fn}: socket", t.where,
                     "a message takes another socket than the one bound to "
                     "the local address", tr)
            c.expect(flat(s1, addr) == flat(s1, far), "addresses",
                     f"{fn}: remote", t.where, "a message goes to another "
                     "address than the one given", tr)
            c.expect(t.version == x.version_const(want.version), "kind",
                     f"{fn}: version", t.where, "a message has another "
                     "version", tr)
            if want.version != "v3":
                c.expect(same(s, t.community, want.community) is True,
                         "parameters", f"{fn}: community", t.where,
                         "a message has another community", tr)
                continue
            usm = one(c, get(it, s, e, "usm"), "usm")[1]
            if want.id is None:
                c.expect(s.canon(t.engine) == const(b""), "parameters",
                         f"{fn}: discovery", t.where, "a message is sent to "
                         "an engine although none was named", tr)
            else:
                name = one(c, it.call_method(
                    s.fork(), want.user, "encode", [], {}, TOP, None),
                    "encode")[1]
                c.expect(same(s, t.engine, want.id) is True, "parameters",
                         f"{fn}: engine ID", t.where,
                         "a message goes to another engine", tr)
                c.expect(same(s, t.user, name) is True, "parameters",
                         f"{fn}: user", t.where,
                         "a message has another user", tr)
                c.expect(t.level == want.level, "parameters",
                         f"{fn}: level", t.where,
                         "a message has another level", tr)
                reg = [v[1] for v in events(s, "register")]
                c.expect(reg and all(
                    same(s, r[1], want.namespace) is True
                    and same(s, r[0], want.id) is True for r in reg),
                         "parameters", f"{fn}: namespace", t.where,
                         "the engine is not assigned to the namespace", tr)
                c.expect(all(s.canon(v[1][0]) == s.canon(usm) for v in
                             events(s, "registering")), "parameters",
                         f"{fn}: security module", t.where, "the manager "
                         "has another user table than the engine", tr)
            for kind in ("default user", "default level"):
                for v in events(s, kind):
                    c.expect(same(s, v[1][-1], want.namespace) is True
                             and (kind == "default user" or same(
                                 s, v[1][1], want.user) is True),
                             "parameters", f"{fn}: {kind}", v[4],
                             f"the {kind} is not that of the user and "
                             "namespace", tr)
    c.expect(done > 0, "parameters", f"{fn}: sends", "snmp/engine.py",
             "the manager sends nothing", c.trace(st))


def processors_added(c, x, s):
    """{version: [processor]} that the dispatcher was given."""
    out = {}
    for v in events(s, "added"):
        p = s.canon(v[1][1])
        r = normal(x.it.getattr(s.fork(), p, "VERSION", TOP, None))
        out.setdefault(r[0][0].canon(r[0][1]), []).append(p)
    return out


def processor(c, x, s, e, want, size, k):
    """The dispatcher has the processor, and what that encodes is what the
    engine can receive."""
    it = x.it
    fn = f"{ENGINE}.Manager"
    tr = c.trace(s)
    have = processors_added(c, x, s)
    v = x.version_const(want.version)
    c.expect(set(have) == {v} and len(have[v]) == 1, "kind",
             f"{fn}: processor", "snmp/engine.py", "the dispatcher does not "
             "have, once, the processor for the version, and no other", tr)
    mux = [t[1] for t in events(s, "mux")]
    c.expect(len(mux) == 1 and same(s, mux[0][1], size) is True, "size",
             f"{ENGINE}: buffer", "snmp/engine.py", "datagrams are not read "
             "with the maximum size of the engine", tr)
    if v not in have or want.version != "v3":
        return
    s, pdu = make(it, s.fork(), "snmp.pdu.GetRequestPDU")
    h = it.input_obj(s, HANDLE, "handle")
    n = len(s.events)
    s, usm = one(c, get(it, s, e, "usm"), "usm")
    r = call(it, s, have[v][0], "prepareOutgoingMessage", pdu, h,
             B("engine"), B("user"), x.levels["noAuthNoPriv"])
    out = [(s2, t[1]) for s2, _ in normal(r)
           for t in events(s2, "outgoing", n)]
    c.expect(bool(out), "kind", f"{fn}: security module", "snmp/engine.py",
             "the processor has no security module for the manager", tr)
    for s2, d in out:
        s2, got = one(c, get(it, s2, d[0], "header", "maxSize"), "maxSize")
        c.count("sizes")
        c.expect(same(s2, got, size) is True, "size",
                 f"{ENGINE}: announced", "snmp/engine.py", "SNMPv3 messages "
                 "announce another maximum size than the engine reads", tr)


def double(c, a, b, first, second, implicit=False):
    """implicit: the second has the engine's default version"""
    fn = f"{ENGINE}.Manager"
    x = Shop(c, a)
    one_, two = (Asked(x, v, g + (
        ("engineID",) if v == "v3" else ()), x.E[0])
        for v, g in ((a, ("version",) + first),
                     (b, second if implicit else ("version",) + second)))
    two.address = S("address 2")
    if "local" in second:
        two.local = two.kw["localAddress"] = S("local address 2")
    st, e = x.engine(**two.engine_kw)
    for s, m in manager_of(c, x, st, e, one_):
        k = len(s.events)
        old = list(bound_to(x, s, 0))
        near1 = socket_for(c, x, s, one_, 0)[1]
        for s2, m2 in manager_of(c, x, s, e, two):
            far, near = socket_for(c, x, s2, two, k)
            if near is None or near1 is None:
                continue
            tr = c.trace(s2)
            new = bound_to(x, s2, k)
            con = [s2.canon(v[1][1]) for v in events(s2, "connected", k)]
            alike = one_.dom == two.dom and all(
                same(s2, p, q) is True for p, q in
                zip(flat(s2, near1), flat(s2, near)))
            c.count("pairs")
            if alike:
                c.expect(not new and not con, "sharing", f"{fn}: socket",
                         "snmp/engine.py", "a second socket is bound to the "
                         "same local address", tr)
                mine = old
            else:
                differ = one_.dom != two.dom or consistent(s2, *(
                    (mk_eq(p, q), True) for p, q in
                    zip(flat(s2, near1), flat(s2, near)))) is None
                c.expect(differ and len(new) == 1, "sharing",
                         f"{fn}: socket", "snmp/engine.py", "a manager gets "
                         "the socket of another local address", tr)
                mine = [o for o, v in new.items() if v == flat(s2, near)]
                c.expect(con == mine, "sharing", f"{fn}: connected",
                         "snmp/engine.py", "the dispatcher does not listen "
                         "on the new socket", tr)
            have = processors_added(c, x, s2)
            c.expect({v: len(p) for v, p in have.items()} == {
                x.version_const(v): 1 for v in (a, b)}, "sharing",
                f"{fn}: processor", "snmp/engine.py", "a processor is "
                "missing, or was replaced while it may have open requests",
                tr)
            x.version = b
            sent_by(c, x, s2, m2, two, mine, far, e, None)
            x.version = a
            if m2 != m:
                sent_by2(c, x, s2, m, one_, old, e)
    c.used(x.it)


def third(c, a):
    """A manager like the first, after another one and any number of others:
    the socket is still the first one's."""
    fn = f"{ENGINE}.Manager"
    x = Shop(c, a)
    asked = [Asked(x, a, ("version",) + g + (
        ("engineID",) if a == "v3" else ()), x.E[0])
        for g in ((), ("local",), ())]
    st, e = x.engine()
    todo = [(st, None)]
    for i, want in enumerate(asked):
        nxt = []
        for s, near1 in todo:
            s = crowd(s, e)
            k = len(s.events)
            for s2, m in normal(call(x.it, s, e, "Manager", want.address,
                                     **want.kw)):
                x.hold(s2, m)
                near = socket_for(c, x, s2, want, k)[1]
                if near is None:
                    continue
                if i < 2:
                    nxt.append((s2, near1 or near))
                elif same(s2, near1, near) is True or all(
                        same(s2, p, q) is True for p, q in
                        zip(flat(s2, near1), flat(s2, near))):
                    c.count("third managers")
                    c.expect(not bound_to(x, s2, k), "sharing",
                             f"{fn}: socket of the first", "snmp/engine.py",
                             "a second socket is bound to the same local "
                             "address", c.trace(s2))
        todo = nxt
    c.used(x.it)


def sent_by2(c, x, s, m, want, socks, e):
    """The first manager still sends as it should."""
    far = next((v[1][3] for v in events(s, "normalized")
                if s.canon(v[1][1]) == s.canon(want.address)), None)
    sent_by(c, x, s, m, want, socks, far, e, None)


def refused(c):
    fn = f"{ENGINE}.Manager"
    for kw, ekw, nobody, want in (
            (dict(version=const(2)), {}, False, "builtins.ValueError"),
            (dict(version=const(7)), {}, False, "builtins.ValueError"),
            (dict(domain=const("udp")), {}, False, "builtins.ValueError"),
            ({}, dict(defaultDomain=const("udp")), False,
             "builtins.ValueError"),
            (dict(securityModel=const(1)), {}, False, "builtins.ValueError"),
            (dict(securityModel=const(2)), {}, False, "builtins.ValueError"),
            (dict(securityModel=const(77)), {}, False,
             "builtins.ValueError"),
            ({}, {}, True, NODEFAULT),
            (dict(namespace=S("namespace")), {}, True, NODEFAULT)):
        x = Shop(c, "v3", nobody)
        kw = {k: enum_const(x.it, MODEL, v) if isinstance(v, str) else v
              for k, v in kw.items()}
        st, e = x.engine(**ekw)
        for s, m in call(x.it, st, e, "Manager", S("address"), **kw):
            c.count("refusals")
            c.expect(isinstance(m, Exc) and want in
                     c.prog.exc_ancestors(m.cls), "kind",
                     f"{fn}: refuses {sorted(kw) or sorted(ekw)}",
                     m.where if isinstance(m, Exc) else "snmp/engine.py",
                     "an unsupported request is not refused with "
                     f"{want.rsplit('.', 1)[-1]} but "
                     f"{m.cls if isinstance(m, Exc) else 'accepted'}",
                     c.trace(s, m))
        c.used(x.it)


def handed(c):
    """Engine.connectTransport()"""
    fn = f"{ENGINE}.connectTransport"
    first = Shop(c)

    def transport(x, st, dom):
        want = x.domain(dom)
        for k in concrete(c.prog, TRANSPORT):
            if domain_of(c, x, st, ("cls", k.qual)) == want:
                return x.it.input_obj(st, k.qual,
                                      f"transport{len(st.heap)}")
        raise AnalysisError(f"no transport for {dom}")

    def give(x, st, e, t, accepted, what):
        out = []
        for s, v in call(x.it, st.fork(), e, "connectTransport", t):
            got = events(s, "connected", len(st.events))
            c.count("transports handed over")
            tr = c.trace(s, v)
            if accepted:
                c.expect(not isinstance(v, Exc) and len(got) == 1
                         and s.canon(got[0][1][1]) == s.canon(t),
                         "transports", f"{fn}: {what}", "snmp/engine.py",
                         f"{what} is not listened on", tr)
                if not isinstance(v, Exc):
                    out.append(s)
            else:
                c.expect(isinstance(v, Exc) and "builtins.ValueError"
                         in c.prog.exc_ancestors(v.cls) and not got,
                         "transports", f"{fn}: {what}", "snmp/engine.py",
                         f"{what} is not refused with ValueError", tr)
        return out
    x = first
    st, e = x.engine()
    for dom, other in (("UDP_IPv4", "UDP_IPv6"), ("UDP_IPv6", "UDP_IPv4")):
        s0 = st.fork()
        a, b, o, u = (transport(x, s0, d) for d in (dom, dom, other, dom))
        rs = x.it.setattr(s0, u, "DOMAIN", const("udp"), TOP, None)
        s0 = rs[0][0]
        give(x, s0, e, u, False, "a transport of an unsupported domain")
        for s in give(x, s0, e, a, True, "the first transport of a domain"):
            give(x, s, e, b, False, "a second transport of a domain")
            give(x, s, e, o, True, "the transport of another domain")
    s0 = st.fork()
    a, b = (transport(x, s0, d) for d in ("UDP_IPv4", "UDP_IPv6"))
    for s, m in call(x.it, s0, e, "Manager", S("address"),
                     domain=x.domain("UDP_IPv4")):
        if isinstance(m, Exc):
            continue
        give(x, s, e, a, False, "a transport of a domain in use")
        give(x, s, e, b, True, "a transport of a domain not in use")
    c.used(x.it)


# -- addresses --------------------------------------------------------------

PORTS = {None: 0, "LISTENER": 161, "TRAP_LISTENER": 162, "SENDER": 0}
ANY = {"UDP_IPv4": ("0.0.0.0", "AF_INET"), "UDP_IPv6": ("::", "AF_INET6")}


def e03(c):
    c.rule("accepted: an address, or address and port, is accepted exactly "
           "if the address is one of the domain's family and the port, if "
           "given, lies in 0..65535, and is not 0 where one listens; it is "
           "given back as it is")
    c.rule("defaults: without an address it is the domain's wildcard, "
           "without a port 161 for agents, 162 for trap listeners, else 0; "
           "an empty address means the wildcard only where none listens")
    c.rule("refused: everything else is refused with ValueError, or "
           "TypeError if the address is no string")
    for k in sorted(c.prog.subclasses[c.prog.cls(TRANSPORT).qual],
                    key=lambda k: k.qual):
        it = c.engine({})
        dom = domain_of(c, type("X", (), {"it": it}), State(),
                        ("cls", k.qual))
        if dom is None or dom[0] != "enum":
            continue
        for usage in PORTS:
            for form in ("nothing", "none", "text", "empty", "pair",
                         "empty pair", "constant port", "number"):
                address(c, k, dom[2], usage, form)
    c.floor("accepted", 40)
    c.floor("refused", 40)


def address(c, k, dom, usage, form):
    valid = op("truth", op("family", S("host")))

    def pton(it, st, args, kwargs, fr, node):
        fam, a = args[0], st.canon(args[1])
        if a[0] == "c" and not isinstance(a[2], str) or tyof(a) == "int":
            return it.exc(st, "builtins.TypeError", fr.where(node))
        if a[0] == "c":
            ok = fam == ("ext", "socket." + ANY[dom][1]) \
                and a[2] == ANY[dom][0]
            return [(st, B("packed"))] if ok else it.exc(
                st, "builtins.OSError", fr.where(node))
        if a == S("host") and fam != ("ext", "socket." + ANY[dom][1]):
            it.event(st, "family", fr, node, fam)
        out = []
        for s, b in it.split(st, op("truth", op("family", a))):
            out += [(s, B("packed"))] if b else it.exc(
                s, "builtins.OSError", fr.where(node))
        return out
    it = c.engine({}, ext={"socket.inet_pton": pton})
    x = type("X", (), {"it": it})
    st = State()
    host, port = S("host"), I("port")
    st.assume(mk_eq(host, const("")), False)
    listens = usage in ("LISTENER", "TRAP_LISTENER")
    default = const(PORTS[usage])
    kw = {}
    args = [] if form == "nothing" else [{
        "none": NONE, "text": host, "empty": const(""),
        "pair": ("tup", (host, port)),
        "empty pair": ("tup", (const(""), port)),
        "constant port": ("tup", (host, default)),
        "number": ("tup", (I("host number"), port))}[form]]
    if usage is not None:
        kw["usage"] = constant(x, st, USAGE, usage)
    fn = f"{k.qual}.normalizeAddress"
    what = f"{fn}: {form} for {usage}"
    where = k.module.relpath
    want_host = {"nothing": const(ANY[dom][0]), "none": const(ANY[dom][0]),
                 "empty": const(ANY[dom][0]),
                 "empty pair": const(ANY[dom][0])}.get(form, host)
    want_port = port if form in ("pair", "empty pair", "number") else default
    # when it must be accepted
    if form == "number" or (form in ("empty", "empty pair") and listens):
        must = None
    else:
        must = []
        if want_host == host:
            must.append((valid, True))
        if want_port == port:
            must.append((op("le", sub(const(1 if listens else 0), port)),
                         True))
            must.append((op("le", sub(port, const(65535))), True))
    done = 0
    for s, v in call_class(it, st, k.qual, "normalizeAddress", args, kw):
        tr = c.trace(s, v)
        done += 1
        if isinstance(v, Exc):
            c.count("refused")
            want = "builtins.TypeError" if form == "number" else \
                "builtins.ValueError"
            c.expect(want in c.prog.exc_ancestors(v.cls) or (
                form == "number" and "builtins.ValueError" in
                c.prog.exc_ancestors(v.cls)), "refused",
                f"{what}: {v.cls}", v.where,
                f"an address is refused with {v.cls}", tr)
            c.expect(must is None or consistent(s, *must) is None,
                     "accepted", f"{what}: refused", v.where,
                     "a proper address is refused", tr)
            continue
        c.count("accepted")
        got = flat(s, v)
        c.expect(must is not None, "accepted", f"{what}: improper", where,
                 "an improper address is accepted", tr)
        if must is None:
            continue
        c.expect(len(got) == 2 and same(s, got[0], want_host) is True,
                 "defaults", f"{what}: host", where,
                 "an address is changed, or has the wrong default", tr)
        c.expect(len(got) == 2 and same(s, got[1], want_port) is True,
                 "defaults", f"{what}: port", where,
                 "a port is changed, or has the wrong default", tr)
        for a, pol in must:
            c.expect(s.decide(a) is pol, "accepted",
                     f"{what}: {'port' if a[1] == 'le' else 'host'}", where,
                     "an improper address is accepted", tr)
        c.expect(not events(s, "family"), "accepted", f"{what}: family",
                 where, "an address is checked for another family", tr)
    if done == 0:
        raise AnalysisError(what + ": no outcome")
    c.used(it)


def call_class(it, st, qual, name, args, kw):
    """Call a class method."""
    return it.seq(it.getattr(st.fork(), ("cls", qual), name, TOP, None),
                  lambda s, f: it.call(s, f, args, kw, TOP, None))
