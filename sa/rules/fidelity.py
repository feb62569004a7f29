"""What is asked is what is sent; what is answered is what is given."""

from ..world import *
from .messages import one

PDU = {"get": "snmp.pdu.GetRequestPDU", "getNext": "snmp.pdu.GetNextRequestPDU",
       "getBulk": "snmp.pdu.GetBulkRequestPDU", "set": "snmp.pdu.SetRequestPDU"}
STATUS = "snmp.pdu.ErrorStatus"
ERROR = "snmp.pdu.ErrorResponse"
TEXTS = ("1.3.6.1.2.1", ".1.3.6.1.4", "0.0")


def methods(c, version):
    cls = c.prog.cls(MANAGER[version])
    return [m for m in PDU if c.prog.member(cls, m) is not None]


class Case:
    """One manager in a state of its own."""

    def __init__(self, c, version, autowait=False, engine=True):
        self.c, self.version = c, version
        w = self.w = World(c, version)
        self.it = w.it
        self.it.maxsteps = 10 ** 9
        self.it.all_alive = True
        self.it.exact_heaps = True
        self.it.unroll_while = 12
        self.it.unroll = 40
        self.it.cut_while = True
        self.it.extmodels["threading.Event.wait"] = self.event_wait
        self.reply = None
        st = w.st
        w.freeze(st, const(0.0))
        kw = {"engine": w.E[0]} if version == "v3" and engine else {}
        self.st, self.m = one(c, w.manager(st, autowait=autowait, **kw),
                              "a manager")

    def event_wait(self, it, st, args, kwargs, fr, node):
        """The response arrives while the caller waits."""
        if st.heap[args[0][1]].attrs.get("flag") == TRUE:
            return [(st, TRUE)]
        sent = self.w.sends(st)
        it.event(st, "waited", fr, node)
        if self.reply is None or not sent:
            st.assume(TRUE, False)
            return []
        return [(s, TRUE) for s, _ in normal(
            it.call_method(st, sent[-1].handle, "push", [self.reply], {},
                           fr, node))]

    def where(self):
        return self.c.prog.cls(MANAGER[self.version]).module.relpath

    def oid(self, st, i):
        return self.it.input_obj(st, "snmp.smi.OID", f"oid{i}")

    def response(self, st, status, index):
        it = self.it
        vbs = it.input_obj(st, "snmp.pdu.VarBindList", "answer")
        s, pdu = make(it, st, "snmp.pdu.ResponsePDU", variableBindings=vbs,
                      requestID=N("requestID", 1), errorStatus=status,
                      errorIndex=index)
        if self.version == "v3":
            s, msg = self.w.message(s, "authPriv", pdu, self.w.E[0])
        else:
            v = enum_const(it, "snmp.message.version.ProtocolVersion",
                           {"v1": "SNMPv1", "v2c": "SNMPv2c"}[self.version])
            s, msg = make(it, s, "snmp.message.core.Message", v,
                          B("community"), pdu)
        return s, msg, vbs


def equal(it, st, a, b):
    """Whether two values are the same, or always compare equal."""
    a, b = st.canon(a), st.canon(b)
    if a == b:
        return True
    if a[0] != "obj" or b[0] != "obj":
        return same(st, a, b) is True
    if st.heap[a[1]].cls != st.heap[b[1]].cls:
        return False
    res = it.eqv(a, b, st.fork(), TOP, None)
    return bool(res) and all(
        not isinstance(v, Exc) and truth(it, s, v) for s, v in res)


def truth(it, st, v):
    return all(b for _, b in it.truth(st, v, TOP, None))


def subids(it, st, oid):
    """The sub-identifiers of an identifier, if they are constants."""
    s, n = one(None, call(it, st, oid, "__len__"), "len")
    n = s.canon(n)
    if n[0] != "c":
        return None
    out = []
    for i in range(n[2]):
        s, v = one(None, it.getitem(s, oid, const(i), TOP, None), "item")
        v = s.canon(v)
        if v[0] != "c":
            return None
        out.append(v[2])
    return tuple(out)


def bindings(it, st, pdu):
    """(state, [(name, value)]) of the variable bindings of a PDU."""
    s, vbl = one(None, get(it, st, pdu, "variableBindings"), "bindings")
    s, n = one(None, call(it, s, vbl, "__len__"), "number of bindings")
    n = s.canon(n)
    if n[0] != "c":
        return s, None
    out = []
    for i in range(n[2]):
        s, vb = one(None, it.getitem(s, vbl, const(i), TOP, None), "binding")
        s, name = one(None, get(it, s, vb, "name"), "name")
        s, value = one(None, get(it, s, vb, "value"), "value")
        out.append((name, value))
    return s, out


def asked(c, x, st, how, want, e, extra):
    """Check one sent message against what the caller passed."""
    it = x.it
    fn = f"{MANAGER[x.version].rsplit('.', 1)[-1]}.{how}"
    at = e.where
    st = st.fork()

    def expect(holds, rule, what, message):
        c.expect(holds, rule, f"{fn}: {what}", at, message,
                 [] if holds else c.trace(st))
    kinds = st.heap[e.pdu[1]].cls if e.pdu[0] == "obj" else ()
    expect(set(kinds) == {PDU[how]}, "operation", "PDU type",
           f"the message carries {', '.join(sorted(kinds))}")
    st, got = bindings(it, st, e.pdu)
    expect(got is not None and len(got) == len(want), "variable bindings",
           "number", "the message has another number of variable bindings "
           "than the caller passed")
    if got is None or len(got) != len(want):
        return
    for (gn, gv), (wn, wv) in zip(got, want):
        good = subids(it, st, gn) == wn if isinstance(wn, tuple) and \
            all(isinstance(k, int) for k in wn) else equal(it, st, gn, wn)
        expect(good, "variable bindings", "names",
               "a variable binding names another object than the caller did")
        if wv is None:
            q = st.heap[gv[1]].cls if gv[0] == "obj" else ()
            expect(set(q) == {"snmp.asn1.NULL"}, "variable bindings",
                   "values", "a variable binding has a value although the "
                   "caller gave none")
        else:
            expect(equal(it, st, gv, wv), "variable bindings", "values",
                   "a variable binding has another value than the caller "
                   "gave")
    for n, v in extra.items():
        if n in ("nonRepeaters", "maxRepetitions"):
            s, g = one(c, get(it, st, e.pdu, n), n)
            expect(same(s, g, v) is True, "bulk parameters", n,
                   f"{n} is not what the caller passed")
        elif n == "community":
            expect(e.community is not None and same(st, e.community, v)
                   is True, "request parameters", n,
                   "the community is not that of the request")
        elif n == "user":
            expect(e.user is not None and same(st, e.user, v) is True,
                   "request parameters", n,
                   "the user is not that of the request")
        elif n == "level":
            expect(e.level == v, "request parameters", n,
                   "the security level is not that of the request")
    if how == "getBulk":
        for n in ("nonRepeaters", "maxRepetitions"):
            if n not in extra:
                s, g = one(c, get(it, st, e.pdu, n), n)
                expect(s.canon(g) == ZERO, "bulk parameters", n,
                       f"{n} is not 0 by default")


VALUES = ("snmp.smi.OID", "snmp.smi.Integer32", "snmp.smi.OctetString",
          "snmp.smi.Counter64")


def arguments(x, st, how, n, text):
    """(state, arguments, what the message must say)."""
    it = x.it
    args, want = [], []
    for i in range(n):
        if text:
            a = const(TEXTS[i])
            name = tuple(int(p) for p in TEXTS[i].strip(".").split("."))
        else:
            a = name = x.oid(st, i)
        if how != "set":
            args.append(a)
            want.append((name, None))
            continue
        v = it.input_obj(st, VALUES[i % len(VALUES)], f"value{i}")
        if i % 2:
            st, vb = make(it, st, "snmp.pdu.VarBind", a, v)
            args.append(vb)
        else:
            args.append(("tup", (a, v)))
        want.append((name, v))
    return st, args, want


def r05(c):
    c.rule("what is asked: every message sent for get(), getNext(), "
           "getBulk() or set(), the first time and repeated, carries a PDU "
           "of that kind with the names and values passed, in their order, "
           "the non-repeaters and maximum repetitions passed (0 otherwise), "
           "and the community, or user and security level, passed (those of "
           "the manager otherwise)")
    c.rule("what is given: waiting returns the variable bindings of the "
           "response exactly if its error status is noError; otherwise it "
           "raises ErrorResponse with that status and, as its cause, the "
           "variable binding of the request that the error index counts from "
           "1, the request itself for index 0, or the index if it has none")
    c.rule("waiting: a request is waited for if the caller says so, or says "
           "nothing and the manager waits automatically; the call returns "
           "the request otherwise")
    for version in MANAGER:
        ms = methods(c, version)
        if not {"get", "getNext", "set"} <= set(ms):
            raise AnalysisError(f"vanished anchor: methods of "
                                f"{MANAGER[version]}")
        for how in ms:
            requests(c, version, how)
            if version == "v3":
                discovered(c, how)
        answers(c, version)
        waits(c, version)
    c.floor("messages", 60)
    c.floor("results", 150)
    c.floor("ways to wait", 18)


def requests(c, version, how):
    deep = c.tier == "thorough"
    for n in range(5 if deep else 4):
        for text in ((False, True) if 0 < n < 4 else (False,)):
            for explicit in ((), ("who", "how"), ("who",), ("how",)):
                x = Case(c, version)
                st, args, want = arguments(x, x.st.fork(), how, n, text)
                kw, extra = {}, {}
                if how == "getBulk":
                    for p, when in (("nonRepeaters", "who"),
                                    ("maxRepetitions", "how")):
                        if when in explicit:
                            kw[p] = extra[p] = N(p)
                if version == "v3":
                    extra["user"] = x.w.U[0]
                    extra["level"] = x.w.levels["authPriv"]
                    if "who" in explicit:
                        kw["user"] = extra["user"] = B("anotherUser")
                    if "how" in explicit:
                        kw["securityLevel"] = extra["level"] = \
                            x.w.levels["authNoPriv"]
                elif explicit == ("how",):
                    continue
                elif explicit:
                    kw["community"] = extra["community"] = B("another")
                else:
                    extra["community"] = B("community")
                sent_for(c, x, st, how, args, kw, want, extra)
                c.used(x.it)


def sent_for(c, x, st, how, args, kw, want, extra):
    fn = f"{MANAGER[x.version].rsplit('.', 1)[-1]}.{how}"
    done = 0
    for s, r in x.w.request(st, x.m, how, args, timeout=const(9.0),
                            refreshPeriod=const(2.0), **kw):
        if isinstance(r, Exc):
            c.expect(False, "request made", f"{fn}: {r.cls}", r.where,
                     f"a request fails with {r.cls}", c.trace(s, r))
            continue
        first = x.w.sends(s)
        c.expect(len(first) == 1, "what is asked", f"{fn}: messages",
                 x.where(), f"{len(first)} messages are sent for a new "
                 "request", c.trace(s))
        for t in (2.0, 4.5):
            s = s.fork()
            x.w.freeze(s, const(t))
            rs = normal(call(x.it, s, x.m, "refresh"))
            if len(rs) != 1:
                raise AnalysisError("refresh: %d outcomes" % len(rs))
            s = rs[0][0]
        got = x.w.sends(s)
        c.expect(len(got) == 3, "what is asked", f"{fn}: repetitions",
                 x.where(), "a request without an answer is not repeated",
                 c.trace(s))
        for e in got:
            c.count("messages")
            asked(c, x, s, how, want, e, extra)
        done += 1
    c.expect(done > 0, "request made", f"{fn}: outcomes", x.where(),
             "no request can be made")


def discovered(c, how):
    """The message that follows discovery."""
    x = Case(c, "v3", engine=False)
    st, args, want = arguments(x, x.st.fork(), how, 2, False)
    extra = {"user": x.w.U[0], "level": x.w.levels["authPriv"]}
    s, report = x.w.report(st, "unknownEngineID", "noAuthNoPriv", x.w.E[0])
    for s, r in normal(x.w.request(s, x.m, how, args)):
        first = x.w.sends(s)
        for s2, v in normal(x.w.push(s, first[0].handle, report)):
            got = x.w.sends(s2)[len(first):]
            c.expect(len(got) == 1, "what is asked",
                     f"SNMPv3UsmManager.{how}: after discovery", x.where(),
                     f"{len(got)} messages follow the discovery of the "
                     "engine", c.trace(s2))
            for e in got:
                c.count("messages")
                asked(c, x, s2, how, want, e, extra)
    c.used(x.it)


def answers(c, version):
    index = N("errorIndex")
    it = Case(c, version).it
    for status in it.enum_members(c.prog.cls(STATUS)):
        for n in (0, 2):
            answer(c, Case(c, version), status, index, n)


def answer(c, x, status, index, n):
    it = x.it
    none = enum_const(it, STATUS, "noError")
    st, args, want = arguments(x, x.st.fork(), "get", n, False)
    fn = f"{MANAGER[x.version].rsplit('.', 1)[-1]}: result"
    for s, r in normal(x.w.request(st, x.m, "get", args)):
        sent = x.w.sends(s)
        s, msg, vbs = x.response(s, status, index)
        for s2, v in chain(x.w.push(s, sent[0].handle, msg),
                           lambda a, _: x.w.outcome(a, r)):
            c.count("results")
            tr = c.trace(s2, v)
            if not isinstance(v, Exc):
                c.expect(status == none, "what is given", f"{fn}: no error",
                         x.where(), "a result is given although the "
                         f"response reports {status[2]}", tr)
                c.expect(s2.canon(v) == vbs, "what is given",
                         f"{fn}: bindings", x.where(),
                         "the result is not the list of the response", tr)
                continue
            c.expect(v.cls == ERROR, "what is given", f"{fn}: {v.cls}",
                     v.where, f"waiting raises {v.cls}", tr)
            if v.cls != ERROR:
                continue
            c.expect(status != none, "what is given", f"{fn}: error",
                     v.where, "ErrorResponse is raised although the "
                     "response reports noError", tr)
            s3, got = one(c, get(it, s2, v.val, "status"), "status")
            c.expect(same(s3, got, status) is True, "what is given",
                     f"{fn}: status", v.where, "the status of the error is "
                     "not that of the response", tr)
            s3, got = one(c, get(it, s2, v.val, "cause"), "cause")
            cause(c, x, s3, got, sent[0].pdu, index, n, fn, v, tr)
    c.used(it)


def cause(c, x, st, got, pdu, index, n, fn, v, tr):
    got = st.canon(got)
    st, vbl = one(c, get(x.it, st, pdu, "variableBindings"), "bindings")
    vs = []
    for i in range(n):
        st, vb = one(c, x.it.getitem(st, vbl, const(i), TOP, None), "vb")
        vs.append(vb)
    if got == pdu:
        good = same(st, index, ZERO) is True
    elif got in vs:
        good = same(st, index, const(vs.index(got) + 1)) is True
    else:
        good = same(st, got, index) is True and not any(
            consistent(st, (mk_eq(index, const(i)), True))
            for i in range(n + 1))
    c.expect(good, "what is given", f"{fn}: cause", v.where,
             "the cause of the error is not what its index means", tr)


def waits(c, version):
    none = enum_const(Case(c, version).it, STATUS, "noError")
    for auto in (False, True):
        for wait in (None, True, False):
            x = Case(c, version, autowait=auto)
            st, args, want = arguments(x, x.st.fork(), "get", 1, False)
            st, x.reply, vbs = x.response(st, none, ZERO)
            kw = {} if wait is None else {"wait": const(wait)}
            want = auto if wait is None else wait
            fn = f"{MANAGER[version].rsplit('.', 1)[-1]}: wait"
            for s, v in call(x.it, st, x.m, "get", *args, **kw):
                c.count("ways to wait")
                tr = c.trace(s, v)
                if want:
                    c.expect(not isinstance(v, Exc) and s.canon(v) == vbs,
                             "waiting", fn, x.where(), "the call does not "
                             "wait for the result, although it should", tr)
                    continue
                waited = any(e[0] == "waited" for e in s.events)
                c.expect(not isinstance(v, Exc) and not waited
                         and s.canon(v) != vbs, "waiting", fn, x.where(),
                         "the call waits, although it should not", tr)
                if isinstance(v, Exc):
                    continue
                for s2, v2 in call(x.it, s, v, "wait"):
                    c.expect(not isinstance(v2, Exc)
                             and s2.canon(v2) == vbs, "waiting",
                             fn, x.where(), "waiting for the request does "
                             "not give the result", c.trace(s2, v2))
            c.used(x.it)
