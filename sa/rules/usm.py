"""The User-based Security Model."""

from ..framework import *
from ..scen import *
from .messages import one, rank

TK = "snmp.security.usm.timekeeper.TimeKeeper"
USM = "snmp.security.usm.implementation.UserBasedSecurityModule"
AUTH = "snmp.security.usm.AuthProtocol"
PRIV = "snmp.security.usm.PrivProtocol"
PARAMS = "snmp.security.usm.parameters.UsmSecurityParameters"
REG = "snmp.security.usm.users.UserRegistry"
CREDS = "snmp.security.usm.credentials.LocalizedCredentials"
MAXINT = 2**31 - 1


# -- contracts of the collaborators ------------------------------------------

def sign_model(it, st, f, args, kwargs, fr, node):
    """AuthProtocol.sign: a function of the key object and the data, as long
    as the blank digest of the same object (checked by U07)."""
    b = bindargs(f, args, kwargs)

    def go(s, blank):
        r = op("mac", s.canon(b["self"]), s.canon(b["data"]))
        if not s.fact(mk_eq(mk_len(r), s.canon(mk_len(blank)))):
            return []
        it.event(s, "sign", fr, node, b["self"], s.canon(b["data"]), r)
        return [(s, r)]
    return it.seq(it.getattr(st, b["self"], "msgAuthenticationParameters",
                             fr, node), go)


def decrypt_model(it, st, f, args, kwargs, fr, node):
    b = bindargs(f, args, kwargs)
    r = sym(it.fresh("plaintext"), "bytes")
    it.event(st, "decrypt", fr, node, b["self"], b["data"],
             b["engineBoots"], b["engineTime"], b["salt"], r)
    return it.exc(st.fork(), "builtins.ValueError", fr.where(node)) \
        + [(st, r)]


def encrypt_model(it, st, f, args, kwargs, fr, node):
    b = bindargs(f, args, kwargs)
    ct, salt = sym(it.fresh("ciphertext"), "bytes"), sym(
        it.fresh("salt"), "bytes")
    it.event(st, "encrypt", fr, node, b["self"], st.canon(b["data"]),
             b["engineBoots"], b["engineTime"], ct, salt)
    return [(st, ("tup", (ct, salt)))]


def credentials_model(it, st, f, args, kwargs, fr, node):
    b = bindargs(f, args, kwargs)
    it.event(st, "credentials", fr, node, b["engineID"], b["userName"])
    out = it.exc(st.fork(), "snmp.security.usm.users.InvalidEngineID",
                 fr.where(node))
    out += it.exc(st.fork(), "snmp.security.usm.users.InvalidUserName",
                  fr.where(node))
    return out + [(st, it.input_obj(st, CREDS, "credentials"))]


def verify_model(it, st, f, args, kwargs, fr, node):
    b = bindargs(f, args, kwargs)
    r = sym(it.fresh("timely"), "bool")
    it.event(st, "timeupdate", fr, node, b["engineID"], b["msgBoots"],
             b["msgTime"], b["timestamp"], r)
    return [(st, r)]


def hint_model(it, st, f, args, kwargs, fr, node):
    b = bindargs(f, args, kwargs)
    it.event(st, "hint", fr, node, b["engineID"], b["msgBoots"],
             b["msgTime"], b["timestamp"])
    return [(st, NONE)]


def clock_model(it, st, f, args, kwargs, fr, node):
    b = bindargs(f, args, kwargs)
    # another thread may move the clock between two looks at it
    boots, time_ = (("s", it.fresh("clock." + n), "int", (0, MAXINT))
                    for n in ("boots", "time"))
    it.event(st, "clock", fr, node, b["engineID"], b["timestamp"], boots,
             time_)
    return [(st, ("tup", (boots, time_)))]


def usm_models(prog, clock=True, registry=True):
    out = {}
    for base, name, m in ((AUTH, "sign", sign_model),
                          (PRIV, "encrypt", encrypt_model),
                          (PRIV, "decrypt", decrypt_model)):
        qs = overrides(prog, base, name)
        if len(qs) < 2:
            raise AnalysisError(f"vanished anchor: {base}.{name}")
        for q in qs:
            out[q] = m
    if clock:
        for name, m in (("updateAndVerify", verify_model),
                        ("hint", hint_model),
                        ("getEngineTime", clock_model)):
            out[prog.func(f"{TK}.{name}").qual] = m
    if registry:
        out[prog.func(f"{REG}.getCredentials").qual] = credentials_model
    return out


def split(it, results):
    """Outcomes of a call that returns a boolean: [(state, bool)]"""
    out = []
    for s, v in results:
        if isinstance(v, Exc):
            out.append((s, v))
        else:
            out += it.truth(s, v, TOP, None)
    return out


# -- the clock ----------------------------------------------------------------

def at_least(st, a, b):
    """a >= b on this path (True/False/None)."""
    return st.le0(st.canon(sub(b, a)))


def later(st, a, b):
    """a > b."""
    return st.le0(st.canon(sub(b, a)), strict=True)


def clock_pair(c, it, st, tk, E, ts):
    """[(state, boots, time)] of getEngineTime."""
    out = []
    for s, v in call(it, st, tk, "getEngineTime", E, ts):
        if isinstance(v, Exc):
            c.bad("clock", f"{TK}.getEngineTime", "snmp/security/usm",
                  f"reading the clock of an engine raises {v}", c.trace(s, v))
            continue
        if v[0] != "tup" or len(v[1]) != 2:
            raise AnalysisError("getEngineTime does not return a pair")
        out.append((s, v[1][0], v[1][1]))
    return out


class Clock:
    """Scenarios over one TimeKeeper; every number is symbolic."""

    def __init__(self, c):
        self.c = c
        self.it = c.engine()
        st = State()
        self.st, self.tk = make(self.it, st, TK)
        self.E, self.E2 = B("engine"), B("other")
        self.st.assume(mk_eq(self.E, self.E2), False)

    def verify(self, st, E, i, raw=False):
        """updateAndVerify with fresh arguments: [(state, bool)]"""
        r = call(self.it, st, self.tk, "updateAndVerify", E,
                 N(f"boots{i}"), N(f"time{i}"), F(f"now{i}"))
        for s, v in failed(r):
            self.c.bad("clock", f"{TK}.updateAndVerify", "snmp/security/usm",
                       f"checking the time of a message raises {v}",
                       self.c.trace(s, v))
        r = normal(r)
        return split(self.it, r)

    def hint(self, st, E, i):
        r = call(self.it, st, self.tk, "hint", E, N(f"boots{i}"),
                 N(f"time{i}"), F(f"now{i}"))
        for s, v in failed(r):
            self.c.bad("clock", f"{TK}.hint", "snmp/security/usm",
                       f"a hint raises {v}", self.c.trace(s, v))
        return [s for s, _ in normal(r)]

    def order(self, st, i, j):
        """Time passes: now_i <= now_j."""
        s = st.fork()
        s.assume(op("le", sub(F(f"now{i}"), F(f"now{j}"))), True)
        return s

    def snapshot(self, st):
        """What the object holds, by access path."""
        out = {}

        def walk(v, path, seen):
            v = st.canon(v)
            if v[0] == "obj" and v not in seen:
                o = st.obj(v)
                seen = seen | {v}
                for k in sorted(o.attrs, key=str):
                    walk(o.attrs[k], path + (str(k),), seen)
                if o.kind in ("dict", "list", "set"):
                    for n, e in enumerate(o.items):
                        if o.kind == "dict":
                            if e[1] is not None:
                                out[path + (n, "key")] = st.canon(e[0])
                                walk(e[1], path + (n,), seen)
                        else:
                            walk(e, path + (n,), seen)
            else:
                out[path] = v
        walk(self.tk, (), frozenset())
        return out


def one_history(c, k):
    """Whether every history of verified messages leaves the clock as one
    verified message would: the object after two messages equals the object
    after the first or after the second alone.  Reported as coverage only."""
    E = k.E
    n = bad = 0
    for s0, _ in k.verify(k.st, E, 0):
        a = k.snapshot(s0)
        for s1, _ in k.verify(k.order(s0, 0, 1), E, 1):
            n += 1
            got = k.snapshot(s1)

            def match(x):
                return set(x) == set(got) and all(
                    same(s1, x[p], got[p]) is True for p in got)
            if match(a):
                continue
            alone = [k.snapshot(s) for s, _ in k.verify(k.st, E, 1)]
            if not any(match(x) for x in alone):
                bad += 1
    c.count("two-message histories", n)
    c.count("histories not equal to one message", bad)
    return bad == 0


def u03(c):
    c.rule("TimeKeeper.updateAndVerify on a fresh object and after one "
           "earlier verified message, all numbers symbolic: it accepts "
           "exactly when the boot counter is below 2^31-1 and not below the "
           "one known, and, for an equal counter, the message is at most 150 "
           "whole seconds behind the local clock (151 exclusive, counting "
           "fractions). By the state comparison reported in the evidence, "
           "longer histories leave the object as one message would.")
    k = Clock(c)
    E = k.E
    where = "snmp/security/usm/timekeeper.py"
    fn = f"{TK}.updateAndVerify"
    rule = "time window"
    b0, t0, n0 = N("boots0"), N("time0"), F("now0")
    b1, t1, n1 = N("boots1"), N("time1"), F("now1")
    first = k.verify(k.st, E, 0)
    hinted = [x for s in k.hint(k.st, E, 5)
              for x in k.verify(k.order(s, 5, 0), E, 0)]
    for s, ok in first + hinted:
        c.count("first-contact paths")
        lim = s.le0(sub(b0, const(MAXINT)), strict=True)
        c.expect(lim is ok, rule, f"{fn}: first contact", where,
                 f"the first verified message of an engine is "
                 f"{'accepted' if ok else 'rejected'} although its boot "
                 f"counter {'may be' if ok else 'need not be'} 2^31-1",
                 c.trace(s))
    # the clock moves between the two messages; other engines and hints may
    # intervene
    for label, mid in between(k):
        for s0, _ in first:
            for s1 in mid(s0):
                s1 = k.order(s1, 0, 1)
                for s, ok in k.verify(s1, E, 1):
                    c.count("second-contact paths")
                    window(c, s, ok, b0, t0, n0, b1, t1, n1, rule,
                           f"{fn}: {label}", where)
    inductive = one_history(c, k)
    c.assumptions.append(
        "histories of any length: the object after two verified messages "
        "equals the object after one of them" if inductive else
        "histories of up to two verified messages per engine (the state "
        "comparison did not collapse longer ones)")
    c.used(k.it)
    c.floor("first-contact paths", 2)
    c.floor("second-contact paths", 8)


def between(k):
    """What may happen between two verified messages of an engine."""
    return [
        ("directly after the first message", lambda s: [s]),
        ("after a hint for the same engine",
         lambda s: k.hint(s, k.E, 5)),
        ("after a message of another engine",
         lambda s: [x for x, _ in k.verify(s, k.E2, 6)]),
    ]


def window(c, s, ok, b0, t0, n0, b1, t1, n1, rule, construct, where):
    """The acceptance condition of one path of the second message."""
    age = sub(add(sub(n1, n0), t0), t1)     # how far the message is behind
    tr = c.trace(s)
    live = s.le0(sub(b1, const(MAXINT)), strict=True)
    # after a first message at 2^31-1 the engine is dead for good
    fresh = at_least(s, b1, b0)
    # the counter the clock knows is at most 2^31-1
    if ok:
        c.expect(live is True, rule, construct + ": boot counter limit",
                 where, "a message with boot counter 2^31-1 is accepted", tr)
        c.expect(fresh is True, rule, construct + ": boot counter", where,
                 "a message with a boot counter below the one known is "
                 "accepted", tr)
        eq = consistent(s, (mk_eq(b0, b1), True))
        if eq is not None:
            c.expect(eq.le0(sub(age, const(151)), strict=True) is True, rule,
                     construct + ": age", where,
                     "a message more than 150 seconds behind the clock is "
                     "accepted", tr)
        return
    s = consistent(s, (op("lt", sub(b1, const(MAXINT))), True))
    s = s and consistent(s, (op("le", sub(b0, b1)), True))
    if s is None:
        c.ok(rule, construct + ": rejection")
        return
    newer = consistent(s, (op("lt", sub(b0, b1)), True))
    c.expect(newer is None, rule, construct + ": newer boot counter", where,
             "a message with a newer boot counter is rejected", tr)
    eq = consistent(s, (mk_eq(b0, b1), True),
                    (op("le", sub(age, const(150))), True))
    c.expect(eq is None, rule, construct + ": timely", where,
             "a message at most 150 seconds behind the clock is rejected",
             tr)


def u02(c):
    c.rule("(a) Scenarios on TimeKeeper with symbolic numbers: a hint after a "
           "verified message leaves the clock of the engine as it was, a "
           "hint before it does not influence it, other engines do not, and "
           "no verified message moves the clock back. (b) On every path of "
           "processIncoming from an arbitrary datagram, the clock is updated "
           "only by TimeKeeper.updateAndVerify with the engine ID and time "
           "of the message itself, after the digest of that message was "
           "found equal; unauthenticated messages only reach hint.")
    k = Clock(c)
    where = "snmp/security/usm/timekeeper.py"
    rule = "authenticated clock"
    E, it = k.E, k.it
    now = F("now9")

    def pairs(st):
        return clock_pair(c, it, st, k.tk, E, now)

    n = 0
    # nor do other engines, however many
    for s0, _ in k.verify(k.st, E, 0):
        for x, b, t in pairs(k.order(s0, 0, 9)):
            x = crowd(x, k.tk)
            for what, after in (
                    ("hint", k.hint(x, k.E2, 1)),
                    ("updateAndVerify",
                     [y for y, _ in k.verify(x, k.E2, 1)])):
                for s2 in after:
                    for y, b2, t2 in pairs(s2):
                        n += 1
                        c.expect(
                            same(y, b, b2) is True and same(y, t, t2) is True,
                            rule, f"{TK}.{what}: many engines", where,
                            "a message of another engine changes the "
                            "authenticated clock of an engine, if there are "
                            "many", c.trace(y))
    # a hint does not move an authenticated clock
    hinted = [x for h in k.hint(k.st, E, 2)
              for x in k.verify(k.order(h, 2, 0), E, 0)]
    for s0, _ in k.verify(k.st, E, 0) + hinted:
        base = k.order(s0, 0, 9)
        for mid, fn, what in (
                (lambda s: k.hint(s, E, 1), f"{TK}.hint",
                 "an unauthenticated message"),
                (lambda s: k.hint(s, k.E2, 1), f"{TK}.hint",
                 "an unauthenticated message of another engine"),
                (lambda s: [x for x, _ in k.verify(s, k.E2, 1)],
                 f"{TK}.updateAndVerify", "a message of another engine")):
            for x, b, t in pairs(base):
                for s2 in mid(x):
                    for y, b2, t2 in pairs(s2):
                        n += 1
                        c.expect(
                            same(y, b, b2) is True and same(y, t, t2) is True,
                            rule, f"{fn}: moves the clock", where,
                            f"{what} changes the authenticated clock of an "
                            f"engine", c.trace(y))
        # nor does one before
    for s0 in k.hint(k.st, E, 1):
        for s1, ok in k.verify(k.order(s0, 1, 0), E, 0):
            for y, b2, t2 in pairs(k.order(s1, 0, 9)):
                for s2, okb in k.verify(k.st, E, 0):
                    for x, b, t in pairs(k.order(s2, 0, 9)):
                        z = joined(y, x)
                        if z is None:
                            continue
                        n += 1
                        c.expect(
                            ok == okb and same(z, b, b2) is True
                            and same(z, t, t2) is True, rule,
                            f"{TK}.hint: before the first verified message",
                            where, "an unauthenticated message influences "
                            "how a verified one is judged or what the clock "
                            "shows after it", c.trace(z))
    # never backwards
    for s0, _ in k.verify(k.st, E, 0):
        for x, b, t in pairs(k.order(s0, 0, 9)):
            for s1, _ in k.verify(k.order(x, 0, 1), E, 1):
                s1 = k.order(s1, 1, 9)
                for y, b2, t2 in pairs(s1):
                    n += 1
                    more = later(y, b2, b) is True
                    held = at_least(y, b2, b) is True \
                        and at_least(y, t2, t) is True
                    c.expect(
                        more or held, rule,
                        f"{TK}.updateAndVerify: monotone", where,
                        "a verified message moves the clock of its engine "
                        "back", c.trace(y))
    c.count("clock comparisons", n)
    c.used(it)
    c.floor("clock comparisons", 20)
    incoming(c, {"clock"})


def joined(a, b):
    """The facts of two paths together, or None if they exclude each other."""
    s = a.fork()
    for atom, pol in b.order:
        if not s.assume(atom, pol):
            return None
    return s


def u11(c):
    c.rule("getEngineTime on a fresh TimeKeeper and after one hint or "
           "verified message with any boots and time in 0..2^31-1, at any "
           "later (or earlier) local time: both numbers lie in 0..2^31-1; "
           "an engine never heard of yields (0, 0).")
    k = Clock(c)
    where = "snmp/security/usm/timekeeper.py"
    fn = f"{TK}.getEngineTime"
    now = F("now9")
    n = 0
    for s, b, t in clock_pair(c, k.it, k.st, k.tk, k.E, now):
        n += 1
        c.expect(same(s, b, ZERO) is True and same(s, t, ZERO) is True,
                 "engine time range", f"{fn}: unknown engine", where,
                 "the clock of an unknown engine is not (0, 0)", c.trace(s))
    starts = [s for s, _ in k.verify(k.st, k.E, 0)] + k.hint(k.st, k.E, 0)
    for s0 in list(starts):
        starts += [s for s, _ in k.verify(s0, k.E, 1)]
        starts += k.hint(s0, k.E, 1)
    for s0 in starts:
        for s, b, t in clock_pair(c, k.it, s0, k.tk, k.E, now):
            for what, v in (("boots", b), ("time", t)):
                n += 1
                c.expect(
                    at_least(s, v, ZERO) is True
                    and at_least(s, const(MAXINT), v) is True,
                    "engine time range", f"{fn}: {what}", where,
                    f"the engine {what} used for outgoing messages may lie "
                    f"outside 0..2^31-1", c.trace(s))
                c.expect(tyof(s.canon(v)) in ("int",), "engine time range",
                         f"{fn}: {what} integer", where,
                         f"the engine {what} may not be an integer",
                         c.trace(s))
    c.count("readings", n)
    c.used(k.it)
    c.floor("readings", 10)


# -- incoming messages ----------------------------------------------------------

def decoded(c, it):
    """[(state, message, usm)]: every way an arbitrary datagram decodes."""
    st = State()
    usm = it.input_obj(st, USM, "usm")
    wire = B("wire")
    dec = it.getattr(st, ("cls", "snmp.message.v3.SNMPv3Message"), "decode",
                     TOP, None)
    res = it.call(dec[0][0], dec[0][1], [wire], {}, TOP, None)
    return [(s, m, usm) for s, m in normal(res)]


def incoming_models(prog):
    out = usm_models(prog)
    out["snmp.asn1.ASN1.decode"] = v3_plaintext
    return out


def replaced(st, D, wire):
    """If D is `wire` with one window replaced: (lo, hi, what)."""
    D = st.canon(D)
    if D[0] != "op" or D[1] != "cat":
        return None
    parts = list(D[2:])
    end = mk_len(wire)
    lo, hi = ZERO, end
    if parts and parts[0][:3] == ("op", "slice", wire) \
            and parts[0][3] == ZERO:
        lo = parts.pop(0)[4]
    if parts and parts[-1][:3] == ("op", "slice", wire) \
            and same(st, parts[-1][4], end) is True:
        hi = parts.pop()[3]
    if any(mentions(p, wire) for p in parts) or not parts:
        return None
    return lo, hi, mk_cat(parts)


def zero_bytes(t):
    if t[0] == "c":
        return not any(t[2])
    return t[0] == "op" and t[1] == "bytes.mul" and t[2] == const(b"\0")


def incoming(c, what):
    """The rules about processIncoming: `what` selects clock / digest."""
    it = c.engine(incoming_models(c.prog))
    it.maxsteps *= 4
    wire = B("wire")
    fn = f"{USM}.processIncoming"
    where = "snmp/security/usm/implementation.py"
    accepted = 0
    for s0, msg, usm in decoded(c, it):
        auth, priv = levels_of(c, it, s0, msg)
        c.count("decoded message shapes")
        s0, raw = one(c, get(it, s0, msg, "securityParameters", "original"),
                      "securityParameters")
        ps = [x for x in it.seq(
            it.getattr(s0, ("cls", PARAMS), "decode", TOP, None),
            lambda s, f: it.call(s, f, [raw], {}, TOP, None))
            if not isinstance(x[1], Exc)]
        for s1, params in ps:
            p = {}
            for n in ("engineID", "engineBoots", "engineTime", "userName",
                      "salt"):
                s1, p[n] = one(c, get(it, s1, params, n), n)
            m = len(s1.events)
            for when in ([F("now")], []):
                for s, v in call(it, s1.fork(), usm, "processIncoming", msg,
                                 *when):
                    c.count("incoming paths")
                    accepted += not isinstance(v, Exc) and auth
                    incoming_path(c, it, s, v, m, msg, auth, priv, p, wire,
                                  fn, where, what, when)
    c.count("accepting authenticated paths", accepted)
    c.used(it)
    c.floor("accepting authenticated paths", 2)
    c.floor("decoded message shapes", 3)


def levels_of(c, it, st, msg):
    out = []
    for n in ("authFlag", "privFlag"):
        vs = get(it, st, msg, "header", "flags", n)
        v = vs[0][0].canon(vs[0][1])
        if len(vs) != 1 or v[0] != "c":
            raise AnalysisError(f"{n} is not decided by decoding")
        out.append(bool(v[2]))
    return out


def at_time(s, t, when):
    """Whether t is the time given, or else a time read meanwhile."""
    now = when or [e[1][1] for e in s.events
                   if e[0] == "extret" and e[1][0] == "time.time"]
    return any(same(s, t, x) is True for x in now)


def incoming_path(c, it, s, v, m, msg, auth, priv, p, wire, fn, where, what,
                  when):
    ev = s.events[m:]
    kinds = {k: [e for e in ev if e[0] == k] for k in
             ("credentials", "sign", "timeupdate", "hint", "decrypt")}
    tr = c.trace(s, v)
    if "clock" in what:
        for e in kinds["hint"]:
            a = e[1]
            c.expect(all(same(s, x, p[y]) is True for x, y in (
                (a[0], "engineID"), (a[1], "engineBoots"),
                (a[2], "engineTime"))) and at_time(s, a[3], when),
                "authenticated clock", f"{fn}: hint arguments", where,
                "the hint is something other than the engine ID and time of "
                "the message and the time of its arrival", tr)
    if not auth:
        if "clock" in what:
            c.expect(not kinds["timeupdate"], "authenticated clock",
                     f"{fn}: unauthenticated message", where,
                     "an unauthenticated message updates the authenticated "
                     "clock", tr)
        if "digest" in what:
            c.expect(not kinds["decrypt"], "digest first",
                     f"{fn}: unauthenticated message decrypted", where,
                     "an unauthenticated message is decrypted", tr)
        return
    if what:
        c.expect(not kinds["hint"] or digest_at(c, it, s, kinds["hint"][0],
                                                kinds, p, wire)[0],
                 "authenticated clock", f"{fn}: hint", where,
                 "a message that claims authentication is used as a hint "
                 "before it is verified", tr)
    for e in kinds["timeupdate"]:
        good, why = digest_at(c, it, s, e, kinds, p, wire)
        if "clock" in what or "digest" in what:
            c.expect(good, "digest first", f"{fn}: clock update", where,
                     f"the clock is updated {why}", tr)
        if "clock" in what:
            a = e[1]
            c.expect(all(same(s, x, p[y]) is True for x, y in (
                (a[0], "engineID"), (a[1], "engineBoots"),
                (a[2], "engineTime"))) and at_time(s, a[3], when),
                "authenticated clock", f"{fn}: arguments", where,
                "the clock is updated with something other than the engine "
                "ID and time of the message and the time of its arrival", tr)
    if "digest" not in what:
        return
    for e in kinds["decrypt"]:
        good, why = digest_at(c, it, s, e, kinds, p, wire)
        c.expect(good, "digest first", f"{fn}: decryption", where,
                 f"the payload is decrypted {why}", tr)
        timely = [t for t in kinds["timeupdate"] if t[3] <= e[3]]
        c.expect(bool(timely) and s.decide(op("truth", timely[-1][1][4]))
                 is True, "digest first", f"{fn}: decryption time", where,
                 "the payload is decrypted before the message was found "
                 "timely", tr)
        enc = get(it, s, msg, "encryptedPDU", "data")
        if len(enc) == 1:
            c.expect(same(s, e[1][1], enc[0][1]) is True, "decryption",
                     f"{fn}: ciphertext", where,
                     "what is decrypted is not the payload of the message",
                     tr)
        c.expect(all(same(s, x, p[y]) is True for x, y in (
            (e[1][2], "engineBoots"), (e[1][3], "engineTime"),
            (e[1][4], "salt"))), "decryption", f"{fn}: parameters", where,
            "the payload is decrypted with boots, time or salt other than "
            "those of the message", tr)
        c.expect(credential(s, e[1][0], "priv"), "decryption", f"{fn}: key",
                 where, "the payload is not decrypted with the privacy key "
                 "of the user", tr)
    if isinstance(v, Exc):
        c.expect(v.cls not in c.prog.classes or INCOMING in [
            k.qual for k in c.prog.classes[v.cls].mro], "errors",
            f"{fn}: {v.cls}", v.where, f"a message is answered with {v.cls}, "
            "which is no IncomingMessageError", tr)
        over_strict(c, it, s, v, kinds, priv, p, wire, fn, where, tr)
        return
    end = (None, None, None, len(s.order))
    good, why = digest_at(c, it, s, end, kinds, p, wire)
    c.expect(good, "digest first", f"{fn}: acceptance", where,
             f"an authenticated message is accepted {why}", tr)
    tu = kinds["timeupdate"]
    c.expect(len(tu) == 1 and s.decide(op("truth", tu[0][1][4])) is True,
             "digest first", f"{fn}: timeliness", where,
             "an authenticated message is accepted without being found "
             "timely", tr)
    for n, y in (("securityEngineID", "engineID"),
                 ("securityName", "userName")):
        vs = get(it, s, msg, n)
        c.expect(len(vs) == 1 and not isinstance(vs[0][1], Exc)
                 and same(vs[0][0], vs[0][1], p[y]) is True,
                 "authenticated identity", f"{fn}: {n}", where,
                 f"an accepted message does not carry the {y} it was "
                 f"verified with", tr)
    if priv:
        d = kinds["decrypt"]
        c.expect(len(d) == 1, "decryption", f"{fn}: once", where,
                 "an encrypted message is accepted without being decrypted",
                 tr)


def found_equal(s, n, mac, wire, lo, hi):
    """Whether the first n decisions of the path include that the bytes of
    `wire` from lo to hi equal `mac`."""
    for a, pol in s.order[:n]:
        if not pol or a[:2] != ("op", "eq"):
            continue
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if same(s, x, mac) and y[:3] == ("op", "slice", wire) \
                    and same(s, y[3], lo) and same(s, y[4], hi):
                return True
    return False


def credential(s, obj, attr):
    """Whether an object is the auth (priv) protocol of the credentials found
    for the message."""
    creds = s.names.get(("n", "credentials"))
    if creds is None:
        return False
    return s.canon(s.obj(creds).attrs.get(attr, NONE)) == s.canon(obj)


def digest_at(c, it, s, e, kinds, p, wire):
    """Whether the digest of the message is known to be right when e happens:
    (bool, what is wrong)."""
    cr = kinds["credentials"]
    if not cr:
        return False, "without looking up the credentials of its user"
    if not all(same(s, x[1][0], p["engineID"]) is True
               and same(s, x[1][1], p["userName"]) is True for x in cr):
        return False, "with the credentials of another engine or user"
    why = "before its digest was computed"
    for g in kinds["sign"]:
        if g[3] > e[3]:
            continue
        who, D, mac = g[1]
        if not credential(s, who, "auth"):
            why = "with a digest made with another key"
            continue
        r = replaced(s, D, wire)
        if r is None:
            why = "with a digest that does not cover the whole message"
            continue
        lo, hi, z = r
        if not zero_bytes(z) or same(s, mk_len(z), sub(hi, lo)) is not True:
            why = "with a digest whose field is not blanked as it must be"
            continue
        if found_equal(s, e[3], mac, wire, lo, hi):
            return True, ""
        why = "before its digest was found equal to the one it carries"
    return False, why


def over_strict(c, it, s, v, kinds, priv, p, wire, fn, where, tr):
    """A genuine, timely message must not be rejected."""
    end = (None, None, None, len(s.order))
    tu = kinds["timeupdate"]
    if not tu or s.decide(op("truth", tu[-1][1][4])) is not True:
        return
    if not digest_at(c, it, s, end, kinds, p, wire)[0]:
        return
    c.expect(priv, "no false rejection", f"{fn}", where,
             f"a genuine, timely message is rejected with {v}", tr)


def u01(c):
    c.rule("On every path of SNMPv3Message.decode and processIncoming from an "
           "arbitrary datagram and an arbitrary state of the module: a "
           "message with the authentication flag is accepted, decrypted or "
           "allowed to set the clock only after the digest it carries was "
           "found equal to sign(key, D), where D is the whole datagram with "
           "exactly the digest field zeroed and the key belongs to the "
           "credentials of the engine ID and user name in the message; the "
           "accepted message carries that identity; the clock accepted it; "
           "an encrypted payload is decrypted once, with the privacy key, "
           "boots, time and salt of the message. A genuine, timely message "
           "is not rejected.")
    incoming(c, {"digest"})
    c.assumptions.append("sign() is a function of key and data (U07); "
                         "updateAndVerify decides timeliness (U03); "
                         "getCredentials finds the user's keys (U08).")


# -- outgoing messages ----------------------------------------------------------

INCOMING = "snmp.exception.IncomingMessageError"
PARTS = ("engineID", "boots", "time", "user", "digest", "salt")


def message_parts(it, st, t):
    """The fields of an encoded SNMPv3 message, or None: a dict of content
    terms, `payload` being an Element."""
    tr = ber_tree(it, st, t)
    if tr is None or len(tr) != 1 or len(tr[0].elements) != 4:
        return None
    version, header, sec, payload = tr[0].elements
    if len(header.elements) != 4 or len(sec.elements) != 1 \
            or len(sec.elements[0].elements) != 6:
        return None
    out = {"version": version.content, "payload": payload}
    for n, e in zip(("id", "maxSize", "flags", "model"), header.elements):
        out[n] = e.content
    for n, e in zip(PARTS, sec.elements[0].elements):
        out[n] = e.content
    if any(isinstance(v, list) for v in out.values()):
        return None
    return out


def u04(c):
    c.rule("On every path of prepareOutgoing for an arbitrary message at each "
           "security level, arbitrary credentials and clock: a returned "
           "datagram at an authenticated level equals the signed datagram D "
           "with the zeroed digest field replaced by sign(auth key of that "
           "engine and user, D), D being the final message in every other "
           "octet; at authPriv its payload is the ciphertext of the scoped "
           "PDU under the privacy key, the salt and the boots/time sent are "
           "those used to encrypt, and no plaintext appears; at noAuthNoPriv "
           "boots, time, digest and salt are empty. Missing keys raise.")
    n = 0
    where = "snmp/security/usm/implementation.py"
    fn = f"{USM}.prepareOutgoing"
    for lname in LEVELS:
        it = c.engine(usm_models(c.prog))
        st = State()
        usm = it.input_obj(st, USM, "usm")
        st, msg = v3_message(it, st, lname, "snmp.pdu.GetRequestPDU", "out")
        want = rank(it, st, level_const(it, st, lname)[1])
        st, plain = plaintext_of(c, it, st, msg)
        m = len(st.events)
        got = 0
        for when in ([F("now")], []):
            for s, v in call(it, st.fork(), usm, "prepareOutgoing", msg,
                             B("engine"), B("user"), *when):
                c.count("outgoing paths")
                if isinstance(v, Exc):
                    continue
                got += 1
                outgoing_path(c, it, s, v, m, want, plain, fn, where, lname,
                              when)
        n += got
        c.used(it)
        c.expect(got > 0, "sending", f"{fn}: {lname}", where,
                 f"no message can be sent at {lname}")
    c.count("datagrams", n)
    c.floor("datagrams", 3)


def plaintext_of(c, it, st, msg):
    """The encoding of the scoped PDU of a message."""
    r = normal(it.seq(get(it, st, msg, "scopedPDU"),
                      lambda s, p: call(it, s, p, "encode")))
    if not r:
        raise AnalysisError("the scoped PDU cannot be encoded")
    return r[0]


SECRET = ("out.pdu", "out.contextEngineID", "out.contextName")


def in_clear(s, t):
    """The names of the plaintext fields a term shows."""
    out = set()
    for x in subterms(t):
        if x[0] == "s" and x[1][0] == "n" and x[1][1] in SECRET:
            out.add(x[1][1])
        if x[:2] == ("op", "pdu"):
            out.add("out.pdu")
    return out


def outgoing_path(c, it, s, v, m, want, plain, fn, where, lname, when):
    ev = s.events[m:]
    signs = [e for e in ev if e[0] == "sign"]
    encs = [e for e in ev if e[0] == "encrypt"]
    clocks = [e for e in ev if e[0] == "clock"]
    creds = [e for e in ev if e[0] == "credentials"]
    tr = c.trace(s)
    f = message_parts(it, s, v)
    cons = f"{fn}: {lname}"
    if f is None:
        sane = [e for e in signs if message_parts(it, s, e[1][1])]
        if ber_tree(it, s, v) is None and not sane:
            raise AnalysisError(f"the outgoing message at {lname} is not a "
                                f"recognisable encoding")
        c.bad("message format", cons, where,
              "what is sent is not an SNMPv3 message with USM parameters "
              "although its parts are", tr)
        return
    c.expect(same(s, f["engineID"], B("engine")) is True
             and same(s, f["user"], B("user")) is True, "addressing",
             f"{cons}: engine and user", where,
             "the message does not name the engine and user it is for", tr)
    boots, time_ = int_value(f["boots"]), int_value(f["time"])
    if not want[0]:
        c.expect(boots == ZERO and time_ == ZERO
                 and same(s, mk_len(f["digest"]), ZERO) is True
                 and same(s, mk_len(f["salt"]), ZERO) is True,
                 "unauthenticated message", cons, where,
                 "an unauthenticated message carries a clock, digest or "
                 "salt", tr)
        return
    c.expect(bool(creds) and all(
        same(s, e[1][0], B("engine")) is True
        and same(s, e[1][1], B("user")) is True for e in creds), "signing",
        f"{cons}: credentials", where,
        "the message is protected with the keys of another engine or user",
        tr)
    c.expect(bool(clocks) and all(
        same(s, e[1][0], B("engine")) is True
        and at_time(s, e[1][1], when) for e in clocks)
             and any((boots, time_) == e[1][2:4] for e in clocks),
             "clock", f"{cons}: boots and time", where,
             "the message does not carry the clock of the engine it is for",
             tr)
    if c.expect(len(signs) == 1, "signing", f"{cons}: once", where,
                f"an authenticated message is signed {len(signs)} times",
                tr):
        who, D, mac = signs[0][1]
        c.expect(credential(s, who, "auth"), "signing", f"{cons}: key",
                 where, "the message is not signed with the authentication "
                 "key of the user", tr)
        g = message_parts(it, s, D)
        same_rest = g is not None and all(
            repr(g[k]) == repr(f[k]) for k in g if k != "digest")
        c.expect(same_rest, "signing", f"{cons}: coverage", where,
                 "what is signed differs from what is sent outside the "
                 "digest field", tr)
        c.expect(same(s, f["digest"], mac) is True, "signing",
                 f"{cons}: digest", where,
                 "the digest sent is not the one computed", tr)
        if g is not None:
            c.expect(zero_bytes(s.canon(g["digest"])), "signing",
                     f"{cons}: blank digest", where,
                     "the digest field is not zero while it is signed", tr)
    if not want[1]:
        c.expect(not encs and same(s, mk_len(f["salt"]), ZERO) is True,
                 "encryption", f"{cons}: none", where,
                 "a message without privacy is encrypted or has a salt", tr)
        return
    clear = in_clear(s, f["payload"].content) | in_clear(s, f["salt"]) \
        if not isinstance(f["payload"].content, list) else set(SECRET)
    c.expect(not clear, "encryption", f"{cons}: plaintext", where,
             f"the payload of an encrypted message shows {sorted(clear)}",
             tr)
    if not c.expect(len(encs) == 1, "encryption", f"{cons}: once", where,
                    f"the payload is encrypted {len(encs)} times", tr):
        return
    who, data, eb, et, ct, salt = encs[0][1]
    c.expect(credential(s, who, "priv"), "encryption", f"{cons}: key", where,
             "the payload is not encrypted with the privacy key of the user",
             tr)
    c.expect(same(s, data, plain) is True, "encryption", f"{cons}: data",
             where, "what is encrypted is not the scoped PDU", tr)
    c.expect(same(s, f["payload"].content, ct) is True, "encryption",
             f"{cons}: ciphertext", where,
             "the payload sent is not the ciphertext", tr)
    c.expect(same(s, f["salt"], salt) is True, "encryption", f"{cons}: salt",
             where, "the salt sent is not the one used to encrypt", tr)
    c.expect(s.canon(eb) == boots and s.canon(et) == time_, "encryption",
             f"{cons}: boots and time", where,
             "the boots and time sent are not those used to encrypt", tr)
