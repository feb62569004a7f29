"""Requests of the managers, over all reachable typestates: what is sent for
them, and what they end with."""

from ..explore import *
from ..par import parallel

MGR = {v: MANAGER[v].rsplit(".", 1)[-1] for v in MANAGER}
REPORT_KINDS = ("unsupportedSecLevel", "unknownEngineID", "notInTimeWindow",
                "other")


def explore(c, monitor, parts):
    """Run the monitors over the given explorations, in parallel."""
    def one(c, version, kw):
        m = monitor(c, version)
        x = Explorer(c, version, on_step=m.step, on_state=m.state, **kw)
        m.x = x
        x.run()
        m.end()
        c.used(x.it)
        c.count("states", x.states)
        c.count("transitions", x.transitions)
        c.count("operations given up", x.it.cut)
        c.count("explorations closed" if x.closed else
                "explorations bounded")
    parallel(c, one, parts)


def lonely(c, **kw):
    """One request that nobody answers, for many periods."""
    deep = c.tier == "thorough"
    return [("v3", dict(dict(
        engine=engine, requests=1, engines=1, levels=("authPriv",),
        messages=False, periods=(1.0,), jumps=(1.0,), timeout=40.0,
        waits=False, loops=40,
        horizon=32.0 if deep else 16.0, limit=2000), **kw))
        for engine in (False, True)]


def v3_parts(c, **kw):
    """Explorations of the v3 manager: each level, with the engine named by
    the user or discovered."""
    deep = c.tier == "thorough"
    out = []
    for engine in (False, True):
        for lv in LEVELS:
            out.append(("v3", dict(
                dict(engine=engine, levels=(lv,), kinds=REPORT_KINDS,
                     horizon=2.0 if deep else 0.0,
                     limit=20000 if deep else 700), **kw)))
        out.append(("v3", dict(
            dict(requests=2, engine=engine, kinds=REPORT_KINDS[:2],
                 levels=("authPriv", "noAuthNoPriv"),
                 horizon=1.0 if deep else 0.0,
                 limit=20000 if deep else 700), **kw)))
    return out


class Monitor:
    def __init__(self, c, version):
        self.c = c
        self.version = version
        self.x = None

    def state(self, x, s, m, g, path):
        pass

    def end(self):
        pass

    def expect(self, holds, rule, t, what, message, at=None):
        path = t if isinstance(t, tuple) else t.path
        self.c.expect(holds, rule, f"{MGR[self.version]}: {what}",
                      at or self.where(t), message,
                      [] if holds else list(path) + self.extra(t))

    def extra(self, t):
        if isinstance(t, tuple):
            return []
        out = []
        for e in t.events:
            if e[0] == "sent":
                x = Sent(e)
                out.append(f"sent: engine {self.x.name(x.engine)} at {x.where}"
                           if x.engine else f"sent at {x.where}")
        return out + [f"result: {t.value!r}"]

    def where(self, t):
        if isinstance(t, tuple):
            return MANAGER[self.version]
        if isinstance(t.value, Exc):
            return str(t.value.where)
        return MANAGER[self.version]

    def sent(self, t):
        """(message, index of its request) of a step."""
        for e in t.events:
            if e[0] == "sent":
                m = Sent(e)
                yield m, self.x.owner(t.st, m.handle, t.after.requests)

    def label(self, t):
        """The kind of operation, without what is particular to a path."""
        return t.kind


def carries(x, t, m):
    """Whether a message carries what the user asked for."""
    return mentions(t.st, m.pdu, x.oid)


def level_of_token(x, tok):
    for k, (msg, tk) in x.msgs.items():
        if tk == tok:
            return k[1]
    return None


def response_tokens(x):
    return [tk for k, (msg, tk) in x.msgs.items() if k[0] == "response"]


def report_tokens(x):
    return [tk for k, (msg, tk) in x.msgs.items() if k[0] != "response"]


def outcome(x, t):
    """What waiting gave: (kind, token of the message it is made of)."""
    v = t.value
    for tok in response_tokens(x):
        if mentions(t.st, v.val if isinstance(v, Exc) else v, tok):
            return ("response", tok)
    if not isinstance(v, Exc):
        return ("value", None)
    for tok in report_tokens(x):
        if mentions(t.st, v.val, tok):
            return ("report", tok)
    return (v.cls.rsplit(".", 1)[-1], None)


# -- M03 -----------------------------------------------------------------------

class Level(Monitor):
    def step(self, x, t):
        c = self.c
        for m, i in self.sent(t):
            if not carries(x, t, m):
                continue
            c.count("messages with user data")
            r = t.after.requests[i] if i is not None else None
            self.expect(
                r is not None and m.level == x.w.levels[r.level],
                "request level", t, f"sent on {self.label(t)}",
                "the content of a request is sent at another security level "
                "than the request's", m.where)
            self.expect(
                r is not None and m.user == r.user, "request user", t,
                f"sent on {self.label(t)}",
                "the content of a request is sent for another user",
                m.where)
        if t.kind == "wait":
            r = t.before.requests[t.info["request"]]
            kind, tok = outcome(x, t)
            if kind == "response":
                c.count("responses delivered")
                self.expect(
                    not below(level_of_token(x, tok), r.level),
                    "response level", t, "result of a request",
                    f"a response at {level_of_token(x, tok)} is the result "
                    f"of a request at {r.level}")


def m03(c):
    c.rule("request level: every message that carries the content of a "
           "request is sent at the level, and for the user, of the request, "
           "in every reachable state of the manager")
    c.rule("response level: the result of a request is never made of a "
           "response below the level of the request")
    deep = c.tier == "thorough"
    users = [("v3", dict(engine=engine, levels=(lv,), kinds=kinds,
                         users=(b"", b"bob", None), drops=False, requests=n,
                         horizon=0.0, limit=20000 if deep else 400))
             for lv, engine, kinds, n in (
                 ("noAuthNoPriv", True, (), 2),
                 ("authPriv", False, ("unknownEngineID",), 1))]
    explore(c, Level, v3_parts(c, waits=True, drops=False) + users
            + lasting(c))
    c.floor("messages with user data", 50)
    c.floor("responses delivered", 20)


# -- M04 -----------------------------------------------------------------------

class Outcome(Monitor):
    def step(self, x, t):
        c = self.c
        if t.kind == "push" and isinstance(t.value, Exc):
            i = t.info["handle"].owner
            r = t.before.requests[i] if i is not None else None
            final = r is not None and not r.closed and \
                t.info["handle"].engine != const(b"") and (
                t.info["auth"] if t.info["report"] else
                not below(t.info["level"], r.level))
            if final and x.w.clock(t.st)[2] < r.expires:
                self.expect(False, "message lost", t,
                            f"{'report' if t.info['report'] else 'response'}"
                            f" delivered",
                            "an acceptable message to a pending request "
                            "fails and is lost")
        if t.kind != "wait":
            return
        r = t.before.requests[t.info["request"]]
        kind, tok = outcome(x, t)
        c.count("outcomes")
        c.count(f"outcomes: {kind}")
        if r.final is not None:
            self.expect(
                (kind, tok) == r.final, "final outcome", t,
                f"after a final {r.final[0]}",
                f"a request that was decided by a {r.final[0]} ends with "
                f"{kind}{self.told(x, tok)}")
        elif r.soft is not None:
            self.expect(
                (kind, tok) == ("report", r.soft), "provisional outcome", t,
                "after an unauthenticated report",
                f"a request that only got unauthenticated reports ends with "
                f"{kind}{self.told(x, tok)}")
        else:
            self.expect(
                kind in ("Timeout", "KeyboardInterrupt"), "no outcome", t,
                "without an acceptable message",
                f"a request that got no acceptable message ends with "
                f"{kind}{self.told(x, tok)}")
        if r.final is None and kind not in ("KeyboardInterrupt",):
            over = x.w.clock(t.st)[2] >= r.expires
            self.expect(
                over or self.interrupted(t), "waits until the end", t,
                "without a final outcome",
                "a request without a final outcome ends before its time")

    def interrupted(self, t):
        """The outcome came with an interrupt."""
        return any(e[0] == "interrupted" for e in t.events)

    def told(self, x, tok):
        for k, (msg, tk) in x.msgs.items():
            if tk == tok:
                return " (" + " ".join(x.name(p) if isinstance(p, tuple)
                                       else p for p in k) + ")"
        return ""


def m04(c):
    c.rule("final outcome: once an authenticated report or a response at the "
           "request's level was delivered, waiting gives exactly that, "
           "whatever is delivered later")
    c.rule("provisional outcome: an unauthenticated report never ends a "
           "request; waiting gives the first of them only if the request "
           "expires or is interrupted, and Timeout without any")
    c.rule("message lost: delivering a message that can decide a pending "
           "request does not fail")
    explore(c, Outcome, v3_parts(c, drops=False))
    c.floor("outcomes: response", 20)
    c.floor("outcomes: report", 20)
    c.floor("outcomes: Timeout", 5)


# -- R02 -----------------------------------------------------------------------

class Release(Monitor):
    """IDs and engine registrations are given back."""

    def step(self, x, t):
        c = self.c
        balance = dict(t.before.registered)
        known = {h.id for h in t.before.handles}
        for e in t.events:
            if e[0] == "register" and e[1][2]:
                balance[e[1][0]] = balance.get(e[1][0], 0) + 1
            elif e[0] == "unregister":
                n = balance[e[1][0]] = balance.get(e[1][0], 0) - 1
                self.expect(n >= 0, "assignment balance", t,
                            f"released on {t.kind}",
                            "an engine is released that is not assigned",
                            e[4])
            elif e[0] == "sent" and self.version == "v3":
                m = Sent(e)
                if m.engine != const(b""):
                    self.expect(
                        balance.get(m.engine, 0) > 0, "engine assigned", t,
                        f"sent on {t.kind}", "a message is sent to an engine "
                        "that is not assigned to the namespace", m.where)
            elif e[0] == "cached":
                known.add(e[1][1])
            elif e[0] == "uncached":
                self.expect(
                    e[1][0] in known, "own ID", t, f"ID released on {t.kind}",
                    "an ID is released that no message of the manager has",
                    e[4])
        for h in t.ghost.handles:
            self.expect(h.released < 2, "released once", t,
                        f"ID released on {t.kind}",
                        "the ID of a message is released twice")
        for i, r in enumerate(t.after.requests):
            if r.closed and not t.before.requests[i].closed:
                c.count("requests over")
                for h in t.ghost.handles:
                    if self.x.owner(t.st, h.obj, t.after.requests) == i:
                        c.count("messages of requests that are over")
                        self.expect(
                            h.released > 0, "ID released", t,
                            f"request over by {t.kind}",
                            "a message ID is still taken after its request "
                            "is over")
        if t.kind == "wait" and not (
                isinstance(t.value, Exc)
                and t.value.cls.endswith("KeyboardInterrupt")):
            i = t.info["request"]
            done = set()
            for e in t.events:
                if e[0] == "ended":
                    break
                if e[0] == "uncached":
                    done.add(e[1][0])
            for h in t.ghost.handles:
                if self.x.owner(t.st, h.obj, t.after.requests) == i and not \
                        any(b.id == h.id and b.released
                            for b in t.before.handles):
                    self.expect(
                        h.id in done, "wait releases", t, "end of the wait",
                        "a message ID is still taken after the request was "
                        "waited for, as long as the caller keeps it")

    def state(self, x, s, m, g, path):
        if not all(r.closed for r in g.requests):
            return
        for s2, v in x.dropping(s.fork(), m):
            self.c.count("managers over")
            after = dict(x.account(g, s2, 0).registered)
            left = [e for e, n in after.items() if n]
            self.expect(
                not left, "assignments released", path, "manager over",
                f"{', '.join(x.name(e) for e in left)} stays assigned after "
                f"the manager and all its requests are gone")


def r02(c):
    c.rule("ID released: when a request is over, because it was waited for "
           "or forgotten, the ID of every message sent for it was given back "
           "exactly once, with its own ID")
    c.rule("assignments released: engines are assigned when a message is "
           "sent to them, never released more often than assigned, and all "
           "released when the manager and its requests are gone")
    parts = v3_parts(c, kinds=("unknownEngineID", "notInTimeWindow"))
    # a peer may name an engine that belongs to another namespace
    parts += [("v3", dict(parts[k * len(parts) // 2 + 2][1], foreign=True))
              for k in (0, 1)]
    explore(c, Release, parts + community_parts(c) + lonely(c))
    c.floor("requests over", 100)
    c.floor("messages of requests that are over", 100)
    c.floor("managers over", 10)


def community_parts(c, **kw):
    deep = c.tier == "thorough"
    return [(v, dict(dict(requests=2, horizon=5.0 if deep else 3.0,
                          limit=20000 if deep else 1200), **kw))
            for v in ("v1", "v2c")]


# -- R06, R07 ------------------------------------------------------------------

class Identity(Monitor):
    """Requests start at the engine that is known."""

    def step(self, x, t):
        c = self.c
        seen = set()
        for h in t.before.handles:
            if h.owner is not None:
                seen.add(h.owner)
        for m, i in self.sent(t):
            home = t.before.home
            if home is None or i is None:
                continue
            if i in seen:
                continue
            seen.add(i)
            if t.kind == "push" and t.info["handle"].owner == i:
                continue
            c.count("requests started at a known engine")
            self.expect(
                m.engine == home, "known engine", t,
                f"first message on {t.kind}",
                f"a request starts at {x.name(m.engine)}, but the engine "
                f"named or authenticated is {x.name(home)}", m.where)


def repeated(c, **kw):
    """Explorations of the v3 manager in which time passes, messages are
    repeated and requests expire unanswered."""
    out = []
    for engine in (False, True):
        out.append(("v3", dict(
            dict(engine=engine, levels=("noAuthNoPriv",), requests=1,
                 kinds=("unknownEngineID",), timeout=1.0, periods=(1.0,),
                 horizon=1.0, waits=False, live=True, answers="a",
                 limit=20000 if c.tier == "thorough" else 2000), **kw)))
    return out


def lasting(c):
    """Explorations of the v3 manager with two requests that are repeated
    while others begin, are answered and end, for as long as one likes."""
    return [("v3", dict(engine=engine, levels=(lv,), requests=2,
                        kinds=("unknownEngineID",), timeout=9.0,
                        periods=(2.0,), horizon=2.0, jumps=(2.0,),
                        waits=False, drops=False, live=True, answers="a",
                        engines=1, limit=20000))
            for engine in (False, True)
            for lv in ("authPriv", "noAuthNoPriv")]


def r06(c):
    c.rule("known engine: once the user named the engine, or an "
           "authenticated response came from one, the first message of every "
           "request goes to it, until an authenticated response comes from "
           "another")
    explore(c, Identity, v3_parts(
        c, requests=2, kinds=("unknownEngineID", "notInTimeWindow"),
        waits=False, limit=20000 if c.tier == "thorough" else 900)
        + repeated(c) + lasting(c))
    c.floor("requests started at a known engine", 200)


class Discovery(Monitor):
    def step(self, x, t):
        c = self.c
        for m, i in self.sent(t):
            if carries(x, t, m):
                self.expect(
                    m.engine != const(b""), "content needs an engine", t,
                    f"sent on {t.kind}", "the content of a request is sent "
                    "before the engine is known", m.where)
            if m.engine != const(b""):
                continue
            c.count("discovery messages")
            self.expect(
                m.user == const(b"")
                and m.level == x.w.levels["noAuthNoPriv"],
                "discovery is anonymous", t, f"sent on {t.kind}",
                "a discovery message names a user or claims a security "
                "level", m.where)
            q = t.st.heap[m.pdu[1]].cls if m.pdu[0] == "obj" else ()
            self.expect(
                set(q) == {"snmp.pdu.GetRequestPDU"}
                and not carries(x, t, m), "discovery is empty", t,
                f"sent on {t.kind}", "a discovery message is not an empty "
                "GetRequest", m.where)


def r07(c):
    c.rule("discovery: a message sent before the engine is known is an empty "
           "GetRequest without user, at noAuthNoPriv; the content of a "
           "request is only sent to a known engine")
    explore(c, Discovery, v3_parts(
        c, kinds=("unknownEngineID", "notInTimeWindow", "other"),
        waits=False) + repeated(c, timeout=2.0, horizon=2.0, limit=500)
        + lasting(c) + lonely(c))
    c.floor("discovery messages", 20)


# -- R03, R04 ------------------------------------------------------------------

class Schedule(Monitor):
    """Waiting ends in time; requests are repeated when due, not before."""

    def step(self, x, t):
        c = self.c
        rs = list(t.after.requests)
        old = list(t.before.requests)
        now = x.w.clock(t.st)[2]
        due = [r.due for r in old] + [None] * (len(rs) - len(old))
        for m, i in self.sent(t):
            c.count("messages")
            at = m.now[2]
            r = (old + rs[len(old):])[i] if i is not None else None
            if r is None:
                continue
            if t.kind in ("tick", "wait"):
                self.expect(
                    r.expires is not None and at < r.expires, "expired", t,
                    f"sent on {t.kind}", "a message is sent for a request "
                    "that is over or expired", m.where)
                self.expect(
                    r.final is None, "finished", t, f"sent on {t.kind}",
                    "a message is sent for a request that was decided",
                    m.where)
            if t.kind in ("tick", "wait") and due[i] is not None:
                c.count("repetitions")
                self.expect(
                    at >= due[i], "too early", t, f"sent on {t.kind}",
                    f"a request is repeated after less than its period "
                    f"({at} instead of {due[i]})", m.where)
                d = due[i]
                while d <= at:
                    d += x.period(i)
                due[i] = d
            else:
                due[i] = at + x.period(i)
        if t.kind == "tick":
            for i, r in enumerate(old):
                if r.closed or r.final is not None or due[i] is None:
                    continue
                if now < r.expires:
                    self.expect(
                        due[i] > now, "repeated when due", t,
                        "refresh", f"a request due at {due[i]} is not "
                        f"repeated at {now}")
            waiting = [i for i, r in enumerate(old)
                       if not r.closed and r.final is None
                       and now < r.expires]
            if waiting:
                self.expect(
                    any(due[i] is not None for i in waiting), "none lost", t,
                    "refresh", "requests are pending and none of them is "
                    "being sent")
            v = t.value
            if not isinstance(v, Exc):
                nxt = [due[i] for i in waiting if due[i] is not None]
                ok = v == ("ext", "math.inf") and not nxt or \
                    v[0] == "c" and all(
                    v[2] <= max(0.0, min(d, old[i].expires) - now)
                    for i in waiting for d in [due[i]] if d is not None)
                self.expect(ok, "next wakeup", t, "refresh",
                            f"refresh says to wait {pp(v)} seconds, but a "
                            f"request is due earlier ({nxt}, now {now})")
        if t.kind == "wait":
            i = t.info["request"]
            c.count("waits")
            self.expect(
                now <= max(old[i].expires, x.w.clock_before), "wait bounded",
                t, "wait", f"waiting goes on until {now}, but the request "
                f"expires at {old[i].expires}")
        for e in t.events:
            if e[0] == "waited":
                b = e[1][1]
                self.expect(
                    b[0] == "c" and isinstance(b[2], (int, float))
                    and b[2] < 1e6, "wait bounded", t, "wait without limit",
                    "a request is waited for without a limit", e[4])
        t.after = t.after._replace(requests=tuple(
            r if r.closed else r._replace(due=due[i])
            for i, r in enumerate(rs)))

    def state(self, x, s, m, g, path):
        x.w.clock_before = x.w.clock(s)[2]

    def end(self):
        self.expect(self.x.it.cut == 0, "wait ends", (), "loops",
                    "waiting, or refreshing, goes round without end while "
                    "no time passes")




def among_many(c, version):
    """Two requests among any number of others: both go on being repeated."""
    w = World(c, version)
    it = w.it
    it.all_alive = it.exact_heaps = True
    it.unroll = it.unroll_while = 24
    it.cut_while = True
    oid = it.input_obj(w.st, "snmp.smi.OID", "oid")
    kw = {"engine": w.E[0], "level": "noAuthNoPriv"} \
        if version == "v3" else {}
    w.freeze(w.st, const(0.0))
    todo = []
    for s, m in w.manager(w.st, **kw):
        todo += [(s, m, [r]) for s, r in normal(w.request(s, m, "get",
                                                          [oid]))]
    for s, m, rs in todo:
        n = len(s.events)
        for s, r in normal(w.request(crowd(s, m), m, "get", [oid])):
            both = rs + [r]
            for t in (1.5, 2.5):
                w.freeze(s, const(t))
                k = len(s.events)
                for _ in both + both[:1]:
                    out = normal(call(it, s, m, "refresh"))
                    if not out:
                        break
                    s = out[0][0]
                else:
                    c.count("repetitions among many")
                    c.expect(len(w.sends(s, k)) >= 2, "repetition",
                             f"{MGR[version]}.refresh: among many",
                             "snmp/manager", "of two requests among many, "
                             "not both are repeated", c.trace(s))


def r04(c):
    deep = c.tier == "thorough"
    c.rule("repetition: while a request is pending it is repeated at the "
           "refresh after each period, never earlier, never once it is "
           "decided, expired or forgotten")
    kw = dict(kinds=("unknownEngineID", "notInTimeWindow"),
              horizon=7.0 if deep else 5.0, drops=False, jumps=(1.0, 3.0),
              timeout=5.0, limit=20000 if deep else 700)
    parts = []
    for engine in (False, True):
        parts.append(("v3", dict(kw, engine=engine, requests=2)))
        parts.append(("v3", dict(kw, engine=engine, requests=1)))
        parts.append(("v3", dict(kw, engine=engine, requests=2,
                                 levels=("noAuthNoPriv",))))
    for v in ("v1", "v2c"):
        parts.append((v, dict(kw, requests=2)))
    # several requests that nothing answers; requests of different periods
    quiet = dict(messages=False, horizon=5.0, jumps=(1.0,), timeout=5.0,
                 limit=20000)
    for v in ("v1", "v2c", "v3"):
        for engine in (False, True) if v == "v3" else (False,):
            parts.append((v, dict(quiet, engine=engine, requests=3,
                                  waits=False, horizon=2.0, engines=1)))
            parts.append((v, dict(quiet, engine=engine, requests=2,
                                  periods=(4.0, 1.0))))
            parts.append((v, dict(quiet, engine=engine, requests=2,
                                  periods=(1.0, 3.0), jumps=(2.0,))))
    # many periods
    for v in ("v1", "v2c", "v3"):
        for engine in (False, True) if v == "v3" else (False,):
            parts.append((v, dict(
                quiet, engine=engine, requests=1, engines=1, timeout=40.0,
                waits=False, loops=40,
                levels=("noAuthNoPriv",), horizon=32.0 if deep else 16.0)))
    explore(c, Schedule, parts)
    for v in MGR:
        among_many(c, v)
    c.floor("repetitions", 50)
    c.floor("waits", 50)
