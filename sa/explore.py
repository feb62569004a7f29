"""All reachable typestates of a manager and its requests, under every order
of the operations of their interfaces, up to equivalence. The search ends when
no operation leads to a new class of states, so histories of any length are
covered; what is bounded is the number of requests, of engines and of
retransmissions."""

from collections import namedtuple

from .pretty import pp
from .world import *

Rq = namedtuple("Rq", "obj level user final soft closed start expires due")
Hd = namedtuple("Hd", "obj id owner engine level user empty released")
Ghost = namedtuple("Ghost", "requests handles registered home dropped")


def quotient(st, roots, leaves=(), fixed={}):
    """(signature, {object: class}): the objects reachable from roots up to
    bisimulation, by what they refer to and by what refers to them. Leaves
    are not looked into; the classes of fixed objects are given."""
    index, shapes, edges, todo = {}, [], [], []

    def node(key, t):
        i = index.get(key)
        if i is None:
            i = index[key] = len(shapes)
            shapes.append(None)
            edges.append([])
            todo.append((i, key, t))
        return i

    def enc(t, src, label, kids, sets):
        """The part of t that stays; the nodes it refers to go to kids."""
        if not isinstance(t, tuple):
            if isinstance(t, frozenset):
                out = []
                for x in t:
                    ks, ss = [], []
                    out.append((enc(x, src, label, ks, ss), ks, ss))
                sets.append(out)
                return "SET"
            return (t, type(t).__name__)
        n = len(t)
        if n == 2:
            k = t[0]
            if k == "obj":
                if t in leaves:
                    return "leaf"
                if t in fixed:
                    return ("fixed", fixed[t])
                if t[1] in st.heap:
                    i = node(t, t)
                    edges[i].append((label, src))
                    kids.append(i)
                    return "@"
            elif k == "n" and isinstance(t[1], str) and "#" in t[1]:
                if t in fixed:
                    return ("fixed", fixed[t])
                i = node(t, t)
                edges[i].append((label, src))
                kids.append(i)
                return "@"
        elif isinstance(t, (Rq, Hd)):
            i = node(("g", id(t)), t)
            edges[i].append((label, src))
            kids.append(i)
            return "@"
        if n and t[0] == "c":
            return t
        return tuple([enc(x, src, label, kids, sets) for x in t])

    root = node(("root",), None)
    while todo:
        i, key, t = todo.pop(0)
        kids, sets = [], []

        def e(x, label, i=i, kids=kids, sets=sets):
            return enc(x, i, label, kids, sets)
        if key == ("root",):
            sh = [e(st.canon(r) if is_term(r) else r, "") for r in roots]
        elif key[0] == "g":
            sh = [type(t).__name__] + [e(getattr(t, f), f)
                                       for f in t._fields]
        elif t[0] == "n":
            sh = ["n", t[1].split("#")[0]]
        else:
            o = st.heap[t[1]]
            if st.facts.get(op("alive", t)) is False:
                sh = ["dead"]
            elif o.sym and not o.attrs and not o.items:
                sh = [o.kind, e(o.name, "name")]
            else:
                sh = [o.kind, o.cls]
                for n in sorted(o.attrs):
                    v = o.attrs[n]
                    sh.append(n)
                    sh.append(e(st.canon(v) if is_term(v) else v, n))
                items = o.items
                if o.kind == "set":
                    items = frozenset(items)
                sh += [e(items, "item"), e(o.base, "base"),
                       ("strong", t) in st.facts,
                       st.facts.get(op("alive", t))]
        shapes[i] = (hash(tuple(sh)), kids, sets)

    def value(s, col):
        h, kids, sets = s
        if sets:
            return hash((h, tuple([col[k] for k in kids]), tuple(
                [frozenset([value(x, col) for x in ys]) for ys in sets])))
        return hash((h, tuple([col[k] for k in kids])))

    col = [0] * len(shapes)
    classes = 0
    while True:
        new = [hash((value(s, col), frozenset([(lb, col[src])
                                               for lb, src in e])))
               for s, e in zip(shapes, edges)]
        n = len(set(new))
        col = new
        if n == classes:
            break
        classes = n
    return frozenset(col), {k: col[i] for k, i in index.items()
                            if k[0] in ("obj", "n")}


def is_term(t):
    return isinstance(t, tuple) and t and isinstance(t[0], str) and \
        not isinstance(t, (Rq, Hd))


class Step:
    """One operation on one state: what was done, and what came of it."""
    __slots__ = ("label", "kind", "before", "st", "value", "ghost", "after",
                 "events", "info", "path")


class Explorer:
    TIMEOUT, PERIOD = 3.0, 2.0

    def __init__(self, c, version, *, requests=1, levels=("authPriv",),
                 engine=False, horizon=3.0, kinds=None, on_step=None,
                 on_state=None, limit=4000, drops=True, waits=True,
                 engines=2, jumps=(1.0,), timeout=None,
                 messages=True, periods=None, users=(None,), answers="ab",
                 live=False, foreign=False, loops=8):
        self.c = c
        self.w = World(c, version)
        it = self.it = self.w.it
        it.maxsteps = 10 ** 10
        it.unroll_while = loops
        it.cut_while = True
        it.one_set_order = True
        it.all_alive = True
        it.exact_heaps = True
        it.extmodels["threading.Event.wait"] = self.event_wait
        self.version = version
        self.requests = requests
        self.levels = levels
        self.users = users
        self.answers = answers
        self.live = live
        self.named = engine
        self.horizon = horizon
        self.kinds = kinds or tuple(REPORTS)
        self.on_step = on_step
        self.on_state = on_state
        self.limit = limit
        self.jumps = jumps
        self.TIMEOUT = timeout or self.TIMEOUT
        self.periods = periods or (self.PERIOD,)
        self.answered = messages
        self.drops, self.waits = drops, waits
        self.engines = self.w.E[:engines]
        if foreign:
            self.w.refuse = self.w.E[1:]
        self.states = self.transitions = 0
        self.closed = False
        self.depths = {}

    def period(self, i):
        """The period of the i-th request."""
        return self.periods[i % len(self.periods)]

    def event_wait(self, it, st, args, kwargs, fr, node):
        """Nothing arrives while waiting (what does is covered by its arriving
        before): the time given passes."""
        ev = args[0]
        f = st.heap[ev[1]].attrs.get("flag")
        t = kwargs.get("timeout", args[1] if len(args) > 1 else NONE)
        it.event(st, "waited", fr, node, ev, t)
        if f == TRUE:
            return [(st, TRUE)]
        s2 = st.fork()
        it.event(s2, "interrupted", fr, node, ev)
        out = it.exc(s2, "builtins.KeyboardInterrupt", fr.where(node))
        if t[0] == "c" and isinstance(t[2], (int, float)) and t[2] < 1e6:
            self.w.freeze(st, const(self.w.clock(st)[2] + max(t[2], 0.0)))
        else:
            st.assume(TRUE, False)      # waits for ever
            return out
        return out + [(st, FALSE)]

    # -- the states ------------------------------------------------------------

    def run(self):
        w, it = self.w, self.it
        st = w.st
        w.freeze(st, const(0.0))
        st, self.oid = make(it, st, "snmp.smi.OID", const(1), const(3),
                            const(6))
        w.hold(st, self.oid)
        st = self.alphabet(st)
        todo = []
        seen = set()
        for s, m in w.manager(st, engine=w.E[0] if self.named else None):
            g = Ghost((), (), (), w.E[0] if self.named else None, False)
            g = self.account(g, s, 0)
            todo.append((s, m, g, ()))
        while todo:
            s, m, g, path = todo.pop(0)
            core, classes = self.signature(s, m, g)
            new = core not in seen
            seen.add(core)
            handles = []
            for h, k in classes:
                if (core, k) not in seen:
                    seen.add((core, k))
                    handles.append(h)
            if not new and not handles:
                continue
            self.states += 1
            self.depths[len(path)] = self.depths.get(len(path), 0) + 1
            if self.states > self.limit:
                return
            s.events.clear()
            s.order.clear()
            if self.on_state:
                self.on_state(self, s, m, g, path)
            for label, kind, info, results in self.actions(s, m, g, new,
                                                          handles):
                for s2, v in results:
                    self.transitions += 1
                    t = Step()
                    t.label, t.kind, t.before, t.st = label, kind, g, s2
                    t.value, t.info, t.path = v, info, path + (label,)
                    t.events = s2.events
                    t.ghost = self.account(g, s2, 0)
                    t.after = self.update(t)
                    if self.on_step:
                        self.on_step(self, t)
                    s2.events = []
                    g2 = self.forget(t.after) if self.live else t.after
                    todo.append((s2, m, g2, t.path))
        self.closed = True

    def signature(self, s, m, g):
        """The class of the state without its messages, and the classes of
        the messages in it: what a message does depends on the two, and not
        on which other messages there are."""
        own = {r.obj for r in g.requests}
        hs = [h for h in g.handles if not h.released]
        leaves = {h.obj for h in g.handles} - own
        core, cls = quotient(s, [
            m, frozenset(g.requests), frozenset(
                (e, n) for e, n in g.registered if n), g.home or NONE,
            g.dropped, self.w.clock(s)], leaves)
        return core, [(h, quotient(s, [h._replace(id=None, owner=None)], (),
                                   {k: v for k, v in cls.items()
                                    if k not in leaves})[0]) for h in hs]

    # -- bookkeeping -----------------------------------------------------------

    def account(self, g, st, start):
        """The ghost after the events since start: messages sent, IDs given
        back, engines registered."""
        hs, reg = list(g.handles), dict(g.registered)
        for e in st.events[start:]:
            if e[0] == "sent":
                x = Sent(e)
                if any(h.obj == x.handle for h in hs):
                    continue        # repeated with the same handle
                hs.append(Hd(x.handle, None, None, x.engine, x.level, x.user,
                             None, 0))
            elif e[0] == "cached":
                h, mid = e[1]
                for i in range(len(hs) - 1, -1, -1):
                    if hs[i].obj == h and hs[i].id is None:
                        hs[i] = hs[i]._replace(id=mid)
                        break
            elif e[0] == "uncached":
                for i, h in enumerate(hs):
                    if h.id == e[1][0]:
                        hs[i] = h._replace(released=h.released + 1)
            elif e[0] == "register" and e[1][2]:
                reg[e[1][0]] = reg.get(e[1][0], 0) + 1
            elif e[0] == "unregister":
                reg[e[1][0]] = reg.get(e[1][0], 0) - 1
        return g._replace(handles=tuple(hs),
                          registered=tuple(sorted(reg.items(), key=repr)))

    def owner(self, st, h, requests):
        """The request a handle belongs to: itself, or the one it refers
        to."""
        objs = [r.obj for r in requests]
        if h in objs:
            return objs.index(h)
        seen, cur = {h}, [h]
        for _ in range(3):
            nxt = []
            for t in cur:
                for x in st.heap[t[1]].attrs.values():
                    for y in objects(x, st):
                        if y in objs:
                            return objs.index(y)
                        if y not in seen and st.heap[y[1]].kind != "inst":
                            seen.add(y)
                            nxt.append(y)
            cur = nxt
        return None

    def update(self, t):
        """The ghost after a step."""
        g = t.ghost
        rs = list(g.requests)
        if t.kind == "new" and not isinstance(t.value, Exc):
            now = self.w.clock(t.st)[2]
            rs.append(Rq(t.value, t.info["level"], t.info["user"], None, None,
                         False, now, now + self.TIMEOUT, None))
        hs = []
        for h in g.handles:
            if h.owner is None:
                o = self.owner(t.st, h.obj, rs)
                h = h._replace(owner=o)
            hs.append(h)
        home = g.home
        if t.kind == "push":
            h, i = t.info["handle"], t.info["handle"].owner
            r = rs[i] if i is not None else None
            tok, auth = t.info["token"], t.info["auth"]
            if r is None or r.closed or isinstance(t.value, Exc):
                pass
            elif t.info["report"]:
                if t.info["report"] not in ("notInTimeWindow",
                                            "unknownEngineID"):
                    if auth and r.final is None:
                        r = r._replace(final=("report", tok))
                    elif not auth and r.soft is None and r.final is None:
                        r = r._replace(soft=tok)
            elif h.engine != const(b"") and not below(t.info["level"],
                                                      r.level):
                if r.final is None:
                    r = r._replace(final=("response", tok))
                if auth:
                    home = t.info["engine"]
            if r is not None:
                rs[i] = r
        elif t.kind in ("wait", "drop"):
            i = t.info["request"]
            rs[i] = rs[i]._replace(closed=True, final=None, soft=None,
                                   start=None, expires=None, due=None)
        # closed messages can no longer be reached
        live = {h.obj for h in hs if not h.released}
        hs = [h for h in hs if h.obj in live or self.keep(h, rs)]
        return g._replace(requests=tuple(rs), handles=tuple(hs), home=home)

    def forget(self, g):
        """The ghost without the closed requests that no message is of, so
        that the bound is one on the open requests."""
        used = {h.owner for h in g.handles}
        left = [i for i, r in enumerate(g.requests)
                if not r.closed or i in used]
        new = {i: j for j, i in enumerate(left)}
        return g._replace(
            requests=tuple(g.requests[i] for i in left),
            handles=tuple(h._replace(owner=new.get(h.owner))
                          for h in g.handles))

    def keep(self, h, rs):
        return h.owner is None or not rs[h.owner].closed

    # -- the operations ----------------------------------------------------------

    def actions(self, s, m, g, new, handles):
        w = self.w
        for h in handles if self.answered else ():
            yield from self.messages(s, g, h)
        if not new:
            return
        now = w.clock(s)[2]
        if len(g.requests) < self.requests:
            for lv in self.levels if self.version == "v3" else (None,):
                for user in self.users if lv else (None,):
                    yield self.starting(s, m, g, lv, user)
        if now < self.horizon:
            for d in self.jumps:
                s2 = s.fork()
                w.freeze(s2, const(now + d))
                yield (f"{d:g} s pass", "tick", {}, call(
                    self.it, s2, m, "refresh"))
        for i, r in enumerate(g.requests):
            if r.closed:
                continue
            if self.waits:
                yield (f"wait for request {i}", "wait", {"request": i},
                       self.ended(call(self.it, s, r.obj, "wait"), r.obj))
            if self.drops:
                yield (f"drop request {i}", "drop", {"request": i},
                       self.dropping(s.fork(), r.obj))

    def starting(self, s, m, g, lv, user):
        w = self.w
        kw = {"timeout": const(self.TIMEOUT),
              "refreshPeriod": const(self.period(len(g.requests)))}
        if lv:
            kw["securityLevel"] = w.levels[lv]
        if user is not None:
            kw["user"] = const(user)
        what = "new request"
        if lv:
            what += f" at {lv}"
        if user is not None:
            what += f" of {user!r}"
        return (what, "new", {"level": lv, "user": w.U[0] if user is None
                              else const(user)},
                w.request(s, m, "get", [self.oid], **kw))

    def ended(self, results, obj):
        """The caller forgets a request that it waited for."""
        out = []
        for s, v in results:
            self.it.event(s, "ended", TOP, None)
            out += [(x, v) for x, _ in self.dropping(s, obj)]
        return out

    def dropping(self, s, obj):
        q = next(iter(s.heap[obj[1]].cls))
        if self.c.prog.member(self.c.prog.cls(q), "__del__"):
            res = call(self.it, s, obj, "__del__")
        else:
            res = [(s, NONE)]
        for x, _ in res:
            self.w.drop(x, obj)
        return res

    def alphabet(self, st):
        """Every message that may arrive, built once: two of each that can
        answer a request, so that one can be told from the other."""
        w = self.w
        self.msgs = {}
        if self.version != "v3":
            for i in "ab":
                st, msg, tok = w.response_of(st, error=i == "b")
                self.msgs["response", i] = msg, tok
            return st
        for e in self.engines + [const(b"")]:
            for lv in LEVELS:
                for i in "ab":
                    st, msg, tok = w.response_of(st, lv, e, i == "b")
                    self.msgs["response", lv, e, i] = msg, tok
        for kind in self.kinds:
            for lv in ("noAuthNoPriv", "authNoPriv"):
                for e in self.engines:
                    st, msg, tok = w.report_of(st, kind, lv, e)
                    self.msgs[kind, lv, e] = msg, tok
        return st

    def messages(self, s, g, h):
        if self.version != "v3":
            for i in self.answers:
                msg, tok = self.msgs["response", i]
                yield self.pushing(s, h, msg, f"response {i}", None, None,
                                   None, tok)
            return
        found = h.engine == const(b"")
        for kind in self.kinds:
            for lv in ("noAuthNoPriv", "authNoPriv"):
                if found and lv != "noAuthNoPriv":
                    continue
                es = self.engines if kind in (
                    "unknownEngineID", "notInTimeWindow") else \
                    self.engines[:1]
                for e in es:
                    msg, tok = self.msgs[kind, lv, e]
                    yield self.pushing(
                        s, h, msg, f"{lv} {kind} report from {self.name(e)}",
                        kind, lv, e, tok)
        for lv in LEVELS:
            if below(lv, self.level_name(h.level)) or \
                    found and lv != "noAuthNoPriv":
                continue
            for i in self.answers:
                msg, tok = self.msgs["response", lv, h.engine, i]
                yield self.pushing(s, h, msg, f"{lv} response {i}", None, lv,
                                   h.engine, tok)

    def name(self, e):
        return f"engine {self.w.E.index(e)}" if e in self.w.E else pp(e)

    def level_name(self, v):
        for n, x in self.w.levels.items():
            if x == v:
                return n
        raise AnalysisError("a message has no constant security level")

    def pushing(self, s, h, msg, what, kind, level, engine, tok):
        info = {"handle": h, "report": kind, "level": level, "engine": engine,
                "token": tok, "auth": level not in (None, "noAuthNoPriv"),
                "message": msg}
        to = "discovery" if h.engine == const(b"") else self.name(
            h.engine) if h.engine else "the request"
        return (f"{what} for the message to {to}", "push", info,
                self.w.push(s, h.obj, msg))


def below(a, b):
    if a is None or b is None:
        return False
    return LEVELS.index(a) < LEVELS.index(b)


def objects(t, st):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "obj" and t[1] in st.heap:
            yield t
        else:
            for x in t:
                yield from objects(x, st)


def mentions(st, v, tok):
    """Whether a value, or what it refers to, contains a symbol."""
    seen, todo = set(), [v]
    while todo:
        t = todo.pop()
        if t == tok:
            return True
        if not isinstance(t, tuple) or t in seen:
            continue
        seen.add(t)
        if len(t) == 2 and t[0] == "obj" and t[1] in st.heap:
            o = st.heap[t[1]]
            todo += list(o.attrs.values()) + [o.items, o.base, o.name]
        else:
            todo += list(t)
    return False
