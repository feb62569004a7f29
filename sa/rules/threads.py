"""Locks, shared tables, blocking and the listener thread.

All rules work on the effect summaries of the whole-program inference: every
function, per argument types, with the calls, lock acquisitions, accesses and
blocking operations it performs and the locks that may and must be held at
each.  Calls through callbacks, properties, comparisons, iteration, and what
finalizers do, are part of the summaries."""

import ast

from ..infer import LOCK_TYPES
from ..program import AnalysisError


class Threads:
    """The call graph with locks."""

    def __init__(self, c):
        self.c = c
        inf = self.inf = c.inf
        self.calls = {}
        self.direct = {}
        for ctx, s in inf.summ.items():
            self.calls[ctx] = {e[1][0] for e in s.events
                               if e[0] == "call" and e[1][0] in inf.summ}
            self.direct[ctx] = {e[1][0] for e in s.events
                                if e[0] == "acquire"}
        self.names = {}
        for (owner, site, name), av in inf.attrs.items():
            for a in av:
                if a[0] == "extinst" and a[1] in LOCK_TYPES:
                    self.names.setdefault(a, set()).add(
                        f"{short(owner)}.{name}")
        self.spawned = set()
        for ctx, s in inf.summ.items():
            for e in s.events:
                if e[0] == "spawn" and e[1][0] in inf.summ:
                    self.spawned.add(e[1][0])
        self.dels = {}
        for q, ctxs in inf.func_ctxs.items():
            if q.endswith(".__del__"):
                self.dels[q.rsplit(".", 1)[0]] = set(ctxs)
        self.acq = self.closure(self.direct)

    def closure(self, direct):
        """What a context and everything it calls does."""
        out = {k: set(v) for k, v in direct.items()}
        callers = {}
        for a, bs in self.calls.items():
            for b in bs:
                callers.setdefault(b, set()).add(a)
        work = [k for k in out if out[k]]
        while work:
            k = work.pop()
            for a in callers.get(k, ()):
                if not out[k] <= out[a]:
                    out[a] |= out[k]
                    work.append(a)
        return out

    def reach(self, roots):
        seen = set(roots)
        work = list(roots)
        while work:
            for n in self.calls.get(work.pop(), ()):
                if n not in seen:
                    seen.add(n)
                    work.append(n)
        return seen

    def lock(self, a):
        return "/".join(sorted(self.names.get(a, {f"{a[2][1]}:{a[2][2]}"})))

    def held_everywhere(self, roots):
        """{context: locks held on every path from the roots to it}"""
        m = {r: frozenset() for r in roots}
        work = list(roots)
        while work:
            x = work.pop()
            for k, d, may, must, wh, node in self.inf.summ[x].events:
                if k != "call" or d[0] not in self.inf.summ:
                    continue
                n = m[x] | must
                t = d[0]
                if t not in m:
                    m[t] = n
                    work.append(t)
                elif not m[t] <= n:
                    m[t] = m[t] & n
                    work.append(t)
        return m

    def held_possibly(self, roots):
        """{context: {lock: call site}} held on some path to it"""
        m = {r: {} for r in roots}
        work = list(roots)
        while work:
            x = work.pop()
            for k, d, may, must, wh, node in self.inf.summ[x].events:
                if k != "call" or d[0] not in self.inf.summ:
                    continue
                t = d[0]
                new = dict(m[x])
                for l in may:
                    new.setdefault(l, wh)
                cur = m.setdefault(t, None)
                if cur is None:
                    m[t] = new
                    work.append(t)
                elif not set(new) <= set(cur):
                    for l, w in new.items():
                        cur.setdefault(l, w)
                    work.append(t)
        return m

    def finalizers(self, atoms):
        """Contexts of the finalizers that may run when the last reference to
        one of these objects is dropped, or to what only they keep alive."""
        seen, work, out = set(), [a for a in atoms if a[0] == "inst"], set()
        while work:
            a = work.pop()
            if a[1] in seen:
                continue
            seen.add(a[1])
            for cls in self.inf.prog.classes[a[1]].mro:
                out |= self.dels.get(cls.qual, set())
            for (owner, site, name), av in self.inf.attrs.items():
                if owner == a[1]:
                    work.extend(b for b in av if b[0] == "inst")
        return out


def short(q):
    return q.rsplit(".", 1)[-1]


# -- what can run concurrently ----------------------------------------------

REQUESTS = ("get", "getNext", "getBulk", "set")


def methods(prog, pred):
    return [f"{c.qual}.{n}" for c in prog.classes.values()
            for n, m in c.members.items() if pred(c, n)]


def managers(prog):
    """Classes with the request methods."""
    return {c.qual for c in prog.classes.values()
            if c.qual.startswith("snmp.manager")
            and all(prog.member(c, n) is not None
                    for n in ("get", "getNext", "set"))}


def handles(prog):
    """Classes of which every request has its own instances."""
    base = prog.cls("snmp.message.RequestHandle")
    return {c.qual for c in prog.classes.values()
            if base in c.mro and c is not base
            or (c.qual.startswith("snmp.manager")
                and prog.member(c, "wait") is not None)}


def roots(t):
    """(entry points of the user's threads, of the listener threads)"""
    prog = t.c.prog
    ms, hs = managers(prog), handles(prog)
    user = set()
    for ctx in t.inf.roots:
        cls, _, name = ctx[0].rpartition(".")
        if cls == "snmp.engine.Engine" and (
                not name.startswith("_")
                or name in ("__enter__", "__exit__", "__init__")):
            user.add(ctx)
        elif cls in ms and name in REQUESTS:
            user.add(ctx)
        elif cls in hs and name == "wait":
            user.add(ctx)
        elif cls.endswith("UserBasedSecurityModule") and name == "addUser":
            user.add(ctx)
    for ctxs in t.dels.values():
        user |= ctxs
    t.c.count("entry points of user threads", len({x[0] for x in user}))
    t.c.count("entry points of listener threads",
              len({x[0] for x in t.spawned}))
    t.c.floor("entry points of user threads", 12)
    t.c.floor("entry points of listener threads", 1)
    return user, set(t.spawned)


def k01(c):
    c.rule("In the graph with an edge from each lock that may be held to each "
           "lock that may be acquired meanwhile (directly, in anything "
           "called, or in the finalizer of an object whose last reference "
           "may be dropped there, or in a thread that is waited for) there is "
           "no cycle, in particular no lock is acquired while it is held.")
    c.rule("A lock is released on every way out of the region it protects.")
    t = Threads(c)
    user, listen = roots(t)
    live = t.reach(user | listen | set(t.inf.roots))
    edges = {}

    def edge(a, b, where):
        edges.setdefault((a, b), where)
    locks = set()
    for ctx in live:
        c.functions.add(ctx[0])
        for k, d, may, must, wh, node in t.inf.summ[ctx].events:
            if k == "acquire":
                locks.add(d[0])
                c.count("lock acquisitions")
                for a in may:
                    edge(a, d[0], wh)
            elif k == "call" and may:
                c.count("calls under a lock")
                for b in t.acq.get(d[0], ()):
                    for a in may:
                        edge(a, b, wh)
            elif k == "drop" and may:
                c.count("references dropped under a lock")
                for f in t.finalizers(d[0]):
                    for b in t.acq[f]:
                        for a in may:
                            edge(a, b, wh)
    poss = t.held_possibly(user | listen)
    for ctx, locks_of in poss.items():
        for k, d, may, must, wh, node in t.inf.summ[ctx].events:
            if k == "block" and d[0].endswith("Thread.join"):
                c.count("threads waited for")
                for a in set(locks_of) | set(may):
                    for x in t.spawned:
                        for b in t.acq[x]:
                            edge(a, b, f"{wh}, by waiting for {x[0]}")
    c.floor("threads waited for", 1)
    c.count("locks", len(locks))
    c.floor("locks", 5)
    c.floor("lock acquisitions", 20)
    c.floor("calls under a lock", 20)
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)
    for a in sorted(locks, key=t.lock):
        path = cycle(a, succ)
        names = " -> ".join(t.lock(x) for x in path or ())
        c.expect(not path, "lock order", t.lock(a),
                 edges[path[0], path[1]] if path else "",
                 f"these locks can be waited for in a circle: {names}",
                 [f"{t.lock(x)} held, {t.lock(y)} acquired: {edges[x, y]}"
                  for x, y in zip(path or (), (path or ())[1:])])
    for a, b in edges:
        c.sample(f"{t.lock(a)} before {t.lock(b)} ({edges[a, b]})")
    released(c, t)


def cycle(a, succ):
    """A shortest way from a back to a."""
    paths = [[a]]
    seen = set()
    for p in paths:
        for n in sorted(succ.get(p[-1], ()), key=str):
            if n == a:
                return p + [a]
            if n not in seen:
                seen.add(n)
                paths.append(p + [n])
    return None


def released(c, t):
    """Explicit acquire() calls are followed by try ... finally: release()."""
    sites = {}
    for ctx, s in t.inf.summ.items():
        for k, d, may, must, wh, node in s.events:
            if k == "extmeth" and d[0] in LOCK_TYPES and d[1] == "acquire":
                sites[id(node)] = (ctx[0], wh, node)
    blocks = {}
    for m in c.prog.modules.values():
        for n in ast.walk(m.tree):
            for f in ("body", "orelse", "finalbody", "handlers"):
                b = getattr(n, f, None)
                if isinstance(b, list):
                    for i, x in enumerate(b):
                        if isinstance(x, ast.Expr):
                            blocks[id(x.value)] = b[i + 1:i + 2]
    for qual, wh, node in sites.values():
        rest = blocks.get(id(node), [])
        name = ast.unparse(node.func.value)
        good = bool(rest) and isinstance(rest[0], ast.Try) and any(
            isinstance(x, ast.Expr) and ast.unparse(x.value).startswith(
                name + ".release(") for x in rest[0].finalbody)
        c.count("explicit acquisitions")
        c.expect(good, "lock released", f"{qual} acquires {name}", wh,
                 "the lock stays locked when something raises before it is "
                 "released: acquire it with a with statement, or release it "
                 "in a finally block right after acquiring it")


def shared_classes(t):
    """Classes of the objects that engines and managers keep, and that are
    therefore seen by several threads; requests and messages are not."""
    prog, inf = t.c.prog, t.inf
    hs = handles(prog)
    seen, work = set(), ["snmp.engine.Engine", "snmp.dispatcher.Dispatcher"]
    work += managers(prog)
    by_owner = {}
    for (owner, site, name), av in inf.attrs.items():
        by_owner.setdefault(owner, set()).update(av)
    # a manager holds the parts of the engine it was given
    conts = {}

    def atoms(av, depth=0):
        for a in av:
            if a[0] == "inst":
                yield a[1]
            elif a[0] in ("dict", "list", "set") and len(a) > 1:
                k = a[1] if isinstance(a[1], tuple) else a
                if depth < 6:
                    yield from atoms(inf.elems.get(k, ()), depth + 1)
            elif a[0] == "tuple":
                for x in a[1]:
                    yield from atoms(x, depth + 1)
    while work:
        q = work.pop()
        if q in seen or q in hs or q not in prog.classes:
            continue
        seen.add(q)
        for k in prog.classes[q].mro:
            work.extend(atoms(by_owner.get(k.qual, ())))
        work.extend(atoms(by_owner.get(q, ())))
    return seen


class Accesses:
    """Accesses to attributes and containers with the locks surely held,
    leaving out an object's own construction and finalization."""

    def __init__(self, t, entry):
        self.t = t
        inf = t.inf
        self.m = {}
        work = []
        for r in entry:
            self.m[r] = (frozenset(), self.own(r[0]))
            work.append(r)
        while work:
            x = work.pop()
            locks, new = self.m[x]
            for k, d, may, must, wh, node in inf.summ[x].events:
                if k != "call" or d[0] not in inf.summ:
                    continue
                n = (locks | must, new | self.own(d[0][0]))
                cur = self.m.get(d[0])
                if cur is None:
                    self.m[d[0]] = n
                    work.append(d[0])
                else:
                    j = (cur[0] & n[0], cur[1] & n[1])
                    if j != cur:
                        self.m[d[0]] = j
                        work.append(d[0])
        self.list = []
        for ctx, (locks, new) in self.m.items():
            for k, d, may, must, wh, node in inf.summ[ctx].events:
                if k == "attr":
                    b, name, rw = d
                    if b[0] == "inst" and b[1] not in new:
                        self.list.append((("attr", b[1], name, b[2]), rw,
                                          locks | must, wh, ctx[0]))
                elif k in ("mutate", "use", "store", "del"):
                    if d[0][0] in ("dict", "list", "set") and len(d[0]) > 1:
                        self.list.append((
                            d[0], "r" if k == "use" else "w", locks | must,
                            wh, (ctx[0], new)))

    def own(self, qual):
        cls, _, name = qual.rpartition(".")
        if name in ("__init__", "__new__", "__del__"):
            k = self.t.c.prog.classes.get(cls)
            return frozenset([s.qual for s in self.t.c.prog.subclasses.get(
                cls, [])] + [cls]) if k else frozenset()
        return frozenset()


def k02(c):
    c.rule("For every attribute and every container of an object that engines "
           "or managers keep: any two accesses of which one is a write, and "
           "which two threads may make at the same time, have a lock in "
           "common that is held on every path to either.")
    c.rule("Construction and finalization of an object are exclusive; what a "
           "single request or message owns is not shared; sockets of a "
           "multiplexor are covered by K05.")
    t = Threads(c)
    user, listen = roots(t)
    shared = shared_classes(t)
    c.count("classes of shared objects", len(shared))
    c.functions |= {x[0] for x in t.reach(user | listen)}
    owners = {}
    lockers = set()
    for (owner, site, name), av in t.inf.attrs.items():
        for a in av:
            if a[0] in ("dict", "list", "set") and len(a) > 1:
                owners.setdefault(a, set()).add((owner, name))
            if a[0] == "extinst" and a[1] in LOCK_TYPES:
                lockers.add(owner)
    held_by = {}
    for (owner, site, name), av in t.inf.attrs.items():
        for a in av:
            if a[0] == "inst":
                held_by.setdefault(a[1:3], set()).add((owner, name))

    def many(loc):
        """Instances of the class belong to several owners."""
        return len(held_by.get((loc[1], loc[3]), ())) > 1 \
            and loc[1] not in lockers
    table = {}
    for role, entry in (("listener", listen), ("user", user)):
        for loc, rw, locks, wh, fn in Accesses(t, entry).list:
            new = frozenset()
            if not isinstance(fn, str):
                fn, new = fn
            if loc[0] == "attr":
                if loc[1] not in shared:
                    continue
                if many(loc):
                    continue    # guarded through its holder
                key = (loc[1], loc[2])
                if nexts(t.inf, loc):
                    rw = "w"        # its state moves with every next()
                if loc[3]:
                    key = (loc[1], f"{loc[2]} ({loc[3]})")
                table.setdefault(key, []).append(
                    (role, rw, locks, wh, fn, False))
            else:
                for owner, name in owners.get(loc, ()):
                    if owner in shared and owner not in new:
                        table.setdefault((owner, name + "[]"), []).append(
                            (role, rw, locks, wh, fn, True))
    mux = {k.qual for k in c.prog.subclasses.get(
        "snmp.transport.TransportMultiplexor", [])}
    for (owner, name), acc in sorted(table.items()):
        if owner in mux:
            continue            # K05: changed only while nothing listens
        c.count("shared attributes and tables")
        c.count("accesses", len(acc))
        guarded = any(a[2] for a in acc)
        found = None
        for w in acc:
            if w[1] != "w":
                continue
            for a in acc:
                if w[2] & a[2] or {w[0], a[0]} == {"listener"}:
                    continue
                if w[0] == a[0] and not guarded and not (
                        w[5] and owner in lockers):
                    continue
                if found is None or (a[2], w[2]) < (found[1][2],
                                                    found[0][2]):
                    found = w, a
        locks = frozenset.intersection(*[a[2] for a in acc])
        what = f"{short(owner)}.{name}"
        if found:
            w, a = found
            c.bad("guarded by one lock", what, w[3],
                  f"{w[4]} changes it with {held(t, w[2])} held, while "
                  f"{a[4]} ({a[3]}) uses it with {held(t, a[2])} held",
                  [f"{x[0]} thread, {'write' if x[1] == 'w' else 'read'}, "
                   f"{held(t, x[2])}: {x[3]} in {x[4]}" for x in acc][:30])
        else:
            c.ok("guarded by one lock", what)
            if locks:
                c.count("locations guarded by a lock")
                c.sample(f"{what}: {len(acc)} accesses, all under "
                         f"{held(t, locks)}")
    c.floor("classes of shared objects", 15)
    c.floor("locations guarded by a lock", 12)


def nexts(inf, loc):
    """The attribute holds an iterator of the library's own."""
    return any(
        a[0] == "inst" and any("__next__" in k.members
                               for k in inf.prog.classes[a[1]].mro)
        for (owner, site, name), av in inf.attrs.items()
        if owner == loc[1] and name == loc[2] for a in av)


def held(t, locks):
    return " and ".join(sorted(t.lock(x) for x in locks)) or "no lock"


def k03(c):
    c.rule("No operation that waits for a message, another thread or the "
           "clock is reached while a lock of the library may be held.")
    c.rule("What a listener does with a received message, and what runs when "
           "an object is dropped, reaches no operation that waits.")
    t = Threads(c)
    user, listen = roots(t)
    poss = t.held_possibly(user | listen)
    hear = {ctx for ctx in poss if ctx[0].endswith(".hear")}
    nowait = t.reach(hear)
    final = t.reach({x for xs in t.dels.values() for x in xs})
    c.count("functions reached from a received message",
            len({x[0] for x in nowait}))
    c.floor("functions reached from a received message", 60)
    for ctx, locks in poss.items():
        c.functions.add(ctx[0])
        c.count("contexts")
        for k, d, may, must, wh, node in t.inf.summ[ctx].events:
            if k != "block":
                continue
            c.count("operations that wait")
            h = frozenset(locks) | may
            c.expect(not h, "no lock held while waiting",
                     f"{ctx[0]}: {d[0]}", wh,
                     f"{d[0]} may run with {held(t, h)} held",
                     [f"{t.lock(l)} held at the call {locks[l]}"
                      for l in locks])
            c.expect(ctx not in nowait, "listener does not wait",
                     f"{ctx[0]}: {d[0]}", wh,
                     f"{d[0]} is reached while a received message is handled")
            c.expect(ctx not in final, "finalizers do not wait",
                     f"{ctx[0]}: {d[0]}", wh,
                     f"{d[0]} is reached when an object is dropped")
    c.floor("operations that wait", 4)
