"""The listener thread: what it reads, what it hands on, when it ends, and how
it is started and stopped."""

from ..scen import *
from ..program import AnalysisError

MUX = "snmp.transport.TransportMultiplexor"
LISTENER = "snmp.transport.TransportListener"
SOCKET = "snmp.transport.udp.UdpSocket"
WAKE, WAKE_W = 901, 902
SIZE = 4321


def multiplexors(prog):
    base = prog.cls(MUX)
    return [k.qual for k in prog.subclasses[base.qual]
            if k is not base and "listen" in k.members]


def sockets(prog):
    base = prog.cls(SOCKET)
    return [k.qual for k in prog.subclasses[base.qual] if k is not base]


class Net:
    """Operating-system interfaces: sockets with fixed descriptors, one pipe,
    and polls that report what a script says."""

    def __init__(self, c, script=(), hear=None):
        self.c = c
        self.script = list(script)
        self.own = []
        self.request = None     # (to descriptor, content, sender)
        o = {}
        if hear:
            o[c.prog.func(LISTENER + ".hear").qual] = hear
        ext = {"os.pipe": self.pipe, "os.read": self.read,
               "os.write": self.write, "os.close": self.close_fd,
               "select.select": self.select, "socket.socket": self.socket,
               "socket.socket.recvfrom": self.recvfrom,
               "socket.socket.fileno": self.fileno,
               "socket.socket.bind": self.note, "socket.socket.close":
               self.note, "socket.socket.setblocking": self.blocking,
               "socket.socket.settimeout": self.blocking,
               "socket.socket.sendto": self.note,
               "socket.socket.getsockname": self.getsockname,
               "select.poll.register": self.poll_register,
               "select.poll.poll": self.poll}
        self.it = c.engine(o, ext=ext)
        self.it.unroll_while = 12
        self.it.cut_while = True
        self.it.maxsteps = 10 ** 9

    def pipe(self, it, st, args, kwargs, fr, node):
        it.event(st, "opened", fr, node, WAKE, WAKE_W)
        return [(st, ("tup", (const(WAKE), const(WAKE_W))))]

    def read(self, it, st, args, kwargs, fr, node):
        it.event(st, "osread", fr, node, args[0])
        return [(st, sym(it.fresh("read"), "bytes"))]

    def write(self, it, st, args, kwargs, fr, node):
        it.event(st, "oswrite", fr, node, args[0], args[1])
        return [(st, I("written"))]

    def close_fd(self, it, st, args, kwargs, fr, node):
        it.event(st, "closed", fr, node, args[0])
        return [(st, NONE)]

    def socket(self, it, st, args, kwargs, fr, node):
        n = sum(e[0] == "socket" for e in st.events)
        o = Obj("ext")
        o.attrs["class"] = "socket.socket"
        o.attrs["fd"] = const(100 + n)
        t = it.new(st, o)
        st.names[it.fresh("socket")] = t
        it.event(st, "socket", fr, node, t, tuple(args))
        return [(st, t)]

    def fileno(self, it, st, args, kwargs, fr, node):
        return [(st, st.heap[args[0][1]].attrs["fd"])]

    def note(self, it, st, args, kwargs, fr, node):
        name = getattr(getattr(node, "func", None), "attr", "call")
        it.event(st, "sock", fr, node, name, *args)
        return [(st, NONE)]

    def blocking(self, it, st, args, kwargs, fr, node):
        v = args[1]
        never = is_const(v) and v[2] is not None and not v[2]
        st.mut(args[0]).attrs["waits"] = FALSE if never else TRUE
        return self.note(it, st, args, kwargs, fr, node)

    def getsockname(self, it, st, args, kwargs, fr, node):
        fd = st.heap[args[0][1]].attrs["fd"]
        return [(st, ("tup", (S(f"host{fd[2]}"), N(f"port{fd[2]}"))))]

    def recvfrom(self, it, st, args, kwargs, fr, node):
        fd = st.heap[args[0][1]].attrs["fd"]
        self.c.expect(
            len(args) > 2 or bool(kwargs)
            or st.heap[args[0][1]].attrs.get("waits") == FALSE,
            "reading", f"{fr.where(node).split(' in ')[-1]}: waits",
            fr.where(node), "what poll() or select() reported may be gone, "
            "and reading from a blocking socket then waits for ever")
        out = []
        for e in ("builtins.OSError", "builtins.BlockingIOError")[
                :2 if fd[2] in self.own else 1]:
            s = st.fork()
            it.event(s, "received", fr, node, fd, None, None, args[1])
            out += it.exc(s, e, fr.where(node))
        n = it.fresh("datagram")
        data, addr = sym(n, "bytes"), ("tup", (
            sym(it.fresh("host"), "str"), sym(it.fresh("port"), "int")))
        it.event(st, "received", fr, node, fd, data, addr, args[1])
        return out + [(st, ("tup", (data, addr)))]

    def poll_register(self, it, st, args, kwargs, fr, node):
        it.event(st, "watch", fr, node, args[1])
        return [(st, NONE)]

    def ready(self, it, st, fr, node):
        n = sum(e[0] == "polled" for e in st.events)
        watched = [e[1][0][2] for e in st.events if e[0] == "watch"
                   and e[1][0][0] == "c"]
        wake = [f for f in watched if f not in self.own]
        if n >= len(self.script):
            return None         # that is as far as the script goes
        fds = []
        for f in self.script[n]:
            if f == "wake":
                fds += wake[:1]
            elif self.own[f] in watched:
                fds.append(self.own[f])
        it.event(st, "polled", fr, node, tuple(fds))
        return fds

    def asked(self, it, st, fr, node):
        """The loop is about to wait: nobody may have asked it to stop."""
        for e in st.events:
            if e[0] == "osread" and e[1][0] == const(WAKE):
                eqs = []
            elif e[0] == "received" and self.request is not None \
                    and e[1][1] is not None \
                    and e[1][0] == self.request[0]:
                eqs = [(mk_eq(e[1][1], self.request[1]), True),
                       (mk_eq(e[1][2][1][0], self.request[2][1][0]), True),
                       (mk_eq(e[1][2][1][1], self.request[2][1][1]), True)]
            else:
                continue
            self.c.expect(consistent(st, *eqs) is None, "ending",
                          fr.where(node).partition(" in ")[2]
                          + ": stop request", e[4],
                          "a stop request was read, but the listener goes "
                          "on: who asked waits forever")

    def poll(self, it, st, args, kwargs, fr, node):
        self.asked(it, st, fr, node)
        fds = self.ready(it, st, fr, node)
        if fds is None:
            return []
        o = Obj("list")
        o.items = tuple(("tup", (const(f), N(it.fresh("mask"), 1, 63)))
                        for f in fds)
        return [(st, it.new(st, o))]

    def select(self, it, st, args, kwargs, fr, node):
        o = st.heap[args[0][1]] if args[0][0] == "obj" else None
        if o is None or o.kind != "list" or o.base is not None:
            raise AnalysisError("select() on an unknown list")
        for x in o.items:
            it.event(st, "watch", fr, node, x)
        self.asked(it, st, fr, node)
        fds = self.ready(it, st, fr, node)
        if fds is None:
            return []
        ls = []
        for xs in (fds, (), ()):
            o = Obj("list")
            o.items = tuple(const(f) for f in xs)
            ls.append(it.new(st, o))
        return [(st, ("tup", tuple(ls)))]

    # -- a multiplexor with two sockets ------------------------------------

    def setup(self, qual):
        """[(state, multiplexor, sockets)]"""
        it = self.it
        out = []
        for s, m in normal(it.instantiate(State(), qual, [const(SIZE)], {},
                                          TOP, None)):
            res = [(s, ())]
            for k in self.kinds:
                nxt = []
                for s, socks in res:
                    for s2, x in normal(it.instantiate(
                            s, k, [S("host"), N("port", 0, 65535)], {}, TOP,
                            None)):
                        for s3, v in call(it, s2, m, "register", x):
                            if isinstance(v, Exc):
                                raise AnalysisError(
                                    f"register() fails: {v!r}")
                            nxt.append((s3, socks + (x,)))
                res = nxt
            for s, socks in res:
                fds = []
                for x in socks:
                    r = normal(it.getattr(s, x, "fileno", TOP, None))
                    if len(r) != 1 or r[0][1][0] != "c":
                        raise AnalysisError("no descriptor of the socket")
                    fds.append(r[0][1][2])
                self.own = fds
                out.append((s, m, socks))
        if not out:
            raise AnalysisError(f"{qual} cannot be set up")
        return out


ROUNDS = ([0], [1], [0, 1], [1, 0])
SCRIPTS = [[a, b, ["wake"]] for a in ROUNDS for b in ROUNDS] + [
    [["wake"]], [["wake"], [0], ["wake"]], [[0, "wake"]], [["wake", 1]], [[0], [1, "wake", 0]]]


def k04(c):
    c.rule("Reading: whenever a socket is reported as ready, it is read once, "
           "for as much as the engine accepts; what was read is handed to "
           "the listener once, with its socket and its sender; when reading "
           "fails, listening goes on.")
    c.rule("Ending: the listener ends only after the wake-up of a stop "
           "request, which came from the multiplexor itself, and it watches "
           "every registered socket and the wake-up descriptor.")
    c.rule("Surviving: no exception leaves the handling of a datagram, or the "
           "loop that reads them.")
    survive(c)
    kinds = sockets(c.prog)
    c.count("socket classes", len(kinds))
    for qual in multiplexors(c.prog):
        c.count("multiplexors")
        for pair in (kinds[:2], kinds[:2][::-1]):
            for script in SCRIPTS:
                loop(c, qual, pair, script)
        stop_request(c, qual, kinds)
    c.floor("multiplexors", 2)
    c.floor("datagrams handed on", 100)
    c.floor("reads that fail", 100)
    c.floor("stopped", 20)


def survive(c):
    q = c.prog.func("snmp.dispatcher.Dispatcher.hear").qual
    n = 0
    for ctx in c.inf.func_ctxs.get(q, ()):
        n += 1
        for exc, chain in c.inf.summ[ctx].raises.items():
            c.bad("surviving", f"{q}: {exc}", chain[0].split(" in ")[0],
                  f"{exc} leaves the handling of a datagram and ends the "
                  f"listener thread", chain)
        c.ok("surviving", q)
        c.functions.add(q)
    if not n:
        raise AnalysisError("the handling of a datagram is never called")
    # listeners other than the dispatcher are up to the user
    k = [x.qual for x in c.prog.subclasses[LISTENER]]
    c.expect(set(k) <= {LISTENER, "snmp.dispatcher.Dispatcher"}, "surviving",
             "listeners", "snmp/transport/__init__.py",
             f"unexpected listeners: {k}")


def loop(c, qual, kinds, script):
    def hear(it, st, f, args, kwargs, fr, node):
        names = [x.arg for x in f.node.args.args]
        b = dict(zip(names, args))
        b.update(kwargs)
        it.event(st, "hear", fr, node, b[names[1]], b[names[2]], b[names[3]])
        return [(st, NONE)]
    net = Net(c, script, hear)
    net.kinds = kinds
    it = net.it
    what = f"{qual}.listen"
    for s0, m, socks in net.setup(qual):
        net.request = request_of(net, s0, m)
        lst = it.input_obj(s0, LISTENER, "listener")
        start = len(s0.events)
        for s, v in call(it, s0, m, "listen", lst):
            c.count("paths")
            ev = s.events[start:]
            where = ev[-1][4] if ev else ""
            if not c.expect(not isinstance(v, Exc), "surviving", what,
                            v.where if isinstance(v, Exc) else "",
                            f"the listener thread ends with {v!r}",
                            [str(script)]):
                continue
            heard(c, s, net, m, socks, ev, what, script)
    c.used(it)


def request_of(net, st, m):
    """What stop() sends as a datagram, if it does."""
    n = len(st.events)
    for s, v in normal(call(net.it, st, m, "stop")):
        for e in s.events[n:]:
            if e[0] == "sock" and e[1][0] == "sendto":
                src = s.heap[e[1][1][1]].attrs["fd"][2]
                for t in s.heap.values() if hasattr(s.heap, "values") \
                        else ():
                    fd = t.attrs.get("fd") if t.kind == "ext" else None
                    if fd is not None and same(s, e[1][3], ("tup", (
                            S(f"host{fd[2]}"), N(f"port{fd[2]}")))):
                        return (fd, e[1][2], ("tup", (
                            S(f"host{src}"), N(f"port{src}"))))
    return None


def heard(c, s, net, m, socks, ev, what, script):
    fds = dict(zip(net.own, socks))
    watched = {e[1][0][2] for e in ev if e[0] == "watch"}
    c.expect(set(net.own) <= watched and watched - set(net.own), "ending",
             what + ": watched", ev[0][4] if ev else "",
             "not every registered socket and a wake-up descriptor are "
             f"watched: {sorted(watched)}")
    rounds, stopped = [], None
    for e in ev:
        if e[0] == "polled":
            rounds.append((list(e[1][0]), []))
        elif rounds and e[0] in ("received", "osread", "hear"):
            rounds[-1][1].append(e)
    for n, (ready, did) in enumerate(rounds):
        i = 0
        stop_at = None
        for fd in ready:
            got = did[i] if i < len(did) else None
            if fd not in fds:
                if got is not None and got[0] in ("osread", "received") \
                        and got[1][0] == const(fd):
                    i += 1
                    stopped = got
                    stop_at = fd
                continue
            if got is None and stop_at is not None \
                    and n == len(rounds) - 1:
                continue        # left to the next listener
            if not c.expect(
                    got is not None and got[0] == "received"
                    and got[1][0] == const(fd), "reading", what,
                    (got or ev[-1])[4],
                    f"a socket that is ready is not read "
                    f"(round {n} of {script})"):
                return
            i += 1
            _, data, addr, size = got[1]
            c.expect(same(s, size, const(SIZE)), "reading",
                     what + ": size", got[4],
                     "a datagram is not read with the size the multiplexor "
                     "was created for")
            if data is None:
                c.count("reads that fail")
                continue
            h = did[i] if i < len(did) else None
            good = h is not None and h[0] == "hear" and same(
                s, h[1][0], fds[fd]) and same(s, h[1][1], addr) and same(
                s, h[1][2], data)
            if not c.expect(good, "reading", what + ": handed on",
                            (h or got)[4],
                            "a datagram is not handed to the listener with "
                            "its socket, its sender and its content"):
                return
            c.count("datagrams handed on")
            i += 1
        c.expect(i == len(did), "reading", what + ": nothing else",
                 did[i][4] if i < len(did) else "",
                 "something else is read or handed on")
    # the path returned
    if not c.expect(stopped is not None, "ending", what, ev[-1][4] if ev
                    else "", "the listener ends although nobody asked it to "
                    f"stop ({script})"):
        return
    c.count("stopped")
    if stopped[0] == "received":
        own = [f for f in range(100, 110) if f not in net.own]
        addr = stopped[1][2]
        ok = addr is not None and any(
            same(s, addr, ("tup", (S(f"host{f}"), N(f"port{f}"))))
            for f in own if const(f) != stopped[1][0])
        c.expect(ok, "ending", what + ": sender", stopped[4],
                 "a datagram of another sender stops the listener")


def stop_request(c, qual, kinds):
    """What stop() sends is what ends the loop, completely."""
    net = Net(c, [["wake"]])
    net.kinds = kinds[:1]
    it = net.it
    what = f"{qual}.stop"
    for s0, m, socks in net.setup(qual):
        n0 = len(s0.events)
        for s, v in call(it, s0, m, "stop"):
            ev = [e for e in s.events[n0:] if e[0] == "oswrite" or (
                e[0] == "sock" and e[1][0] == "sendto")]
            c.expect(not isinstance(v, Exc) and len(ev) == 1, "stop request",
                     what, ev[0][4] if ev else "",
                     "stopping does not send exactly one request")
            if isinstance(v, Exc) or len(ev) != 1:
                continue
            n1 = len(s.events)
            e = ev[0]
            lst = it.input_obj(s, LISTENER, "listener")
            done = False
            for s2, r in call(it, s, m, "listen", lst):
                for x in s2.events[n1:]:
                    if x[0] == "osread" and e[0] == "oswrite":
                        done = done or (e[1][0] == const(WAKE_W)
                                        and x[1][0] == const(WAKE)
                                        and e[1][1][0] == "c"
                                        and len(e[1][1][2]) == 1)
                    elif x[0] == "received" and e[0] == "sock" \
                            and x[1][1] is not None:
                        snd = s.heap[e[1][1][1]].attrs["fd"][2]
                        to = ("tup", (S(f"host{x[1][0][2]}"),
                                      N(f"port{x[1][0][2]}")))
                        src = ("tup", (S(f"host{snd}"), N(f"port{snd}")))
                        done = done or (
                            same(s2, e[1][3], to)
                            and same(s2, x[1][1], e[1][2])
                            and same(s2, x[1][2], src))
            c.expect(done, "stop request", what + ": received", e[4],
                     "what stopping sends is not what ends the listener")
    c.used(it)


# -- starting and stopping ---------------------------------------------------

class Life:
    """A dispatcher whose multiplexor and threads are recorders. The ghost
    (running, stopping, closed) is kept in the names of the state."""

    KEY = ("n", "#life")

    def __init__(self, c):
        self.c = c
        self.inside = False
        o = {}
        for n in ("register", "listen", "stop", "close"):
            o[c.prog.func(f"{MUX}.{n}").qual] = self.mux
        self.it = c.engine(o, ext={
            "threading.Thread.start": self.start,
            "threading.Thread.join": self.join,
            "threading.Thread.is_alive": self.alive})

    def ghost(self, st):
        return st.names.get(self.KEY, (None, False, False, ()))

    def bad(self, st, fr, node, message):
        self.it.event(st, "bad", fr, node, message)

    def mux(self, it, st, f, args, kwargs, fr, node):
        run, stopping, closed, regs = self.ghost(st)
        if f.name == "listen" and self.inside:
            it.event(st, "listening", fr, node, f.name, args[0], args[1])
            return [(st, NONE)]
        if f.name == "register":
            if run is not None:
                self.bad(st, fr, node, "a socket is added while a listener "
                         "thread may be running")
            if closed:
                self.bad(st, fr, node, "a socket is added to a multiplexor "
                         "that was closed")
            regs += (args[1],)
        elif f.name == "stop":
            if run is None:
                self.bad(st, fr, node, "a listener that is not running is "
                         "asked to stop: the next one will end at once")
            elif stopping:
                self.bad(st, fr, node, "a listener is asked to stop twice: "
                         "the next one will end at once")
            stopping = True
        elif f.name == "close":
            if run is not None:
                self.bad(st, fr, node, "the sockets are closed while a "
                         "listener thread may be running")
            closed = True
        else:
            self.bad(st, fr, node, "listening in the caller's thread")
        st.names[self.KEY] = (run, stopping, closed, regs)
        it.event(st, "mux", fr, node, f.name)
        return [(st, NONE)]

    def start(self, it, st, args, kwargs, fr, node):
        run, stopping, closed, regs = self.ghost(st)
        t = args[0]
        if run is not None:
            self.bad(st, fr, node, "a second listener thread is started "
                     "while the first may be running")
        if closed:
            self.bad(st, fr, node, "a listener is started on closed sockets")
        o = st.heap[t[1]]
        pos = o.attrs.get("args", ("tup", ()))[1]
        target = o.attrs.get("kw:target", pos[1] if len(pos) > 1 else NONE)
        given = o.attrs.get("kw:args", pos[3] if len(pos) > 3 else NONE)
        it.event(st, "thread", fr, node, target, given)
        st.names[self.KEY] = (t, False, closed, regs)
        return [(st, NONE)]

    def join(self, it, st, args, kwargs, fr, node):
        run, stopping, closed, regs = self.ghost(st)
        if run is None or run != args[0]:
            self.bad(st, fr, node, "joins a thread that is not running")
            return [(st, NONE)]
        if not stopping:
            self.bad(st, fr, node, "waits for a listener that was not asked "
                     "to stop")
        if len(args) > 1 or kwargs:
            it.event(st, "timed join", fr, node)
            s = st.fork()           # it may still be running
            st.names[self.KEY] = (None, False, closed, regs)
            return [(st, NONE), (s, NONE)]
        st.names[self.KEY] = (None, False, closed, regs)
        return [(st, NONE)]

    def alive(self, it, st, args, kwargs, fr, node):
        run = self.ghost(st)[0]
        return [(st, TRUE if run == args[0] else FALSE)]


def k05(c):
    c.rule("Over every sequence of adding transports and shutting down: the "
           "set of sockets changes, and sockets are closed, only while no "
           "listener thread runs; at most one runs at a time, is stopped "
           "exactly once before it is waited for; after adding a transport "
           "one listens, after shutting down none does and everything is "
           "closed; shutting down twice does no harm.")
    life = Life(c)
    it = life.it
    st = State()
    mux = it.input_obj(st, MUX, "multiplexor")
    ts = [it.input_obj(st, k, f"transport{i}")
          for i, k in enumerate(sockets(c.prog)[:2] + sockets(c.prog)[:1])]
    todo = []
    for s, d in normal(it.instantiate(st, "snmp.dispatcher.Dispatcher",
                                      [mux], {}, TOP, None)):
        todo.append((s, d, ()))
    while todo:
        s, d, path = todo.pop()
        run, stopping, closed, regs = life.ghost(s)
        ops = [("shutdown", None)]
        if not closed and len(regs) < len(ts):
            ops.append(("connectTransport", ts[len(regs)]))
        if len(path) >= 5 or path[-2:] == ("shutdown", "shutdown"):
            continue
        for name, arg in ops:
            n0 = len(s.events)
            for s2, v in call(it, s, d, name,
                              *([arg] if arg is not None else [])):
                c.count("steps")
                p = path + (name,)
                after(c, life, s2, v, d, mux, name, arg, p,
                      s2.events[n0:])
                if not isinstance(v, Exc):
                    todo.append((s2, d, p))
    c.used(it)
    engine_shutdown(c)
    for qual in multiplexors(c.prog):
        closing(c, qual)
    c.floor("steps", 10)
    c.floor("listeners started", 3)


def after(c, life, s, v, d, mux, name, arg, path, ev):
    what = f"snmp.dispatcher.Dispatcher.{name}"
    where = ev[-1][4] if ev else ""
    for e in ev:
        if e[0] == "bad":
            c.bad("lifecycle", what, e[4], e[1][0], [" then ".join(path)])
    c.expect(not isinstance(v, Exc), "lifecycle", what + ": fails",
             v.where if isinstance(v, Exc) else where, f"{v!r}",
             [" then ".join(path)])
    if isinstance(v, Exc):
        return
    run, stopping, closed, regs = life.ghost(s)
    if name == "shutdown":
        c.expect(run is None and closed, "lifecycle", what + ": done", where,
                 "after shutting down a listener runs, or the sockets are "
                 "open", [" then ".join(path)])
        return
    started = [e for e in ev if e[0] == "thread"]
    c.count("listeners started", len(started))
    c.expect(run is not None and not stopping and len(started) == 1
             and arg in regs, "lifecycle", what + ": listens", where,
             "after adding a transport no listener is watching it",
             [" then ".join(path)])
    for e in started:
        target, given = e[1]
        items = given[1] if given[0] == "tup" else (
            s.heap[given[1]].items if given[0] == "obj" else ())
        life.inside = True
        ran = []
        for s2, r in life.it.call(s.fork(), target, list(items), {}, TOP,
                                  None):
            ran.append(not isinstance(r, Exc) and [
                x[1][1:] for x in s2.events[len(s.events):]
                if x[0] == "listening"] == [(mux, d)])
        life.inside = False
        c.expect(ran and all(ran), "lifecycle", what + ": target", e[4],
                 "the thread does not run the multiplexor's loop with this "
                 "dispatcher")


def engine_shutdown(c):
    """Leaving the engine's context shuts the dispatcher down."""
    def shut(it, st, f, args, kwargs, fr, node):
        it.event(st, "shutdown", fr, node, args[0])
        return [(st, NONE)]
    it = c.engine({c.prog.func("snmp.dispatcher.Dispatcher.shutdown").qual:
                   shut})
    st = State()
    e = it.input_obj(st, "snmp.engine.Engine", "engine")
    r = normal(it.getattr(st, e, "dispatcher", TOP, None))
    st, d = r[0]
    for name, args in (("shutdown", []), ("__exit__", [NONE, NONE, NONE]),
                       ("__exit__", [I("type"), I("value"), I("tb")])):
        for s, v in call(it, st, e, name, *args):
            n = [x for x in events(s, "shutdown") if same(s, x[1][0], d)]
            what = f"snmp.engine.Engine.{name}"
            c.expect(not isinstance(v, Exc) and len(n) == 1, "lifecycle",
                     what, "snmp/engine.py",
                     "does not shut the dispatcher down")
            if not isinstance(v, Exc) and name == "__exit__":
                c.expect(all(not t for s2, t in truths(it, s, v)),
                         "lifecycle", what + ": exceptions",
                         "snmp/engine.py",
                         "leaving the context swallows exceptions")
    c.used(it)


def truths(it, st, v):
    return it.truth(st.fork(), v)


def closing(c, qual):
    """close() closes what was opened, once."""
    net = Net(c)
    kinds = sockets(c.prog)
    what = f"{qual}.close"
    for ks in ([], kinds[:1], kinds[:2]):
        net.kinds = ks
        it = net.it
        for s0, m, socks in net.setup(qual):
            fds = {e[1][i] for e in s0.events if e[0] == "opened"
                   for i in (0, 1)}
            own = {e[1][0] for e in s0.events if e[0] == "socket"}
            for s, v in call(it, s0, m, "close"):
                ev = s.events[len(s0.events):]
                where = ev[-1][4] if ev else ""
                gone = [e[1][0] for e in ev if e[0] == "closed"]
                shut = [e[1][1] for e in ev if e[0] == "sock"
                        and e[1][0] == "close"]
                c.expect(not isinstance(v, Exc)
                         and sorted(gone) == sorted(map(const, fds))
                         and set(shut) == own, "closing", what, where,
                         "not exactly what was opened is closed")
                c.count("descriptors closed", len(gone) + len(shut))
                if isinstance(v, Exc):
                    continue
                n = len(s.events)
                for s2, v2 in call(it, s, m, "close"):
                    again = [e for e in s2.events[n:] if e[0] == "closed"]
                    c.expect(not isinstance(v2, Exc) and not again,
                             "closing", what + ": again", where,
                             "closing again fails, or closes descriptors "
                             "that may belong to something else by now")
    c.used(net.it)
