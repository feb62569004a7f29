"""The wire format: elements, numbers, object identifiers, messages. The
encoders and decoders are evaluated as they are, on symbolic octets."""

from ..scen import *
from ..models import PARSE, protocol_models, tagkey, ber_head
from ..program import AnalysisError

TAG = "snmp.ber.Tag"
SUB = "snmp.utils.subbytes"
CLASSES = ("UNIVERSAL", "APPLICATION", "CONTEXT_SPECIFIC", "PRIVATE")


def octet(t):
    return const(bytes([t[2]])) if is_const(t) else op("tobytes", t, const(1))


def octets(*terms):
    return mk_cat([octet(t) for t in terms]) if terms else const(b"")


def groups(name, n, bits, lo=0, first=None):
    """A number as n digits of that many bits, the most significant of at
    least `first`: (the number, its digits from the most significant)"""
    m = 1 << bits
    ds = [N(f"{name}{i}", (first or lo) if i == n - 1 else lo, m - 1)
          for i in range(n)]
    v = ZERO
    for i, d in enumerate(ds):
        v = add(v, scale(d, m ** i))
    return v, tuple(reversed(ds))


def plain(c, **kw):
    it = c.engine(protocol=False, join=False, **kw)
    it.unroll = 300
    it.unroll_while = 140
    it.maxsteps = 10 ** 9
    return it


def is_exc(it, v, qual):
    return isinstance(v, Exc) and it.prog.is_sub(v.cls, qual) \
        if hasattr(it.prog, "is_sub") else isinstance(v, Exc) \
        and v.cls == qual


def attr(it, st, o, name):
    r = normal(it.getattr(st, o, name, TOP, None))
    if len(r) != 1:
        raise AnalysisError(f"{name} has {len(r)} values")
    return r[0]


def cases(it, st, *conds):
    """Split a state by conditions: [(state, truth values)]"""
    out = [(st, ())]
    for a in conds:
        out = [(s2, bs + (b,)) for s, bs in out for s2, b in it.split(s, a)]
    return out


# -- elements ----------------------------------------------------------------

def tag_forms(deep):
    """[(number, class, constructed, octets)]"""
    cl, k = N("cl", 0, 3), N("k", 0, 1)
    lead = add(scale(cl, 64), scale(k, 32))
    n = N("n", 0, 30)
    out = [(n, cl, k, (add(lead, n),))]
    for g in range(1, 6 if deep else 4):
        v, ds = groups("g", g, 7)
        out.append((v, cl, k, (add(lead, const(31)),) + tuple(
            add(d, const(128)) if i < g - 1 else d
            for i, d in enumerate(ds))))
    return out


def length_forms(deep):
    """[(length, octets)]"""
    s = N("L", 0, 127)
    out = [(s, (s,))]
    for n in range(1, 9 if deep else 5):
        v, ds = groups("L", n, 8)
        out.append((v, (const(0x80 + n),) + ds))
    return out


def long_forms(deep):
    """Lengths with zeros in front: [(length, octets)]"""
    s = N("L", 0, 127)
    return [(s, (const(0x80 + n),) + (ZERO,) * (n - 1) + (s,))
            for n in (33, 65) + ((126,) if deep else ())]


def d03(c):
    c.rule("Decoding: for every tag and every definite length, the body is "
           "exactly the announced octets following the header; ParseError if "
           "there are fewer, or more and no leftovers are wanted, or the tag "
           "is not the expected one; nothing outside the given window counts; "
           "no other exception.")
    c.rule("Encoding: header and content that decode to the same tag and "
           "content; lengths and tag numbers in the fewest octets.")
    deep = c.tier == "thorough"
    it = plain(c)
    for tag in tag_forms(deep):
        for length in length_forms(deep):
            for window in ((b"", b""), (b"\x30\x81\x04", b"\x00\x00\x00")):
                for left in (False, True):
                    for copy in (True, False):
                        element(c, it, tag, length, window, left, copy)
            truncated(c, it, tag[3] + length[1])
    for length in long_forms(deep):
        element(c, it, tag_forms(deep)[0], length, (b"\x04", b"\0"), True,
                True)
    expected_tags(c, it)
    encoding(c, it, deep)
    c.used(it)
    c.floor("decoding outcomes", 200)
    c.floor("encodings", 20)


def view(it, st, window, hdr, R):
    """(state, argument, buffer, offset of the element, its end)"""
    pre, post = window
    W = mk_cat([const(pre), octets(*hdr), R, const(post)])
    lo, hi = const(len(pre)), sub(mk_len(W), const(len(post)))
    if not pre and not post:
        return st, W, W, lo, hi
    r = normal(it.instantiate(st, SUB, [W, lo, hi], {}, TOP, None))
    r = [x for x in r]
    if len(r) != 1:
        st2 = [x for x in r if x[0].holds(op("le", sub(lo, hi)))]
        r = st2 or r
    if len(r) != 1:
        raise AnalysisError(f"window: {len(r)} outcomes")
    return r[0][0], r[0][1], W, lo, hi


def bounds(it, st, v, W, a, z):
    """Whether a value is the octets a..z of W (copied or as a window)."""
    if v[0] == "obj":
        st, data = attr(it, st, v, "data")
        st, lo = attr(it, st, v, "start")
        st, hi = attr(it, st, v, "stop")
        return same(st, data, W) is True and (
            same(st, lo, a) is True and same(st, hi, z) is True
            or same(st, lo, hi) is True and same(st, a, z) is True)
    if same(st, a, z) is True:
        return same(st, mk_len(v), ZERO) is True
    return any(same(st, lo, a) is True and same(st, hi, z) is True
               for lo, hi in places(W, v))


def places(W, v):
    """Where in a buffer some octets are known to come from."""
    parts = W[2:] if W[:2] == ("op", "cat") else (W,)
    at = [ZERO]
    for p in parts:
        at.append(add(at[-1], mk_len(p)))
    for i in range(len(parts)):
        for j in range(i + 1, len(parts) + 1):
            if mk_cat(parts[i:j]) == v:
                yield at[i], at[j]
        if v[:3] == ("op", "slice", parts[i]):
            yield add(at[i], v[3]), add(at[i], v[4])
    if v[:3] == ("op", "slice", W):
        yield v[3], v[4]


def element(c, it, tag, length, window, left, copy):
    number, cl, k, toct = tag
    L, loct = length
    R = B("R")
    what = "snmp.ber.decode"
    for s0, data, W, lo, hi in [view(it, State(), window, toct + loct, R)]:
        a = add(lo, const(len(toct + loct)))
        res = it.call(s0, ("func", what), [data],
                      {"leftovers": const(left), "copy": const(copy)}, TOP,
                      None)
        for s, v in res:
            for s1, (short, longer) in cases(
                    it, s, op("lt", sub(mk_len(R), L)),
                    op("lt", sub(L, mk_len(R)))):
                c.count("decoding outcomes")
                if not short and not longer:
                    s1.merge(mk_len(R), L)
                fails = short or longer and not left
                if isinstance(v, Exc):
                    c.expect(v.cls == PARSE, "decoding", what + ": raises",
                             v.where, f"raises {v.cls}", c.trace(s1, v))
                    c.expect(fails, "decoding", what + ": rejects", v.where,
                             "a complete element is rejected",
                             c.trace(s1, v))
                    continue
                if not c.expect(not fails, "decoding", what + ": accepts",
                                "snmp/ber.py",
                                "an element with too few or too many octets "
                                "is accepted", c.trace(s1, v)):
                    continue
                parts = v[1] if v[0] == "tup" else ()
                if not c.expect(len(parts) == (3 if left else 2), "decoding",
                                what + ": result", "snmp/ber.py",
                                "the result does not have the parts "
                                "promised", c.trace(s1, v)):
                    continue
                z = add(a, L)
                c.expect(bounds(it, s1, parts[1], W, a, z)
                         and (not copy or parts[1][0] != "obj"), "decoding",
                         what + ": body", "snmp/ber.py",
                         "the body is not the octets announced",
                         c.trace(s1, v))
                if left:
                    c.expect(bounds(it, s1, parts[2], W, z, hi), "decoding",
                             what + ": leftovers", "snmp/ber.py",
                             "the leftovers are not the octets after the "
                             "element", c.trace(s1, v))
                same_tag(c, it, s1, parts[0], number, cl, k, what)


def same_tag(c, it, s, t, number, cl, k, what):
    s, n = attr(it, s, t, "number")
    s, f = attr(it, s, t, "constructed")
    s, g = attr(it, s, t, "cls")
    ok = same(s, n, number) is True
    for s2, b in it.truth(s.fork(), f, TOP, None):
        ok = ok and same(s2, k, const(1 if b else 0)) is True
    gv = const(g[3]) if g[0] == "enum" else it.num(s, g)
    ok = ok and same(s, gv, cl) is True
    c.expect(ok, "decoding", what + ": tag", "snmp/ber.py",
             "the tag is not the one encoded", c.trace(s, t))


def truncated(c, it, header):
    what = "snmp.ber.decode"
    for n in range(len(header)):
        for pre, post in ((b"", b""), (b"\x30\x05", b"\x00\x00\x81")):
            s, data, _, _, _ = view(it, State(), (pre, post), header[:n],
                                    const(b""))
            for s2, v in it.call(s, ("func", what), [data], {}, TOP, None):
                c.count("truncated headers")
                c.expect(is_parse(v), "decoding", what + ": header",
                         v.where if isinstance(v, Exc) else "snmp/ber.py",
                         "a truncated header is not rejected with "
                         "ParseError", c.trace(s2, v))


def is_parse(v):
    return isinstance(v, Exc) and v.cls == PARSE


def mk_tag(it, st, number, constructed, cl):
    g = enum_const(it, TAG + ".Class", CLASSES[cl])
    return make(it, st, TAG, number if isinstance(number, tuple) else const(number), const(constructed), g)


def expected_tags(c, it):
    what = "snmp.ber.decode"
    tags = [(2, False, 0), (4, False, 0), (2, True, 0), (2, False, 1),
            (2, False, 2), (200, False, 0), (200, True, 3)]
    for have in tags:
        for want in tags:
            s, t = mk_tag(it, State(), *want)
            n, k, g = have
            lead = const(g * 64 + k * 32 + min(n, 31))
            hdr = (lead,) if n < 31 else (
                lead, const(0x80 | n >> 7), const(n & 127))
            L = N("L", 0, 127)
            R = B("R")
            s.fact(mk_eq(mk_len(R), L))
            W = mk_cat([octets(*hdr), octet(L), R])
            for left in (False, True):
                for s2, v in it.call(s.fork(), ("func", what), [W],
                                     {"expected": t, "leftovers":
                                      const(left)}, TOP, None):
                    c.count("expected tags")
                    if have != want:
                        c.expect(is_parse(v), "decoding",
                                 what + ": expected", "snmp/ber.py",
                                 f"tag {have} is accepted where {want} is "
                                 f"expected", c.trace(s2, v))
                        continue
                    a = const(len(hdr) + 1)
                    body = v
                    if left and not isinstance(v, Exc):
                        body = v[1][0] if v[0] == "tup" else v
                    c.expect(not isinstance(v, Exc) and bounds(
                        it, s2, body, W, a, add(a, L)), "decoding",
                        what + ": expected", "snmp/ber.py",
                        f"tag {want} is not accepted as itself",
                        c.trace(s2, v))


def encoding(c, it, deep):
    what = "snmp.ber.encode"
    sizes = [(N("L", 0, 127), (N("L", 0, 127),))]
    for n in range(1, 7 if deep else 5):
        v, ds = groups("L", n, 8, first=1 if n > 1 else 128)
        sizes.append((v, (const(0x80 + n),) + ds))
    nums = [(N("n", 0, 30), None), (N("n", 31, 127), (N("n", 31, 127),))]
    for g in range(2, 6 if deep else 4):
        v, ds = groups("g", g, 7, first=1)
        nums.append((v, tuple(add(d, const(128)) if i < g - 1 else d
                              for i, d in enumerate(ds))))
    for L, loct in sizes:
        data = op("bytes.mul", const(b"\0"), L)
        for number, tail in nums:
            for cl in range(4):
                for k in (False, True):
                    g = enum_const(it, TAG + ".Class", CLASSES[cl])
                    s, t = make(it, State(), TAG, number, const(k), g)
                    lead = const(cl * 64 + k * 32)
                    hdr = (add(lead, number),) if tail is None else (
                        add(lead, const(31)),) + tail
                    want = mk_cat([octets(*hdr, *loct), data])
                    for s2, v in it.call(s, ("func", what), [t, data], {},
                                         TOP, None):
                        c.count("encodings")
                        c.expect(not isinstance(v, Exc)
                                 and same(s2, v, want) is True, "encoding",
                                 what, v.where if isinstance(v, Exc)
                                 else "snmp/ber.py",
                                 "an element is not encoded as the shortest "
                                 "header of its tag and length, and its "
                                 "content", c.trace(s2, v))


# -- numbers and object identifiers ------------------------------------------

RANGES = {
    "snmp.smi.Integer32": (-2 ** 31, 2 ** 31 - 1),
    "snmp.smi.Unsigned32": (0, 2 ** 32 - 1),
    "snmp.smi.Counter32": (0, 2 ** 32 - 1),
    "snmp.smi.Gauge32": (0, 2 ** 32 - 1),
    "snmp.smi.TimeTicks": (0, 2 ** 32 - 1),
    "snmp.smi.Counter64": (0, 2 ** 64 - 1),
}
OID = "snmp.smi.OID"
VALUE_ERROR = "builtins.ValueError"


def intervals(top=66):
    """Every integer of up to `top` bits, by sign and number of bits."""
    yield const(0), 0, 0
    yield const(-1), -1, -1
    for b in range(1, top + 1):
        lo, hi = 1 << (b - 1), (1 << b) - 1
        for x, y in ((lo, hi), (-hi - 1, -lo - 1)):
            yield (N("v", x, y) if x != y else const(x)), x, y


def signed_octets(x, y):
    """The fewest octets that hold each number of an interval."""
    ns = {((~v if v < 0 else v).bit_length()) // 8 + 1 for v in (x, y)}
    assert len(ns) == 1
    return ns.pop()


def same_class(s, v, qual):
    return v[0] == "obj" and s.obj(v).cls == frozenset([qual])


def d05(c):
    c.rule("Every value type takes exactly the values its definition allows: "
           "all others are refused with ValueError when constructed, and "
           "with ParseError when received; what is taken is kept as it is.")
    it = plain(c)
    for qual, (lo, hi) in RANGES.items():
        c.prog.cls(qual)
        for v, x, y in intervals():
            assert (x > hi or y < lo) or (lo <= x and y <= hi)
            good = lo <= x and y <= hi
            n = signed_octets(x, y)
            limits(c, it, qual, "constructed", good, v, "value", VALUE_ERROR,
                   it.instantiate(State(), qual, [v], {}, TOP, None))
            for m in (n, n + 1, n + 2, n + 8):      # sign octets in front
                data = const(x.to_bytes(m, "big", signed=True)) if x == y \
                    else op("tobytes", v, const(m), TRUE, const("big"))
                limits(c, it, qual, "received", good, v, "value", PARSE,
                       call(it, State(), ("cls", qual), "deserialize", data))
    strings(c, it)
    oids(c, it)
    addresses(c)
    c.used(it)
    c.floor("values tried", 1000)


def limits(c, it, qual, how, good, v, name, error, results):
    what = f"{qual}: {how}"
    where = "snmp/smi.py"
    if not results:
        raise AnalysisError(f"{what}: no outcome")
    for s, r in results:
        c.count("values tried")
        if isinstance(r, Exc):
            c.expect(not good and r.cls == error, "range", what,
                     r.where, f"{'a valid' if good else 'an invalid'} value "
                     f"leads to {r.cls}", c.trace(s, r))
            continue
        if not c.expect(good, "range", what, where,
                        "an invalid value is taken", c.trace(s, r)):
            continue
        s, w = attr(it, s, r, name)
        c.expect(same(s, w, v) is True and same_class(s, r, qual), "range",
                 what + ": kept", where, "the value is not kept as it is",
                 c.trace(s, w))


def strings(c, it):
    qual = "snmp.smi.OctetString"
    for how in ("constructed", "received"):
        for window in (False, True):
            for v, good in ((op("bytes.mul", const(b"\0"), N("n", 0, 65535)),
                             True),
                            (op("bytes.mul", const(b"\0"),
                                N("n", 65536, 2 ** 40)), False)):
                s, arg = State(), v
                if window:
                    W = mk_cat([const(b"\x01\x02"), v, const(b"\x03")])
                    r = [x for x in normal(it.instantiate(
                        s, SUB, [W, const(2), sub(mk_len(W), const(1))], {},
                        TOP, None))]
                    s, arg = r[0]
                f = it.instantiate(s, qual, [arg], {}, TOP, None) \
                    if how == "constructed" else call(
                        it, s, ("cls", qual), "deserialize", arg)
                limits(c, it, qual, how, good, v, "data",
                       VALUE_ERROR if how == "constructed" else PARSE, f)


def addresses(c):
    """Four octets, and text the platform takes for an address."""
    def aton(it, st, args, kwargs, fr, node):
        if args[0][:3] == ("op", "typed", "str") \
                and args[0][3][1] == "ntoa":
            return [(st, args[0][3][2])]    # text the platform made
        return it.exc(st.fork(), "builtins.OSError", fr.where(node)) + [
            (st, op("tobytes", N("addr", 0, 2 ** 32 - 1), const(4)))]

    def ntoa(it, st, args, kwargs, fr, node):
        out = []
        for s, b in it.split(st, mk_eq(mk_len(args[0]), const(4))):
            out += [(s, op("typed", "str", op("ntoa", args[0])))] if b else it.exc(
                s, "builtins.OSError", fr.where(node))
        return out
    it = c.engine(protocol=False, join=False,
                  ext={"socket.inet_aton": aton, "socket.inet_ntoa": ntoa})
    qual = "snmp.smi.IpAddress"
    n = 0
    for s, r in it.instantiate(State(), qual, [S("addr")], {}, TOP, None):
        n += 1
        c.count("values tried")
        if isinstance(r, Exc):
            c.expect(r.cls == VALUE_ERROR, "range", qual, r.where,
                     f"{r.cls} for text that is no address", c.trace(s, r))
        else:
            s, d = attr(it, s, r, "data")
            c.expect(same(s, mk_len(d), const(4)) is True, "range",
                     qual + ": octets", "snmp/smi.py",
                     "an address is not four octets", c.trace(s, d))
    D = B("D")
    for s, r in call(it, State(), ("cls", qual), "deserialize", D):
        for s2, b in it.split(s, mk_eq(mk_len(D), const(4))):
            c.count("values tried")
            if isinstance(r, Exc):
                c.expect(r.cls == PARSE, "range", qual + ": received",
                         r.where, f"{r.cls} for octets that are no address",
                         c.trace(s2, r))
            else:
                c.expect(b, "range", qual + ": received", "snmp/smi.py",
                         "other than four octets are taken",
                         c.trace(s2, r))
    c.used(it)


SUBID = 2 ** 32 - 1


def oids(c, it):
    """Up to 128 sub-identifiers of 32 bits; the first two as encodable."""
    def item(i, bad=None):
        if i == 0:
            return N("i0", 0, 2)
        if i == 1:
            return N("i1", 0, 39)
        return N(f"i{i}", 0, SUBID)
    wrong = [N("low", -2 ** 40, -1), N("high", 2 ** 32, 2 ** 40)]
    for n in (0, 1, 2, 3, 5, 127, 128, 129, 130):
        xs = [item(i) for i in range(n)]
        trial = [(xs, n <= 128)]
        spots = range(n) if n < 6 else (0, 1, 2, n // 2, n - 1)
        if n <= 128:
            for i in spots:
                bad = wrong + ([N("arc", 3, SUBID)] if i == 0 else
                               [N("arc", 40, SUBID)] if i == 1 else [])
                for b in bad:
                    ys = xs[:i] + [b] + xs[i + 1:]
                    if i == 1:          # arc 2 may have more children
                        ys[0] = N("i0", 0, 1)
                    trial.append((ys, False))
        for ys, good in trial:
            limits(c, it, OID, "constructed", good, ("tup", tuple(ys)),
                   "subidentifiers", VALUE_ERROR,
                   it.instantiate(State(), OID, ys, {}, TOP, None))
    # received sub-identifiers of more than 32 bits
    x, y = N("x", 0, 2), N("y", 0, 39)
    lead = add(scale(x, 40), y)
    for g in range(1, 8):
        v, ds = groups("g", g, 7)
        enc = tuple(add(d, const(128)) if i < g - 1 else d
                    for i, d in enumerate(ds))
        for s0, (big,) in cases(it, State(), op("lt", sub(const(SUBID), v))):
            limits(c, it, OID, "received", not big, ("tup", (x, y, v)),
                   "subidentifiers", PARSE,
                   call(it, s0, ("cls", OID), "deserialize",
                        octets(lead, *enc)))
    for n in (1, 125, 126, 127, 128):
        subs = tuple(N(f"s{i}", 0, 127) for i in range(n))
        limits(c, it, OID, "received", n <= 126, ("tup", (x, y) + subs),
               "subidentifiers", PARSE, call(
                   it, State(), ("cls", OID), "deserialize",
                   octets(lead, *subs)))


def d10(c):
    c.rule("A number is encoded as the fewest octets that hold it in two's "
           "complement, and an object identifier as the fewest octets for "
           "each sub-identifier; decoding either gives back the same value, "
           "of the same type; octets that end inside a sub-identifier are "
           "rejected.")
    it = plain(c)
    for qual, (lo, hi) in RANGES.items():
        for v, x, y in intervals():
            if x < lo or y > hi:
                continue
            n = signed_octets(x, y)
            for s, o in it.instantiate(State(), qual, [v], {}, TOP, None):
                lossless(c, it, s, o, qual, "value", v,
                         lambda s2, b: same(s2, mk_len(b), const(n)) is True)
    # object identifiers: each size of each sub-identifier
    x, y = N("x", 0, 2), N("y", 0, 39)
    lead = add(scale(x, 40), y)
    shapes = [()] + [(g,) for g in range(1, 6)] + [
        (g, h) for g in range(1, 6) for h in range(1, 6)] + [
        (g, 1, h) for g in range(1, 6) for h in range(1, 6)]
    for shape in shapes:
        subs, enc = [], [lead]
        for i, g in enumerate(shape):
            v, ds = groups(f"s{i}d", g, 7, first=1 if g > 1 else 0)
            if g == 5:              # at most 32 bits
                top = N(f"s{i}top", 1, 15)
                v = add(sub(v, scale(ds[0], 128 ** 4)),
                        scale(top, 128 ** 4))
                ds = (top,) + ds[1:]
            subs.append(v)
            enc += [add(d, const(128)) if j < g - 1 else d
                    for j, d in enumerate(ds)]
        want = octets(*enc)
        value = ("tup", (x, y) + tuple(subs))
        for s, o in it.instantiate(State(), OID, list(value[1]), {}, TOP,
                                   None):
            lossless(c, it, s, o, OID, "subidentifiers", value,
                     lambda s2, b: same(s2, b, want) is True)
    # octets that end before a sub-identifier does
    cuts = [const(b""), octets(N("c0", 128, 255)),
            octets(N("c0", 128, 255), N("c1", 128, 255))]
    for shape in shapes[:6 * 6]:
        ds = []
        for i, g in enumerate(shape):
            ds += [add(N(f"c{i}{j}", 0, 127), const(128))
                   for j in range(g - 1)]
            end = N(f"c{i}end", 0, 127)
            ds.append(add(end, const(128)) if i == len(shape) - 1 else end)
        if ds:
            cuts.append(octets(lead, *ds))
    for enc in cuts:
        for s, r in call(it, State(), ("cls", OID), "deserialize", enc):
            c.count("truncated identifiers")
            c.expect(isinstance(r, Exc) and r.cls == PARSE, "lossless",
                     f"{OID}: truncated", r.where if isinstance(r, Exc)
                     else "snmp/asn1.py", "an object identifier that ends "
                     "inside a sub-identifier is not rejected with "
                     "ParseError", c.trace(s, r))
    c.used(it)
    c.floor("values encoded", 300)
    c.floor("truncated identifiers", 20)


def lossless(c, it, s, o, qual, name, value, shape):
    where = "snmp/asn1.py"
    what = f"{qual}: encoding"
    if isinstance(o, Exc):
        c.bad("lossless", what, o.where, f"{o.cls} for a valid value",
              c.trace(s, o))
        return
    for s2, b in call(it, s, o, "serialize"):
        c.count("values encoded")
        if not c.expect(not isinstance(b, Exc), "lossless", what,
                        b.where if isinstance(b, Exc) else where,
                        f"{b!r}", c.trace(s2, b)):
            continue
        c.expect(shape(s2, b), "lossless", what + ": size", where,
                 "not the shortest encoding", c.trace(s2, b))
        for s3, r in call(it, s2, ("cls", qual), "deserialize", b):
            if isinstance(r, Exc):
                c.bad("lossless", what + ": decoding", r.where,
                      f"{r.cls} for what was encoded", c.trace(s3, r))
                continue
            s3, w = attr(it, s3, r, name)
            c.expect(same(s3, w, value) is True and same_class(s3, r, qual),
                     "lossless", what + ": decoding", where,
                     "decoding gives another value", c.trace(s3, w))


# -- messages ----------------------------------------------------------------

def layout_of(it):
    """Attribute names of a tag object, in the order its key lists them."""
    if not hasattr(it, "tag_layout"):
        s, t = mk_tag(it, State(), 2, False, 0)
        it.tag_layout = sorted(s.obj(t).attrs)
    return it.tag_layout


def element_at(it, st, data):
    """(tag key, state) of the encoded element at the start of some octets,
    if known."""
    if data[0] == "obj":
        st, W = attr(it, st, data, "data")
        st, lo = attr(it, st, data, "start")
    else:
        W, lo = data, ZERO
    W = st.canon(W)
    at = ZERO
    for x in (W[2:] if W[:2] == ("op", "cat") else (W,)):
        if at == st.canon(lo):
            return x[2] if x[:2] == ("op", "ber.head") \
                and x[2][:2] == ("op", "tag") else None
        at = add(at, mk_len(x))
    return None


def tag_object(it, st, key):
    o = Obj("inst", frozenset([TAG]))
    o.attrs = dict(zip(layout_of(it), key[2:]))
    return it.new(st, o)


def known_tag(it, st, f, args, kwargs, fr, node):
    data = args[1] if len(args) > 1 else kwargs["data"]
    key = element_at(it, st, data)
    if key is None:
        return base_models(it)["snmp.ber.Tag.decode"](
            it, st, f, args, kwargs, fr, node)
    t = tag_object(it, st, key)
    return it.seq(it.call_method(st, data, "advance", [], {}, fr, node),
                  lambda s, r: [(s, ("tup", (t, r)))])


def known_element(it, st, f, args, kwargs, fr, node):
    from ..models import bindargs
    plain_decode = base_models(it)["snmp.ber.decode"]
    b = bindargs(f, args, kwargs)
    key = element_at(it, st, b["data"])
    if b.get("expected", NONE) != NONE or key is None:
        return plain_decode(it, st, f, args, kwargs, fr, node)
    b["expected"] = t = tag_object(it, st, key)
    out = []
    for s, v in plain_decode(it, st, f, [], b, fr, node):
        if not isinstance(v, Exc):
            v = ("tup", (t,) + (v[1] if v[0] == "tup" else (v,)))
        out.append((s, v))
    return out


def base_models(it):
    if not hasattr(it, "base_models"):
        it.base_models = protocol_models(it.prog)
    return it.base_models


def numbers_models(prog):
    """Numbers and object identifiers by contract (see the rules about
    them): their octets stand for the value, and nothing else."""
    from ..models import overrides
    out = {}

    def put(kind, name):
        def f(it, st, fn, args, kwargs, fr, node):
            return it.seq(it.getattr(st, args[0], name, fr, node),
                          lambda s, v: [(s, op("typed", "bytes", op(
                              kind, plain_int(s.canon(v)))))])
        return f

    def take(kind, many):
        def f(it, st, fn, args, kwargs, fr, node):
            data = args[1] if len(args) > 1 else kwargs.get("data")

            def go(s, d):
                d = s.canon(d)
                if d[:3] != ("op", "typed", "bytes") or d[3][1] != kind:
                    return it.exc(s, PARSE, fr.where(node))
                v = d[3][2]
                return it.call_method(s, args[0], "construct",
                                      list(v[1]) if many else [v], {}, fr,
                                      node)
            if data is not None and data[0] == "obj":
                return it.seq(it.getitem(st, data, (
                    "slice", NONE, NONE, NONE), fr, node), go)
            return go(st, data)
        return f
    for base, kind, name, many in (
            ("snmp.asn1.INTEGER", "int.octets", "value", False),
            ("snmp.asn1.OBJECT_IDENTIFIER", "oid.octets", "subidentifiers",
             True)):
        for q in overrides(prog, base, "serialize"):
            out[q] = put(kind, name)
        for q in overrides(prog, base, "deserialize"):
            out[q] = take(kind, many)
    return out


def message_engine(c):
    o = {"snmp.ber.encode": protocol_models(c.prog)["snmp.ber.encode"],
         "snmp.ber.decode": known_element, "snmp.ber.Tag.decode": known_tag}
    o.update(numbers_models(c.prog))
    it = c.engine(o, protocol=False, join=False)
    it.unroll = 40
    it.unroll_while = 12
    it.nesting = 12
    it.maxsteps = 10 ** 9
    return it


class Layout:
    """What RFC 3416, 1901 and 3412 put on the wire, for the same values."""

    def __init__(self, it):
        self.it = it

    def tlv(self, tag, body):
        n, k, cl = tag
        vals = {}
        s, t = mk_tag(self.it, State(), n, k, cl)
        return mk_cat([ber_head(self.it, tagkey(self.it, s, t), body), body])

    def int(self, v, tag=(2, False, 0)):
        return self.tlv(tag, op("typed", "bytes", op("int.octets", v)))

    def oid(self, *subs):
        return self.tlv((6, False, 0), op("typed", "bytes", op(
            "oid.octets", ("tup", subs))))

    def octets(self, v, tag=(4, False, 0)):
        return self.tlv(tag, v)

    def null(self, tag=(5, False, 0)):
        return self.tlv(tag, const(b""))

    def seq(self, *parts, tag=(16, True, 0)):
        return self.tlv(tag, mk_cat(list(parts)) if parts else const(b""))

    def value(self, kind, i):
        """(class, constructor arguments, octets, attribute, its value)"""
        v, b = N(f"value{i}", 0, 2 ** 31 - 1), B(f"octets{i}")
        app = {"Counter32": 1, "Gauge32": 2, "TimeTicks": 3, "Counter64": 6}
        ctx = {"NoSuchObject": 0, "NoSuchInstance": 1, "EndOfMibView": 2}
        if kind in app:
            return ("snmp.smi." + kind, [v],
                    self.int(v, (app[kind], False, 1)), "value", v)
        if kind in ctx:
            return ("snmp.pdu." + kind, [],
                    self.null((ctx[kind], False, 2)), None, None)
        if kind == "Integer32":
            return "snmp.smi.Integer32", [v], self.int(v), "value", v
        if kind == "OctetString":
            return "snmp.smi.OctetString", [b], self.octets(b), "data", b
        if kind == "Opaque":
            return ("snmp.smi.Opaque", [b], self.octets(b, (4, False, 1)),
                    "data", b)
        if kind == "Null":
            return "snmp.asn1.NULL", [], self.null(), None, None
        if kind == "OID":
            subs = (const(1), const(3), N(f"sub{i}", 0, SUBID))
            return OID, list(subs), self.oid(*subs), "subidentifiers", \
                ("tup", subs)
        if kind == "IpAddress":
            a = op("tobytes", N("addr", 0, 2 ** 32 - 1), const(4))
            return ("snmp.smi.IpAddress", [S(f"addr{i}")],
                    self.octets(a, (0, False, 1)), "data", a)
        raise KeyError(kind)


VALUES = ("Integer32", "OctetString", "Null", "OID", "IpAddress",
          "Counter32", "Gauge32", "TimeTicks", "Opaque", "Counter64",
          "NoSuchObject", "NoSuchInstance", "EndOfMibView")
PDUS = {"GetRequestPDU": 0, "GetNextRequestPDU": 1, "ResponsePDU": 2,
        "SetRequestPDU": 3, "GetBulkRequestPDU": 5, "InformRequestPDU": 6,
        "SNMPv2TrapPDU": 7, "ReportPDU": 8}
VERSION_PDUS = {"SNMPv1": (0, 1, 2, 3), "SNMPv2c": (0, 1, 2, 3, 5, 6, 7, 8),
                "SNMPv3": (0, 1, 2, 3, 5, 6, 7, 8)}


STATUS = ("noError", "tooBig", "noSuchName", "badValue", "readOnly", "genErr",
          "noAccess", "wrongType", "wrongLength", "wrongEncoding",
          "wrongValue", "noCreation", "inconsistentValue",
          "resourceUnavailable", "commitFailed", "undoFailed",
          "authorizationError", "notWritable", "inconsistentName")


def small_ok(st, *terms):
    """Octet strings of at most 65535 octets (longer ones are refused)."""
    for t in terms:
        st.fact(op("le", sub(mk_len(t), const(65535))))
    return st


def varbinds(it, w, st, kinds):
    """(state, VarBindList arguments, octets, expectations)"""
    args, parts, want = [], [], []
    for i, k in enumerate(kinds):
        qual, xs, enc, name, v = w.value(k, i)
        small_ok(st, B(f"octets{i}"))
        subs = (const(1), const(3), const(6), N(f"name{i}", 0, SUBID))
        st, n = make(it, st, OID, *subs)
        st, val = make(it, st, qual, *xs)
        st, vb = make(it, st, "snmp.pdu.VarBind", n, val)
        args.append(vb)
        parts.append(w.seq(w.oid(*subs), enc))
        want.append((("tup", subs), qual, name, v))
    return st, args, w.seq(*parts), want


def pdu_of(it, w, st, name, kinds, fields=None):
    """(state, PDU, octets, expectations)"""
    st, args, vbl, want = varbinds(it, w, st, kinds)
    rid = N("requestID", -2 ** 31, 2 ** 31 - 1)
    if name == "GetBulkRequestPDU":
        f = {"nonRepeaters": N("nonRepeaters", 0, 2 ** 31 - 1),
             "maxRepetitions": N("maxRepetitions", 0, 2 ** 31 - 1)}
    else:
        st, none = one(it.global_(st, "snmp.pdu", "ErrorStatus", TOP, None))
        f = {"errorStatus": enum_const(it, "snmp.pdu.ErrorStatus",
                                       "noError"),
             "errorIndex": ZERO}
    f.update(fields or {})
    f["requestID"] = rid
    res = normal(it.instantiate(st, "snmp.pdu." + name, args, f, TOP, None))
    st, p = one(res)
    order = ("nonRepeaters", "maxRepetitions") \
        if name == "GetBulkRequestPDU" else ("errorStatus", "errorIndex")
    body = [w.int(rid)] + [w.int(plain_int(f[n])) for n in order]
    enc = w.seq(*body, vbl, tag=(PDUS[name], True, 2))
    return st, p, enc, dict(f, variableBindings=want, cls="snmp.pdu." + name)


def plain_int(v):
    return const(v[3]) if v[0] == "enum" else v


def one(res):
    if len(res) != 1:
        raise AnalysisError(f"{len(res)} outcomes of a construction")
    return res[0]


class Trip:
    """Encode, compare with the layout, decode, compare the fields."""

    def __init__(self, c, it, what, where):
        self.c, self.it, self.what, self.where = c, it, what, where

    def expect(self, ok, part, message, s, v):
        return self.c.expect(ok, "round trip", f"{self.what}: {part}",
                             v.where if isinstance(v, Exc) else self.where,
                             message, self.c.trace(s, v))

    def run(self, st, obj, enc, check, decode):
        for s, b in call(self.it, st, obj, "encode"):
            self.c.count("messages encoded")
            if not self.expect(not isinstance(b, Exc), "encoding",
                               "cannot be encoded", s, b):
                continue
            self.expect(same(s, b, enc) is True, "layout",
                        "the octets are not those of the definition", s, b)
            for s2, r in decode(s, b):
                self.c.count("messages decoded")
                if self.expect(not isinstance(r, Exc), "decoding",
                               "what was encoded is rejected", s2, r):
                    check(self, s2, r)

    def fields(self, s, o, want):
        """Compare attributes; a list of expectations is a list of
        bindings."""
        for name, v in want.items():
            if name == "cls":
                self.expect(same_class(s, o, v), "class",
                            f"decoded as another class", s, o)
                continue
            s, x = attr(self.it, s, o, name)
            if isinstance(v, list):
                self.bindings(s, x, v)
            elif isinstance(v, dict):
                self.fields(s, x, v)
            elif name == "securityLevel":
                self.level(s, x, v)
            else:
                x = plain_int(x) if x[0] in ("enum", "c") else x
                v = plain_int(v) if v[0] == "enum" else v
                if x[0] == "obj" and s.obj(x).kind == "inst":
                    s, x = attr(self.it, s, x, "data")
                self.expect(same(s, x, v) is True, name,
                            "a field is decoded to another value", s, x)

    def level(self, s, x, v):
        for n in ("auth", "priv"):
            s, y = attr(self.it, s, x, n)
            for s2, b in self.it.truth(s.fork(), y, TOP, None):
                self.expect(b == (v in LEVELS[1:] if n == "auth"
                                  else v == LEVELS[2]), "securityLevel",
                            "the security level is decoded to another", s2,
                            y)

    def bindings(self, s, x, want):
        s, n = one(normal(self.it.call_ext(s.fork(), "builtins.len", [x],
                                           {}, TOP, None)))
        if not self.expect(same(s, n, const(len(want))) is True, "bindings",
                           "another number of variable bindings", s, x):
            return
        for i, (subs, qual, name, v) in enumerate(want):
            s, vb = one(normal(self.it.getitem(s, x, const(i), TOP, None)))
            s, oid = attr(self.it, s, vb, "name")
            s, have = attr(self.it, s, oid, "subidentifiers")
            self.expect(same(s, have, subs) is True, "name",
                        "a variable's name is decoded to another", s, have)
            s, val = attr(self.it, s, vb, "value")
            if self.expect(same_class(s, val, qual), "value class",
                           "a value is decoded as another type", s, val) \
                    and name is not None:
                s, y = attr(self.it, s, val, name)
                self.expect(same(s, y, v) is True, "value",
                            "a value is decoded to another", s, y)


def pdu_types(it, st, module):
    return one(it.global_(st, module, "pduTypes", TOP, None))


def d04(c):
    c.rule("Layout: each message is encoded as the sequence of fields the "
           "protocol defines, with its tags, for all values of the fields.")
    c.rule("Round trip: decoding what was encoded gives a message of the "
           "same class with equal fields.")
    it = message_engine(c)
    it.extmodels.update(inet(c))
    w = Layout(it)
    lists = [(), ("Integer32",), ("Null", "OctetString"),
             ("OID", "Counter64", "Integer32")] + [(k,) for k in VALUES]
    # PDUs by themselves
    for name in PDUS:
        for kinds in lists:
            st, p, enc, want = pdu_of(it, w, State(), name, kinds)
            q = "snmp.pdu." + name
            Trip(c, it, q, "snmp/pdu.py").run(
                st, p, enc, lambda t, s, r, want=want: t.fields(s, r, want),
                lambda s, b, q=q: call(it, s, ("cls", q), "decode", b))
    for number, status in enumerate(STATUS):
        m = enum_const(it, "snmp.pdu.ErrorStatus", status)
        c.expect(m[3] == number, "layout", f"ErrorStatus.{status}",
                 "snmp/pdu.py", f"the status {status} is sent as {m[3]}, "
                 f"not {number}")
        for n, i in ((0, 0), (2, 0), (2, 1), (2, 2)):
            st, p, enc, want = pdu_of(
                it, w, State(), "ResponsePDU", ("Null",) * n,
                {"errorStatus": m, "errorIndex": const(i)})
            q = "snmp.pdu.ResponsePDU"
            Trip(c, it, q, "snmp/pdu.py").run(
                st, p, enc, lambda t, s, r, want=want: t.fields(s, r, want),
                lambda s, b, q=q: call(it, s, ("cls", q), "decode", b))
    community_messages(c, it, w)
    v3_messages(c, it, w)
    usm_parameters(c, it, w)
    c.used(it)
    c.floor("messages decoded", 200)


def inet(c):
    def aton(it, st, args, kwargs, fr, node):
        if args[0][:3] == ("op", "typed", "str") \
                and args[0][3][1] == "ntoa":
            return [(st, args[0][3][2])]
        return [(st, op("tobytes", N("addr", 0, 2 ** 32 - 1), const(4)))]

    def ntoa(it, st, args, kwargs, fr, node):
        return [(st, op("typed", "str", op("ntoa", args[0])))]
    return {"socket.inet_aton": aton, "socket.inet_ntoa": ntoa}


def community_messages(c, it, w):
    q = "snmp.message.Message"
    q = c.prog.cls("snmp.message.core.Message").qual
    for ver, mod in (("SNMPv1", "snmp.message.v1"),
                     ("SNMPv2c", "snmp.message.v2c")):
        for name, tag in PDUS.items():
            if tag not in VERSION_PDUS[ver]:
                continue
            st, p, enc, want = pdu_of(it, w, State(), name,
                                      ("Integer32", "Null"))
            st = small_ok(st, B("community"))
            v = enum_const(it, "snmp.message.version.ProtocolVersion", ver)
            st, msg = make(it, st, q, v, B("community"), p)
            whole = w.seq(w.int(plain_int(v)), w.octets(B("community")), enc)

            def decode(s, b):
                s, types = pdu_types(it, s, mod)
                return it.call_method(s, ("cls", q), "decode", [b],
                                      {"types": types}, TOP, None)

            def check(t, s, r, want=want, v=v):
                t.fields(s, r, {"cls": q, "version": v, "community":
                                B("community"), "pdu": want})
            Trip(c, it, f"{q}({ver})", "snmp/message/core.py").run(
                st, msg, whole, check, decode)
            version_only(c, it, st, msg, v)


def version_only(c, it, st, msg, v):
    q = "snmp.message.version.VersionOnlyMessage"
    for s, b in normal(call(it, st, msg, "encode")):
        for s2, r in call(it, s, ("cls", q), "decode", b):
            t = Trip(c, it, q, "snmp/message/version.py")
            if t.expect(not isinstance(r, Exc), "decoding",
                        "a message of this version is rejected", s2, r):
                t.fields(s2, r, {"version": v})


def v3_messages(c, it, w):
    q = "snmp.message.v3.SNMPv3Message"
    usm = enum_const(it, "snmp.security.models.SecurityModel", "USM")
    v = enum_const(it, "snmp.message.version.ProtocolVersion", "SNMPv3")
    for lname in LEVELS:
        for rep in (False, True):
            for name in PDUS:
                st = State()
                st, p, enc, want = pdu_of(it, w, st, name, ("Integer32",))
                small_ok(st, B("engine"), B("context"), B("params"),
                         B("secret"))
                st, lv = level_const(it, st, lname)
                st, flags = make(it, st, "snmp.message.v3.MessageFlags", lv,
                                 const(rep))
                mid, size = N("msgID"), N("size", 484)
                st, header = make(it, st, "snmp.message.v3.HeaderData", mid,
                                  size, flags, usm)
                st, params = make(it, st, "snmp.smi.OctetString",
                                  B("params"))
                st, scoped = make(it, st, "snmp.message.v3.ScopedPDU", p,
                                  B("engine"), B("context"))
                st, secret = make(it, st, "snmp.smi.OctetString",
                                  B("secret"))
                kw = {"securityParameters": params}
                priv = lname == LEVELS[2]
                kw["encryptedPDU" if priv else "scopedPDU"] = \
                    secret if priv else scoped
                st, msg = one(normal(it.instantiate(
                    st, q, [header], kw, TOP, None)))
                bits = (1 if lname != LEVELS[0] else 0) | (
                    2 if priv else 0) | (4 if rep else 0)
                plain_text = w.seq(w.octets(B("engine")),
                                   w.octets(B("context")), enc)
                whole = w.seq(
                    w.int(const(3)),
                    w.seq(w.int(mid), w.int(size),
                          w.octets(const(bytes([bits]))), w.int(const(3))),
                    w.octets(B("params")),
                    w.octets(B("secret")) if priv else plain_text)
                inner = {"contextEngineID": B("engine"), "contextName":
                         B("context"), "pdu": want}
                head = {"id": mid, "maxSize": size, "securityModel":
                        const(3), "flags": {"securityLevel": lname,
                                            "reportableFlag": const(rep)}}
                full = {"cls": q, "header": head, "securityParameters":
                        B("params")}
                full["encryptedPDU" if priv else "scopedPDU"] = \
                    B("secret") if priv else inner
                Trip(c, it, f"{q}({lname})", "snmp/message/v3.py").run(
                    st, msg, whole,
                    lambda t, s, r: t.fields(s, r, full),
                    lambda s, b: call(it, s, ("cls", q), "decode", b))
                version_only(c, it, st, msg, v)
                if priv:
                    plaintext(c, it, st, msg, scoped, plain_text, inner)
                elif not rep:
                    found_params(c, it, st, msg)


def plaintext(c, it, st, msg, scoped, enc, inner):
    """What is encrypted, and what decrypting gives."""
    t = Trip(c, it, "snmp.message.v3.SNMPv3Message.plaintext",
             "snmp/message/v3.py")
    s, _ = one(normal(it.setattr(st.fork(), msg, "scopedPDU", scoped, TOP,
                                 None)))
    for s2, b in it.getattr(s, msg, "plaintext", TOP, None):
        if not t.expect(not isinstance(b, Exc) and same(s2, b, enc) is True,
                        "layout", "the octets are not those of the "
                        "definition", s2, b):
            continue
        for pad in (const(b""), B("padding")):
            for s3, r in it.setattr(s2.fork(), msg, "plaintext",
                                    mk_cat([b, pad]), TOP, None):
                if t.expect(not isinstance(r, Exc), "decoding",
                            "what was encoded is rejected", s3, r):
                    t.fields(s3, msg, {"scopedPDU": inner})


def found_params(c, it, st, msg):
    t = Trip(c, it, "snmp.message.v3.SNMPv3Message.findSecurityParameters",
             "snmp/message/v3.py")
    for s, b in normal(call(it, st, msg, "encode")):
        for s2, r in call(it, s, msg, "findSecurityParameters", b):
            if not t.expect(not isinstance(r, Exc), "found",
                            "the security parameters are not found", s2, r):
                continue
            s2, lo = attr(it, s2, r, "start")
            s2, hi = attr(it, s2, r, "stop")
            s2, W = attr(it, s2, r, "data")
            t.expect(same(s2, W, b) is True and any(
                same(s2, lo, a) is True and same(s2, hi, z) is True
                for a, z in places(s2.canon(b), B("params"))), "found",
                "other octets are taken for the security parameters", s2, r)


def usm_parameters(c, it, w):
    q = "snmp.security.usm.parameters.UsmSecurityParameters"
    f = {"engineID": B("engine"), "engineBoots": N("boots"), "engineTime":
         N("time"), "userName": B("user"), "signature": B("mac"), "salt":
         B("salt")}
    st = small_ok(State(), *[x for x in f.values() if tyof(x) == "bytes"])
    st, p = make(it, st, q, *f.values())
    enc = w.seq(*[w.octets(x) if tyof(x) == "bytes" else w.int(x)
                  for x in f.values()])
    t = Trip(c, it, q, "snmp/security/usm/parameters.py")

    def check(t, s, r):
        t.fields(s, r, dict(f, cls=q))
        # where the signature is within the message
        s, whole = attr(it, s, r, "wholeMsg")
        s, i = attr(it, s, r, "signatureIndex")
        t.expect(same(s, whole, enc) is True and any(
            same(s, i, a) is True for a, z in places(s.canon(enc),
                                                     B("mac"))),
            "signature's place", "the place of the signature is wrong", s, r)
    t.run(st, p, enc, check,
          lambda s, b: call(it, s, ("cls", q), "decode", b))
