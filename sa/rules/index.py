"""Table indexes: values in object identifiers and back."""

from itertools import product

from ..scen import *
from .codec import (attr, octets, same_class, cases, OID, SUBID, VALUE_ERROR)
from ..program import AnalysisError

INDEX_ERROR = "snmp.asn1.OBJECT_IDENTIFIER.IndexDecodeError"
PREFIX_ERROR = "snmp.asn1.OBJECT_IDENTIFIER.BadPrefix"

NUMBERS = {"snmp.smi.Integer32": 2 ** 31 - 1, "snmp.smi.Unsigned32": SUBID,
           "snmp.smi.Counter32": SUBID, "snmp.smi.Gauge32": SUBID,
           "snmp.smi.TimeTicks": SUBID, "snmp.smi.Counter64": SUBID,
           "snmp.asn1.INTEGER": SUBID}
STRINGS = ("snmp.smi.OctetString", "snmp.smi.Opaque",
           "snmp.asn1.OCTET_STRING")
IDENTIFIERS = (OID, "snmp.asn1.OBJECT_IDENTIFIER")
IP = "snmp.smi.IpAddress"
NULL = "snmp.asn1.NULL"
ALL = tuple(NUMBERS) + STRINGS + IDENTIFIERS + (IP, NULL)
MAIN = ("snmp.smi.Integer32", "snmp.smi.Unsigned32", "snmp.smi.OctetString",
        OID, IP, NULL)


def platform(it):
    """inet_aton and inet_ntoa: each the inverse of the other on four
    octets."""
    def aton(it, st, args, kwargs, fr, node):
        a = st.canon(args[0])
        if a[:3] == ("op", "typed", "str") and a[3][1] == "ntoa":
            return [(st, a[3][2])]
        return it.exc(st.fork(), "builtins.OSError", fr.where(node)) + [
            (st, op("tobytes", N("addr", 0, 2 ** 32 - 1), const(4)))]

    def ntoa(it, st, args, kwargs, fr, node):
        out = []
        for s, b in it.split(st, mk_eq(mk_len(args[0]), const(4))):
            out += [(s, op("typed", "str", op("ntoa", s.canon(args[0]))))] \
                if b else it.exc(s, "builtins.OSError", fr.where(node))
        return out
    return {"socket.inet_aton": aton, "socket.inet_ntoa": ntoa}


def index_engine(c):
    it = c.engine(protocol=False, join=False, ext=platform(c))
    it.unroll = 40
    it.unroll_while = 40
    it.maxsteps = 10 ** 9
    return it


PREFIX = (1, 3, 6, 1)


def prefix_of(it, st, n=4):
    return make(it, st, OID, *[const(x) for x in PREFIX[:n]])


def escapes(r):
    return not isinstance(r, Exc) or r.cls in (INDEX_ERROR, PREFIX_ERROR)


def classes(it, types):
    return [("cls", t) for t in types]


def d02(c):
    c.rule("Decoding the index of any object identifier, for any prefix and "
           "any list of types, gives one value of each type, or raises "
           "BadPrefix (exactly if the identifier does not begin with the "
           "prefix) or IndexDecodeError; never another exception.")
    it = index_engine(c)
    deep = c.tier == "thorough"
    top = 9 if deep else 6
    lists = [(t,) for t in ALL] + list(product(MAIN, MAIN)) + [()]
    if deep:
        lists += list(product(MAIN, MAIN, MAIN))
    for types in lists:
        for implied in (False, True):
            for n in range(top + 1 if len(types) < 3 else 7):
                xs = [const(x) for x in PREFIX] + [
                    N(f"x{i}", 0, SUBID) for i in range(n)]
                st, o = make(it, State(), OID, *xs)
                st, p = prefix_of(it, st)
                decoded(c, it, types, it.call_method(
                    st, o, "decodeIndex", [p] + classes(it, types),
                    {"implied": const(implied)}, TOP, None), p, xs, implied)
    prefixes(c, it)
    for t in ALL:               # the short form
        for implied in (False, True):
            for n in range(4):
                st, o = make(it, State(), OID, *[const(x) for x in PREFIX],
                             *[N(f"x{i}", 0, SUBID) for i in range(n)])
                st, p = prefix_of(it, st)
                for s, r in it.call_method(st, o, "getIndex",
                                           [p, ("cls", t)],
                                           {"implied": const(implied)}, TOP,
                                           None):
                    c.count("outcomes")
                    c.expect(escapes(r), "errors", f"{t}: getIndex",
                             r.where if isinstance(r, Exc) else
                             "snmp/smi.py", f"raises {r!r}", c.trace(s, r))
                    if not isinstance(r, Exc):
                        c.expect(same_class(s, r, t), "values",
                                 f"{t}: getIndex", "snmp/smi.py",
                                 "not a value of the type", c.trace(s, r))
    c.used(it)
    c.floor("outcomes", 1000)


def decoded(c, it, types, results, p, xs, implied):
    names = ", ".join(t.split(".")[-1] for t in types)
    for s, r in results:
        c.count("outcomes")
        if isinstance(r, Exc):
            c.expect(r.cls == INDEX_ERROR, "errors", f"decodeIndex({names})",
                     r.where, f"raises {r.cls}", c.trace(s, r))
            continue
        ok = r[0] == "tup" and len(r[1]) == len(types) and all(
            same_class(s, v, t) for v, t in zip(r[1], types))
        c.expect(ok, "values", f"decodeIndex({names})", "snmp/asn1.py",
                 "not one value of each type", c.trace(s, r))
        if not ok or len(types) > 1:
            continue
        for s2, back in it.call_method(s, p, "withIndex", list(r[1]),
                                       {"implied": const(implied)}, TOP,
                                       None):
            c.count("values put back")
            if not isinstance(back, Exc):
                s2, back = attr(it, s2, back, "subidentifiers")
            c.expect(not isinstance(back, Exc) and same(
                s2, back, ("tup", tuple(xs))) is True, "identity",
                f"decodeIndex({names})", "snmp/asn1.py", "the values are not "
                "those of the identifier: it comes out as " + repr(back)[:80],
                c.trace(s2, back))


def prefixes(c, it):
    """Any identifier against any prefix, by whether they agree."""
    for n in range(1, 5):
        for m in range(1, 5):
            xs = [N("x0", 0, 2), N("x1", 0, 39)][:n] + [
                N(f"x{i}", 0, SUBID) for i in range(2, n)]
            ps = [N("p0", 0, 2), N("p1", 0, 39)][:m] + [
                N(f"p{i}", 0, SUBID) for i in range(2, m)]
            st, o = make(it, State(), OID, *xs)
            st, p = make(it, st, OID, *ps)
            conds = [mk_eq(x, y) for x, y in zip(xs, ps)]
            for s, bs in cases(it, st, *conds):
                match = m <= n and all(bs)
                for s2, r in it.call_method(s, o, "decodeIndex", [p], {}, TOP,
                                            None):
                    c.count("outcomes")
                    want = None if match and n == m else \
                        INDEX_ERROR if match else PREFIX_ERROR
                    c.expect(want == (r.cls if isinstance(r, Exc) else None),
                             "prefix", "decodeIndex", r.where if isinstance(
                                 r, Exc) else "snmp/asn1.py",
                             f"{r!r} where {want or 'a result'} is due",
                             c.trace(s2, r))
                    if want is None and not isinstance(r, Exc):
                        c.expect(r == ("tup", ()), "prefix", "decodeIndex",
                                 "snmp/asn1.py", "values for no types",
                                 c.trace(s2, r))


# -- both ways ---------------------------------------------------------------

def samples(t, tag, deep):
    """[(constructor arguments, sub-identifiers, of them when the length is
    implied, attribute, value)]"""
    if t in NUMBERS:
        v = N(f"v{tag}", 0, NUMBERS[t])
        return [([v], (v,), (v,), "value", v)]
    if t == NULL:
        return [([], (), (), None, None)]
    if t == IP:
        ds = tuple(N(f"a{tag}{i}", 0, 255) for i in range(4))
        b = octets(*ds)
        text = op("typed", "str", op("ntoa", b))
        return [([text], ds, ds, "data", b)]
    out = []
    for n in range(6 if deep else 4):
        if t in STRINGS:
            ds = tuple(N(f"b{tag}{i}", 0, 255) for i in range(n))
            b = octets(*ds)
            out.append(([b], (const(n),) + ds, ds, "data", b))
        else:
            ds = tuple([N(f"o{tag}0", 0, 2), N(f"o{tag}1", 0, 39)][:n] + [
                N(f"o{tag}{i}", 0, SUBID) for i in range(2, n)])
            out.append((list(ds), (const(n),) + ds, ds, "subidentifiers",
                        ("tup", ds)))
    return out


def d06(c):
    c.rule("An identifier with an index is the identifier followed by the "
           "values in the form of the SMI: a number itself, an address its "
           "four octets, a string or identifier its length and elements, "
           "the last of them without the length if that is implied.")
    c.rule("Decoding that index with the types of the values gives the same "
           "values.")
    it = index_engine(c)
    deep = c.tier == "thorough"
    lists = [(t,) for t in ALL] + list(product(MAIN, MAIN))
    if deep:
        lists += list(product(MAIN[1:5], repeat=3))
    it.unroll = it.unroll_while = 160
    for t in STRINGS + IDENTIFIERS:
        for n in (63, 64, 100, 118):
            long_one(c, it, t, n)
    it.unroll = it.unroll_while = 40
    for types in lists:
        for vals in product(*[samples(t, i, deep and len(types) < 3)
                              for i, t in enumerate(types)]):
            for implied in (False, True):
                both_ways(c, it, types, vals, implied)
    c.used(it)
    c.floor("indexes", 300)


def long_one(c, it, t, n):
    """A long value; the rest of what an identifier can hold."""
    ds = tuple(const(i * 37 % 40) for i in range(n))
    ds = (const(1),) + ds[1:]
    val = ([octets(*ds)], (const(n),) + ds, ds, "data", octets(*ds)) \
        if t in STRINGS else (list(ds), (const(n),) + ds, ds,
                              "subidentifiers", ("tup", ds))
    for implied in (False, True):
        both_ways(c, it, (t,), (val,), implied)


def both_ways(c, it, types, vals, implied):
    names = ", ".join(t.split(".")[-1] for t in types)
    what = f"index ({names}){' implied' if implied else ''}"
    st, p = prefix_of(it, State())
    objs, want = [], [const(x) for x in PREFIX]
    for i, (t, v) in enumerate(zip(types, vals)):
        st, o = make(it, st, t, *v[0])
        objs.append(o)
        want += v[2 if implied and i == len(types) - 1 else 1]
    for s, r in it.call_method(st, p, "withIndex", objs,
                               {"implied": const(implied)}, TOP, None):
        c.count("indexes")
        if isinstance(r, Exc):
            c.bad("index", what, r.where, f"raises {r.cls}", c.trace(s, r))
            continue
        s, subs = attr(it, s, r, "subidentifiers")
        if not c.expect(same_class(s, r, OID) and same(
                s, subs, ("tup", tuple(want))) is True, "index", what,
                "snmp/asn1.py", "not the sub-identifiers the SMI prescribes",
                c.trace(s, subs)):
            continue
        for s2, back in it.call_method(
                s, r, "decodeIndex", [p] + classes(it, types),
                {"implied": const(implied)}, TOP, None):
            c.count("indexes decoded")
            if isinstance(back, Exc):
                c.bad("both ways", what, back.where, f"{back.cls} for an "
                      "index made from values of these types",
                      c.trace(s2, back))
                continue
            ok = back[0] == "tup" and len(back[1]) == len(types)
            for t, v, x in zip(types, vals, back[1] if ok else ()):
                ok = ok and same_class(s2, x, t)
                if ok and v[3] is not None:
                    s2, y = attr(it, s2, x, v[3])
                    ok = same(s2, y, v[4]) is True
            c.expect(ok, "both ways", what, "snmp/asn1.py",
                     "the values decoded are not those encoded",
                     c.trace(s2, back))
