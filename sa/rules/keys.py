"""Keys, credentials and the user registry."""

from ..framework import *
from ..scen import *
from .usm import AUTH, REG, split
from .privacy import backends, cipher_libs, ALGS, KEYLEN

SIZES = {"HmacMd5": ("md5", 12), "HmacSha": ("sha1", 12),
         "HmacSha224": ("sha224", 16), "HmacSha256": ("sha256", 24),
         "HmacSha384": ("sha384", 32), "HmacSha512": ("sha512", 48)}
CRED = "snmp.security.usm.credentials.Credentials"
WHERE = "snmp/security/usm/auth.py"


def auth_classes(c):
    out = []
    for k in c.prog.subclasses[c.prog.cls(AUTH).qual]:
        n = k.qual.split(".")[-1]
        if n in SIZES:
            out.append((k.qual, n))
    return sorted(out)


def static(it, st, cls, name, *args):
    return it.seq(it.getattr(st.fork(), ("cls", cls), name, TOP, None),
                  lambda s, f: it.call(s, f, list(args), {}, TOP, None))


def digest(alg, *parts):
    return op("hash.digest", mk_cat(list(parts)), ("ext", "hashlib." + alg))


def password_key(st, t, alg, secret):
    """Whether t is the hash of the first 2^20 octets of the secret repeated:
    True, False or None (not understood)."""
    if t[:2] != ("op", "hash.digest"):
        return None
    if t[3] != ("ext", "hashlib." + alg):
        return False
    d = st.canon(t[2])
    n = const(1 << 20)
    size = st.canon(mk_len(secret))
    parts = list(d[2:]) if d[:2] == ("op", "cat") else [d]
    if any("'loop'" in skey(x) for x in parts):
        return None
    if len(parts) == 1 and parts[0][:2] == ("op", "slice") \
            and parts[0][2][:2] == ("op", "bytes.mul") \
            and parts[0][2][2] == secret:
        return parts[0][3] == ZERO and parts[0][4] == n
    if parts[0][:2] != ("op", "bytes.mul") or parts[0][2] != secret:
        return False
    if st.canon(parts[0][3]) != op("//", n, size):
        return False
    rest = parts[1:]
    return len(rest) == 1 and rest[0] == op(
        "slice", secret, ZERO, op("%", n, size))


def u07(c):
    c.rule("For every authentication class and arbitrary key, secret, engine "
           "ID and data: sign() is HMAC with the class's hash truncated to "
           "its length (12, 12, 16, 24, 32, 48), the blank digest is that "
           "many zero octets, computeKey() hashes exactly the first 2^20 "
           "octets of the repeated secret, localizeKey() hashes key, engine "
           "ID, key. Credentials for every combination of protocols and "
           "secrets, localized: the authentication key comes from the "
           "authentication secret, the privacy key from the privacy secret, "
           "each falling back to the common one, both through the hash of "
           "the authentication protocol.")
    cs = auth_classes(c)
    for q, name in cs:
        algorithm_rules(c, q, name)
    credentials(c, cs)
    c.count("authentication classes", len(cs))
    c.floor("authentication classes", 6)
    c.floor("localized credentials", 12)


def algorithm_rules(c, q, name):
    alg, n = SIZES[name]
    it = c.engine()
    st = State()
    for s, o in it.instantiate(st, q, [B("key")], {}, TOP, None):
        if isinstance(o, Exc):
            c.bad("digest", f"{q}: construction", WHERE,
                  f"a key is refused with {o}", c.trace(s, o))
            continue
        for s2, v in get(it, s, o, "msgAuthenticationParameters"):
            c.expect(s2.canon(v) == const(bytes(n)), "digest",
                     f"{q}: blank", WHERE,
                     f"the blank digest is not {n} zero octets",
                     c.trace(s2, v))
        for s2, v in call(it, s, o, "sign", B("data")):
            want = op("slice", op("hmac", B("key"), B("data"),
                                  ("ext", "hashlib." + alg)), ZERO, const(n))
            c.expect(not isinstance(v, Exc) and s2.canon(v) == want,
                     "digest", f"{q}.sign", WHERE,
                     f"the digest is not HMAC-{alg} of the data under the "
                     f"key cut to {n} octets", c.trace(s2, v))
            for s3, v in call(it, s2, o, "sign", B("data 2")):
                want = op("slice", op("hmac", B("key"), B("data 2"), (
                    "ext", "hashlib." + alg)), ZERO, const(n))
                c.expect(not isinstance(v, Exc) and s3.canon(v) == want,
                         "digest", f"{q}.sign: again", WHERE,
                         "the digest depends on what was signed before",
                         c.trace(s3, v))
    for s, v in static(it, st, q, "localizeKey", B("key"), B("engine")):
        want = digest(alg, B("key"), B("engine"), B("key"))
        c.expect(not isinstance(v, Exc) and s.canon(v) == want,
                 "localized key", f"{q}.localizeKey", WHERE,
                 "the localized key is not the hash of key, engine ID and "
                 "key", c.trace(s, v))
    for s, v in static(it, st, q, "computeKey", B("secret")):
        empty = s.decide(mk_eq(mk_len(B("secret")), ZERO))
        if isinstance(v, Exc):
            c.expect(empty is True, "password", f"{q}.computeKey: raises",
                     WHERE, f"a non-empty secret is refused with {v}",
                     c.trace(s, v))
            continue
        r = password_key(s, v, alg, B("secret"))
        if r is None:
            c.count("passwords undecided")
            c.assumptions.append(
                f"{q}.computeKey has a form the analysis does not follow")
            continue
        c.expect(r, "password", f"{q}.computeKey", WHERE,
                 f"the key is not the {alg} of the first 2^20 octets of the "
                 f"repeated secret", c.trace(s, v))
    c.used(it)


def key_models(c):
    """computeKey and localizeKey as functions of their arguments."""
    def compute(it, st, f, args, kwargs, fr, node):
        b = bindargs(f, args, kwargs)
        r = op("key", args[0], b["secret"])
        if not st.fact(mk_eq(mk_len(r), const(
                DIGEST["hashlib." + SIZES[args[0][1].split(".")[-1]][0]]))):
            return []
        return [(st, r)]

    def localize(it, st, f, args, kwargs, fr, node):
        b = bindargs(f, args, kwargs)
        r = op("localkey", args[0], b["key"], b["engineID"])
        n = DIGEST["hashlib." + SIZES[args[0][1].split(".")[-1]][0]]
        if not st.fact(mk_eq(mk_len(r), const(n))):
            return []
        return [(st, r)]
    out = {}
    for base, m in (("computeKey", compute), ("localizeKey", localize)):
        qs = overrides(c.prog, AUTH, base)
        if not qs:
            raise AnalysisError(f"vanished anchor: {AUTH}.{base}")
        for q in qs:
            out[q] = m
    return out


def credentials(c, cs):
    privs = backends(c)
    where = "snmp/security/usm/credentials.py"
    jobs = [(a, None) for a, _ in cs] + [(cs[0][0], p) for p, _ in privs] \
        + [(cs[-1][0], privs[0][0])]
    for aq, pq in jobs:
        for asec in (True, False):
            for psec in (True, False) if pq else (False,):
                one_credential(c, aq, pq, asec, psec, where)


def one_credential(c, aq, pq, asec, psec, where):
    it = c.engine(key_models(c), ext=cipher_libs())
    it.unroll = 16
    kw = {"authProtocol": ("cls", aq), "secret": B("common")}
    if asec:
        kw["authSecret"] = B("authSecret")
    if pq:
        kw["privProtocol"] = ("cls", pq)
        if psec:
            kw["privSecret"] = B("privSecret")
    alg, n = SIZES[aq.split(".")[-1]]
    cons = f"{CRED}: {aq.split('.')[-1]}/{(pq or '-').split('.')[-1]}"
    for s, o in it.instantiate(State(), CRED, [], kw, TOP, None):
        if isinstance(o, Exc):
            c.bad("credentials", cons, where, f"credentials cannot be made: "
                  f"{o}", c.trace(s, o))
            continue
        lv = get(it, s, o, "maxSecurityLevel")
        c.expect(len(lv) == 1 and level_name(it, lv[0][0], lv[0][1])
                 == (True, bool(pq)), "credentials", f"{cons}: level",
                 where, "the highest level of the credentials is wrong",
                 c.trace(s))
        for s2, l in call(it, s, o, "localize", B("engine")):
            tr = c.trace(s2, l)
            if isinstance(l, Exc):
                c.bad("credentials", f"{cons}: localize", where,
                      f"localization raises {l}", tr)
                continue
            c.count("localized credentials")
            for s3, a in get(it, s2, l, "auth"):
                asecret = chosen(s3, "authSecret", asec)
                for s4, v in call(it, s3, a, "sign", B("data")):
                    want = [op("slice", op(
                        "hmac", op("localkey", ("cls", aq), op(
                            "key", ("cls", aq), x), B("engine")),
                        B("data"), ("ext", "hashlib." + alg)), ZERO,
                        const(n)) for x in asecret]
                    c.expect(not isinstance(v, Exc) and s4.canon(v) in want,
                             "credentials", f"{cons}: authentication",
                             where, "messages are not signed with the key "
                             "of the user's authentication secret localized "
                             "for the engine", c.trace(s4, v))
            for s3, p in get(it, s2, l, "priv"):
                if pq is None:
                    c.expect(p == NONE, "credentials", f"{cons}: no privacy",
                             where, "a user without privacy protocol has a "
                             "privacy key", tr)
                    continue
                psecret = chosen(s3, "privSecret", psec)
                k = KEYLEN[pq.split(".")[-1]]
                for s4, v in normal(call(it, s3, p, "encrypt", B("data"),
                                         N("boots"), N("time"))):
                    if events(s4, "libfail"):
                        continue
                    want = [mk_slice(op("localkey", ("cls", aq), op(
                        "key", ("cls", aq), x), B("engine")), ZERO, const(k),
                        s4) for x in psecret]
                    ct = v[1][0]
                    c.expect(ct[:2] == ("op", "cipher")
                             and s4.canon(ct[4]) in want, "credentials",
                             f"{cons}: privacy", where,
                             "messages are not encrypted with the key of "
                             "the user's privacy secret localized for the "
                             "engine", c.trace(s4))
    c.used(it)


def chosen(st, name, given):
    """The secrets a key may be made from on this path."""
    if not given:
        return [B("common")]
    empty = st.decide(mk_eq(mk_len(B(name)), ZERO))
    if empty is True:
        return [B(name), B("common")]
    return [B(name)]


def level_name(it, st, v):
    out = []
    for n in ("auth", "priv"):
        r = get(it, st, v, n)
        if len(r) != 1 or not is_const(r[0][0].canon(r[0][1])):
            return None
        out.append(bool(r[0][0].canon(r[0][1])[2]))
    return tuple(out)


# -- the registry --------------------------------------------------------------

class Registry:
    """Scenarios over one UserRegistry with distinct names."""

    def __init__(self, c):
        self.c = c
        self.it = c.engine(key_models(c))
        st = State()
        self.st, self.reg = make(self.it, st, REG)
        self.E = [B("engine1"), B("engine2")]
        self.U = [B("user1"), B("user2")]
        self.NS = [S("space1"), S("space2")]
        for x in (self.E, self.U, self.NS):
            self.st.assume(mk_eq(x[0], x[1]), False)
        self.st.fact(op("lt", scale(mk_len(B("common")), -1)))
        self.auth = ("cls", "snmp.security.usm.auth.HmacSha")
        self.it.maxsteps *= 20
        keys = [op("key", self.auth, B(f"secret{i}")) for i in range(4)]
        for i, a in enumerate(keys):
            for b in keys[:i]:
                self.st.assume(mk_eq(a, b), False)

    def add(self, st, u, ns, i, **kw):
        kw = dict(kw)
        kw.setdefault("authProtocol", self.auth)
        kw["authSecret"] = self.secret(st, i)
        kw["namespace"] = self.NS[ns]
        return call(self.it, st, self.reg, "addUser", self.U[u], **kw)

    def secret(self, st, i):
        b = B(f"secret{i}")
        st.fact(op("lt", scale(mk_len(b), -1)))
        return b

    def local(self, i, e):
        return op("localkey", self.auth, op("key", self.auth,
                                            B(f"secret{i}")), self.E[e])


REGWHERE = "snmp/security/usm/users.py"


def u08(c):
    c.rule("Every history of up to five assignments and releases of two "
           "engines and two namespaces and up to two later additions of "
           "users, on an abstract registry whose names are arbitrary but "
           "distinct, against a reference: an engine belongs to one "
           "namespace at a time, until every assignment was released; "
           "assigning it elsewhere is refused meanwhile; credentials for an "
           "engine and user are those of the user in the engine's "
           "namespace, localized for that engine; others are refused.")
    R = Registry(c)
    st = R.st
    for u, ns, i in ((0, 0, 0), (1, 1, 1)):
        r = normal(R.add(st, u, ns, i))
        if len(r) != 1:
            raise AnalysisError("adding a user to an empty registry is not "
                                "deterministic")
        st = r[0][0]
    depth = 5 if c.tier == "quick" else 6
    walk(c, R, st, {}, {(0, 0): 0, (1, 1): 1}, depth, [], 0)
    many(c, R, st)
    c.used(R.it)
    c.floor("histories", 500)
    c.floor("lookups", 2000)


def many(c, R, st):
    """The same among any number of other engines, namespaces and users."""
    def on(s, name, *args):
        return [(s2, v) for s2, v in call(R.it, crowd(s, R.reg), R.reg, name,
                                          *args) if not isinstance(v, Exc)]
    hist = ["assign(engine0, space0)", "assign(engine1, space1)"]
    both = {0: (0, 1), 1: (1, 1)}
    users = {(0, 0): 0, (1, 1): 1}
    for s, _ in on(st, "assign", R.E[0], R.NS[0]):
        for s2, _ in on(s, "assign", R.E[1], R.NS[1]):
            lookups(c, R, s2, both, users, hist + ["many others"])
            for s3, _ in on(s2, "release", R.E[1], R.NS[1]):
                lookups(c, R, s3, {0: (0, 1)}, users, hist + [
                    "many others", "release(engine1, space1)"])
            for s3, v in R.add(crowd(s2, R.reg), 1, 0, 2):
                if not isinstance(v, Exc):
                    lookups(c, R, s3, both, {**users, (1, 0): 2}, hist + [
                        "many others", "addUser(user1, space0)"])
    for s, v in R.add(crowd(st, R.reg), 1, 0, 2):
        for s2, _ in on(s, "assign", R.E[0], R.NS[0]) \
                if not isinstance(v, Exc) else ():
            lookups(c, R, s2, {0: (0, 1)}, {**users, (1, 0): 2}, [
                "many others", "addUser(user1, space0)",
                "assign(engine0, space0)"])


def walk(c, R, st, owner, users, depth, hist, adds):
    """owner: {engine: [namespace, count]}; users: {(user, ns): secret}"""
    lookups(c, R, st, owner, users, hist)
    if not depth:
        return
    for e in (0, 1):
        if e == 1 and not hist:
            continue
        for ns in (0, 1):
            o = dict(owner)
            free = e not in o or o[e][0] == ns
            step(c, R, st, "assign", (R.E[e], R.NS[ns]), free, REG,
                 hist + [f"assign(engine{e}, space{ns})"],
                 lambda s, h, o=o, e=e, ns=ns, free=free: walk(
                     c, R, s, {**o, e: (ns, o[e][1] + 1 if e in o else 1)}
                     if free else o, users, depth - 1, h, adds))
            if e in o:
                mine = o[e][0] == ns
                last = mine and o[e][1] == 1
                n = {k: v for k, v in o.items() if k != e} if last else \
                    {**o, e: (ns, o[e][1] - 1)} if mine else o
                step(c, R, st, "release", (R.E[e], R.NS[ns]), last, REG,
                     hist + [f"release(engine{e}, space{ns})"],
                     lambda s, h, n=n: walk(c, R, s, n, users, depth - 1, h,
                                            adds))
    if adds < 2 and depth >= 2:
        u, ns = ((1, 0), (0, 1))[adds]
        for s, v in R.add(st, u, ns, 2 + adds):
            h = hist + [f"addUser(user{u}, space{ns})"]
            if isinstance(v, Exc):
                c.bad("registry", f"{REG}.addUser", REGWHERE,
                      f"adding a new user raises {v}", h + c.trace(s, v))
                continue
            walk(c, R, s, owner, {**users, (u, ns): 2 + adds}, depth - 2, h,
                 adds + 1)


def step(c, R, st, name, args, want, cls, hist, then):
    c.count("histories")
    for s, v in split(R.it, call(R.it, st, R.reg, name, *args)):
        if isinstance(v, Exc):
            c.bad("registry", f"{cls}.{name}: raises", REGWHERE,
                  f"{hist[-1]} raises {v}", hist + c.trace(s, v))
            continue
        if c.expect(v == want, "registry", f"{cls}.{name}: result", REGWHERE,
                    f"{hist[-1]} reports {v}", hist + c.trace(s)):
            then(s, hist)


def lookups(c, R, st, owner, users, hist):
    for e in (0, 1):
        for u in (0, 1):
            c.count("lookups")
            want = users.get((u, owner[e][0])) if e in owner else None
            for s, v in call(R.it, st, R.reg, "getCredentials", R.E[e],
                             R.U[u]):
                cons = f"{REG}.getCredentials"
                tr = hist + [f"getCredentials(engine{e}, user{u})"] \
                    + c.trace(s, v)
                if isinstance(v, Exc):
                    ex = "InvalidUserName" if e in owner \
                        else "InvalidEngineID"
                    c.expect(want is None and v.cls.endswith("." + ex),
                             "credentials lookup", f"{cons}: refused",
                             REGWHERE, f"a lookup fails with {v}", tr)
                    continue
                a = get(R.it, s, v, "auth", "key")
                c.expect(want is not None and len(a) == 1 and
                         s.canon(a[0][1]) == R.local(want, e),
                         "credentials lookup", f"{cons}: found", REGWHERE,
                         "a lookup finds credentials of another user, "
                         "namespace or engine", tr)


def u10(c):
    c.rule("Abstract registry with arbitrary distinct names: the default "
           "user of a namespace is the first one added or the one added as "
           "default; the default level of a user is the one given, else the "
           "highest its protocols support; a level beyond that is refused; "
           "a second definition of a user that differs is refused and "
           "changes nothing; unknown namespaces and users are refused.")
    R = Registry(c)
    it = R.it
    cons = f"{REG}.addUser"

    def lookup(st, what, want, name, *args):
        for s, v in call(it, st, R.reg, name, *args):
            c.count("lookups")
            good = want(s, v)
            c.expect(good, "defaults", f"{REG}.{name}: {what}", REGWHERE,
                     f"{what}: {v if isinstance(v, Exc) else pp(v, s)}",
                     c.trace(s, v))

    def user(i):
        return lambda s, v: not isinstance(v, Exc) and same(
            s, v, R.U[i]) is True

    def raises(*names):
        return lambda s, v: isinstance(v, Exc) and (
            v.cls in names or any(x in names for x in
                                  c.prog.exc_ancestors(v.cls)))

    def level(name):
        return lambda s, v: not isinstance(v, Exc) and level_name(
            it, s, v) == LV[name]
    LV = {"noAuthNoPriv": (False, False), "authNoPriv": (True, False),
          "authPriv": (True, True)}
    INV = "snmp.security.usm.users.InvalidUserName"
    lookup(R.st, "unknown namespace", raises("builtins.ValueError"),
           "getDefaultUser", R.NS[0])
    lookup(R.st, "unknown namespace", raises("builtins.ValueError"),
           "getDefaultSecurityLevel", R.U[0], R.NS[0])

    def adding(st, u, ns, i, ok=True, **kw):
        out = []
        for s, v in R.add(st, u, ns, i, **kw):
            if isinstance(v, Exc):
                c.expect(not ok and raises("builtins.ValueError")(s, v),
                         "definition", f"{cons}: {sorted(kw)}", REGWHERE,
                         f"defining a user raises {v}", c.trace(s, v))
                if not ok:
                    out.append(s)
            elif c.expect(ok, "definition", f"{cons}: accepted {sorted(kw)}",
                          REGWHERE, "a contradictory definition of a user is "
                          "accepted", c.trace(s)):
                out.append(s)
        return out
    T = TRUE
    for s in adding(R.st, 0, 0, 0):
        lookup(s, "first user", user(0), "getDefaultUser", R.NS[0])
        lookup(s, "unknown user", raises(INV), "getDefaultSecurityLevel",
               R.U[1], R.NS[0])
        lookup(s, "other namespace", raises("builtins.ValueError"),
               "getDefaultUser", R.NS[1])
        for s2 in adding(s, 1, 0, 1):
            lookup(s2, "second user", user(0), "getDefaultUser", R.NS[0])
            # the same definition again
            for s3 in adding(s2, 0, 0, 0):
                lookup(s3, "same user again", user(0), "getDefaultUser",
                       R.NS[0])
            for s3 in adding(s2, 1, 0, 1):
                lookup(s3, "same second user again", user(0),
                       "getDefaultUser", R.NS[0])
            # a different one
            for s3 in adding(s2, 1, 0, 0, ok=False):
                keys(c, R, s3, 1, 1)
                lookup(s3, "after a collision", user(0), "getDefaultUser",
                       R.NS[0])
            st, low = level_const(it, s2.fork(), "noAuthNoPriv")
            for kw in ({"default": T}, {"defaultSecurityLevel": low}):
                for s3 in adding(st, 1, 0, 1, ok=False, **kw):
                    keys(c, R, s3, 1, 1)
                    lookup(s3, f"after a collision in {sorted(kw)}",
                           user(0), "getDefaultUser", R.NS[0])
                    lookup(s3, f"after a collision in {sorted(kw)}",
                           level("authNoPriv"), "getDefaultSecurityLevel",
                           R.U[1], R.NS[0])
        for s2 in adding(s, 1, 0, 1, default=T):
            lookup(s2, "explicit default", user(1), "getDefaultUser",
                   R.NS[0])
            for s3 in adding(s2, 1, 0, 1, default=T):
                lookup(s3, "explicit default again", user(1),
                       "getDefaultUser", R.NS[0])
        for s2 in adding(s, 1, 1, 1, default=T):
            lookup(s2, "default elsewhere", user(0), "getDefaultUser",
                   R.NS[0])
            lookup(s2, "default there", user(1), "getDefaultUser", R.NS[1])
    priv = ("cls", backends(c)[0][0])
    combos = {"noAuthNoPriv": {"authProtocol": NONE},
              "authNoPriv": {},
              "authPriv": {"privProtocol": priv, "privSecret": B("common")}}
    order = list(LV)
    for most, kw in combos.items():
        for s in adding(R.st, 0, 0, 0, **kw):
            lookup(s, f"default level of {most}", level(most),
                   "getDefaultSecurityLevel", R.U[0], R.NS[0])
        for wanted in order:
            st, lv = level_const(it, R.st.fork(), wanted)
            ok = order.index(wanted) <= order.index(most)
            for s in adding(st, 0, 0, 0, ok=ok, defaultSecurityLevel=lv,
                            **kw):
                if ok:
                    lookup(s, f"level {wanted} of {most}", level(wanted),
                           "getDefaultSecurityLevel", R.U[0], R.NS[0])
    # two definitions of one user, equal or differing in one thing
    st, low = level_const(it, R.st, "noAuthNoPriv")
    two, three = R.secret(st, 2), R.secret(st, 3)
    other = [("cls", q) for q, _ in auth_classes(c) if ("cls", q) != R.auth]
    more = {"nothing": (0, {"authProtocol": NONE}),
            "authentication": (0, {}),
            "another protocol": (0, {"authProtocol": other[0]}),
            "another secret": (1, {})}
    for q, _ in backends(c):
        more[q] = 0, {"privProtocol": ("cls", q), "privSecret": two}
    more["another privacy secret"] = 0, {"privProtocol": priv,
                                         "privSecret": three}
    for a, (i, kw) in more.items():
        for s in adding(st.fork(), 0, 0, i, defaultSecurityLevel=low, **kw):
            for b, (j, kw2) in more.items():
                c.count("second definitions")
                adding(s.fork(), 0, 0, j, ok=a == b,
                       defaultSecurityLevel=low, **kw2)
    c.floor("second definitions", 36)
    c.used(it)
    c.floor("lookups", 20)


def keys(c, R, st, u, i):
    """The keys of the user are those of secret i."""
    for s, v in split(R.it, call(R.it, st, R.reg, "assign", R.E[0],
                                 R.NS[0])):
        for s2, o in call(R.it, s, R.reg, "getCredentials", R.E[0], R.U[u]):
            a = get(R.it, s2, o, "auth", "key") \
                if not isinstance(o, Exc) else []
            c.expect(len(a) == 1 and s2.canon(a[0][1]) == R.local(i, 0),
                     "definition", f"{REG}.addUser: collision", REGWHERE,
                     "a refused definition of a user replaces the earlier "
                     "one", c.trace(s2))
