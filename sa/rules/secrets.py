"""Secrets stay inside."""

from ..framework import *
from ..scen import *
from .keys import auth_classes, key_models
from .privacy import backends, cipher_libs
from .usm import CREDS, REG, USM, decoded, usm_models

USM_WHERE = "snmp/security/usm"

# what may be made of a secret and shown
SAFE = {"hmac", "hash.digest", "cipher", "len", "eq", "lt", "le", "truth",
        "hash", "utf8", "isinst"}
# where a secret may be handed over
ALLOWED = ("hmac.", "hashlib.", "snmp.openssl.", "Crypto.")
# texts of an object are those of its class, which are checked themselves
TEXT = ("repr", "str", "format", "id", "fstr")
LOGS = ("builtins.print", "print", "logging.", "warnings.")
SECRETS = ("authSecret", "privSecret", "common")


def secret_names(t):
    return t[0] == "s" and t[1][:1] == ("n",) and t[1][1] in SECRETS


def instance(st, t):
    return (isinstance(t, tuple) and t[:1] == ("obj",)
            and st.obj(t) is not None and st.obj(t).kind == "inst")


def shown(st, t, seen=None):
    """The secrets a term gives away, as terms."""
    seen = set() if seen is None else seen
    out = []
    if not isinstance(t, tuple) or not t:
        return out
    if isinstance(t[0], tuple):
        for x in t:
            out += shown(st, x, seen)
        return out
    if t in seen:
        return out
    seen.add(t)
    k = t[0]
    if k == "obj":
        o = st.obj(t)
        for x in list(o.attrs.values()) + list(o.items):
            if isinstance(x, tuple):
                out += shown(st, x, seen)
        return out
    if k == "op":
        if t[1] in ("key", "localkey"):
            return [t]
        if t[1] in SAFE:
            return out
        for x in t[2:]:
            if t[1] in TEXT and instance(st, x):
                continue
            out += shown(st, x, seen)
        return out
    if k == "s":
        return [t] if secret_names(t) else out
    if k in ("cls", "func", "ext", "c", "k", "clo"):
        return out
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out += shown(st, x, seen)
            else:
                for y in x:
                    out += shown(st, y, seen)
    return out


class Secrets:
    def __init__(self, c):
        self.c = c
        self.done = set()

    def engine(self, opaque=(), **kw):
        models = key_models(self.c)
        models.update(opaque)
        it = self.c.engine(models, ext=cipher_libs(), **kw)
        it.unroll = 16
        it.maxsteps *= 8
        return it

    def check(self, s, m, cons, where, *results):
        """Nothing that happened after event m, nor the results, shows a
        secret."""
        c = self.c
        for v in results:
            if isinstance(v, Exc):
                c.count("errors")
                leak = shown(s, v.val) if v.val is not None else []
                what = f"the {v.cls.split('.')[-1]} raised"
            else:
                leak, what = shown(s, v), "the result"
            c.expect(not leak, "secrets", f"{cons}: {what}", where,
                     f"{what} contains "
                     f"{', '.join(sorted({pp(x, s) for x in leak}))}",
                     c.trace(s, v))
        for e in s.events[m:]:
            if e[0] not in ("ext", "extm", "callsym"):
                continue
            name = e[1][0] if e[0] == "ext" else pp(e[1][0], s)
            if e[0] == "ext" and str(name).startswith(ALLOWED):
                continue
            if e[0] == "extm" and e[1][0][0] == "obj" and s.obj(
                    e[1][0]).attrs.get("class") in (
                        "hmac", "hash", "CryptoCipher"):
                continue
            leak = []
            texts = e[0] == "ext" and str(name).startswith(LOGS)
            for x in e[1][1:]:
                for y in x if x and isinstance(x, tuple) and isinstance(
                        x[0], tuple) else (x,):
                    if not (texts and isinstance(y, tuple)
                            and instance(s, y)):
                        leak += shown(s, y)
            c.count("calls out of the library")
            c.expect(not leak, "secrets", f"{cons}: call of {name}",
                     str(e[4]), f"{pp(leak[0], s) if leak else ''} is handed "
                     f"to {name}", c.trace(s))

    def texts(self, it, s, cons):
        """Every text form the package defines for an object on the heap."""
        c = self.c
        for t in [("obj", i) for i, o in sorted(s.heap.items())
                  if o.kind == "inst"]:
            for q in sorted(s.obj(t).cls):
                for name in ("__repr__", "__str__", "__format__", "toString"):
                    own = c.prog.member(c.prog.classes[q], name)
                    if own is None:
                        continue
                    args = [const("")] if name == "__format__" else []
                    c.count("text forms")
                    for s2, v in it.call_method(s.fork(), t, name, args, {},
                                                TOP, None):
                        self.check(s2, len(s.events), f"{q}.{name}",
                                   c.prog.classes[q].module.relpath, v)


def u09(c):
    c.rule("Abstract registration of a user with arbitrary secrets, "
           "localization to arbitrary engines, and sending and receiving of "
           "arbitrary messages with the resulting keys: no returned value, "
           "raised error, text form of an object, or argument of a call out "
           "of the package contains a secret or a key, except inside a "
           "hash, an HMAC or a cipher.")
    S_ = Secrets(c)
    auth = auth_classes(c)
    privs = backends(c)
    jobs = [(a, None) for a, _ in auth[:1]] + [(auth[i % len(auth)][0], p)
                                              for i, (p, _) in
                                              enumerate(privs)]
    for aq, pq in jobs:
        registration(c, S_, aq, pq)
        traffic(c, S_, aq, pq)
    c.floor("errors", 6)
    c.floor("results", 8)
    c.floor("datagrams", 4)
    c.floor("accepted messages", 2)


def registration(c, S_, aq, pq):
    it = S_.engine()
    cons = f"{REG}.addUser: {aq.split('.')[-1]}/{(pq or '-').split('.')[-1]}"
    st = State()
    st, reg = make(it, st, REG)
    for x in SECRETS:
        st.fact(op("lt", scale(mk_len(B(x)), -1)))
    kw = {"authProtocol": ("cls", aq), "secret": B("common"),
          "namespace": S("space")}
    more = {"authSecret": B("authSecret")}
    if pq:
        more["privProtocol"] = ("cls", pq)
        more["privSecret"] = B("privSecret")
    wants = [{}]
    for name in LEVELS:
        wants.append({"defaultSecurityLevel": name})
    for want in wants:
        for given in ({}, more):
            s0 = st.fork()
            args = dict(kw, **given)
            for k, name in want.items():
                s0, args[k] = level_const(it, s0, name)
            m = len(s0.events)
            for s, v in call(it, s0, reg, "addUser", B("user"), **args):
                S_.check(s, m, cons, USM_WHERE, v)
                if isinstance(v, Exc):
                    continue
                c.count("results")
                if want:
                    continue
                S_.texts(it, s, cons)
                # a second definition
                again = dict(args, authSecret=B("privSecret"))
                for s2, v2 in call(it, s, reg, "addUser", B("user"), **again):
                    S_.check(s2, m, f"{cons}: again", USM_WHERE, v2)
                lookups(c, S_, it, s, reg, m)
    c.used(it)


def lookups(c, S_, it, s, reg, m):
    for name, args in (("getDefaultUser", [S("space")]),
                       ("getDefaultSecurityLevel", [B("user"), S("space")]),
                       ("getDefaultUser", [S("other")]),
                       ("getDefaultSecurityLevel", [B("who"), S("space")])):
        for s2, v in call(it, s.fork(), reg, name, *args):
            S_.check(s2, m, f"{REG}.{name}", USM_WHERE, v)
    for s2, v in call(it, s, reg, "assign", B("engine"), S("space")):
        S_.check(s2, m, f"{REG}.assign", USM_WHERE, v)
        if isinstance(v, Exc):
            continue
        for u in ("user", "who"):
            for e in ("engine", "elsewhere"):
                for s3, v3 in call(it, s2.fork(), reg, "getCredentials",
                                   B(e), B(u)):
                    if isinstance(v3, Exc):
                        S_.check(s3, m, f"{REG}.getCredentials", USM_WHERE,
                                 v3)
                        continue
                    S_.check(s3, m, f"{REG}.getCredentials", USM_WHERE)
                    S_.texts(it, s3, "localized")


def traffic(c, S_, aq, pq):
    """Sending and receiving with the keys of one user."""
    box = {}

    def creds(it, st, f, args, kwargs, fr, node):
        return [(st, box["creds"])]
    models = {q: x for q, x in usm_models(c.prog).items()
              if not q.endswith((".sign", ".encrypt", ".decrypt"))}
    models[c.prog.func(f"{REG}.getCredentials").qual] = creds
    models["snmp.asn1.ASN1.decode"] = v3_plaintext
    it = S_.engine(models)
    names = f"{aq.split('.')[-1]}/{(pq or '-').split('.')[-1]}"

    def prepared(st):
        auth = it.instantiate(st, aq, [op("localkey", ("cls", aq),
                                          B("authSecret"), B("engine"))],
                              {}, TOP, None)

        def go(s, a):
            if pq is None:
                return it.instantiate(s, CREDS, [a, NONE], {}, TOP, None)
            key = op("localkey", ("cls", aq), B("privSecret"), B("engine"))
            return it.seq(it.instantiate(s, pq, [key], {}, TOP, None),
                          lambda s2, p: it.instantiate(
                              s2, CREDS, [a, p], {}, TOP, None))
        m = len(st.events)
        out = []
        for s, v in it.seq(auth, go):
            S_.check(s, m, f"{CREDS}: {names}", USM_WHERE, v
                     if isinstance(v, Exc) else NONE)
            if not isinstance(v, Exc):
                out.append((s, v))
        return out
    for lname in LEVELS:
        if lname == "authPriv" and pq is None:
            continue
        st = State()
        usm = it.input_obj(st, USM, "usm")
        st, msg = v3_message(it, st, lname, "snmp.pdu.GetRequestPDU", "out")
        for s0, cr in prepared(st):
            box["creds"] = cr
            m = len(s0.events)
            for s, v in call(it, s0, usm, "prepareOutgoing", msg,
                             B("engine"), B("user"), F("now")):
                S_.check(s, m, f"{USM}.prepareOutgoing: {lname} {names}",
                         USM_WHERE, v)
                c.count("results" if isinstance(v, Exc) else "datagrams")
    for s0, msg, usm in decoded(c, it):
        for s1, cr in prepared(s0):
            box["creds"] = cr
            m = len(s1.events)
            for s, v in call(it, s1, usm, "processIncoming", msg, F("now")):
                S_.check(s, m, f"{USM}.processIncoming: {names}", USM_WHERE,
                         v)
                if not isinstance(v, Exc):
                    c.count("accepted messages")
    c.used(it)
