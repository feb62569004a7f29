"""The privacy protocols: what is encrypted, with what, and how salts move."""

from ..framework import *
from ..scen import *
from .usm import PRIV, split

ALGS = {"AesCfb128": "aes-128-cfb128", "DesCbc": "des-cbc"}
KEYLEN = {"AesCfb128": 16, "DesCbc": 8}
COUNTER = {"AesCfb128": 8, "DesCbc": 4}


# -- the cipher libraries ------------------------------------------------------

def text(t):
    """The value of a constant string, also one built by an f-string."""
    if t[0] == "c" and isinstance(t[2], str):
        return t[2]
    if t[:2] == ("op", "fstr") and all(text(x) is not None for x in t[2:]):
        return "".join(text(x) for x in t[2:])
    return None


def status(it, st, fr, node, ok):
    """A library call that reports success: fails at will, else does `ok`."""
    s = st.fork()
    it.event(s, "libfail", fr, node)
    ok(st)
    return [(s, ZERO), (st, const(1))]


def ctx_new(it, st, args, kwargs, fr, node):
    s = st.fork()
    it.event(s, "libfail", fr, node)
    o = Obj("ext")
    o.attrs["class"] = "EVP_CTX"
    t = it.new(st, o)
    it.event(st, "ctx", fr, node, t)
    return [(s, ("ext", "snmp.openssl.ffi.NULL")), (st, t)]


def missing(st, t):
    """A context that is not there because creating it failed."""
    return t == ("ext", "snmp.openssl.ffi.NULL") and any(
        e[0] == "libfail" for e in st.events)


def context(st, t):
    if t[0] != "obj" or st.obj(t).attrs.get("class") != "EVP_CTX":
        raise AnalysisError("an EVP function is called without a context")
    return st.mut(t).attrs


def ctx_free(it, st, args, kwargs, fr, node):
    if args[0] == ("ext", "snmp.openssl.ffi.NULL"):
        return [(st, NONE)]
    it.event(st, "ctxfree", fr, node, args[0])
    return [(st, NONE)]


def set_padding(it, st, args, kwargs, fr, node):
    def ok(s):
        it.event(s, "ctxuse", fr, node, args[0])
        if missing(s, args[0]):
            it.event(s, "cipherinit", fr, node, False)
            return
        context(s, args[0])["padding"] = args[1]
    return status(it, st, fr, node, ok)


def init(direction):
    def f(it, st, args, kwargs, fr, node):
        def ok(s):
            it.event(s, "ctxuse", fr, node, args[0])
            alg = s.canon(args[1])
            if alg[:2] != ("op", "alg"):
                raise AnalysisError("the cipher is not recognised")
            if missing(s, args[0]):
                it.event(s, "cipherinit", fr, node, False)
                return
            a = context(s, args[0])
            a["init"] = ("tup", (const(direction), alg, args[2], args[3]))
            # the library reads as many octets as the cipher needs
            need = {"aes-128-cfb128": (16, 16), "des-cbc": (8, 8)}.get(
                alg[2][2])
            it.event(s, "cipherinit", fr, node, *(
                s.le0(s.canon(sub(const(n), mk_len(x)))) is True
                for n, x in zip(need or (99, 99), args[2:4])))
        return status(it, st, fr, node, ok)
    return f


def update(direction):
    def f(it, st, args, kwargs, fr, node):
        ctx, out, outl, data, inl = args

        def ok(s):
            it.event(s, "ctxuse", fr, node, ctx)
            gone = missing(s, ctx)
            a = {} if gone else context(s, ctx)
            if "init" not in a and any(e[0] == "libfail" for e in s.events):
                # its initialization failed
                it.event(s, "cipherupdate", fr, node, False, False, False)
                b = s.mut(out).attrs
                b["data"] = op("typed", "bytes", op("uninitialised", out))
                s.mut(outl).items = (inl,)
                return
            if "init" not in a or "done" in a:
                raise AnalysisError("EVP calls in an order the model does "
                                    "not know")
            a["done"] = TRUE
            d, alg, key, iv = a["init"][1]
            over = s.le0(s.canon(sub(inl, mk_len(data)))) is not True
            buf = s.obj(out)
            size = mk_len(buf.attrs["data"])
            small = s.le0(s.canon(sub(inl, size))) is not True
            it.event(s, "cipherupdate", fr, node, d[2] == direction,
                     not over, not small)
            if s.canon(inl) != s.canon(mk_len(data)):
                data_ = mk_slice(data, ZERO, inl) if not over else data
            else:
                data_ = data
            pad = a.get("padding", const(1))
            n = inl
            if alg[2][2] != "aes-128-cfb128" and pad != ZERO \
                    and direction == "dec":
                n = ("s", it.fresh("held"), "int", (0, 2**31))
                s.fact(op("le", sub(n, inl)))
                r = op("typed", "bytes", op("held", data_))
                body = mk_slice(r, ZERO, n)
            else:
                body = op("cipher", d, alg, key, iv, data_)
            rest = op("typed", "bytes", op("uninitialised", out))
            s.fact(mk_eq(mk_len(rest), sub(size, n)))
            s.fact(op("le", scale(mk_len(rest), -1)))
            s.mut(out).attrs["data"] = mk_cat([body, rest])
            p = s.mut(outl)
            p.items = (n,)
        return status(it, st, fr, node, ok)
    return f


def ffi_new(it, st, args, kwargs, fr, node):
    ty = text(args[0])
    if ty is None:
        raise AnalysisError("ffi.new of an unknown type")
    ty = ty.replace(" ", "")
    if ty in ("int*", "int[1]"):
        o = Obj("list")
        o.items = (ZERO,)
        return [(st, it.new(st, o))]
    if ty == "unsignedchar[]":
        o = Obj("bytearray")
        n = it.num(st, args[1])
        o.attrs["data"] = op("bytes.mul", const(b"\0"), n)
        if not st.fact(op("le", scale(n, -1))):
            raise AnalysisError("a buffer of negative size")
        st.fact(mk_eq(mk_len(o.attrs["data"]), n))
        return [(st, it.new(st, o))]
    raise AnalysisError(f"ffi.new of {ty}")


def algorithm(name):
    return lambda it, st, args, kwargs, fr, node: [(
        st, op("alg", const(name)))]


def crypto_new(family):
    def f(it, st, args, kwargs, fr, node):
        kw = dict(kwargs)
        args = list(args)
        key = args.pop(0) if args else kw.pop("key")
        mode = args.pop(0) if args else kw.pop("mode")
        iv = args.pop(0) if args else kw.pop("iv", None) or kw.pop("IV", None)
        m = mode[1].split(".")[-1] if mode[0] == "ext" else str(mode)
        n = st.canon(mk_len(key))
        bits = 8 * n[2] if is_const(n) else 0
        seg = kw.pop("segment_size", const(8))
        name = {"AES": f"aes-{bits}", "DES": "des"}[family]
        if m == "MODE_CFB":
            name += f"-cfb{seg[2] if is_const(seg) else '?'}"
        elif m == "MODE_CBC":
            name += "-cbc"
        else:
            name += "-" + m
        if kw:
            raise AnalysisError(f"{family}.new with {sorted(kw)}")
        o = Obj("ext")
        o.attrs["class"] = "CryptoCipher"
        o.attrs["init"] = ("tup", (op("alg", const(name)), key,
                                   iv if iv is not None else NONE))
        need = {"AES": 16, "DES": 8}[family]
        it.event(st, "cipherinit", fr, node, n == const(
            {"AES": 16, "DES": 8}[family]), iv is not None and
            st.canon(mk_len(iv)) == const(need))
        return [(st, it.new(st, o))]
    return f


def crypto_run(direction):
    def f(it, st, args, kwargs, fr, node):
        o = st.mut(args[0])
        if "done" in o.attrs:
            raise AnalysisError("a cipher object is used twice")
        o.attrs["done"] = TRUE
        alg, key, iv = o.attrs["init"][1]
        data = args[1]
        if alg[2][2].endswith("cbc"):
            if not divisible(st, mk_len(data), 8):
                return it.exc(st.fork(), "builtins.ValueError",
                              fr.where(node)) + [
                    (st, op("cipher", const(direction), alg, key, iv, data))]
        return [(st, op("cipher", const(direction), alg, key, iv, data))]
    return f


LIB = "snmp.openssl.lib."


def cipher_libs():
    return {
        LIB + "EVP_CIPHER_CTX_new": ctx_new,
        LIB + "EVP_CIPHER_CTX_free": ctx_free,
        LIB + "EVP_CIPHER_CTX_set_padding": set_padding,
        LIB + "EVP_EncryptInit": init("enc"),
        LIB + "EVP_DecryptInit": init("dec"),
        LIB + "EVP_EncryptUpdate": update("enc"),
        LIB + "EVP_DecryptUpdate": update("dec"),
        LIB + "EVP_aes_128_cfb128": algorithm("aes-128-cfb128"),
        LIB + "EVP_des_cbc": algorithm("des-cbc"),
        "snmp.openssl.ffi.new": ffi_new,
        "Crypto.Cipher.AES.new": crypto_new("AES"),
        "Crypto.Cipher.DES.new": crypto_new("DES"),
        "CryptoCipher.encrypt": crypto_run("enc"),
        "CryptoCipher.decrypt": crypto_run("dec"),
    }


def divisible(st, n, k):
    """Whether n is a multiple of k (a power of two) whatever the inputs."""
    c, d = lin_parts(st.canon(n))
    acc = {}

    def put(c, d, f):
        nonlocal total
        total += c * f
        for a, m in d.items():
            if a[:2] == ("op", "&") and is_const(a[3]) \
                    and a[3][2] % k == k - 1 and (a[3][2] + 1) & a[3][2] == 0:
                put(*lin_parts(a[2]), f * m)
            else:
                acc[a] = acc.get(a, 0) + f * m
    total = 0
    put(c, d, 1)
    if total % k == 0 and all(m % k == 0 for m in acc.values()):
        return True
    # the residue may be a fact of the path
    rest = mk_lin(total, {a: m for a, m in acc.items() if m})
    return st.decide(mk_eq(op("&", rest, const(k - 1)), ZERO)) is True


# -- the protocols -------------------------------------------------------------

def backends(c):
    """[(class, short name)] of the privacy protocols."""
    out = []
    for k in c.prog.subclasses[c.prog.cls(PRIV).qual]:
        name = k.qual.split(".")[-1]
        if name in ALGS and "encrypt" in k.members:
            out.append((k.qual, name))
    return sorted(out)


def engine(c):
    it = c.engine(ext=cipher_libs())
    it.unroll = 16
    return it


def octets(st, t, n):
    """The n octets of a term as value terms, undoing word-wise xor."""
    t = st.canon(t)
    if st.canon(mk_len(t)) != const(n):
        return None
    out = []
    for i in range(n):
        x = byte_at(t, const(i))
        if x[:2] == ("op", "index") and x[2][:2] == ("op", "tobytes") \
                and x[2][2][:2] == ("op", "^") and len(x[2]) == 4 \
                and st.canon(x[2][3]) == const(n):
            ys = [y[2] if y[:2] == ("op", "frombytes") else None
                  for y in x[2][2][2:]]
            if all(y is not None and st.canon(mk_len(y)) == const(n)
                   for y in ys):
                x = xor(*(byte_at(y, const(i)) for y in ys))
        elif x[:2] == ("op", "^"):
            x = xor(*x[2:])
        out.append(x)
    return out


def xor(a, b):
    if skey(b) < skey(a):
        a, b = b, a
    return op("^", a, b)


def expected_iv(st, name, key, boots, time_, salt):
    """The octets the initialisation vector must have."""
    if name == "AesCfb128":
        iv = mk_cat([op("tobytes", boots, const(4)),
                     op("tobytes", time_, const(4)), salt])
        return [byte_at(iv, const(i)) for i in range(16)]
    pre = mk_slice(key, const(8), const(16))
    return [xor(byte_at(pre, const(i)), byte_at(salt, const(i)))
            for i in range(8)]


def cipher_use(c, it, s, v, tr, cons, where, name, direction, data, salt):
    """The obligations common to both directions; `data` is a predicate."""
    if v[:2] != ("op", "cipher"):
        c.bad("cipher", f"{cons}: result", where,
              "what is returned is not exactly the output of the cipher", tr)
        return
    _, _, d, alg, key, iv, arg = v
    c.expect(alg[2][2] == ALGS[name] and d[2] == direction, "cipher",
             f"{cons}: algorithm", where,
             f"the cipher used is {alg[2][2]} ({d[2]})", tr)
    c.expect(same(s, key, mk_slice(B("key"), ZERO, const(KEYLEN[name])))
             is True, "cipher", f"{cons}: key", where,
             f"the cipher key is not the first {KEYLEN[name]} octets of the "
             f"localized key", tr)
    n = 16 if name == "AesCfb128" else 8
    have = octets(s, iv, n) if tyof(iv) == "bytes" else None
    want = expected_iv(s, name, B("key"), N("boots"), N("time"), salt)
    c.expect(have is not None and [s.canon(x) for x in have]
             == [s.canon(x) for x in want], "cipher",
             f"{cons}: initialisation vector", where,
             "the initialisation vector is not made of the parameters the "
             "protocol prescribes", tr)
    data(arg)
    for e in s.events:
        if e[0] == "cipherinit":
            c.expect(all(e[1]), "cipher", f"{cons}: lengths", where,
                     "the cipher is given a key or vector of the wrong "
                     "length", tr)
        if e[0] == "cipherupdate":
            c.expect(all(e[1]), "cipher", f"{cons}: buffers", where,
                     "the cipher is run in the wrong direction or over "
                     "memory it was not given", tr)


def contexts(c, s, tr, cons, where):
    """Library contexts are freed exactly once, after their last use."""
    made = [e[1][0] for e in s.events if e[0] == "ctx"]
    for t in made:
        frees = [i for i, e in enumerate(s.events)
                 if e[0] == "ctxfree" and e[1][0] == t]
        uses = [i for i, e in enumerate(s.events)
                if e[0] == "ctxuse" and e[1][0] == t]
        c.expect(len(frees) == 1 and all(u < frees[0] for u in uses),
                 "contexts", f"{cons}: freed", where,
                 f"a cipher context is freed {len(frees)} times or used "
                 f"after it was freed", tr)


def u06(c):
    c.rule("For every privacy class of both libraries and arbitrary key, "
           "data, boots, time and salt: keys shorter than 16 octets are "
           "refused; what encrypt() returns is exactly the output of "
           "AES-128-CFB128 (DES-CBC) over the data (padded to a multiple of "
           "8 by at most 8 octets) under the first 16 (8) octets of the key "
           "and an initialisation vector of boots, time and the returned "
           "salt (octets 9-16 of the key xor the salt, whose first half is "
           "the boot count); decrypt() uses the same key and vector and "
           "refuses every other salt or ciphertext length with a decryption "
           "error. Library failures raise, contexts are freed once, output "
           "buffers suffice.")
    bs = backends(c)
    for q, name in bs:
        it = engine(c)
        path = c.prog.cls(q).module.relpath
        n = built(c, it, q, name, path)
        c.count("constructions", n)
        c.used(it)
    c.count("privacy classes", len(bs))
    c.floor("privacy classes", 4)
    c.floor("encryptions", 4)
    c.floor("decryptions", 4)


def built(c, it, q, name, path):
    n = 0
    for s, p in it.instantiate(State(), q, [B("key")], {}, TOP, None):
        short = s.decide(op("lt", sub(mk_len(B("key")), const(16))))
        if isinstance(p, Exc):
            c.expect(short is True and p.cls == "builtins.ValueError",
                     "key length", f"{q}: refused", path,
                     f"a key of at least 16 octets is refused with {p}",
                     c.trace(s, p))
            continue
        n += 1
        c.expect(short is False, "key length", f"{q}: accepted", path,
                 "a key shorter than 16 octets is accepted", c.trace(s))
        for s2, v in call(it, s, p, "encrypt", B("data"), N("boots"),
                          N("time")):
            encryption(c, it, s2, v, q, name, path)
        for s2, v in call(it, s, p, "decrypt", B("data"), N("boots"),
                          N("time"), B("salt")):
            decryption(c, it, s2, v, q, name, path)
    return n


def encryption(c, it, s, v, q, name, path):
    cons, tr = f"{q}.encrypt", c.trace(s, v)
    contexts(c, s, tr, cons, path)
    failedlib = bool(events(s, "libfail"))
    if isinstance(v, Exc):
        c.expect(failedlib, "cipher", f"{cons}: raises", path,
                 f"encryption of some message raises {v}", tr)
        return
    if not c.expect(not failedlib, "cipher", f"{cons}: library failure",
                    path, "the failure of a library function goes unnoticed",
                    tr):
        return
    c.count("encryptions")
    if v[0] != "tup" or len(v[1]) != 2:
        raise AnalysisError("encrypt() does not return a pair")
    ct, salt = v[1]
    c.expect(s.canon(mk_len(salt)) == const(8), "salt", f"{cons}: length",
             path, "the salt sent is not 8 octets long", tr)
    if name == "DesCbc":
        got = octets(s, salt, 8)
        want = [byte_at(op("tobytes", N("boots"), const(4)), const(i))
                for i in range(4)]
        c.expect(got is not None and got[:4] == want, "salt",
                 f"{cons}: boots", path,
                 "the DES salt does not start with the boot count", tr)

    def data(arg):
        d = B("data")
        if name == "AesCfb128":
            c.expect(same(s, arg, d) is True, "cipher", f"{cons}: data",
                     path, "what is encrypted is not the data", tr)
            return
        extra = s.canon(sub(mk_len(arg), mk_len(d)))
        ok = arg == d or (arg[:2] == ("op", "cat") and arg[2] == d)
        c.expect(ok and divisible(s, mk_len(arg), 8)
                 and s.le0(scale(extra, -1)) is True
                 and s.le0(sub(extra, const(8))) is True, "cipher",
                 f"{cons}: padding", path,
                 "what is encrypted is not the data padded to a multiple of "
                 "8 octets", tr)
    cipher_use(c, it, s, ct, tr, cons, path, name, "enc", data, salt)


def decryption(c, it, s, v, q, name, path):
    cons, tr = f"{q}.decrypt", c.trace(s, v)
    contexts(c, s, tr, cons, path)
    failedlib = bool(events(s, "libfail"))
    salted = s.decide(mk_eq(mk_len(B("salt")), const(8)))
    aligned = True if name == "AesCfb128" else \
        True if divisible(s, mk_len(B("data")), 8) else None
    if isinstance(v, Exc):
        if failedlib:
            return
        c.expect(v.cls == "snmp.security.usm.DecryptionError", "validation",
                 f"{cons}: error", path,
                 f"a ciphertext or salt that cannot be decrypted raises {v}",
                 tr)
        c.expect(salted is not True or aligned is not True, "validation",
                 f"{cons}: refused", path,
                 "a ciphertext and salt of proper length are refused", tr)
        return
    if not c.expect(not failedlib, "cipher", f"{cons}: library failure",
                    path, "the failure of a library function goes unnoticed",
                    tr):
        return
    c.count("decryptions")
    c.expect(salted is True, "validation", f"{cons}: salt", path,
             "a salt that is not 8 octets long is accepted", tr)
    c.expect(aligned is True, "validation", f"{cons}: ciphertext", path,
             "a ciphertext that is not a multiple of 8 octets is accepted",
             tr)

    def data(arg):
        c.expect(same(s, arg, B("data")) is True, "cipher", f"{cons}: data",
                 path, "what is decrypted is not the ciphertext", tr)
    cipher_use(c, it, s, v, tr, cons, path, name, "dec", data, B("salt"))


# -- salts ---------------------------------------------------------------------

def within(st, t, mod):
    return st.le0(scale(t, -1)) is True \
        and st.le0(sub(t, const(mod - 1))) is True


def odd_steps(cs, mod):
    return {d for d in ((b[1] - a[1]) % mod for a, b in zip(cs, cs[1:]))
            if d % 2}


def congruent(st, d, k, mod):
    """Whether d = k modulo mod."""
    return any(same(st, d, const(x)) is True for x in (k, k - mod)) or (
        is_const(d) and (d[2] - k) % mod == 0)


def counter(t):
    """(base, offset, modulus) of a counter term."""
    if t[:2] == ("op", "&") and is_const(t[3]):
        m = t[3][2] + 1
        c, d = lin_parts(t[2])
        if m & (m - 1) == 0 and len(d) == 1:
            (a, k), = d.items()
            if k == 1:
                if a[:2] == ("op", "&") and a[3] == t[3]:
                    b = counter(a)
                    return b and (b[0], b[1] + c, m)
                return a, c, m
    c, d = lin_parts(t)
    if not d:
        return ZERO, c, None
    if len(d) == 1:
        (a, k), = d.items()
        if k == 1 and not (a[0] == "op" and a[1] == "&"):
            return a, c, None
        if k == 1 and c:
            b = counter(a)
            return b and (b[0], b[1] + c, None)
    return None


def u05(c):
    c.rule("Three successive encryptions with one key object of every "
           "privacy class: the salts sent differ only in a counter of 64 "
           "(AES) or 32 (DES) bits, which moves by the same odd step modulo "
           "its range each time, and the state after an encryption is the "
           "same function of the counter each time, so by induction it "
           "takes all its values before any repeats; its start comes from "
           "os.urandom.")
    bs = backends(c)
    for q, name in bs:
        it = engine(c)
        path = c.prog.cls(q).module.relpath
        for s, p in normal(it.instantiate(State(), q, [B("key")], {}, TOP,
                                          None)):
            salts(c, it, s, p, q, name, path)
        c.used(it)
    c.count("privacy classes", len(bs))
    c.floor("privacy classes", 4)
    c.floor("sequences", 4)


def salts(c, it, s, p, q, name, path):
    cons = f"{q}.encrypt"
    width = COUNTER[name]
    runs = [(s, ())]
    for i in range(3):
        nxt = []
        for s1, hist in runs:
            for s2, v in normal(call(it, s1, p, "encrypt", B(f"data{i}"),
                                     N("boots"), N(f"time{i}"))):
                if events(s2, "libfail"):
                    continue
                salt = v[1][1]
                attrs = {k: s2.canon(x) for k, x in
                         s2.obj(p).attrs.items()}
                nxt.append((s2, hist + ((s2.canon(salt), attrs),)))
        runs = nxt
    for s2, hist in runs:
        c.count("sequences")
        tr = c.trace(s2)
        cs, rest, forms = [], [], []
        for salt, attrs in hist:
            n = mk_len(salt)
            parts = list(salt[2:]) if salt[:2] == ("op", "cat") else [salt]
            last = parts[-1]
            if last[0] == "c" and len(last[2]) >= width:
                num = const(int.from_bytes(last[2][-width:], "big"))
                parts[-1:] = [const(last[2][:-width])] \
                    if len(last[2]) > width else []
                last = op("tobytes", num, const(width))
                parts.append(last)
            cnt = counter(last[2]) if last[:2] == ("op", "tobytes") \
                and last[3] == const(width) and len(last) == 4 else None
            cs.append(cnt)
            rest.append(tuple(parts[:-1]))
            forms.append({k: (x, subst(x, last[2])) if cnt else (x, x)
                          for k, x in attrs.items()})
        if not c.expect(all(cs), "salt", f"{cons}: counter", path,
                        "the salt is not a counter", tr):
            continue
        mod = 1 << (8 * width)
        terms = [add(x[0], const(x[1])) for x in cs]
        full = all(x[2] == mod or x[2] is None and within(s2, t, mod)
                   for x, t in zip(cs, terms))
        good = full and any(
            all(congruent(s2, sub(b, a), k, mod)
                for a, b in zip(terms, terms[1:]))
            for k in {1} | odd_steps(cs, mod))
        c.expect(good, "salt",
                 f"{cons}: step", path,
                 "the salt does not take all its values before one repeats",
                 tr)
        c.expect(len(set(rest)) == 1, "salt", f"{cons}: prefix", path,
                 "the fixed part of the salt changes", tr)
        c.expect(all(set(f) == set(forms[0]) and all(
            f[k][0] == forms[0][k][0] or f[k][1] == forms[0][k][1]
            for k in f) for f in forms), "salt",
                 f"{cons}: induction", path,
                 "what an encryption leaves behind depends on more than the "
                 "salt", tr)
        seeds = [e[1][1] for e in s2.events if e[0] == "extret"
                 and e[1][0] == "os.urandom"]
        c.expect(any(mentions(cs[0][0], x) for x in seeds)
                 or is_const(cs[0][0]) and any(
                     mentions(a, x) for a, _ in s2.order for x in seeds),
                 "salt", f"{cons}: start", path, "the first salt is predictable", tr)


def subst(t, x):
    """t with the subterm x replaced by a marker."""
    if t == x:
        return ("mark",)
    if isinstance(t, tuple):
        return tuple(subst(y, x) for y in t)
    return t
