"""Short readable renderings of terms, conditions and paths."""


def name(k):
    if not isinstance(k, tuple):
        return str(k)
    if k[0] == "n":
        return str(k[1])
    if k[0] == "k":
        if k[1] == "attr":
            return f"{name(k[2])}.{k[3]}"
        if k[1] == "get":
            return f"{name(k[2])}[{pp(k[3])}]"
        if k[1] == "item":
            return f"{name(k[2])}[{k[3]}]"
        return f"{k[1]}({', '.join(name(x) for x in k[2:])})"
    return pp(k)


OPS = {"lt": "<", "le": "<=", "eq": "==", "in": "in", "is": "is"}


def pp(t, st=None):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "c":
        return repr(t[2])
    if k == "enum":
        return f"{t[1].rsplit('.', 1)[-1]}.{t[2]}"
    if k == "s":
        return name(t[1])
    if k == "lin":
        out = []
        for a, c in t[2]:
            p = pp(a, st)
            out.append(("+" if c > 0 else "-")
                       + ("" if abs(c) == 1 else f"{abs(c)}*") + p)
        if t[1]:
            out.append(f"{t[1]:+}")
        s = "".join(out)
        return s[1:] if s.startswith("+") else s
    if k == "op":
        n = t[1]
        if n == "not":
            return f"not ({pp(t[2], st)})"
        if n in ("lt", "le") and len(t) == 3:
            return f"{pp(t[2], st)} {OPS[n]} 0"
        if n in OPS and len(t) == 4:
            return f"{pp(t[2], st)} {OPS[n]} {pp(t[3], st)}"
        return f"{n}({', '.join(pp(x, st) for x in t[2:])})"
    if k == "tup":
        return "(" + ", ".join(pp(x, st) for x in t[1]) + ")"
    if k == "obj":
        if st is not None and t[1] in st.heap:
            o = st.obj(t)
            c = "|".join(sorted(q.rsplit(".", 1)[-1] for q in o.cls)) \
                if o.cls and not isinstance(o.cls, str) else o.kind
            return f"<{c}{' ' + name(o.name) if o.name else ''}>"
        return f"<obj {t[1]}>"
    if k == "k" or k == "n":
        return name(t)
    if k in ("cls", "func", "mod"):
        return str(t[1]).rsplit(".", 1)[-1] if isinstance(t[1], str) \
            else str(getattr(t[1], "qual", t[1]))
    return f"{k}:" + ",".join(pp(x, st) for x in t[1:])[:80]


def cond(st):
    """The branch decisions of a path."""
    return [("" if pol else "not ") + pp(a, st) for a, pol in st.order]


def show(st, v, kinds=(), events=True):
    print("=>", pp(v, st) if isinstance(v, tuple) else v)
    print("   if", "; ".join(cond(st)))
    if events:
        for e in st.events:
            if not kinds or e[0] in kinds:
                print("     ", e[0], ", ".join(
                    pp(x, st) if isinstance(x, tuple) else str(x)
                    for x in e[1]))
