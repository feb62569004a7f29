"""Standard library calls that stand for a piece of syntax, written out as that
syntax, so that the analyses see one form of each."""

import ast

NAMES = {"contextlib": ("suppress",), "functools": ("partial",),
         "itertools": ("chain", "repeat", "islice", "starmap"),
         "operator": ("attrgetter", "itemgetter", "methodcaller")}


class Desugar(ast.NodeTransformer):
    def __init__(self, tree):
        self.known = {}
        self.fresh = 0
        bound = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.module in NAMES \
                    and not n.level:
                for a in n.names:
                    if a.name in NAMES[n.module]:
                        self.known[a.asname or a.name] = a.name
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name in NAMES:
                        for f in NAMES[a.name]:
                            self.known[f"{a.asname or a.name}.{f}"] = f
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                bound.add(n.name)
            elif isinstance(n, ast.arg):
                bound.add(n.arg)
            elif isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                bound.add(n.id)
        if "filter" not in bound:
            self.known["filter"] = "filter"
        for n in bound:
            self.known.pop(n, None)

    def name(self):
        self.fresh += 1
        return f"_v{self.fresh}"

    def which(self, f):
        if isinstance(f, ast.Name):
            return self.known.get(f.id)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name):
                return self.known.get(f"{f.value.id}.{f.attr}")
            if f.attr == "from_iterable" and self.which(f.value) == "chain":
                return "from_iterable"
        return None

    def visit_With(self, node):
        self.generic_visit(node)
        for i, item in enumerate(node.items):
            e = item.context_expr
            if isinstance(e, ast.Call) and self.which(e.func) == "suppress" \
                    and not e.keywords and item.optional_vars is None \
                    and not any(isinstance(a, ast.Starred) for a in e.args):
                break
        else:
            return node
        body = node.body
        if node.items[i + 1:]:
            body = [self.visit_With(self.at(node, ast.With(
                items=node.items[i + 1:], body=body)))]
        if e.args:
            kind = e.args[0] if len(e.args) == 1 else ast.Tuple(
                elts=e.args, ctx=ast.Load())
            body = [self.at(node, ast.Try(
                body=body, handlers=[ast.ExceptHandler(
                    type=kind, name=None, body=[ast.Pass()])],
                orelse=[], finalbody=[]))]
        if node.items[:i]:
            return self.at(node, ast.With(items=node.items[:i], body=body))
        return body if len(body) > 1 else body[0]

    def at(self, node, new):
        ast.copy_location(new, node)
        for n in ast.walk(new):
            if "lineno" in getattr(n, "_attributes", ()) \
                    and not hasattr(n, "lineno"):
                ast.copy_location(n, node)
        return new

    def visit_Call(self, node):
        self.generic_visit(node)
        which = self.which(node.func)
        if which is None or which == "suppress":
            return node
        new = getattr(self, "c_" + which)(
            node.args, {k.arg: k.value for k in node.keywords})
        return node if new is None else self.at(node, new)

    def load(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def gen(self, elt, *loops):
        return ast.GeneratorExp(elt=elt, generators=[
            ast.comprehension(target=ast.Name(id=n, ctx=ast.Store()), iter=i,
                              ifs=ifs, is_async=0) for n, i, ifs in loops])

    def lam(self, params, body, star=None):
        return ast.Lambda(args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg=p) for p in params],
            vararg=ast.arg(arg=star) if star else None, kwonlyargs=[],
            kw_defaults=[], kwarg=None, defaults=[]), body=body)

    def c_filter(self, args, kw):
        if len(args) != 2 or kw:
            return None
        n = self.name()
        test = self.load(n)
        if not (isinstance(args[0], ast.Constant) and args[0].value is None):
            test = ast.Call(func=args[0], args=[test], keywords=[])
        return self.gen(self.load(n), (n, args[1], [test]))

    def c_chain(self, args, kw):
        if kw:
            return None
        seq = ast.Tuple(elts=list(args), ctx=ast.Load())
        return self.c_from_iterable([seq], {})

    def c_from_iterable(self, args, kw):
        if len(args) != 1 or kw:
            return None
        a, b = self.name(), self.name()
        return self.gen(self.load(b), (a, args[0], []), (b, self.load(a), []))

    def c_starmap(self, args, kw):
        if len(args) != 2 or kw:
            return None
        n = self.name()
        return self.gen(ast.Call(func=args[0], args=[ast.Starred(
            value=self.load(n), ctx=ast.Load())], keywords=[]),
            (n, args[1], []))

    def c_islice(self, args, kw):
        if kw or not 2 <= len(args) <= 4:
            return None
        a = list(args[1:])
        if len(a) == 1:
            a = [ast.Constant(value=None)] + a
        a += [None] * (3 - len(a))
        return ast.Subscript(
            value=ast.Call(func=self.load("list"), args=[args[0]],
                           keywords=[]),
            slice=ast.Slice(lower=a[0], upper=a[1], step=a[2]),
            ctx=ast.Load()) if "list" not in self.known else None

    def c_repeat(self, args, kw):
        if len(args) + len(kw) != 2 or not set(kw) <= {"times"}:
            return None
        n = self.name()
        times = args[1] if len(args) == 2 else kw["times"]
        return self.gen(args[0], (n, ast.Call(
            func=self.load("range"), args=[times], keywords=[]), []))

    def c_partial(self, args, kw):
        if not args or None in kw or any(
                isinstance(a, ast.Starred) for a in args):
            return None
        n = self.name()
        return self.lam([], ast.Call(
            func=args[0], args=args[1:] + [ast.Starred(
                value=self.load(n), ctx=ast.Load())],
            keywords=[ast.keyword(arg=k, value=v) for k, v in kw.items()]),
            star=n)

    def getter(self, args, kw, get):
        if kw or not args:
            return None
        n = self.name()
        got = [get(self.load(n), a) for a in args]
        if None in got:
            return None
        return self.lam([n], got[0] if len(got) == 1 else ast.Tuple(
            elts=got, ctx=ast.Load()))

    def c_itemgetter(self, args, kw):
        return self.getter(args, kw, lambda v, a: ast.Subscript(
            value=v, slice=a, ctx=ast.Load()))

    def c_attrgetter(self, args, kw):
        def get(v, a):
            if not isinstance(a, ast.Constant):
                return None
            for part in a.value.split("."):
                v = ast.Attribute(value=v, attr=part, ctx=ast.Load())
            return v
        return self.getter(args, kw, get)

    def c_methodcaller(self, args, kw):
        if not args or not isinstance(args[0], ast.Constant):
            return None
        n = self.name()
        return self.lam([n], ast.Call(
            func=ast.Attribute(value=self.load(n), attr=args[0].value,
                               ctx=ast.Load()), args=args[1:],
            keywords=[ast.keyword(arg=k, value=v) for k, v in kw.items()]))


def desugar(tree):
    d = Desugar(tree)
    if not d.known:
        return tree
    tree = d.visit(tree)
    return tree
