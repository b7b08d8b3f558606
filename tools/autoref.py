"""Whole-library behaviour-preserving rewrites, made mechanically; the checks have to stay quiet.

usage: autoref.py KIND OUTDIR      rewrites OUTDIR/src/vblf/*.py (OUTDIR is a copy of /repo)
       autoref.py -l               lists the kinds
"""
import ast
import glob
import os
import sys

HERE = {}


def kind(f):
    HERE[f.__name__.rstrip("_")] = f
    return f


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def is_generator(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def skip_doc(body):
    k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
        and isinstance(body[0].value.value, str) else 0
    return body[:k], body[k:]


def uses_super(fn):
    return any(isinstance(n, ast.Name) and n.id in ("super", "__class__") for n in ast.walk(fn))


@kind
def rename(tree):
    """every local variable gets another name"""
    for fn in functions(tree):
        params = {a.arg for a in [*fn.args.args, *fn.args.kwonlyargs, *fn.args.posonlyargs]}
        stored = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)
                  and isinstance(n.ctx, ast.Store)} - params
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in stored:
                n.id = f"{n.id}_"


@kind
def negate(tree):
    """if c: A else: B  becomes  if not c: B else: A (and guards get an explicit else)"""
    class T(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse:
                return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
            return n

        def visit_IfExp(self, n):
            self.generic_visit(n)
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    for fn in functions(tree):
        T().visit(fn)


@kind
def returns(tree):
    """return E  becomes  result = E; return result"""
    class T(ast.NodeTransformer):
        def visit_Return(self, n):
            if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
                return n
            return [ast.Assign([ast.Name("result", ast.Store())], n.value),
                    ast.Return(ast.Name("result", ast.Load()))]
    for fn in functions(tree):
        T().visit(fn)


@kind
def early(tree):
    """if c: ...return/raise/continue/break  followed by the rest: the rest moves into else"""
    def ends(b):
        return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def fix(body):
        out = []
        for k, s in enumerate(body):
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list) and getattr(s, f) and \
                        not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, fix(getattr(s, f)))
            out.append(s)
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and k + 1 < len(body):
                s.orelse = fix(body[k + 1:])
                break
        return out
    for fn in functions(tree):
        fn.body = fix(fn.body)


@kind
def temps(tree):
    """each call that is an argument of another call is given a name first (same order)"""
    class Hoist(ast.NodeTransformer):
        def __init__(self):
            self.pre, self.n = [], 0

        def visit_Lambda(self, n):
            return n

        def visit_GeneratorExp(self, n):
            return n
        visit_ListComp = visit_IfExp = visit_BoolOp = visit_GeneratorExp

        def visit_Call(self, n):
            plain = all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute)) or
                        isinstance(x, ast.Call) for x in n.args)
            self.generic_visit(n)
            if not plain:
                return n
            for k, a in enumerate(n.args):
                if isinstance(a, ast.Call):
                    # everything evaluated before it has to be free of effects
                    if any(isinstance(x, (ast.Call, ast.Starred)) for x in n.args[:k]):
                        break
                    nm = f"part_{self.n}"
                    self.n += 1
                    self.pre.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                    n.args[k] = ast.Name(nm, ast.Load())
            return n

    count = [0]

    def fix(body):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(
                    getattr(s, "value", None), ast.Call):
                h = Hoist()
                h.n = count[0]
                s.value = h.visit(s.value)
                count[0] = h.n
                out += h.pre
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list) and getattr(s, f) and \
                        not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, fix(getattr(s, f)))
            out.append(s)
        return out
    for fn in functions(tree):
        fn.body = fix(fn.body)


@kind
def helpers(tree):
    """every method is a thin wrapper around a private one that holds the old body"""
    for c in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        new = []
        for fn in c.body:
            new.append(fn)
            if not isinstance(fn, ast.FunctionDef) or uses_super(fn) or fn.args.vararg or \
                    fn.args.kwarg or fn.name in ("_generate_next_value_", "_missing_") or \
                    any(isinstance(d, ast.Name) and d.id in ("abstractmethod", "property")
                        for d in fn.decorator_list) or is_generator(fn):
                continue
            doc, rest = skip_doc(fn.body)
            if not rest:
                continue
            import copy
            g = copy.deepcopy(fn)
            g.name = f"_do_{fn.name.strip('_')}"
            g.body = rest
            static = any(isinstance(d, ast.Name) and d.id == "staticmethod"
                         for d in fn.decorator_list)
            ps = [a.arg for a in fn.args.args]
            if static:
                who, args = c.name, ps
            else:
                who, args = ps[0], ps[1:]
            call = ast.Call(ast.Attribute(ast.Name(who, ast.Load()), g.name, ast.Load()),
                            [ast.Name(a, ast.Load()) for a in args],
                            [ast.keyword(a.arg, ast.Name(a.arg, ast.Load()))
                             for a in fn.args.kwonlyargs])
            fn.body = [*doc, ast.Return(call)]
            new.append(g)
        c.body = new


@kind
def augment(tree):
    """x += e  becomes  x = x + e"""
    class T(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            import copy
            t = copy.deepcopy(n.target)
            for x in ast.walk(t):
                if hasattr(x, "ctx"):
                    x.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
    for fn in functions(tree):
        T().visit(fn)


@kind
def finally_(tree):
    """the body of every function that is no generator stands in try/finally"""
    for fn in functions(tree):
        doc, rest = skip_doc(fn.body)
        if rest and not is_generator(fn):
            fn.body = [*doc, ast.Try(rest, [], [], [ast.Pass()])]


@kind
def swap(tree):
    """a == b  becomes  b == a,  a < b  becomes  b > a"""
    other = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt,
             ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in other and not any(
                    isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
                return ast.Compare(n.comparators[0], [other[type(n.ops[0])]()], [n.left])
            return n
    for fn in functions(tree):
        T().visit(fn)


@kind
def unwalrus(tree):
    """if (x := e) ...  becomes  x = e; if x ..."""
    def fix(body):
        out = []
        for s in body:
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list) and getattr(s, f) and \
                        not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, fix(getattr(s, f)))
            if isinstance(s, ast.If) and isinstance(s.test, ast.NamedExpr):
                out.append(ast.Assign([ast.Name(s.test.target.id, ast.Store())], s.test.value))
                s.test = ast.Name(s.test.target.id, ast.Load())
            out.append(s)
        return out
    for fn in functions(tree):
        fn.body = fix(fn.body)


@kind
def whiles(tree):
    """while True: ... gets a flag; while c: becomes while True: if not c: break"""
    class T(ast.NodeTransformer):
        def visit_While(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.Constant):
                return [ast.Assign([ast.Name("go_on", ast.Store())], ast.Constant(True)),
                        ast.While(ast.Name("go_on", ast.Load()), n.body, [])]
            if n.orelse:
                return n
            return ast.While(ast.Constant(True), [
                ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], []), *n.body], [])
    for fn in functions(tree):
        T().visit(fn)


@kind
def keywords(tree):
    """constructor calls cls(...) by keyword keep their keywords, in reverse order"""
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if len(n.keywords) > 1 and all(k.arg and not any(
                    isinstance(x, (ast.Call, ast.NamedExpr, ast.Await)) for x in ast.walk(k.value))
                    for k in n.keywords):
                n.keywords = n.keywords[::-1]
            return n
    for fn in functions(tree):
        T().visit(fn)


@kind
def unpacking(tree):
    """(a, b, ...) = e  becomes  values = e; a = values[0]; b = values[1] ..."""
    class T(ast.NodeTransformer):
        def visit_Assign(self, n):
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and \
                    isinstance(n.value, ast.Call) and not any(
                        isinstance(t, ast.Starred) for t in n.targets[0].elts):
                out = [ast.Assign([ast.Name("values", ast.Store())], n.value)]
                for k, t in enumerate(n.targets[0].elts):
                    out.append(ast.Assign([t], ast.Subscript(
                        ast.Name("values", ast.Load()), ast.Constant(k), ast.Load())))
                return out
            return n
    for fn in functions(tree):
        T().visit(fn)


@kind
def modfuncs(tree):
    """every private method without self-calls by name stays; sizes of slices are named"""
    class T(ast.NodeTransformer):
        def visit_Assign(self, n):
            if isinstance(n.value, ast.Subscript) and isinstance(n.value.slice, ast.Slice) and \
                    n.value.slice.upper is not None and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                s = n.value.slice
                out = []
                lo = s.lower if s.lower is not None else ast.Constant(0)
                out.append(ast.Assign([ast.Name("first", ast.Store())], lo))
                out.append(ast.Assign([ast.Name("past", ast.Store())], s.upper))
                s.lower = ast.Name("first", ast.Load())
                s.upper = ast.Name("past", ast.Load())
                return [*out, n]
            return n
    for fn in functions(tree):
        T().visit(fn)


@kind
def nops(tree):
    """statements without effect in every function and loop"""
    for fn in functions(tree):
        doc, rest = skip_doc(fn.body)
        fn.body = [*doc, ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None)), *rest]
        for n in ast.walk(fn):
            if isinstance(n, (ast.While, ast.For)):
                n.body = [ast.Expr(ast.Constant(0)), ast.Pass(), *n.body]


@kind
def nested(tree):
    """the body of every method without generator is an inner function that is called at once"""
    for fn in functions(tree):
        doc, rest = skip_doc(fn.body)
        if not rest or is_generator(fn) or uses_super(fn):
            continue
        params = {a.arg for a in [*fn.args.args, *fn.args.kwonlyargs]}
        if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in params
               for n in ast.walk(fn)):
            continue
        g = ast.FunctionDef("run", ast.arguments([], [], None, [], [], None, []), rest, [],
                            None, None, type_params=[])
        fn.body = [*doc, g, ast.Return(ast.Call(ast.Name("run", ast.Load()), [], []))]


@kind
def locals_(tree):
    """attributes of self that are only read in a function are read once into a local"""
    for fn in functions(tree):
        if not fn.args.args or fn.args.args[0].arg != "self" or is_generator(fn) \
                or fn.name in ("close", "write", "_flush_container", "_update_file_statistics"):
            continue
        doc, rest = skip_doc(fn.body)
        if not rest or fn.name == "__init__":
            continue
        stored = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute)
                  and isinstance(n.ctx, ast.Store)}
        if any(isinstance(n, ast.FunctionDef) for s in rest for n in ast.walk(s)):
            continue
        found = []

        class T(ast.NodeTransformer):
            def visit_Call(self, n):
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                        n.func.value.id == "self":
                    n.args = [self.visit(a) for a in n.args]
                    return n
                return self.generic_visit(n)

            def visit_Attribute(self, n):
                if isinstance(n.value, ast.Name) and n.value.id == "self" and \
                        isinstance(n.ctx, ast.Load) and n.attr not in stored and \
                        not n.attr.startswith("_") and n.attr.islower():
                    if n.attr not in found:
                        found.append(n.attr)
                    return ast.Name(f"my_{n.attr}", ast.Load())
                return self.generic_visit(n)
        rest = [T().visit(s) for s in rest]
        fn.body = [*doc, *[ast.Assign([ast.Name(f"my_{a}", ast.Store())], ast.Attribute(
            ast.Name("self", ast.Load()), a, ast.Load())) for a in found], *rest]


@kind
def structs(tree):
    """Struct objects in class attributes are replaced by module-level formats: S.pack(..) ->
    struct.pack(S.format, ..)"""
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "pack", "unpack", "pack_into", "unpack_from") and \
                    isinstance(n.func.value, ast.Attribute) and "FORMAT" in n.func.value.attr:
                return ast.Call(ast.Attribute(ast.Name("struct", ast.Load()), n.func.attr,
                                              ast.Load()),
                                [ast.Attribute(n.func.value, "format", ast.Load()), *n.args],
                                n.keywords)
            return n
    used = [False]
    for fn in functions(tree):
        T().visit(fn)
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id == "struct":
            used[0] = True
    if used[0] and not any(isinstance(n, ast.Import) and any(a.name == "struct" for a in n.names)
                           for n in tree.body):
        tree.body.insert(0, ast.Import([ast.alias("struct", None)]))


if __name__ == "__main__":
    if sys.argv[1:] == ["-l"]:
        print("\n".join(HERE))
        sys.exit()
    for p in glob.glob(os.path.join(sys.argv[2], "src/vblf/*.py")):
        with open(p) as f:
            t = ast.parse(f.read())
        HERE[sys.argv[1]](t)
        ast.fix_missing_locations(t)
        with open(p, "w") as f:
            f.write(ast.unparse(t) + "\n")
