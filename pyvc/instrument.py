"""Mechanical rewriting of function bodies so that they run under the verifier's semantics.

What is changed: calls, subscript loads, `in`/`is` tests, `%` and loops inside function bodies.
What is not: statements, their order, module-level and class-level code, decorators,
default values and annotations.  Nothing is dropped.
"""
import ast

NATIVE_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "dir"}


class Reject(Exception):
    pass


class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ExceptHandler(self, node):
        # `except E as name` unbinds name afterwards: not loop carried
        for s in node.body:
            self.visit(s)

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def _comp(self, node):
        # comprehension targets are local to it; walrus inside leaks
        for sub in ast.walk(node):
            if isinstance(sub, ast.NamedExpr):
                self.add(sub.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


def assigned(nodes):
    v = _Assigned()
    for n in nodes:
        v.visit(n)
    return v.names


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


def call(fn, *args):
    return ast.Call(func=name(fn), args=list(args), keywords=[])


class Body(ast.NodeTransformer):
    """transforms statements/expressions of one function body"""

    def __init__(self, fname):
        self.fname = fname
        self.k = 0

    # -- nested definitions: body only
    def visit_FunctionDef(self, node):
        return instrument_function(node, self.fname, nested=self)

    def visit_AsyncFunctionDef(self, node):
        raise Reject("async function")

    def visit_ClassDef(self, node):
        return instrument_class(node, self.fname)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    # -- expressions
    def visit_Call(self, node):
        native = isinstance(node.func, ast.Name) and node.func.id in NATIVE_CALLS
        self.generic_visit(node)
        if native:
            return node
        return ast.copy_location(
            ast.Call(func=name("__vc_call__"), args=[node.func, *node.args],
                     keywords=node.keywords), node)

    def visit_Slice(self, node):
        self.generic_visit(node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node

        def idx(s):
            if isinstance(s, ast.Slice):
                none = ast.Constant(value=None)
                return ast.Call(func=name("__vc_slice__"),
                                args=[s.lower or none, s.upper or none, s.step or none],
                                keywords=[])
            if isinstance(s, ast.Tuple):
                return ast.Tuple(elts=[idx(e) for e in s.elts], ctx=ast.Load())
            return s

        return ast.copy_location(call("__vc_getitem__", node.value, idx(node.slice)), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if not isinstance(node.op, ast.Mod):
            return node
        return ast.copy_location(call("__vc_mod__", node.left, node.right), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        kinds = (ast.In, ast.NotIn, ast.Is, ast.IsNot, ast.Eq, ast.NotEq)
        if not any(isinstance(o, kinds) for o in node.ops):
            return node

        def one(o, a, b):
            if isinstance(o, (ast.In, ast.NotIn)):
                r = call("__vc_contains__", b, a)
            elif isinstance(o, (ast.Is, ast.IsNot)):
                r = call("__vc_is__", a, b)
            elif isinstance(o, (ast.Eq, ast.NotEq)):
                return call("__vc_eq__" if isinstance(o, ast.Eq) else "__vc_ne__", a, b)
            else:
                return ast.Compare(left=a, ops=[o], comparators=[b])
            if isinstance(o, (ast.NotIn, ast.IsNot)):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return r

        if len(node.ops) == 1:
            return ast.copy_location(one(node.ops[0], node.left, node.comparators[0]), node)
        left, out = node.left, []
        for i, (o, c) in enumerate(zip(node.ops, node.comparators)):
            if i < len(node.ops) - 1:
                t = self.temp()
                c = ast.NamedExpr(target=ast.Name(id=t, ctx=ast.Store()), value=c)
                nxt = name(t)
            if isinstance(o, (ast.In, ast.NotIn)):
                # the container is evaluated first by the call: keep the order of evaluation
                t = self.temp()
                out.append(ast.Compare(
                    left=ast.Tuple(elts=[ast.NamedExpr(target=ast.Name(id=t, ctx=ast.Store()),
                                                       value=left)], ctx=ast.Load()),
                    ops=[ast.IsNot()], comparators=[ast.Constant(value=None)]))
                left = name(t)
            out.append(one(o, left, c))
            left = nxt
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=out), node)

    def temp(self):
        self.t = getattr(self, "t", 0) + 1
        return f"__vc_c{self.t}"

    # -- statements
    def visit_Match(self, node):
        structural = (ast.MatchClass, ast.MatchMapping, ast.MatchSequence, ast.MatchStar)
        if any(isinstance(p, structural) for c in node.cases for p in ast.walk(c.pattern)):
            return self._match(node)
        self.generic_visit(node)
        return node

    def _match(self, node):
        """structural patterns: an if chain over the same tests"""
        def bind(n, e):
            # (n := e,) is true
            return ast.Tuple(elts=[ast.NamedExpr(target=ast.Name(id=n, ctx=ast.Store()), value=e)],
                             ctx=ast.Load())

        def conj(xs):
            return xs[0] if len(xs) == 1 else ast.BoolOp(op=ast.And(), values=xs)

        def sub(e, i):
            return call("__vc_getitem__", e, i)

        def vcall(f, *a):
            return ast.Call(func=name("__vc_call__"), args=[name(f), *a], keywords=[])

        def pat(p, t):
            """condition for the pattern on the variable t"""
            e = name(t)
            if isinstance(p, ast.MatchValue):
                return call("__vc_eq__", e, self.visit(p.value))
            if isinstance(p, ast.MatchSingleton):
                return call("__vc_is__", e, ast.Constant(value=p.value))
            if isinstance(p, ast.MatchAs):
                xs = [pat(p.pattern, t)] if p.pattern is not None else []
                if p.name is not None:
                    xs.append(bind(p.name, e))
                return conj(xs or [ast.Constant(value=True)])
            if isinstance(p, ast.MatchOr):
                return ast.BoolOp(op=ast.Or(), values=[pat(q, t) for q in p.patterns])
            if isinstance(p, ast.MatchClass):
                cls = self.visit(p.cls)
                xs = [vcall("isinstance", e, cls)]
                for k, q in [*enumerate(p.patterns), *zip(p.kwd_attrs, p.kwd_patterns)]:
                    u, v = self.temp(), self.temp()
                    xs += [ast.NamedExpr(target=ast.Name(id=u, ctx=ast.Store()),
                                         value=call("__vc_matchattr__", e, cls,
                                                    ast.Constant(value=k))),
                           bind(v, sub(name(u), ast.Constant(value=0))), pat(q, v)]
                return conj(xs)
            if isinstance(p, ast.MatchSequence):
                stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
                n = len(p.patterns)
                size = vcall("len", e)
                xs = [call("__vc_isseq__", e),
                      call("__vc_eq__", size, ast.Constant(value=n)) if not stars else
                      ast.Compare(left=size, ops=[ast.GtE()],
                                  comparators=[ast.Constant(value=n - 1)])]
                for i, q in enumerate(p.patterns):
                    if isinstance(q, ast.MatchStar):
                        if q.name is not None:
                            end = ast.Constant(value=(i + 1 - n) or None)
                            xs.append(bind(q.name, vcall("list", sub(e, call(
                                "__vc_slice__", ast.Constant(value=i), end,
                                ast.Constant(value=None))))))
                        continue
                    v = self.temp()
                    k = i if not stars or i < stars[0] else i - n
                    xs += [bind(v, sub(e, ast.Constant(value=k))), pat(q, v)]
                return conj(xs)
            if isinstance(p, ast.MatchMapping):
                if p.rest is not None:
                    raise Reject("mapping pattern with a rest")
                xs = [call("__vc_ismap__", e)]
                for k, q in zip(p.keys, p.patterns):
                    v = self.temp()
                    xs += [call("__vc_contains__", e, k), bind(v, sub(e, k)), pat(q, v)]
                return conj(xs)
            raise Reject("match pattern")

        t = self.temp()
        subject = self.visit(node.subject)
        done = None
        for c in reversed(node.cases):
            xs = [pat(c.pattern, t)]
            if c.guard is not None:
                xs.append(self.visit(c.guard))
            body = []
            for s in c.body:
                r = self.visit(s)
                body += r if isinstance(r, list) else [r]
            done = [ast.If(test=conj(xs), body=body, orelse=done or [])]
        out = [ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=subject), *done]
        for s in out:
            ast.copy_location(s, node)
        return out

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(value=call("__vc_guard__")))
        return node

    def visit_TryStar(self, node):
        raise Reject("except*")

    def visit_With(self, node):
        self.generic_visit(node)
        return node

    def _loop(self, node, pre, test, target):
        self.k += 1
        k = self.k
        lv, tv, ev = f"__vc_L{k}", f"__vc_T{k}", f"__vc_E{k}"
        names = assigned(
            [*node.body, *([target] if target is not None else [ast.Expr(value=node.test)])])
        names = [n for n in names if not n.startswith("__vc_")]
        out = [ast.Assign(targets=[ast.Name(id=lv, ctx=ast.Store())], value=pre(names)),
               ast.Assign(targets=[ast.Name(id=ev, ctx=ast.Store())],
                          value=ast.Constant(value=False))]
        body = [ast.Assign(
            targets=[ast.Name(id=tv, ctx=ast.Store())],
            value=ast.Call(func=ast.Attribute(value=name(lv), attr="head", ctx=ast.Load()),
                           args=[ast.Call(func=name("locals"), args=[], keywords=[])],
                           keywords=[]))]
        if names:
            body.append(ast.If(
                test=ast.Compare(left=name(tv), ops=[ast.IsNot()],
                                 comparators=[ast.Constant(value=None)]),
                body=[ast.Assign(
                    targets=[ast.Name(id=n, ctx=ast.Store())],
                    value=ast.Subscript(value=name(tv), slice=ast.Constant(value=n),
                                        ctx=ast.Load())) for n in names],
                orelse=[]))
        body.append(ast.If(
            test=ast.UnaryOp(op=ast.Not(), operand=test(lv)),
            body=[ast.Assign(targets=[ast.Name(id=ev, ctx=ast.Store())],
                             value=ast.Constant(value=True)), ast.Break()],
            orelse=[]))
        if target is not None:
            body.append(ast.Assign(
                targets=[target],
                value=ast.Call(func=ast.Attribute(value=name(lv), attr="next", ctx=ast.Load()),
                               args=[], keywords=[])))
        body += node.body
        out.append(ast.While(test=ast.Constant(value=True), body=body, orelse=[]))
        out.append(ast.Expr(value=ast.Call(
            func=ast.Attribute(value=name(lv), attr="exit", ctx=ast.Load()), args=[],
            keywords=[])))
        if node.orelse:
            out.append(ast.If(test=name(ev), body=node.orelse, orelse=[]))
        for s in out:
            ast.copy_location(s, node)
        return out

    def visit_While(self, node):
        self.generic_visit(node)
        where = ast.Constant(value=f"{self.fname}:{node.lineno}")
        return self._loop(
            node,
            lambda names: call("__vc_loop__", where, ast.Tuple(
                elts=[ast.Constant(value=n) for n in names], ctx=ast.Load())),
            lambda lv: node.test, None)

    def visit_For(self, node):
        self.generic_visit(node)
        where = ast.Constant(value=f"{self.fname}:{node.lineno}")
        return self._loop(
            node,
            lambda names: call("__vc_for__", where, ast.Tuple(
                elts=[ast.Constant(value=n) for n in names], ctx=ast.Load()), node.iter),
            lambda lv: ast.Call(
                func=ast.Attribute(value=name(lv), attr="more", ctx=ast.Load()),
                args=[], keywords=[]),
            node.target)

    def visit_AsyncFor(self, node):
        raise Reject("async for")

    def visit_Await(self, node):
        raise Reject("await")


def instrument_function(node, fname, nested=None):
    b = Body(fname)
    if nested is not None:
        b.k = nested.k + 100
    doc = []
    body = node.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
            and isinstance(body[0].value.value, str):
        doc, body = body[:1], body[1:]
    new = list(doc)
    for s in body:
        r = b.visit(s)
        if isinstance(r, list):
            new += r
        elif r is not None:
            new.append(r)
    node.body = new or [ast.Pass()]
    return node


def instrument_class(node, fname):
    for i, s in enumerate(node.body):
        if isinstance(s, ast.FunctionDef):
            node.body[i] = instrument_function(s, fname)
        elif isinstance(s, ast.AsyncFunctionDef):
            raise Reject("async method")
        elif isinstance(s, ast.ClassDef):
            node.body[i] = instrument_class(s, fname)
    return node


class _TopLambda(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname

    def visit_FunctionDef(self, node):
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_Lambda(self, node):
        node.body = Body(self.fname).visit(node.body)
        return node


def instrument_module(src, fname):
    tree = ast.parse(src, filename=fname)
    short = fname.split("/")[-1]

    def go(stmts):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.FunctionDef):
                stmts[i] = instrument_function(s, short)
            elif isinstance(s, ast.AsyncFunctionDef):
                raise Reject("async function")
            elif isinstance(s, ast.ClassDef):
                stmts[i] = instrument_class(s, short)
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                go(s.body)
                go(getattr(s, "orelse", []))
                go(getattr(s, "finalbody", []))
                for h in getattr(s, "handlers", []):
                    go(h.body)
    go(tree.body)
    tree = _TopLambda(short).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, fname, "exec")
