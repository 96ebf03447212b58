#!/usr/bin/env python3
"""rewrites a copy of the package without changing what it does, in one of
several ways, and runs the checks on it: none may report anything.

usage: autoref.py [-k] [TRANSFORM...] [-- P01 ...]"""

import ast
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fresh(node):
    fresh.n += 1
    return "v%d_" % fresh.n


fresh.n = 0


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def scopes(fn):
    """nodes of a function, without those of nested scopes"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Plain(ast.NodeTransformer):
    """only the layout"""


class Invert(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = ast.UnaryOp(ast.Not(), n.test)
        n.body, n.orelse = n.orelse or [ast.Pass()], n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Result(ast.NodeTransformer):
    """results by way of a variable"""

    def visit_Return(self, n):
        if n.value is None:
            return n
        v = fresh(n)
        return [ast.Assign([name(v, ast.Store())], n.value),
                ast.Return(name(v))]


class Listed(ast.NodeTransformer):
    """[x for ...] -> list(x for ...), and the other way round"""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(name("list"), [ast.GeneratorExp(
            n.elt, n.generators)], [])

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ("set", "tuple") \
                and len(n.args) == 1 and isinstance(
                    n.args[0], ast.GeneratorExp):
            g = n.args[0]
            self.generic_visit(g)
            return ast.Call(n.func, [ast.ListComp(g.elt, g.generators)], [])
        self.generic_visit(n)
        return n


class Renamed(ast.NodeTransformer):
    """local variables have other names"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        a = n.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                params.add(x.arg)
        inner = set()
        for d in ast.walk(n):
            if d is not n and isinstance(d, (
                    ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                inner |= {x.id for x in ast.walk(d)
                          if isinstance(x, ast.Name)}
            if isinstance(d, (ast.Global, ast.Nonlocal)):
                inner |= set(d.names)
            if isinstance(d, (ast.Import, ast.ImportFrom)):
                inner |= {x.asname or x.name.split(".")[0] for x in d.names}
            if isinstance(d, ast.ExceptHandler) and d.name:
                inner.add(d.name)
            if isinstance(d, (ast.FunctionDef, ast.ClassDef)):
                inner.add(d.name)
        uses = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)
                and isinstance(x.ctx, ast.Store)} - params - inner
        if "locals" in {x.id for x in ast.walk(n)
                        if isinstance(x, ast.Name)}:
            return n
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in uses and \
                    not x.id.endswith("_q"):
                x.id += "_q"
        return n


class Iterated(ast.NodeTransformer):
    """for x in xs -> it = iter(xs); for x in it"""

    def visit_For(self, n):
        self.generic_visit(n)
        v = fresh(n)
        it = ast.Assign([name(v, ast.Store())], ast.Call(
            name("iter"), [n.iter], []))
        n.iter = name(v)
        return [it, n]


class Nested(ast.NodeTransformer):
    """the body of each function becomes a helper of it"""

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        return n

    def visit_FunctionDef(self, n):
        a = n.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                params.add(x.arg)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and not isinstance(
                    x.ctx, ast.Load) and x.id in params:
                return n
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                return n
            if isinstance(x, ast.Name) and x.id in ("super", "locals") and \
                    "super" == x.id and any(
                        isinstance(y, ast.Call) and y.func is x and
                        not y.args for y in ast.walk(n)):
                return n
            if isinstance(x, ast.ExceptHandler) and x.name in params:
                return n
        doc = []
        body = n.body
        if ast.get_docstring(n) is not None:
            doc, body = body[:1], body[1:]
        if not body or n.decorator_list:
            return n
        v = "body_of_" + n.name.strip("_")
        n.body = doc + [
            ast.FunctionDef(v, ast.arguments([], [], None, [], [], None, []),
                            body, [], None),
            ast.Return(ast.Call(name(v), [], []))]
        return n


class Split(ast.NodeTransformer):
    """if a and b: X -> if a: if b: X"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse or not (isinstance(n.test, ast.BoolOp) and
                            isinstance(n.test.op, ast.And)):
            return n
        body = n.body
        for t in reversed(n.test.values):
            body = [ast.If(t, body, [])]
        return body[0]


class Flip(ast.NodeTransformer):
    """a == b -> b == a"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt,
              ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in sw and \
                not any(isinstance(x, ast.Call)
                        for x in ast.walk(n)):
            return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()],
                               [n.left])
        return n


class Else(ast.NodeTransformer):
    """if c: return X; rest -> if c: return X else: rest"""

    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and \
                    b[i + 1:]:
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n


class NoElse(ast.NodeTransformer):
    """if c: return X else: rest -> if c: return X; rest"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and isinstance(n.body[-1], (
                ast.Return, ast.Raise, ast.Continue)):
            rest, n.orelse = n.orelse, []
            return [n] + rest
        return n


class This(ast.NodeTransformer):
    """self by another name"""

    def visit_FunctionDef(self, n):
        if not n.args.args or n.args.args[0].arg != "self" or any(
                isinstance(x, ast.Name) and x.id == "super"
                for x in ast.walk(n)):
            return n
        doc = []
        if ast.get_docstring(n) is not None:
            doc, n.body = n.body[:1], n.body[1:]
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id == "self":
                    x.id = "this"
        n.body = doc + [ast.Assign([name("this", ast.Store())],
                                   name("self"))] + n.body
        return n


class Temps(ast.NodeTransformer):
    """arguments are computed before, one by one"""

    def args(self, call):
        out = []
        if not isinstance(call, ast.Call) or any(
                isinstance(x, (ast.Starred, ast.GeneratorExp))
                for x in call.args):
            return out
        if isinstance(call.func, ast.Name) and call.func.id == "super":
            return out
        for i, x in enumerate(call.args):
            if isinstance(x, (ast.Constant, ast.Name, ast.Lambda)):
                continue
            v = fresh(x)
            out.append(ast.Assign([name(v, ast.Store())], x))
            call.args[i] = name(v)
        return out

    def visit_Expr(self, n):
        return self.args(n.value) + [n]

    def visit_Assign(self, n):
        if not all(isinstance(t, ast.Name) for t in n.targets):
            return n
        return self.args(n.value) + [n]

    def visit_Return(self, n):
        return self.args(n.value) + [n]

    def visit_ClassDef(self, n):
        for i, s in enumerate(n.body):
            if isinstance(s, ast.FunctionDef):
                n.body[i] = self.visit(s)
        return n


class Loops(ast.NodeTransformer):
    """x = [e for i in s if c] -> a loop"""

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                isinstance(n.value, ast.ListComp) and \
                len(n.value.generators) == 1:
            g = n.value.generators[0]
            v = fresh(n)
            body = [ast.Expr(ast.Call(ast.Attribute(
                name(v), "append", ast.Load()), [n.value.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([name(v, ast.Store())], ast.List(
                [], ast.Load())), ast.For(g.target, g.iter, body, []),
                ast.Assign(n.targets, name(v))]
        return n

    def visit_ClassDef(self, n):
        for i, s in enumerate(n.body):
            if isinstance(s, ast.FunctionDef):
                n.body[i] = self.visit(s)
        return n


class Format(ast.NodeTransformer):
    """"%s" % x -> "{}".format(x)"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(
                n.left, ast.Constant) and isinstance(n.left.value, str) and \
                isinstance(n.right, ast.Tuple):
            s = n.left.value
            if s.replace("%s", "").count("%") or "{" in s or "}" in s:
                return n
            return ast.Call(ast.Attribute(ast.Constant(s.replace(
                "%s", "{0}")) if 0 else ast.Constant(s.replace("%s", "{}")),
                "format", ast.Load()), n.right.elts, [])
        return n


class Ternary(ast.NodeTransformer):
    """x = a if c else b -> if c: x = a else: x = b"""

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and all(
                isinstance(t, ast.Name) for t in n.targets):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)],
                          [ast.Assign(n.targets, v.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Return(v.body)],
                          [ast.Return(v.orelse)])
        return n


class With(ast.NodeTransformer):
    """with a, b: -> with a: with b:"""

    def visit_With(self, n):
        self.generic_visit(n)
        if len(n.items) > 1:
            body = n.body
            for i in reversed(n.items):
                body = [ast.With([i], body)]
            return body[0]
        return n


class Ranges(ast.NodeTransformer):
    """for x in y: ... -> the body is a helper in methods without results"""

    def visit_For(self, n):
        self.generic_visit(n)
        for x in ast.walk(n):
            if isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield,
                              ast.YieldFrom)):
                return n
        stored = {x.id for s in n.body for x in ast.walk(s)
                  if isinstance(x, ast.Name) and
                  not isinstance(x.ctx, ast.Load)}
        if stored or n.orelse or not isinstance(n.target, (
                ast.Name, ast.Tuple)) or any(
                    isinstance(x, (ast.FunctionDef, ast.ClassDef))
                    for s in n.body for x in ast.walk(s)):
            return n
        ts = [n.target] if isinstance(n.target, ast.Name) else n.target.elts
        if not all(isinstance(t, ast.Name) for t in ts):
            return n
        v = "each_" + fresh(n)
        return [ast.FunctionDef(v, ast.arguments(
            [], [ast.arg(t.id) for t in ts], None, [], [], None, []),
            n.body, [], None),
            ast.For(n.target, n.iter, [ast.Expr(ast.Call(
                name(v), [name(t.id) for t in ts], []))], [])]

    def visit_Module(self, n):
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.generic_visit(s)
        return n


class Statics(ast.NodeTransformer):
    """a statement which does nothing at the start of each function"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if ast.get_docstring(n) is not None else 0
        n.body.insert(i, ast.Assign([name("_unused", ast.Store())],
                                    ast.Constant(0)))
        return n


class Extract(ast.NodeTransformer):
    """results and conditions are computed by helpers of the module"""

    what = (ast.Return, ast.If)

    def visit_Module(self, m):
        out = []
        for s in m.body:
            self.new = []
            if isinstance(s, ast.FunctionDef):
                self.fn(s)
            elif isinstance(s, ast.ClassDef):
                for f in s.body:
                    if isinstance(f, ast.FunctionDef):
                        self.fn(f)
            out += self.new + [s]
        # imports from the future come first
        fut = [s for s in out if isinstance(s, ast.ImportFrom) and
               s.module == "__future__"]
        doc = out[:1] if ast.get_docstring(m) is not None else []
        rest = [s for s in out if s not in fut and s not in doc]
        m.body = doc + fut + rest
        return m

    def fn(self, f):
        a = f.args
        loc = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                loc.add(x.arg)
        inner = set()
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                loc.add(x.id)
            if x is not f and isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                inner |= {id(y) for y in ast.walk(x)}
                loc.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                loc |= {y.asname or y.name.split(".")[0] for y in x.names}
            if isinstance(x, ast.ExceptHandler) and x.name:
                loc.add(x.name)
        for x in ast.walk(f):
            if not isinstance(x, self.what) or id(x) in inner:
                continue
            field = "value" if isinstance(x, ast.Return) else "test"
            e = getattr(x, field)
            if e is None or isinstance(e, (ast.Name, ast.Constant)):
                continue
            bad = bound = False
            used, own = [], set()
            for y in ast.walk(e):
                if isinstance(y, ast.comprehension):
                    own |= {z.id for z in ast.walk(y.target)
                            if isinstance(z, ast.Name)}
                if isinstance(y, ast.Lambda):
                    own |= {z.arg for z in y.args.args}
            for y in ast.walk(e):
                if isinstance(y, (ast.Yield, ast.YieldFrom, ast.Await,
                                  ast.NamedExpr)):
                    bad = True
                if isinstance(y, ast.Name):
                    if y.id in ("super", "locals"):
                        bad = True
                    if y.id in loc and y.id not in own and \
                            y.id not in used:
                        used.append(y.id)
                    if y.id in own and y.id in {
                            z.arg for z in a.args}:
                        bad = True
                for n in (getattr(y, "id", ""), getattr(y, "attr", "")):
                    if n.startswith("__") and not n.endswith("__"):
                        bad = True
            if bad:
                continue
            v = "_part_" + fresh(x)
            self.new.append(ast.FunctionDef(v, ast.arguments(
                [], [ast.arg(u) for u in used], None, [], [], None, []),
                [ast.Return(e)], [], None))
            setattr(x, field, ast.Call(name(v), [name(u) for u in used], []))


class ExtractLoops(ast.NodeTransformer):
    """the bodies of loops become helpers of the module where nothing is
    assigned but what the body itself uses"""

    def visit_Module(self, m):
        E = Extract()
        out = []
        for s in m.body:
            self.new = []
            fs = [s] if isinstance(s, ast.FunctionDef) else [
                f for f in getattr(s, "body", [])
                if isinstance(f, ast.FunctionDef)] if isinstance(
                    s, ast.ClassDef) else []
            for f in fs:
                self.fn(f)
            out += self.new + [s]
        m.body = out
        del E
        return m

    def fn(self, f):
        a = f.args
        loc = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                loc.add(x.arg)
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                loc.add(x.id)
            if x is not f and isinstance(x, (ast.FunctionDef, ast.ClassDef,
                                             ast.Lambda)):
                return
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                loc |= {y.asname or y.name.split(".")[0] for y in x.names}
            if isinstance(x, ast.ExceptHandler) and x.name:
                loc.add(x.name)
        for n in ast.walk(f):
            if not isinstance(n, ast.For):
                continue
            inside = {id(x) for s in n.body for x in ast.walk(s)}
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue,
                                  ast.Yield, ast.YieldFrom, ast.Delete))
                   for s in n.body for x in ast.walk(s)):
                continue
            names = [x for s in n.body for x in ast.walk(s)
                     if isinstance(x, ast.Name)]
            stored = {x.id for x in names
                      if not isinstance(x.ctx, ast.Load)}
            outside = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)
                       and id(x) not in inside}
            if stored & outside or {x.id for x in names} & {
                    "super", "locals"}:
                continue
            # assigned before use in the body, at its top level
            first = n.body[0]
            if stored and not all(any(
                    isinstance(s, ast.Assign) and any(
                        isinstance(y, ast.Name) and y.id == v
                        for t in s.targets for y in ast.walk(t))
                    or isinstance(s, ast.For) and any(
                        isinstance(y, ast.Name) and y.id == v
                        for y in ast.walk(s.target))
                    for s in n.body) for v in stored):
                continue
            if any((getattr(y, "attr", "") or "").startswith("__") and
                   not y.attr.endswith("__")
                   for s in n.body for y in ast.walk(s)):
                continue
            del first
            used = sorted({x.id for x in names if x.id in loc} - stored)
            v = "_each_" + fresh(n)
            self.new.append(ast.FunctionDef(v, ast.arguments(
                [], [ast.arg(u) for u in used], None, [], [], None, []),
                n.body, [], None))
            n.body = [ast.Expr(ast.Call(name(v), [name(u) for u in used],
                                        []))]
            return


class Methods(ast.NodeTransformer):
    """methods in the reverse order"""

    def visit_ClassDef(self, n):
        fs = [s for s in n.body if isinstance(s, ast.FunctionDef)]
        rest = [s for s in n.body if not isinstance(s, ast.FunctionDef)]
        names = {f.name for f in fs}
        if len(names) != len(fs) or any(
                isinstance(x, ast.Name) and x.id in names
                for s in rest for x in ast.walk(s)):
            return n
        n.body = rest + fs[::-1]
        return n


class While(ast.NodeTransformer):
    """for loops as while loops"""

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        it = fresh(n)
        brk = ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])
        return [ast.Assign([name(it, ast.Store())], ast.Call(
            name("iter"), [n.iter], [])),
            ast.While(ast.Constant(True), [ast.Try(
                [ast.Assign([n.target], ast.Call(
                    name("next"), [name(it)], []))], [brk], [], [])] + n.body,
                [])]


class Index(ast.NodeTransformer):
    """for i in range(n) -> while i < n, for x in enumerate -> a counter"""

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or not isinstance(n.iter, ast.Call) or not isinstance(
                n.iter.func, ast.Name) or len(n.iter.args) != 1 or any(
                    isinstance(x, ast.Continue) for s in n.body
                    for x in ast.walk(s)):
            return n
        if n.iter.func.id in ("range", "xrange") and isinstance(
                n.target, ast.Name):
            i, e = "i" + fresh(n), "n" + fresh(n)
            return [ast.Assign([name(e, ast.Store())], n.iter.args[0]),
                    ast.Assign([name(i, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [name(e)]),
                              [ast.Assign([n.target], name(i))] + n.body + [
                                  ast.AugAssign(name(i, ast.Store()),
                                                ast.Add(), ast.Constant(1))],
                              [])]
        if n.iter.func.id == "enumerate" and isinstance(
                n.target, ast.Tuple):
            i = "i" + fresh(n)
            return [ast.Assign([name(i, ast.Store())], ast.Constant(0)),
                    ast.For(n.target.elts[1], n.iter.args[0], [
                        ast.Assign([n.target.elts[0]], name(i))] + n.body + [
                            ast.AugAssign(name(i, ast.Store()), ast.Add(),
                                          ast.Constant(1))], [])]
        return n


class Literals(ast.NodeTransformer):
    """dict() -> {}, list() -> [], tuple() -> ()"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and not n.args and not n.keywords:
            if n.func.id == "dict":
                return ast.Dict([], [])
            if n.func.id == "list":
                return ast.List([], ast.Load())
            if n.func.id == "tuple":
                return ast.Tuple([], ast.Load())
        return n


class DeMorgan(ast.NodeTransformer):
    """if a or b -> if not (not a and not b)"""

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.And() if isinstance(n.test.op, ast.Or) else ast.Or()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(
                op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class OneOf(ast.NodeTransformer):
    """x in (1, 2) -> x == 1 or x == 2"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(n.left, ast.Name) and isinstance(
                    n.comparators[0], ast.Tuple) and \
                n.comparators[0].elts:
            pos = isinstance(n.ops[0], ast.In)
            return ast.BoolOp(ast.Or() if pos else ast.And(), [
                ast.Compare(n.left, [ast.Eq() if pos else ast.NotEq()], [e])
                for e in n.comparators[0].elts])
        return n


class Yields(ast.NodeTransformer):
    """for x in y: yield x -> yield from y"""

    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Yield) and isinstance(
                    n.target, ast.Name) and isinstance(
                    n.body[0].value.value, ast.Name) and \
                n.body[0].value.value.id == n.target.id and not n.orelse:
            return ast.Expr(ast.YieldFrom(n.iter))
        return n


class TryFinally(ast.NodeTransformer):
    """with open(x) as y: body -> y = open(x); try: body finally: y.close()"""

    def visit_With(self, n):
        self.generic_visit(n)
        if len(n.items) == 1 and isinstance(n.items[0].optional_vars, ast.Name
                                            ) and isinstance(
                n.items[0].context_expr, ast.Call) and ast.unparse(
                    n.items[0].context_expr.func) in (
                        "open", "ZipFile", "zip_file", "open_zip"):
            i = n.items[0]
            if ast.unparse(i.context_expr.func) == "open_zip":
                return n
            return [ast.Assign([i.optional_vars], i.context_expr),
                    ast.Try(n.body, [], [], [ast.Expr(ast.Call(ast.Attribute(
                        name(i.optional_vars.id), "close", ast.Load()),
                        [], []))])]
        return n


class Swapped(ast.NodeTransformer):
    """neighbouring assignments which do not matter to each other, swapped"""

    def pure(self, e):
        return not any(isinstance(x, (ast.Call, ast.Yield, ast.Await,
                                      ast.Subscript, ast.BinOp,
                                      ast.ListComp, ast.GeneratorExp))
                       for x in ast.walk(e))

    def block(self, b):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and
                   self.pure(s.value) for s in (x, y)):
                tx, ty = map(ast.unparse, (x.targets[0], y.targets[0]))
                if tx not in ast.unparse(y) and ty not in ast.unparse(x):
                    b[i], b[i + 1] = y, x
                    i += 1
            i += 1
        return b

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        for x in ast.walk(n):
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(x, f, None), list):
                    setattr(x, f, self.block(getattr(x, f)))
        return n


class Aliased(ast.NodeTransformer):
    """results of attributes by getattr"""

    def visit_FunctionDef(self, n):
        n.body = [self.visit(s) for s in n.body]
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and \
                n.value.id == "self" and not n.attr.startswith("__"):
            return ast.Call(name("getattr"), [n.value, ast.Constant(n.attr)],
                            [])
        return n


ALL = [Index, Methods, While, Literals, DeMorgan, OneOf, Yields, TryFinally, Swapped,
       Aliased, Extract, ExtractLoops, Plain, Invert, Result, Listed, Renamed, Iterated, Nested, Split, Flip,
       Else, NoElse, This, Temps, Loops, Format, Ternary, With, Ranges,
       Statics]


def main(argv):
    pids = []
    if "--" in argv:
        i = argv.index("--")
        argv, pids = argv[:i], argv[i + 1:]
    keep = "-k" in argv
    names = [a for a in argv if a != "-k"]
    if not pids:
        pids = sorted(f[:-3].upper() for f in os.listdir(VERIF + "/checks")
                      if f[0] == "p" and f[1:3].isdigit() and len(f) == 6)
    for T in ALL:
        if names and T.__name__ not in names:
            continue
        d = tempfile.mkdtemp(prefix="autoref")
        shutil.copytree("/repo/javatools", d + "/javatools")
        for dp, _ds, fs in os.walk(d + "/javatools"):
            for f in fs:
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    t = T().visit(ast.parse(open(p).read()))
                    s = ast.unparse(ast.fix_missing_locations(t))
                    compile(s, p, "exec")
                    open(p, "w").write(s + "\n")
        shutil.copytree("/repo/tests", d + "/tests")
        r = subprocess.run(
            ["/usr/bin/faketime", "2024-09-04 12:00:00",
             "/opt/venv/bin/python", "-B", "-m", "pytest", "-q",
             "-o", "python_files=*.py", "tests",
             "-p", "no:cacheprovider"], cwd=d, capture_output=True, text=True,
            env=dict(os.environ, PYTHONPATH=d))
        tail = (r.stdout.strip().splitlines() or ["?"])[-1]
        print("== %s: tests: %s" % (T.__name__, tail), flush=True)

        def one(pid):
            r = subprocess.run(
                ["python3", VERIF + "/check.py", pid], cwd=VERIF,
                capture_output=True, text=True,
                env=dict(os.environ, JT_REPO=d, JT_EVIDENCE=d))
            return pid, r
        with ThreadPoolExecutor(7) as ex:
            for pid, r in ex.map(one, pids):
                und = [l for l in r.stdout.splitlines()
                       if l.startswith("UNDECIDED")]
                bad = [l for l in r.stdout.splitlines() if "violated for" in l]
                if r.returncode or bad:
                    print("  %s rc=%d %s" % (
                        pid, r.returncode, " ## ".join(
                            x.strip()[:300] for x in bad[:2]) or
                        (r.stdout + r.stderr)[-200:]), flush=True)
                elif und:
                    print("  %s %d undecided: %s" % (
                        pid, len(und), und[0][10:180]), flush=True)
        if keep:
            print(d)
        else:
            shutil.rmtree(d)


if __name__ == "__main__":
    main(sys.argv[1:])
