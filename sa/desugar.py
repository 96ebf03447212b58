"""Loops written with while are turned into the for loops they stand for,
where that makes no difference, so that both are analysed alike; likewise for
attributes by getattr."""

import ast

MUTATES = {"append", "extend", "insert", "pop", "remove", "clear", "update",
           "add", "discard", "popitem", "setdefault", "appendleft",
           "popleft", "sort", "reverse"}


def path(e):
    """a name or attributes of a name"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = path(e.value)
        return b and b + "." + e.attr
    return None


def walk(body):
    for s in body:
        for n in ast.walk(s):
            yield n


def own(body, kinds):
    """whether statements of the kinds belong to this very loop"""
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef,
                          ast.Lambda)):
            if isinstance(n, (ast.For, ast.While)):
                todo.extend(n.orelse)
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def changes(body, p):
    """whether what is called p may be another or of another size after"""
    for n in walk(body):
        if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) and \
                not isinstance(n.ctx, ast.Load):
            t = n.value if isinstance(n, ast.Subscript) else n
            q = path(t)
            if q and (p == q or p.startswith(q + ".")):
                return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in MUTATES and path(n.func.value) == p:
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global,
                          ast.Nonlocal)):
            return True
    return False


def is_next(s):
    """target and iterator of  T = next(it)"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
            s.value, ast.Call) and isinstance(s.value.func, ast.Name) and \
            s.value.func.id == "next" and len(s.value.args) == 1 and \
            not s.value.keywords and isinstance(s.value.args[0], ast.Name):
        return s.targets[0], s.value.args[0]
    return None


def by_next(w):
    """while True: try: x = next(it) except StopIteration: break; ..."""
    if w.orelse or not (isinstance(w.test, ast.Constant) and w.test.value) \
            or not w.body:
        return None
    t = w.body[0]
    if not isinstance(t, ast.Try) or t.finalbody or len(t.body) != 1 or \
            len(t.handlers) != 1:
        return None
    h = t.handlers[0]
    if not (isinstance(h.type, ast.Name) and h.type.id == "StopIteration" and
            len(h.body) == 1 and isinstance(h.body[0], ast.Break)):
        return None
    x = is_next(t.body[0])
    if x is None:
        return None
    body = t.orelse + w.body[1:] or [ast.Pass()]
    if any(isinstance(n, ast.Name) and n.id == x[1].id for n in walk(body)):
        return None
    return ast.For(x[0], x[1], body, [])


def by_index(w, before, fn):
    """i = 0 ... while i < n: ...; i += 1"""
    if w.orelse or not (isinstance(w.test, ast.Compare) and
                        len(w.test.ops) == 1):
        return None
    l, r = w.test.left, w.test.comparators[0]
    if isinstance(w.test.ops[0], ast.Gt):
        l, r = r, l
    elif not isinstance(w.test.ops[0], (ast.Lt, ast.NotEq)):
        return None
    if not isinstance(l, ast.Name) or len(w.body) < 2:
        return None
    i = l.id
    last = w.body[-1]
    if not (isinstance(last, ast.AugAssign) and isinstance(
            last.op, ast.Add) and isinstance(last.target, ast.Name) and
            last.target.id == i and isinstance(last.value, ast.Constant) and
            last.value.value == 1):
        if not (isinstance(last, ast.Assign) and len(last.targets) == 1 and
                ast.unparse(last) in ("%s = %s + 1" % (i, i),
                                      "%s = 1 + %s" % (i, i))):
            return None
    body = w.body[:-1]
    if own(body, ast.Continue) or any(
            isinstance(n, ast.Name) and n.id == i and
            not isinstance(n.ctx, ast.Load) for n in walk(body)):
        return None
    # the bound
    e = r
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id == "len" and len(e.args) == 1:
        e = e.args[0]
    if not isinstance(e, ast.Constant):
        p = path(e)
        if p is None or changes(w.body, p) or p == i:
            return None
    # where it starts
    start = None
    for s in reversed(before):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Name) and s.targets[0].id == i:
            start = s.value
            init = s
            break
        if any(isinstance(n, ast.Name) and n.id == i for n in ast.walk(s)):
            return None
    if not (isinstance(start, ast.Constant) and isinstance(start.value, int)):
        return None
    if isinstance(w.test.ops[0], ast.NotEq) and not (
            start.value == 0 and isinstance(r, ast.Call)):
        return None
    inside = {id(n) for n in ast.walk(w)} | {id(n) for n in ast.walk(init)}
    if any(isinstance(n, ast.Name) and n.id == i and id(n) not in inside
           for n in ast.walk(fn)) or any(
               isinstance(n, (ast.Global, ast.Nonlocal)) and i in n.names
               for n in ast.walk(fn)):
        return None
    return ast.For(ast.Name(i, ast.Store()), ast.Call(
        ast.Name("range", ast.Load()), [start, r], []), body, [])


def block(body, fn):
    for k, s in enumerate(body):
        f = fn
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = s
        for part in ("body", "orelse", "finalbody"):
            b = getattr(s, part, None)
            if isinstance(b, list):
                block(b, f)
        for h in getattr(s, "handlers", []):
            block(h.body, f)
        if isinstance(s, ast.While):
            n = by_next(s)
            if n is None and fn is not None:
                n = by_index(s, body[:k], fn)
            if n is not None:
                body[k] = ast.fix_missing_locations(ast.copy_location(n, s))


class Attributes(ast.NodeTransformer):
    """getattr(x, "name") -> x.name"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "getattr" and \
                len(n.args) == 2 and not n.keywords and isinstance(
                    n.args[1], ast.Constant) and isinstance(
                    n.args[1].value, str) and n.args[1].value.isidentifier() \
                and not n.args[1].value.startswith("__"):
            return ast.copy_location(ast.Attribute(
                n.args[0], n.args[1].value, ast.Load()), n)
        return n


def loops(tree):
    block(tree.body, None)
    return Attributes().visit(tree)
