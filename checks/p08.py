"""P08: what is opened is closed again."""

import ast
import copy

from sa.interp import Undecided

META = {
    "level": "other",
    "explanation": "typestate analysis over every control flow path of every "
                   "function of the package: each expression which opens a "
                   "file, an archive, an entry of an archive, or makes a "
                   "temporary file or directory is followed from there to "
                   "every way out of the function, the exceptional ones "
                   "included; functions handing what they open to their "
                   "caller count as opening themselves (fixpoint over the "
                   "package), classes keeping it have to close it in their "
                   "own close",
    "rule": "on every path from an opening expression to a way out of the "
            "function, by return, by falling off the end or by an exception "
            "of a later call, the resource is closed (with, closing, close, "
            "try/finally), returned to the caller, or kept in an attribute "
            "which the close of its object closes",
    "assumptions": [
        "closing itself, and the calls of methods of plain containers and "
        "texts, do not fail",
        "context managers close what they manage and do not swallow "
        "exceptions (P07)",
        "conditions on names which are not assigned in between have the "
        "same outcome"],
}

OPENERS = {
    "open": "file", "io.open": "file", "codecs.open": "file",
    "os.fdopen": "file", "zipfile.ZipFile": "archive",
    "tarfile.open": "archive", "gzip.open": "file",
    "tempfile.NamedTemporaryFile": "temporary file",
    "tempfile.TemporaryFile": "temporary file",
    "tempfile.SpooledTemporaryFile": "temporary file",
    "tempfile.TemporaryDirectory": "temporary directory",
    "tempfile.mkdtemp": "temporary directory",
}

CLOSING = ("contextlib.closing", "closing")
REMOVERS = ("shutil.rmtree",)

# calls which do not fail while something is open
SAFE_FN = {"len", "isinstance", "str", "repr", "list", "dict", "set",
           "tuple", "hasattr", "range", "zip", "enumerate", "bool", "id",
           "type", "callable", "getattr", "print", "super"}
SAFE_METH = {"append", "add", "get", "keys", "items", "values", "setdefault",
             "startswith", "endswith", "strip", "lower", "upper", "split",
             "replace", "extend", "debug", "info", "warning"}
REGISTER = {"enter_context", "push", "callback", "register", "finalize"}


class Fn(object):
    def __init__(self, mod, qual, node, cls, names):
        self.mod, self.qual, self.node, self.cls = mod, qual, node, cls
        self.names = names          # module names

    def body(self):
        if isinstance(self.node, ast.Lambda):
            return [ast.copy_location(ast.Return(self.node.body),
                                      self.node.body)]
        return self.node.body


def imports(body, mod, package):
    """what the names bound by import statements stand for"""
    out = {}
    for n in body:
        for s in ast.walk(n):
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        out[a.asname] = a.name
                    else:
                        t = a.name.split(".")[0]
                        out[t] = t
            elif isinstance(s, ast.ImportFrom):
                src = s.module or ""
                if s.level:
                    base = mod.split(".")
                    base = base[:len(base) - s.level] if (
                        mod not in PKGS) else base[:len(base) - s.level + 1]
                    src = ".".join(base + ([src] if src else []))
                for a in s.names:
                    out[a.asname or a.name] = src + "." + a.name
    return out


PKGS = set()


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and b + "." + e.attr
    return None


class Package(object):
    def __init__(self, prog):
        self.prog = prog
        self.fns = []               # Fn
        self.top = {}               # dotted name of module function -> Fn
        self.meths = {}             # method name -> [Fn]
        self.classes = {}           # dotted class name -> (bases, {name: Fn})
        self.kind = {}              # id(Fn) -> kind handed to the caller
        self.owns = {}              # class -> {attr: kind}
        self.managers = set()       # id(Fn): generator context managers
        PKGS.clear()
        for m in prog.trees:
            if any(o.startswith(m + ".") for o in prog.trees) or \
                    prog.files[m].endswith("__init__.py"):
                PKGS.add(m)
        for mod, tree in sorted(prog.trees.items()):
            names = imports([s for s in tree.body if not isinstance(
                s, (ast.FunctionDef, ast.ClassDef))], mod, prog.package)
            for s in tree.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    names[s.name] = mod + "." + s.name
            self.scan(tree.body, mod, "", None, names, True)
            f = Fn(mod, "<module>", tree, None, names)
            self.fns.append(f)

    def scan(self, body, mod, prefix, cls, names, top, owner=None):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + s.name
                loc = dict(names)
                loc.update(imports(s.body, mod, self.prog.package))
                a = s.args
                for x in a.posonlyargs + a.args + a.kwonlyargs + [
                        a.vararg, a.kwarg]:
                    if x is not None:
                        loc.pop(x.arg, None)
                for b in ast.iter_child_nodes(s):
                    if isinstance(b, ast.FunctionDef):
                        # helpers defined within
                        loc[b.name] = "%s.%s.%s" % (mod, q, b.name)
                f = Fn(mod, q, s, cls or owner, loc)
                self.fns.append(f)
                if not cls and not top:
                    self.top["%s.%s" % (mod, q)] = f
                if cls:
                    self.meths.setdefault(s.name, []).append(f)
                    self.classes[cls][1][s.name] = f
                elif top:
                    self.top[mod + "." + s.name] = f
                for d in s.decorator_list:
                    t = dotted(d) or ""
                    if self.resolve(f, t) == "contextlib.contextmanager":
                        self.managers.add(id(f))
                self.scan(s.body, mod, q + ".", None, loc, False,
                          cls or owner)
            elif isinstance(s, ast.ClassDef):
                q = mod + "." + prefix + s.name
                self.classes[q] = ([names.get(dotted(b), dotted(b))
                                    for b in s.bases if dotted(b)], {})
                self.scan(s.body, mod, prefix + s.name + ".", q, names, False)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For,
                                ast.While)):
                for part in ("body", "orelse", "finalbody"):
                    self.scan(getattr(s, part, []), mod, prefix, cls, names,
                              top, owner)
                for h in getattr(s, "handlers", []):
                    self.scan(h.body, mod, prefix, cls, names, top, owner)

    def resolve(self, fn, name):
        """full dotted name of a name used in a function"""
        if not name:
            return None
        head, _d, rest = name.partition(".")
        h = fn.names.get(head)
        if h is None:
            return name
        # names re-exported by modules of the package
        full = h + ("." + rest if rest else "")
        seen = set()
        while full not in seen:
            seen.add(full)
            m, _d, n = full.rpartition(".")
            if m in self.prog.trees and full not in self.top and \
                    full not in self.classes:
                al = imports(self.prog.trees[m].body, m, self.prog.package)
                if n in al:
                    full = al[n]
        return full

    def mro(self, q):
        out, todo = [], [q]
        while todo:
            c = todo.pop(0)
            if c in self.classes and c not in out:
                out.append(c)
                todo.extend(self.classes[c][0])
        return out

    def method(self, cls, name):
        for c in self.mro(cls):
            f = self.classes[c][1].get(name)
            if f:
                return f
        return None

    def targets(self, fn, call):
        """package functions a call may stand for; None for external ones"""
        f = call.func
        d = dotted(f)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in (
                    "self", "cls") and fn.cls:
                m = self.method(fn.cls, f.attr)
                subs = [g for g in self.meths.get(f.attr, ())
                        if g.cls and fn.cls in self.mro(g.cls)]
                if m or subs:
                    return ([m] if m else []) + [g for g in subs if g != m]
                return None
            full = self.resolve(fn, d) if d else None
            if full in self.top:
                return [self.top[full]]
            c = full.rpartition(".")[0] if full else None
            if c in self.classes:
                m = self.method(c, f.attr)
                return [m] if m else None
            if full and d.split(".")[0] in fn.names and \
                    full.split(".")[0] != self.prog.package:
                return None
            return self.meths.get(f.attr)
        full = self.resolve(fn, d)
        if full in self.top:
            return [self.top[full]]
        return None

    def opens(self, fn, call):
        """the kind of resource the caller has to close after a call"""
        f = call.func
        d = dotted(f)
        full = self.resolve(fn, d) if d else None
        if full in OPENERS:
            if full == "open" and isinstance(f, ast.Attribute):
                return None
            return OPENERS[full]
        if full in self.owns and self.owns[full]:
            return "object"
        if full in self.classes:
            if any(self.owns.get(c) for c in self.mro(full)):
                return "object"
            return None
        t = self.targets(fn, call)
        if t:
            k = [self.kind.get(id(g)) for g in t]
            if all(k):
                return k[0]
            if any(k) and isinstance(f, ast.Attribute) and \
                    f.attr == "open":
                return [x for x in k if x][0]
            return None
        if isinstance(f, ast.Attribute) and f.attr == "open" and \
                full not in OPENERS:
            head = d.split(".")[0] if d else ""
            if fn.names.get(head, "").split(".")[0] in (
                    "webbrowser", "os", "shelve", "dbm"):
                return None
            return "entry"
        return None


# -- paths --------------------------------------------------------------------

class St(object):
    """state of one resource: names for it, its status, known conditions"""

    __slots__ = ("al", "status", "facts", "attr")

    def __init__(self, al=frozenset(), status="none", facts=frozenset(),
                 attr=None):
        self.al, self.status, self.facts, self.attr = al, status, facts, attr

    def key(self):
        return (self.al, self.status, self.facts, self.attr)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def set(self, **kw):
        d = dict(al=self.al, status=self.status, facts=self.facts,
                 attr=self.attr)
        d.update(kw)
        return St(**d)


class Leak(Exception):
    pass


class Walk(object):
    """all paths of one function with regard to one resource"""

    def __init__(self, pkg, fn, site, kind):
        self.pkg, self.fn, self.site, self.kind = pkg, fn, site, kind
        self.lines = {}             # (outcome, state) -> line
        self.depth = 0

    # expressions: lists of (kind, state, is resource, line)

    def seq(self, es, st):
        """evaluates expressions in order: outcomes with value flags"""
        outs, res = [("ok", st, ())], []
        for e in es:
            new = []
            for k, s, vals in outs:
                for k2, s2, r in self.ev(e, s):
                    if k2 == "raise":
                        res.append(("raise", s2, False))
                    else:
                        new.append(("ok", s2, vals + (r,)))
            outs = list(dict.fromkeys(new))
        return outs, res

    def ev(self, e, st):
        out = list(dict.fromkeys(self.ev1(e, st)))
        for k, s, _r in out:
            if k == "raise":
                self.lines.setdefault(("raise", s),
                                      getattr(e, "lineno", None))
        return out

    def ev1(self, e, st):
        if e is None or isinstance(e, ast.Constant):
            return [("ok", st, False)]
        if isinstance(e, ast.Lambda):
            return [("ok", st, False)]
        d = dotted(e)
        if d is not None:
            if d in st.al and st.status != "none":
                return [("ok", st, True)]
            if isinstance(e, ast.Name):
                return [("ok", st, False)]
            return self.ev1(e.value, st) and [("ok", st, False)]
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, ast.IfExp):
            res = []
            for k, s, _r in self.ev(e.test, st):
                if k == "raise":
                    res.append((k, s, False))
                    continue
                for v in (True, False):
                    s2 = self.assume(e.test, v, s)
                    if s2 is not None:
                        res.extend(self.ev(e.body if v else e.orelse, s2))
            return res
        if isinstance(e, ast.NamedExpr):
            res = []
            for k, s, r in self.ev(e.value, st):
                if k == "ok":
                    s = self.bind(e.target, r, s, e.value)
                res.append((k, s, r))
            return res
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            res = []
            for k, s, r in self.ev(e.value, st):
                if k == "ok":
                    if r and id(self.fn) not in self.pkg.managers:
                        if s.status == "open":
                            s = s.set(status="returned")
                        res.append(("ok", s, False))
                        continue
                    res.append(("raise", s, False))
                res.append((k, s, False))
            return res
        if isinstance(e, ast.BoolOp):
            # the later operands may not be evaluated
            res, cur = [], [st]
            for i, v in enumerate(e.values):
                nxt = []
                for s in cur:
                    for k, s2, r in self.ev(v, s):
                        if k == "raise":
                            res.append((k, s2, False))
                        else:
                            res.append((k, s2, r))
                            nxt.append(s2)
                cur = list(dict.fromkeys(nxt))
            return res
        kids = [c for c in ast.iter_child_nodes(e)
                if isinstance(c, (ast.expr, ast.keyword, ast.comprehension))]
        flat = []
        for c in kids:
            if isinstance(c, ast.keyword):
                flat.append(c.value)
            elif isinstance(c, ast.comprehension):
                flat.insert(0, c.iter)
                flat.extend(c.ifs)
            else:
                flat.append(c)
        flat = [c for c in flat if isinstance(c, ast.expr)]
        outs, res = self.seq(flat, st)
        for k, s, vals in outs:
            # a resource within a tuple, list, dictionary, ... is out of sight
            if any(vals) and isinstance(e, (ast.Tuple, ast.List, ast.Dict,
                                            ast.Set, ast.ListComp,
                                            ast.GeneratorExp)) and \
                    s.status == "open":
                s = s.set(status="gone")
            res.append(("ok", s, False))
        return res

    def call(self, e, st):
        f = e.func
        args = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
        kws = [k.value for k in e.keywords]
        pre = [f.value] if isinstance(f, ast.Attribute) else (
            [] if isinstance(f, ast.Name) else [f])
        outs, res = self.seq(pre + args + kws, st)
        d = dotted(f)
        full = self.pkg.resolve(self.fn, d) if d else None
        for _k, s, vals in outs:
            recv = bool(pre) and vals[0]
            given = vals[len(pre):]
            if e is self.site:
                if s.status in ("open", "managed"):
                    raise Leak("opened again by the next round of a loop "
                               "while still open", e.lineno)
                if any(given) or recv:
                    raise Undecided("resource opened from itself")
                res.append(("raise", s, False))
                res.append(("ok", s.set(status="open", al=frozenset(),
                                        attr=None), True))
                continue
            if recv and f.attr in ("close", "__exit__", "cleanup"):
                if s.status in ("open", "managed"):
                    s = s.set(status="closed")
                res.append(("ok", s, False))
                continue
            if recv and f.attr == "__enter__":
                res.append(("ok", s, True))
                continue
            if any(given) and full in REMOVERS:
                if s.status == "open":
                    s = s.set(status="closed")
                res.append(("ok", s, False))
                continue
            if any(given) and full in CLOSING:
                res.append(("ok", s, True))
                continue
            safe = (isinstance(f, ast.Name) and f.id in SAFE_FN) or (
                isinstance(f, ast.Attribute) and f.attr in SAFE_METH and
                not recv)
            if any(given) and s.status == "open":
                if isinstance(f, ast.Attribute) and f.attr in REGISTER:
                    res.append(("ok", s.set(status="closed"), True))
                    continue
                if isinstance(f, ast.Attribute) and f.attr in SAFE_METH or \
                        isinstance(f, ast.Name) and f.id in (
                            "list", "tuple", "dict", "set", "iter", "zip",
                            "enumerate"):
                    res.append(("ok", s.set(status="gone"), False))
                    continue
                if not safe:
                    res.extend(self.passed(e, full, given, s))
                    continue
            # helpers within the function see its variables
            if s.status == "open" and isinstance(f, ast.Name):
                t = self.pkg.targets(self.fn, e)
                if t and "." in t[0].qual and self.depth < 7 and \
                        self.fn.qual.startswith(t[0].qual.rpartition(".")[0]):
                    res.extend(self.inner(t[0], s, True))
                    continue
            # methods of the object itself may open or close attributes
            if s.status == "open" and any(a.startswith("self.")
                                          for a in s.al) and \
                    isinstance(f, ast.Attribute) and \
                    isinstance(f.value, ast.Name) and f.value.id == "self":
                t = self.pkg.targets(self.fn, e)
                if t and self.depth < 7:
                    for o in self.inner(t[0], s):
                        res.append(o)
                    continue
            if not safe:
                res.append(("raise", s, False))
            res.append(("ok", s, False))
        return res

    def inner(self, g, s, closure=False):
        w = Walk(self.pkg, g, None, self.kind)
        w.depth = self.depth + 1
        out = []
        for k, s2 in w.run(St(frozenset(
                a for a in s.al if closure or a.startswith("self.")),
                "open")):
            ret = closure and s2.status == "returned"
            out.append(("raise" if k == "raise" else "ok", s.set(
                status="open" if ret else s2.status), ret))
        return out

    def passed(self, e, full, given, s):
        """the resource is an argument of a call"""
        pkg = self.pkg
        if full in pkg.classes:
            init = pkg.method(full, "__init__")
            r, fails = "gone", True
            if init:
                r, fails = self.summary(init, e, given, True)
            out = [("raise", s, False)] if fails else []
            if r == "kept" or any(pkg.owns.get(c) for c in pkg.mro(full)):
                if any(pkg.method(full, n) for n in ("close", "__exit__",
                                                     "__del__")):
                    return out + [("ok", s, True)]
                return out + [("ok", s, False)]
            if r == "borrowed":
                return out + [("ok", s, False)]
            return out + [("ok", s.set(status="gone"), False)]
        t = pkg.targets(self.fn, e)
        if t:
            out = []
            for g in t:
                d = dotted(e.func) or ""
                bound = isinstance(e.func, ast.Attribute) and pkg.resolve(
                    self.fn, d.rpartition(".")[0]) not in pkg.classes
                r, fails = self.summary(g, e, given, bound)
                if r == "other":
                    continue
                if r == "closed":
                    # whether or not it fails
                    s = s.set(status="closed")
                if fails:
                    out.append(("raise", s, False))
                if r == "returned":
                    out.append(("ok", s, True))
                elif r in ("kept", "gone"):
                    out.append(("ok", s.set(status="gone"), False))
                else:
                    out.append(("ok", s, False))
            if out:
                return out
        name = (dotted(e.func) or "").split(".")[-1]
        if full in OPENERS or not name[:1].isupper():
            return [("raise", s, False), ("ok", s, False)]
        return [("raise", s, False), ("ok", s.set(status="gone"), False)]

    def summary(self, g, e, given, bound):
        """what a function of the package does with a resource given, and
        whether it may fail with the resource still open"""
        if self.depth > 6 or isinstance(g.node, ast.Module):
            return "borrowed", True
        a = g.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        if g.cls and bound and params:
            params = params[1:]
        i = list(given).index(True)
        if i < len(e.args):
            if i >= len(params):
                return ("gone" if a.vararg else "other"), True
            p = params[i]
        else:
            p = e.keywords[i - len(e.args)].arg
            if p not in params + [x.arg for x in a.kwonlyargs]:
                return ("gone" if a.kwarg else "other"), True
        w = Walk(self.pkg, g, None, self.kind)
        w.depth = self.depth + 1
        res, fails = set(), False
        for k, s in w.run(St(frozenset([p]), "open")):
            if k != "raise":
                res.add(s.status)
            elif s.status == "open":
                fails = True
        if res == {"closed"}:
            return "closed", fails
        for r in ("returned", "kept", "gone", "closed"):
            if r in res:
                return ("gone" if r == "closed" else r), fails
        return "borrowed", fails

    # conditions

    def assume(self, t, v, s):
        """the state if a condition has the outcome v, None: impossible"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(t.operand, not v, s)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And)
            if v == conj:
                for x in t.values:
                    s = self.assume(x, v, s)
                    if s is None:
                        return None
                return s
            # one of them decides
            if all(self.assume(x, v, s) is None for x in t.values):
                return None
            return s
        if isinstance(t, ast.Constant):
            return s if bool(t.value) == v else None
        if isinstance(t, ast.Call):
            t2 = self.inlined(t)
            if t2 is not None:
                return self.assume(t2, v, s)
        d = dotted(t)
        if d in s.al and s.status in ("open", "managed", "closed"):
            return s if v else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and \
                s.status in ("open", "managed", "closed"):
            l, r = dotted(t.left), dotted(t.comparators[0])
            la, ra = l in s.al, r in s.al
            if la != ra:
                if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                    return None if v else s
                if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                    return s if v else None
            elif la and ra:
                if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                    return s if v else None
                if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                    return None if v else s
        key = ast.unparse(t)
        if any(isinstance(n, ast.Call) for n in ast.walk(t)):
            return s
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            neg = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}
            c = neg.get(type(t.ops[0]))
            if c:
                t2 = ast.Compare(t.left, [c()], t.comparators)
                key, v = ast.unparse(ast.fix_missing_locations(
                    ast.copy_location(t2, t))), not v
        for k, v2 in s.facts:
            if k == key:
                return s if v2 == v else None
        return s.set(facts=s.facts | {(key, v)})

    def inlined(self, call):
        """the condition computed by a helper which does nothing else"""
        t = self.pkg.targets(self.fn, call)
        if not t or len(t) != 1 or isinstance(t[0].node, ast.Module):
            return None
        g = t[0].node
        if isinstance(g, ast.Lambda):
            return None
        body = [b for b in g.body if not (isinstance(
            b, ast.Expr) and isinstance(b.value, ast.Constant))]
        a = g.args
        params = [x.arg for x in a.posonlyargs + a.args]
        given = list(call.args)
        if t[0].cls and isinstance(call.func, ast.Attribute) and \
                t[0].qual.count(".") == 1:
            given.insert(0, call.func.value)
        if len(body) != 1 or not isinstance(body[0], ast.Return) or \
                body[0].value is None or call.keywords or a.vararg or \
                a.kwarg or a.kwonlyargs or len(params) != len(given) or \
                not all(dotted(x) for x in given):
            return None
        names = dict(zip(params, given))
        e = copy.deepcopy(body[0].value)
        if any(isinstance(n, (ast.Call, ast.Lambda, ast.comprehension))
               for n in ast.walk(e)):
            return None

        class Sub(ast.NodeTransformer):
            def visit_Name(self, n):
                return names.get(n.id, n)
        return ast.fix_missing_locations(Sub().visit(e))

    def forget(self, name, s):
        al = frozenset(a for a in s.al
                       if a != name and not a.startswith(name + "."))
        facts = frozenset((k, v) for k, v in s.facts
                          if not self.mentions(k, name))
        return s.set(al=al, facts=facts)

    def mentions(self, text, name):
        for n in ast.walk(ast.parse(text, mode="eval")):
            d = dotted(n)
            if d and (d == name or d.startswith(name + ".")):
                return True
        return False

    def bind(self, target, isres, s, value=None):
        if isinstance(target, ast.Name):
            s = self.forget(target.id, s)
            if isres:
                return s.set(al=s.al | {target.id})
            if isinstance(value, ast.Constant):
                return s.set(facts=s.facts | {
                    (target.id, bool(value.value)),
                    (target.id + " is None", value.value is None)})
            return s
        d = dotted(target)
        if d:
            s = self.forget(d, s)
            if isres:
                s = s.set(al=s.al | {d})
                if s.status == "open":
                    if d.startswith("self.") and d.count(".") == 1:
                        s = s.set(status="kept", attr=d[5:])
                    else:
                        s = s.set(status="gone")
            return s
        if isres and s.status == "open":
            if isinstance(target, (ast.Tuple, ast.List)):
                raise Undecided("a resource taken apart")
            return s.set(status="gone")
        if isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                s = self.bind(t.value if isinstance(t, ast.Starred) else t,
                              False, s)
        return s

    # statements: lists of (kind, state)

    def block(self, body, st):
        cur, out = [st], []
        for b in body:
            nxt = []
            for s in cur:
                for k, s2 in self.stmt(b, s):
                    if k == "ok":
                        nxt.append(s2)
                    else:
                        out.append((k, s2))
            cur = list(dict.fromkeys(nxt))
        out.extend(("ok", s) for s in cur)
        return list(dict.fromkeys(out))

    def stmt(self, b, st):
        if isinstance(b, (ast.FunctionDef, ast.ClassDef, ast.Import,
                          ast.ImportFrom, ast.Pass, ast.Global,
                          ast.Nonlocal, ast.AsyncFunctionDef)):
            return [("ok", st)]
        if isinstance(b, ast.Expr):
            return [(k, s) for k, s, _r in self.ev(b.value, st)]
        if isinstance(b, (ast.Assign, ast.AnnAssign)):
            return self.assign(b, st)
        if isinstance(b, ast.AugAssign):
            out = []
            for k, s, _r in self.ev(b.value, st):
                if k == "ok" and dotted(b.target):
                    s = self.forget(dotted(b.target), s)
                out.append((k, s))
            return out
        if isinstance(b, ast.Return):
            out = []
            for k, s, r in self.ev(b.value, st):
                if k == "ok":
                    if r and s.status == "open":
                        s = s.set(status="returned")
                    self.lines.setdefault(("return", s), b.lineno)
                    out.append(("return", s))
                else:
                    out.append((k, s))
            return out
        if isinstance(b, ast.Raise):
            out = []
            for k, s, _r in self.ev(b.exc, st):
                self.lines.setdefault(("raise", s), b.lineno)
                out.append(("raise", s))
            return out
        if isinstance(b, ast.Assert):
            out = []
            for k, s, _r in self.ev(b.test, st):
                out.append((k, s))
                out.append(("raise", s))
            return out
        if isinstance(b, ast.Delete):
            s = st
            for t in b.targets:
                if dotted(t):
                    s = self.forget(dotted(t), s)
            return [("ok", s)]
        if isinstance(b, ast.Break):
            return [("break", st)]
        if isinstance(b, ast.Continue):
            return [("continue", st)]
        if isinstance(b, ast.If):
            out = []
            for k, s, _r in self.ev(b.test, st):
                if k == "raise":
                    out.append((k, s))
                    continue
                for v in (True, False):
                    s2 = self.assume(b.test, v, s)
                    if s2 is not None:
                        out.extend(self.block(b.body if v else b.orelse, s2))
            return out
        if isinstance(b, (ast.For, ast.While)):
            return self.loop(b, st)
        if isinstance(b, ast.With):
            return self.withs(b.items, b.body, st)
        if isinstance(b, ast.Try):
            return self.tries(b, st)
        raise Undecided("statement %s" % type(b).__name__)

    def assign(self, b, st):
        targets = b.targets if isinstance(b, ast.Assign) else [b.target]
        if b.value is None:
            return [("ok", st)]
        if len(targets) == 1 and isinstance(targets[0], ast.Tuple) and \
                isinstance(b.value, ast.Tuple) and \
                len(targets[0].elts) == len(b.value.elts):
            outs, res = self.seq(b.value.elts, st)
            out = [(k, s) for k, s, _r in res]
            for _k, s, vals in outs:
                for t, r in zip(targets[0].elts, vals):
                    s = self.bind(t, r, s)
                out.append(("ok", s))
            return out
        out = []
        for k, s, r in self.ev(b.value, st):
            if k == "ok":
                for t in targets:
                    s = self.bind(t, r, s, b.value)
            out.append((k, s))
        return out

    def loop(self, b, st):
        out, seen, todo = [], set(), []
        if isinstance(b, ast.For):
            for k, s, r in self.ev(b.iter, st):
                if k == "raise":
                    out.append((k, s))
                    continue
                # going on with an iterator may fail, too
                if not (isinstance(b.iter, (ast.Name, ast.Tuple, ast.List,
                                            ast.Constant)) and not r):
                    self.lines.setdefault(("raise", s), b.lineno)
                    out.append(("raise", s))
                todo.append(s)
        else:
            todo.append(st)
        ends = []
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if isinstance(b, ast.For):
                ends.append(s)
                starts = [self.bind(b.target, False, s)]
            else:
                starts = []
                for k, s2, _r in self.ev(b.test, s):
                    if k == "raise":
                        out.append((k, s2))
                        continue
                    t = self.assume(b.test, True, s2)
                    if t is not None:
                        starts.append(t)
                    t = self.assume(b.test, False, s2)
                    if t is not None:
                        ends.append(t)
            for s2 in starts:
                for k, s3 in self.block(b.body, s2):
                    if k in ("ok", "continue"):
                        todo.append(s3)
                    elif k == "break":
                        out.append(("ok", s3))
                    else:
                        out.append((k, s3))
        for s in ends:
            out.extend(self.block(b.orelse, s))
        return list(dict.fromkeys(out))

    def withs(self, items, body, st):
        if not items:
            return self.block(body, st)
        it, rest = items[0], items[1:]
        out = []
        for k, s, r in self.ev(it.context_expr, st):
            if k == "raise":
                out.append((k, s))
                continue
            if r and s.status == "open":
                # closed when the block is left, whoever else gets it
                s = s.set(status="managed")
            if it.optional_vars is not None:
                s = self.bind_with(it, r, s)
            for k2, s2 in self.withs(rest, body, s):
                if r and s2.status in ("open", "managed"):
                    # whoever gets it gets it closed
                    s2b = s2.set(status="closed")
                    if (k2, s2) in self.lines:
                        self.lines.setdefault((k2, s2b),
                                              self.lines[(k2, s2)])
                    s2 = s2b
                out.append((k2, s2))
        return list(dict.fromkeys(out))

    def bind_with(self, it, r, s):
        t = it.optional_vars
        if r and not isinstance(t, ast.Name):
            raise Undecided("with ... as %s" % ast.unparse(t))
        return self.bind(t, r, s)

    def tries(self, b, st):
        out, first = [], []
        for k, s in self.block(b.body, st):
            if k == "ok":
                first.extend(self.block(b.orelse, s))
            elif k == "raise":
                caught = False
                for h in b.handlers:
                    names = [] if h.type is None else [
                        dotted(t) for t in (
                            h.type.elts if isinstance(h.type, ast.Tuple)
                            else [h.type])]
                    all_ = h.type is None or any(
                        n in ("Exception", "BaseException") for n in names)
                    s2 = s if h.name is None else self.forget(h.name, s)
                    first.extend(self.block(h.body, s2))
                    if all_:
                        caught = True
                        break
                if not caught:
                    first.append((k, s))
            else:
                first.append((k, s))
        for k, s in dict.fromkeys(first):
            if not b.finalbody:
                out.append((k, s))
                continue
            for k2, s2 in self.block(b.finalbody, s):
                kk = k if k2 == "ok" else k2
                if (k, s) in self.lines:
                    self.lines.setdefault((kk, s2), self.lines[(k, s)])
                out.append((kk, s2))
        return list(dict.fromkeys(out))

    def run(self, st=None):
        return self.block(self.fn.body(), st or St())


# -- the check ----------------------------------------------------------------

def sites(fn):
    """call expressions belonging to a function itself"""
    out = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda,
                              ast.AsyncFunctionDef)):
                if not isinstance(c, ast.ClassDef) or isinstance(
                        fn.node, ast.Module):
                    continue
            if isinstance(c, ast.Call):
                out.append(c)
            go(c)

    if isinstance(fn.node, ast.Module):
        for s in fn.node.body:
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                    out.append(s.value)
                go(s)
    else:
        for s in fn.node.body:
            go(ast.Module([s], []))
    return out


def analyse(pkg):
    """fixpoint: which functions hand resources out, which classes own some"""
    for _round in range(8):
        changed = False
        found = []
        for fn in pkg.fns:
            for c in sites(fn):
                kind = pkg.opens(fn, c)
                if not kind:
                    continue
                w = Walk(pkg, fn, c, kind)
                try:
                    outs = w.run()
                except Leak as e:
                    found.append((fn, c, kind, "leak", e.args, w))
                    continue
                except Undecided as e:
                    found.append((fn, c, kind, "und", e.args, w))
                    continue
                found.append((fn, c, kind, "outs", outs, w))
                for k, s in outs:
                    if s.status == "returned" and \
                            id(fn) not in pkg.managers and \
                            pkg.kind.get(id(fn)) is None:
                        pkg.kind[id(fn)] = kind
                        changed = True
                    if s.status == "kept" and fn.cls:
                        o = pkg.owns.setdefault(fn.cls, {})
                        if s.attr not in o:
                            o[s.attr] = kind
                            changed = True
        if not changed:
            return found
    return found


def loc(pkg, fn, line):
    return (pkg.prog.files[fn.mod], line, fn.qual)


def run(rep, prog, tier):
    pkg = Package(prog)
    found = analyse(pkg)
    rule = "opened resources are closed on every path"
    count = {}
    for fn, c, kind, what, data, w in found:
        short = prog.short(fn.mod) or "javatools"
        base = "%s.%s %s" % (short, fn.qual, ast.unparse(c.func))
        n = count[base] = count.get(base, 0) + 1
        key = (base if n == 1 else "%s #%d" % (base, n)).replace(" ", ":")
        rep.covered.add((prog.files[fn.mod], fn.qual))
        if what == "leak":
            rep.bad(key, rule, "the %s opened here is %s" % (
                kind, data[0]), loc(pkg, fn, c.lineno))
            continue
        if what == "und":
            rep.und(key, rule, str(data[0]))
            continue
        open_ = [(k, s) for k, s in data if s.status == "open"]
        gone = [1 for k, s in data if s.status == "gone"]
        if open_:
            # the exceptional ways out last
            k, s = sorted(open_, key=lambda x: x[0] == "raise")[0]
            line = w.lines.get((k, s))
            how = "an exception" if k == "raise" else "the end"
            rep.bad(key, rule, "the %s opened here is still open when the "
                    "function is left by %s%s" % (
                        kind, how, " at line %s" % line if line else ""),
                    loc(pkg, fn, c.lineno))
        elif gone:
            rep.und(key, rule, "the %s is handed on to code which is not "
                    "followed" % kind)
        else:
            rep.ok(key, rule)
    # objects keeping resources
    rule = "objects close what they keep"
    for cls, attrs in sorted(pkg.owns.items()):
        for a, kind in sorted(attrs.items()):
            key = "%s.%s" % (cls, a)
            closers = [m for m in (pkg.method(cls, n) for n in (
                "close", "__exit__")) if m]
            if not closers:
                rep.bad(key, rule, "the %s kept in %s is not closed by any "
                        "close or __exit__ of the class" % (kind, a))
                continue
            bad = None
            for m in closers:
                rep.covered.add((prog.files[m.mod], m.qual))
                w = Walk(pkg, m, None, kind)
                try:
                    outs = w.run(St(frozenset(["self." + a]), "open"))
                except Undecided as e:
                    rep.und(key, rule, str(e))
                    continue
                for k, s in outs:
                    if k != "raise" and s.status in ("open", "kept"):
                        bad = (m, "%s may end without closing the %s kept "
                               "in %s" % (m.qual, kind, a))
            if bad:
                rep.bad(key, rule, bad[1],
                        loc(pkg, bad[0], bad[0].node.lineno))
            else:
                rep.ok(key, rule)
    rep.info["opening_expressions"] = len(found)
    rep.info["functions_handing_out"] = sorted(
        "%s.%s" % (f.mod, f.qual) for f in pkg.fns if id(f) in pkg.kind)
    rep.expect = 12
