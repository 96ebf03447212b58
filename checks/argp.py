"""a model of argparse: the options which a command declares"""

from sa.interp import Undecided
from sa.values import Const, Term, Tup, NONE, Cls, Ref, Ext, HList, Item, show
from checks.p01 import nrm

FALSY = (Const(False), NONE, Const(0), Const(""))


class Option(object):
    def __init__(self, flags, kw, parser):
        self.flags, self.kw, self.parser = flags, kw, parser

    @property
    def positional(self):
        return not self.flags[0].startswith("-")

    @property
    def dest(self):
        d = self.kw.get("dest")
        if isinstance(d, Const):
            return d.v
        if d is not None:
            raise Undecided("destination %s" % show(d))
        if self.positional:
            return self.flags[0]
        long = [f for f in self.flags if f.startswith("--")]
        return (long or self.flags)[0].lstrip("-").replace("-", "_")

    @property
    def action(self):
        a = self.kw.get("action", Const("store"))
        return a.v if isinstance(a, Const) else a

    @property
    def default(self):
        d = self.kw.get("default", NONE)
        if d == NONE and self.action in ("store_true", "store_false"):
            return Const(self.action == "store_false")
        return d


class Declared(object):
    """options, in order, of one declaring function"""

    def __init__(self, I, fn, args=()):
        self.I = I
        self.options = []
        self.defaults = {}
        n = [0]

        def fresh(kind, parent=None):
            n[0] += 1
            return Term("new", kind, (n[0], parent))

        def root(t):
            while isinstance(t, Term) and t.op == "new" and \
                    t.args[0] in ("group", "subparsers"):
                t = t.args[1][1]
            return t

        def mine(f):
            r = f.args[0]
            return isinstance(r, Term) and r.op == "new" and \
                r.args[0] in ("parser", "group", "subparsers")

        def add(I_, f, a, kw, node):
            if not mine(f):
                return NotImplemented
            flags = []
            for x in a:
                if not isinstance(x, Const):
                    raise Undecided("option %s" % show(x))
                flags.append(x.v)
            kv = {}
            for k, v in kw.items():
                if isinstance(v, Ref):
                    seq = I_.known_items(v)
                    v = Tup(seq) if seq is not None else v
                kv[k] = v
            self.options.append(Option(flags, kv, root(f.args[0])))
            return Term("new", "option", (len(self.options),))

        def group(kind):
            def h(I_, f, a, kw, node):
                if not mine(f):
                    return NotImplemented
                return fresh(kind, f.args[0])
            return h

        def defaults(I_, f, a, kw, node):
            if not mine(f):
                return NotImplemented
            self.defaults.update(kw)
            return NONE
        saved = I.hooks
        I.hooks = {
            "ext:argparse.ArgumentParser": lambda *a: fresh("parser"),
            "meth:add_argument": add,
            "meth:add_argument_group": group("group"),
            "meth:add_mutually_exclusive_group": group("group"),
            "meth:add_subparsers": group("subparsers"),
            "meth:add_parser": group("parser"),
            "meth:set_defaults": defaults,
        }
        try:
            def go():
                self.options[:] = []
                self.defaults.clear()
                n[0] = 0
                return I.call(fn, list(args), {})
            ps = I.run(go)
            for p in ps:
                if p.kind == "raise":
                    raise Undecided("declaring options raises %s" %
                                    show(p.val))
            if len(ps) != 1:
                raise Undecided("the options declared vary")
        finally:
            I.hooks = saved

    def find(self, flag):
        for o in self.options:
            if flag in o.flags:
                return o
        return None

    def effect(self, o, value, OPT):
        """what an option sets: [{attribute: value}] per path"""
        I = self.I
        a = o.action
        if isinstance(a, str):
            v = {"store": value, "store_true": Const(True),
                 "store_false": Const(False), "append": Term(
                     "appended", value),
                 "store_const": o.kw.get("const", NONE)}.get(a)
            if v is None:
                raise Undecided("action %s" % a)
            return [{o.dest: v}]
        if not isinstance(a, Cls):
            raise Undecided("action %s" % show(a))
        out = []
        saved = I.hooks
        I.hooks = {}
        try:
            def go():
                act = I.syminst(a, "ACTION", attrs={"dest": Const(o.dest)})
                v = value
                if o.kw.get("nargs") == Const(0):
                    v = I.alloc(HList("list", []))
                I.call(I.getattr(act, "__call__"), [
                    Term("param", "PARSER"), OPT, v, Const(o.flags[-1])], {})
                return NONE
            for p in I.run(go):
                if p.kind == "raise":
                    raise Undecided("%s raises %s" % (o.flags[-1],
                                                      show(p.val)))
                out.append((p, {n: nrm(I, p.st, v) for (t, n), v in
                                p.st.symattrs.items() if t == OPT}))
        finally:
            I.hooks = saved
        return [e for _p, e in out]


class Argv(object):
    """parsing of a given list of arguments by the options declared; symbolic
    arguments are passed through"""

    def __init__(self, I):
        self.I = I
        self.terms = []
        self.parsers = {}
        self.custom = []
        self.n = 0

    def reset(self):
        self.parsers.clear()
        self.n = 0

    def word(self, v):
        if isinstance(v, Const) and isinstance(v.v, str):
            return v.v
        if v not in self.terms:
            self.terms.append(v)
        return "\0%d\0" % self.terms.index(v)

    def back(self, v):
        if isinstance(v, str):
            if v[:1] == "\0" and v[-1:] == "\0" and v.count("\0") == 2:
                return self.terms[int(v[1:-1])]
            if "\0" in v:
                raise Undecided("part of an argument")
            return Const(v)
        if isinstance(v, (list, tuple)):
            return self.I.alloc(HList("list", [
                Item(self.back(x)) for x in v]))
        return v if not isinstance(v, (int, bool, type(None))) else Const(v)

    def kwarg(self, k, v):
        if k == "action" and isinstance(v, Cls):
            return self.action(v)
        if k in ("type", "help", "metavar"):
            if k == "type" and not (isinstance(v, Ext) and v.name in (
                    "builtins.str", "builtins.int")):
                raise Undecided("type of an option")
            return str if k == "type" and v.name == "builtins.str" else \
                int if k == "type" else "x"
        if isinstance(v, Const):
            return v.v
        xs = self.I.known_items(v)
        if xs is None:
            raise Undecided("%s of an option" % k)
        return [self.word(x) for x in xs]

    def action(self, cls):
        """an action of the program's own: applied when all is parsed"""
        import argparse
        av = self

        class Custom(argparse.Action):
            def __call__(self, parser, ns, values, option_string=None):
                av.custom.append((cls, self.dest, values, option_string))
        return Custom

    def apply(self, t):
        I = self.I
        for cls, dest, values, flag in self.custom:
            act = I.syminst(cls, "ACTION", attrs={"dest": Const(dest)})
            I.call(I.getattr(act, "__call__"), [
                Term("param", "PARSER"), t, self.back(values),
                Const(flag)], {})
        del self.custom[:]

    def hooks(self):
        import argparse

        class Parser(argparse.ArgumentParser):
            def error(self, message):
                raise SystemExit(2)

            def exit(self, status=0, message=None):
                raise SystemExit(status)

        def real(t):
            while isinstance(t, Term) and t.op == "new" and \
                    t.args[0] == "group":
                t = t.args[1][1]
            if isinstance(t, Term) and t.op == "new" and \
                    t.args[0] == "argparser":
                return self.parsers[t.args[1][0]]
            return None

        def new(I, f, a, kw, node):
            self.n += 1
            p = Parser()
            if set(kw) & {"parents", "prefix_chars", "fromfile_prefix_chars",
                          "argument_default", "allow_abbrev"}:
                raise Undecided("settings of a parser")
            self.parsers[self.n] = p
            return Term("new", "argparser", (self.n,))

        def add(I, f, a, kw, node):
            p = real(f.args[0])
            if p is None:
                return NotImplemented
            flags = [self.word(x) for x in a]
            p.add_argument(*flags, **{k: self.kwarg(k, v)
                                      for k, v in kw.items()})
            return Term("new", "option", (flags[0],))

        def group(I, f, a, kw, node):
            if real(f.args[0]) is None:
                return NotImplemented
            return Term("new", "group", (0, f.args[0]))

        def parse(I, f, a, kw, node):
            p = real(f.args[0])
            if p is None:
                return NotImplemented
            args = I.known_items(a[0]) if a else None
            if args is None:
                raise Undecided("arguments being parsed")
            words = [self.word(x) for x in args]
            del self.custom[:]
            known = f.args[1] == "parse_known_args"
            try:
                import contextlib
                import io
                with contextlib.redirect_stdout(io.StringIO()):
                    ns, rest = p.parse_known_args(words)
                if rest and not known:
                    raise SystemExit(2)
            except SystemExit as e:
                I.throw("SystemExit", Const(e.code))
            self.n += 1
            t = Term("new", "namespace", (self.n,))
            for k, v in vars(ns).items():
                I.st.symattrs[t, k] = self.back(v)
            self.apply(t)
            return Tup([t, self.back(rest)]) if known else t
        return {"ext:argparse.ArgumentParser": new,
                "meth:add_argument": add,
                "meth:add_argument_group": group,
                "meth:add_mutually_exclusive_group": group,
                "meth:parse_args": parse, "meth:parse_known_args": parse}
