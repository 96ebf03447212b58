"""Models of builtins and of the few library functions the engine folds."""

import ast
import builtins as _pyb
import os
import struct as _struct

from .values import (
    Val, Const, Term, Tup, Ref, Func, Bound, Cls, Mod, Ext, PropVal,
    StaticVal, ClassMVal, SuperVal, PartialVal, BuiltinMethod,
    Item, Rep, Many, HList, HDict, HInst, NONE, TRUE, FALSE, show)
from . import ops, strs
from .ops import mk, unmk, cat


PYTYPES = {
    "builtins.int": int, "builtins.str": str, "builtins.bytes": bytes,
    "builtins.bool": bool, "builtins.float": float, "builtins.tuple": tuple,
    "builtins.object": object,
}

CONST_STR_METHODS = {
    "startswith", "endswith", "strip", "rstrip", "lstrip", "lower",
    "upper", "replace", "encode", "decode", "find", "rfind", "index",
    "count", "isdigit", "title", "zfill", "ljust", "rjust", "capitalize",
    "isupper", "islower", "isalpha", "center", "hex", "join",
}


class ExtMixin(object):

    # -- external functions ---------------------------------------------

    def call_ext(self, f, args, kwargs, node):
        if args and f.name in STORE_INITS and self.store(args[0]) is not None:
            return self.call_builtin_method(
                BuiltinMethod(self.store(args[0]), f.name.rsplit(".", 1)[1]),
                args[1:], kwargs, node)
        name = f.name
        if name.startswith("builtins."):
            m = getattr(self, "bi_" + name[9:], None)
            if m is not None:
                r = m(args, kwargs, node)
                if r is not NotImplemented:
                    return r
            cls = getattr(_pyb, name[9:], None)
            if isinstance(cls, type) and issubclass(cls, BaseException):
                return Term("exc", name[9:],
                            tuple(self.norm(a) for a in args))
            try:
                pa = [unmk(a) for a in args]
                pk = {k: unmk(v) for k, v in kwargs.items()}
            except ValueError:
                pa = None
            if pa is not None and name[9:] in (
                    "ord", "chr", "hex", "abs", "int", "float", "str",
                    "repr", "round", "bytes", "oct", "bin", "divmod", "len",
                    "hash", "bool"):
                try:
                    return mk(getattr(_pyb, name[9:])(*pa, **pk))
                except Exception as e:
                    self.throw(type(e).__name__)
            return self.opaque(f, args, kwargs, node)
        m = getattr(self, "xt_" + name.replace(".", "_"), None)
        if m is not None:
            r = m(args, kwargs, node)
            if r is not NotImplemented:
                return r
        if name.startswith("os.path.") and all(
                isinstance(a, Const) for a in args) and not kwargs:
            fn = getattr(os.path, name[8:], None)
            if name[8:] in ("join", "basename", "dirname", "split",
                            "splitext", "normpath"):
                try:
                    return mk(fn(*[a.v for a in args]))
                except Exception:
                    pass
        return self.opaque(f, args, kwargs, node)

    def bi_len(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HInst):
                f, _k = self.cls_lookup(o.cls, "__len__")
                if isinstance(f, Func):
                    return self.call(Bound(f, v), [], {})
                if "*store" in o.attrs:
                    return self.bi_len([o.attrs["*store"]], {}, node)
            if isinstance(o, HDict) and o.base is None and not o.reps:
                return Const(len(o.entries))
        items = self.known_items(v)
        if items is not None:
            if isinstance(v, Ref) and self.obj(v).kind == "set" \
               if isinstance(v, Ref) and isinstance(self.obj(v), HList) \
               else False:
                if not all(isinstance(i, Const) for i in items):
                    return NotImplemented
            return Const(len(items))
        if isinstance(v, Const):
            try:
                return Const(len(v.v))
            except TypeError:
                self.throw("TypeError", Const("len"))
        t = self.norm(v)
        if strs.structured(t):
            r = strs.length(strs.parts(t))
            return r
        h = self.hooks.get("len")
        if h is not None:
            r = h(self, self.norm(v))
            if r is not NotImplemented:
                return r
        return self.opaque(Ext("builtins.len"), args, {}, node, pure=True)

    def bi_chr(self, args, kwargs, node):
        v = self.norm(args[0])
        if isinstance(v, Term) and v in self.st.eqs:
            v = self.st.eqs[v]
        if isinstance(v, Term) and ops.is_num(v):
            return Term("chr1", v)
        return NotImplemented

    def bi_ord(self, args, kwargs, node):
        v = self.norm(args[0])
        if isinstance(v, Term) and v.op == "chr1":
            return v.args[0]
        return NotImplemented

    def bi_isinstance(self, args, kwargs, node):
        return self.boolval(self.isinst(args[0], args[1]))

    def bi_issubclass(self, args, kwargs, node):
        a, b = args
        if isinstance(a, Cls) and isinstance(b, (Cls, Ext)):
            return Const(b in a.mro)
        return NotImplemented

    def isinst(self, v, cls):
        if isinstance(cls, Tup):
            for c in cls.items:
                if self.cond(self.isinst(v, c)):
                    return True
            return False
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HInst):
                if isinstance(o.cls, Cls):
                    if cls in o.cls.mro:
                        return True
                    if isinstance(cls, Ext):
                        return any(isinstance(k, Ext) and
                                   ext_eq(k.name, cls.name)
                                   for k in o.cls.mro) or \
                            cls.name == "builtins.object"
                    if o.open and isinstance(cls, Cls) and (
                            cls.derives(o.cls)):
                        return Term("isinstance", o.sym, cls), True
                return False
            if isinstance(o, HList) and isinstance(cls, Ext):
                return cls.name in ("builtins." + o.kind, "builtins.object")
            if isinstance(o, HDict) and isinstance(cls, Ext):
                return cls.name in ("builtins.dict", "builtins.object")
            return False
        if isinstance(v, Const) and isinstance(cls, Ext):
            t = PYTYPES.get(cls.name)
            if t is not None:
                return isinstance(v.v, t)
            if cls.name in ("six.string_types",):
                return isinstance(v.v, str)
            if cls.name in ("six.integer_types",):
                return isinstance(v.v, int)
            return False
        if isinstance(v, Const):
            return False
        if isinstance(v, Tup):
            return isinstance(cls, Ext) and cls.name in (
                "builtins.tuple", "builtins.object")
        if isinstance(v, (Func, Bound, Cls, Mod, PartialVal, BuiltinMethod)):
            if isinstance(cls, Ext) and cls.name == "builtins.type":
                return isinstance(v, Cls)
            return False
        if isinstance(v, Term):
            if isinstance(cls, Ext):
                if v.op in ("cat", "strof", "sname"):
                    return cls.name in ("builtins.str", "six.string_types")
                if ops.is_num(v):
                    return cls.name in ("builtins.int", "six.integer_types")
                if v.op == "list" or v.op == "exc":
                    pass
            h = self.hooks.get("isinstance")
            if h is not None:
                r = h(self, v, cls)
                if r is not None and r is not NotImplemented:
                    return r
            return Term("isinstance", v, cls), True
        return Term("isinstance", self.norm(v), cls), True

    def bi_hasattr(self, args, kwargs, node):
        o, n = args
        if not isinstance(n, Const):
            return NotImplemented
        hk = self.hooks.get("hasattr")
        if hk is not None:
            r = hk(self, o, n.v)
            if r is not NotImplemented:
                return Const(r)
        if isinstance(o, Ref):
            h = self.obj(o)
            if isinstance(h, HInst):
                if n.v in h.attrs:
                    return TRUE
                v, _k = self.cls_lookup(h.cls, n.v)
                if v is not None:
                    return TRUE
                if h.sym is None:
                    return FALSE
                return self.boolval(
                    (Term("hasattr", h.sym, n.v), True))
        if isinstance(o, Cls):
            return Const(o.lookup(n.v)[0] is not None)
        if isinstance(o, Mod) and not n.v.startswith("_"):
            fid = self.module(o.name)
            vs = (self.st.frames.get(fid) or self.base.frames[fid]).vars
            return Const(n.v in vs or o.name + "." + n.v in self.prog.trees)
        if isinstance(o, Const):
            return Const(hasattr(o.v, n.v))
        if isinstance(o, Ext) and o.name in ("hashlib",):
            import hashlib
            return Const(hasattr(hashlib, n.v))
        t = self.norm(o)
        if (t, n.v) in self.st.symattrs:
            return TRUE
        if isinstance(t, Term) and t.op == "new" and \
                t.args[0] == "namespace" and not n.v.startswith("_"):
            return FALSE
        return self.boolval((Term("hasattr", t, n.v), True))

    def iter_calls(self, args, node):
        if len(args) != 2 or not self.unroll:
            return NotImplemented
        out = []
        for _i in range(self.unroll):
            v = self.call(args[0], [], {}, node)
            r = self.eq(v, args[1])
            if r is True or r is not False and self.cond(r):
                return self.alloc(HList("gen", out))
            out.append(Item(v))
        from .interp import Undecided
        raise Undecided("loop bound")

    def bi_getattr(self, args, kwargs, node):
        o, n = args[0], args[1]
        if not isinstance(n, Const):
            return Term("call", Ext("builtins.getattr"),
                        tuple(self.norm(a) for a in args), (), 0)
        if len(args) == 2:
            return self.getattr(o, n.v)
        c = self.bi_hasattr([o, n], {}, node)
        if self.truth(c):
            return self.getattr(o, n.v)
        return args[2]

    def bi_setattr(self, args, kwargs, node):
        if isinstance(args[1], Const):
            self.setattr(args[0], args[1].v, args[2])
            return NONE
        return NotImplemented

    def bi_type(self, args, kwargs, node):
        if len(args) != 1:
            return NotImplemented
        v = args[0]
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, HInst):
                if o.open:
                    return Term("call", Ext("builtins.type"),
                                (self.norm(v),), (), 0)
                return o.cls
            if isinstance(o, HList):
                return Ext("builtins." + o.kind)
            return Ext("builtins.dict")
        if isinstance(v, Const):
            return Ext("builtins." + type(v.v).__name__)
        if isinstance(v, Tup):
            return Ext("builtins.tuple")
        return NotImplemented

    def bi_super(self, args, kwargs, node):
        return SuperVal(args[0], args[1])

    def bi_print(self, args, kwargs, node):
        self.emit("print", Ext("builtins.print"),
                  [self.norm(a) for a in args],
                  [(k, self.norm(v)) for k, v in kwargs.items()], NONE, node)
        return NONE

    def bi_range(self, args, kwargs, node):
        a = [self.norm(x) for x in args]
        a = [self.st.eqs.get(x, x) if isinstance(x, Term) else x for x in a]
        if len(a) == 1:
            a = [Const(0), a[0], Const(1)]
        elif len(a) == 2:
            a = a + [Const(1)]
        return Term("range", *a)

    def map_segs(self, segs, f):
        out = []
        for s in segs:
            if isinstance(s, Item):
                out.append(Item(f(s.v)))
            elif isinstance(s, Rep):
                out.append(Rep(s.loop, s.iter, [
                    (p, tuple(self.map_segs(ss, f))) for p, ss in s.alts]))
            else:
                el = self.elem_of(s.t)
                out.append(Rep("map", s.t, [((), (Item(f(el)),))]))
        return out

    def bi_enumerate(self, args, kwargs, node):
        start = args[1] if len(args) > 1 else kwargs.get("start", Const(0))
        items = self.known_items(args[0])
        if items is not None and isinstance(start, Const):
            return self.newlist([Tup([Const(i + start.v), v])
                                 for i, v in enumerate(items)], "gen")
        if isinstance(args[0], Ref):
            n = self.norm(args[0])
            return self.newsegs(self.map_segs(
                self.segs_of(args[0]),
                lambda v: Tup([Term("num", "idx", n, start), v])), "gen")
        return self.opaque(Ext("builtins.enumerate"), args, kwargs, node,
                           pure=True)

    def bi_zip(self, args, kwargs, node):
        ks = [self.known_items(a) for a in args]
        if all(k is not None for k in ks):
            return self.newlist([Tup(x) for x in zip(*ks)], "gen")
        return self.opaque(Ext("builtins.zip"), args, kwargs, node, pure=True)

    def xt_fnmatch_fnmatch(self, args, kwargs, node):
        if len(args) == 2 and not kwargs and all(
                isinstance(a, Const) and isinstance(a.v, str) for a in args):
            import fnmatch
            return Const(fnmatch.fnmatchcase(args[0].v, args[1].v))
        return self.opaque(Ext("fnmatch.fnmatch"), args, kwargs, node,
                           pure=True)

    def xt_fnmatch_fnmatchcase(self, args, kwargs, node):
        return self.xt_fnmatch_fnmatch(args, kwargs, node)

    def xt_itertools_zip_longest(self, args, kwargs, node):
        ks = [self.known_items(a) for a in args]
        if all(k is not None for k in ks):
            import itertools
            fv = kwargs.get("fillvalue", NONE)
            return self.newlist([Tup(x) for x in itertools.zip_longest(
                *ks, fillvalue=fv)], "gen")
        return self.opaque(Ext("itertools.zip_longest"), args, kwargs, node,
                           pure=True)

    def bi_sorted(self, args, kwargs, node):
        v = args[0]
        items = self.known_items(v)
        if items is not None and all(isinstance(i, Const) for i in items) \
           and not kwargs:
            try:
                return self.newlist([Const(x) for x in
                                     sorted(i.v for i in items)])
            except TypeError:
                pass
        if items is not None and len(items) < 2:
            return self.newlist(items)
        if items is not None:
            r = self.sort_items(items, kwargs)
            if r is not None:
                return self.newlist(r)
        segs = self.segs_of(v)
        return self.newsegs([Rep("sorted", Term(
            "call", Ext("builtins.sorted"), (self.norm(v),), (), 0), [
                ((), tuple(segs))])] if len(segs) != 1 or not isinstance(
                    segs[0], (Many, Rep)) else segs)

    def sort_items(self, items, kwargs):
        """sorted, if the order follows from constants; with forksort for
        each order the comparisons admit"""
        import ast
        import functools
        if set(kwargs) - {"key", "reverse"}:
            return None
        rev = kwargs.get("reverse", Const(False))
        if not isinstance(rev, Const):
            return None
        key = kwargs.get("key", NONE)
        keys = items if key == NONE else [
            self.call(key, [x], {}) for x in items]

        def cmp(a, b):
            if isinstance(a, Const) and isinstance(b, Const):
                return (a.v > b.v) - (a.v < b.v)
            if isinstance(a, Tup) and isinstance(b, Tup):
                for x, y in zip(a.items, b.items):
                    if x != y:
                        return cmp(x, y)
                return len(a.items) - len(b.items)
            if self.forksort:
                def lt(x, y):
                    c = self.compare(ast.Lt(), x, y)
                    return c if isinstance(c, bool) else self.cond(c)
                # sorting is by "less than" only
                return -1 if lt(a, b) else 0
            raise TypeError
        try:
            order = sorted(range(len(items)), key=functools.cmp_to_key(
                lambda i, j: cmp(keys[i], keys[j])), reverse=bool(rev.v))
        except TypeError:
            return None
        return [items[i] for i in order]

    def bi_reversed(self, args, kwargs, node):
        items = self.known_items(args[0])
        if items is not None:
            return self.newlist(list(reversed(items)), "gen")
        return NotImplemented

    def _mklist(self, kind, args):
        if not args:
            return self.newlist([], kind)
        return self.newsegs(self.segs_of(args[0]), kind)

    def bi_list(self, args, kwargs, node):
        return self._mklist("list", args)

    def bi_set(self, args, kwargs, node):
        r = self._mklist("set", args)
        o = self.obj(r)
        out = []
        for s in o.segs:
            if isinstance(s, Item) and s in out:
                continue
            out.append(s)
        self.put(r, HList("set", out))
        return r

    def bi_frozenset(self, args, kwargs, node):
        return self.bi_set(args, kwargs, node)

    def bi_tuple(self, args, kwargs, node):
        if not args:
            return Tup([])
        items = self.known_items(args[0])
        if items is not None:
            return Tup(items)
        return self.newsegs(self.segs_of(args[0]), "tuple")

    def bi_dict(self, args, kwargs, node):
        d = self.newdict()
        if args:
            self.dict_update(d, args[0])
        for k, v in kwargs.items():
            self.setitem(d, Const(k), v)
        return d

    def xt_collections_OrderedDict(self, args, kwargs, node):
        return self.bi_dict(args, kwargs, node)

    def bi_iter(self, args, kwargs, node):
        if len(args) != 1:
            return self.iter_calls(args, node)
        v = self.iterate_protocol(args[0])
        if isinstance(v, Ref) and isinstance(self.obj(v), (HList, HDict)):
            return self.newsegs(self.segs_of(v), "gen")
        return v

    def bi_next(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, Ref) and isinstance(self.obj(v), HList):
            o = self.obj(v)
            if o.segs and isinstance(o.segs[0], Item):
                self.put(v, HList(o.kind, o.segs[1:]))
                return o.segs[0].v
            if not o.segs:
                if len(args) > 1:
                    return args[1]
                self.throw("StopIteration")
        if isinstance(v, Ref) and isinstance(self.obj(v), HInst):
            for nm in ("__next__", "next"):
                f, _k = self.cls_lookup(self.obj(v).cls, nm)
                if isinstance(f, Func):
                    return self.call(Bound(f, v), [], {})
        return NotImplemented

    def bi_map(self, args, kwargs, node):
        f = args[0]
        if len(args) == 2:
            res = self.alloc(HList("gen", ()))

            def body(v):
                self.list_append(res, self.call(f, [v], {}, node))
            self.loop_over(node, args[1], body)
            return res
        ks = [self.known_items(a) for a in args[1:]]
        if all(k is not None for k in ks):
            return self.newlist([self.call(f, list(x), {}, node)
                                 for x in zip(*ks)], "gen")
        return NotImplemented

    def bi_filter(self, args, kwargs, node):
        f = args[0]
        res = self.alloc(HList("gen", ()))

        def body(v):
            r = v if f == NONE else self.call(f, [v], {}, node)
            if self.truth(r):
                self.list_append(res, v)
        self.loop_over(node, args[1], body)
        return res

    def bi_any(self, args, kwargs, node):
        from .interp import BreakSig

        def body(v):
            if self.truth(v):
                raise BreakSig()
        return Const(self.loop_over(node, args[0], body) == "break")

    def bi_all(self, args, kwargs, node):
        from .interp import BreakSig

        def body(v):
            if not self.truth(v):
                raise BreakSig()
        return Const(self.loop_over(node, args[0], body) != "break")

    def bi_bool(self, args, kwargs, node):
        if not args:
            return FALSE
        v = args[0]
        if isinstance(v, Term):
            return self.boolval(ops.cond_truth(v))
        return Const(self.truth(v))

    def bi_int(self, args, kwargs, node):
        if len(args) == 1 and isinstance(args[0], Term):
            t = args[0]
            if t.op in ("eq", "lt0", "isnone", "truth", "in", "not"):
                return Const(int(self.truth(t)))
            if ops.is_num(t):
                return t
        return NotImplemented

    def bi_str(self, args, kwargs, node):
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Ref) and isinstance(self.obj(v), HInst):
                f, _k = self.cls_lookup(self.obj(v).cls, "__str__")
                if isinstance(f, Func) and not self.is_opaque(f, v):
                    return self.call(Bound(f, v), [], {})
            return ops.strof(self.norm(v))
        return NotImplemented

    def bi_sum(self, args, kwargs, node):
        items = self.known_items(args[0])
        if items is not None:
            r = args[1] if len(args) > 1 else Const(0)
            for i in items:
                r = self.binop("+", r, i)
            return r
        return NotImplemented

    def bi_min(self, args, kwargs, node):
        return self._minmax(args, kwargs, min)

    def bi_max(self, args, kwargs, node):
        return self._minmax(args, kwargs, max)

    def _minmax(self, args, kwargs, fn):
        if kwargs:
            return NotImplemented
        items = self.known_items(args[0]) if len(args) == 1 else list(args)
        if items and all(isinstance(i, Const) for i in items):
            return Const(fn(i.v for i in items))
        if items and len(items) == 2 and len(args) == 2:
            a, b = items
            lt = self.cond(ops.cond_lt(self.norm(b), self.norm(a)))
            if fn is min:
                return b if lt else a
            return a if lt else b
        return NotImplemented

    def bi_callable(self, args, kwargs, node):
        if isinstance(args[0], (Func, Bound, Cls, PartialVal)):
            return TRUE
        return NotImplemented

    def bi_property(self, args, kwargs, node):
        fget = args[0] if args else kwargs.get("fget")
        fset = args[1] if len(args) > 1 else kwargs.get("fset")
        return PropVal(fget, None if fset == NONE else fset)

    def bi_staticmethod(self, args, kwargs, node):
        return StaticVal(args[0])

    def bi_classmethod(self, args, kwargs, node):
        return ClassMVal(args[0])

    def bi_object(self, args, kwargs, node):
        return self.fresh("object")

    def bi_vars(self, args, kwargs, node):
        if len(args) == 1 and isinstance(args[0], Ref) and isinstance(
                self.obj(args[0]), HInst):
            h = self.obj(args[0])
            return self.newdict([(Const(k), v) for k, v in h.attrs.items()
                                 if isinstance(k, str)])
        return NotImplemented

    def bi_open(self, args, kwargs, node):
        return NotImplemented

    def xt_functools_partial(self, args, kwargs, node):
        return PartialVal(args[0], tuple(args[1:]), dict(kwargs))

    def xt_functools_wraps(self, args, kwargs, node):
        return Ext("functools.wraps.deco")

    def xt_functools_wraps_deco(self, args, kwargs, node):
        return args[0]

    def xt_six_add_metaclass(self, args, kwargs, node):
        return Ext("six.add_metaclass.deco")

    def xt_six_add_metaclass_deco(self, args, kwargs, node):
        return args[0]

    def xt_abc_abstractmethod(self, args, kwargs, node):
        return args[0]

    def xt_itertools_chain(self, args, kwargs, node):
        segs = []
        for a in args:
            segs.extend(self.segs_of(a))
        return self.newsegs(segs, "gen")

    def xt_itertools_chain_from_iterable(self, args, kwargs, node):
        res = self.alloc(HList("gen", ()))

        def body(v):
            self.list_extend(res, v)
        self.loop_over(node, args[0], body)
        return res

    def xt_struct_Struct(self, args, kwargs, node):
        return Term("Struct", self.norm(args[0]))

    def xt_struct_calcsize(self, args, kwargs, node):
        if isinstance(args[0], Const):
            return Const(_struct.calcsize(args[0].v))
        return NotImplemented

    def xt_six_iteritems(self, args, kwargs, node):
        if isinstance(args[0], Ref) and isinstance(self.obj(args[0]), HDict):
            return self.call_builtin_method(
                BuiltinMethod(args[0], "items"), [], {}, node)
        return NotImplemented

    def xt_collections_namedtuple(self, args, kwargs, node):
        name, fields = args[0], args[1]
        if isinstance(fields, Const):
            names = fields.v.replace(",", " ").split()
        else:
            names = [i.v for i in self.known_items(fields) or ()]
        return Term("namedtuple", name, tuple(names))

    def xt_copy_copy(self, args, kwargs, node):
        v = args[0]
        if isinstance(v, Ref):
            return self.alloc(self.obj(v))
        return v

    def xt_sys_exit(self, args, kwargs, node):
        from .interp import PyExc
        raise PyExc(Term("exc", "SystemExit",
                         tuple(self.norm(a) for a in args)), self.loc(node))

    # -- methods of builtin values ---------------------------------------

    def call_builtin_method(self, f, args, kwargs, node):
        o, n = f.obj, f.name
        if isinstance(o, Ref):
            h = self.obj(o)
            if isinstance(h, HList):
                return self.list_method(o, h, n, args, kwargs, node)
            if isinstance(h, HDict):
                return self.dict_method(o, h, n, args, kwargs, node)
        if isinstance(o, Const) and isinstance(o.v, (str, bytes)):
            return self.str_method(o, n, args, kwargs, node)
        if isinstance(o, Tup):
            if n == "index" or n == "count":
                for i, x in enumerate(o.items):
                    if x == args[0]:
                        return Const(i)
            if n == "__contains__":
                return self.boolval(self.contains(args[0], o))
        if isinstance(o, Const):
            try:
                return mk(getattr(o.v, n)(*[unmk(a) for a in args]))
            except Exception:
                pass
        if strs.structured(o):
            r = strs.method(self, o, n, args, kwargs)
            if r is not NotImplemented:
                return r
        return self.opaque(Term("attr", self.norm(o), n), args, kwargs, node)

    def list_method(self, o, h, n, args, kwargs, node):
        if n in ("append", "add"):
            self.list_append(o, args[0])
            return NONE
        if n in ("extend", "update"):
            for a in args:
                self.list_extend(o, a)
            return NONE
        if n == "appendleft" or (n == "insert" and args[0] == Const(0)):
            self.put(o, HList(h.kind, (Item(args[-1]),) + h.segs))
            return NONE
        if n == "pop":
            items = self.known_items(o)
            if items is not None:
                i = args[0].v if args and isinstance(args[0], Const) else -1
                if not items:
                    self.throw("IndexError")
                v = items.pop(i)
                self.put(o, HList(h.kind, [Item(x) for x in items]))
                return v
            if not args and h.segs and isinstance(h.segs[-1], Item):
                self.put(o, HList(h.kind, h.segs[:-1]))
                return h.segs[-1].v
            t = Term("popped", self.norm(o))
            self.put(o, HList(h.kind, [Many(Term("rest", self.norm(o)))]))
            return t
        if n == "popleft":
            if h.segs and isinstance(h.segs[0], Item):
                self.put(o, HList(h.kind, h.segs[1:]))
                return h.segs[0].v
        if n == "copy":
            return self.newsegs(h.segs, h.kind)
        if n == "clear":
            self.put(o, HList(h.kind, ()))
            return NONE
        if n in ("remove", "discard"):
            items = self.known_items(o)
            if items is not None and args[0] in items:
                items.remove(args[0])
                self.put(o, HList(h.kind, [Item(x) for x in items]))
                return NONE
            self.put(o, HList(h.kind, [Many(Term("without", self.norm(o),
                                                 self.norm(args[0])))]))
            return NONE
        if n == "sort":
            return NONE if self.known_items(o) is None or \
                self._sort(o, kwargs) else NONE
        if n == "reverse":
            items = self.known_items(o)
            if items is not None:
                self.put(o, HList(h.kind, [Item(x) for x in
                                           reversed(items)]))
                return NONE
            self.put(o, HList(h.kind, [Many(Term("reversed",
                                                 self.norm(o)))]))
            return NONE
        if n in ("union",):
            segs = list(h.segs)
            for a in args:
                segs.extend(self.segs_of(a))
            return self.newsegs(segs, "set")
        if n in ("difference", "intersection", "symmetric_difference",
                 "issubset", "issuperset", "isdisjoint"):
            op = {"difference": "-", "intersection": "&",
                  "symmetric_difference": "^"}.get(n)
            if len(args) == 1 and not op:
                ms = self.members(self.known_items(o),
                                  self.known_items(args[0]))
                if ms is not None:
                    return Const({
                        "issubset": all(ms[0]), "issuperset": all(ms[1]),
                        "isdisjoint": not any(ms[0])}[n])
            if op and len(args) == 1:
                r = self.binop_ref(op, o, args[0])
                if r is not None:
                    return r
            return Term("setop", n, self.norm(o), self.norm(args[0]))
        if n == "difference_update":
            self.put(o, HList(h.kind, [Many(Term(
                "setop", "-", self.norm(o), self.norm(args[0])))]))
            return NONE
        if n in ("__iter__",):
            return self.newsegs(h.segs, "gen")
        if n in ("next", "__next__"):
            return self.bi_next([o], {}, node)
        if n == "__len__":
            return self.bi_len([o], {}, node)
        if n == "index" or n == "count":
            items = self.known_items(o)
            if items is not None and n == "index":
                for i, x in enumerate(items):
                    if x == args[0]:
                        return Const(i)
        if n == "close":
            return NONE
        return self.opaque(Term("attr", self.norm(o), n), args, kwargs, node)

    def _sort(self, o, kwargs):
        items = self.known_items(o)
        h = self.obj(o)
        r = self.sort_items(items, kwargs)
        if r is not None:
            self.put(o, HList(h.kind, [Item(x) for x in r]))
        elif kwargs:
            from .interp import Undecided
            raise Undecided("order of sort")
        return True

    def dict_method(self, o, h, n, args, kwargs, node):
        if n == "get":
            d = args[1] if len(args) > 1 else NONE
            return self.dict_get(o, h, args[0], d)
        if n in ("items", "iteritems", "viewitems"):
            return self.newsegs(self._dict_segs(h, 2), "list")
        if n in ("values", "itervalues", "viewvalues"):
            return self.newsegs(self._dict_segs(h, 1), "list")
        if n in ("keys", "iterkeys", "viewkeys"):
            return self.newsegs(self._dict_segs(h, 0), "keys")
        if n in ("update", "__init__"):
            if args:
                self.dict_update(o, args[0])
            for k, v in kwargs.items():
                self.setitem(o, Const(k), v)
            return NONE
        if n == "setdefault":
            kn = self.norm(args[0])
            for a, v in h.entries:
                if self.norm(a) == kn:
                    return v
            if h.base is None and not h.reps and (
                    not h.entries or isinstance(kn, Const)) or \
                    self.surely_absent(h, kn):
                v = args[1] if len(args) > 1 else NONE
                self.setitem(o, args[0], v)
                return v
            d = self.norm(o)
            if self.cond((Term("in", kn, d), True)):
                return Term("index", d, kn)
            v = args[1] if len(args) > 1 else NONE
            self.setitem(o, args[0], v)
            return v
        if n == "pop":
            kn = self.norm(args[0])
            for a, v in h.entries:
                if self.norm(a) == kn:
                    self.put(o, HDict([(x, y) for x, y in h.entries
                                       if x != a], h.base, h.reps))
                    return v
            if h.base is None and not h.reps and isinstance(
                    kn, (Const, Cls)) and all(
                        not isinstance(self.norm(a), Term)
                        for a, _ in h.entries) or self.surely_absent(h, kn):
                if len(args) > 1:
                    return args[1]
                self.throw("KeyError", kn)
            d = self.norm(o)
            if len(args) > 1:
                if self.cond((Term("in", kn, d), True)):
                    return Term("index", d, kn)
                return args[1]
            return Term("index", d, kn)
        if n == "copy":
            return self.alloc(h)
        if n == "clear":
            self.put(o, HDict())
            return NONE
        if n in ("has_key", "__contains__"):
            return self.boolval(self.contains(args[0], o))
        if n == "__getitem__":
            return self.getitem(o, args[0])
        if n == "__setitem__":
            self.setitem(o, args[0], args[1])
            return NONE
        if n == "__len__":
            return self.bi_len([o], {}, node)
        return self.opaque(Term("attr", self.norm(o), n), args, kwargs, node)

    def _dict_segs(self, h, what):
        def pickw(k, v):
            return k if what == 0 else v if what == 1 else Tup([k, v])
        segs = [Item(pickw(k, v)) for k, v in h.entries]
        if h.base is not None:
            k = Term("elem", Term("keys", h.base))
            segs.append(Rep("base", Term("keys", h.base), [
                ((), (Item(pickw(k, Term("index", h.base, k))),))]))
        for r in h.reps:
            segs.append(Rep(r.loop, r.iter, [
                (p, tuple(Item(pickw(k, v)) for k, v in ents))
                for p, ents in r.alts]))
        return segs

    def str_method(self, o, n, args, kwargs, node):
        if n == "join":
            items = self.known_items(args[0])
            if items is not None:
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.append(o)
                    parts.append(self.norm(x))
                if not parts:
                    return Const(o.v[:0])
                return cat(parts)
            r = strs.join(o, self.norm(args[0]))
            if r is not None:
                return r
            return Term("join", o, self.norm(
                self.newsegs(self.segs_of(args[0]), "gen")))
        if n == "format":
            r = self.format_method(o.v, args, kwargs)
            if r is not None:
                return r
        try:
            pa = [unmk(a) for a in args]
            pk = {k: unmk(v) for k, v in kwargs.items()}
        except ValueError:
            pa = None
        if pa is not None:
            if n in CONST_STR_METHODS:
                try:
                    return mk(getattr(o.v, n)(*pa, **pk))
                except Exception as e:
                    self.throw(type(e).__name__)
            if n in ("split", "rsplit", "splitlines"):
                return self.newlist([mk(x) for x in
                                     getattr(o.v, n)(*pa, **pk)])
            if n in ("partition", "rpartition"):
                return mk(getattr(o.v, n)(*pa))
        return self.opaque(Term("attr", o, n), args, kwargs, node, pure=True)

    def format_method(self, fmt, args, kwargs):
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                parts.append(Const(lit))
                if field is None:
                    continue
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kwargs:
                    v = kwargs[field]
                else:
                    return None
                v = self.norm(v)
                if spec:
                    if isinstance(v, Const):
                        parts.append(Const(format(v.v, spec)))
                    else:
                        parts.append(Term("fmt", spec, v))
                else:
                    parts.append(ops.strof(v, conv or "s"))
        except (IndexError, ValueError):
            return None
        return cat(parts)


def ext_eq(a, b):
    return a == b


STORE_INITS = set("builtins.dict." + n for n in dir(dict)) | set(
    "collections.OrderedDict." + n for n in dir(dict)) | set(
        "builtins.list." + n for n in dir(list))
