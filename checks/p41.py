"""P41: exploded and packed archives offer the same view."""

from itertools import product

from sa.interp import Interp, Undecided
from sa.values import Const, Term, Tup, Ref, NONE, HList, HDict, Item, Rep, show
from sa import ops, orders, gram
from sa.strs import sname
from checks.p01 import nrm
from checks.p43 import items

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation over symbolic "
                 "directory trees, file contents and modes",
    "rule": "a directory opened as an archive lists exactly its "
            "subdirectories, with trailing slash, and its regular files, "
            "under their paths relative to it, each with the size and "
            "checksum of that file; entries are opened in binary mode and "
            "read completely; the archive kind follows from the path's "
            "kind; statistics count every entry once; stream tests restore "
            "the position",
    "assumptions": ["os.walk visits every directory below its argument once",
                    "deeper trees are treated like those explored"],
}


def nm(x):
    return ops.cat([Const(x + "_"), sname(x, "/")])


def cat(*ps):
    return ops.cat([Const(p) if isinstance(p, str) else p for p in ps])


ROOT = cat("/", nm("root"))


def path(*ps):
    r = ROOT
    for p in ps:
        r = cat(r, "/", nm(p))
    return r


def rel(*ps):
    r = nm(ps[0])
    for p in ps[1:]:
        r = cat(r, "/", nm(p))
    return r


def h_join(I, f, a, kw, node):
    r = a[0]
    for x in a[1:]:
        r = cat(r, "/", x) if r != Const("") else x
    return r


def h_relpath(I, f, a, kw, node):
    from sa import strs
    if len(a) == 2 and a[1] == ROOT:
        if a[0] == ROOT:
            return Const(".")
        ps, root = strs.parts(a[0]), strs.parts(ROOT)
        rest = strs.getslice(a[0], Term("slice", ops.ladd(strs.length(root), Const(1)),
                                            NONE, NONE))
        return rest
    return NotImplemented


def entries(I, p, v):
    """the items of a sequence, sorted or not"""
    I.st = p.st
    segs = I.segs_of(v)
    if len(segs) == 1 and isinstance(segs[0], Rep) and \
            segs[0].loop == "sorted":
        return [i.v for i in segs[0].alts[0][1]]
    return items(I, p, v)


TREE = {(): (["d", "lnk"], ["f", "g"]), ("d",): (["e"], ["f"]),
        ("d", "e"): ([], []), ("lnk",): ([], ["h"])}


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 12
    base = len(I.base.path)
    Z = I.get("ziputils", "ExplodedZipFile")

    def tree_hooks():
        def walk(I_, f, a, kw, n):
            if a[0] != ROOT:
                raise Undecided("walk of %s" % show(a[0]))
            out = []
            for d in sorted(TREE):
                ds, fs = TREE[d]
                if d == ("lnk",):
                    continue        # os.walk does not follow links
                out.append(Tup([path(*d), I_.alloc(HList("list", [
                    Item(nm(x)) for x in ds])), I_.alloc(HList("list", [
                        Item(nm(x)) for x in fs]))]))
            return Tup(out)
        return {"ext:os.walk": walk, "ext:os.path.join": h_join,
                "ext:os.path.relpath": h_relpath}

    def h_crc(I_, f, a, kw, n):
        return Term("num", "crc", a[0])

    def pathconds(p, name):
        """what the path knows of name(file)"""
        out = {}
        for c, b in orders.conds(p, base):
            t = c.args[0] if c.op == "truth" else None
            if isinstance(t, Term) and t.op == "call" and getattr(
                    t.args[0], "name", "").endswith(name):
                out[t.args[1][0]] = b
        return out

    # listing
    rule = "exploded-listing"
    FILES = [("f",), ("g",), ("d", "f")]
    DIRS = [("d",), ("d", "e")]
    for what in ("namelist", "infolist", "getinfo"):
        key = "exploded:" + what
        with rep.guard(key, rule):
            rep.ok(key, rule)
            I.hooks = tree_hooks()
            I.hooks["ziputils.file_crc32"] = h_crc

            def go():
                z = I.call(Z, [ROOT], {})
                if what == "getinfo":
                    return Tup([I.call(I.getattr(z, "getinfo"), [x], {})
                                for x in [rel(*f) for f in FILES] + [
                                    cat(rel(*d), "/") for d in DIRS]])
                r = I.call(I.getattr(z, what), [], {})
                return r
            for p in I.run(go):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    break
                links = pathconds(p, "islink")
                files = pathconds(p, "isfile")
                want = []
                for f in FILES:
                    if links.get(path(*f)) or files.get(path(*f)) is False:
                        continue
                    want.append((rel(*f), f))
                for d in DIRS:
                    if not links.get(path(*d)):
                        want.append((cat(rel(*d), "/"), None))
                got = [x for x in entries(I, p, p.val) if x != NONE]
                I.st = p.st

                def att(o, n):
                    return nrm(I, p.st, I.getattr(o, n))
                names = [nrm(I, p.st, x) if what == "namelist" else
                         att(x, "filename") for x in got]
                if sorted(map(show, names)) != sorted(
                        show(n) for n, _f in want):
                    rep.bad(key, rule, "lists %s, should list %s" % (
                        ", ".join(map(show, names)), ", ".join(
                            show(n) for n, _f in want)))
                    break
                if what == "namelist":
                    continue
                for x, n in zip(got, names):
                    f = dict(want)[n]
                    if f is None:
                        continue
                    crc, size = att(x, "CRC"), att(x, "file_size")
                    if crc != Term("num", "crc", path(*f)) or not (
                            isinstance(size, Term) and size.op == "call" and
                            getattr(size.args[0], "name", "").endswith(
                                "getsize") and size.args[1] == (path(*f),)):
                        rep.bad(key, rule, "size and checksum of %s are %s "
                                "and %s" % (show(n), show(size), show(crc)))
    # binary mode
    rule = "binary-entries"
    for mode in (None, "r", "rb"):
        for fn in ("open", "open_zip_entry"):
            key = "exploded:%s:%s" % (fn, mode)
            with rep.guard(key, rule):
                rep.ok(key, rule)
                I.hooks = tree_hooks()
                opened = []

                def h_open(I_, f, a, kw, n):
                    m = kw.get("mode", a[1] if len(a) > 1 else Const("r"))
                    opened.append((a[0], m))
                    return Term("new", "stream", (a[0],))
                I.hooks["ext:builtins.open"] = I.hooks["ext:io.open"] = h_open

                def go():
                    opened[:] = []
                    z = I.syminst(Z, "Z", open_=True, attrs={
                        "fn": ROOT, "filename": ROOT})
                    ms = [] if mode is None else [Const(mode)]
                    if fn == "open":
                        r = I.call(I.getattr(z, "open"), [nm("f")] + ms, {})
                    else:
                        r = I.call(I.get("ziputils", fn), [z, nm("f")] + ms,
                                   {})
                    return Tup([Tup([a, b]) for a, b in opened])
                for p in I.run(go):
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        continue
                    os_ = p.val.items
                    if len(os_) != 1:
                        rep.bad(key, rule, "opens %d files" % len(os_))
                    elif os_[0].items[0] != path("f"):
                        rep.bad(key, rule, "opens %s for entry f" % show(
                            os_[0].items[0]))
                    elif not isinstance(os_[0].items[1], Const):
                        raise Undecided("mode %s" % show(os_[0].items[1]))
                    elif sorted(os_[0].items[1].v) != ["b", "r"]:
                        rep.bad(key, rule, "opens the entry with mode %r" %
                                os_[0].items[1].v)
    # reading
    rule = "whole-content"
    for fn in ("read", "file_crc32", "chunk_zip_entry"):
        for n in range(0, 4):
            key = "%s:%d" % (fn, n)
            with rep.guard(key, rule):
                rep.ok(key, rule)
                pos = [0]
                S = Term("new", "stream", ("s",))
                chunks = [sname("chunk%d" % i, "") for i in range(n)]

                def h_open(I_, f, a, kw, nn):
                    return S

                def h_read(I_, f, a, kw, nn):
                    if f.args[0] != S:
                        return NotImplemented
                    i = pos[0]
                    if not a or a[0] in (Const(-1), NONE):
                        pos[0] = n
                        return ops.cat(chunks[i:]) if i < n else Const(b"")
                    pos[0] += 1
                    return chunks[i] if i < n else Const(b"")
                I.hooks = tree_hooks()
                I.hooks.update({
                    "ext:builtins.open": h_open, "ext:io.open": h_open,
                    "meth:open": h_open, "meth:read": h_read})

                def crc(I_, f, a, kw, nn):
                    return Term("num", "crc", tuple(a) + (
                        (Const(0),) if len(a) < 2 else ()))
                for q in ("zlib.crc32", "binascii.crc32"):
                    I.hooks["ext:" + q] = crc

                def go():
                    pos[0] = 0
                    if fn == "read":
                        z = I.syminst(Z, "Z", open_=True, attrs={
                            "fn": ROOT, "filename": ROOT})
                        return I.call(I.getattr(z, "read"), [nm("f")], {})
                    a = [path("f")] if fn == "file_crc32" else [
                        Term("new", "zip", ()), nm("f")]
                    return I.call(I.get("ziputils", fn), a, {})
                for p in I.run(go):
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        continue
                    if fn == "chunk_zip_entry":
                        got = [nrm(I, p.st, x) for x in items(I, p, p.val)]
                        want = chunks
                    elif fn == "read":
                        got = nrm(I, p.st, p.val)
                        want = ops.cat(chunks) if n else Const(b"")
                    else:
                        got = nrm(I, p.st, p.val)
                        want = Const(0)
                        for c in chunks:
                            want = Term("num", "crc", (c, want))
                        if n and got != want:
                            # all at once is as good
                            alt = Term("num", "crc", (ops.cat(chunks),
                                                      Const(0)))
                            want = alt if got == alt else want
                    if got != want:
                        rep.bad(key, rule, "gives %s, should give %s" % (
                            got if isinstance(got, list) else show(got),
                            want if isinstance(want, list) else show(want)))
    # kind of archive
    rule = "archive-kind"
    for kind in ("dir", "zip", "other"):
        for fn in ("zip_file", "open_zip"):
            key = "%s:%s" % (fn, kind)
            with rep.guard(key, rule):
                rep.ok(key, rule)
                made = []
                I.hooks = tree_hooks()
                I.hooks["ziputils.file_crc32"] = h_crc
                I.hooks["ext:os.path.isdir"] = lambda *a: Const(
                    kind == "dir")
                I.hooks["ext:zipfile.is_zipfile"] = lambda *a: Const(
                    kind == "zip")

                def h_zip(I_, f, a, kw, nn):
                    made.append((a, kw))
                    return Term("new", "zip", (a[0],))
                I.hooks["ext:zipfile.ZipFile"] = h_zip

                def go():
                    made[:] = []
                    return I.call(I.get("ziputils", fn), [ROOT], {})
                for p in I.run(go):
                    if kind == "other":
                        if p.kind != "raise":
                            rep.bad(key, rule, "a path which is neither an "
                                    "archive nor a directory is accepted")
                        continue
                    if p.kind == "raise":
                        rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                        continue
                    I.st = p.st
                    v = p.val
                    isz = isinstance(v, Term) and v == Term(
                        "new", "zip", (ROOT,))
                    isx = isinstance(v, Ref) and getattr(
                        I.obj(v), "cls", None) is Z
                    if isinstance(v, Ref) and not isx:
                        m = I.getattr(v, "managed")
                        isz = m == Term("new", "zip", (ROOT,))
                        isx = isinstance(m, Ref) and I.obj(m).cls is Z
                        v = m
                    if kind == "zip" and not isz or kind == "dir" and not \
                            isx:
                        rep.bad(key, rule, "a %s is opened as %s" % (
                            kind, show(p.val)))
                    elif isz:
                        a, kw = made[-1]
                        m = a[1] if len(a) > 1 else kw.get("mode",
                                                           Const("r"))
                        if m != Const("r"):
                            rep.bad(key, rule, "opened with mode %s" %
                                    show(m))
    # statistics
    rule = "rollup-counts"
    for pat in product("fd", repeat=3):
        key = "zip_entry_rollup:" + "".join(pat)
        with rep.guard(key, rule):
            rep.ok(key, rule)
            infos = [Term("new", "info", (i,)) for i in range(3)]

            def attr(I_, o, name):
                if o in infos:
                    i = infos.index(o)
                    if name == "filename":
                        return cat(nm("n%d" % i), "/" if pat[i] == "d"
                                   else ".x")
                    if name == "is_dir":
                        return NotImplemented
                    return Term("num", name, i)
                return NotImplemented
            I.hooks = {"meth:infolist": lambda *a: Tup(infos)}
            I.hooks.update({"attr:" + x: attr for x in (
                "filename", "file_size", "compress_size")})
            I.hooks["meth:is_dir"] = lambda I_, f, a, kw, n: Const(
                pat[infos.index(f.args[0])] == "d")
            for p in I.run(lambda: I.call(I.get(
                    "ziputils", "zip_entry_rollup"),
                    [Term("new", "zip", ())], {})):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                got = [nrm(I, p.st, x) for x in items(I, p, p.val)]

                def total(n, only):
                    r = Const(0)
                    for i in range(3):
                        if pat[i] == "f" or not only:
                            r = ops.ladd(r, Term("num", n, i))
                    return r
                want = [[Const(pat.count("f")), Const(pat.count("d")),
                         total("compress_size", o), total("file_size", o)]
                        for o in (0, 1)]
                swap = [w[:2] + w[:1:-1] for w in want]
                if got not in want + swap:
                    rep.bad(key, rule, "gives %s" % ", ".join(map(show, got)))
                elif got in want and got not in swap:
                    # documented order is uncompressed, compressed; users
                    # of the function are judged in the jarinfo check
                    pass
    # stream test
    rule = "stream-restored"
    for tellable, seekable, found in product((True, False), repeat=3):
        key = "is_zipstream:%s%s%s" % (
            "tell" if tellable else "-", "+seek" if seekable else "",
            "" if found else " none")
        with rep.guard(key, rule):
            rep.ok(key, rule)
            S = Term("new", "stream", ("s",))
            pos = [None]
            T0 = Term("num", "POS0")

            def tell(I_, f, a, kw, n):
                if f.args[0] != S:
                    return NotImplemented
                if not tellable:
                    I_.throw("AttributeError", Const("tell"), f.args[0])
                return pos[0]

            def seek(I_, f, a, kw, n):
                if f.args[0] != S:
                    return NotImplemented
                pos[0] = a[0] if len(a) == 1 or a[1] == Const(0) else Term(
                    "num", "elsewhere")
                return NONE

            def has(I_, o, n):
                if o == S:
                    return {"tell": tellable, "seek": seekable,
                            "read": True}.get(n, False)
                return NotImplemented

            def end(I_, f, a, kw, n):
                pos[0] = Term("num", "moved")
                return Term("new", "endrec", ("e",)) if found else NONE
            I.hooks = {"meth:tell": tell, "meth:seek": seek,
                       "hasattr": has, "ext:zipfile._EndRecData": end,
                       "isinstance": lambda I_, v, c, *r: False
                       if v == S else NotImplemented}

            def go():
                pos[0] = T0
                r = I.call(I.get("ziputils", "is_zipstream"), [S], {})
                return Tup([r, pos[0]])
            for p in I.run(go):
                if p.kind == "raise":
                    rep.bad(key, rule, "raises %s" % show(p.val), p.loc)
                    continue
                r, end_ = p.val.items
                if tellable and seekable and end_ != T0:
                    rep.bad(key, rule, "the stream is left at %s" %
                            show(end_))
                r = nrm(I, p.st, r)
                if isinstance(r, Const) and bool(r.v) != found:
                    rep.bad(key, rule, "result is %s if the end of central "
                            "directory is %sfound" % (
                                show(r), "" if found else "not "))
                elif not isinstance(r, Const):
                    raise Undecided("result %s" % show(r))
    rep.cover(I)
    rep.expect = 30
