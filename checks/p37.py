"""P37: the output and report options of the comparing commands."""

import posixpath
from itertools import product

from sa.interp import Interp, Undecided, PyExc
from sa.values import Const, Term, Tup, NONE, Ext, show
from checks.argp import Argv
from checks.ctree import param

from checks.p31 import excname, Bad

META = {
    "level": "proof",
    "technique": "static analysis: abstract interpretation of the commands "
                 "from their arguments to the files and output written, over "
                 "a comparison with parts of each outcome",
    "rule": "the result goes to the file named or else to standard output, "
            "as JSON exactly if asked for, unless quiet; each format named "
            "is written once into the report directory; ignored and "
            "unchanged parts are shown exactly if asked for; arguments which "
            "are not options are refused",
    "assumptions": ["argparse handles arguments as documented",
                    "names of files are handled alike"],
}

CMDS = [("classdiff", ("classdiff.JavaClassChange",),
         ("classdiff.JavaClassReport",)),
        ("jardiff", ("jardiff.JarChange",), ("jardiff.JarReport",)),
        ("distdiff", ("distdiff.DistChange",), ("distdiff.DistReport",))]
API = {"classdiff": "cli_classes_diff", "jardiff": "cli_jars_diff",
       "distdiff": "cli_dist_diff"}
DELTA = Term("new", "delta", ())
IGN = Term("new", "delta", ("ignored",))
SAME = Term("new", "delta", ("unchanged",))
STDOUT = Ext("sys.stdout")
EXT = {"json": ".json", "txt": ".text", "text": ".text", "html": ".html",
       "htm": ".html"}


class World(object):
    def __init__(self, I):
        self.I = I
        self.A = Argv(I)
        self.outcome = True, False      # changed, ignored
        self.reset()

    def reset(self):
        self.A.reset()
        self.files = []         # names, by number
        self.dirs = {"/cwd", "/"}
        self.lines = {}         # text written, by place
        self.done = []          # (kind, place, detail)
        self.reporter = None
        self.made = []

    def place(self, out):
        """the file, or standard output"""
        if out == STDOUT:
            return "standard output"
        if isinstance(out, Term) and out.op == "new" and out.args[0] == "out":
            return self.files[out.args[1][0]]
        raise Undecided("writing to %s" % show(out))

    def path(self, v):
        if isinstance(v, Const) and isinstance(v.v, str):
            return posixpath.normpath(posixpath.join("/cwd", v.v))
        raise Undecided("path %s" % show(v))

    def hooks(self, kinds):
        W = self
        h = self.A.hooks()

        def new(report):
            def f(I, f, a, kw, node):
                W.made.append((report, [I.norm(x) for x in a], dict(kw)))
                if report:
                    r = kw.get("reporter", a[2] if a[2:] else None)
                    if r is None:
                        raise Undecided("reporter")
                    W.reporter = r
                return DELTA
            return f
        for ks, report in zip(kinds, (False, True)):
            for k in ks:
                h["new:" + k] = new(report)

        def part(fn):
            def f(I, f, a, kw, node):
                t = f.args[0]
                if not (isinstance(t, Term) and t.op == "new" and
                        t.args[0] == "delta"):
                    return NotImplemented
                return fn(I, t, a, kw)
            return f

        def check(I, t, a, kw):
            if t == DELTA and W.reporter is not None:
                I.call(I.getattr(W.reporter, "setup"), [], {})
                s = I.call(I.getattr(W.reporter, "subreporter"), [
                    Const("a/B.x"), Const("PartReport")], {})
                I.call(I.getattr(s, "run"), [DELTA], {})
                I.call(I.getattr(W.reporter, "run"), [DELTA], {})
            return NONE

        def simplify(I, t, a, kw):
            W.done.append(("simplify", t, a[0] if a else kw.get(
                "options", NONE)))
            return Const("DATA")

        def describe(I, t, a, kw):
            return Const("part " + (t.args[1][0] if t.args[1] else "whole"))
        for n, fn in (("check", check), ("simplify", simplify),
                      ("is_change", lambda I, t, a, kw: Const(
                          W.outcome[0] if t == DELTA else t != SAME)),
                      ("is_ignored", lambda I, t, a, kw: Const(
                          W.outcome[1] if t == DELTA else t == IGN)),
                      ("get_description", describe),
                      ("collect", lambda I, t, a, kw: I.newlist(
                          [IGN, SAME] if t == DELTA else []))):
            h["meth:" + n] = part(fn)

        def hasattr_(I, o, n):
            if isinstance(o, Term) and o.op == "new" and o.args[0] == "delta":
                return "meth:" + n in h
            return NotImplemented
        h["hasattr"] = hasattr_

        # files

        def open_(I, f, a, kw, node):
            m = kw.get("mode", a[1] if a[1:] else Const("r"))
            if not isinstance(m, Const):
                raise Undecided("mode")
            p = W.path(a[0])
            if posixpath.dirname(p) not in W.dirs:
                I.throw("FileNotFoundError")
            W.files.append(p)
            if "w" in m.v and "+" not in m.v:
                W.lines[p] = ""
            elif "a" in m.v:
                W.lines[p] = W.lines.get(p, "OLD\n")
            else:
                raise Undecided("opening %s for %s" % (p, m.v))
            return Term("new", "out", (len(W.files) - 1,))

        def write(I, f, a, kw, node):
            t = f.args[0]
            if t != STDOUT and not (isinstance(t, Term) and t.op == "new" and
                                    t.args[0] == "out"):
                return NotImplemented
            if not (isinstance(a[0], Const) and isinstance(a[0].v, str)):
                raise Undecided("writes %s" % show(a[0]))
            p = W.place(t)
            W.lines[p] = W.lines.get(p, "") + a[0].v
            return NONE

        def exists(I, f, a, kw, node):
            p = W.path(a[0])
            return Const(p in W.dirs or p in W.files)

        def isdir(I, f, a, kw, node):
            return Const(W.path(a[0]) in W.dirs)

        def makedirs(I, f, a, kw, node):
            p = W.path(a[0])
            ok = kw.get("exist_ok", a[2] if a[2:] else Const(False))
            if p in W.dirs and ok != Const(True):
                I.throw("FileExistsError")
            while p not in W.dirs:
                W.dirs.add(p)
                p = posixpath.dirname(p)
            return NONE

        def pathfn(name):
            def f(I, f, a, kw, node):
                if NONE in a:
                    I.throw("TypeError")
                if kw or not all(isinstance(x, Const) and isinstance(
                        x.v, str) for x in a):
                    raise Undecided("os.path." + name)
                xs = [x.v for x in a]
                if name == "relpath":
                    if not xs[0]:
                        I.throw("ValueError")
                    xs = [posixpath.join("/cwd", x) for x in
                          (xs + ["."])[:2]]
                if name == "abspath":
                    r = posixpath.normpath(posixpath.join("/cwd", *xs))
                else:
                    r = getattr(posixpath, name)(*xs)
                return Tup([Const(x) for x in r]) if isinstance(
                    r, tuple) else Const(r)
            return f
        for n in ("join", "relpath", "abspath", "normpath", "dirname",
                  "basename", "split", "splitext", "isabs"):
            h["ext:os.path." + n] = h["ext:posixpath." + n] = pathfn(n)

        def dump(I, f, a, kw, node):
            if len(a) < 2 and "fp" not in kw:
                raise Undecided("dump")
            out = kw.get("fp", a[1] if a[1:] else None)
            W.done.append(("json", W.place(out), I.norm(
                kw.get("indent", NONE))))
            enc = kw.get("cls")
            if enc is not None:
                e = I.call(enc, [], {})
                I.call(I.getattr(e, "default"), [DELTA], {})
            return NONE

        def html(I, f, a, kw, node):
            out = kw.get("out", a[3] if a[3:] else None)
            W.done.append(("html", W.place(out), None))
            return NONE

        def unpack(I, f, a, kw, node):
            return Term("new", "class", (W.path(a[0]),))
        h.update({
            "ext:builtins.open": open_, "ext:io.open": open_,
            "meth:write": write, "ext:sys.stdout.write": lambda I, f, a, kw,
            n: write(I, Term("meth", STDOUT, "write"), a, kw, n),
            "ext:os.path.exists": exists, "ext:os.path.isdir": isdir,
            "ext:os.makedirs": makedirs, "ext:json.dump": dump,
            "report.CheetahReportFormat.run_impl": html,
            "unpack_classfile": unpack,
            "ext:multiprocessing.cpu_count": lambda *a: Const(4),
            "ext:multiprocessing.context.cpu_count": lambda *a: Const(4),
            "ext:os.cpu_count": lambda *a: Const(4),
        })
        return h


def run(rep, prog, tier):
    I = Interp(prog).load_all()
    I.unroll = 60
    rep.expect = 60
    W = World(I)

    def case(key, cmd, args, judge):
        """args: the arguments, or the changes to the default options"""
        mod, plain, reports = cmd

        def start():
            if isinstance(args, list):
                return I.call(I.get(mod, "main"), [I.newlist(
                    [Const(x) for x in [mod] + args])], {})
            d = I.call(Ext("builtins.dict"), [I.newlist([
                Tup([Const(k), Const(v)]) for k, v in
                sorted(args.items())])], {})
            o = I.call(I.get(mod, "default_%s_options" % mod),
                       [d] if args else [], {})
            return I.call(I.get(mod, API[mod]), [
                o, Const("L.x"), Const("R.x")], {})
        with rep.guard(key, "options"):
            def thunk():
                W.reset()
                I.hooks = W.hooks((plain, reports))
                try:
                    r = start()
                except PyExc as e:
                    return Const(("raise", excname(I, e.val), tuple(
                        W.lines.items()), tuple(W.done), tuple(W.made)))
                return Const(("normal", r, tuple(W.lines.items()),
                              tuple(W.done), tuple(W.made)))
            n = 0
            for p in I.run(thunk):
                if p.kind != "normal":
                    raise Undecided(p.kind)
                n += 1
                printed = [e for e in p.events if e.kind == "print"]
                try:
                    judge(p.val.v, printed)
                except Bad as e:
                    rep.bad(key, "options", str(e), p.loc)
            if not n:
                raise Undecided("no path")
            rep.ok(key, "options")

    def result(quiet, json, output, reports, rdir, indent, ign, same, cmd,
               shallow=None):
        """what the command is to write"""
        def judge(v, printed):
            kind, r, lines, done, made = v
            lines = dict(lines)
            if kind == "raise":
                raise Bad("fails with %s" % r[:100])
            if r != Const(1):
                raise Bad("has status %s" % show(r))
            if printed:
                raise Bad("prints something else")
            want = []
            if not quiet:
                want.append(("json" if json else "text",
                             "/cwd/" + output if output
                             else "standard output"))
            fmts = sorted({EXT[x] for x in reports})
            d = posixpath.normpath(posixpath.join("/cwd", rdir or "."))
            got = [x[:2] for x in done if x[0] in ("json", "html")]
            got += [("text", n) for n, t in lines.items() if t]
            left = list(got)
            for w in want:
                if w not in left:
                    raise Bad("does not write %s to %s" % w)
                left.remove(w)
            for e, d in product(fmts, (d, posixpath.join(d, "a/B.x"))):
                k = e[1:]
                ms = [x for x in left if x[0] == k and
                      posixpath.dirname(x[1]) == d and x[1].endswith(e)]
                if len(ms) != 1:
                    raise Bad("writes %d %s reports to %s" % (
                        len(ms), k, d))
                left.remove(ms[0])
            if left:
                raise Bad("also writes %s to %s" % left[0])
            for n, t in lines.items():
                if not t:
                    continue
                if "OLD" in t:
                    raise Bad("keeps what %s held before" % n)
                # the parts shown
                seen = [x for x in ("whole", "ignored", "unchanged")
                        if "part " + x in t]
                exp = ["whole"] + ["ignored"] * ign + ["unchanged"] * same
                if seen != exp:
                    raise Bad("shows the parts %s instead of %s" % (
                        ", ".join(seen), ", ".join(exp)))
            for k, n, i in [x for x in done if x[0] == "json"]:
                if i != Const(indent):
                    raise Bad("indents by %s instead of %d" % (
                        show(i), indent))
            if len(made) != 1:
                raise Bad("makes %d comparisons" % len(made))
            if made[0][0] != bool(fmts):
                raise Bad("has %sreports of parts" % (
                    "no " if fmts else ""))
            if shallow is not None and not fmts:
                _r, a, kw = made[0]
                s = kw.get("shallow", a[2] if a[2:] else Const(False))
                if s != Const(shallow):
                    raise Bad("looks into files: %s" % show(s))
        return judge

    def refused(v, printed):
        kind, r, lines, done, made = v
        if kind != "raise" and r in (NONE, Const(0)):
            raise Bad("accepts the arguments")
        if kind == "raise" and "SystemExit" not in r:
            raise Bad("fails with %s" % r[:80])
        if done or any(t for _n, t in lines) or made:
            raise Bad("compares nevertheless")

    REPORTS = [([], []), (["--report", "json"], ["json"]),
               (["--report", "txt,html"], ["txt", "html"]),
               (["--report=text", "--report", "htm"], ["text", "htm"]),
               (["--report=html,json,txt"], ["html", "json", "txt"]),
               (["--report", "txt,text", "--report", "txt"], ["txt"]),
               (["--report=json", "--report", "txt,html"],
                ["json", "txt", "html"]),
               (["--report=,json,"], ["json"])]
    for cmd in CMDS:
        mod = cmd[0]
        for quiet, json, output in product(
                ([], ["-q"], ["--quiet"]), ([], ["-j"], ["--json"]),
                ([], ["-o", "OUT.txt"], ["--output=OUT.txt"])):
            if len([x for x in (quiet, json, output) if x and
                    x[0].startswith("--")]) not in (0, 3) and \
                    tier != "thorough":
                continue
            for k, (ra, rs) in enumerate(REPORTS):
                args = quiet + json + output + ra
                case("%s %s" % (mod, " ".join(args) or "plain"), cmd,
                     args + ["L.x", "R.x"], result(
                         bool(quiet), bool(json), "OUT.txt" if output
                         else None, rs, None, 2, False, False, cmd))
        # after and between the inputs
        for args, kw in (
                (["L.x", "R.x", "--report=json", "--report-dir", "sub/dir"],
                 dict(reports=["json"], rdir="sub/dir")),
                (["--report-dir", "/abs", "--report=html,txt", "L.x", "R.x"],
                 dict(reports=["html", "txt"], rdir="/abs")),
                (["--report-dir", "unused", "L.x", "R.x"], {}),
                (["L.x", "R.x", "-j", "--json-indent", "7"],
                 dict(json=True, indent=7)),
                (["--json-indent=0", "--report=json", "L.x", "R.x"],
                 dict(reports=["json"], indent=0)),
                (["L.x", "R.x", "--show-ignored"], dict(ign=True)),
                (["--show-unchanged", "L.x", "R.x"], dict(same=True)),
                (["--show-unchanged", "L.x", "R.x", "--show-ignored",
                  "--report=txt", "-o", "OUT.txt"],
                 dict(same=True, ign=True, reports=["txt"],
                      output="OUT.txt")),
                (["-v", "L.x", "R.x"], dict(same=True, ign=True)),
                (["L.x", "R.x", "--verbose"], dict(same=True, ign=True))):
            d = dict(quiet=False, json=False, output=None, reports=[],
                     rdir=None, indent=2, ign=False, same=False)
            d.update(kw)
            case("%s %s" % (mod, " ".join(args)), cmd, args,
                 result(cmd=cmd, **d))
        # without a command line
        for args, kw in (
                ({}, {}), ({"json": True}, dict(json=True)),
                ({"output": "OUT.txt"}, dict(output="OUT.txt")),
                ({"silent": True}, dict(quiet=True)),
                ({"show_ignored": True, "show_unchanged": True,
                  "json_indent": 5}, dict(ign=True, same=True)),
                ({"json_indent": 5, "json": True},
                 dict(json=True, indent=5))):
            d = dict(quiet=False, json=False, output=None, reports=[],
                     rdir=None, indent=2, ign=False, same=False)
            d.update(kw)
            case("%s defaults with %s" % (mod, ", ".join(sorted(args)) or
                                          "nothing changed"), cmd, args,
                 result(cmd=cmd, **d))
        if mod == "distdiff":
            for args, s in ((["L.x", "R.x"], False),
                            (["--shallow", "L.x", "R.x"], True)):
                case("%s %s again" % (mod, " ".join(args)), cmd, args,
                     result(False, False, None, [], None, 2, False, False,
                            cmd, shallow=s))
        for args in ([], ["L.x"], ["L.x", "R.x", "X.x"],
                     ["--no-such-option", "L.x", "R.x"],
                     ["-j", "L.x"], ["L.x", "R.x", "--json-indent", "x"],
                     ["L.x", "R.x", "--report"], ["L.x", "R.x", "-o"]):
            case("%s %s refused" % (mod, " ".join(args) or "nothing"), cmd,
                 args, refused)
    rep.cover(I)
