"""the options of the comparing commands, for P19"""

from sa.values import Const, Term, NONE, Tup, show
from checks.argp import Declared, FALSY
from checks.ctree import param

OPT = param("OPTIONS")

PLAIN = ["version-up", "version-down", "platform-up", "platform-down",
         "absolute-lines", "relative-lines", "deprecated", "added", "pool"]
GROUPS = {"lines": ["absolute-lines", "relative-lines"],
          "version": ["version-up", "version-down"],
          "platform": ["platform-up", "platform-down"]}
JAR = ["jar-signature", "manifest", "manifest-subsections"]
JARLIST = ["jar-entry", "manifest-key"]
DIST = ["trailing-whitespace"]
DISTLIST = ["filenames"]
CMDS = [("classdiff", PLAIN, []), ("jardiff", PLAIN + JAR, JARLIST),
        ("distdiff", PLAIN + JAR + DIST, JARLIST + DISTLIST)]


def attr(n):
    return "ignore_" + n.replace("-", "_")


def truthy(v):
    if v in FALSY or isinstance(v, Tup) and not v.items:
        return False
    if isinstance(v, Const):
        return bool(v.v)
    return True


def options(rep, I, prog):
    for mod, flags, lists in CMDS:
        key = "%s:options" % mod
        rule = "option-sets-what-it-names"
        with rep.guard(key, rule):
            D = Declared(I, I.get(mod, "create_optparser"), [])
            rep.ok(key, rule)
        if rep.ob(key, rule).status != "ok":
            continue
        watched = {attr(f) for f in PLAIN + JAR + DIST + JARLIST + DISTLIST} \
            | {"show_ignored", "show_unchanged", "silent", "json"}
        base = {}
        for o in D.options:
            base.setdefault(o.dest, o.default)
        for a in sorted(watched & set(base)):
            k = "%s:default:%s" % (mod, a)
            with rep.guard(k, rule):
                rep.check(not truthy(base[a]), k, rule,
                          "%s is set by default" % a)
        spec = {"--ignore-" + f: {attr(f)} for f in flags}
        for g, subs in GROUPS.items():
            spec["--ignore-" + g] = {attr(s) for s in subs}
        spec["--show-ignored"] = {"show_ignored"}
        spec["--show-unchanged"] = {"show_unchanged"}
        spec["-v"] = spec["--verbose"] = {"show_ignored", "show_unchanged"}
        spec["-q"] = spec["--quiet"] = {"silent"}
        spec["-j"] = spec["--json"] = {"json"}
        for f in lists:
            spec["--ignore-" + f] = {attr(f)}
        for flag, want in sorted(spec.items()):
            k = "%s:%s" % (mod, flag)
            with rep.guard(k, rule):
                o = D.find(flag)
                if o is None:
                    rep.bad(k, rule, "there is no option %s" % flag)
                    continue
                rep.ok(k, rule)
                for e in D.effect(o, param("VALUE"), OPT):
                    got = {a for a, v in e.items() if a in watched and
                           truthy(v)}
                    if got != want:
                        rep.bad(k, rule, "%s sets %s instead of %s" % (
                            flag, ", ".join(sorted(got)) or "nothing",
                            ", ".join(sorted(want))))
                    if flag[9:] in lists and e.get(attr(flag[9:])) != Term(
                            "appended", param("VALUE")):
                        rep.bad(k, rule, "%s does not collect its values" %
                                flag)
        o = D.find("--ignore")
        if o is None:
            rep.bad(key, rule, "there is no option --ignore")
            continue
        words = flags + sorted(GROUPS)
        tests = [[w] for w in words] + [[" " + w + " "] for w in words[:1]] + [
            [words[i], words[-1 - i]] for i in range(len(words) // 2)] + [[""]]
        for ws in tests:
            text = ",".join(ws)
            k = "%s:--ignore=%s" % (mod, text)
            with rep.guard(k, rule):
                rep.ok(k, rule)
                want = set()
                for w in ws:
                    w = w.strip()
                    want |= {attr(s) for s in GROUPS.get(w, [w] if w else [])}
                for e in D.effect(o, Const(text), OPT):
                    got = {a for a, v in e.items() if a in watched and
                           truthy(v)}
                    if got != want & watched:
                        rep.bad(k, rule, "sets %s instead of %s" % (
                            ", ".join(sorted(got)) or "nothing",
                            ", ".join(sorted(want))))
