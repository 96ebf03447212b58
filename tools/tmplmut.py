"""mutants of the templates, and whether P21 notices: tmplmut.py [FILES]"""
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = "/repo/javatools/cheetah"


def mutants(s):
    for m in re.finditer(r"escape\(", s):
        yield m.start(), s[:m.start()] + "(" + s[m.end():]
    for a, b in (("get_ldata", "get_rdata"), ("pretty_ldata",
                                              "pretty_rdata")):
        for x, y in ((a, b), (b, a)):
            for m in re.finditer(x, s):
                yield m.start(), s[:m.start()] + y + s[m.end():]
    for m in re.finditer(r"</\w+>|<%=.*?%>|\$\w[\w.]*(\(.*\))?", s):
        yield m.start(), s[:m.start()] + s[m.end():]
    for x, y in (("#if not ", "#if "), ("#if ", "#if not "), ("0", "1"),
                 (" and ", " or "), (" or ", " and "), ("True", "False"),
                 ("False", "True"), ("is_change()", "is_change() or True"),
                 ("sorted", "reversed"), ("1", "2")):
        for m in re.finditer(re.escape(x), s):
            yield m.start(), s[:m.start()] + y + s[m.end():]


def one(job):
    f, n, t = job
    d = tempfile.mkdtemp(prefix="tm")
    try:
        shutil.copytree("/repo/javatools", d + "/javatools")
        with open(d + "/javatools/cheetah/" + f, "w") as o:
            o.write(t)
        r = subprocess.run(["python3", "/verif/check.py", "P21"],
                           env=dict(os.environ, JT_REPO=d),
                           capture_output=True, text=True)
        u = [l for l in r.stdout.split("\n") if l.startswith("UNDEC")]
        return f, n, r.returncode, u[:1]
    finally:
        shutil.rmtree(d)


jobs = []
for p in sorted(glob.glob(SRC + "/*.tmpl")):
    f = os.path.basename(p)
    if sys.argv[1:] and f not in sys.argv[1:]:
        continue
    s = open(p).read()
    for pos, t in mutants(s):
        if s[s.rfind("\n", 0, pos) + 1:pos].lstrip().startswith("##"):
            continue
        jobs.append((f, pos, t))
with ThreadPoolExecutor(6) as ex:
    got = 0
    for (f, pos, t), (_f, n, rc, u) in zip(jobs, ex.map(one, jobs)):
        got += rc == 1
        if rc != 1:
            s = open(SRC + "/" + f).read()
            k = s[:pos].count("\n")
            print("SURVIVES %s:%d rc=%d %s -> %s %s" % (
                f, k + 1, rc, s.split("\n")[k][:60],
                (t.split("\n") + [""] * 9)[k][:60], u), flush=True)
print("done: %d of %d caught" % (got, len(jobs)))
