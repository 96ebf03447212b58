"""mutall.py < file: each change "file ||| old ||| new" (separated by lines
"=====") against all checks; prints those which reported
it first"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOW = ("P46", "P48", "P26", "P42")


def main():
    ids = sys.argv[1].split(",") if sys.argv[1:] else [
        x["property"]
        for x in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
    ids = [i for i in ids if i in SLOW] + [i for i in ids if i not in SLOW]

    hit = []

    def one(pid, d):
        if hit:
            return pid, 0, ""
        try:
            r = subprocess.run(
                ["python3", HERE + "/check.py", pid], capture_output=True,
                text=True, env=dict(os.environ, JT_REPO=d), timeout=400)
        except subprocess.TimeoutExpired:
            return pid, None, "timeout"
        bad = [x for x in r.stdout.split("\n") if "violated for" in x]
        if r.returncode == 1:
            hit.append(pid)
        return pid, r.returncode, bad[0][:150] if bad else (
            "UND" if "UNDECIDED" in r.stdout else "")
    for k, m in enumerate(sys.stdin.read().split("\n=====\n")):
        if not m.strip():
            continue
        f, a, b = (x.strip("\n") for x in m.split("|||"))
        f = f.strip()
        a, b = (x.strip(" ") if not x.startswith("  ") else x[1:].rstrip(" ")
                for x in (a, b))
        d = "/tmp/w/mutall%d" % os.getpid()
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree("/repo/javatools", d + "/javatools")
        s = open(d + "/javatools/" + f).read()
        if a not in s:
            print("NOT FOUND", f, repr(a))
            continue
        open(d + "/javatools/" + f, "w").write(s.replace(a, b, 1))
        del hit[:]
        with concurrent.futures.ThreadPoolExecutor(7) as ex:
            rs = list(ex.map(lambda p: one(p, d), ids))
        hits = [r for r in rs if r[1] == 1]
        print("%s %s: %s -> %s | %s | other: %s" % (
            "CAUGHT " + ",".join(r[0] for r in hits) if hits else "SURVIVES",
            f, a[:60].replace("\n", " "), b[:60].replace("\n", " "),
            hits[0][2] if hits else "",
            ",".join("%s(%s)" % (r[0], r[2] or r[1]) for r in rs
                     if r[1] != 1 and (r[1] or r[2]))), flush=True)
        shutil.rmtree(d, ignore_errors=True)


main()
