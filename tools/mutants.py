#!/usr/bin/env python3
"""Quick look at many small changes: applies each to a scratch clone and runs the check(s) named with it.
    mutants.py DEFS.py [id...]
DEFS.py fills MUT, a list of (id, "Cxx Cyy", [(file, old, new)...]). Prints the changes no check reports."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf8", "replace")


def one(m):
    id, props, edits = m
    d = "/tmp/mut/w_" + id
    shutil.rmtree(d, ignore_errors=True)
    sh("git clone -q /repo %s" % d)
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            if not os.path.exists(p):
                p = os.path.join(d, "include/ieompp", f)
            if not os.path.exists(p):
                p = os.path.join(d, "src/hubbard", f)
            s = open(p).read()
            if s.count(old) != 1:
                return id, "BAD-EDIT %s %d" % (f, s.count(old)), ""
            open(p, "w").write(s.replace(old, new))
        res = []
        for c in props.split():
            rc, out = sh("VF_REPO=%s VF_NO_EVIDENCE=1 timeout 1000 python3 %s/run.py %s" % (d, ROOT, c))
            res.append((c, rc, out))
        caught = [c for c, rc, _ in res if rc == 1]
        if caught:
            return id, "caught " + " ".join(caught), ""
        if any(rc == 2 for _, rc, _ in res):
            return id, "NO ANSWER", "\n".join(o[-1500:] for _, rc, o in res if rc == 2)
        return id, "MISSED", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    todo = [m for m in ns["MUT"] if not sys.argv[2:] or m[0] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as e:
        for id, r, out in e.map(one, todo):
            print("%-28s %s" % (id, r), flush=True)
            if out:
                print(out, flush=True)


if __name__ == "__main__":
    main()
