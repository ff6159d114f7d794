#!/usr/bin/env python3
"""Applies behaviour-preserving rewrites (tools/refactorings.py) to a scratch copy of /repo and runs
checks against it: every check has to stay quiet.

    quiet.py                 every batch, every check
    quiet.py --only ID [checks...]   one rewrite
    quiet.py --batch N [checks...]
"""
import os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(ROOT, "tools", "refactorings.py")).read(), ns)
REF = ns["REF"]


def sh(c, cwd=None):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf8", "replace")


def apply(d, refs):
    for r in refs:
        for f, old, new in r["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (r["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))


def run(name, refs, checks, tests=True):
    d = "/tmp/quiet/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/quiet", exist_ok=True)
    rc, out = sh("git clone -q /repo %s && cp -a /repo/external %s/" % (d, d))
    assert rc == 0, out
    try:
        apply(d, refs)
        bad = 0
        for c in checks:
            t = time.time()
            rc, out = sh("VF_REPO=%s VF_NO_EVIDENCE=1 python3 %s/run.py %s" % (d, ROOT, c))
            bad += rc != 0
            if rc:
                print(name, c, "exit", rc, "%.0fs" % (time.time() - t), flush=True)
                print("\n".join(out.splitlines()[-25:]), flush=True)
        print(name, len(refs), "rewrites,", len(checks), "checks,", bad, "not quiet", flush=True)
        return bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    _, out = sh("python3 -c \"import sys; sys.path.insert(0,'%s'); import run; print(' '.join(run.ids()))\"" % ROOT)
    allids = out.split()
    if a[:1] == ["--only"]:
        return run(a[1], [r for r in REF if r["id"] == a[1]], a[2:] or allids)
    if a[:1] == ["--batch"]:
        n = int(a[1])
        return run("batch%d" % n, [r for r in REF if r["batch"] == n], a[2:] or allids)
    bad = 0
    for n in sorted(set(r["batch"] for r in REF)):
        bad += run("batch%d" % n, [r for r in REF if r["batch"] == n], allids)
    return bad


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
