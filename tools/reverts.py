#!/usr/bin/env python3
"""Takes every repair recorded in known_findings.txt back in a scratch copy and runs the check of its
property there: it has to report the defect again.   reverts.py [commit...]"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = "/tmp/sw_reverts"


def one(job):
    prop, commit = job
    d = os.path.join(SW, prop + "_" + commit)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SW, exist_ok=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    p = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "-n", commit], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        shutil.rmtree(d)
        return "%s %s does not revert: %s" % (prop, commit, p.stdout.decode()[-200:])
    r = subprocess.run([sys.executable, os.path.join(ROOT, "run.py"), prop], env=dict(os.environ, VF_REPO=d, VF_NO_EVIDENCE="1"),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    shutil.rmtree(d)
    lines = r.stdout.decode("utf8", "replace").strip().splitlines()
    return "%s %s exit %d %s" % (prop, commit, r.returncode, (lines[0] if lines else "")[:150])


jobs = re.findall(r"^fixed: property=(\S+) (\w+)", open(os.path.join(ROOT, "known_findings.txt")).read(), re.M)
if sys.argv[1:]:
    jobs = [j for j in jobs if j[1] in sys.argv[1:]]
with ThreadPoolExecutor(3) as pool:
    for line in pool.map(one, jobs):
        print(line, flush=True)
