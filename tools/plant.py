#!/usr/bin/env python3
"""Makes and verifies the planted bugs of /verif/seeded.

    plant.py make DEFS.py            write seeded/<id>/ for every definition in DEFS.py
    plant.py verify [id...]          build + stable tests + demo (clean and patched) + own check

A definition is dict(id, prop, edits=[(file, old, new)...], demo=C++ text or shell text,
needs, breaks, [blaze=True: lay the Blaze stand-in beside the demo], [shell=True]).
Scratch copies live under /tmp/sw/<id> and are removed afterwards.
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, SW = "/repo", "/tmp/sw"
SEEDED = os.path.join(ROOT, "seeded")

DEMO = """#!/bin/bash
# run in the repository's folder; exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
rm -rf /tmp/ieompp_demo_{id}
mkdir -p /tmp/ieompp_demo_{id}
g++ -std=c++14 -O1 -fopenmp -include cstdint -w {flags} -I"$PWD/include" -I"$here" \\
    "$here/demo.cpp" -o /tmp/ieompp_demo_{id}/demo {link}|| exit 2
(cd /tmp/ieompp_demo_{id} && timeout 120 ./demo)
rc=$?
rm -rf /tmp/ieompp_demo_{id}
exit $rc
"""


def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, env=env)
    return p.returncode, p.stdout.decode("utf8", "replace")


def clone(id):
    d = os.path.join(SW, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SW, exist_ok=True)
    rc, out = sh("git clone -q %s %s" % (REPO, d))
    assert rc == 0, out
    sh("cp -a %s/external %s/" % (REPO, d))
    return d


def make(defs):
    ns = {}
    exec(open(defs).read(), ns)
    ids = []
    for b in ns["BUGS"]:
        d = clone(b["id"])
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", cwd=d)
        base = "".join(sh("git show 3fdd4c1:%s" % f, cwd=d)[1] for f in set(e[0] for e in b["edits"])).splitlines()
        own = [l[1:] for l in diff.splitlines() if l[:1] == "-" and l[:3] != "---" and l[1:] not in base]
        if own:
            print(b["id"], "changes lines of our own:", own)
        shutil.rmtree(d)
        o = os.path.join(SEEDED, b["id"])
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        if b.get("shell"):
            open(os.path.join(o, "demo.sh"), "w").write(b["demo"].replace("@ID@", b["id"]))
            for n, t in b.get("files", {}).items():
                open(os.path.join(o, n), "w").write(t)
        else:
            open(os.path.join(o, "demo.cpp"), "w").write(b["demo"])
            open(os.path.join(o, "demo.sh"), "w").write(DEMO.format(
                id=b["id"], flags=b.get("flags", ""), link=b.get("link", "")))
        if b.get("blaze"):
            shutil.copytree(os.path.join(ROOT, "shim/blaze/blaze"), os.path.join(o, "blaze"))
            if b.get("spdlog"):
                shutil.copytree(os.path.join(ROOT, "shim/spdlog/spdlog"), os.path.join(o, "spdlog"))
                shutil.copytree(os.path.join(ROOT, "shim/gen/ieompp"), os.path.join(o, "ieompp"))
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(o, "meta.json"), "w"), indent=1, ensure_ascii=False)
        ids.append(b["id"])
    return ids


def verify(id, checks=None):
    o = os.path.join(SEEDED, id)
    prop = json.load(open(os.path.join(o, "meta.json")))["property"]
    res = {"id": id, "prop": prop}
    rc, out = sh("bash %s/demo.sh" % o, cwd=REPO)
    res["demo_clean"] = rc
    if rc:
        res["note"] = out[-1500:]
    d = clone(id)
    try:
        rc, out = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (o, o), cwd=d)
        res["apply"] = rc
        if rc:
            res["note"] = out
            return res
        rc, out = sh("""cmake -S . -B _build -G Ninja -Wno-dev -Wno-deprecated \
            -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ \
            -DCMAKE_BUILD_TYPE=RelWithDebInfo "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g" \
            "-DCMAKE_CXX_FLAGS=-include cstdint" -Dieompp_NATIVE_BINARIES=OFF \
            -Dieompp_ENABLE_TESTS=ON -DCMAKE_PROJECT_ieompp_INCLUDE=/opt/vp/no_blaze.cmake \
            && ninja -j2 -C _build""", cwd=d)
        res["build"] = rc
        if rc:
            res["note"] = out[-2500:]
            return res
        rc, out = sh("/usr/bin/python3 /opt/vp/run_catch.py %s/_build rep.txt; "
                     "/usr/bin/python3 /opt/vp/results.py out.json lines:rep.txt" % d, cwd=d)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        try:
            passed = set(json.load(open(d + "/out.json"))["passed"])
        except Exception as e:
            passed = set()
            res["note"] = out[-1500:]
        res["tests_lost"] = sorted(stable - passed)
        rc, out = sh("bash %s/demo.sh" % o, cwd=d)
        res["demo_patched"] = rc
        if rc == 2:
            res["note"] = out[-1500:]
        e = dict(os.environ, VF_REPO=d)
        for c in checks or [prop]:
            rc, out = sh("python3 %s/run.py %s" % (ROOT, c), cwd=ROOT, env=e, timeout=1200)
            res["check_" + c] = rc
            res["out_" + c] = "\n".join(out.strip().splitlines()[-4:])[-700:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def report(r):
    good = (not r.get("demo_clean") and r.get("apply") == 0 and r.get("build") == 0
            and not r.get("tests_lost", ["?"]) and r.get("demo_patched", 0) != 0)
    caught = r.get("check_" + r["prop"]) == 1
    print("%-28s %s %s demo=%s/%s lost=%s check=%s" % (
        r["id"], "VALID" if good else "INVALID", "CAUGHT" if caught else "MISSED",
        r.get("demo_clean"), r.get("demo_patched"), r.get("tests_lost"),
        {k: v for k, v in r.items() if k.startswith("check_")}), flush=True)
    if not good:
        print("   ", r.get("note", ""))
    for k, v in r.items():
        if k.startswith("out_"):
            print("    " + v.replace("\n", "\n    ")[:400])


def main():
    if sys.argv[1] == "make":
        ids = make(sys.argv[2])
        print("made", ids)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    if sys.argv[1] == "verify" or "--verify" in sys.argv:
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(verify, [i for i in ids if not i.startswith("-")]):
                report(r)


main()
