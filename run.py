#!/usr/bin/env python3
"""Runs one check against /repo's working tree.

    python3 run.py C01                      the check (VERIF_SEED, VERIF_TIER from the environment)
    python3 run.py C01 --replay FILE        run the recorded failing cases of a replay file again
    python3 run.py --setup                  check that the toolchain is there
    python3 run.py --all [ids...]           every check, one after the other, with a summary

Exit codes: 0 held, 1 violation (with a VIOLATION line), 2 no answer.
"""
import importlib.util, json, os, subprocess, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vflib
from vflib import ROOT, Ctx, Inconclusive, finish, run_harness


def load_custom(prop):
    path = os.path.join(ROOT, "checks", prop + ".py")
    if not os.path.exists(path):
        return None
    spec = importlib.util.spec_from_file_location("check_" + prop, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def run_check(prop, tier, seed, replay=None):
    ctx = Ctx(prop, tier, seed)
    try:
        custom = load_custom(prop)
        harness = os.path.join(ROOT, "harness", prop + ".cpp")
        try:
            if replay and not custom:
                for v in replay["violations"]:
                    r = v["replay"]
                    run_harness(ctx, harness, only=(r["group"], r["index"], r["threads"]))
                    break
            elif custom:
                custom.run(ctx)
            else:
                run_harness(ctx, harness)
        except Inconclusive as e:
            if not ctx.violations:
                print("inconclusive: %s" % e)
                return 2
        return finish(ctx, replaying=bool(replay))
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


def ids():
    d = os.path.join(ROOT, "checks")
    s = {os.path.splitext(x)[0] for x in (os.listdir(d) if os.path.isdir(d) else [])
         if x.endswith(".py")}
    s |= {x[:-4] for x in os.listdir(os.path.join(ROOT, "harness"))
          if x.endswith(".cpp") and x[0] == "C" and x[1:3].isdigit()}
    return sorted(s)


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a[:1] == ["--setup"]:
        subprocess.check_call(["g++", "--version"], stdout=subprocess.DEVNULL)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        return 0
    if a[:1] == ["--all"]:
        bad = 0
        for p in a[1:] or ids():
            t = time.time()
            r = subprocess.run([sys.executable, os.path.abspath(__file__), p],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            last = r.stdout.decode().strip().splitlines()[-1:] or ["?"]
            print(p, r.returncode, "%.1fs" % (time.time() - t), last[0], flush=True)
            bad |= r.returncode
        return bad
    replay = None
    if "--replay" in a:
        replay = json.load(open(a[a.index("--replay") + 1]))
        tier, seed = replay["tier"], replay["seed"]
    return run_check(a[0], tier, seed, replay)


if __name__ == "__main__":
    sys.exit(main())
