"""C43: what is left after a crash: checkpoints and cleaned output files (harness), and the files of the
time-evolution programs, which are killed at every file operation of a run, or at a sample of them."""
import os, random, shutil, subprocess
import apps
from vflib import ROOT, Inconclusive, compile_many, env_for, no_core, run_harness

FLAGS = ["-O1", "-D_GLIBCXX_ASSERTIONS"]


hung = 0


def traced(tool, where, binary, args, at, torn, stdin=None):
    global hung
    if hung >= 3:    # the time for the whole check is limited
        return None
    os.makedirs(where, exist_ok=True)
    for f in os.listdir(where):
        os.unlink(os.path.join(where, f))
    with open(os.path.join(where, "out"), "w") as f:    # of an earlier run
        f.write("# old\n5\t5\n")
    with open(os.path.join(where, "out.rsp"), "w") as f:
        f.write("--N=9\n--dt=0.5\n")
    with open(where + ".msg", "wb") as o:
        try:
            p = subprocess.run([tool, str(at), str(int(torn)), ".log", binary] + args + ["--out=out"], stdout=o,
                               stderr=subprocess.DEVNULL, cwd=where, env=env_for(1), preexec_fn=no_core, timeout=200)
        except subprocess.TimeoutExpired:
            hung += 1
            shutil.rmtree(where)    # may be huge
            return None
    last = open(where + ".msg", errors="replace").read().strip().splitlines()
    f = (last[-1] if last else "").split(" ", 4)
    if p.returncode != 0 or len(f) < 4 or not f[3].isdigit():
        raise Inconclusive("the crash runner failed: %r" % last)
    files = {}
    for name in os.listdir(where):
        files[name] = open(os.path.join(where, name), errors="replace").read()
    writes = [int(l.split(" ", 2)[1]) for l in last[:-1] if l.startswith("w ") and l.endswith("/out")]
    return {"writes": writes, "traced": f[0] == "1", "killed": f[1] == "1", "failed": f[2] == "1", "operations": int(f[3]),
            "last": f[4] if len(f) > 4 else "", "files": files}


def held_back(text, writes):
    """the first measurement that reached the file together with the one before, by the sizes of the writes"""
    if sum(writes) != len(text.encode()):
        return None     # written in another way
    ends, pos = [], 0
    for l in text.encode().splitlines(True):
        pos += len(l)
        if l.strip() and not l.startswith(b"#"):
            ends.append(pos)
    w, total, previous = -1, 0, -1
    for k, e in enumerate(ends):
        while total < e:
            w += 1
            total += writes[w]
        if w == previous:
            return k
        previous = w
    return -1


def run(ctx):
    run_harness(ctx, os.path.join(ROOT, "harness", "C43.cpp"))
    ctx.log("checkpoints done")
    ctx.assumptions.append("the programs run with one thread while they are killed; their log is not judged")
    rng = random.Random("C43/%d" % ctx.seed)
    tool = os.path.join(ctx.scratch, "crashrun")
    compile_many(ctx, [(tool, os.path.join(ROOT, "harness", "crashrun.cpp"),
                        ["-std=c++14", "-O1", "-I" + os.path.join(ROOT, "harness")], [])])
    names = list(apps.PROGRAMS)
    progs = apps.build(ctx, names, FLAGS)
    ctx.log("built the programs")
    plans = []
    for n in names:
        for k in range(12 if ctx.thorough else 2):
            # the output takes several buffers
            lines = rng.choice([3, 40, rng.randint(500, 2500)]) if k else rng.randint(1200, 2500)
            interval = rng.choice([1, 1, 2])
            size = {"Nx": rng.randint(1, 2), "Ny": 1} if "2d" in n else {"N": rng.randint(1, 3)}
            given = [(x, str(y)) for x, y in size.items()] + [("dt", "0.015625"), ("t_end", repr(0.015625 * interval * lines)),
                                                             ("measurement_interval", str(interval)), ("J", "0.5")]
            plans.append((n, k, apps.arguments(rng, given)))
    base = os.path.join(ctx.scratch, "crash")
    os.makedirs(base)

    def whole(plan):
        n, k, args = plan
        return traced(tool, os.path.join(base, "%s_%d" % (n, k)), progs[n], args, 0, False)
    full = apps.in_parallel([lambda p=p: whole(p) for p in plans])
    todo = []
    for (n, k, args), f in zip(plans, full):
        if f is None:
            ctx.violation("hang", "%s %s does not terminate" % (n, " ".join(args)), program=n)
            continue
        if not f["traced"]:
            ctx.count("not_traced")
            continue
        if f["failed"] or "out" not in f["files"] or "out.rsp" not in f["files"]:
            ctx.violation("fails", "%s %s fails or does not write its files" % (n, " ".join(args)), program=n)
            continue
        late = held_back(f["files"]["out"], f["writes"])
        if late is None:
            ctx.count("other_ways_of_writing")
        elif late >= 0:
            ctx.violation("held-back", "%s %s: measurement %d is only written to the file together with measurement %d, so that "
                          "a crash in between loses it" % (n, " ".join(args), late - 1, late), program=n, args=args)
        else:
            ctx.count("written_at_once")
        at = [(a, t) for a in range(1, f["operations"] + 1) for t in (False, True)]
        most = 120 if ctx.thorough else 24
        if len(at) > most:
            at = rng.sample(at, most)
        todo += [(n, k, args, f, a, t) for a, t in at]
    results = apps.in_parallel([lambda j=j, m=m: traced(tool, os.path.join(base, "k%d" % m), progs[j[0]], j[2], j[4], j[5])
                                for m, j in enumerate(todo)])
    for (n, k, args, f, a, t), r in zip(todo, results):
        if r is None or not r["killed"]:
            ctx.count("kills_missed")
            continue
        what = "%s %s killed at file operation %d of %d, %s" % (n, " ".join(args), a, f["operations"], r["last"])
        ctx.case(what)
        old, out, rsp = "# old\n5\t5\n", r["files"].get("out"), r["files"].get("out.rsp")
        if out != old and not f["files"]["out"].startswith(out or ""):
            ctx.violation("falsified", what + ": the output file (%d bytes) is not the beginning of the complete one (%d bytes)" % (
                len(out or ""), len(f["files"]["out"])), program=n, args=args)
        elif out not in (old, None, "") and rsp != f["files"]["out.rsp"]:
            ctx.violation("no-rsp", what + ": results were recorded, but the response file to repeat the run holds %r" % (
                rsp,), program=n, args=args)
        else:
            ctx.count("program_kills")
            ctx.count("partial_outputs" if out not in (old, None, "", f["files"]["out"]) else "other_outputs")
    if not ctx.counters.get("not_traced"):
        ctx.required.update(program_kills=100, partial_outputs=30)
