"""C28: kinetic evolution against the free-fermion propagator (harness) and the complete output of
hubbard_real_1d_kinetic_theory against a direct evaluation."""
import os, subprocess
from vflib import (ROOT, REPO, BASE, SAN, INCLUDES, BOOST, Inconclusive, bounded, compile_many, ending,
                   env_for, run_harness)

N, STEPS, DT = 128, 10000, 0.01


def run(ctx):
    prog = os.path.join(ctx.scratch, "theory")
    oracle = os.path.join(ctx.scratch, "oracle")
    jobs = [(prog, os.path.join(REPO, "src/hubbard/hubbard_real_1d_kinetic_theory.cpp"),
             BASE + ["-O2"] + INCLUDES, BOOST),
            (oracle, os.path.join(ROOT, "harness", "theory_oracle.cpp"), ["-O2", "-ffast-math"], [])]
    san = prog + ".san"
    jobs.append((san, jobs[0][1], BASE + SAN + INCLUDES, BOOST))
    compile_many(ctx, jobs)
    ctx.log("built the program")
    work = subprocess.Popen([oracle, str(N), str(STEPS), str(DT)], stdout=subprocess.PIPE)
    run_harness(ctx, os.path.join(ROOT, "harness", "C28.cpp"))
    want = [tuple(float(x) for x in l.split()) for l in work.communicate()[0].decode().splitlines()]
    if len(want) != STEPS:
        raise Inconclusive("oracle gave %d lines" % len(want))
    runs = [(prog, 1), (prog, 3), (prog, 8), (san, 4)] + ([(prog, 2), (prog, 5), (prog, 16), (san, 7)]
                                                           if ctx.thorough else [])
    for binary, threads in runs:
        where = os.path.join(ctx.scratch, "run%d%s" % (threads, "s" if binary == san else ""))
        os.mkdir(where)
        if threads == 3:    # previous content must be replaced
            open(os.path.join(where, "theory.txt"), "w").write("old\n" * 50000)
        p = bounded([binary], 400, cwd=where, env=env_for(threads))
        if p.returncode != 0:
            ctx.violation("crash:theory", "hubbard_real_1d_kinetic_theory fails with %d threads: %s" % (threads, ending(p)))
            return
        lines = open(os.path.join(where, "theory.txt"), errors="replace").read().split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        if len(lines) != STEPS:
            ctx.violation("theory-lines", "theory.txt has %d lines instead of %d (%d threads)" % (
                len(lines), STEPS, threads))
            return
        ctx.log("program run with", threads, "threads")
        for k, line in enumerate(lines):
            ctx.case("theory line %d, %d threads" % (k, threads))
            ctx.count("theory_lines")
            try:
                t, re, im = [float(x) for x in line.split("\t")]
            except ValueError:
                ctx.violation("theory-format", "line %d of theory.txt is %r" % (k, line))
                return
            if abs(t - k * DT) > 1e-5 * max(1, k * DT):
                ctx.violation("theory-time", "line %d of theory.txt is at t=%g instead of %g" % (k, t, k * DT))
                return
            if not abs(im) < 1e-9:
                ctx.violation("theory-imaginary", "imaginary part %g at t=%g" % (im, t))
                return
            if not abs(re - want[k][1]) <= 1.1e-6 * max(1., abs(want[k][1])):
                ctx.violation("theory-value", "theory.txt gives %g at t=%g, expected %.9g (%d threads)" % (
                    re, t, want[k][1], threads))
                return
    ctx.required["theory_lines"] = 4 * STEPS
