"""C35: data races and dependence on the number of threads, in the library (harness) and the programs."""
import os, random, subprocess
import apps
from vflib import ROOT, REPO, BOOST, build_tsan, run_harness, env_for, classify, crash_excerpt

THEORY, DISPERSION = "hubbard_real_1d_kinetic_theory", "hubbard_dispersion_1d"
OUT = {THEORY: "theory.txt", DISPERSION: "dispersion.txt"}
ARGS = {
    "hubbard_real_1d_rk4": ["--N=4", "--t_end=0.06", "--measurement_interval=2"],
    "hubbard_real_1d_rk4_jump": ["--N=6", "--t_end=0.06", "--measurement_interval=2"],
    "hubbard_real_2d_rk4_jump": ["--Nx=2", "--Ny=3", "--t_end=0.06", "--measurement_interval=2"],
    "hubbard_real_1d_kinetic_rk4": ["--N=24", "--t_end=0.06", "--measurement_interval=2"],
    "hubbard_momentum_1d_rk4": ["--N=6"],
}


def numbers(text):
    rows = [l.split("\t") for l in text.splitlines() if l and not l.startswith("#")]
    return [[float(x) for x in r] for r in rows]


def run(ctx):
    run_harness(ctx, os.path.join(ROOT, "harness", "C35.cpp"))
    ctx.log("library done")
    names = [THEORY, DISPERSION] + sorted(ARGS)
    progs = {n: os.path.join(ctx.scratch, n) for n in names}
    build_tsan(ctx, [(progs[n], os.path.join(REPO, "src/hubbard", n + ".cpp"), [], BOOST) for n in names])
    ctx.log("built the programs")
    rng = random.Random("C35/%d" % ctx.seed)
    runs = []
    for n in names:
        if n == THEORY:
            counts = [1, 3] if not ctx.thorough else [1, 2, 5, 8]
        else:
            counts = [1, 2, rng.randint(3, 8), rng.randint(3, 16)] + (list(range(3, 17)) if ctx.thorough else [])
        for k, t in enumerate(counts):
            out = OUT.get(n, "result.txt")
            args = ARGS[n] + ["--out=result.txt"] if n in ARGS else []
            runs.append((n, t, apps.Run(os.path.join(ctx.scratch, "runs", "%s_%d" % (n, k)), args, out=out, threads=t)))
    apps.in_parallel([lambda r=r, n=n: r.execute(progs[n]) for n, _, r in runs], 5)
    ref = {}
    for n, t, r in runs:
        what = "%s with %d threads" % (n, t)
        ctx.case(what, t > 1)
        bad = r.failure()
        if bad:
            ctx.violation(bad[0], what + ": " + bad[1], program=n)
            continue
        text = r.stdout if n == apps.MOMENTUM else r.text
        got = numbers(text)
        want = ref.setdefault(n, got)
        if len(got) != len(want) or any(len(a) != len(b) for a, b in zip(got, want)):
            ctx.violation("program-lines", what + ": lines or columns differ from the run with one thread", program=n)
            continue
        for a, b in zip(got, want):
            if any(abs(x - y) > 2.1e-5 * max(abs(x), abs(y)) + 1e-9 for x, y in zip(a, b)):
                ctx.violation("program-value", "%s: line %r instead of %r" % (what, a[:6], b[:6]), program=n)
                break
        ctx.count("program_runs")
        ctx.count("program_lines", len(got))
    ctx.required.update(program_runs=20)
