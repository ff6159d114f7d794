"""C36: memory errors and undefined behaviour. The own workload (harness) runs under ASan, UBSan and the
debug mode of the standard library; then the workloads of the other monitors run in the same way, built with
clang (whose ASan, unlike gcc's, sees accesses to std::complex; parallel regions are serial there), and a
selection of them, and the programs, under memcheck, which also sees reads of uninitialised memory. Only
memory errors, undefined behaviour, failed assertions, terminations and hangs count here."""
import glob, os, re, subprocess, time
import apps
from vflib import (ROOT, REPO, BASE, SAN, INCLUDES, BOOST, Inconclusive, SHIM, compile_many, run_harness, env_for,
                   harness_options, classify, crash_excerpt, no_core, read_progress)

MEMCHECK = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no",
            "--num-callers=12", "--partial-loads-ok=yes"]
UNINIT = re.compile(r"==\d+== (Conditional jump|Use of uninit|Invalid (?:read|write)|Syscall param|Invalid free|"
                    r"Mismatched free|Source and dest|Jump to the invalid)")
# quick tier: workloads per instrumentation; the thorough tier takes all of them
DEBUG_SCALE, CLANG_SCALE, MEM_SCALE = 0.4, 0.25, 0.05
PROGRAMS = {
    "hubbard_real_1d_rk4": ["--N=3", "--t_end=0.03", "--measurement_interval=2"],
    "hubbard_real_1d_rk4_jump": ["--N=4", "--t_end=0.03", "--measurement_interval=1"],
    "hubbard_real_2d_rk4_jump": ["--Nx=2", "--Ny=2", "--t_end=0.03", "--measurement_interval=2"],
    "hubbard_real_1d_kinetic_rk4": ["--N=5", "--t_end=0.03", "--measurement_interval=2"],
    "hubbard_real_1d_rk4_coefficients": ["--N=3", "--t_end=0.03", "--measurement_interval=2"],
    "hubbard_real_1d_kinetic_rk4_coefficients": ["--N=4", "--t_end=0.03", "--measurement_interval=2"],
    "hubbard_momentum_1d_rk4": ["--N=4"],
    "hubbard_commutators_real_space": None,
    "hubbard_commutators_momentum_space": None,
    "hubbard_dispersion_1d": None,
}


def sources():
    res = []
    for p in sorted(glob.glob(os.path.join(ROOT, "harness", "C[0-9][0-9].cpp"))):
        o = harness_options(p)
        if o["sanitize"] == "1" and not o["link"]:
            res.append((os.path.basename(p)[:-4], p, o))
    return res


def compile_each(ctx, jobs, cxx="g++"):
    """like compile_many, but a workload that cannot be built is left out"""
    ok = []

    def one(job):
        try:
            compile_many(ctx, [job], cxx=cxx)
            ok.append(job[0])
        except Inconclusive:
            ctx.count("workloads_not_built")
    apps.in_parallel([lambda j=j: one(j) for j in jobs], 8)
    return set(ok)


def watch(ctx, name, how, cmd, threads, stall):
    """runs one instrumented process; returns None or (key, message)"""
    base = os.path.join(ctx.scratch, "w_%s_%s" % (name, how))
    prog, errf, out = base + ".progress", base + ".err", base + ".json"
    d = base + ".d"
    os.makedirs(d, exist_ok=True)
    p = subprocess.Popen(cmd + ["--seed", str(ctx.seed), "--out", out, "--progress", prog], cwd=d,
                         stdout=subprocess.DEVNULL, stderr=open(errf, "w"), env=env_for(threads), preexec_fn=no_core)
    last, since = None, time.time()
    while p.poll() is None:
        time.sleep(0.05)
        cur = read_progress(prog)
        if cur != last:
            last, since = cur, time.time()
        elif time.time() - since > stall:
            p.kill()
            p.wait()
            if not last or not last[0]:
                ctx.count("workloads_stalled")
                return None
            return ("hang:%s:%s" % (name, last[0]), "%s workload: case %s:%s does not finish within %d s: %s"
                    % (name, last[0], last[1], stall, last[2]))
    err = open(errf, errors="replace").read()
    where = read_progress(prog) or ("?", "-1", "")
    if p.returncode in (0, 1) and os.path.exists(out):
        ctx.case("%s under %s" % (name, how), sample=True)
        ctx.count("workloads_" + how)
        ctx.count("cases_" + how, int((re.search(r'"evaluations":(\d+)', open(out, errors="replace").read()) or [0, 0])[1]))
        return None
    if p.returncode == 77 and how == "memcheck":
        m = UNINIT.search(err)
        lines = [l for l in err.splitlines() if l.startswith("==")][:14]
        return ("memcheck:%s:%s" % (name, where[0]), "%s workload: %s in case %s:%s\n  case: %s\n%s" % (
            name, m.group(1) if m else "memory error", where[0], where[1], where[2], "\n".join(lines)))
    if p.returncode == -9:
        ctx.count("workloads_killed")
        return None
    kind = classify(err, p.returncode)
    if kind.startswith("exit-"):
        ctx.count("workloads_without_result")
        return None
    return ("crash:%s:%s:%s" % (name, where[0], kind), "%s workload under %s: %s in case %s:%s\n  case: %s\n%s" % (
        name, how, kind, where[0], where[1], where[2], crash_excerpt(err)))


def programs(ctx):
    names = sorted(PROGRAMS)
    flags = BASE + ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"] + INCLUDES
    jobs = [(os.path.join(ctx.scratch, "p_" + n), os.path.join(REPO, "src/hubbard", n + ".cpp"), flags, BOOST) for n in names]
    built = compile_each(ctx, jobs)

    def one(n):
        exe = os.path.join(ctx.scratch, "p_" + n)
        if exe not in built:
            return
        d = exe + ".d"
        os.makedirs(d, exist_ok=True)
        args = PROGRAMS[n] or []
        if args and n != apps.MOMENTUM:
            args = args + ["--out=r.txt"]
        try:
            p = subprocess.run(MEMCHECK + [exe] + args, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               env=env_for(2), preexec_fn=no_core, timeout=300)
        except subprocess.TimeoutExpired:
            ctx.count("workloads_stalled")
            return
        err = p.stderr.decode("utf8", "replace")
        if p.returncode == 77:
            m = UNINIT.search(err)
            ctx.violation("memcheck-program:" + n, "%s %s: %s\n%s" % (
                n, " ".join(args), m.group(1) if m else "memory error", "\n".join(err.splitlines()[:14])), program=n)
        elif p.returncode < 0:
            kind = classify(err, p.returncode)
            ctx.violation("crash-program:%s:%s" % (n, kind), "%s %s: %s" % (n, " ".join(args), err[-600:]), program=n)
        else:
            ctx.case("%s under memcheck" % n, sample=True)
            ctx.count("programs_memcheck")
    apps.in_parallel([lambda n=n: one(n) for n in names], 8)


def run(ctx):
    run_harness(ctx, os.path.join(ROOT, "harness", "C36.cpp"))
    ctx.log("own workload done")
    src = sources()
    for how in ("debug", "clang", "memcheck"):
        flags = BASE + {"debug": SAN + ["-D_GLIBCXX_DEBUG"], "memcheck": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
                        "clang": SAN + ["-fopenmp=libgomp", "-I" + os.path.join(SHIM, "clang")]}[how]
        todo = [(n, p, o) for n, p, o in src if not (how == "debug" and n == "C36")]
        jobs = [(os.path.join(ctx.scratch, "%s_%s" % (n, how)), p, flags + o["flags"].replace("-D_GLIBCXX_DEBUG", "").split() + INCLUDES, [])
                for n, p, o in todo]
        built = compile_each(ctx, jobs, "clang++" if how == "clang" else "g++")
        ctx.log("built", len(built), "workloads for", how)
        scale = {"debug": DEBUG_SCALE, "clang": CLANG_SCALE, "memcheck": MEM_SCALE}[how]
        if ctx.thorough:
            scale = min(1, scale * 10)
        results = []

        def one(n, k):
            exe = os.path.join(ctx.scratch, "%s_%s" % (n, how))
            if exe in built:
                cmd = (MEMCHECK if how == "memcheck" else []) + [exe, "--scale", str(scale)]
                t = time.time()
                r = watch(ctx, n, how, cmd, (1, 3, os.cpu_count() + 3)[k % 3] if how == "debug" else (1, 2, 4)[k % 3], 300 if how == "memcheck" else 120)
                if time.time() - t > 20:
                    ctx.log(n, how, "%.0f s" % (time.time() - t))
                if r:
                    results.append(r)
        apps.in_parallel([lambda n=n, k=k: one(n, k) for k, (n, _, _) in enumerate(todo)], 8)
        for key, msg in results:
            ctx.violation(key, msg)
        ctx.log(how, "done")
    programs(ctx)
    ctx.assumptions += ["memcheck runs a small share of each workload, one program run each"]
    ctx.required.update(workloads_debug=25, workloads_clang=10, workloads_memcheck=25, programs_memcheck=6)
