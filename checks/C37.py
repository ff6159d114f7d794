"""C37: output files of the time-evolution programs against the reference simulator."""
import math, os, random, struct
import apps
from vflib import SAN


LARGE = {"occupation": (6, 7), "jump": (7, 17), "coefficients": (6, 13), "kinetic": (41, 300),
         "kinetic_coefficients": (41, 3000)}


def draw(rng, name, thorough, large=False):
    kind, opts = apps.PROGRAMS[name]
    v = {}
    top = {"occupation": 5, "jump": 6, "coefficients": 5, "kinetic": 40, "kinetic_coefficients": 40}
    if thorough:
        top = {"occupation": 6, "jump": 9, "coefficients": 8, "kinetic": 150, "kinetic_coefficients": 150}
    if kind == "jump2d":
        v["Nx"] = rng.randint(1, 4)
        v["Ny"] = rng.randint(1, max(1, (12 if thorough else 8) // v["Nx"]))
    else:
        v["N"] = rng.randint(1, top[kind])
    if large:
        if kind == "jump2d":
            v["Nx"] = rng.randint(1, 7)
            v["Ny"] = rng.randint(max(1, 9 // v["Nx"]), max(2, 18 // v["Nx"]))
        else:
            v["N"] = rng.randint(*LARGE[kind])
    v["J"] = rng.choice([1., -1., 0., 0.5, 2., round(rng.uniform(-3, 3), 4), rng.uniform(-3, 3)])
    v["U"] = rng.choice([1., 0., -2., 8., round(rng.uniform(-6, 6), 3), rng.uniform(0, 10)])
    v["dt"] = rng.choice([0.01, 0.05, 0.1, 0.125, 0.001, round(rng.uniform(0.002, 0.1), 5), rng.uniform(0.001, 0.1)])
    steps = rng.randint(1, 20 if large else 80)
    v["t_end"] = rng.choice([v["dt"] * steps, v["dt"] * (steps - rng.random()), round(v["dt"] * steps, 3)])
    v["measurement_interval"] = rng.randint(1, max(1, steps // 2))
    v["filling_factor"] = rng.choice([0.5, 0.5, 0., 1., 0.25, rng.random()])
    for k in ("kx", "ky"):
        v[k] = rng.choice([apps.PI2, 0., math.pi, rng.uniform(-4, 4)])
    full = {}
    given = []
    for key, typ, default in opts:
        keep_default = rng.random() < 0.12 and key in ("J", "U", "dt", "filling_factor", "kx", "ky")
        full[key] = default if keep_default else v[key]
        if not keep_default:
            given.append((key, apps.number_text(rng, v[key], typ is int)))
    if full["t_end"] / full["dt"] > 400:
        full["t_end"] = 50 * full["dt"]
        given = [(k, repr(full["t_end"]) if k == "t_end" else t) for k, t in given]
    return kind, full, given


def line(kind, f, steps):
    return "%s %d %d %r %r %r %r %r %r %s" % (
        kind, f.get("Nx", f.get("N")), f.get("Ny", 1), f["J"], f.get("U", 0.), f["dt"], f.get("filling_factor", 0.5),
        f.get("kx", 0.), f.get("ky", 0.), " ".join(map(str, steps)))


def close(text, want, size, digits=6):
    got = float(text)
    return abs(got - want) <= 0.6 * 10 ** (1 - digits) * abs(want) + 2e-12 * size + 1e-300


def run(ctx):
    ctx.rule = ("one case per (program, command line, number of threads); distinct by that description; non-trivial if "
                "the lattice has at least two sites and at least two measurements are taken")
    ctx.assumptions += [
        "lattices of at most 7 sites (occupation number), 18 sites (Fermi jump), 13 sites (coefficients), 300 sites "
        "(kinetic basis) or 3000 sites (its coefficients) represent larger ones; mostly much smaller ones are drawn",
        "Blaze and spdlog are replaced by stand-ins; the momentum program is observed at filling 0 energy on lattices "
        "whose size is no multiple of 4, where no level is at the Fermi energy"]
    rng = random.Random("C37/%d" % ctx.seed)
    names = list(apps.PROGRAMS)
    progs = apps.build(ctx, names + [apps.MOMENTUM, apps.TRIVIAL], SAN)
    oracle = apps.build_oracle(ctx)
    ctx.log("built the programs")
    runs, jobs = [], {}
    per = 600 if ctx.thorough else 60
    for name in names:
        for k in range(per):
            large = k % 12 == 7
            kind, full, given = draw(rng, name, ctx.thorough, large)
            ctx.count("large_lattices", int(large))
            ident = "%s_%d" % (name, k)
            threads = rng.choice([1, 2, 3, 5, 8])
            steps, extra = apps.schedule(full["dt"], full["t_end"], full["measurement_interval"])
            args = apps.arguments(rng, given + [("out", "result.txt")])
            old = rng.choice([None, None, "# old\n1\t2\n" * 300])
            r = apps.Run(os.path.join(ctx.scratch, "runs", ident), args, threads=threads, old=old)
            runs.append((ident, name, kind, full, steps, extra, r))
            jobs[ident] = line(kind, full, steps + ([extra] if extra else []))
    mom = []
    for k in range(200 if ctx.thorough else 60):
        full = {"N": rng.choice([1, 2, 3, 5, 6, 7, 9, 10] + ([11, 13, 14, 15] if ctx.thorough else [])),
                "J": rng.choice([1., 2., -1., rng.uniform(0.1, 3), -rng.uniform(0.1, 3), rng.choice([1, -1]) * rng.uniform(1e-3, 0.05)]),
                "U": rng.choice([1., 0., 4., rng.uniform(-6, 6)]), "dt": rng.choice([0.01, 0.1, 0.25, rng.uniform(0.001, 0.2)])}
        given = [(x, apps.number_text(rng, full[x], x == "N")) for x in full]
        ident = "momentum_%d" % k
        args = apps.arguments(rng, given + [("out", "result.txt")])
        old = rng.choice([{}, {"result_matrix.blaze": "old" * rng.choice([3, 50000])}])
        mom.append((ident, full, apps.Run(os.path.join(ctx.scratch, "runs", ident), args, files=old,
                                          threads=rng.choice([1, 2, 4, 7]))))
        jobs[ident] = line("momentum", full, [0, 8])
    todo = [lambda r=r, n=n: r.execute(progs[n]) for _, n, _, _, _, _, r in runs]
    todo += [lambda r=r: r.execute(progs[apps.MOMENTUM]) for _, _, r in mom]
    want = apps.simulate(ctx, oracle, jobs)
    ctx.log("reference simulations done")
    apps.in_parallel(todo, 4)
    ctx.log("programs run")

    for ident, name, kind, full, steps, extra, r in runs:
        what = "%s %s (%d threads)" % (name, " ".join(r.args), r.threads)
        ctx.case(what, (full.get("N", 0) or full["Nx"] * full["Ny"]) > 1 and len(steps) > 1)
        bad = r.failure()
        if bad:
            ctx.violation(bad[0], what + ": " + bad[1], args=r.args, program=name)
            continue
        header, rows = r.parse()
        if header is None:
            ctx.violation("format", what + ": " + rows, args=r.args, program=name)
            continue
        # lines not at one of these times, and missing ones, are the business of C38
        by_step = {}
        for row in rows:
            by_step.setdefault(int(round(float(row[0]) / full["dt"])), row)
        compared = 0
        for s in steps + ([extra] if extra else []):
            row = by_step.get(s)
            if row is None or s not in want[ident] or abs(float(row[0]) - s * full["dt"]) > 1e-5 * s * full["dt"]:
                continue
            size, values = want[ident][s]
            if len(row) != 1 + len(values):
                ctx.violation("columns", "%s: %d columns instead of %d at t=%s" % (what, len(row), 1 + len(values), row[0]),
                              args=r.args, program=name)
                break
            worst = [k for k in range(len(values)) if not close(row[k + 1], values[k], size)]
            if worst:
                ctx.violation("value:" + kind, "%s: at t=%s column %d is %s, but the projected dynamics give %.9g" % (
                    what, row[0], worst[0] + 1, row[worst[0] + 1], values[worst[0]]), args=r.args, program=name)
                break
            compared += 1
            ctx.count("values", len(values))
        ctx.count("measurements", compared)
        if compared == 0 and not any(x["message"].startswith(what) for x in ctx.violations):
            ctx.violation("no-measurement", what + ": no line at any of the times of a measurement",
                          args=r.args, program=name)
    for ident, full, r in mom:
        what = "%s %s (%d threads)" % (apps.MOMENTUM, " ".join(r.args), r.threads)
        ctx.case(what, full["N"] > 1)
        bad = r.failure()
        if bad:
            ctx.violation(bad[0], what + ": " + bad[1], args=r.args, program=apps.MOMENTUM)
            continue
        out = r.stdout.split()
        values = [(want[ident][s][1][0], want[ident][s][0]) for s in (0, 8)]
        ok = len(out) == 2 and all(apps.ENDING.match(o) and close(o, v, z) for o, (v, z) in zip(out, values))
        if not ok:
            ctx.violation("value:momentum", "%s prints %r instead of %s" % (
                what, r.stdout[:200], " ".join("%.9g" % v for v, _ in values)), args=r.args, program=apps.MOMENTUM)
        ctx.count("measurements", 2)
        bad = matrix_file(ctx, full, os.path.join(r.where, "result_matrix.blaze"))
        if bad:
            ctx.violation("matrix-file", "%s: the matrix file %s" % (what, bad), args=r.args, program=apps.MOMENTUM)
    trivial(ctx, progs[apps.TRIVIAL])
    ctx.required.update(measurements=700, values=4000, matrix_files=50, trivial_lines=2001, large_lattices=25)


def matrix_file(ctx, full, path):
    """i times the projected commutator, for a basis in any order that begins with the operator of interest"""
    n, J, U = full["N"], full["J"], full["U"]
    try:
        raw = open(path, "rb").read()
    except OSError:
        return "does not exist"
    if len(raw) < 32:
        return "is incomplete (%d bytes)" % len(raw)
    magic, rows, cols, count = struct.unpack_from("<4Q", raw)
    d = 1 + n * n
    if magic != 0x424c5a4d41545231 or rows != d or cols != d or len(raw) != 32 + 32 * count:
        return "holds a %d x %d matrix with %d entries in %d bytes, the basis has %d elements" % (rows, cols, count, len(raw), d)
    tol = 1e-13 * (8 * abs(J) + abs(U))
    eps = lambda k: -2 * J * math.cos(-math.pi + 2 * math.pi * k / n)
    q = n // 2
    diagonal, first, column = [0.] * d, [0.] * d, [0.] * d
    for k in range(count):
        i, j, re, im = struct.unpack_from("<2Q2d", raw, 32 + 32 * k)
        if i >= d or j >= d or abs(re) > tol:
            return "has the entry %r+%ri at (%d,%d)" % (re, im, i, j)
        if i == j:
            diagonal[i] += im
        elif i == 0:
            first[j] += im
        elif j == 0:
            column[i] += im
        elif abs(im) > tol:
            return "has the entry %ri at (%d,%d), where the commutator vanishes" % (im, i, j)
    want = sorted(eps(a) + eps(b) - eps((a + b + n - q) % n) + U / 2 for a in range(n) for b in range(n))
    if abs(diagonal[0] - eps(q) - U / 2) > tol:
        return "begins with %ri instead of %ri" % (diagonal[0], eps(q) + U / 2)
    for a, b in zip(sorted(diagonal[1:]), want):
        if abs(a - b) > tol:
            return "has %ri instead of %ri among its sorted diagonal entries" % (a, b)
    for k in range(1, d):
        if abs(first[k] - U / 2 / n) > tol or abs(column[k] - U / 2 / n) > tol:
            return "couples element %d with %ri and %ri instead of %ri" % (k, first[k], column[k], U / 2 / n)
    ctx.count("matrix_files")
    ctx.count("matrix_entries", count)
    return None


def trivial(ctx, binary):
    where = os.path.join(ctx.scratch, "runs", "trivial")
    r = apps.Run(where, [], out="trivial.txt", old="old\n" * 50000).execute(binary)
    ctx.case("hubbard_trivial")
    bad = r.failure()
    if bad:
        ctx.violation(bad[0], "hubbard_trivial: " + bad[1], program=apps.TRIVIAL)
        return
    header, rows = r.parse()
    if header is None or header or len(rows) != 2001:
        ctx.violation("trivial-lines", "trivial.txt: " + (rows if header is None else "%d lines, %d comments" % (
            len(rows), len(header))), program=apps.TRIVIAL)
        return
    J = Uv = 1.
    M = [[Uv / 2, -J, -J, Uv / 2], [-J, Uv / 2, 0, 0], [-J, 0, Uv / 2, 0], [Uv / 2, 0, 0, Uv / 2]]
    p = 1 / math.pi
    G = [[.5, p, p, .25], [p, .5, p, p / 2], [p, p, .5, p / 2], [.25, p / 2, p / 2, .25]]
    h = [1, 0, 0, 0]
    dt = 0.01
    for s, row in enumerate(rows):
        n = sum((h[i] * h[j].conjugate() if isinstance(h[j], complex) else h[i] * h[j]) * G[i][j]
                for i in range(4) for j in range(4))
        n = complex(n)
        want = [s * dt] + [x for z in h for x in (complex(z).real, complex(z).imag)] + [n.real, 0.]
        if len(row) != 11:
            ctx.violation("trivial-columns", "line %d of trivial.txt has %d columns" % (s, len(row)))
            return
        for k, w in enumerate(want):
            if not close(row[k], w, 1.):
                ctx.violation("trivial-value", "line %d of trivial.txt: column %d is %s instead of %.9g" % (
                    s, k, row[k], w), program=apps.TRIVIAL)
                return
        ctx.count("trivial_lines")
        t = [complex(x) for x in h]
        new = list(t)
        for k in range(1, 5):
            t = [1j * dt / k * sum(M[i][j] * t[j] for j in range(4)) for i in range(4)]
            new = [a + b for a, b in zip(new, t)]
        h = new
