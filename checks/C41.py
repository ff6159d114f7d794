"""C41: the complete output file of hubbard_dispersion_1d."""
import math, os, re
from vflib import REPO, BASE, SAN, INCLUDES, BOOST, compile_many, bounded, ending, env_for

N, J = 1024, 1.


def run(ctx):
    ctx.rule = "one case per line of dispersion.txt and run; distinct by line and run configuration"
    ctx.assumptions += ["printed numbers are read with half a unit of their last printed digit as tolerance"]
    src = os.path.join(REPO, "src/hubbard/hubbard_dispersion_1d.cpp")
    plain, san = os.path.join(ctx.scratch, "plain"), os.path.join(ctx.scratch, "san")
    compile_many(ctx, [(plain, src, BASE + ["-O2"] + INCLUDES, BOOST), (san, src, BASE + SAN + INCLUDES, BOOST)])
    ctx.log("built the program")
    olds = [None, "", "old line\n" * 20000, "1\t2", "\0" * 100]
    first = None
    runs = [(san, 1), (plain, 1), (plain, 2), (plain, 3), (plain, 4), (plain, 7), (plain, 8), (san, 4), (plain, 16),
            (plain, 64)]
    if ctx.thorough:
        runs = [(b, t) for b in (plain, san) for t in range(1, 41)] + [(plain, t) for t in (64, 100, 200)]
    for k, (binary, threads) in enumerate(runs):
        where = os.path.join(ctx.scratch, "run%d" % k)
        os.mkdir(where)
        old = olds[k % len(olds)]
        path = os.path.join(where, "dispersion.txt")
        if old is not None:
            open(path, "w").write(old)
        for again in range(2 if k % 3 == 0 else 1):
            p = bounded([binary], 150, cwd=where, env=env_for(threads))
            if p.returncode != 0:
                ctx.violation("crash", "hubbard_dispersion_1d fails with %d threads: %s" % (threads, ending(p)))
                return
        if not os.path.exists(path):
            ctx.violation("no-file", "dispersion.txt was not written")
            return
        data = open(path, "rb").read()
        if first is None:
            first = data
        elif data != first:
            ctx.violation("unstable", "run with %d threads over %r gives a different file" % (
                threads, None if old is None else old[:10]))
            return
        check(ctx, data, "run %d (%d threads)" % (k, threads))
        ctx.count("runs")
        if ctx.violations:
            return
    ctx.required["lines"] = 10 * N


def tolerance(text):
    """half a unit of the last digit printed"""
    m = re.fullmatch(r"-?(\d+)(?:\.(\d*))?(?:e([-+]\d+))?", text)
    if not m:
        return None
    digits = len((m.group(1) + (m.group(2) or "")).lstrip("0"))
    if digits < 6 and abs(float(text)) > 0:    # trailing zeros are not printed: six significant digits
        return max(abs(float(text)) * 1e-5 / 2, 1e-12)
    exp = int(m.group(3) or 0) - len(m.group(2) or "")
    return 0.5 * 10. ** exp


def check(ctx, data, name):
    text = data.decode("utf8", "replace")
    if not text.endswith("\n"):
        ctx.violation("last-line", "the last line is not terminated")
        return
    lines = text[:-1].split("\n")
    if len(lines) != N:
        ctx.violation("lines", "%d lines instead of %d" % (len(lines), N))
        return
    last = None
    for i, line in enumerate(lines):
        ctx.case("%s line %d" % (name, i))
        ctx.count("lines")
        f = line.split("\t")
        tol = [tolerance(x) for x in f]
        if len(f) != 2 or None in tol:
            ctx.violation("format", "line %d is %r" % (i, line))
            return
        k, e = float(f[0]), float(f[1])
        want_k = -math.pi + 2 * math.pi * i / N
        want_e = -2 * J * math.cos(want_k)
        if last is not None and not k > last:
            ctx.violation("order", "momenta do not ascend at line %d" % i)
        last = k
        if abs(k - want_k) > tol[0] * 1.01 + 1e-12:
            ctx.violation("momentum", "line %d is at k=%s instead of %.9g" % (i, f[0], want_k))
        if abs(e - want_e) > tol[1] * 1.01 + 1e-12:
            ctx.violation("energy", "line %d gives E(%s)=%s instead of %.9g" % (i, f[0], f[1], want_e))
        if ctx.violations:
            return
