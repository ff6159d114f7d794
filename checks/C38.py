"""C38: when the time-evolution programs measure, and what they write."""
import math, os, random
import apps

FLAGS = ["-O1", "-D_GLIBCXX_ASSERTIONS"]


def draw(rng, name):
    kind, opts = apps.PROGRAMS[name]
    mode = rng.random()
    if mode < 0.45:    # decimal numbers that have no binary representation
        dt = rng.choice([0.1, 0.01, 0.001, 0.2, 0.3, 0.7, 0.05, 0.015, 1e-4, 1 / 3., 0.12345])
    elif mode < 0.6:
        dt = rng.choice([0.5, 0.25, 0.125, 1., 2.])
    else:
        dt = round(rng.uniform(1e-4, 1.), rng.randint(2, 6)) or 0.01
    steps = rng.choice([0, 1, 2, 3, rng.randint(1, 40), rng.randint(1, 400), rng.randint(1, 3000)])
    t_end = rng.choice([float("%.10g" % (dt * steps)), dt * steps, dt * (steps + rng.uniform(0.05, 0.95)),
                        round(dt * steps, 2)])
    interval = rng.choice([0, 1, 2, 3, 7, 10, rng.randint(1, max(1, steps)), max(1, steps), steps + 1, steps + 2, 100])
    if t_end / dt / max(1, interval) > 1500:
        interval = 10 * max(1, interval)
    if rng.random() < 0.08:    # longer than any run
        interval = rng.choice([255, 256, 257, 65535, 65536, 65537, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1]) + rng.choice([0, 0, 1, 2]) * 65536
        interval = min(interval, 2 ** 64 - 1)
    v = {"J": rng.choice([1., 0.3, -0.2]), "U": rng.choice([0.5, 0., 1.]), "dt": dt, "t_end": t_end,
         "measurement_interval": interval, "filling_factor": rng.choice([0.5, 0.25]), "kx": rng.uniform(0, 3),
         "ky": rng.uniform(0, 3)}
    # outside the region of stability of RK4 rounding errors outgrow the result
    damped = steps > 1 and dt * 9 > 1.5    # the defaults are J = U = 1
    speed = dt * (8 * abs(v["J"]) + abs(v["U"]))
    if damped and speed > 1.5:
        v["J"], v["U"] = v["J"] * 1.5 / speed, v["U"] * 1.5 / speed
    if kind == "jump2d":
        v["Nx"], v["Ny"] = rng.choice([(1, 2), (2, 1), (1, 1), (2, 2)])
    else:
        v["N"] = rng.randint(1, 3 if "kinetic" not in kind else 12)
    given = [(k, apps.number_text(rng, v[k], t is int)) for k, t, d in opts]
    # left out: those whose default has no influence on the schedule
    given = [(k, t) for k, t in given if k in ("N", "Nx", "Ny", "dt", "t_end", "measurement_interval")
             or (damped and k in ("J", "U")) or rng.random() < 0.7]
    return v, given


def run(ctx):
    ctx.rule = "one case per (program, command line); distinct by that description; non-trivial from two measurements on"
    ctx.assumptions += ["if t_end is a multiple of dt up to rounding, one step more is allowed",
                        "times are printed with six significant digits"]
    rng = random.Random("C38/%d" % ctx.seed)
    names = list(apps.PROGRAMS)
    progs = apps.build(ctx, names, FLAGS)
    ctx.log("built the programs")
    runs = []
    for name in names:
        for k in range(1200 if ctx.thorough else 130):
            v, given = draw(rng, name)
            default_out = rng.random() < 0.15
            sub = rng.random() < 0.1
            out = name + ".txt" if default_out else rng.choice(["result.txt", "a.dat", "x", "data.1.txt"])
            args = apps.arguments(rng, given + ([] if default_out else [("out", out)]))
            runs.append((name, v, dict(given), out, apps.Run(
                os.path.join(ctx.scratch, "runs", "%s_%d" % (name, k)), args, out=out,
                old=rng.choice([None, None, "7\t7\n# x\n" * 1000]), threads=rng.choice([1, 1, 2, 4]))))
    # the defaults of everything: a complete run
    for name in names:
        small = "kinetic" in name
        given = {} if small else ({"Nx": "2", "Ny": "2"} if "2d" in name else {"N": "3"})
        v = {k: d for k, t, d in apps.PROGRAMS[name][1]}
        v.update({k: int(x) for k, x in given.items()})
        args = ["--%s=%s" % x for x in given.items()]
        runs.append((name, v, given, name + ".txt", apps.Run(os.path.join(ctx.scratch, "runs", name + "_default"), args,
                                                             out=name + ".txt")))
    apps.in_parallel([lambda r=r, n=n: r.execute(progs[n]) for n, _, _, _, r in runs], 8)
    ctx.log("programs run")
    for name, v, given, out, r in runs:
        judge(ctx, name, v, given, out, r)
    ctx.required.update(measurements=8000, headers=600, on_grid=200, between=100)


def judge(ctx, name, v, given, out, r):
    what = "%s %s" % (name, " ".join(r.args))
    steps, extra = apps.schedule(v["dt"], v["t_end"], v["measurement_interval"])
    ctx.case(what, len(steps) > 1)
    exact = v["t_end"] / v["dt"]
    ctx.count("on_grid" if abs(exact - round(exact)) < 1e-6 * max(1., exact) else "between")
    say = lambda key, text: ctx.violation(key, what + ": " + text, args=r.args, program=name)
    bad = r.failure()
    if bad:
        return say(*bad)
    header, rows = r.parse()
    if header is None:
        return say("format", rows)
    times = [row[0] for row in rows]
    want = list(steps)
    if extra is not None and len(rows) == len(steps) + 1:
        want.append(extra)
        ctx.count("extra_step")
    if len(times) != len(want):
        return say("lines", "%d measurements instead of %d, at t = %s ..." % (len(times), len(want), " ".join(times[:6])))
    for k, (t, s) in enumerate(zip(times, want)):
        if abs(float(t) - s * v["dt"]) > 6e-6 * s * v["dt"]:
            return say("time", "measurement %d is at t=%s instead of %.9g" % (k, t, s * v["dt"]))
    if len(set(len(row) for row in rows)) != 1:
        return say("columns", "lines of different numbers of columns")
    ctx.count("measurements", len(rows))
    # header
    found = apps.header_options(header)
    keys = [k for k, _ in found]
    for k, typ, default in apps.PROGRAMS[name][1]:
        if keys.count(k) != 1:
            return say("header-option", "the header records option %s %d times" % (k, keys.count(k)))
        text = dict(found)[k]
        value = float(given[k]) if k in given else default
        if not apps.ENDING.match(text) or abs(float(text) - value) > 1e-14 * abs(value):
            return say("header-value", "the header records %s = %s, the run used %r" % (k, text, value))
    if dict(found).get("out") != out:
        return say("header-value", "the header records out = %s instead of %s" % (dict(found).get("out"), out))
    if not any(l.startswith("# program") and l.split()[-1] == name for l in header):
        return say("header-program", "the header does not name the program: " + header[0])
    if not any("CLI options" in l for l in header):
        return say("header-section", "no section of options in the header")
    ctx.count("headers")
