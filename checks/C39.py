"""C39: equivalent invocations of the time-evolution programs, and faulty ones."""
import os, random
import apps

FLAGS = ["-O1", "-D_GLIBCXX_ASSERTIONS"]
KEYS = ("response_file", "out")


def draw(rng, name):
    kind, opts = apps.PROGRAMS[name]
    dt = rng.choice([0.1, 0.01, 0.05])
    v = {"J": rng.choice([1.5, 0.3, -0.2]), "U": rng.choice([0.5, 0., 2., -1.]), "dt": dt,
         "t_end": dt * rng.randint(3, 30), "measurement_interval": rng.randint(1, 4),
         "filling_factor": rng.choice([0.5, 0.25, 0.75]), "kx": rng.uniform(-3, 3), "ky": rng.uniform(-3, 3),
         "Nx": rng.randint(1, 2), "Ny": rng.randint(1, 2), "N": rng.randint(2, 4)}
    return {k: apps.number_text(rng, v[k], t is int) for k, t, d in opts
            if k in ("N", "Nx", "Ny", "t_end", "measurement_interval") or rng.random() < 0.8}


def response(rng, values, shuffle=True):
    """the text of a response file"""
    items = list(values.items())
    if shuffle:
        rng.shuffle(items)
    lines = []
    for k, v in items:
        while rng.random() < 0.3:
            lines.append(rng.choice(["", "# a comment", "#", "# " + k + " = 12", "#--%s=1" % k]))
        if rng.random() < 0.3 and not v.startswith("-"):
            lines += ["--" + k, v]
        else:
            lines.append("--%s=%s" % (k, v))
    while rng.random() < 0.3:
        lines.append(rng.choice(["", "# the end"]))
    return "\n".join(lines) + ("\n" if rng.random() < 0.8 else "")


def other_value(rng, name, key):
    """a different, valid value"""
    typ = {k: t for k, t, d in apps.PROGRAMS[name][1]}[key]
    if key in ("N", "Nx", "Ny"):
        return "1"
    if key == "measurement_interval":
        return "5"
    return {"t_end": "0.77", "dt": "0.031"}.get(key, "0.4375")


def run(ctx):
    ctx.rule = ("one case per (program, set of options, way to pass them); distinct by that description; always "
                "non-trivial")
    ctx.assumptions += ["response files hold one --key=value per line, or key and value on consecutive lines; "
                        "abbreviated keys and response files that do not exist are not covered"]
    rng = random.Random("C39/%d" % ctx.seed)
    names = list(apps.PROGRAMS)
    progs = apps.build(ctx, names, FLAGS)
    ctx.log("built the programs")
    todo, groups, faulty = [], [], []
    for name in names:
        for k in range(250 if ctx.thorough else 30):
            values = draw(rng, name)
            base = os.path.join(ctx.scratch, "runs", "%s_%d_" % (name, k))
            ways = []

            def way(kind, args, files=None, old=None, out="result.txt"):
                r = apps.Run(base + str(len(ways)), args, files=files, old=old, out=out)
                ways.append((kind, r))
                return r
            out = [("out", "result.txt")]
            way("command line", apps.arguments(rng, list(values.items()) + out))
            way("command line in another order", apps.arguments(rng, list(values.items()) + out))
            way("response file", apps.arguments(rng, [("response_file", "in.rsp")] + out),
                {"in.rsp": response(rng, values)})
            way("response file naming the output", ["--response_file=in.rsp"],
                {"in.rsp": response(rng, dict(values, out="result.txt"))}, old="1\t2\n" * 500)
            odd = rng.choice(["my result.txt", "run #%d.txt" % k, "a=b, c.dat", "N=3 --J=1.txt", "-x.txt", "res;ult 'x'.out",
                              "r\u00e4sult \u00b5.txt", "tab\there.txt", "two.dots.txt", "plain"])
            way("output with an odd name", apps.arguments(rng, list(values.items())) + ["--out=" + odd], out=odd)
            way("response file naming an odd output", ["--response_file=in.rsp"],
                {"in.rsp": response(rng, dict(values, out=odd))}, out=odd)
            for _ in range(2):
                mine = {x for x in values if rng.random() < 0.5}
                way("split", apps.arguments(rng, [(x, values[x]) for x in mine] + [("response_file", "in.rsp")] + out),
                    {"in.rsp": response(rng, {x: t for x, t in values.items() if x not in mine})})
                # what the command line gives wins
                theirs = {x: t for x, t in values.items() if x not in mine}
                theirs.update({x: other_value(rng, name, x) for x in mine if rng.random() < 0.8})
                way("override", apps.arguments(rng, [(x, values[x]) for x in mine] + [("response_file", "in.rsp")] + out),
                    {"in.rsp": response(rng, theirs)})
            groups.append((name, values, ways, base))
            todo += [lambda r=r, n=name: r.execute(progs[n]) for _, r in ways]
        keys = [k for k, t, d in apps.PROGRAMS[name][1]]
        for k in range(60 if ctx.thorough else 24):
            values = dict(draw(rng, name), t_end="0.1", dt="0.05")
            base = os.path.join(ctx.scratch, "runs", "%s_bad%d" % (name, k))
            key = rng.choice(keys)
            integer = {x: t for x, t, d in apps.PROGRAMS[name][1]}[key] is int
            kind = rng.randrange(6)
            extra, text = [], None
            if kind == 0:
                extra = [rng.choice(["--unknown=1", "--Nz=3", "--Temperature", "--j_prime=2", "--outt=x"])]
            elif kind == 1:
                values[key] = rng.choice(["abc", "1x", "0.5 0.5", "one", "--", "1,5"] + (["1.5", "1e1"] if integer else []))
                extra = None
            elif kind == 2:
                values.pop(key, None)
                extra = ["--" + key + "="] if rng.random() < 0.5 else ["--" + key]
            elif kind == 3:
                values.setdefault(key, "1")
                extra = ["--%s=%s" % (key, values[key])]    # given twice
            elif kind == 4:
                text = response(rng, {"unknown_" + key: "1"})
            else:
                values.pop(key, None)
                text = response(rng, {key: rng.choice(["abc", "1x", "x1"])})
            args = ["--%s=%s" % x for x in values.items()] + ["--out=result.txt"]
            files = {}
            if text is not None:
                args.append("--response_file=in.rsp")
                files["in.rsp"] = text
            if extra:
                args += extra
            r = apps.Run(base, args, files=files)
            faulty.append((name, r, text))
            todo.append(lambda r=r, n=name: r.execute(progs[n]))
    apps.in_parallel(todo)
    ctx.log("programs run")
    # second generation: from the response file the first run wrote
    again = []
    for name, values, ways, base in groups:
        kind, odd = [w for w in ways if w[0] == "output with an odd name"][0]
        path = os.path.join(odd.where, os.path.splitext(odd.out)[0] + ".rsp")
        if os.path.exists(path):
            r = apps.Run(base + "odd", ["--response_file=in.rsp"], files={"in.rsp": open(path, errors="replace").read()}, out=odd.out)
            ways.append(("response file written by a run with an odd output", r))
            again.append(lambda r=r, n=name: r.execute(progs[n]))
            ctx.count("odd_rsp_files")
        else:
            ctx.violation("no-rsp", "%s %s wrote no response file" % (name, " ".join(odd.args)), program=name)
    for name, values, ways, base in groups:
        first = ways[0][1]
        path = os.path.join(first.where, "result.rsp")
        if os.path.exists(path):
            text = open(path, errors="replace").read()
            for k, args in enumerate((["--response_file=in.rsp", "--out=result.txt"], ["--response_file=in.rsp"])):
                r = apps.Run(base + "again%d" % k, args, files={"in.rsp": text})
                ways.append(("response file written by a run", r))
                again.append(lambda r=r, n=name: r.execute(progs[n]))
            ctx.count("rsp_files")
        else:
            ctx.violation("no-rsp", "%s %s wrote no response file" % (name, " ".join(first.args)), program=name)
    apps.in_parallel(again)
    ctx.log("programs run again")
    for name, values, ways, base in groups:
        judge(ctx, name, values, ways)
    for name, r, text in faulty:
        what = "%s %s%s" % (name, " ".join(r.args), "" if text is None else " with response file %r" % text)
        ctx.case(what)
        if r.rc == 0 or r.rc is None:
            ctx.violation("accepted", what + ": no error is reported", args=r.args, program=name)
        elif r.text is not None:
            ctx.violation("output-written", what + ": fails after writing the output file", args=r.args, program=name)
        elif os.path.exists(os.path.join(r.where, name + ".txt")):
            ctx.violation("output-written", what + ": fails after writing the default output file", program=name)
        ctx.count("faulty")
    ctx.required.update(comparisons=1200, rsp_files=150, faulty=100)


def judge(ctx, name, values, ways):
    ref = None
    for kind, r in ways:
        what = "%s %s (%s%s)" % (name, " ".join(r.args), kind, "" if not os.path.exists(
            os.path.join(r.where, "in.rsp")) else ": %r" % open(os.path.join(r.where, "in.rsp")).read())
        ctx.case(what)
        say = lambda key, text: ctx.violation(key, what + ": " + text, args=r.args, program=name)
        bad = r.failure()
        if bad:
            return say(*bad)
        header, rows = r.parse()
        if header is None:
            return say("format", rows)
        found = [(k, v) for k, v in apps.header_options(header) if k not in KEYS]
        used = dict(found)
        if len(used) != len(found):
            return say("header-twice", "options recorded twice: %r" % (found,))
        for k, t in values.items():
            if k not in used or not apps.ENDING.match(used[k]) or float(used[k]) != float(t):
                return say("value-used", "%s is %s instead of %s" % (k, used.get(k), t))
        got = ({k: float(x) if apps.ENDING.match(x) else x for k, x in used.items()}, rows)
        if ref is None:
            ref = got
        elif got != ref:
            k = [i for i in range(min(len(rows), len(ref[1]))) if rows[i] != ref[1][i]]
            return say("different", "differs from the run with all options on the command line: " + (
                "header %r instead of %r" % (got[0], ref[0]) if got[0] != ref[0] else
                "%d lines instead of %d" % (len(rows), len(ref[1])) if not k else
                "line %d is %r instead of %r" % (k[0], rows[k[0]][:6], ref[1][k[0]][:6])))
        ctx.count("comparisons")
