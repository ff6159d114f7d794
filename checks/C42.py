"""C42: what the simulation programs say about themselves: header and log of a run, --version, --help, and the
set of files each invocation leaves behind. Expected values come from other sources than the program."""
import os, platform, random, re, shutil, signal, socket, subprocess, sys
import apps
from vflib import Inconclusive, REPO, ROOT, BASE, BOOST, INCLUDES, SHIM, compile_many, env_for, classify, crash_excerpt, no_core

FLAGS = ["-O1", "-D_GLIBCXX_ASSERTIONS"]
MOMENTUM_OPTIONS = [("N", int, 16), ("J", float, 1.), ("U", float, 1.), ("dt", float, 0.01), ("t_end", float, 10.),
                    ("measurement_interval", float, 0.1)]
FACTS = ["program", "ieompp", "boost", "blaze", "arch", "os", "compiler", "std lib", "compiled by", "endianess",
         "max threads"]
FACT = re.compile(r"(?:# |\[\w+\] \t|)(%s) *:? *\t(.*)$" % "|".join(FACTS))


def macros(compiler, header):
    p = subprocess.run([compiler, "-std=c++14", "-x", "c++", "-include", header, "-dM", "-E", "-"], input=b"",
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env_for())
    return dict(l.split(" ", 2)[1:] for l in p.stdout.decode().splitlines() if l.count(" ") >= 2)


def expected(ctx):
    """the facts that are the same for every run; from the compilers and the headers"""
    tiny = os.path.join(ctx.scratch, "version")
    with open(tiny + ".cpp", "w") as f:
        f.write('#include <iostream>\n#include <ieompp/version.hpp>\nint main() { std::cout << ieompp::version; }\n')
    compile_many(ctx, [(tiny, tiny + ".cpp", ["-std=c++14", "-w"] + INCLUDES, [])])
    b = int(re.search(r"#define BOOST_VERSION (\d+)", open("/usr/include/boost/version.hpp").read()).group(1))
    shim = open(os.path.join(SHIM, "blaze/blaze/shim.hpp")).read()
    date = int(macros("g++", "string")["__GLIBCXX__"])
    common = {"ieompp": subprocess.check_output([tiny]).decode(), "boost": "%d.%d.%d" % (b // 100000, b // 100 % 1000, b % 100),
              "blaze": ".".join(re.search(r"BLAZE_%s_VERSION (\d+)" % k, shim).group(1) for k in ("MAJOR", "MINOR")),
              "arch": platform.machine(), "os": platform.system(),
              # the version number Boost makes of the date of the release
              "std lib": "libstdc++%d" % ((date // 10000 - 1970) * 10000000 + date // 100 % 100 * 100000 + date % 100),
              "endianess": {"little": "LittleEndian", "big": "BigEndian"}[sys.byteorder]}
    gcc = subprocess.check_output(["g++", "-dumpfullversion"]).decode().strip()
    clang = subprocess.check_output(["clang++", "-dumpversion"]).decode().strip()
    return {"g++": dict(common, compiler="gcc " + gcc), "clang++": dict(common, compiler="clang " + clang)}


def uts_works():
    try:
        p = subprocess.run(["unshare", "-Ur", "--uts", "sh", "-c", "hostname vf-probe && hostname"], timeout=20,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        return p.stdout.decode().strip() == "vf-probe"
    except (OSError, subprocess.TimeoutExpired):
        return False


class Invocation:
    def __init__(self, rng, where, args, files, uts):
        self.where, self.args, self.files = where, args, files
        self.user = rng.choice([None, "root", "alice", "j.doe", "a b", "user-%d" % rng.randrange(1000), "\u00fcser"])
        self.host = rng.choice(["vm1", "node-%d.cluster" % rng.randrange(100), "x" * 60, "h"]) if uts and rng.random() < 0.5 else None
        self.threads = rng.choice([None, 1, 2, 3, 7, 8, 16, 40])
        os.makedirs(where)
        for name, text in files.items():
            os.makedirs(os.path.dirname(os.path.join(where, name)) or where, exist_ok=True)
            with open(os.path.join(where, name), "w") as f:
                f.write(text)

    hung = 0
    clock = None

    def readings(self):
        """what the clocks were read as during the run, in seconds"""
        try:
            return [int(x) / 1e9 for x in open(self.where + ".clock")]
        except OSError:
            return []

    def execute(self, binary):
        self.rc, self.stdout, self.stderr, self.found = None, "", "", {}
        if Invocation.hung >= 3:    # the time for the whole check is limited
            return self
        env = env_for(self.threads)
        env.pop("LOGNAME")
        if self.user is not None:
            env["LOGNAME"] = self.user
        cmd = [binary] + self.args
        if Invocation.clock:
            cmd = ["env", "LD_PRELOAD=" + Invocation.clock, "VF_CLOCK=" + self.where + ".clock"] + cmd
        if self.host:
            cmd = ["unshare", "-Ur", "--uts", "sh", "-c", "hostname '%s' && exec \"$@\"" % self.host, "sh"] + cmd
        # what the program prints goes beside its directory
        with open(self.where + ".out", "wb") as o, open(self.where + ".err", "wb") as e:
            try:
                self.rc = subprocess.run(cmd, stdout=o, stderr=e, stdin=subprocess.DEVNULL, cwd=self.where, env=env,
                                         timeout=150, preexec_fn=no_core).returncode
                if self.rc == -signal.SIGXFSZ:
                    self.rc = None
            except subprocess.TimeoutExpired:
                pass
        if self.rc is None:
            Invocation.hung += 1
            shutil.rmtree(self.where)   # may be huge
            for end in (".out", ".err"):
                os.remove(self.where + end)
            return self
        self.stdout = open(self.where + ".out", errors="replace").read()
        self.stderr = open(self.where + ".err", errors="replace").read()
        for d, _, fs in os.walk(self.where):
            for f in fs:
                path = os.path.join(d, f)
                self.found[os.path.relpath(path, self.where)] = open(path, errors="replace").read()
        return self

    def wanted(self, facts, name):
        r = dict(facts, program=name)
        r["compiled by"] = "%s@%s" % (self.user if self.user is not None else "unknown", self.host or socket.gethostname())
        r["max threads"] = str(self.threads or len(os.sched_getaffinity(0)))
        return r

    def crashed(self):
        return self.rc is None or self.rc < 0 or self.rc >= 126


def facts_in(lines):
    res = {}
    for l in lines:
        m = FACT.match(l)
        if m:
            res.setdefault(m.group(1), []).append(m.group(2))
    return res


def options_of(name):
    return MOMENTUM_OPTIONS if name == apps.MOMENTUM else apps.PROGRAMS[name][1]


def draw(rng, name):
    v = {"N": rng.choice([1, 2, 3, 5]), "Nx": rng.randint(1, 2), "Ny": rng.randint(1, 2), "J": rng.choice([1.5, -0.5]),
         "U": rng.choice([0.25, 2.]), "dt": 0.125, "t_end": rng.choice([0.5, 0.25]),
         "measurement_interval": rng.randint(1, 3), "filling_factor": rng.choice([0.5, 0.25]), "kx": 0.5, "ky": 1.25}
    return {k: v[k] for k, t, d in options_of(name) if k in ("N", "Nx", "Ny", "t_end", "dt") or rng.random() < 0.6}


def run(ctx):
    ctx.rule = ("one case per (program, compiler, kind of invocation, command line, user, host, number of threads); "
                "distinct by that description; always non-trivial")
    ctx.assumptions += ["Blaze and spdlog are replaced by stand-ins; the version of Blaze is that of the stand-in",
                        "the exit status of --help and --version is not part of the property, except that they do not crash"]
    rng = random.Random("C42/%d" % ctx.seed)
    uts = uts_works()
    facts = expected(ctx)
    names = list(apps.PROGRAMS) + [apps.MOMENTUM]
    progs = {("g++", n): p for n, p in apps.build(ctx, names, FLAGS).items()}
    # a second compiler, to see that the compiler is told apart
    other = rng.sample(names, len(names) if ctx.thorough else 2)
    jobs = []
    for n in other:
        progs["clang++", n] = os.path.join(ctx.scratch, n + ".clang")
        jobs.append((progs["clang++", n], os.path.join(REPO, "src/hubbard", n + ".cpp"),
                     BASE + FLAGS + ["-fopenmp=libgomp", "-I" + os.path.join(SHIM, "clang")] + INCLUDES, BOOST))
    try:
        compile_many(ctx, jobs, cxx="clang++")
    except Inconclusive as e:   # which has no OpenMP here
        ctx.assumptions.append("only built with g++: " + str(e)[:300])
        for n in other:
            del progs["clang++", n]
    ctx.log("built the programs")
    Invocation.hung = 0
    clock = os.path.join(ctx.scratch, "clock.so")
    if subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", clock, os.path.join(SHIM, "clock", "clock.c")]).returncode:
        raise Inconclusive("the clock does not compile")
    Invocation.clock = clock
    todo = []
    count = 240 if ctx.thorough else 36
    for (cxx, n), binary in sorted(progs.items()):
        for k in range(count):
            kind = ("run", "run", "run", "response", "help", "version")[k % 6]
            values = draw(rng, n)
            given = [(x, apps.number_text(rng, y, isinstance(y, int))) for x, y in values.items()]
            out = rng.choice(["result.txt", "a.b.dat", "plain", "sub/x.txt", "sub.dir/plain", n + ".txt", "n.txt.gz", "x" * 150 + ".txt"])
            files = {"other.txt": "not to be touched\n", "result_checkpoint_0.blaze": "x", "%s.bak" % out: "y"}
            stem = os.path.splitext(out)[0]
            if rng.random() < 0.4:
                files[out] = "old\n" * 3000
                # of an earlier run elsewhere
                files[stem + ".log"] = "old\n" * 300 + "".join("[main] \t%s:\t%s\n" % (f, "9.9") for f in FACTS) * 40
            args = apps.arguments(rng, given)
            if kind == "response":
                files["in.cfg"] = "".join("--%s=%s\n" % g for g in given)
                args = ["--response_file=in.cfg"]
            if out != n + ".txt":
                args.append("--out=" + out)
            if kind in ("help", "version"):
                if rng.random() < 0.4:
                    args = []
                args.insert(rng.choice([0, len(args)]), "--" + kind)
            if "/" in out:
                files[os.path.dirname(out) + "/keep"] = ""
            i = Invocation(rng, os.path.join(ctx.scratch, "runs", "%s_%s_%d" % (n, cxx, k)), args, files, uts)
            todo.append((cxx, n, kind, out, stem, given, i))
    # matrices with more than 2^32 elements
    for n, values in ((next(x for x in names if x.endswith("1d_rk4_jump")), {"N": 41, "dt": 0.125, "t_end": 0.125}),
                      (next(x for x in names if "kinetic_rk4_coeff" in x), {"N": 70001, "dt": 0.125, "t_end": 0.25})):
        given = [(x, str(y)) for x, y in values.items()]
        i = Invocation(rng, os.path.join(ctx.scratch, "runs", "large_" + n), apps.arguments(rng, given) + ["--out=result.txt"], {}, uts)
        todo.append(("g++", n, "run", "result.txt", "result", given, i))
    apps.in_parallel([lambda i=i, b=progs[c, n]: i.execute(b) for c, n, _, _, _, _, i in todo])
    ctx.log("programs run")
    for t in todo:
        judge(ctx, facts[t[0]], *t)
    ctx.required.update(times=150, matrices_logged=150, facts=1700, logged_facts=1000, helps=30, versions=30, file_sets=230)
    if uts:
        ctx.required["other_hosts"] = 10


def compare(ctx, say, where, found, want, required, counter):
    for k in required:
        if len(found.get(k, [])) != 1:
            say("missing-fact", "%s gives %r %d times" % (where, k, len(found.get(k, []))))
            return False
        if found[k][0].strip() != want[k].strip():
            say("false-fact", "%s gives %r as %r, but it is %r" % (where, k, found[k][0], want[k]))
            return False
        ctx.count(counter)
    return True


def judge(ctx, facts, cxx, name, kind, out, stem, given, i):
    what = "%s (%s) %s, LOGNAME %s, host %s, OMP_NUM_THREADS %s" % (name, cxx, " ".join(i.args), i.user, i.host or "as it is",
                                                                   i.threads)
    ctx.case(what)
    if i.host:
        ctx.count("other_hosts")

    def say(key, text):
        ctx.violation(key, what + ": " + text, program=name, args=i.args)
    if i.crashed() or (kind in ("run", "response") and i.rc != 0):
        return say("crash:%s" % (classify(i.stderr, i.rc) if i.rc is not None else "hang"), crash_excerpt(i.stderr))
    want = i.wanted(facts, name)
    if cxx == "clang++":    # built without OpenMP
        want["max threads"] = "1"
    # ---- files
    new = sorted(f for f in i.found if f not in i.files)
    changed = sorted(f for f in i.files if i.found.get(f) != i.files[f])
    allowed = set()
    if kind in ("run", "response"):
        allowed = {out, stem + ".log"} | ({stem + ".rsp"} if kind == "run" else set())
        if name == apps.MOMENTUM:
            allowed.add(stem + "_matrix.blaze")
        lost = sorted(f for f in allowed if f not in i.found)
        if lost:
            return say("no-file", "writes no file %s" % ", ".join(lost))
        same = [f for f in (out, stem + ".log") if f in i.files and i.found[f] == i.files[f]]
        if same:
            return say("no-file", "leaves the old file %s" % same[0])
    odd = [f for f in new + changed if f not in allowed]
    if odd:
        return say("other-file", "creates, changes or removes %s" % ", ".join(odd))
    ctx.count("file_sets")
    # ---- facts
    if kind == "version":
        if compare(ctx, say, "--version", facts_in(i.stdout.splitlines()), want, FACTS, "facts"):
            ctx.count("versions")
        return
    if kind == "help":
        return judge_help(ctx, say, name, i.stdout)
    header = [l for l in i.found[out].splitlines() if l.startswith("#")]
    if not compare(ctx, say, "the header", facts_in(header), want, FACTS, "facts"):
        return
    log = i.found[stem + ".log"].splitlines()
    if not compare(ctx, say, "the log", facts_in(log), want, [f for f in FACTS if f not in ("program", "max threads")],
                   "logged_facts"):
        return
    # ---- options in the log
    logged = [m.groups() for m in (re.match(r"\[\w+\] \t([A-Za-z_]\w*) = (.*)$", l) for l in log) if m]
    used = {k: d for k, t, d in options_of(name)}
    used.update({k: float(v) for k, v in given})
    for k, v in used.items():
        values = [x for y, x in logged if y == k]
        # some of them are logged again when they are used
        if not values or any(not apps.ENDING.match(x) or abs(float(x) - v) > 1e-5 * abs(v) for x in values):
            return say("log-option", "the log gives %s as %r, the run used %r" % (k, values, v))
    if (("out", out) not in logged):
        return say("log-option", "the log does not name the output file %s" % out)
    # ---- the time the run took: from about the first reading of a clock to about the last
    times = [m.group(1) for m in (re.search(r"Execution time: (.*)$", l) for l in log) if m]
    read = i.readings()
    m = re.match(r"([0-9.]+(?:e[-+]?\d+)?) ?s$", times[0].strip()) if len(times) == 1 else None
    if not m:
        return say("log-time", "the log gives the execution time as %r" % times)
    took = float(m.group(1))
    if not any(abs(b - a - took) <= 1e-5 * took + 1e-6 for a in read[:3] for b in read[-3:]):
        return say("log-time", "the log gives the execution time as %s, but the clock was read as %s" % (times[0], read))
    ctx.count("times")
    # ---- numbers in the log
    if any("{}" in l for l in log):
        return say("log-blank", "the log has a line with a number left out: %s" % [l for l in log if "{}" in l][0])
    sites = used["Nx"] * used["Ny"] if "Nx" in used else used["N"]
    for l in log:
        m = re.search(r"Init periodic .* N = (\d+) sites", l)
        if m and int(m.group(1)) != sites:
            return say("log-sites", "%s, but there are %d sites" % (l, sites))
        m = re.search(r"(\d+) out of (\d+) matrix elements are non-zero \((.*)% filling\)", l)
        if m:
            size, nonzero = matrix_size(name, used)
            if int(m.group(2)) != size * size or (nonzero is not None and int(m.group(1)) != nonzero):
                return say("log-filling", "%s, but the matrix is %dx%d%s" % (
                    l, size, size, "" if nonzero is None else " with %d elements" % nonzero))
            exact = 100. * int(m.group(1)) / int(m.group(2))
            if abs(float(m.group(3)) - exact) > max(1e-5, 1e-5 * exact):
                return say("log-filling", l)
            ctx.count("matrices_logged")
        ctx.count("log_lines")


def matrix_size(name, used):
    """rows of the matrix and the number of its non-zero elements, if that is easily told"""
    n = int(used["Nx"] * used["Ny"] if "Nx" in used else used["N"])
    if name == apps.MOMENTUM:
        return 1 + n * n, None
    kinetic = "kinetic" in name
    if not used["J"] or (not kinetic and not used["U"]):
        return n if kinetic else n + n ** 3, None
    if "Nx" in used:
        nx, ny = int(used["Nx"]), int(used["Ny"])
        near = [[(i // ny + 1) % nx * ny + i % ny, (i // ny - 1) % nx * ny + i % ny, i // ny * ny + (i % ny + 1) % ny,
                 i // ny * ny + (i % ny - 1) % ny] for i in range(n)]
    else:
        near = [[(i + 1) % n, (i - 1) % n] for i in range(n)]
    J, U = used["J"], used["U"] if not kinetic else 0.
    if n > 4:       # every row alike: no two hops, nor a hop and the interaction, meet
        if any(len(set(x)) < len(x) or i in x for i, x in enumerate(near)):
            return n if kinetic else n + n ** 3, None
        z = len(near[0])
        return (n, n * z) if kinetic else (n + n ** 3, n * (z + 2) + n ** 3 * (3 * z + 1) + n)
    count = 0
    for i in range(n):
        row = {}
        for x in near[i]:
            row[x] = row.get(x, 0.) - J
        if not kinetic:
            row[i] = row.get(i, 0.) + U / 2
            row["3"] = U / 2
        count += sum(abs(v) > 1e-10 for v in row.values())
    if kinetic:
        return n, count
    for i in range(n):
        for j in range(n):
            for k in range(n):
                row = {(i, j, k): U / 2}
                for sites, sign in ((((x, j, k) for x in near[i]), -J), (((i, x, k) for x in near[j]), -J),
                                    (((i, j, x) for x in near[k]), J)):
                    for at in sites:
                        row[at] = row.get(at, 0.) + sign
                if i == j == k:
                    row["1"] = U / 2
                count += sum(abs(v) > 1e-10 for v in row.values())
    return n + n ** 3, count


def judge_help(ctx, say, name, text):
    lines = text.splitlines()
    if not lines or lines[0].strip() != name or not any(name + " [options]" in l for l in lines):
        return say("help-name", "--help does not begin with the program's name: %r" % text[:80])
    entries = {}
    for l in lines:
        m = re.match(r"\s+--(\w+)(?: arg)?(?: \(=(.*?)\))?(?:\s+(.*))?$", l)
        if m:
            entries.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    want = {k: d for k, t, d in options_of(name)}
    want.update(out=name + ".txt", response_file=None, help=None, version=None)
    if sorted(entries) != sorted(want) or any(len(x) != 1 for x in entries.values()):
        return say("help-options", "--help lists the options %s instead of %s" % (sorted(entries), sorted(want)))
    for k, d in want.items():
        got = entries[k][0][0]
        ok = got is None if d is None else got == d if isinstance(d, str) else \
            got is not None and apps.ENDING.match(got) and abs(float(got) - d) <= 1e-6 * abs(d)
        if not ok:
            return say("help-default", "--help gives %s as the default of %s instead of %s" % (got, k, d))
    others = set(re.findall(r"--(\w+)", text)) - set(want)
    if others:
        return say("help-options", "--help mentions options that do not exist: %s" % sorted(others))
    ctx.count("helps")
