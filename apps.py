"""Building, running and judging the time-evolution programs of src/hubbard (C37, C38, C39)."""
import math, os, random, re, signal, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
from vflib import (ROOT, REPO, BASE, SAN, INCLUDES, BOOST, Inconclusive, compile_many, env_for, classify,
                   crash_excerpt, no_core)

COMMON = [("J", float, 1.), ("dt", float, 0.01), ("t_end", float, 10.), ("measurement_interval", int, 100)]
U = [("U", float, 1.)]
FILL = [("filling_factor", float, 0.5)]
N = [("N", int, 16)]
PI2 = math.pi / 2
# name: (kind of the reference simulation, options)
PROGRAMS = {
    "hubbard_real_1d_rk4": ("occupation", N + COMMON + U + FILL),
    "hubbard_real_1d_rk4_jump": ("jump", N + COMMON + U + FILL),
    "hubbard_real_2d_rk4_jump": ("jump2d", [("Nx", int, 4), ("Ny", int, 4)] + COMMON + U
                                 + [("kx", float, PI2), ("ky", float, PI2)]),
    "hubbard_real_1d_kinetic_rk4": ("kinetic", N + COMMON + FILL),
    "hubbard_real_1d_rk4_coefficients": ("coefficients", N + COMMON + U),
    "hubbard_real_1d_kinetic_rk4_coefficients": ("kinetic_coefficients", N + COMMON),
}
MOMENTUM = "hubbard_momentum_1d_rk4"
TRIVIAL = "hubbard_trivial"
ENDING = re.compile(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$")


def build(ctx, names, flags, suffix=""):
    jobs, paths = [], {}
    for n in names:
        paths[n] = os.path.join(ctx.scratch, n + suffix)
        jobs.append((paths[n], os.path.join(REPO, "src/hubbard", n + ".cpp"), BASE + flags + INCLUDES, BOOST))
    compile_many(ctx, jobs)
    return paths


def build_oracle(ctx):
    path = os.path.join(ctx.scratch, "simulate_oracle")
    compile_many(ctx, [(path, os.path.join(ROOT, "harness", "simulate_oracle.cpp"),
                        ["-O2", "-std=c++17", "-I" + os.path.join(ROOT, "harness")], [])])
    return path


def simulate(ctx, oracle, jobs, workers=8):
    """jobs: {id: line of parameters}; returns {id: {step: (size, values)}}"""
    ids = sorted(jobs)
    parts = [ids[k::workers] for k in range(workers)]

    def one(part):
        text = "".join("%s %s\n" % (i, jobs[i]) for i in part)
        p = subprocess.run([oracle], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=env_for(1), timeout=700)
        if p.returncode != 0:
            raise Inconclusive("reference simulator failed: " + p.stderr.decode()[-2000:])
        return p.stdout.decode().splitlines()
    result = {i: {} for i in ids}
    with ThreadPoolExecutor(workers) as pool:
        for lines in pool.map(one, [p for p in parts if p]):
            for l in lines:
                f = l.split()
                result[f[0]][int(f[1])] = (float(f[2]), [float(x) for x in f[3:]])
    return result


class Run:
    """one invocation in a directory of its own"""

    def __init__(self, where, args, out="result.txt", files=None, threads=1, old=None):
        self.where, self.args, self.out, self.threads = where, args, out, threads
        os.makedirs(where)
        for name, text in (files or {}).items():
            with open(os.path.join(where, name), "w") as f:
                f.write(text)
        if old is not None:
            with open(os.path.join(where, out), "w") as f:
                f.write(old)

    hung, most_hung = 0, 3   # programs that never end would use up the time of the whole check
    lock = threading.Lock()

    def execute(self, binary, timeout=150):
        self.rc, self.stderr, self.stdout, self.text, self.skipped = None, "", "", None, Run.hung >= Run.most_hung
        if self.skipped:
            return self
        # output to files: the programs log a lot
        with open(os.path.join(self.where, "stdout"), "wb") as o, open(os.path.join(self.where, "stderr"), "wb") as e:
            try:
                self.rc = subprocess.run([binary] + self.args, stdout=o, stderr=e, stdin=subprocess.DEVNULL,
                                         cwd=self.where, env=env_for(self.threads), timeout=timeout,
                                         preexec_fn=no_core).returncode
                if self.rc == -signal.SIGXFSZ:
                    self.rc = None
            except subprocess.TimeoutExpired:
                pass
        path = os.path.join(self.where, self.out)
        if self.rc is None:
            with Run.lock:
                Run.hung += 1
            for name in ("stdout", "stderr", self.out):   # may be huge
                if os.path.exists(os.path.join(self.where, name)):
                    os.remove(os.path.join(self.where, name))
            return self
        self.stderr = open(os.path.join(self.where, "stderr"), errors="replace").read()
        self.stdout = open(os.path.join(self.where, "stdout"), errors="replace").read()
        self.text = open(path, errors="replace").read() if os.path.exists(path) else None
        return self

    def failure(self):
        if self.skipped:
            return "hang", "not run, because %d earlier runs did not terminate" % Run.hung
        if self.rc is None:
            return "hang", "does not terminate, or writes without end"
        if self.rc != 0:
            return "crash:" + classify(self.stderr, self.rc), "exit status %d\n%s" % (
                self.rc, crash_excerpt(self.stderr))
        if self.text is None:
            return "no-output", "wrote no output file"
        return None

    def parse(self):
        """(header lines, list of rows of numbers as text) or a complaint"""
        if not self.text.endswith("\n"):
            return None, "the last line of the output is not terminated"
        header, rows = [], []
        for k, line in enumerate(self.text[:-1].split("\n")):
            if line.startswith("#"):
                if rows:
                    return None, "line %d is a comment after the first measurement" % k
                header.append(line)
            else:
                rows.append(line.split("\t"))
                if not all(ENDING.match(x) or x in ("inf", "-inf", "nan", "-nan") for x in rows[-1]):
                    return None, "line %d is no complete measurement: %r" % (k, line[:200])
        return header, rows


def header_options(header):
    """[(key, value)] of the options recorded in the header"""
    r = []
    for l in header:
        m = re.match(r"#\t([A-Za-z_]\w*) = (.*)$", l)
        if m:
            r.append((m.group(1), m.group(2)))
    return r


def number_text(rng, x, integer=False):
    if integer:
        return str(x)
    forms = [repr(x), "%.17g" % x, "%.16e" % x]
    if x >= 0 and rng.random() < 0.2:
        forms.append("+" + repr(x))
    if x == int(x) and abs(x) < 1e9:
        forms += ["%d" % x, "%d." % x]
    t = rng.choice(forms)
    return t if float(t) == x else repr(x)


def schedule(dt, t_end, interval):
    """(steps with a measurement, an optional further one, reached by rounding only)"""
    interval = max(1, interval)
    exact = t_end / dt
    near = abs(exact - round(exact)) < 1e-6 * max(1., abs(exact))
    n_end = max(0, int(round(exact)) if near else int(math.ceil(exact)))
    steps = list(range(0, n_end + 1, interval))
    extra = n_end + 1 if near and n_end > 0 and (n_end + 1) % interval == 0 else None
    return steps, extra


def arguments(rng, given, style=None):
    """command line for the given [(key, text)]"""
    r, items = [], list(given)
    rng.shuffle(items)
    for k, v in items:
        if rng.random() < 0.3 and not v.startswith("-"):
            r += ["--" + k, v]
        else:
            r.append("--%s=%s" % (k, v))
    return r


def in_parallel(jobs, workers=8):
    with ThreadPoolExecutor(workers) as pool:
        return list(pool.map(lambda f: f(), jobs))
