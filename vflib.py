"""Driver library of the checks: building harnesses from /repo, running them under the watchdog,
verdicts, known findings, evidence."""
import json, os, re, resource, shlex, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SHIM = os.path.join(ROOT, "shim")

SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
BASE = ["-std=c++14", "-fopenmp", "-include", "cstdint", "-w"]
INCLUDES = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(SHIM, "blaze"),
            "-I" + os.path.join(SHIM, "spdlog"), "-I" + os.path.join(ROOT, "harness"),
            "-isystem", "/usr/include/eigen3", "-I" + os.path.join(SHIM, "gen")]
BOOST = ["-lboost_program_options", "-lboost_filesystem", "-lboost_system"]
STALL = 45          # seconds in one case before the watchdog steps in
STALL_RERUN = 90    # seconds the single case gets when it is run again alone


class Inconclusive(Exception):
    """the check can give no answer (build failure, too few events ...): exit code 2"""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.violations = []      # dicts: key, message, replay (dict)
        self.counters = {}
        self.required = {}
        self.samples = []
        self.sigs = set()
        self.evaluations = 0
        self.assumptions = []
        self.rule = ""
        self.extra = {}
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop, dir=os.environ.get("TMPDIR", "/tmp"))

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def violation(self, key, message, **replay):
        self.violations.append({"key": key, "message": message, "replay": replay})

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, desc, nontrivial=True, sample=False):
        self.evaluations += 1
        if nontrivial:
            self.sigs.add(str(desc))
            if sample or len(self.samples) < 3:
                self.samples.append(str(desc)[:600])

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, file=sys.stderr, flush=True)


def env_for(threads=None, extra=None):
    e = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/root",
         "LANG": "C", "LOGNAME": "root", "LC_ALL": "C",
         "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=4000:"
                         "detect_stack_use_after_return=1:strict_init_order=1:handle_abort=0",
         "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1:halt_on_error=1",
         "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=5:detect_deadlocks=1",
         "OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false"}
    if threads:
        e["OMP_NUM_THREADS"] = str(threads)
    if extra:
        e.update(extra)
    return e


LARGEST_FILE = 400 << 20


def no_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    # a program that writes without end must not fill the disk
    resource.setrlimit(resource.RLIMIT_FSIZE, (LARGEST_FILE, LARGEST_FILE))


class Finished:
    """how a program ended: returncode None if it did not, or wrote without end"""

    def __init__(self, returncode, stdout, stderr):
        self.returncode, self.stdout, self.stderr = returncode, stdout, stderr


def bounded(cmd, timeout, **options):
    """runs a program that may not end or may print without end"""
    with tempfile.TemporaryFile() as o, tempfile.TemporaryFile() as e:
        try:
            rc = subprocess.run(cmd, stdout=o, stderr=e, stdin=subprocess.DEVNULL, timeout=timeout, preexec_fn=no_core,
                                **options).returncode
        except subprocess.TimeoutExpired:
            rc = None
        if rc is None or rc == -signal.SIGXFSZ:
            return Finished(None, b"", b"")
        o.seek(0)
        e.seek(0)
        return Finished(rc, o.read(), e.read())


def ending(p):
    """description of the way a program failed"""
    if p.returncode is None:
        return "it does not terminate, or writes without end"
    err = p.stderr.decode("utf8", "replace")
    return "%s\n%s" % (classify(err, p.returncode), crash_excerpt(err))


def compile_many(ctx, jobs, timeout=600, cxx="g++"):
    """jobs: list of (output, source, flags list, link flags list); compiled in parallel."""
    procs, queue, running = [], list(jobs), []
    deadline = time.time() + timeout
    width = 8
    while queue or running:
        while queue and len(running) < width:
            out, src, flags, link = queue.pop(0)
            log = open(out + ".log", "w")
            cmd = [cxx] + flags + [src, "-o", out] + link
            running.append((out, src, cmd, subprocess.Popen(cmd, stdout=log, stderr=log,
                                                            env=env_for(), preexec_fn=no_core)))
        for j in list(running):
            if j[3].poll() is not None:
                running.remove(j)
                if j[3].returncode != 0:
                    if j[1].startswith(os.path.join(ROOT, "harness")) and "-DVF_PLAIN" not in j[2]:
                        # once more with the usual template arguments only (harness/vf.hpp)
                        queue.append((j[0], j[1], j[2][1:j[2].index(j[1])] + ["-DVF_PLAIN"],
                                      j[2][j[2].index("-o") + 2:]))
                        note = "%s was built with the usual template arguments only" % os.path.basename(j[1])
                        if note not in ctx.assumptions:
                            ctx.assumptions.append(note)
                        continue
                    for k in running:
                        k[3].kill()
                    text = open(j[0] + ".log").read()
                    raise Inconclusive("cannot compile %s:\n%s\n%s" % (
                        j[1], " ".join(shlex.quote(c) for c in j[2]), text[:6000]))
        if time.time() > deadline:
            for k in running:
                k[3].kill()
            raise Inconclusive("compilation timed out")
        time.sleep(0.02)


SAN_PATTERNS = [
    (re.compile(r"AddressSanitizer: ([\w-]+)"), "asan-%s"),
    (re.compile(r"ThreadSanitizer: ([\w -]+?)(?: on| \(|\n)"), "tsan-%s"),
    (re.compile(r"runtime error: ([a-z\-]+(?: [a-z\-]+){0,3})"), "ubsan-%s"),
    (re.compile(r"Assertion [`'](.{1,120}?)' failed"), "assert-%s"),
    (re.compile(r"terminate called after throwing an instance of '([^']+)'"), "uncaught-%s"),
    (re.compile(r"terminate called"), "terminate"),
]


def classify(stderr, rc):
    for pat, fmt in SAN_PATTERNS:
        m = pat.search(stderr)
        if m:
            return (fmt % m.group(1)) if "%" in fmt else fmt
    if rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            pass
    return "exit-%d" % rc


def crash_excerpt(stderr):
    lines = stderr.splitlines()
    keep = [i for i, l in enumerate(lines) if re.search(
        r"ERROR: |WARNING: ThreadSan|^  (?:Previous )?(?:[Aa]tomic )?[Ww]rite|^  (?:Previous )?[Rr]ead|runtime error|Assertion|terminate called|what\(\)|^\s+#[0-9] ", l)]
    return "\n".join(lines[i] for i in keep[:14]) or "\n".join(lines[-10:])


def harness_options(path):
    o = {"shards": "4", "threads": "1,2,5,%d" % ((os.cpu_count() or 8) + 3), "sanitize": "1", "rule": "", "assume": "", "link": "",
         "flags": ""}
    for line in open(path):
        m = re.match(r"//\s*vf:(\w+)=(.*)", line.strip())
        if m:
            o[m.group(1)] = (o[m.group(1)] + "; " if m.group(1) in ("assume",) and o["assume"]
                             else "") + m.group(2).strip() if m.group(1) in ("assume",) \
                else (o[m.group(1)] + " " if m.group(1) == "rule" and o["rule"] else "") \
                + m.group(2).strip()
    return o


def read_progress(path):
    try:
        with open(path, "rb") as f:
            raw = f.read(4096).split(b"\0")[0].decode("utf8", "replace")
    except OSError:
        return None
    parts = raw.split("\n", 2)
    if len(parts) < 3:
        return None
    return parts[0], parts[1], parts[2].rstrip("\n")


def run_single(ctx, binary, group, index, threads, timeout):
    out = os.path.join(ctx.scratch, "single.json")
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.Popen([binary, "--seed", str(ctx.seed), "--tier", ctx.tier, "--out", out,
                          "--only", "%s:%s" % (group, index)], stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE, env=env_for(threads), preexec_fn=no_core,
                         cwd=ctx.scratch)
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return "hang", "", None
    return p.returncode, err.decode("utf8", "replace"), out


def build_plain(ctx, binary, source, opts, extra_flags, extra_link):
    flags = BASE + (SAN if opts["sanitize"] == "1" else ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"]) \
        + opts["flags"].split() + list(extra_flags) + INCLUDES
    compile_many(ctx, [(binary, source, flags, opts["link"].split() + list(extra_link))])


def build_tsan(ctx, jobs):
    """programs instrumented with ThreadSanitizer, running on the OpenMP stand-in;
    jobs: (binary, source, extra flags, link flags)"""
    flags = BASE + ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"] + INCLUDES
    gomp = os.path.join(ctx.scratch, "gomp.o")
    compile_many(ctx, [(b + ".o", s, flags + f + ["-c"], []) for b, s, f, _ in jobs]
                 + [(gomp, os.path.join(SHIM, "gomp", "gomp.cpp"),
                     ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=thread", "-c"], [])])
    compile_many(ctx, [(b, b + ".o", ["-fsanitize=thread", "-pthread"], [gomp] + l) for b, _, _, l in jobs])


def probe(ctx, reason=None):
    """the monitor of this property cannot be built: if the small programs in probes/, which only use the
    documented interface, cannot be built either, the property is violated, else there is no answer;
    without a reason only those that are built with every run"""
    failed = False
    d = os.path.join(ROOT, "probes")
    for f in sorted(os.listdir(d)):
        path = os.path.join(d, f)
        text = open(path).read()
        props = re.search(r"vf:properties=(\S+)", text)
        if (reason or "vf:always" in text) and ctx.prop in props.group(1).split(","):
            p = subprocess.run(["g++"] + BASE + ["-O0", "-fsyntax-only"] + INCLUDES + [path], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=env_for(), timeout=300)
            if p.returncode:
                errors = [l for l in p.stdout.decode("utf8", "replace").splitlines() if "error" in l]
                ctx.violation("unusable:" + f, "probes/%s, a use of the documented interface, does not compile: %s" % (
                    f, (errors or ["?"])[0][:400]), probe=f)
                failed = True
    if reason and not failed:
        raise Inconclusive(reason)


def run_harness(ctx, source, only=None, extra_flags=(), extra_link=(), name=None):
    opts = harness_options(source)
    name = name or os.path.splitext(os.path.basename(source))[0]
    binary = os.path.join(ctx.scratch, name)
    try:
        if opts["sanitize"] == "thread":
            build_tsan(ctx, [(binary, source, opts["flags"].split() + list(extra_flags),
                              opts["link"].split() + list(extra_link))])
        else:
            build_plain(ctx, binary, source, opts, extra_flags, extra_link)
    except Inconclusive as e:
        if "cannot compile" not in str(e):
            raise
        probe(ctx, str(e))
        return
    if not only:
        probe(ctx)
    ctx.log("built", name)
    if opts["rule"]:
        ctx.rule = (ctx.rule + " " + opts["rule"]).strip()
    if opts["assume"]:
        ctx.assumptions += [a.strip() for a in opts["assume"].split(";")]
    threads = opts["threads"].split(",")
    if only:
        group, index, th = only
        rc, err, out = run_single(ctx, binary, group, index, th, STALL_RERUN)
        if rc == "hang":
            ctx.violation("hang:" + group, "case does not finish", group=group, index=int(index),
                          threads=th)
        else:
            absorb(ctx, rc, err, out, th, None)
        return
    n = 8 if ctx.thorough else int(opts["shards"])
    def shard(k, patience):
        out = os.path.join(ctx.scratch, "%s.%d.json" % (name, k))
        prog = os.path.join(ctx.scratch, "%s.%d.progress" % (name, k))
        errf = os.path.join(ctx.scratch, "%s.%d.err" % (name, k))
        th = threads[k % len(threads)]
        p = subprocess.Popen([binary, "--seed", str(ctx.seed), "--tier", ctx.tier, "--out", out,
                              "--progress", prog, "--shard", "%d/%d" % (k, n)],
                             stdout=subprocess.DEVNULL, stderr=open(errf, "w"),
                             env=env_for(th), preexec_fn=no_core, cwd=ctx.scratch)
        return {"k": k, "p": p, "out": out, "prog": prog, "err": errf, "th": th, "last": None,
                "since": time.time(), "patience": patience}
    live = [shard(k, STALL) for k in range(n)]
    while live:
        time.sleep(0.05)
        for s in list(live):
            rc = s["p"].poll()
            if rc is not None:
                live.remove(s)
                absorb(ctx, rc, open(s["err"], errors="replace").read(), s["out"], s["th"],
                       read_progress(s["prog"]))
                continue
            cur = read_progress(s["prog"])
            if cur != s["last"]:
                s["last"], s["since"] = cur, time.time()
            elif time.time() - s["since"] > s["patience"]:
                s["p"].kill()
                s["p"].wait()
                live.remove(s)
                if not cur or not cur[0]:
                    raise Inconclusive("harness stalled outside a case")
                rc, err, out = run_single(ctx, binary, cur[0], cur[1], s["th"], STALL_RERUN)
                if rc == "hang":
                    ctx.violation("hang:" + cur[0], "case does not finish within %d s alone; case: %s"
                                  % (STALL_RERUN, cur[2]), group=cur[0], index=int(cur[1]),
                                  threads=s["th"])
                elif rc == 0 and s["patience"] == STALL:
                    # a busy machine, perhaps: the shard starts over, with more patience
                    ctx.log("case %s:%s stalled, but finished alone" % (cur[0], cur[1]))
                    live.append(shard(s["k"], 3 * STALL))
                elif rc == 0:
                    raise Inconclusive("case %s:%s stalled twice, finished when run alone"
                                       % (cur[0], cur[1]))
                else:
                    absorb(ctx, rc, err, out, s["th"], cur)


def absorb(ctx, rc, err, out, threads, progress):
    if rc in (0, 1) and os.path.exists(out):
        try:
            r = json.load(open(out, errors="replace"))
        except ValueError:
            raise Inconclusive("unreadable result file")
        for v in r["violations"]:
            ctx.violation(v["key"], v["message"], group=v["group"], index=v["index"],
                          threads=threads)
        for k, v in r["counters"].items():
            ctx.count(k, v)
        for k, v in r["required"].items():
            ctx.required[k] = v
        ctx.samples += r["samples"]
        ctx.sigs.update(r["sigs"])
        ctx.evaluations += r["evaluations"]
        return
    if rc == 3:
        raise Inconclusive("harness usage error:\n" + err[-2000:])
    kind = classify(err, rc)
    group, index, desc = progress if progress else ("?", "-1", "")
    if rc in (0, 1) and kind.startswith("exit"):
        raise Inconclusive("harness left without a result (code %d):\n%s" % (rc, err[-2000:]))
    if rc == -9 and kind == "SIGKILL":
        raise Inconclusive("harness was killed from outside")
    ctx.violation("crash:%s:%s" % (group, kind),
                  "%s in case %s:%s\n  case: %s\n%s" % (kind, group, index, desc,
                                                        crash_excerpt(err)),
                  group=group, index=int(index) if index.lstrip("-").isdigit() else -1,
                  threads=threads)


def known_findings(prop):
    """lines `finding: property=<id> key=<key> <what>`; `fixed:` lines suppress nothing"""
    res = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def finish(ctx, replaying=False):
    known = known_findings(ctx.prop)
    seen_known, fresh = set(), []
    for v in ctx.violations:
        k = [x for x in known if x[0] == v["key"].replace(" ", "_")]
        if k:
            seen_known.add(k[0])
        else:
            fresh.append(v)
    if not replaying:
        for k in known:
            print("KNOWN-FINDING: property=%s %s%s" % (ctx.prop, k[1], "" if k in seen_known
                                                       else " (not met in this run)"))
    cov = {"evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.sigs),
           "rule": ctx.rule or "one case per generated input; distinct by its description",
           "samples": ctx.samples[:12], "events": ctx.counters}
    cov.update(ctx.extra)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration",
          "coverage": cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(fresh)}
    if not replaying and not os.environ.get("VF_NO_EVIDENCE"):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", ".%s.%d.tmp" % (ctx.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(ROOT, "evidence", ctx.prop + ".json"))
    if fresh:
        v = fresh[0]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s.json" % ctx.prop)
        if not replaying:
            with open(path, "w") as f:
                json.dump({"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed,
                           "violations": fresh}, f, indent=1)
        for w in fresh[:5]:
            print(ascii("[%s] %s" % (w["key"], w["message"]))[1:-1].replace("\\n", "\n"))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        return 1
    if not replaying:
        short = ["%s: %d < %d" % (k, ctx.counters.get(k, 0), n) for k, n in ctx.required.items()
                 if ctx.counters.get(k, 0) < n]
        if short:
            print("inconclusive: too few events (%s)" % ", ".join(short))
            return 2
        if not ctx.evaluations or not ctx.sigs:
            print("inconclusive: nothing was observed")
            return 2
    print("%s held on %d cases (%d distinct, non-trivial), seed %d, %s, %.1f s" % (
        ctx.prop, ctx.evaluations, len(ctx.sigs), ctx.seed, ctx.tier, time.time() - ctx.t0))
    return 0
