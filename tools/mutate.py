#!/usr/bin/env python3
"""Systematic small changes: mutates the repository's sources token by token (at most one change per line, a random
sample) and runs the checks of the properties anchored in the file, until one reports it. Prints the survivors.
    mutate.py SEED COUNT [path prefix...]"""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
W = "/tmp/mut"
COST = {"C36": 99, "C35": 9, "C43": 8, "C07": 7, "C37": 6, "C38": 2.5, "C39": 2.6, "C42": 3}
SWAPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
         (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" && ", " || "), (" || ", " && "),
         (" += ", " -= "), (" -= ", " += "), ("++", "--"), ("true", "false"), ("false", "true"), (".first", ".second"),
         (".second", ".first"), ("continue;", "break;"), ("break;", "continue;"), ("std::min", "std::max"),
         ("std::max", "std::min"), (" ? ", " ? !"), ("if(", "if(!("), (" % ", " / "), ("conj(", "("), ("'\\n'", "' '"),
         ("index1", "index2"), ("index2", "index1"), ("begin()", "end()"), ("(i, j)", "(j, i)"), ("i, j", "j, i"), ("0.5", "0.25"),
         (" 0;", " 1;"), (" 1;", " 0;"), ("(0)", "(1)"), ("[0]", "[1]"), ("0.", "1."), ("1.", "2."), ("2.", "1."), ("-1.", "1."),
         (" 1)", " 2)"), (" 2", " 3"), ("Nx", "Ny"), ("Ny", "Nx"), ("rows()", "columns()"), ("return true", "return false"),
         ("sin(", "cos("), ("cos(", "sin("), ("J", "U"), ("U", "J"), ("real()", "imag()"), ("imag()", "real()"), ("floor", "ceil"),
         ("ceil", "floor"), ("round", "floor"), ("dx", "dy"), ("dy", "dx"), ("uint64_t", "uint16_t"), ("double", "float")]


def sh(c):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf8", "replace")


def anchored():
    m = {}
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        d = json.loads(l)
        files = list(d["anchors"]["files"]) + [re.sub(r":.*", "", x["where"]) for x in d["anchors"]["mechanism"]]
        for f in set(files):
            m.setdefault(f, set()).add(d["id"])
    return m


def checks(f, m):
    c = set(m.get(f, ()))
    if not c:   # those anchored nearby
        for g, v in m.items():
            if os.path.dirname(g) == os.path.dirname(f) or g == os.path.dirname(f) + ".hpp":
                c |= v
    if f.startswith("src/hubbard/hubbard_") and "commutators" not in f:
        c |= {"C37", "C38", "C39", "C42"}
    if f.startswith("src/hubbard/include"):
        c |= {"C37", "C38", "C39", "C42", "C43"}
    c.discard("C36")
    return sorted(c, key=lambda x: (COST.get(x, 1), x))


def mutants(rng, prefixes):
    files = subprocess.check_output(["git", "-C", REPO, "ls-files", "include", "src"]).decode().split()
    res = []
    for f in files:
        if not f.endswith((".hpp", ".cpp")) or (prefixes and not f.startswith(tuple(prefixes))):
            continue
        lines = open(os.path.join(REPO, f)).read().split("\n")
        for n, l in enumerate(lines):
            t = l.strip()
            if not t or t.startswith(("//", "#", "*", "/*", "template", "using", "static_assert", "namespace")):
                continue
            options = []
            for a, b in SWAPS:
                for p in [x.start() for x in re.finditer(re.escape(a), l)]:
                    if a[0].isalpha() and p and (l[p - 1].isalnum() or l[p - 1] == "_"):
                        continue
                    if a[-1].isalpha() and l[p + len(a):p + len(a) + 1].isalnum():
                        continue
                    new = l[:p] + b + l[p + len(a):]
                    if a == "if(":
                        k = l.rfind(")")
                        new = l[:p] + b + l[p + 3:k] + ")" + l[k:]
                    options.append(new)
            if t.endswith(";") and not t.startswith(("return", "const ", "static", "typedef", "std::", "}")) and "(" in t:
                options.append("")
            if options:
                res.append((f, n, l, rng.choice(options)))
    return res


def one(job):
    k, f, n, old, new, todo = job
    d = os.path.join(W, "m%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    sh("git clone -q %s %s" % (REPO, d))
    try:
        p = os.path.join(d, f)
        lines = open(p).read().split("\n")
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        answers = []
        for c in todo:
            rc, out = sh("VF_REPO=%s VF_NO_EVIDENCE=1 timeout 900 python3 %s/run.py %s" % (d, ROOT, c))
            if rc == 1:
                return job, "caught " + c
            answers.append(rc)
            if rc == 2 and answers.count(2) == 2:
                break
        return job, "no answer" if 2 in answers else "SURVIVED " + " ".join(todo)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    rng = random.Random(seed)
    m = anchored()
    all_of = mutants(rng, sys.argv[3:])
    rng.shuffle(all_of)
    jobs = [(k,) + x + (checks(x[0], m),) for k, x in enumerate(all_of[:count])]
    with ThreadPoolExecutor(3) as e:
        for (k, f, n, old, new, todo), r in e.map(one, jobs):
            print("%d %s:%d %s" % (k, f, n + 1, r), flush=True)
            if not r.startswith("caught"):
                print("   -%s\n   +%s" % (old.strip(), new.strip()), flush=True)


if __name__ == "__main__":
    main()
