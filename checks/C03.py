"""C03: the output of the two commutator programs is parsed and evaluated on a Fock space."""
import itertools, os, random, re
from vflib import REPO, BASE, SAN, INCLUDES, BOOST, Inconclusive, compile_many, bounded, ending, env_for

OP = re.compile(r"c(\^†)?_\{([^{},]+),([↑↓])\}")
DELTA = re.compile(r"δ_\{([^{},]+),([^{},]+)\}")


class Malformed(Exception):
    pass


def parse_term(text):
    """prefactor ⋅ operators -> (value, [(a,b)...], [(creator, symbol, spin)...])"""
    parts = text.split(" ⋅ ")
    if len(parts) != 2:
        raise Malformed("no single ' ⋅ ' in " + repr(text))
    pre, ops = parts
    m = re.match(r"[-+0-9.e]*", pre)
    num, rest = m.group(0), pre[m.end():].strip()
    if num in ("", "+"):
        value = 1.
        if not rest:
            raise Malformed("empty prefactor in " + repr(text))
    elif num == "-":
        value = -1.
    else:
        try:
            value = float(num)
        except ValueError:
            raise Malformed("prefactor " + repr(pre))
    deltas = []
    while rest:
        m = DELTA.match(rest)
        if not m:
            raise Malformed("delta expected at " + repr(rest))
        deltas.append((m.group(1), m.group(2)))
        rest = rest[m.end():].strip()
    operators = []
    for word in ops.split(" ") if ops else []:
        m = OP.fullmatch(word)
        if not m:
            raise Malformed("operator expected: " + repr(word))
        operators.append((m.group(1) is not None, m.group(2), m.group(3) == "↑"))
    return value, deltas, operators


def apply(product, mask):
    sign = 1
    for creator, mode in reversed(product):
        bit = 1 << mode
        if bool(mask & bit) == creator:
            return 0, 0
        if bin(mask & (bit - 1)).count("1") & 1:
            sign = -sign
        mask ^= bit
    return sign, mask


def bind(ops, asg):
    return [(c, 2 * asg[s] + (1 if up else 0)) for c, s, up in ops]


def deviation(lhs, rhs, produced, symbols, sites, asg):
    """largest matrix element of sum [lhs, rhs] - produced under the assignment"""
    total = []
    for a in lhs:
        for b in rhs:
            x, y = bind(a[2], asg), bind(b[2], asg)
            total.append((a[0] * b[0], x + y))
            total.append((-a[0] * b[0], y + x))
    for v, deltas, ops in produced:
        if all(asg[p] == asg[q] for p, q in deltas):
            total.append((-v, bind(ops, asg)))
    used = sorted({m for _, p in total for _, m in p})
    small = {m: i for i, m in enumerate(used)}
    total = [(w, [(c, small[m]) for c, m in p]) for w, p in total]
    dev = 0.
    for mask in range(1 << len(used)):
        out = {}
        for w, p in total:
            s, t = apply(p, mask)
            if s:
                out[t] = out.get(t, 0.) + w * s
        dev = max([dev] + [abs(v) for v in out.values()])
    return dev


def T(*ops):
    return (1., [], list(ops))


def up(s, c=True):
    return (c, s, True)


def dn(s, c=True):
    return (c, s, False)


R, D = "r_i", "r_i+δ_j"
HOP = [T(up(R), up(D, False)), T(up(D), up(R, False)), T(dn(R), dn(D, False)), T(dn(D), dn(R, False))]
INT = [T(up(R), up(R, False), dn(R), dn(R, False))]
ONE, THREE = [T(up("ρ"))], [T(up("ρ_1"), dn("ρ_2"), dn("ρ_3", False))]
KHOP = [T(up("k"), up("k", False)), T(dn("k"), dn("k", False))]
KINT = [T(up("k_1"), up("k_2", False), dn("k_3"), dn("k_4", False))]
KONE, KTHREE = [T(up("q"))], [T(up("q_1"), dn("q_2"), dn("q_3", False))]


def real_space(text):
    """yields (name, lhs, rhs, produced)"""
    section, sub, res, header = None, None, {}, {"kin": [], "int": []}
    for line in text.split("\n"):
        if not line:
            continue
        body, depth = line.lstrip("\t"), len(line) - len(line.lstrip("\t"))
        if depth == 0:
            names = {"Kinetic terms in Hamiltonian": "kin", "Interaction terms in Hamiltonian": "int",
                     "One operator:": "one", "Three operators:": "three"}
            if body not in names:
                raise Malformed("heading " + repr(line))
            section, sub = names[body], None
        elif depth == 1 and section in ("kin", "int"):
            header[section].append(parse_term(body))
        elif depth == 1 and section in ("one", "three"):
            names = {"Kinetic terms:": "kin", "Interaction terms:": "int"}
            if body not in names:
                raise Malformed("heading " + repr(line))
            sub = names[body]
            if (section, sub) in res:
                raise Malformed("section twice: " + repr(line))
            res[section, sub] = []
        elif depth == 2 and sub:
            res[section, sub].append(parse_term(body))
        else:
            raise Malformed("unexpected line " + repr(line))
    for k in (("one", "kin"), ("one", "int"), ("three", "kin"), ("three", "int")):
        if k not in res:
            raise Malformed("section missing: %s %s" % k)
    return header, [("one operator, kinetic", HOP, ONE, res["one", "kin"]),
                    ("one operator, interaction", INT, ONE, res["one", "int"]),
                    ("three operators, kinetic", HOP, THREE, res["three", "kin"]),
                    ("three operators, interaction", INT, THREE, res["three", "int"])]


def momentum_space(text):
    res, cur = [], None
    for line in text.split("\n"):
        if not line:
            continue
        body, depth = line.lstrip("\t"), len(line) - len(line.lstrip("\t"))
        if depth == 0:
            if body not in ("One operator:", "Three operators:"):
                raise Malformed("heading " + repr(line))
        elif depth == 1:
            m = re.fullmatch(r"\[ (.*)  ,  (.*) \]=", body)
            if not m:
                raise Malformed("bracket " + repr(line))
            cur = (body, [parse_term(x) for x in m.group(1).split(" + ")],
                   [parse_term(m.group(2))], [])
            res.append(cur)
        elif depth == 2 and cur:
            cur[3].append(parse_term(body))
        else:
            raise Malformed("unexpected line " + repr(line))
    return res


def canon(terms):
    return sorted((v, tuple(d), tuple(o)) for v, d, o in terms)


def run(ctx):
    ctx.rule = ("one case per printed commutator and assignment of its index names to modes; distinct by "
                "commutator and assignment, non-trivial when the commutator is announced with terms")
    ctx.assumptions += ["index names are assigned values from at most three sites or momenta",
                        "r_i and r_i+δ_j are treated as independent names"]
    bins = {}
    jobs = []
    for p in ("hubbard_commutators_real_space", "hubbard_commutators_momentum_space"):
        for kind, flags in (("plain", ["-O2"]), ("san", SAN)):
            out = os.path.join(ctx.scratch, p + "." + kind)
            bins[p, kind] = out
            jobs.append((out, os.path.join(REPO, "src/hubbard", p + ".cpp"), BASE + flags + INCLUDES, BOOST))
    compile_many(ctx, jobs)
    ctx.log("built the programs")
    rng = random.Random(ctx.seed)
    for p in ("hubbard_commutators_real_space", "hubbard_commutators_momentum_space"):
        texts = set()
        for kind in ("plain", "san"):
            for th in (1, 4):
                r = bounded([bins[p, kind]], 150, env=env_for(th), cwd=ctx.scratch)
                if r.returncode != 0:
                    ctx.violation("crash:" + p, "%s fails: %s" % (p, ending(r)))
                    return
                texts.add(r.stdout)
        if len(texts) != 1:
            ctx.violation("unstable:" + p, p + " prints different texts in different runs")
            return
        text = texts.pop()
        try:
            text = text.decode("utf8")
            if p.endswith("real_space") and "momentum" not in p:
                header, cases = real_space(text)
                for what, got, want in (("kinetic", header["kin"], HOP), ("interaction", header["int"], INT)):
                    if canon(got) != canon(want):
                        ctx.violation("header", "%s announces %s terms %s" % (p, what, got))
            else:
                cases = momentum_space(text)
                want = [(KHOP, KONE), (KINT, KONE), (KHOP, KTHREE), (KINT, KTHREE)]
                got = [(canon(c[1]), canon(c[2])) for c in cases]
                if sorted(got) != sorted((canon(a), canon(b)) for a, b in want):
                    ctx.violation("header", "%s announces %s" % (p, [c[0] for c in cases]))
        except (Malformed, UnicodeDecodeError) as e:
            ctx.violation("malformed:" + p, "%s prints text that does not parse: %s" % (p, e))
            continue
        for name, lhs, rhs, produced in cases:
            ctx.count("printed_terms", len(produced))
            known = sorted({o[1] for t in lhs + rhs for o in t[2]})
            for v, deltas, ops in produced:
                for s in [x for d in deltas for x in d] + [o[1] for o in ops]:
                    if s not in known:
                        ctx.violation("foreign-index", "%s, %s: unknown index %s" % (p, name, s))
                        return
            for sites in (1, 2, 3):
                every = list(itertools.product(range(sites), repeat=len(known)))
                limit = 4000 if ctx.thorough else 260
                if len(every) > limit:
                    every = rng.sample(every, limit)
                for values in every:
                    asg = dict(zip(known, values))
                    d = deviation(lhs, rhs, produced, known, sites, asg)
                    ctx.case("%s|%s|%s" % (p, name, values), nontrivial=len(set(values)) > 1 or sites == 1)
                    ctx.count("assignments")
                    if d > 1e-9:
                        ctx.violation("wrong-commutator", "%s, %s: the printed terms are not the commutator "
                                      "for %s (deviation %g)" % (p, name, asg, d))
                        break
                if ctx.violations:
                    break
            ctx.samples.append("%s: %s -> %d terms" % (p, name, len(produced)))
    ctx.required["printed_terms"] = 14
    ctx.required["assignments"] = 500
