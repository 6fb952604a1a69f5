"""C07: a Lorentz (basis) transformation acts on every index by its type."""
import random
from fractions import Fraction as F
import vlib, sym
from sym import c, v, p, fn, neg, Z, ONE
from . import tens

CLS = {0: ["BaseRelativityTensor"], 1: ["GenericVector", "BaseRelativityTensor"],
       2: ["RicciTensor", "EinsteinTensor", "SchoutenTensor", "StressEnergyMomentumTensor", "MetricTensor", "BaseRelativityTensor"],
       3: ["ChristoffelSymbols", "BaseRelativityTensor"], 4: ["RiemannCurvatureTensor", "WeylTensor"]}


def ident(n):
    return [[ONE if i == j else Z for j in range(n)] for i in range(n)]


def flat(m):
    return [x for r in m for x in r]


def matrix(rng, n, kind):
    """trees of an n x n matrix; kinds as in LorentzModel, embedded in a random coordinate plane"""
    inv = kind.endswith("inv")
    base = kind[:-3] if inv else kind
    st = rng.getstate()
    i, j = sorted(rng.sample(range(n), 2))
    m = ident(n)
    s = -1 if inv else 1
    if base == "boost":
        g, b = rng.choice([(F(5, 4), F(3, 4)), (F(13, 12), F(5, 12))])
        m[i][i] = m[j][j] = c(g); m[i][j] = m[j][i] = c(-s * b)
    elif base == "rot":
        m[i][i] = m[j][j] = c(F(3, 5)); m[i][j] = c(-s * F(4, 5)); m[j][i] = c(s * F(4, 5))
    elif base == "shear":
        m[i][j] = c(2 * s)
    elif base == "symboost":
        m[i][i] = m[j][j] = fn("cosh", p(1)); m[i][j] = m[j][i] = fn("sinh", p(1)) if inv else neg(fn("sinh", p(1)))
    elif base == "general":
        for a in range(n):
            for b in range(n):
                m[a][b] = c(rng.randint(-2, 2)) if a != b else c(rng.choice([3, 4, 5]))
    return flat(m)


def simple(rng, n, r, big):
    """few non-zero components: the library simplifies every transformed component, and a dense matrix mixes all of them"""
    out = [Z] * n ** r
    for k in range(len(out)):
        if rng.random() < (.7 if not big else .15):
            out[k] = rng.choice([c(rng.randint(-4, 4)), c(rng.randint(1, 5)), v(rng.randint(1, n)) if r < 3 else c(7)])
    out[rng.randrange(len(out))] = v(rng.randint(1, n))
    return out


def session(rec, seed, n, cls, behs, heavy=False):
    rng = random.Random(seed)
    mets, pt, pr = tens.space_metrics(rng, n, ("diag",))
    w = tens.World(rec, n, mets, pt, pr)
    for b in behs:
        r = len(b["cfg"])
        comps = tens.rtensor(rng, n, r) if not heavy else simple(rng, n, r, n ** r > 8)
        if r == 2 and cls == "MetricTensor":
            comps = [[comps[min(i, j) * n + max(i, j)] for j in range(n)] for i in range(n)]
            comps = flat([[c(5) if i == j and sym.isz(x) else x for j, x in enumerate(row)] for i, row in enumerate(comps)])
        if r >= 3:
            comps = [t if rng.random() < .4 else Z for t in comps]
        i = w.tensor(cls, b["cfg"], comps, rng.choice(["T", "default"]), -1 if cls == "MetricTensor" else rng.choice([0, 1]))
        pseed = rng.random()
        for m in b["path"]:
            i = w.transform(i, matrix(random.Random(pseed), n, m))
        if b.get("dual") and len(w.objs[i - 1].config) == 1:
            # a dual vector along: the contraction of the transformed ones
            d = ["l" if b["cfg"][0] == "u" else "u"]
            k = w.tensor(cls, d, tens.rtensor(rng, n, 1), "D", 0)
            for m in b["path"]:
                k = w.transform(k, matrix(random.Random(pseed), n, m))
            w.product(i, k, 0, 0)


def run(ck, thorough):
    rng = random.Random(vlib.SEED + 7)
    gen = lambda r, L: ck.generate("LorentzModel", dict(vlib.NUMCONST, PREC=0, RANK=r, MAXLEN=L), spec="LSpec",
                                   invariants=["Composition", "Undone", "ContractionInvariant"], extra="CONSTANT Step <- NoStep\n", env={"TRACE_FILE": ""})
    g = {1: gen(1, 3), 2: gen(2, 2), 3: gen(3, 2 if thorough else 1), 4: gen(4, 1)}
    full = {r: [b for b in bs if len(b["path"]) == max(len(x["path"]) for x in bs)] for r, bs in g.items()}
    # beyond the model's matrices: symbolic boosts and general matrices, judged by the same specification
    wild = {1: [["general"], ["symboost"], ["symboost", "symboostinv"], ["symboost", "rot"], ["general", "boost"]],
            2: [["general"], ["symboost"], ["general", "boost"]], 3: [["general"]], 4: [["general"]]}
    extra = {r: [dict(cfg=b["cfg"], path=rng.choice(wild[r])) for b in rng.sample(bs, min(60, len(bs)))] for r, bs in full.items()}
    jobs = []

    def job(r, cls, n, k, src=full):
        bs = list(src[r])
        bs = rng.sample(bs, min(k, len(bs)))
        if r == 1:
            bs = [dict(b, dual=rng.random() < .5) for b in bs]
        if cls == "MetricTensor":
            bs = [b for b in bs if len(set(b["cfg"])) == 1]
        if r >= 3:
            bs = [dict(b, path=b["path"][:1]) for b in bs]
        name = f"{cls}-{n}D-{len(jobs)}"
        jobs.append((name, session, (f"{vlib.SEED}:{name}", n, cls, bs, src is extra)))
    t = 4 if thorough else 1
    for _ in range(t):
        for cls in CLS[1]:
            job(1, cls, 2, 40); job(1, cls, 4, 8); job(1, cls, 3, 8, extra); job(1, cls, 4, 6, extra)
        for cls in CLS[2]:
            job(2, cls, 2, 24); job(2, cls, 3, 6, extra); job(2, cls, 4, 2)
        for cls in CLS[3]:
            job(3, cls, 2, 10); job(3, cls, 3, 2, extra)
        for cls in CLS[4]:
            job(4, cls, 2, 5); job(4, cls, 2, 3, extra)
    ses = vlib.record(jobs, limit=500)
    ck.validate("TensorTrace", ses, what="histories of transformations enumerated by LorentzModel, symbolic and general matrices besides")
