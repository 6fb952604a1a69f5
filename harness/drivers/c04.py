"""C04: raising and lowering indices is path independent and reversible."""
import random
import vlib, sym
from . import tens

CLS = {1: ["GenericVector"], 2: ["RicciTensor", "EinsteinTensor", "SchoutenTensor", "StressEnergyMomentumTensor"],
       3: ["ChristoffelSymbols"], 4: ["RiemannCurvatureTensor", "WeylTensor"]}


def session(rec, seed, n, cls, behs, kinds):
    """Many histories over one space."""
    rng = random.Random(seed)
    mets, pt, pr = tens.space_metrics(rng, n, kinds)
    w = tens.World(rec, n, mets, pt, pr)
    for b in behs:
        r = len(b["home"])
        comps = tens.rtensor(rng, n, r)
        if r >= 3:
            comps = [t if rng.random() < .5 else sym.Z for t in comps]
        i = w.tensor(cls, b["home"], comps, rng.choice(["T", "my tensor", "default", None]) if r < 3 else "T", b["parent"])
        for st in b["path"]:
            i = w.change(i, st["to"], st["metric"])


def run(ck, thorough):
    rng = random.Random(vlib.SEED + 4)
    INV = ["PathIndependent", "Restores", "ConfigValid"]

    def gen(rank, maxlen, mets):
        return ck.generate("IndexModel", dict(vlib.NUMCONST, PREC=0, RANK=rank, MAXLEN=maxlen, METRICS=mets), spec="ISpec", invariants=INV)
    g = {1: gen(1, 3, "{0, 1, 2}"), 2: gen(2, 2, "{0, 1, 2}"), 3: gen(3, 2, "{0, 2}"), 4: gen(4, 2 if thorough else 1, "{0}")}
    # whole histories only (a history contains its prefixes)
    full = {r: [b for b in bs if len(b["path"]) == max(len(x["path"]) for x in bs)] for r, bs in g.items()}
    jobs = []

    def job(rank, cls, n, k, kinds):
        bs = full[rank]
        bs = rng.sample(bs, k) if k < len(bs) else bs
        name = f"{cls}-{n}D-{len(jobs)}"
        jobs.append((name, session, (f"{vlib.SEED}:{name}", n, cls, bs, kinds)))
    t = 5 if thorough else 1
    for _ in range(2 * t):
        job(1, "GenericVector", 2, 150, ("off", "rand_uu"))
        job(1, "GenericVector", 4, 12, ("diag", "off"))
    for cls in CLS[2]:
        for _ in range(t):
            job(2, cls, 2, 40, ("off", "diag"))
            job(2, cls, 3, 10, ("off", "diag"))
    for _ in range(2 * t):
        job(3, "ChristoffelSymbols", 2, 24, ("off", "rand_uu"))
        job(3, "ChristoffelSymbols", 3, 4, ("diag", "off"))
    for cls in CLS[4]:
        for _ in range(t):
            job(4, cls, 2, 9, ("diag", "off"))
    ses = vlib.record(jobs, limit=500)
    ck.validate("TensorTrace", ses, what="histories of configuration changes enumerated by IndexModel")
