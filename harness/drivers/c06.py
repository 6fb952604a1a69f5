"""C06: tensor products and contractions sum exactly the indices asked for."""
import random
import vlib, sym
from sym import c, v, p, add, mul, pw
from . import tens

SPECIAL = {1: "GenericVector", 2: "RicciTensor", 3: "ChristoffelSymbols", 4: "RiemannCurvatureTensor"}


def session(rec, seed, n, behs, special):
    rng = random.Random(seed)
    mets, pt, _ = tens.space_metrics(rng, n, ("off",))
    w = tens.World(rec, n, mets, pt, sym.rpt(rng, 3))
    for b in behs:
        # the two factors have different free symbols
        def comps(cfg, k):
            r = n ** len(cfg)
            out = [tens.rcomp(rng, n, 0) for _ in range(r)]
            out[rng.randrange(r)] = rng.choice([p(k), add(p(k), v(1)), mul(p(k), v(n))]) if rng.random() < .8 else c(2)
            if rng.random() < .3:
                out[rng.randrange(r)] = mul(p(3), p(k))
            return out
        def cls(cfg):
            return SPECIAL[len(cfg)] if special and len(cfg) in SPECIAL else "BaseRelativityTensor"
        a = w.tensor(cls(b["a"]), b["a"], comps(b["a"], 1), "default", rng.choice([0, 1]))
        bb = w.tensor(cls(b["b"]), b["b"], comps(b["b"], 2), "default", rng.choice([0, 1]))
        w.product(a, bb, b["i"], b["j"])


def run(ck, thorough):
    rng = random.Random(vlib.SEED + 6)
    behs = ck.generate("ProductModel", dict(vlib.NUMCONST, PREC=0, MAXRANK=5, MAXTOTAL=6), spec="PSpec",
                       invariants=["Shape", "IsPartialTrace"], extra="CONSTANT Step <- NoStep\n", env={"TRACE_FILE": ""})
    jobs = []

    def job(n, bs, special):
        name = f"{n}D-{'cls' if special else 'base'}-{len(jobs)}"
        jobs.append((name, session, (f"{vlib.SEED}:{name}", n, bs, special)))
    small = [b for b in behs if len(b["a"]) <= 2 and len(b["b"]) <= 2]
    big = [b for b in behs if b not in small]
    rng.shuffle(small); rng.shuffle(big)
    K = 8
    for i in range(K):
        job(2, small[i::K], i % 2)
    for i in range(4 if not thorough else 16):
        job(3, rng.sample(small, 14), i % 2)
    job(4, rng.sample([b for b in small if len(b["a"]) + len(b["b"]) <= 3], 12), 1)
    mid = [b for b in big if len(b["a"]) <= 3 and len(b["b"]) <= 3]
    high = [b for b in big if b not in mid]
    # every pair of configurations and positions involving rank three or more, thinned out
    pick = mid if thorough else rng.sample(mid, 400)
    # of the higher ranks every contracted pair of positions (for each pair of ranks) at least once
    seen = {}
    for b in high: seen.setdefault((len(b["a"]), len(b["b"]), b["i"], b["j"]), b)
    pick = pick + list(seen.values()) + rng.sample(high, 1500 if thorough else 100)
    rng.shuffle(pick)
    for i in range(16):
        job(2, pick[i::16], i % 2)
    ses = vlib.record(jobs, limit=500)
    ck.validate("TensorTrace", ses, what="every pair of configurations and contracted positions enumerated by ProductModel")
