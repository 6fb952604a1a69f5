"""C05: a metric and its inverse stay consistent under every call history."""
import random
import vlib, sym
from . import tens


def session(rec, seed, n, kinds, behs, evict):
    rng = random.Random(seed)
    mets, pt, pr = tens.space_metrics(rng, n, kinds)
    w = tens.World(rec, n, mets, pt, pr)
    for b in behs:
        ks = [k + 1 for k, m in enumerate(mets) if m.variance == b["home"]]
        k = rng.choice(ks)
        # a fresh metric object, so that every history starts without cached inverses
        m = mets[k - 1]
        arr = [[sym.to_sympy(m.comps[i * n + j], w.X, w.P) for j in range(n)] for i in range(n)]
        w.M[k - 1] = w.S.MetricTensor(arr, w.X, config=m.variance, name=f"met{k}")
        first = w.metric(k)
        at = {1: first}
        for j, st in enumerate(b["path"]):
            i = at[st["on"]]
            if st["op"] == "transform":
                k = rng.randint(2, n)
                mat = [sym.c(1 if a == b_ else 2 if (a, b_) == (0, k - 1) else rng.choice([0, 0, 1]) if b_ > a else 0) for a in range(n) for b_ in range(n)]
                at[j + 2] = w.transform(i, mat)
            elif st["op"] == "msimplify":
                w.simplify(i, True); at[j + 2] = i
            else:
                at[j + 2] = w.mop(st["op"], i, st["to"] if st["op"] == "mchange" else None)


def run(ck, thorough):
    rng = random.Random(vlib.SEED + 5)
    behs = ck.generate("MetricModel", dict(vlib.NUMCONST, PREC=0, MAXLEN=3), spec="MSpec",
                       invariants=["OnlyTwo", "Consistent"])
    L = max(len(b["path"]) for b in behs)
    full = [b for b in behs if len(b["path"]) == L]
    if not thorough:
        full = rng.sample(full, 2400)
    long = []
    for _ in range(60 if not thorough else 300):     # longer random histories, judged by the same specification
        home = rng.choice(["ll", "uu"])
        path = [dict(op=rng.choice(["inv", "lower", "mchange", "inv", "transform", "msimplify"]), on=rng.randint(1, k + 1), to=rng.choice(["ll", "uu", "ul", "lu"])) for k in range(6)]
        long.append(dict(home=home, path=path))
    jobs = []

    def job(n, kinds, bs):
        name = f"{n}D-{'-'.join(kinds)}-{len(jobs)}"
        jobs.append((name, session, (f"{vlib.SEED}:{name}", n, kinds, bs, True)))
    chunks = [full[i::8] for i in range(8)] if not thorough else [full[i::24] for i in range(24)]
    for i, ch in enumerate(chunks):
        job(2 if i % 4 else 3, ("off", "rand_uu"), ch if i % 4 else ch[:40])
    for i in range(4 if not thorough else 12):
        job(2 + i % 3, ("off", "rand_uu"), long[i * 15:i * 15 + 15])
    ses = vlib.record(jobs, limit=500)
    ck.validate("TensorTrace", ses, what="histories of inv / lower_config / change_config / transformation / simplification enumerated by MetricModel, and longer random ones")
