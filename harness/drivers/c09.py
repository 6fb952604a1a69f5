"""C09: substitution, simplification and lambdification preserve a tensor's value."""
import random
import vlib, sym
from sym import c, v, p, add, mul, sub, div, pw, fn, neg
from . import tens

CLS = {0: ["RicciScalar", "BaseRelativityTensor"], 1: ["GenericVector", "BaseRelativityTensor"],
       2: ["MetricTensor", "RicciTensor", "EinsteinTensor", "SchoutenTensor", "StressEnergyMomentumTensor", "BaseRelativityTensor"],
       3: ["ChristoffelSymbols", "BaseRelativityTensor"], 4: ["RiemannCurvatureTensor", "WeylTensor", "BaseRelativityTensor"]}


def comp(rng, n):
    """components worth simplifying, in coordinates and two parameters"""
    i, j, k = rng.randint(1, n), rng.randint(1, n), rng.randint(1, 2)
    x, y, a = v(i), v(j), p(k)
    return rng.choice([
        lambda: c(rng.randint(-6, 6)), lambda: x, lambda: a, lambda: mul(a, x), lambda: add(mul(p(1), p(2)), pw(x, 2)),
        lambda: add(pw(fn("sin", x), 2), pw(fn("cos", x), 2)), lambda: div(sub(pw(x, 2), pw(a, 2)), add(x, add(a, c(20)))),
        lambda: mul(fn("exp", x), fn("exp", neg(y))), lambda: sub(mul(add(x, a), add(x, a)), pw(x, 2)),
        lambda: mul(a, fn("sinh", x)), lambda: fn("sqrt", add(pw(x, 2), add(pw(a, 2), c(1)))), lambda: div(a, add(c(1), pw(y, 2))),
        lambda: sub(mul(c(2), mul(fn("sin", x), fn("cos", x))), fn("sin", mul(c(2), x)))])()


def value(rng, of):
    """what is put for a symbol: a number, or an expression in the symbol `of`"""
    if of is None: return c(rng.choice([3, -5, 7, 2, -1, 0]), rng.choice([1, 2, 3]))
    y = v(of[1]) if of[0] == "x" else p(of[1])
    return rng.choice([y, add(y, c(1)), mul(c(2), y), add(c(1, 3), pw(y, 2)), neg(y)])


def session(rec, seed, n, rank, cls, behs):
    rng = random.Random(seed)
    mets, pt, _ = tens.space_metrics(rng, n, ("diag",))
    w = tens.World(rec, n, mets, pt, sym.rpt(rng, 2))
    w.rng = rng
    for b in behs:
        comps = [comp(rng, n) if n ** rank < 16 or rng.random() < .4 else c(rng.randint(0, 1)) for _ in range(n ** rank)]
        if cls == "MetricTensor":
            comps = [comps[min(a, b_) * n + max(a, b_)] for a in range(n) for b_ in range(n)]
        cfg = [rng.choice("ul") for _ in range(rank)]
        if cls == "MetricTensor": cfg = [cfg[0]] * 2
        ids = [w.tensor(cls, cfg, comps, rng.choice(["T", "default"]) if cls != "RicciScalar" else "default", -1 if cls == "MetricTensor" else rng.choice([0, 1]))]
        name = {"x": ("x", rng.randint(1, n)), "a": ("p", 1), "b": ("p", 2)}
        for st in b:
            i = ids[st["on"] - 1]
            if st["op"] == "subs":
                by = [(*name[b_["s"]], value(rng, name.get(b_["of"]))) for b_ in st["by"]]
                forms = ["list"] + ["pair"] * (len(by) == 1) + ["dict"] * (len(by) == 1 or all(b_["of"] == "" for b_ in st["by"]))
                ids.append(w.subs(i, by, rng.choice(forms)))
            elif st["op"] == "simplify":
                w.simplify(i, st["inplace"])
            else:
                w.lambdify(i, st["args"])


def run(ck, thorough):
    rng = random.Random(vlib.SEED + 9)
    behs = ck.generate("ValueModel", dict(MAXLEN=3), spec="VSpec", invariants=["ValuePreserved", "OriginalKept"])
    full = [b for b in behs if len(b) == 3]
    jobs = []
    t = 8 if thorough else 1
    for _ in range(t):
        for r, cs in CLS.items():
            for cls in cs:
                for n in (2, 3, 4) if r < 3 else (2, 3) if r == 3 else (2,):
                    k = max(2, (200 if r < 2 else 90 if r == 2 else 30) // (n - 1) ** 2)
                    name = f"{cls}-rank{r}-{n}D-{len(jobs)}"
                    jobs.append((name, session, (f"{vlib.SEED}:{name}", n, r, cls, rng.sample(full, k))))
    ses = vlib.record(jobs, limit=400)
    ck.validate("TensorTrace", ses, what="histories of substitution, simplification and lambdification enumerated by ValueModel")
