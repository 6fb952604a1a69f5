"""C19: refusals and independence of metric objects."""
import math, random
import vlib
from . import bh, c14


def family(rec, k):
    """Holes that agree in all but one parameter, asked the same things at the same places, in interleaved order."""
    rng = rec.rng
    w = bh.World(rec)
    M = rng.choice([1.989e30, 5.97e24, 8e36])
    name = ["Kerr", "KerrNewman", "KerrNewman", "KerrNewman", "mixed", "mixed", "Schwarzschild"][k % 7]
    vary = ["a", "a", "rq", "qm", "a", "kind", "M"][k % 7]
    base = dict(a=rng.choice([.3, .5, .7]), rq=rng.choice([.2, -.3, .4]), qm=rng.choice([1e5, -2e6]))
    hs = []
    for n in range(4):
        p = dict(base)
        if vary == "a": p["a"] = [.1, .9, .5, 0.0][n]
        if vary == "rq": p["rq"] = [.1, -.1, .4, 0.0][n]
        if vary == "qm": p["qm"] = [1e5, -1e5, 0.0, 3e6][n]
        m = M * (1 + n) if vary == "M" else M
        kind = rng.choice(["Kerr", "KerrNewman"]) if name == "mixed" else name
        if kind == "Schwarzschild": p = dict(a=0.0, rq=0.0, qm=0.0)
        if kind == "Kerr": p.update(rq=0.0, qm=0.0)
        hs.append(w.hole(kind, M=m, **p))
    if k % 7 in (4, 5): hs.append(w.hole("user", under="KerrNewman", M=M, a=base["a"], rq=base["rq"]))
    half = w.objs[hs[0]]["half"]
    xs = [w.place(hs[0], c) for c in ("mid", "mid")]
    us = [[1.2] + c14.three(rng, half, x, "") for x in xs]
    ops = [(o, h, i) for h in hs for i in (0, 1) for o in ("metric", "gamma", "fvec", "em") if not (o == "em" and w.objs[h]["name"] != "KerrNewman")
           and not (o in ("gamma", "fvec") and w.objs[h]["name"] == "user")]
    ops += [("roots", h, 0) for h in hs if w.objs[h]["name"] != "user"]
    m = w.mover(bh.NEED[w.objs[hs[0]]["name"]], xs[0], c14.three(rng, half, xs[0], ""))
    ops += [("velocity", h, 0) for h in hs]
    rng.shuffle(ops)
    # each place in turn or all shuffled
    if rng.random() < .5: ops.sort(key=lambda t: (t[0], t[2]))
    for o, h, i in ops + rng.sample(ops, 8):
        x = list(xs[i])
        if o == "metric": w.metric(h, x)
        elif o == "gamma": w.gamma(h, x)
        elif o == "fvec": w.fvec(h, x, us[i])
        elif o == "em": w.em(h, x, curl=False)    # that clause is C17's
        elif o == "roots": w.roots(h)
        else: w.velocity(m, h)


def run(ck, thorough):
    b = ck.generate("HoleModel", dict(MAXOBJ=3, MAXCALL=3, EMIT="TRUE"), spec="HSpec", invariants=["Consistent", "Held"])
    rng = random.Random(vlib.SEED + 19)
    vs = [x for x in b if sum(c["op"] == "velocity" for c in x["calls"]) <= 1]
    refused = [x for x in vs if any(c["res"] == "refused" for c in x["calls"])]
    vs = rng.sample(refused, min(len(refused), 2000 if thorough else 140)) + rng.sample(vs, min(len(vs), 1500 if thorough else 100))
    ses = vlib.record([(f"history-{i}", c14.history, (x,)) for i, x in enumerate(vs)] + [(f"family-{k}", family, (k,)) for k in range(140 if thorough else 21)])
    ck.validate("BlackHoleTrace", ses, dict(MAXORD=1), what="histories of up to three objects and three requests enumerated by HoleModel; families of holes that differ in one parameter, asked in interleaved order")
