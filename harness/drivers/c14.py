"""C14: 4-velocity in the metric it is asked for."""
import math, random
import numpy as np
import vlib
from . import bh


def three(rng, half, x, sys):
    r = max(abs(x[1]), half)
    k = 10 ** rng.uniform(-5, 0.3) * bh.C
    v = [k * rng.uniform(-1, 1), k / r * rng.uniform(-1, 1), k / r * rng.uniform(-1, 1)]
    if rng.random() < .25:
        for i in rng.sample(range(3), rng.randint(1, 3)): v[i] = 0.0
    return v


def table(rng, x, sys):
    """a metric of one's own at x: any of the sixteen components may be there"""
    sc = np.array([1.0, 1.0, 1.0, 1.0] if sys == "Cartesian" else [1.0, 1.0, x[1], x[1] * math.sin(x[2])])
    g = np.diag([rng.uniform(.3, 1.5)] + [-rng.uniform(.3, 1.5) for _ in range(3)])
    for i in range(4):
        for j in range(i):
            if rng.random() < .7: g[i, j] = g[j, i] = rng.uniform(-.3, .3)
    if rng.random() < .1: g[0, 0] = -g[0, 0]
    sc[0] = rng.choice([1.0, bh.C])
    return g * np.outer(sc, sc)


def bump(seed):
    """a perturbation with every component"""
    r = random.Random(seed)
    k = np.array([[r.uniform(-.2, .2) for _ in range(4)] for _ in range(4)])
    k = k + k.T

    def f(xv):
        s = np.array([1.0, 1.0, float(xv[1]), float(xv[1])])
        return k * np.outer(s, s)
    return f


def own(rec, n):
    """metrics of the user's own and perturbed ones: components mixing any two coordinates"""
    rng = rec.rng
    w = bh.World(rec)
    for _ in range(n):
        M = 10 ** rng.uniform(22, 40)
        half = bh.G * M / bh.C ** 2
        sys = rng.choice(["BoyerLindquist", "Spherical", "Cartesian"])
        x = [rng.uniform(0, 9), rng.uniform(2.1, 12) * half, rng.uniform(.2, 2.9), rng.uniform(-3, 3)]
        hs = [w.hole("general", sys=sys, M=M, tab=table(rng, x, sys)) for _ in range(2)]
        ms = [w.mover(sys, x, three(rng, half, x, sys)) for _ in range(2)]
        w.metric(hs[0], x)
        for m in ms:
            for h in hs: w.velocity(m, h)
        other = rng.choice([s for s in ("BoyerLindquist", "Spherical", "Cartesian") if s != sys])
        k = bh.C * rng.choice([0.0, rng.random(), rng.random(), 1e-5, .99, .999999])
        d = [rng.gauss(0, 1) for _ in range(3)]
        if rng.random() < .3: d[rng.randrange(3)] = 0.0
        w.lorentz([k * c / math.sqrt(sum(y * y for y in d)) for c in d])
        w.velocity(ms[0], w.hole("general", sys=other, M=M, tab=table(rng, x, other)))
        under = rng.choice(["Kerr", "KerrNewman", "Schwarzschild"])
        s2 = bh.NEED[under]
        a, rq = bh.hole_args(rng, under)
        h = w.hole("user", under=under, M=M, a=a, rq=rq, pert=bump(rng.random()))
        x2 = w.place(h)
        w.velocity(w.mover(s2, x2, three(rng, half, x2, s2)), h)


def history(rec, b):
    """a history of HoleModel on real objects"""
    rng = rec.rng
    w = bh.World(rec)
    ids, sysm = [], None
    half = None
    # objects of one history share masses, spins and places: what one is asked must not leak into another
    M0, sp0 = 1.989e30 * rng.uniform(.9, 1.1), None
    pool = None
    for m in b["made"]:
        if m["kind"] == "mover":
            x = [rng.uniform(0, 9), rng.uniform(2.1, 12) * half, rng.uniform(.2, 2.9), rng.uniform(-3, 3)]
            ids.append(w.mover(m["sys"], x, three(rng, half, x, m["sys"])))
        else:
            a, rq = bh.hole_args(rng, m["kind"])
            if sp0 is None or rng.random() < .4: sp0 = (a, rq)
            if m["kind"] == "Schwarzschild": a, rq = 0.0, 0.0
            elif m["kind"] == "Kerr": a, rq = sp0[0], 0.0
            elif sp0[0] ** 2 + sp0[1] ** 2 < 1: a, rq = sp0
            ids.append(w.hole(m["kind"], sys=m["sys"], a=a, rq=rq, qm=rng.choice([0.0, 1e6]), M=M0 if rng.random() < .7 else M0 * rng.uniform(.9, 1.1)))
            half = half or w.objs[ids[-1]]["half"]
    for c in b["calls"]:
        i = ids[c["on"] - 1]
        if c["op"] == "velocity":
            w.velocity(i, ids[c["with"] - 1])
            continue
        pool = pool or [[0.0, rng.uniform(2.3, 12) * half, rng.uniform(.2, 2.9), rng.uniform(-3, 3)] for _ in range(2)]
        x = list(rng.choice(pool))
        if c["op"] == "metric": w.metric(i, x)
        elif c["op"] == "gamma": w.gamma(i, x)
        elif c["op"] == "fvec": w.fvec(i, x, [1.1] + three(rng, half, x, ""))
        else: w.roots(i)


def session(rec, k, n):
    rng = rec.rng
    w = bh.World(rec)
    for _ in range(n):
        a, rq = bh.hole_args(rng, "KerrNewman")
        M = rng.choice([1.989e30, 5.97e24, 8e36, 10 ** rng.uniform(22, 40)])
        hs = [w.hole("Schwarzschild", M=M), w.hole("Kerr", a=a, M=M), w.hole("KerrNewman", a=a, rq=rq, M=M), w.hole("Kerr", a=bh.spins(rng), M=2 * M)]
        # the same holes, described in coordinates that do not suit them
        hs += [w.hole("Schwarzschild", sys=rng.choice(["Cartesian", "BoyerLindquist"]), M=M), w.hole("Kerr", sys="Spherical", a=a, M=M),
               w.hole("KerrNewman", sys=rng.choice(["Cartesian", "Spherical"]), a=a, rq=rq, M=M)]
        hs.append(w.hole("user", under=rng.choice(["Kerr", "KerrNewman"]), a=a, rq=rq, M=M))
        half = w.objs[hs[0]]["half"]
        for sys in ("BoyerLindquist", "Spherical", "Cartesian"):
            if sys == "Cartesian" and rng.random() < .7: continue
            x = w.place(hs[2], rng.choice(["strong", "strong", "inner", "mid", "far"]))
            m = w.mover(sys, x, three(rng, half, x, sys))
            for h in rng.sample(hs, rng.randint(3, 6)) + [rng.choice(hs[:5])] + rng.sample(hs, 2):
                w.velocity(m, h)


def run(ck, thorough):
    ck.design("BlackHoleDesign", dict(MAXDIM=4, MAXORD=2, FINE="TRUE" if thorough else "FALSE"), ["Normalised"], spec="DSpec", workers=8,
              what="the chosen root is normalised and future directed outside the stationary limit")
    b = ck.generate("HoleModel", dict(MAXOBJ=3, MAXCALL=3, EMIT="TRUE"), spec="HSpec", invariants=["Consistent", "Held"])
    rng = random.Random(vlib.SEED + 14)
    vs = [x for x in b if sum(c["op"] == "velocity" for c in x["calls"]) >= 2]
    vs = rng.sample(vs, min(len(vs), 1600 if thorough else 160))
    jobs = [(f"history-{i}", history, (x,)) for i, x in enumerate(vs)] + [(f"movers-{k}", session, (k, 6)) for k in range(96 if thorough else 20)]
    jobs += [(f"own-{k}", own, (6,)) for k in range(48 if thorough else 8)]
    ses = vlib.record(jobs)
    ck.validate("BlackHoleTrace", ses, dict(MAXORD=1), what="velocity requests of movers in several metrics, histories from HoleModel")
