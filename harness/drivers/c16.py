"""C16: numeric Christoffel symbols and the right-hand side of the geodesic equation."""
import math, random
import vlib
from . import bh


def velocity(rng, h, x):
    """a 4-velocity of ordinary size (not normalised: the right-hand side is a polynomial in it)"""
    r = x[1]
    k = rng.choice([.1, .5, 1e-3])
    u = [rng.uniform(.8, 3), k * bh.C * rng.uniform(-1, 1), k * bh.C / r * rng.uniform(-1, 1), k * bh.C / r * rng.uniform(-1, 1)]
    if rng.random() < .25:
        for i in rng.sample(range(4), rng.randint(1, 3)): u[i] = 0.0
    return u


def session(rec, k, n):
    rng = rec.rng
    w = bh.World(rec)
    for _ in range(n):
        name = rng.choice(["Schwarzschild", "Kerr", "Kerr", "KerrNewman", "KerrNewman"])
        a, rq = bh.hole_args(rng, name)
        # charge per mass: the Lorentz force comparable to the geodesic acceleration
        qm = rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1)]) * 10 ** rng.uniform(0, 18)
        h = w.hole(name, a=a, rq=rq, qm=qm)
        x = w.place(h, rng.choice(["strong", "strong", "strong", "inner", "mid", "far"]))
        w.gamma(h, x)
        for _ in range(rng.choice([1, 2])):
            if rng.random() < .3: x = w.place(h, "strong")
            w.fvec(h, x, velocity(rng, w.objs[h], x))


def refused(rec):
    w = bh.World(rec)
    for name in bh.NEED:
        for sys in ("Cartesian", "Spherical", "BoyerLindquist"):
            h = w.hole(name, sys=sys, a=0.0)
            x = w.place(h, "strong")
            w.gamma(h, x)
            w.fvec(h, x, [1.0, 2.0, 0.0, 1.0])
    from einsteinpy.metric import Kerr
    rec.ev("nonzero", triples=[[int(i) for i in t] for t in Kerr.nonzero_christoffels()])


def run(ck, thorough):
    ck.design("BlackHoleDesign", dict(MAXDIM=4, MAXORD=2, FINE="TRUE" if thorough else "FALSE"), ["Killing"], spec="DSpec", workers=8,
              what="-Gamma u u conserves the momenta of the t and phi symmetries")
    ses = vlib.record([(f"rhs-{k}", session, (k, 14)) for k in range(128 if thorough else 32)] + [("refused", refused, ())])
    ck.validate("BlackHoleTrace", ses, dict(MAXORD=1), what="64 Christoffel symbols and right-hand sides, charged and uncharged")
