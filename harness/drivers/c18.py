"""C18: horizons, ergospheres and auxiliary functions."""
import math
import vlib
from . import bh

FNS = {"sigma": ("len", "ang", "mass", "spin"), "delta": ("len", "mass", "spin", "charge"), "rho": ("len", "ang", "mass", "spin"),
       "schwarzschild_radius": ("mass",), "alpha": ("mass", "spin")}


def session(rec, k, n):
    rng = rec.rng
    w = bh.World(rec)
    for _ in range(n):
        name = rng.choice(["Schwarzschild", "Kerr", "Kerr", "KerrNewman", "KerrNewman"])
        a, rq = bh.hole_args(rng, name)
        if rng.random() < .3: a, rq = rng.choice([(1.0, 0.0), (0.0, 0.0), (0.0, .9), (.6, .79)]) if name == "KerrNewman" else (a and 1.0, 0.0)
        if a * a + rq * rq > 1 and not (a == 1.0 and rq == 0): rq = .9 * math.sqrt(max(0, 1 - a * a))
        w.units = rng.random() < .3
        w.roots(w.hole(name, a=a, rq=rq))
    w.units = False
    for _ in range(n):
        fn = rng.choice(list(FNS))
        ks = FNS[fn]
        M = rng.choice([1.989e30, 10 ** rng.uniform(20, 40)])
        half = bh.G * M / bh.C ** 2
        spin = rng.choice([0.0, 1.0, rng.random(), rng.random(), rng.random(), rng.choice([-1e-9, 1 + 1e-9, -.5, 2.0, 1.0000001])])
        val = {"len": half * 10 ** rng.uniform(-1, 2), "ang": rng.uniform(0, math.pi), "mass": M, "spin": spin,
               "charge": rng.choice([0.0, rng.uniform(-1, 1)]) * math.sqrt(bh.G / bh.KE) * M}
        mode = rng.choice(["plain", "quantity", "mixed"])
        plain = [True if mode == "plain" else False if mode == "quantity" else rng.random() < .5 for _ in ks]
        args = [val[x] for x in ks]
        if fn == "delta" and rng.random() < .4: args, ks2, plain = args[:3], ks[:3], plain[:3]
        w.aux(fn, args, ks[:len(args)], plain)


def run(ck, thorough):
    ck.design("BlackHoleDesign", dict(MAXDIM=4, MAXORD=2, FINE="TRUE" if thorough else "FALSE"), ["Roots"], spec="DSpec", workers=8,
              what="horizons and stationary limits are the roots and are ordered")
    ses = vlib.record([(f"surfaces-{k}", session, (k, 20)) for k in range(96 if thorough else 24)])
    ck.validate("BlackHoleTrace", ses, dict(MAXORD=1), what="surfaces of holes up to extremality; auxiliary functions with plain and dimensional arguments")
