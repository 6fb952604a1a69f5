"""C15: numeric metric components."""
import math, random
import numpy as np
import vlib
from . import bh


def session(rec, k, n):
    rng = rec.rng
    w = bh.World(rec)
    for _ in range(n):
        name = rng.choice(["Schwarzschild", "Kerr", "KerrNewman", "KerrNewman", "user"])
        under = rng.choice(["Schwarzschild", "Kerr", "KerrNewman"])
        a, rq = bh.hole_args(rng, under if name == "user" else name)
        pert = None
        if name == "user" and rng.random() < .7:
            P = np.array([[rng.uniform(-1, 1) for _ in range(4)] for _ in range(4)]); P = P + P.T
            kind = rng.choice(["const", "r", "theta"])
            def pert(x, P=P, kind=kind):
                r = x[1]
                sc = np.array([bh.C, 1.0, r, r])
                f = .01 * (1.0 if kind == "const" else np.sin(x[2]) if kind == "theta" else 1 / (1 + (r / 1e4)))
                return f * P * np.outer(sc, sc)
        h = w.hole(name, a=a, rq=rq, under=under, pert=pert, M=10 ** rng.uniform(27, 30) if pert else None)
        for _ in range(rng.choice([1, 2, 3])):
            w.metric(h, w.place(h, rng.choice(['strong', 'strong', 'inner', 'mid']) if pert else None))


def run(ck, thorough):
    ck.design("BlackHoleDesign", dict(MAXDIM=4, MAXORD=2, FINE="TRUE" if thorough else "FALSE"), ["ChargelessIsKerr", "SpinlessIsSchwarzschild", "Determinant", "FieldEquations"],
              spec="DSpec", workers=8, what="line elements: reductions, determinant, (electro)vacuum field equations on a grid of holes and events")
    ses = vlib.record([(f"metrics-{k}", session, (k, 24)) for k in range(96 if thorough else 24)])
    ck.validate("BlackHoleTrace", ses, dict(MAXORD=1), what="components and inverse of the three metrics and of perturbed user metrics")
