"""C22: symplectic integrator."""
import random
import numpy as np
import vlib
from . import geo


def history(rec, acts, cap):
    rng = rec.rng
    b = geo.Bench(rec)
    pool = []
    from einsteinpy.geodesic import utils as gu
    for a in acts:
        if a["do"] == "make":
            if pool and rng.random() < .5: m, q0, p0 = rng.choice(pool)
            else:
                m = geo.Metric(rng)
                X, p = m.start(rng)
                q0 = np.array(X)
                with np.errstate(all="ignore"):
                    p0 = np.array([rng.choice([-1.0, -.9, rng.uniform(-1.3, -.3)]), *p]) if rng.random() < .4 else gu._P(m.fn, m.real(rng), q0, p, rng.random() < .6)
                if not np.all(np.isfinite(np.asarray(p0, float))): p0 = np.array([-1.0, *p])
                p0 = np.asarray(p0, float)
                pool.append((m, q0, p0))
            b.make(m, a["ord"], a["sup"], q0, p0)
        elif a["do"] == "step": b.step(a["on"] - 1)
        else: b.rows(a["on"] - 1)
    for i in range(len(b.its)): b.rows(i)


def run(ck, thorough):
    ck.design("SymplecticDesign", dict(DEEP="TRUE" if thorough else "FALSE", MAXDIM=4, MAXORD=1), ["Reversible", "Jump", "OrderOK", "ClosedForm"], spec="DSpec", workers=8,
              what="reversibility off the diagonal, conservation over both copies, triple-jump constants, observed order of each composition")
    rng = random.Random(vlib.SEED + 22)
    b = ck.generate("StepperModel", dict(MAXOBJ=2, MAXACT=5, ORDS="{2, 4, 3}", EMIT="TRUE"), spec="MSpec", invariants=["Own", "Accepted"])
    b = rng.sample(b, min(len(b), 500 if thorough else 150))
    b2 = ck.generate("StepperModel", dict(MAXOBJ=1 if not thorough else 2, MAXACT=3, ORDS="{6, 8, 0, 10}", EMIT="TRUE"), spec="MSpec", invariants=["Own", "Accepted"])
    b2 = [x for x in b2 if sum(a["do"] == "step" for a in x) <= 1 or thorough]
    b2 = rng.sample(b2, min(len(b2), 100 if thorough else 24))
    b2 = (b2 * 12)[: (100 if thorough else 24)]
    ses = vlib.record([(f"history-{i}", history, (x, 0)) for i, x in enumerate(b)] + [(f"high-{i}", history, (x, 0)) for i, x in enumerate(b2)])
    ck.validate("GeodesicTrace", ses, dict(MAXDIM=4, MAXORD=1), what="histories of two integrators enumerated by StepperModel")
