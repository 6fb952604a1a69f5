"""C17: Kerr-Newman electromagnetic field."""
import vlib
from . import bh


def session(rec, k, n):
    rng = rec.rng
    w = bh.World(rec)
    for _ in range(n):
        a, rq = bh.hole_args(rng, "KerrNewman")
        h = w.hole("KerrNewman", a=a, rq=rq, qm=rng.choice([0.0, 1e8]))
        for _ in range(rng.choice([1, 2, 3])):
            w.em(h, w.place(h))


def run(ck, thorough):
    ck.design("BlackHoleDesign", dict(MAXDIM=4, MAXORD=2, FINE="TRUE" if thorough else "FALSE"), ["FieldEquations"], spec="DSpec", workers=8,
              what="the field of the stated potential is the source of the Kerr-Newman metric")
    ses = vlib.record([(f"field-{k}", session, (k, 20)) for k in range(96 if thorough else 24)])
    ck.validate("BlackHoleTrace", ses, dict(MAXORD=1), what="potential and field tensor, both index positions")
