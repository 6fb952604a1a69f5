"""C23: geodesic trajectories."""
import vlib
from . import geo


def run(ck, thorough):
    ck.design("SymplecticDesign", dict(DEEP="FALSE", MAXDIM=4, MAXORD=1), ["Reversible", "ClosedForm", "Momentum"], spec="DSpec", workers=8, what="the specified scheme on its own")
    jobs = [(f"geodesic-{i}", geo.geodesic, (3, i % 4 == 0)) for i in range(250 if thorough else 56)]
    jobs += [(f"longer-{i}", geo.geodesic, (1, False, 25 if thorough else 10)) for i in range(40 if thorough else 12)]
    jobs += [(f"equal-{i}", geo.equals, (4,)) for i in range(60 if thorough else 10)]
    ses = vlib.record(jobs)
    ck.validate("GeodesicTrace", ses, dict(MAXDIM=4, MAXORD=1), what="geodesics of all metrics, orders, options and shorthands, simulated by the specification step by step")
