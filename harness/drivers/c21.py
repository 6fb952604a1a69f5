"""C21: completed 4-momentum."""
import vlib
from . import geo


def run(ck, thorough):
    ck.design("SymplecticDesign", dict(DEEP="TRUE" if thorough else "FALSE", MAXDIM=4, MAXORD=1), ["ClosedForm", "Momentum"], spec="DSpec", workers=8,
              what="the root of the convention is on the mass shell and future directed; closed contravariant form")
    jobs = [(f"momentum-{i}", geo.mom, (24,)) for i in range(400 if thorough else 48)]
    jobs += [(f"geodesic-{i}", geo.geodesic, (6, False, 1)) for i in range(80 if thorough else 16)]
    ses = vlib.record(jobs)
    ck.validate("GeodesicTrace", ses, dict(MAXDIM=4, MAXORD=1), what="initial momenta of built-in and user metrics")
