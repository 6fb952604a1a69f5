"""C03: what the library returns obeys the identities of differential geometry."""
import random
import vlib, sym
from . import curv


def run(ck, thorough):
    ck.design("CurvatureDesign", consts=dict(PREC=0, NFAM=6 if not thorough else 12, MAXCH=0), spec="DSpec",
              invariants=["TorsionFree", "MetricCompatible", "RiemannAntisym", "RiemannPair", "FirstBianchi", "RicciSymmetric",
                          "EinsteinTrace", "EinsteinDivergenceFree", "WeylTraceFree"], workers=vlib.NPROC,
              what="the identities themselves, exactly, on the specification's pipeline")
    jobs = []

    def job(name, n, kind, npts=2, weyl=True):
        m = sym.gen_metric(random.Random(f"{vlib.SEED}:c03:{name}"), name, n, kind, npts)
        jobs.append((name, curv.identities, (m, weyl)))
    rep = 1 if not thorough else 3
    for s, kd in enumerate(["off", "rand_uu", "full", "diag"] * rep):
        job(f"2D-{kd}-{s}", 2, kd)
    for s, kd in enumerate(["diag", "off", "conf", "rand_uu", "wave", "full"] * rep):
        job(f"3D-{kd}-{s}", 3, kd)
    for s, kd in enumerate(["diag", "conf", "wave", "warp", "off"] * rep):
        job(f"4D-{kd}-{s}", 4, kd)
    job("5D-diag", 5, "diag", 1, False)
    if thorough:
        job("5D-warp", 5, "warp", 1)
        job("5D-conf", 5, "conf", 1, False)
    ses = vlib.record(jobs, limit=600)
    ck.validate("CurvatureTrace", ses, what="symmetries, Bianchi identities, metric compatibility, trace freedom of recorded tensors")
