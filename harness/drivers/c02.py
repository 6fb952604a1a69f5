"""C02: Weyl, Schouten and stress-energy tensors are the stated combinations."""
import random
import vlib, sym
from . import curv

INV = ["RiemannAntisym", "RiemannPair", "RicciSymmetric", "EinsteinTrace", "WeylTraceFree", "RoutesAgree"]


def run(ck, thorough):
    rng = random.Random(vlib.SEED + 2)
    routes = ck.generate("Routes", dict(MAXLEN=2, KINDS='{"weyl", "schouten", "stress"}', MAXRECONF=1, PARENTLESS="FALSE"),
                         invariants=["WellFormed"])
    ck.design("CurvatureDesign", consts=dict(PREC=0, NFAM=5 if not thorough else 12, MAXCH=1), spec="DSpec", invariants=INV,
              workers=vlib.NPROC, what="Weyl trace free, zero in dimension 3, configuration changes of Weyl and Schouten path independent")
    direct = [r for r in routes if len(r["path"]) == 1]
    ss = [r for r in routes if r["kind"] != "weyl"]
    jobs = []

    def job(name, n, kind, rts, npts=2, refused=()):
        m = sym.gen_metric(random.Random(f"{vlib.SEED}:{name}"), name, n, kind, npts)
        jobs.append((name, curv.session, (m, rts, 2, refused)))
    for s, kd in enumerate(["off", "rand_uu", "diag", "full"]):
        job(f"2D-{kd}-{s}", 2, kd, [r for r in ss if r["kind"] == "stress"], refused=("weyl", "schouten"))
    for s, kd in enumerate(["diag", "off", "conf", "wave", "full", "diag_uu", "wave_uu"] * (1 if not thorough else 3)):
        job(f"3D-{kd}-{s}", 3, kd, direct + rng.sample(ss, 3 if not thorough else 8) + [r for r in routes if r["kind"] == "weyl"][:2])
    few = lambda k: direct + [r for r in routes if r["kind"] == "weyl" and len(r["path"]) == 2][:k]
    for s, kd in enumerate(["diag", "conf", "wave", "warp", "off", "diag", "diag_uu"] * (1 if not thorough else 3)):
        job(f"4D-{kd}-{s}", 4, kd, few(1 if kd in ("conf", "wave", "warp") else 0))
    job("5D-warp", 5, "warp", direct, 1)
    job("5D-warp_uu", 5, "warp_uu", direct, 1)
    if thorough:
        for s, kd in enumerate(["diag", "conf", "wave", "conf_uu"]):
            job(f"5D-{kd}-{s}", 5, kd, direct, 1)
    ses = vlib.record(jobs, limit=600)
    ck.validate("CurvatureTrace", ses, what="Weyl, Schouten, stress-energy components at rational points")
