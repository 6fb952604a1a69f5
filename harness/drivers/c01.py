"""C01: the symbolic curvature pipeline equals the definition, on every route."""
import random
import vlib, sym
from . import curv

NAME = "Symbolic curvature pipeline"


def pick(rng, routes, n):
    """a sample of routes that keeps every (kind, last action) present"""
    routes = list(routes)
    rng.shuffle(routes)
    groups = {}
    for r in routes:
        groups.setdefault((r["kind"], r["path"][-1][0], len(r["path"])), []).append(r)
    out = []
    while len(out) < n and any(groups.values()):
        for g in list(groups):
            if groups[g] and len(out) < n:
                out.append(groups[g].pop())
    return out


def run(ck, thorough):
    rng = random.Random(vlib.SEED)
    kinds = '{"christoffel", "riemann", "ricci", "scalar", "einstein"}'
    routes = ck.generate("Routes", dict(MAXLEN=3, KINDS=kinds, MAXRECONF=1, PARENTLESS="TRUE"),
                         invariants=["WellFormed", "OneParentlessAtATime"])
    direct = [r for r in routes if len(r["path"]) == 1]
    chain = [dict(path=[["from_metric", "christoffel"], ["down", "riemann"], ["down", "ricci"]], kind="ricci", cfg="ll"),
             dict(path=[["from_metric", "christoffel"], ["down", "riemann"], ["down", "scalar"]], kind="scalar", cfg="")]
    ck.design("CurvatureDesign", consts=dict(PREC=0, NFAM=5 if not thorough else 12, MAXCH=1 if not thorough else 2), spec="DSpec",
              invariants=["TorsionFree", "MetricCompatible", "RiemannAntisym", "RiemannPair", "FirstBianchi", "RicciSymmetric",
                          "EinsteinTrace", "EinsteinDivergenceFree", "WeylTraceFree", "RoutesAgree"], workers=vlib.NPROC,
              what="the pipeline of Tensor.tla over a family of exact rational metrics in dimensions 2 to 4")
    jobs = []

    def job(name, n, kind, rts, npts=2):
        m = sym.gen_metric(random.Random(f"{vlib.SEED}:{name}"), name, n, kind, npts)
        jobs.append((name, curv.session, (m, rts)))
    # every route on two-dimensional metrics, a sample of routes in three dimensions, direct routes in four
    k2 = ["off", "rand_uu", "full", "diag"]
    for s, kd in enumerate(k2 if not thorough else k2 * 2):
        job(f"2D-{kd}-{s}", 2, kd, pick(rng, routes, 70 if not thorough else 400))
    for s, kd in enumerate(["diag", "off", "conf", "rand_uu", "wave", "full"] * (1 if not thorough else 3)):
        job(f"3D-{kd}-{s}", 3, kd, direct + chain + (pick(rng, routes, 14 if not thorough else 40) if kd != "full" else []))
    for s, kd in enumerate(["diag", "conf", "wave", "diag", "off", "warp"] * (1 if not thorough else 3)):
        job(f"4D-{kd}-{s}", 4, kd, direct + chain)
    if thorough:
        for s, kd in enumerate(["diag", "conf", "warp"]):
            job(f"5D-{kd}-{s}", 5, kd, direct, 1)
    ses = vlib.record(jobs, limit=400)
    ck.validate("CurvatureTrace", ses, what="every component of every derived object at rational points")
