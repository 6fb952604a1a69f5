"""Shared by C01-C03: derive curvature objects of a symbolic metric by specified routes and record them."""
import sympy
import vlib
from vlib import q, qs
import sym


def classes():
    from einsteinpy import symbolic as S
    return dict(christoffel=S.ChristoffelSymbols, riemann=S.RiemannCurvatureTensor, ricci=S.RicciTensor, scalar=S.RicciScalar,
                einstein=S.EinsteinTensor, schouten=S.SchoutenTensor, weyl=S.WeylTensor,
                stress=S.StressEnergyMomentumTensor)


DOWN = dict(christoffel="from_christoffels", riemann="from_riemann", ricci="from_riccitensor")


def follow(m, mt, routes):
    """Objects reached by the routes (list of action lists) from metric object mt: {route key: (kind, cfg, object)}"""
    C = classes()
    done = {}

    def get(path):
        key = tuple(map(tuple, path))
        if key in done:
            return done[key]
        act, arg = path[-1]
        if act == "from_metric":
            res = (arg, C[arg].from_metric(mt))
        else:
            kind, o = get(path[:-1])
            pm = None if o.parent_metric is not None else mt
            if act == "down":
                f = getattr(C[arg], DOWN[kind])
                res = (arg, f(o, parent_metric=pm) if pm is not None else f(o))
            elif act == "reconf":
                res = (kind, o.change_config(arg, metric=pm) if pm is not None else o.change_config(arg))
            elif act == "orphan":
                res = (kind, C[kind](o.tensor(), o.symbols(), config=o.config))
        done[key] = res
        return res
    out = []
    for r in routes:
        kind, o = get(r["path"])
        out.append((r, kind, o))
    return out


def consts():
    from einsteinpy.symbolic.constants import c, G, Cosmo_Const
    return [c, G, Cosmo_Const]


CVALS = [[(3, 2), (2, 3), (5, 7)], [(5, 4), (7, 5), (-2, 3)], [(4, 3), (1, 2), (0, 1)]]


def maps_of(m, stress=False):
    from fractions import Fraction
    cs = consts() if stress else []
    maps, cv = [], []
    for i in range(len(m.pts)):
        d = m.subsmap(i)
        vals = [Fraction(*x) for x in CVALS[i % 3]]
        if stress:
            d.update(zip(cs, vals))
        maps.append(d); cv.append(vals if stress else [])
    return maps, cv


def session(rec, m, routes, K=2, refused=()):
    """One metric; objects derived once, their values recorded at every point."""
    mt = m.build()
    objs = follow(m, mt, routes)
    rec.ev("metric", **m.event(K))
    for kind in refused:
        _, exc = vlib.outcome(classes()[kind].from_metric, mt)
        rec.ev("refused", kind=kind, exc=exc)
    maps, cv = maps_of(m, any(k == "stress" for _, k, _ in objs))
    seen, vals = {}, []
    for r, kind, o in objs:
        key = id(o)
        if key not in seen:
            seen[key] = sym.tvals(o, maps)
        vals.append(seen[key])
    for i in range(len(maps)):
        rec.ev("point", pt=qs(m.pts[i]), pr=qs(m.prs[i]), consts=qs(cv[i]))
        for (r, kind, o), vv in zip(objs, vals):
            rec.ev("object", kind=kind, want=list(r["cfg"]), config=o.config, route=" ".join(a + ":" + b for a, b in r["path"]),
                   val=vv[i])


def identities(rec, m, with_weyl=True, K=2):
    """Everything the library computes for one metric, for the identities of C03."""
    C = classes()
    mt = m.build()
    o = {k: C[k].from_metric(mt) for k in ("christoffel", "riemann", "ricci", "einstein", "stress")}
    o["riemann_llll"] = o["riemann"].change_config("llll")
    if m.n >= 3:
        o["schouten"] = C["schouten"].from_metric(mt)
        if with_weyl:
            o["weyl"] = C["weyl"].from_metric(mt)
    maps, cv = maps_of(m, True)
    vals = {k: sym.tvals(x, maps) for k, x in o.items()}
    ein = sym.flat(o["einstein"])
    vals["deinstein"] = sym.evals([sympy.diff(x, w) for w in m.X for x in ein], maps)
    rec.ev("metric", **m.event(K))
    for i in range(len(maps)):
        rec.ev("point", pt=qs(m.pts[i]), pr=qs(m.prs[i]), consts=qs(cv[i]))
        rec.ev("identities", **{k: (vals[k][i] if k in vals else []) for k in
                                ("christoffel", "riemann", "riemann_llll", "ricci", "einstein", "stress", "schouten", "weyl", "deinstein")})
