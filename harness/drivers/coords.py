"""C11/C12: conversion histories of the real coordinate classes, recorded for CoordsTrace."""
import math, random
import vlib
from vlib import q, qs, outcome

METHOD = {"pos": {"Cartesian": "to_cartesian", "Spherical": "to_spherical", "BoyerLindquist": "to_bl"},
          "diff": {"Cartesian": "cartesian_differential", "Spherical": "spherical_differential", "BoyerLindquist": "bl_differential"}}
NAMES = {"Cartesian": ("x", "y", "z"), "Spherical": ("r", "theta", "phi"), "BoyerLindquist": ("r", "theta", "phi")}
VN = {"Cartesian": ("v_x", "v_y", "v_z"), "Spherical": ("v_r", "v_th", "v_p"), "BoyerLindquist": ("v_r", "v_th", "v_p")}
GM = 6.6743e-11 / 299792458.0 ** 2


def classes(kind):
    from einsteinpy import coordinates as co
    if kind == "pos":
        return {"Cartesian": co.Cartesian, "Spherical": co.Spherical, "BoyerLindquist": co.BoyerLindquist}
    return {"Cartesian": co.CartesianDifferential, "Spherical": co.SphericalDifferential, "BoyerLindquist": co.BoyerLindquistDifferential}


def units(kind, system):
    from astropy import units as u
    pos = (u.m, u.m, u.m) if system == "Cartesian" else (u.m, u.rad, u.rad)
    vel = (u.m / u.s,) * 3 if system == "Cartesian" else (u.m / u.s, u.rad / u.s, u.rad / u.s)
    return pos + (vel if kind == "diff" else ())


def build(kind, system, t, vals):
    from astropy import units as u
    return classes(kind)[system](t * u.s, *[x * w for x, w in zip(vals, units(kind, system))])


def parts(kind, o, system):
    cs = [getattr(o, n).si.value for n in NAMES[system]]
    vs = [getattr(o, n).si.value for n in VN[system]] if kind == "diff" else []
    return cs, vs


def place(rng, scale, kind, cls, alpha):
    """a place in Cartesian coordinates: class = general / plane / axis / equator / nearaxis / far / inside"""
    if cls == "inside" and alpha > .05 * scale:      # nearer to the centre than the spin length
        r, th, ph = alpha * rng.uniform(.2, .9), rng.choice([rng.uniform(.2, math.pi - .2), math.pi / 2]), rng.uniform(-math.pi, math.pi)
        w = math.hypot(r, alpha) * math.sin(th)
        return w * math.cos(ph), w * math.sin(ph), r * math.cos(th)
    s = lambda: rng.choice([-1, 1]) * scale * 10 ** rng.uniform(-.3, 2)
    x, y, z = s(), s(), s()
    if cls == "plane":
        w = rng.randrange(2)
        x, y = (0.0, y) if w else (x, 0.0)
    elif cls == "axis":
        x = y = 0.0
    elif cls == "equator":
        z = 0.0
        m = 2.1 * scale / math.hypot(x, y)
        x, y = (x * m, y * m) if m > 1 else (x, y)
    elif cls == "cardinal":
        k = rng.randrange(2 if kind == "diff" else 3)
        x, y, z = [(rng.choice([-1, 1]) * scale * rng.uniform(1.5, 9) if i == k else rng.choice([0.0, -0.0])) for i in range(3)]
    elif cls == "nearaxis":
        x, y = x * 1e-5, y * 1e-5
    elif cls == "mid":
        m = 10 ** rng.uniform(1, 6)
        x, y, z = x * m, y * m, z * m
    elif cls == "far":
        x, y, z = x * 1e12, y * 1e12, z * 1e12
    return x, y, z


def to_start(sys, alpha, c, v):
    """the same event in another system, computed independently (only chooses inputs; the specification recomputes the image)"""
    if sys == "Cartesian":
        return list(c), list(v)
    x, y, z = c
    al = alpha if sys == "BoyerLindquist" else 0.0
    R2 = x * x + y * y + z * z - al * al
    r = math.sqrt(.5 * (R2 + math.hypot(R2, 2 * al * z)))
    th = math.atan2(math.hypot(x, y) / math.hypot(r, al), z / r)
    return [r, th, math.atan2(y, x)], [v[0], v[1] / r, v[2] / r]


def raw(rec, kind, sys0, t, qv, vv, M, spin):
    """the conversion classes themselves: plain SI numbers, velocities only if all three are given"""
    from einsteinpy import coordinates as co
    rng = rec.rng
    to = rng.choice([x for x in NAMES if x != sys0])
    cls = {"Cartesian": co.CartesianConversion, "Spherical": co.SphericalConversion, "BoyerLindquist": co.BoyerLindquistConversion}[sys0]
    meth = {"Cartesian": "convert_cartesian", "Spherical": "convert_spherical", "BoyerLindquist": "convert_bl"}[to]
    given = [True] * 3 if kind == "diff" else [False] * 3 if rng.random() < .5 else rng.choice([[True, False, False], [False, True, True], [True, True, False], [False, False, True]])
    names = dict(zip(VN[sys0], [v if g else None for v, g in zip(vv, given)]))
    if rng.random() < .5: names = {k: v for k, v in names.items() if v is not None}
    o, exc = outcome(lambda: cls(t, *qv, **names)) if len(names) < 3 or rng.random() < .5 else outcome(lambda: cls(t, *qv, *names.values()))
    args = "both" if rng.random() < .8 else rng.choice(["M", "a", "none"])
    kw = {}
    if args in ("both", "M"): kw["M"] = M
    if args in ("both", "a"): kw["a"] = spin
    F = lambda x: [q(float(c)) for c in x]
    own = F(o.values()) if exc == "" else []
    if exc == "": out, exc = outcome(lambda: F(getattr(o, meth)(**kw)))
    rec.ev("raw", sys=sys0, to=to, args=args, M=q(M), a=q(spin), t=q(t), q=qs(qv), v=qs(vv), all=all(given), exc=exc, own=own, out=out if exc == "" else [])


def session(rec, kind, items):
    import numpy as np
    from astropy import units as u
    rng = rec.rng
    for (sys0, cls, spin, M, path, t) in items:
        scale = GM * M
        alpha = spin * scale
        c = place(rng, scale, kind, cls, alpha)
        v = [rng.uniform(-1, 1) * 1e7 for _ in range(3)]
        if rng.random() < .2: v[rng.randrange(3)] = 0.0
        if rng.random() < .05: v = [0.0, 0.0, 0.0]
        qv, vv = to_start(sys0, alpha, c, v)
        if sys0 != "Cartesian" and rng.random() < .3: qv[2] += rng.choice([0, 2 * math.pi, -2 * math.pi])
        if rng.random() < .4: raw(rec, kind, sys0, t, qv, vv, M, spin)
        o, exc = outcome(build, kind, sys0, t, qv + (vv if kind == "diff" else []))
        rec.ev("start", sys=sys0, kind=kind, M=q(M), a=q(spin), t=q(t), q=qs(qv), v=qs(vv), exc=exc)
        if o is None: continue
        cur = sys0
        for st in path:
            to = st["to"]
            kw = {}
            if st["args"] in ("both", "M"): kw["M"] = M * u.kg
            if st["args"] in ("both", "a"): kw["a"] = spin * u.one
            n, exc = outcome(lambda: getattr(o, METHOD[kind][to])(**kw))
            e = dict(to=to, args=st["args"], exc=exc, system="", cls="", wantcls=classes(kind)[to].__name__, t=q(0), q=[], v=[], qpos=[])
            if exc == "":
                qq, v2 = parts(kind, n, to)
                e.update(system=str(getattr(n, "system", "")), cls=type(n).__name__, t=q(n.t.si.value), q=qs(qq), v=qs(v2))
                if kind == "diff":
                    pc, _ = parts("diff", o, cur)
                    po = build("pos", cur, t, pc)
                    e["qpos"] = qs(parts("pos", getattr(po, METHOD["pos"][to])(**kw), to)[0])
            rec.ev("convert", **e)
            if exc == "": o, cur = n, to


CLASSES = ["general", "general", "general", "mid", "mid", "plane", "equator", "cardinal", "far", "inside", "axis", "nearaxis"]


def run(ck, thorough, kind):
    rng = random.Random(vlib.SEED + 11)
    ck.design("CoordsModel", dict(MAXDIM=1, MAXORD=1, MAXLEN=3 if thorough else 2, EMIT="FALSE"), ["SameEvent", "RoundTrip", "SpinlessIsSpherical"],
              spec="CSpec", workers=8, what="every path of conversions of 17 places (octants, planes, axes) x 4 spins: the event never changes")
    behs = [b["path"] for b in ck.generate("CoordsModel", dict(PREC=40, MAXDIM=1, MAXORD=1, MAXLEN=3, EMIT="TRUE"), spec="CSpec")]
    full = [b for b in behs if all(s["args"] == "both" for s in b)]
    part = [b for b in behs if not all(s["args"] == "both" for s in b)]
    jobs = []
    cl = [c for c in CLASSES if kind == "pos" or c not in ("axis", "nearaxis")]
    n = 0
    for k in range(64 if thorough else 24):
        items = []
        for i in range(30 if thorough else 18):
            # paths are generated from Cartesian; rotate the names for other starts
            base = rng.choice(full if rng.random() < .7 else part)
            s0 = rng.choice(["Cartesian", "Spherical", "BoyerLindquist"])
            perm = ["Cartesian", "Spherical", "BoyerLindquist"]
            perm = dict(zip(perm, {"Cartesian": perm, "Spherical": ["Spherical", "BoyerLindquist", "Cartesian"],
                                   "BoyerLindquist": ["BoyerLindquist", "Cartesian", "Spherical"]}[s0]))
            path, cur = [], s0
            for s in base:
                to = perm[s["to"]]
                if to == cur: break        # an earlier refused step left the object where it was
                path.append(dict(to=to, args=s["args"]))
                if s["args"] == "both" or "BoyerLindquist" not in (cur, to): cur = to
            items.append((s0, rng.choice(cl), rng.choice([0.0, 0.3, 0.5, 0.9, 1.0, rng.random()]),
                          rng.choice([1.0, 5.972e24, 1.989e30, 4e6 * 1.989e30, 10 ** rng.uniform(20, 40)]), path, rng.choice([0.0, 1.0, -3.5, rng.uniform(0, 1e9)])))
            n += 1
        jobs.append((f"{kind}-{k}", session, (kind, items)))
    ses = vlib.record(jobs)
    # one session per object for the trace specification
    out = []
    for name, evs in ses:
        cur = []
        for e in evs:
            if e["op"] == "raw":
                out.append((f"{name}-{len(out)}", [e])); continue
            if e["op"] == "start" and cur:
                out.append((f"{name}-{len(out)}", cur)); cur = []
            cur.append(e)
        out.append((f"{name}-{len(out)}", cur))
    ck.validate("CoordsTrace", out, dict(MAXDIM=1, MAXORD=1), what="conversion paths enumerated by CoordsModel at places of every kind, spins and masses")
    ck.assumptions.append("places off the disc r = 0 by a fifth of the spin length or half a gravitational radius (inside the spin length, axis, planes, octants, far field included); velocities away from the polar axis")
