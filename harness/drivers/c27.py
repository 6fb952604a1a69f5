"""C27: black-hole shadow."""
import importlib, math, random
import numpy as np
import vlib
from vlib import q, qs, outcome
from . import bh


class World:
    def __init__(self, rec):
        self.rec, self.rng, self.objs = rec, rec.rng, []
        self.cls = importlib.import_module("einsteinpy.rays.shadow").Shadow

    def make(self, most=9):
        rng = self.rng
        M = rng.choice([1.0, 1.0, .5, 2.3, 10 ** rng.uniform(-2, 4), rng.uniform(.1, 20)])
        bc = 3 * math.sqrt(3) * M
        fov = bc * rng.choice([1.0003, 1.02, 1.5, 3, 6, rng.uniform(1.1, 40), rng.uniform(1.1, 40)]) if rng.random() < .94 else bc * rng.uniform(.5, .99)
        m = bh.inunit(rng, "mass", M, rng.random() < .5)
        f = bh.inunit(rng, "len", 1000 * fov, True) if rng.random() < .5 else (fov, "km")
        n = rng.choice([4, 5, 6, most, rng.randint(4, most)])
        kw = {}
        if rng.random() < .6 or bc < .01: kw["limit"] = rng.choice([.001, .01, .3]) * bc
        limit = kw.get("limit", .001)
        o, exc = outcome(self.cls, bh.quant(m), n, bh.quant(f), **kw) if rng.random() < .5 else outcome(lambda: self.cls(mass=bh.quant(m), n_rays=n, fov=bh.quant(f), **kw))
        L = lambda v: qs([float(getattr(x, "value", x)) for x in v])
        d = dict(M=q(0), fovkm=q(0), horizon=q(0), bcrit=q(0), b=[], bfin=[], z=[], b2=[], intensity=[], fb1=[], fb2=[])
        if exc == "":
            d = dict(M=q(o.mass.to("kg").value), fovkm=q(o.fov.to("km").value), horizon=q(float(o.horizon)), bcrit=q(float(getattr(o.b_crit, "value", o.b_crit))), b=L(o.b), bfin=L(o.bfin),
                     z=[L(r) for r in o.z], b2=L(o.b2), intensity=L(o.intensity), fb1=L(o.fb1), fb2=L(o.fb2))
        self.rec.ev("make", mass=bh.enc(m), fov=bh.enc(f), n=n, limit=q(limit), exc=exc, **d)
        self.objs.append((o, len(d["fb1"])))

    def smooth(self, i):
        rng = self.rng
        o, n = self.objs[i - 1]
        if n < 6 : return
        p = rng.choice([7, 12, 20, 40])
        _, exc = outcome(o.smoothen, p) if rng.random() < .8 else outcome(lambda: o.smoothen(points=p))
        L = lambda v: qs([float(x) for x in v])
        self.rec.ev("smooth", id=i, points=p, exc=exc, fb1=L(o.fb1), fb2=L(o.fb2), intensity=L(o.intensity))
        self.objs[i - 1] = (o, p)


def session(rec, n):
    rng = rec.rng
    w = World(rec)
    for _ in range(2): w.make()
    for _ in range(n):
        if rng.random() < .3: w.make()
        else: w.smooth(rng.randint(1, len(w.objs)))


def refuse(rec):
    from astropy import units as u
    w = World(rec)
    for a, b in ((1 * u.m, 30 * u.km), (1 * u.kg, 30 * u.s), (1.0, 30 * u.km), (1 * u.kg, 30.0)):
        _, exc = outcome(w.cls, a, 5, b)
        rec.ev("refuse", exc=exc)


def run(ck, thorough):
    ck.design("ShadowDesign", dict(STEPS=40 if thorough else 12, MASSES="{1, 4, 37, 4000}", MAXDIM=1, MAXORD=1), ["Outer", "Positive", "InnerOk", "GaussExact", "SplineOk"], spec="SSpec", workers=8,
              what="rays swept over impact parameters and masses: turning points, positive intensities, scaling, quadrature and spline exactness")
    ses = vlib.record([(f"shadow-{i}", session, (6,)) for i in range(160 if thorough else 24)] + [("refuse", refuse, ())])
    ck.validate("ShadowTrace", ses, dict(MAXDIM=1, MAXORD=1), what="several shadows smoothed alternately and repeatedly: masses and fields of view in several units")
