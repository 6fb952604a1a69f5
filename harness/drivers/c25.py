"""C25: cosmological scale factor."""
import importlib, random
import numpy as np
import vlib
from vlib import q, qs, outcome
from . import bh

WHAT = {"factor": "scalar_factor", "rate": "scalar_factor_derivative"}


def times(rng, era, n):
    out = []
    for _ in range(n):
        si = 10 ** rng.uniform(14, 19) if era == "ded" and rng.random() < .8 else rng.choice([10 ** rng.uniform(-6, 18), 1.0, 8.0, 27.0, 10 ** rng.uniform(-2, 3)])
        if era == "ded" and rng.random() < .3: si = -si           # the exponential law has a past
        if era == "ded" and rng.random() < .05: si = 0.0
        out.append(bh.inunit(rng, "t", si, rng.random() < .7))
    return out


def session(rec, n):
    sf = importlib.import_module("einsteinpy.utils.scalar_factor")
    from astropy import units as u
    rng = rec.rng
    for _ in range(n):
        era = rng.choice(["md", "rd", "ded", "md", "rd", "ded", rng.choice(["MD", "", "dd", None, "matter", "de", "m", 5, "mdx", "rd "])])
        k = rng.choice([1, 1, 2, 3])
        ts = times(rng, era, k)
        unit = rng.choice(bh.UNITS["t"])
        arr = k > 1
        if arr:
            f = (1 * bh.U(unit)).si.value
            ts = [(float(bh.quant(t).si.value / f), unit) for t in ts]
            t = np.array([x for x, _ in ts]) * bh.U(unit)
        else: t = bh.quant(ts[0])
        tune = rng.choice([None, 1.0, rng.uniform(.1, 5), rng.uniform(-3, 3), 2, 0.0])
        for what in rng.sample(["factor", "rate"], 2):
            kw = {}
            if era != "md" or rng.random() < .5: kw["era"] = era
            if tune is not None: kw["tuning_param"] = tune
            r, exc = outcome(getattr(sf, WHAT[what]), t, **kw)
            rec.ev("ask", what=what, era=era if isinstance(era, str) else repr(era), ts=bh.encs(ts), tune=q(1 if tune is None else tune), exc=exc,
                   out=qs(np.atleast_1d(np.asarray(getattr(r, "value", r), float))) if exc == "" else [])
    for what in WHAT:
        if True:
            # time zero of the decelerating eras
            for era in ("md", "rd"):
                r, exc = outcome(sf.scalar_factor, 0 * u.s, era=era)
                rec.ev("ask", what="factor", era=era, ts=[[q(0), "s"]], tune=q(1), exc=exc, out=qs([float(r)]) if exc == "" else [])
        for bad in (3 * u.m, 2 * u.kg, 1 * u.m / u.s, 5.0):
            _, exc = outcome(getattr(sf, WHAT[what]), bad, era=rng.choice(["md", "rd", "ded"]))
            rec.ev("refuse", exc=exc)


def run(ck, thorough):
    ck.design("ExpansionDesign", dict(STEPS=30 if thorough else 14, MAXDIM=1, MAXORD=1), ["PairConsistent", "FriedmannLaw"], ["Grows"], spec="ESpec",
              what="stated rate is the derivative of the law in each era; the law obeys the era's equation")
    ses = vlib.record([(f"times-{i}", session, (20,)) for i in range(200 if thorough else 24)])
    ck.validate("ExpansionTrace", ses, dict(MAXDIM=1, MAXORD=1), what="both functions at random times, units, eras and tuning parameters, scalar and array")
