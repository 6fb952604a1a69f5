"""C13: results do not depend on the units of the arguments."""
import math, random
import vlib
from vlib import outcome
from . import bh, c14, c25, c27, c29


def session(rec, k, n):
    rng = rec.rng
    w = bh.World(rec, units=True)
    for _ in range(n):
        M = rng.choice([1.989e30, 5.97e24, 8e36, 10 ** rng.uniform(24, 40)])
        name = rng.choice(["Schwarzschild", "Kerr", "KerrNewman"])
        a, rq = bh.hole_args(rng, name)
        if a * a + rq * rq > .999: rq = .9 * math.sqrt(max(0.0, 1 - a * a)) if a < 1 else 0.0
        h = w.hole(name, a=a, rq=rq, qm=rng.choice([0.0, 1e8]), M=M)
        x = w.place(h, rng.choice(["strong", "mid", "far"]))
        w.metric(h, x)
        w.roots(h)
        if rng.random() < .3: w.fvec(h, x, [1.2] + c14.three(rng, w.objs[h]["half"], x, ""))
        sys = rng.choice([bh.NEED[name], bh.NEED[name], "Cartesian"])
        xx = x if sys != "Cartesian" else [x[0]] + [x[1] * rng.uniform(-1, 1) for _ in range(3)]
        m = w.mover(sys, xx, c14.three(rng, w.objs[h]["half"], x, sys) if sys != "Cartesian" else [rng.uniform(-1e8, 1e8) for _ in range(3)])
        w.velocity(m, h)
        w.mover(sys, xx)


def reject(rec):
    """one dimensionally wrong argument at a time"""
    from einsteinpy import coordinates as co
    from einsteinpy.metric import Schwarzschild, Kerr, KerrNewman, BaseMetric
    from einsteinpy.bodies import Body
    rng = rec.rng
    wrong = {"t": ["m", "kg"], "len": ["s", "rad", "kg"], "ang": ["m", "s"], "vel": ["m", "s", "rad/s"], "avel": ["m/s", "rad"], "mass": ["m", "solMass/yr"],
             "charge": ["kg", "V"], "spin": ["m", "kg"], "qm": ["C", "kg"]}
    from astropy import units as u

    def attempts(kinds, make):
        good = [1.0 * bh.U(bh.SI[k]) for k in kinds]
        for i, k in enumerate(kinds):
            for wn in wrong[k] + [None]:
                if wn is None and k == "spin": continue          # a plain number is a dimensionless quantity
                args = list(good)
                args[i] = 1.0 if wn is None else 1.0 * u.Unit(wn)
                _, exc = outcome(make, *args)
                rec.ev("reject", exc=exc, argument=i, unit=str(wn))
    for sys in bh.KINDS:
        cs, cd = {"Cartesian": (co.Cartesian, co.CartesianDifferential), "Spherical": (co.Spherical, co.SphericalDifferential),
                  "BoyerLindquist": (co.BoyerLindquist, co.BoyerLindquistDifferential)}[sys]
        attempts(bh.KINDS[sys], cs)
        attempts(bh.KINDS[sys] + bh.VKINDS[sys], cd)
    s = co.Spherical(1 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad)
    b = co.BoyerLindquist(1 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad)
    attempts(("mass",), lambda M: Schwarzschild(coords=s, M=M))
    attempts(("mass", "spin"), lambda M, a: Kerr(coords=b, M=M, a=a))
    attempts(("mass", "spin", "charge", "qm"), lambda M, a, Q, q: KerrNewman(coords=b, M=M, a=a, Q=Q, q=q))
    attempts(("mass", "spin", "charge"), lambda M, a, Q: BaseMetric(coords=b, M=M, a=a, Q=Q))
    attempts(("mass", "charge", "len"), lambda M, Q, R: Body(mass=M, q=Q, R=R))


def run(ck, thorough):
    ses = vlib.record([(f"units-{k}", session, (k, 12)) for k in range(96 if thorough else 24)] + [("reject", reject, ())])
    ck.validate("BlackHoleTrace", ses, dict(MAXORD=1), what="the same physical arguments in every unit of Units.tla")
    # shadows, bodies and the scale factor take units, too
    sh = vlib.record([(f"shadow-{i}", shadows, (5,)) for i in range(24 if thorough else 6)])
    ck.validate("ShadowTrace", sh, dict(MAXDIM=1, MAXORD=1), what="shadows of masses and fields of view in several units")
    bo = vlib.record([(f"bodies-{i}", c29.history, (bodies(i),)) for i in range(120 if thorough else 30)] + [("table", c29.table, ())])
    ck.validate("BodyTrace", bo, dict(MAXDIM=1, MAXORD=1), what="bodies with data in several units; stripping of units")
    sf = vlib.record([(f"times-{i}", c25.session, (10,)) for i in range(40 if thorough else 6)])
    ck.validate("ExpansionTrace", sf, dict(MAXDIM=1, MAXORD=1), what="scale factor at times in several units")


def shadows(rec, n):
    w = c27.World(rec)
    for _ in range(n): w.make(6)


def bodies(i):
    rng = random.Random(f"{vlib.SEED}:bodies:{i}")
    return [dict(do="new", on=0, field="", given=["mass", "q", "R"], named=False, coords=rng.choice(["none", "cart", "sph", "bl"]), bad="") for _ in range(3)]
