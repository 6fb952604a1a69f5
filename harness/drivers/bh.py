"""Recording the numeric metrics and movers (C13-C19) for BlackHoleTrace."""
import math, random
import numpy as np
import vlib
from vlib import q, qs, outcome, qf
from fractions import Fraction

G, C = 6.6743e-11, 299792458.0
KE = 1 / (4 * math.pi * 8.8541878188e-12)
NEED = {"Schwarzschild": "Spherical", "Kerr": "BoyerLindquist", "KerrNewman": "BoyerLindquist"}
UNITS = {"t": ["s", "min", "h", "d", "yr", "ms", "Gyr"], "len": ["m", "km", "cm", "AU", "pc", "kpc", "lyr"], "ang": ["rad", "deg", "arcmin", "hourangle"],
         "vel": ["m/s", "km/s", "km/h", "AU/yr", "cm/s"], "avel": ["rad/s", "deg/s", "rad/min", "deg/h", "rad/yr"], "mass": ["kg", "g", "t", "solMass"],
         "charge": ["C", "mC", "uC"], "spin": ["", "%"], "qm": ["C/kg", "uC/g", "C/g"]}
SI = {"t": "s", "len": "m", "ang": "rad", "vel": "m/s", "avel": "rad/s", "mass": "kg", "charge": "C", "spin": "", "qm": "C/kg"}
KINDS = {"Cartesian": ("t", "len", "len", "len"), "Spherical": ("t", "len", "ang", "ang"), "BoyerLindquist": ("t", "len", "ang", "ang")}
VKINDS = {"Cartesian": ("vel",) * 3, "Spherical": ("vel", "avel", "avel"), "BoyerLindquist": ("vel", "avel", "avel")}
NAMES = {"Cartesian": ("t", "x", "y", "z"), "Spherical": ("t", "r", "theta", "phi"), "BoyerLindquist": ("t", "r", "theta", "phi")}
VNAMES = {"Cartesian": ("v_x", "v_y", "v_z"), "Spherical": ("v_r", "v_th", "v_p"), "BoyerLindquist": ("v_r", "v_th", "v_p")}


def U(name):
    from astropy import units as u
    if name == "": return u.one
    if name == "%": return u.percent
    if name == "t": return u.t
    return u.Unit(name)


def quant(p):
    return p[0] * U(p[1])


def enc(p):
    return [q(p[0]), p[1]]


def encs(s):
    return [enc(p) for p in s]


def uname(x):
    return str(x.unit).replace(" ", "")


def encq(x):
    """a Quantity as it is held"""
    return [q(x.value), uname(x)] if hasattr(x, "unit") else [q(x), "none"]


def inunit(rng, kind, si, other):
    """the quantity `si` (SI number), expressed in a random unit if other"""
    if not other: return (si, SI[kind])
    n = rng.choice(UNITS[kind])
    f = (1 * U(n)).si.value
    return (float(si / f), n)


class World:
    def __init__(self, rec, units=False):
        self.rec, self.rng, self.units, self.n = rec, rec.rng, units, 0
        self.objs = {}

    def _id(self, o):
        self.n += 1
        self.objs[self.n] = o
        return self.n

    def hole(self, name, sys=None, M=None, a=0.0, rq=0.0, qm=0.0, under="Kerr", pert=None, tab=None):
        """rq: charge length in units of G M/c^2; pert: callable x -> 4x4; tab: the components of a metric of one's own (name "general")"""
        from einsteinpy import coordinates as co
        from einsteinpy.metric import BaseMetric, Kerr, KerrNewman, Schwarzschild
        from astropy import units as u
        rng = self.rng
        sys = sys or NEED.get(name) or NEED[under]
        M = M or rng.choice([1.989e30, 5.97e24, 8e36, 10 ** rng.uniform(22, 40)])
        charge = rq * math.sqrt(G / KE) * M
        ap = inunit(rng, "spin", a, self.units)
        Mp, Qp, qp = inunit(rng, "mass", M, self.units), inunit(rng, "charge", charge, self.units), inunit(rng, "qm", qm, self.units)
        cs = {"Cartesian": co.Cartesian, "Spherical": co.Spherical, "BoyerLindquist": co.BoyerLindquist}[sys]
        cds = {"Cartesian": co.CartesianDifferential, "Spherical": co.SphericalDifferential, "BoyerLindquist": co.BoyerLindquistDifferential}[sys]
        vals = [1.0 * U(SI[k]) for k in KINDS[sys] + VKINDS[sys]]
        coords = cs(*vals[:4]) if rng.random() < .5 else cds(*vals)
        un = under if name == "user" else name
        if un == "Schwarzschild": ap, Qp = (0.0, ""), (0.0, "C")
        if un != "KerrNewman": Qp = (0.0, "C")
        if name != "KerrNewman": qp = (0.0, "C/kg")

        def make():
            if name == "Schwarzschild": return Schwarzschild(coords=coords, M=quant(Mp))
            if name == "Kerr": return Kerr(coords=coords, M=quant(Mp), a=quant(ap))
            if name == "KerrNewman": return KerrNewman(coords=coords, M=quant(Mp), a=quant(ap), Q=quant(Qp), q=quant(qp))
            if tab is not None: return BaseMetric(coords=coords, M=quant(Mp), a=quant(ap), Q=quant(Qp), name="mine", metric_cov=lambda x_vec: tab.copy())
            good = co.BoyerLindquist(*vals[:4]) if NEED[under] == "BoyerLindquist" else co.Spherical(*vals[:4])
            base = {"Schwarzschild": lambda: Schwarzschild(coords=good, M=quant(Mp)), "Kerr": lambda: Kerr(coords=good, M=quant(Mp), a=quant(ap)),
                    "KerrNewman": lambda: KerrNewman(coords=good, M=quant(Mp), a=quant(ap), Q=quant(Qp))}[under]()
            return BaseMetric(coords=coords, M=quant(Mp), a=quant(ap), Q=quant(Qp), name="mine", metric_cov=base.metric_covariant, perturbation=pert)
        o, exc = outcome(make)
        rs, e2 = outcome(lambda: float(o.sch_rad))
        self.rec.ev("hole", name=name, under=un, sys=sys, M=enc(Mp), a=enc(ap), Q=enc(Qp), q=enc(qp), exc=exc, rs=q(rs) if e2 == "" else q(float("nan")),
                    tab=qs(tab.ravel()) if tab is not None else [])
        hid = self._id(o)
        alpha, half = a * G * M / C ** 2, G * M / C ** 2
        self.objs[hid] = dict(o=o, name=name, sys=sys, M=M, a=a, rq=rq, half=half, alpha=alpha, pert=pert)
        return hid

    def place(self, hid, cls=None):
        """(t, r, theta, phi) in SI away from the horizon surfaces"""
        rng, h = self.rng, self.objs[hid]
        half = h["half"]
        d = 1 - h["a"] ** 2 - h["rq"] ** 2
        cls = cls or rng.choice(["strong", "strong", "strong", "inner", "far", "mid"])
        for _ in range(200):
            r = half * {"strong": rng.uniform(1.0, 6), "inner": rng.uniform(0.02, 2.2), "mid": 10 ** rng.uniform(.5, 2.5), "far": 10 ** rng.uniform(3, 9)}[cls]
            dl = r * r - 2 * half * r + (h["a"] ** 2 + h["rq"] ** 2) * half ** 2
            if abs(dl) > 2e-2 * (r * r + 2 * half * r) * .2: break
            cls = "mid"
        th = rng.choice([rng.uniform(.05, math.pi - .05), math.pi / 2, rng.uniform(.3, 2.8), math.pi / 4, math.pi / 6])
        return [rng.choice([0.0, rng.uniform(-1e6, 1e6)]), r, th, rng.uniform(-7, 7)]

    def xvec(self, x):
        """what the code is given: (c t, ...) as position() yields, or a list or array"""
        v = [C * x[0], x[1], x[2], x[3]]
        return self.rng.choice([np.array(v), v, tuple(v)])

    def metric(self, hid, x, contra=True):
        h = self.objs[hid]; o = h["o"]
        xv = self.xvec(x)
        g, exc = outcome(o.metric_covariant, xv)
        gi, e2 = outcome(o.metric_contravariant, xv) if contra else (None, "")
        if exc == "" and e2 != "": exc = e2
        pert = qs(np.asarray(h["pert"](xv), float).ravel()) if h["pert"] else []
        self.rec.ev("metric", id=hid, x=encs(self.xenc(x)), exc=exc, g=flat(g) if exc == "" else [], gi=flat(gi) if exc == "" and contra else [], pert=pert)

    def xenc(self, x):
        return [(x[0], "s"), (x[1], "m"), (x[2], "rad"), (x[3], "rad")]

    def gamma(self, hid, x):
        o = self.objs[hid]["o"]
        ch, exc = outcome(lambda: o.christoffels(np.array(self.xvec(x))))
        self.rec.ev("gamma", id=hid, x=encs(self.xenc(x)), exc=exc, ch=flat(ch) if exc == "" else [])

    def fvec(self, hid, x, u):
        o = self.objs[hid]["o"]
        kind = self.rng.choice(["float", "float", "float", "list", "int"])
        if kind == "int":                # whole numbers are numbers too
            x = [0.0, float(max(1, round(x[1]))), float(self.rng.choice([1, 2])), float(round(x[3]))]
            u = [float(max(1, round(u[0])))] + [float(round(c)) for c in u[1:]]
        v = np.array([C * x[0], x[1], x[2], x[3]] + list(u))
        if kind == "int" and max(abs(v)) < 2 ** 62: v = v.astype(np.int64)
        lam = self.rng.choice([0.0, 1.5])
        keep = v.copy()
        out, exc = outcome(o.f_vec, lam, list(v) if kind == "list" else v)
        assert (v == keep).all()
        self.rec.ev("fvec", id=hid, x=encs(self.xenc(x)), u=qs(u), exc=exc, out=flat(out) if exc == "" else [])

    def em(self, hid, x, curl=True):
        o = self.objs[hid]["o"]
        xv = np.array(self.xvec(x))
        res = [outcome(f, xv) for f in (o.em_potential_covariant, o.em_potential_contravariant, o.em_tensor_covariant, o.em_tensor_contravariant)]
        exc = next((e for _, e in res if e), "")
        A, Au, F, Fu = [flat(r) if exc == "" else [] for r, _ in res]
        self.rec.ev("em", id=hid, curl=curl, x=encs(self.xenc(x)), exc=exc, A=A, Au=Au, F=F, Fu=Fu)

    def roots(self, hid):
        o = self.objs[hid]["o"]
        ths = [0.0, math.pi / 2, math.pi] + [self.rng.uniform(0, math.pi) for _ in range(3)]
        self.rng.shuffle(ths); ths = ths[:4]

        def f(x, t):
            return float(x(t)) if callable(x) else float(x)
        r, exc = outcome(o.singularities)
        e = dict(id=hid, exc=exc, th=qs(ths), ie=[], ih=q(0), oh=q(0), oe=[])
        if exc == "":
            e.update(ih=q(f(r["inner_horizon"], 0)), oh=q(f(r["outer_horizon"], 0)), ie=qs([f(r["inner_ergosphere"], t) for t in ths]),
                     oe=qs([f(r["outer_ergosphere"], t) for t in ths]))
        self.rec.ev("roots", **e)

    def aux(self, fn, args, kinds, plain):
        """args in SI; plain: SI floats, else quantities in random units"""
        from einsteinpy.metric import BaseMetric
        ps = [(a, "") if pl else inunit(self.rng, k, a, True) for a, k, pl in zip(args, kinds, plain)]
        real = [p[0] if pl else quant(p) for p, pl in zip(ps, plain)]
        v, exc = outcome(lambda: getattr(BaseMetric, fn)(*real))
        if exc == "" and hasattr(v, "unit"): v = v.si.value
        self.rec.ev("aux", fn=fn, args=encs(ps), exc=exc, val=q(v) if exc == "" else q(0))

    def mover(self, sys, x, v=None):
        from einsteinpy import coordinates as co
        rng = self.rng
        xp = [inunit(rng, k, s, self.units) for k, s in zip(KINDS[sys], x)]
        vp = [inunit(rng, k, s, self.units) for k, s in zip(VKINDS[sys], v)] if v is not None else []
        cl = {"Cartesian": (co.Cartesian, co.CartesianDifferential), "Spherical": (co.Spherical, co.SphericalDifferential),
              "BoyerLindquist": (co.BoyerLindquist, co.BoyerLindquistDifferential)}[sys][v is not None]
        o, exc = outcome(lambda: cl(*[quant(p) for p in xp + vp]))
        e = dict(sys=sys, x=encs(xp), v=encs(vp), exc=exc, pos=[], byname=[], byindex=[], attr=[], sysname="")
        if exc == "":
            e["pos"] = qs(o.position())
            names = NAMES[sys]
            e["attr"] = [encq(getattr(o, n)) for n in names + (VNAMES[sys] if v is not None else ())]
            if v is None:
                e["byname"] = [encq(o[n]) for n in names]
                e["byindex"] = [encq(o[rng.choice([i, i - 4, np.int64(i)])]) for i in range(4)]
                e["sysname"] = str(o["system"])
            else:
                e["byname"] = e["byindex"] = e["x"]
                e["sysname"] = str(o.system)
        self.rec.ev("mover", **e)
        i = self._id(o)
        self.objs[i] = dict(o=o, sys=sys)
        return i

    def lorentz(self, v):
        from einsteinpy.coordinates.utils import lorentz_factor
        g, exc = outcome(lambda: float(lorentz_factor(*v)))
        self.rec.ev("lorentz", v=qs(v), exc=exc, val=q(g) if exc == "" else q(0))

    def velocity(self, mid, hid):
        m, h0 = self.objs[mid]["o"], self.objs[hid]
        h = h0["o"]
        u, exc = outcome(m.velocity, h)
        vt = m.v_t
        pert = qs(np.asarray(h0["pert"](m.position()), float).ravel()) if h0.get("pert") else []
        self.rec.ev("velocity", pert=pert, mover=mid, hole=hid, exc=exc, u=qs(u) if exc == "" else [], vt=q(vt.to("m/s").value) if vt is not None and speed(vt) else q(float("nan")))


def speed(x):
    return hasattr(x, "unit") and x.unit.physical_type == "speed"


def flat(a):
    return qs(np.asarray(a, float).ravel())


def shape_ok(a, n):
    return np.asarray(a).shape == n


def spins(rng):
    return rng.choice([0.0, .3, .5, .9, .998, 1.0, rng.random(), rng.random()])


def hole_args(rng, name):
    a = spins(rng) if name in ("Kerr", "KerrNewman") else 0.0
    rq = 0.0
    if name == "KerrNewman":
        rq = rng.choice([0.0, 1.0, 1.0, 1.0]) * rng.choice([-1, 1]) * rng.uniform(.05, .97) * math.sqrt(max(0.0, 1 - a * a))
        if rng.random() < .15: rq = rng.uniform(.1, 1.5)        # also beyond extremality: the line element is the same
    return a, rq
