"""Recording momenta, the symplectic integrator and geodesics (C21-C23)."""
import math, warnings
import numpy as np
from vlib import q, qs, outcome
import sym
from . import dualx


def smooth(t):
    """defined and smooth everywhere"""
    if t[0] in ("/", "ln", "powq", "sqrt", "tan") or (t[0] == "^" and t[2] < 0): return False
    return all(smooth(s) for s in t[1:] if isinstance(s, list) and s and isinstance(s[0], str))


def truth(rng, b):
    """a yes or no, in the forms it comes in"""
    return rng.choice([b, b, np.bool_(b), int(b)])


class Metric:
    """a metric both the code and the specification know"""
    def __init__(self, rng, kind=None, wild=False, t0=None):
        self.kind = kind or rng.choice(["Schwarzschild", "Kerr", "Kerr", "KerrNewman", "KerrNewman", "tree", "tree", "tree"])
        if self.kind != "tree":
            self.prm = dualx.mprm(rng, self.kind)
            self.comps = []
            self.fn = dualx.builtin(self.kind)
            self.spec = self.kind
        else:
            self.prm = [rng.uniform(.3, 1.5) for _ in range(rng.choice([0, 1, 2]))]
            self.X = [rng.choice([-1, 1, 1]) * rng.uniform(.4, 1.6) for _ in range(4)]
            if t0 is not None: self.X[0] = t0
            self.comps = self.gentle(rng, wild)
            self.fn = dualx.metric_fn(self.comps, name=rng.choice(["mymetric", "ellis", "Kerr_like", "Schwarzschild", "Kerr", "KerrNewman", "_kerr"]), style=0)

    def gentle(self, rng, wild):
        if wild: return dualx.gen_contra(rng, self.X, self.prm)
        d = {}
        for i in range(1, 5):
            t = dualx.good_tree(rng, rng.choice([1, 2, 3]), 4, len(self.prm), self.X, self.prm, want=smooth)
            if rng.random() < .25: t = sym.div(sym.ONE, sym.add(sym.c(1), sym.pw(sym.v(rng.randint(1, 4)), 2)))
            v = abs(dualx.safe(t, self.X, self.prm))
            big = sym.add(sym.c(1 + int(v)), t) if v < 4 else sym.c(rng.randint(1, 3))
            d[(i, i)] = sym.neg(big) if i == 1 else big
        for _ in range(rng.choice([0, 1, 2, 3, 6])):
            i, j = sorted(rng.sample(range(1, 5), 2))
            d[(i, j)] = rng.choice([sym.c(rng.choice([1, -1]), rng.choice([4, 5, 6])), sym.mul(sym.c(1, 5), sym.v(rng.randint(1, 4))),
                                    sym.mul(sym.c(-1, 4), sym.fn("sin", sym.v(rng.randint(1, 4))))])
        return sym.symmat(4, d)

    def enc(self):
        return dict(kind=self.kind, comps=self.comps, prm=qs(self.prm))

    def real(self, rng):
        """parameters as the code is given them"""
        if self.kind == "Schwarzschild": return rng.choice([(0.0,), (), (0.0,)])
        p = list(self.prm)
        return rng.choice([tuple(p), p])

    def start(self, rng, inner=False):
        """position and spatial momentum"""
        if self.kind == "tree":
            X = list(self.X)
            return X, [rng.choice([0.0, rng.uniform(-.6, .6), rng.uniform(-.6, .6)]) for _ in range(3)]
        for _ in range(1000):
            X = dualx.mplace(rng, self.prm)
            if inner or X[1] > 2.6: break
        L = rng.choice([0.0, rng.uniform(-5, 5), rng.uniform(-5, 5), rng.uniform(-5, 5)])
        return X, [rng.choice([0.0, rng.uniform(-.5, .5)]), rng.choice([0.0, rng.uniform(-3, 3)]), L]


def num(p):
    """momentum component as users write it: sometimes integers"""
    return p


def state(arr):
    try:
        a = np.asarray(arr, dtype=float)
        return [qs(r) for r in a] if a.shape == (4, 4) else []
    except Exception:
        return []


def X_far(q0):
    return abs(float(q0[1])) > 4


class Bench:
    def __init__(self, rec):
        self.rec, self.rng, self.its = rec, rec.rng, []

    def make(self, m, ord, sup, q0, p0, share=None):
        from einsteinpy.integrators import GeodesicIntegrator
        rng = self.rng
        d = rng.choice([.5, .1, .05, .2, -.1, rng.uniform(.01, .4)])
        if m.kind == "tree": d *= .3
        if ord >= 6: d *= .5
        elif m.kind != "tree" and rng.random() < .15: d = rng.choice([1.5, -1.5, 2.2, -2.4, 3.0]) * (1 if X_far(q0) else .5)
        om = rng.choice([1.0, 1.0, .01, .5, 2.0, 0, 2])
        rtol, atol = rng.choice([(1e-2, 1e-2), (1e-2, 1e-2), (1e-4, 1e-6), (1e-8, 1e-9), (0.0, 1e-3), (1e-3, 0.0), (.5, 0.0), (0.0, .5)])
        tl = rng.random() < .6
        kw = dict(time_like=truth(rng, tl), delta=d, rtol=rtol, atol=atol, omega=om, steps=rng.choice([10, 50]))
        if ord != 2 or rng.random() < .7: kw["order"] = ord
        if sup or rng.random() < .7: kw["suppress_warnings"] = truth(rng, sup)
        o, exc = outcome(lambda: GeodesicIntegrator(m.fn, m.real(rng), q0, p0, **kw))
        e = dict(m=m.enc(), ord=ord, d=q(d), om=q(om), rtol=q(rtol), atol=q(atol), tl=tl, sup=sup, q0=qs(q0), p0=qs(p0), exc=exc, state=[], n=0, rows=0)
        if exc == "":
            e.update(state=state(o.res_list), n=int(o.step_num), rows=len(o.results))
            self.its.append((o, q0, p0, qs(q0), qs(p0)))
        self.rec.ev("make", **e)

    def step(self, i):
        o = self.its[i][0]
        with warnings.catch_warnings(record=True) as ws, np.errstate(all="ignore"):
            warnings.simplefilter("always")
            _, exc = outcome(o.step)
        w = any(issubclass(x.category, RuntimeWarning) for x in ws)
        last = state(o.results[-1]) if o.results else []
        self.rec.ev("step", id=i + 1, exc=exc, state=state(o.res_list), n=int(o.step_num), rows=len(o.results), last=last, warned=w)

    def rows(self, i):
        o, q0, p0, a, b = self.its[i]
        self.rec.ev("rows", id=i + 1, rows=[state(r) for r in o.results], q0=qs(q0), p0=qs(p0), q0was=a, p0was=b)


def mom(rec, n):
    from einsteinpy.geodesic import utils as gu
    rng = rec.rng
    for _ in range(n):
        m = Metric(rng, wild=rng.random() < .5)
        X, p = m.start(rng, inner=True)
        if rng.random() < .2: p = [rng.choice([0, 1, -1, 2]) for _ in range(3)]
        if m.kind == "tree" and rng.random() < .4: p = [10 * x for x in p]
        tl = rng.random() < .5
        q0 = np.array(X)
        p0 = rng.choice([np.array(p, float), list(p), tuple(p)])
        with np.errstate(all="ignore"):
            args = (m.fn, m.real(rng), q0, p0)
            P, exc = outcome(lambda: gu._P(*args, time_like=truth(rng, tl)) if not tl or rng.random() < .6 else gu._P(*args))
        ok = exc == "" and np.shape(P) == (4,)
        rec.ev("mom", m=m.enc(), q=qs(X), p=qs(p), tl=tl, exc=exc, P=qs(P) if ok else [])


def geodesic(rec, n, heavy=False, steps=None):
    from einsteinpy.geodesic import Geodesic, Nulllike, Timelike
    rng = rec.rng
    for k in range(n):
        m = Metric(rng, t0=0.0)
        if m.kind == "tree" and (heavy and rng.random() < .5 or (steps or 0) > 6): m = Metric(rng, rng.choice(["Schwarzschild", "Kerr", "KerrNewman"]))
        X, p = m.start(rng)
        if rng.random() < .15 and m.kind != "tree":
            X = [X[0], float(rng.randint(4, 20)), math.pi / 2, 0.0]
            p = [0.0, 0.0, float(rng.randint(1, 5))]
            if rng.random() < .5: X[1], p = int(X[1]), [0, 0, int(p[2])]
        X[0] = 0.0
        tl, cart = rng.random() < .55, rng.random() < .5
        ord = rng.choice([2, 2, 2, 4, 4, 6] + [8] * heavy) if not steps else rng.choice([2, 4])
        if rng.random() < .05: ord = rng.choice([3, 1, 0, 10, 5])
        N = steps or {2: rng.choice([1, 2, 3, 5]), 4: rng.choice([1, 2]), 6: 1, 8: 1}.get(ord, 2)
        kw = dict(steps=N)
        d, om, sup = .5, 1.0, False
        if rng.random() < .85 or m.kind == "tree" or ord >= 6:
            kw["delta"] = d = rng.choice([.5, .1, .2, .05]) * (.3 if m.kind == "tree" else 1) * (.5 if ord >= 6 else 1)
        if ord != 2 or rng.random() < .5: kw["order"] = ord
        if rng.random() < .6: kw["omega"] = om = rng.choice([1.0, .01, .5, 2.0, 0, 3])
        if rng.random() < .6: sup = rng.random() < .7; kw["suppress_warnings"] = truth(rng, sup)
        rtol, atol = 1e-2, 1e-2
        if rng.random() < .6:
            rtol, atol = rng.choice([(1e-1, 1e-1), (1e-6, 1e-8), (1e-9, .5), (.5, 1e-9), (1e-4, 1e-12)])
            kw["rtol"], kw["atol"] = rtol, atol
        known = True
        name = m.kind if m.kind != "tree" else m.fn
        prm = m.real(rng)
        if m.kind == "Schwarzschild" and rng.random() < .3: prm = (.5,)     # ignored
        if rng.random() < .06: name, known = rng.choice(["Minkowski", "kerr", "schwarzschild", "Kerr-Newman", "", 3, None]), False
        pos, momentum = rng.choice([list, tuple, np.array])(X[1:]), rng.choice([list, tuple, np.array])(p)
        via = rng.choice(["Geodesic", "short"])
        ck = {}
        if cart is False or rng.random() < .5: ck["return_cartesian"] = truth(rng, cart)
        with warnings.catch_warnings(record=True) as ws, np.errstate(all="ignore"):
            warnings.simplefilter("always")
            if via == "short": o, exc = outcome(lambda: (Timelike if tl else Nulllike)(name, prm, pos, momentum, **ck, **kw))
            elif tl and rng.random() < .5: o, exc = outcome(lambda: Geodesic(name, prm, pos, momentum, **ck, **kw))
            else: o, exc = outcome(lambda: Geodesic(name, prm, pos, momentum, time_like=truth(rng, tl), **ck, **kw))
        # no given argument means Cartesian output
        w = any(issubclass(x.category, RuntimeWarning) and "toleranc" in str(x.message) for x in ws)
        e = dict(m=m.enc(), known=known, pos=qs(X[1:]), p=qs(p), tl=tl, cart=cart if "return_cartesian" in ck else True, ord=ord, n=N, d=q(d), om=q(om), sup=sup, rtol=q(rtol), atol=q(atol), exc=exc, warned=w,
                 P=[], position=[], lam=[], rows=[], kind="", coords="", attl=False, mname="")
        if exc == "":
            lam, rows = o.trajectory
            e.update(P=qs(np.asarray(o.momentum, float)), position=qs(np.asarray(o.position, float)), lam=qs(lam), rows=[qs(r) for r in np.asarray(rows)],
                     kind=str(o.kind), coords=str(o.coords), attl=bool(o.time_like), mname=o.metric_name if m.kind != "tree" else ("tree" if o.metric_name == m.fn.__name__ else "?"))
        rec.ev("geodesic", **e)


def equals(rec, n):
    """the same trajectory however it is asked for"""
    from einsteinpy.geodesic import Geodesic, Nulllike, Timelike
    rng = rec.rng
    for k in range(n):
        m = Metric(rng, rng.choice(["Schwarzschild", "Kerr", "KerrNewman", "tree"]), t0=0.0)
        X, p = m.start(rng)
        tl = rng.random() < .5
        kw = dict(steps=rng.choice([5, 20, 40]) if m.kind != "tree" else rng.choice([3, 4]), delta=rng.choice([.1, .3]) * (.3 if m.kind == "tree" else 1), order=rng.choice([2, 4]), omega=rng.choice([1.0, .01]), suppress_warnings=True)
        name = m.kind if m.kind != "tree" else m.fn
        prm = m.real(rng) if m.kind != "Schwarzschild" else (0.0,)
        with np.errstate(all="ignore"):
            A = Geodesic(name, prm, X[1:], p, time_like=truth(rng, tl), return_cartesian=False, **kw)
            B = (Timelike if tl else Nulllike)(name, prm, X[1:], p, return_cartesian=False, **kw)
            C = (Timelike if tl else Nulllike)(name, prm, X[1:], p, **kw)
            D = Geodesic(name, prm, X[1:], p, time_like=truth(rng, tl), **kw)
            E = Geodesic(name, prm, X[1:], p, time_like=truth(rng, tl), return_cartesian=False, **dict(kw, steps=kw["steps"] - 2))
        rows = lambda g: [qs(r) for r in g.trajectory[1]]
        rec.ev("pair", what="shorthand classes equal the general one", a=rows(A), b=rows(B))
        rec.ev("pair", what="shorthand classes equal the general one, Cartesian", a=rows(D), b=rows(C))
        rec.ev("pair", what="a longer run starts with the shorter one", a=rows(A)[:kw["steps"] - 2], b=rows(E))
        rec.ev("pair", what="only positions are converted", a=[r[:1] + r[4:] for r in rows(A)], b=[r[:1] + r[4:] for r in rows(D)])
        rec.ev("pair", what="asking for the trajectory again gives the same", a=rows(A), b=[qs(r) for r in A.trajectory[1]])
        if m.kind != "tree" and p[2] == 0 or m.kind != "tree" and rng.random() < .3:
            with np.errstate(all="ignore"):
                F = Geodesic(m.fn, prm, X[1:], p, time_like=truth(rng, tl), return_cartesian=False, **kw)
            rec.ev("pair", what="a metric passed as a function equals the named one", a=rows(A), b=rows(F))
