"""C24: Runge-Kutta integrators."""
import math, random, warnings
import numpy as np
import vlib
from vlib import q, qs, outcome
import sym
from . import dualx


def tame(rng, depth, nv):
    """right-hand sides that stay bounded for moderate arguments"""
    if depth == 0 or rng.random() < .12:
        if rng.random() < .75: return sym.v(rng.randint(1, nv))
        return sym.c(rng.choice([1, 2, 3, -1, -2]), rng.choice([1, 2, 3, 4]))
    G = lambda: tame(rng, depth - 1, nv)
    k = rng.choice(["+", "-", "*", "+", "-", "*", "neg", "sin", "cos", "sin", "cos", "/", "exp", "^"])
    if k in "+-*": return [k, G(), G()]
    if k == "^": return ["^", ["sin", G()], rng.choice([2, 3])]
    if k == "/": return ["/", G(), ["+", sym.c(rng.choice([2, 3])), ["sin", G()]]]
    if k == "exp": return ["exp", ["cos", G()]]
    return [k, G()]


class System:
    """y' = f(t, y) as trees and as the function users pass, y a scalar or an array of the given shape"""
    def __init__(self, rng, shape, trees=None):
        self.shape, self.rng = shape, rng
        n = int(np.prod(shape)) if shape is not None else 1
        self.n = n
        self.f = trees or [tame(rng, rng.choice([1, 2, 3]), n + 1) for _ in range(n)]
        self.style = rng.choice([0, 1])
        self.calls = 0

    def __call__(self, t, y):
        self.calls += 1
        if self.shape is None:
            return dualx.evaluate(self.f[0], [t, y], [])
        Y = np.asarray(y)
        fl = Y.reshape(self.n, -1) if Y.size == self.n else None
        if fl is None: raise ValueError(f"shape {Y.shape} for {self.shape}")
        v = [float(fl[i, 0]) for i in range(self.n)]
        if self.style and self.n == 1:
            v = [fl[0, 0]]
        return np.array([float(dualx.evaluate(t_, [t] + v, [])) for t_ in self.f]).reshape(Y.shape)


def kind(y):
    return "scalar" if np.ndim(y) == 0 else list(np.shape(y))


def flat(y):
    return qs(np.asarray(y, float).ravel())


class Run:
    def __init__(self, rec):
        self.rec, self.objs = rec, []

    def make(self, cls, sysm, t0, y0, bound, size, **opt):
        from einsteinpy.integrators import runge_kutta as rk
        was = flat(y0)
        o, exc = outcome(lambda: getattr(rk, cls)(sysm, t0, y0, bound, size, **opt))
        rt = opt.get("rtol"); rt = .2 * size if rt is None else rt
        at = opt.get("atol"); at = rt / .8e3 if at is None else at
        self.rec.ev("make", cls=cls, f=sysm.f, t0=q(t0), y0=was, shape0=kind(y0), bound=q(bound), size=q(size), exc=exc, rtol=q(rt), atol=q(at),
                    t=q(o.t) if o else q(0), y=flat(o.y) if o else [], shape=kind(o.y) if o else "")
        self.objs.append((o, [o.y] if o else []))
        return len(self.objs)

    def step(self, i, op="step"):
        o, past = self.objs[i - 1]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            _, exc = outcome(o.step)
        self.rec.ev(op, id=i, t=q(o.t), y=flat(o.y), shape=kind(o.y), exc=exc, warned=any(issubclass(x.category, RuntimeWarning) for x in w),
                    status=getattr(o, "status", ""))
        past.append(o.y)

    def kept(self, i):
        self.rec.ev("kept", id=i, past=[flat(y) for y in self.objs[i - 1][1]])


def start(rng):
    shape = rng.choice([None, None, (1,), (2,), (3,), (4,), (2, 2)])
    f = System(rng, shape)
    y0 = rng.choice([rng.uniform(-2, 2), rng.randint(-2, 2), np.float64(rng.uniform(-2, 2))]) if shape is None else \
        rng.choice([np.array([rng.uniform(-2, 2) for _ in range(f.n)]), np.array([rng.randint(-2, 2) for _ in range(f.n)])]).reshape(shape)
    return f, y0


def history(rec, behs):
    rng = rec.rng
    for b in behs:
        run = Run(rec)
        unit = rng.choice([.03, .3, rng.uniform(.01, .15)])
        for i in range(2):
            f, y0 = start(rng)
            t0 = rng.choice([0, 0.0, rng.uniform(-3, 3), rng.uniform(-3, 3)])
            t0 = 0.0 if b["bounds"][i] % 3 == 0 and rng.random() < .5 else t0
            # whole multiples of a step are hit only up to rounding; keep the bound a little short of the step then
            bound = t0 + unit * b["bounds"][i] - (1e-9 * unit * (1 if b["bounds"][i] > 0 else -1) if b["bounds"][i] else 0)
            run.make("RK4naive", f, t0, y0, bound, 3 * unit * b["signs"][i])
        for c in b["calls"]: run.step(c)
        run.kept(1); run.kept(2)
        rec.events.append(dict(op="reset"))


def exactbound(rec, n):
    """bounds that are hit exactly in binary"""
    rng = rec.rng
    run = Run(rec)
    for _ in range(n):
        f, y0 = start(rng)
        h = rng.choice([.25, .125, .5, .0625])
        k = rng.randint(0, 3)
        d = rng.choice([1, -1])
        t0 = rng.choice([0, 1, -2, .5])
        i = run.make("RK4naive", f, t0, y0, t0 + d * k * h, rng.choice([h, -h]))
        for _ in range(k + 2): run.step(i)
        run.kept(i)


def adaptive(rec, n):
    rng = rec.rng
    run = Run(rec)
    for _ in range(n):
        f = System(rng, (rng.choice([1, 1, 2, 2, 3, 4]),))
        y0 = np.array([rng.uniform(-2, 2) for _ in range(f.n)])
        t0 = rng.choice([0, 0.0, rng.uniform(-3, 3)])
        size = rng.choice([.1, .03, .2, .01, 1, 2.5, rng.uniform(.005, .4)])
        if size >= 1: f.f = [["sin", t] for t in f.f]      # long steps: keep the slopes bounded
        far = rng.random() < .35
        span = size * (rng.choice([101, 150, 1e3, 1e5]) if far else rng.choice([1, 2.5, 4, 9, 20])) * rng.choice([1, -1])
        opt = {}
        if rng.random() < .5: opt["rtol"] = rng.choice([1e-3, 1e-6, 1e-9, 1e-2])
        if rng.random() < .4: opt["atol"] = rng.choice([1e-3, 1e-6, 1e-10])
        i = run.make("RK45", f, t0, y0, t0 + span, size, **opt)
        for _ in range(4 if far else 60):
            if run.objs[i - 1][0] is None or run.objs[i - 1][0].status != "running": break
            run.step(i, "astep")
        for _ in range(0 if far else 2): run.step(i, "astep")
        run.kept(i)


def known(rec, n):
    rng = rec.rng
    V1, V2, V3 = sym.v(1), sym.v(2), sym.v(3)
    run = Run(rec)
    for _ in range(n):
        k = rng.choice(["exp", "osc", "quad"])
        from fractions import Fraction
        a = Fraction(rng.choice([1, 2, -1, -2, 3, -3]), rng.choice([1, 2]))
        C = ["c", q(a)]
        tr = {"exp": [["*", C, V2]], "osc": [["*", C, V3], ["neg", ["*", C, V2]]], "quad": [["*", C, ["cos", ["*", C, V1]]]]}[k]
        f = System(rng, (len(tr),), tr)
        y0 = np.array([rng.uniform(-2, 2) for _ in tr])
        t0 = rng.choice([0.0, rng.uniform(-3, 3)])
        size = rng.choice([.05, .02, .1])
        i = run.make("RK45", f, t0, y0, t0 + rng.choice([1, -1]) * rng.uniform(.5, 2), size, rtol=rng.choice([None, 1e-4, 1e-7]))
        for _ in range(120):
            if run.objs[i - 1][0].status != "running": break
            run.step(i, "astep")
        rec.ev("exact", id=i, kind=k, a=q(a), t0=q(t0), y0=qs(y0))


def run(ck, thorough):
    ck.design("RungeKuttaDesign", dict(HS="{2, 7}" if not thorough else "{1, 2, 3, 7, 10, 100}", MAXDIM=1, MAXORD=1), ["Exactness", "OnceOrder"], spec="RSpec", workers=8,
              what="both methods: order conditions, exact quadrature, truncated exponential, error orders on tan")
    ck.design("BoundModel", dict(BOUNDS="{%s}" % ", ".join(map(str, range(3, 18))), MAXCALLS=6, EMIT="FALSE"), ["NoFarther", "OnlyThisWay", "WarnsAtEnd"], ["StaysPut", "Runs"], spec="BSpec", merge=False,
              what="bound on either side, between steps or on them: reached, never left, never overshot by a step")
    behs = ck.generate("BoundModel", dict(BOUNDS="{3, 7, 9, 10, 12, 13, 14}", MAXCALLS=4, EMIT="TRUE"), spec="BSpec", invariants=["Emitted"])
    rng = random.Random(vlib.SEED + 24)
    rng.shuffle(behs)
    if not thorough: behs = behs[:256]
    jobs = [(f"history-{i}", history, (behs[i:i + 8],)) for i in range(0, len(behs), 8)]
    jobs += [(f"exact-bound-{i}", exactbound, (6,)) for i in range(60 if thorough else 12)]
    jobs += [(f"adaptive-{i}", adaptive, (4,)) for i in range(100 if thorough else 20)]
    jobs += [(f"known-{i}", known, (2,)) for i in range(60 if thorough else 12)]
    ses = vlib.record(jobs)
    ses = [(f"{n}.{k}", part) for n, evs in ses for k, part in enumerate(split(evs))]
    ck.validate("RungeKuttaTrace", ses, dict(MAXDIM=1, MAXORD=1), what="histories of BoundModel with generated right-hand sides; adaptive runs to the bound and past it")


def split(evs):
    out, cur = [], []
    for e in evs:
        if e["op"] == "reset":
            out.append(cur); cur = []
        else: cur.append(e)
    if cur: out.append(cur)
    return out
