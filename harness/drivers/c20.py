"""C20: dual numbers."""
import random
import numpy as np
import vlib
from vlib import q, qs, outcome
import sym
from . import dualx
from .dualx import Machine


def small(rng):
    return rng.choice([-1, 1]) * 10 ** rng.uniform(-14, -2)


def program(rec, progs):
    rng = rec.rng
    m = Machine(rec)
    for p in progs:
        base = len(m.regs)
        m.new(rng.choice([0.0, 1.0, -1.0, 2.0, rng.uniform(-3, 3), rng.uniform(.2, 3), rng.uniform(.2, 3), rng.uniform(-30, 30), small(rng)]),
              rng.choice([1.0, 0.0, -2.0, rng.uniform(-3, 3), rng.uniform(-3, 3), small(rng)]))
        for i in p:
            m.instr(dict(i, a=i["a"] and i["a"] + base, b=i["b"] and i["b"] + base))
        m.eq()
    m.snap()


def free(rec, n):
    """longer random programs"""
    rng = rec.rng
    m = Machine(rec)
    for _ in range(3): m.new(rng.uniform(-3, 3), rng.uniform(-2, 2))
    m.new(0.0, 1.0); m.new(rng.uniform(.1, 2), 0.0)
    for _ in range(3): m.new(small(rng), rng.choice([1.0, small(rng), rng.uniform(-2, 2)]))
    fs = ["+", "-", "*", "/"] * 3 + ["neg", "sin", "cos", "tan", "exp", "ln", "pow", "pow"]
    while len(m.regs) < n:
        good = [i + 1 for i in range(len(m.regs)) if m.ok(i + 1)]
        f = rng.choice(fs)
        k = rng.choice(["dd", "dd", "int", "float", "np"])
        a, b = rng.choice(good), rng.choice(good)
        if f in dualx.BIN and k != "dd":
            if rng.random() < .5: a = 0
            else: b = 0
        m.instr(dict(f=f, a=a, b=b, k=k))
        if rng.random() < .1: m.eq()
    # quotients and products of small numbers among themselves
    for _ in range(3):
        m.new(small(rng), rng.uniform(-2, 2)); m.new(small(rng), rng.uniform(-2, 2))
        n = len(m.regs)
        m.instr(dict(f=rng.choice("//*-"), a=n - 1, b=n, k="dd"))
        m.instr(dict(f=rng.choice("/*+"), a=n - 1, b=n, k="dd"))
    m.snap()


def exprs(rec, n):
    from einsteinpy.utils.dual import _deriv
    rng = rec.rng
    for _ in range(n):
        P = [rng.uniform(.3, 2) for _ in range(2)]
        x = rng.choice([rng.uniform(.3, 2), rng.uniform(-2, -.3), 1.0, 2.0])
        t = dualx.good_tree(rng, rng.choice([2, 3, 4, 5]), 1, 2, [x], P, want=(lambda t: dualx.depends(t, 1)) if rng.random() < .95 else None)
        r, exc = outcome(_deriv, lambda z: dualx.evaluate(t, [z], P), x)
        rec.ev("deriv", tree=t, pt=qs([x]), pr=qs(P), exc=exc, res=q(r) if exc == "" else q(0))


def jac(rec, n):
    from einsteinpy.utils.dual import _jacobian_g, _diff_g
    rng = rec.rng
    for _ in range(n):
        P = [rng.uniform(.3, 2) for _ in range(rng.choice([0, 1, 2]))]
        X = [rng.choice([-1, 1, 1]) * rng.uniform(.3, 2) for _ in range(4)]
        if rng.random() < .6: X = [rng.choice([0.0, 1.0, -1.0, x, x]) for x in X]
        comps = dualx.gen_contra(rng, X, P)
        g = dualx.metric_fn(comps, style=rng.choice([0, 0, 1]))
        for w in range(4):
            X0 = rng.choice([np.array(X), list(X), tuple(X)])
            J, exc = outcome(_jacobian_g, g, tuple(P), X0, w)
            some = []
            for _ in range(2):
                i, j = rng.randrange(4), rng.randrange(4)
                some.append([4 * i + j + 1, q(outcome(_diff_g, g, tuple(P), X0, (i, j), w)[0])])
            assert list(X0) == X
            rec.ev("jac", comps=comps, pt=qs(X), pr=qs(P), wrt=w, exc=exc, J=qs(np.asarray(J, float).ravel()) if exc == "" else [], some=some)
    for bad in (((0, 0), 4), ((0, 0), -1), ((0, 0), 7), ((0,), 1), ((0, 1, 2), 2)):
        _, exc = outcome(_diff_g, g, tuple(P), X, *bad)
        rec.ev("refuse", exc=exc)


def builtin(rec, n):
    from einsteinpy.utils.dual import _jacobian_g, _diff_g
    rng = rec.rng
    for _ in range(n):
        name = rng.choice(["Schwarzschild", "Kerr", "KerrNewman"])
        prm = dualx.mprm(rng, name)
        X = dualx.mplace(rng, prm)
        g = dualx.builtin(name)
        real = tuple(prm) if prm else rng.choice([(), (0.0,)])
        gv, e0 = outcome(lambda: np.asarray(g(rng.choice([X, np.array(X)]), *real), float).ravel())
        for w in rng.sample(range(4), 3):
            J, exc = outcome(_jacobian_g, g, real, X, w)
            i, j = rng.randrange(4), rng.randrange(4)
            some = [[4 * i + j + 1, q(outcome(_diff_g, g, real, X, (i, j), w)[0])]]
            rec.ev("builtin", name=name, prm=qs(prm), pt=qs(X), wrt=w, exc=exc, J=qs(np.asarray(J, float).ravel()) if exc == "" else [], some=some, g=qs(gv) if e0 == "" else [])


def run(ck, thorough):
    ck.design("DualModel", dict(MAXLEN=3 if thorough else 2, EMIT="FALSE", MAXDIM=1, MAXORD=1), ["Tangent", "TreeIsProgram", "Laws"], spec="PSpec", workers=8,
              what="every program: each register is value and first derivative of its expression; ring laws")
    progs = ck.generate("DualModel", dict(vlib.NUMCONST, MAXLEN=2, EMIT="TRUE", MAXDIM=1, MAXORD=1), spec="PSpec", invariants=["Emitted"])
    rng = random.Random(vlib.SEED + 20)
    rng.shuffle(progs)
    k = 4 if thorough else 1
    jobs = [(f"programs-{r}-{i}", program, (progs[i:i + 16],)) for r in range(k) for i in range(0, len(progs), 16)]
    jobs += [(f"long-{i}", free, (60,)) for i in range(400 if thorough else 40)]
    jobs += [(f"expr-{i}", exprs, (60,)) for i in range(120 if thorough else 24)]
    jobs += [(f"jacobian-{i}", jac, (4,)) for i in range(160 if thorough else 24)]
    jobs += [(f"builtin-{i}", builtin, (8,)) for i in range(120 if thorough else 16)]
    ses = vlib.record(jobs)
    ck.validate("DualTrace", ses, dict(MAXDIM=4, MAXORD=1), what="all two-instruction programs of DualModel, longer random ones, composed expressions, metric Jacobians")
