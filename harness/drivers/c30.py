"""C30: Julia set images."""
import contextlib, importlib, io, math, random
import numpy as np
import vlib
from vlib import q, qs, outcome


def pixels(A, w, h, rng, most):
    all_ = [(i, j) for i in range(w) for j in range(h)]
    if len(all_) > most: all_ = rng.sample(all_, most)
    return [[i, j, q(A[i, j])] for i, j in all_]


def images(rec, n, most):
    fr = importlib.import_module("einsteinpy.plotting.fractal")
    rng = rec.rng
    for _ in range(n):
        w, h = rng.choice([(1, 1), (3, 5), (6, 4), (5, 9), (12, 7), (7, 12), (10, 10)])
        angle = rng.choice([2.75, 0.0, math.pi / 3, rng.uniform(-7, 7), rng.uniform(0, 3.2)])
        R = rng.choice([20, 2, 1.5, 4.0, rng.uniform(1, 30), 100])
        N = rng.choice([64, 1, 2, 7, 20, 33])
        xr = rng.choice([(-1.6, 1.6), (-1.6, 1.6), (-2, 2), (.1, .5), (rng.uniform(-2, 0), rng.uniform(.1, 2)), (-.3, -.25)])
        yr = rng.choice([xr, (-1.6, 1.6), (-1.0, 1.5), (rng.uniform(-2, 0), rng.uniform(.1, 2)), (0.0, .01)])
        kw = dict(dims=(w, h), angle=angle, zabs_max=R, iter_max=N, x_range=xr, y_range=yr)
        dflt = dict(angle=2.75, zabs_max=20, iter_max=64, x_range=(-1.6, 1.6), y_range=(-1.6, 1.6))
        for k in list(dflt):
            if rng.random() < .15: kw.pop(k)
        full = dict(dflt, **kw)
        A, exc = outcome(fr._fractal_img, **kw)
        rec.ev("image", w=w, h=h, angle=q(full["angle"]), R=q(full["zabs_max"]), N=full["iter_max"], xr=qs(full["x_range"]), yr=qs(full["y_range"]), exc=exc,
               shape=list(A.shape) if exc == "" else [], pix=pixels(A, w, h, rng, most) if exc == "" else [])


def figure(rec, divs, dflt=False):
    fr = importlib.import_module("einsteinpy.plotting.fractal")
    rng = rec.rng
    a0, a1 = rng.uniform(.5, 1.5), rng.uniform(2, 3.2)
    with contextlib.redirect_stdout(io.StringIO()):
        if dflt: a0, a1 = math.pi / 3, math.pi
        fig = fr.fractal(divs=divs, show=False, **({} if dflt else dict(start_angle=a0, end_angle=a1)))
    for k, tr in enumerate(fig.data):
        A = np.asarray(tr.z, float)
        ang = np.linspace(a0, a1, divs)[k]
        rec.ev("image", w=400, h=400, angle=q(ang), R=q(20), N=64, xr=qs((-1.6, 1.6)), yr=qs((-1.6, 1.6)), exc="", shape=list(A.shape), pix=pixels(A, 400, 400, rng, 60))
    rec.ev("slider", divs=divs, n=len(fig.data), active=fig.layout.sliders[0].active, shown=fig.data[divs - 1].visible in (None, True), steps=[[bool(x) for x in s.args[1]] for s in fig.layout.sliders[0].steps])


def run(ck, thorough):
    ck.design("JuliaDesign", dict(GRID="{%s}" % ", ".join(map(str, range(0, 17, 1 if thorough else 2))), ANGLES="{0, 1, 4, 7, 9, 11, 12}" if thorough else "{0, 4, 9, 11}", LIMIT=16 if thorough else 10, MAXDIM=1, MAXORD=1),
              ["CountIsPossible", "Mirror", "Bounded"], ["NoReturn", "Stops"], spec="JSpec", workers=8, what="pixel machines: counts, mirror symmetry, no return, termination")
    try:
        fr = importlib.import_module("einsteinpy.plotting.fractal")
        fr._fractal_img(dims=(1, 1)); fr._fractal_img(dims=(1, 1), zabs_max=1.5)
    except Exception: pass                   # sessions report it
    jobs = [(f"image-{i}", images, (4, 60 if thorough else 30)) for i in range(160 if thorough else 32)]
    jobs += [(f"figure-{i}", figure, (i + 1,)) for i in (range(4) if thorough else (1,))] + [("figure-defaults", figure, (2, True))]
    ses = vlib.record(jobs)
    ck.validate("JuliaTrace", ses, dict(MAXDIM=1, MAXORD=1), what="pixels of images over random windows, sizes, seeds, radii and limits; the slider figure")
