"""C26: Schwarzschild embedding surface."""
import importlib, math, random
import numpy as np
import vlib
from vlib import q, qs, outcome
from . import bh


class World:
    def __init__(self, rec):
        self.rec, self.rng, self.objs = rec, rec.rng, []
        self.cls = importlib.import_module("einsteinpy.hypersurface.schwarzschildembedding").SchwarzschildEmbedding

    def make(self):
        rng = self.rng
        si = rng.choice([5.972e24, 1.989e30, 10 ** rng.uniform(22, 26), 10 ** rng.uniform(23, 32)])
        m = bh.inunit(rng, "mass", si, rng.random() < .7)
        o, exc = outcome(self.cls, bh.quant(m))
        self.rec.ev("make", mass=bh.enc(m), exc=exc, M=q(o.M.value) if o else q(1), r0=q(o.r_init.value) if o else q(0))
        self.objs.append(o)
        return len(self.objs)

    def point(self, i, r):
        o = self.objs[i - 1]
        g, e1 = outcome(o.gradient, r)
        R, e2 = outcome(o.radial_coord, r)
        self.rec.ev("point", id=i, r=q(r), grad=q(g if e1 == "" else 0), R=q(R if e2 == "" else 0), exc=e1 or e2)

    def values(self, i, alpha):
        v, exc = outcome(self.objs[i - 1].get_values, alpha)
        x, z = v if exc == "" else ([], [])
        cap = int(50 + 20 * alpha)                 # a walk that runs on and on is judged by its beginning: it is too long all the same
        x, z = x[:cap], z[:cap]
        self.rec.ev("values", id=i, alpha=q(alpha), exc=exc, x=qs(list(x)), z=qs(list(z)))

    def surface(self, i, alpha):
        v, exc = outcome(self.objs[i - 1].get_values_surface, alpha)
        X, Y, Z = v if exc == "" else (np.zeros((0, 0)),) * 3
        cap = int(50 + 40 * alpha)
        if X.shape[1] > cap and np.size(Z) == X.size:
            Z = np.asarray(Z, float).reshape(X.shape)[:, :cap]
            X, Y = X[:, :cap], np.asarray(Y)[:, :cap]
        at = list(range(X.shape[0])) if X.size < 5000 else sorted(self.rng.sample(range(X.shape[0]), 2))
        Z = np.asarray(Z, float).reshape(X.shape)[at] if np.size(Z) == X.size else np.zeros((0, 0))
        rows, cols = X.shape
        X, Y = X[at], np.asarray(Y)[at]
        self.rec.ev("surface", id=i, alpha=q(alpha), exc=exc, rows=int(rows), cols=int(cols), at=[k + 1 for k in at], X=qs(np.asarray(X, float).ravel()), Y=qs(np.asarray(Y, float).ravel()), Z=qs(np.asarray(Z, float).ravel()))


def session(rec, n):
    rng = rec.rng
    w = World(rec)
    for _ in range(3): w.make()
    alpha = lambda: rng.choice([1, 2, 3, 5.0, rng.uniform(1, 8), rng.randint(1, 12)])
    for _ in range(n):
        i = rng.randint(1, len(w.objs))
        M = w.objs[i - 1].M.value
        k = rng.random()
        if k < .5: w.point(i, float(M * rng.choice([rng.uniform(2.26, 2.95), rng.uniform(3.05, 9), rng.uniform(9, 30), rng.uniform(2.3, 3)])))
        elif k < .85: w.values(i, alpha())
        else: w.surface(i, rng.choice([1, 2, 1.7, .6]))


def fine(rec, alphas):
    w = World(rec)
    w.make()
    for a in alphas:
        w.values(1, a); w.surface(1, a)


def run(ck, thorough):
    ck.design("EmbeddingDesign", dict(MASSES="{1, 60, 5000}", ALPHAS="{2, 5, 10}" if not thorough else "{1, 2, 3, 5, 10, 30}", MAXDIM=1, MAXORD=1), ["ChainRule", "Throat", "CountOk"], ["Heights", "Ends"], spec="MSpec", workers=8,
              what="both walks over masses and step factors: chain rule, throat at 3M, monotone heights, termination, lengths")
    ses = vlib.record([(f"embed-{i}", session, (14,)) for i in range(120 if thorough else 24)]
                      + [(f"fine-{k}", fine, (a,)) for k, a in enumerate([(60,), (151,)] + ([(90, 33.3), (120,), (200,), (301,)] if thorough else []))])
    ck.validate("EmbeddingTrace", ses, dict(MAXDIM=1, MAXORD=1), what="several embeddings used alternately: masses in several units, step factors, points, profiles, surfaces")
