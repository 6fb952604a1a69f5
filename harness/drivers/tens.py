"""Shared by C04-C09: build tensor objects of the library from expression trees and record operations on them."""
import random
from fractions import Fraction
import numpy as np
import sympy
import vlib, sym
from vlib import q, qs, outcome
from sym import c, v, p, add, mul, sub, div, pw, fn

NORES = dict(cls="", config="", name="", parent=0, val=[], order=-1, self_parent=False, syms_same=False)


class World:
    """One session: a space (symbols, metrics, point) and the objects made so far."""
    def __init__(self, rec, n, mets, pt, pr):
        from einsteinpy import symbolic as S
        self.S, self.rec, self.n, self.rng = S, rec, n, rec.rng
        self.mets = mets
        m0 = mets[0]
        # names of both cases: the order of parameters is part of a lambdified tensor's interface
        names = rec.rng.choice(["kappa lam mu nu", "a Z B q", "M a Q b", "b A c D", "nu Mu alpha R"])
        self.X, self.P = m0.X, list(sympy.symbols(names)[:len(pr)])
        self.pt, self.pr = [Fraction(x) for x in pt], [Fraction(x) for x in pr]
        self.map = dict(zip(self.X + self.P, self.pt + self.pr))
        self.M = []
        for k, m in enumerate(mets):
            arr = [[sym.to_sympy(m.comps[i * n + j], self.X, self.P) for j in range(n)] for i in range(n)]
            self.M.append(S.MetricTensor(arr, self.X, config=m.variance, name=f"met{k + 1}"))
        self.objs = []          # the real objects, in the order of the specification's list
        rec.ev("space", n=n, mets=[dict(variance=m.variance, comps=m.comps) for m in mets], pt=qs(self.pt), pr=qs(self.pr))

    # ---- observing
    def val(self, o):
        return sym.tvals(o, [self.map])[0]

    def view(self, o):
        if o is None:
            return dict(NORES)
        pm = o.parent_metric if hasattr(o, "parent_metric") else None
        par = 0 if pm is None else next((k + 1 for k, m in enumerate(self.M) if pm is m), -1)
        return dict(cls=type(o).__name__, config=o.config, name=o.name or "", parent=par, val=self.val(o), order=o.order,
                    self_parent=pm is o, syms_same=(list(getattr(o, "syms", [])) == list(self.X)))

    def src(self, i):
        o = self.objs[i - 1]
        return dict(src=i, src_config=o.config, src_name=o.name or "", src_val=self.val(o))

    # ---- operations
    def tensor(self, cls, cfg, comps, name, parent):
        arr = self.nest([sym.to_sympy(t, self.X, self.P) for t in comps], len(cfg))
        C = getattr(self.S, cls) if hasattr(self.S, cls) else getattr(self.S.tensor, cls)
        kw = dict(name=name) if name != "default" else {}
        if cls == "RicciScalar":
            kw = {}
        if cls != "MetricTensor":
            kw["parent_metric"] = self.M[parent - 1] if parent else None
        args = (arr, self.X) if cls == "RicciScalar" else (arr, self.X, "".join(cfg))
        o, exc = outcome(C, *args, **kw)
        self.objs.append(o)
        r = self.view(o)
        self.rec.ev("tensor", cls=cls, cfg=list(cfg), comps=comps, name=(r["name"] if name == "default" else (name or "")), parent=parent, exc=exc, res=r)
        return len(self.objs)

    def nest(self, flat, r):
        if r == 0:
            return flat[0]
        k = len(flat) // self.n
        return [self.nest(flat[i * k:(i + 1) * k], r - 1) for i in range(self.n)]

    def change(self, i, to, metric):
        kw = dict(metric=self.M[metric - 1]) if metric else {}
        o, exc = outcome(self.objs[i - 1].change_config, "".join(to), **kw)
        ev = dict(to=list(to), metric=metric, exc=exc, res=self.view(o), **self.src(i))
        self.rec.ev("change", **ev)
        self.objs.append(o if o is not None else self.objs[i - 1])
        return len(self.objs)

    def metric(self, k):
        o = self.M[k - 1]
        self.objs.append(o)
        self.rec.ev("metric", metric=k, cfg=list(self.mets[k - 1].variance), name=o.name or "", exc="", res=self.view(o))
        return len(self.objs)

    def mop(self, op, i, to=None):
        o = self.objs[i - 1]
        r, exc = outcome(o.inv) if op == "inv" else outcome(o.lower_config) if op == "lower" else outcome(o.change_config, to)
        self.rec.ev(op, to=list(to) if to is not None else [], exc=exc, res=self.view(r), **self.src(i))
        self.objs.append(r if r is not None else o)
        return len(self.objs)

    def product(self, a, b, i, j):
        tp = self.S.tensor.tensor_product
        A, B = self.objs[a - 1], self.objs[b - 1]
        o, exc = outcome(tp, A, B) if i < 0 else outcome(tp, A, B, i, j)
        lam = []
        if o is not None:
            lam, _, _ = self.lam(o)
        self.rec.ev("product", a=a, b=b, i=i, j=j, exc=exc, res=self.view(o), lam=lam)
        self.objs.append(o)
        return len(self.objs)

    def transform(self, i, mat):
        L = self.nest([sym.to_sympy(t, self.X, self.P) for t in mat], 2)
        o = self.objs[i - 1]
        r, exc = outcome(o.lorentz_transform, L)
        tagged = r is not None and (r.name or "").startswith(o.name or "") and "__lt" in (r.name or "")[len(o.name or ""):]
        self.rec.ev("transform", mat=mat, exc=exc, res=self.view(r), name_tagged=tagged, **self.src(i))
        self.objs.append(r if r is not None else o)
        return len(self.objs)

    def subs(self, i, by, form):
        """by: (kind "x" or "p", 1-based index, expression tree) in the order in which they are made"""
        o = self.objs[i - 1]
        prs = [((self.X if k == "x" else self.P)[m - 1], sym.to_sympy(t, self.X, self.P)) for k, m, t in by]
        args = prs[0] if form == "pair" else (prs,) if form == "list" else (dict(prs),)
        r, exc = outcome(o.subs, *args)
        self.rec.ev("subs", by=[dict(k=k, i=m, e=t) for k, m, t in by], exc=exc, res=self.view0(r), **self.src(i))
        self.objs.append(r)
        return len(self.objs)

    def view0(self, o):
        """a plain Tensor as well"""
        return dict(NORES) if o is None else dict(NORES, cls=type(o).__name__, config=o.config, name=o.name or "", val=self.val(o), order=o.order)

    def simplify(self, i, inplace):
        o = self.objs[i - 1]
        r, exc = outcome(o.simplify, inplace) if self.rng.random() < .5 or not inplace else outcome(o.simplify)
        v = self.val(r) if exc == "" else []
        shape_ok = exc == "" and tuple(r.shape) == (self.n,) * o.order
        self.rec.ev("simplify", exc=exc, res_val=v, shape_ok=shape_ok, **self.src(i))

    def lambdify(self, i, args):
        o = self.objs[i - 1]
        free = set(sympy.Array(o.tensor()).free_symbols)
        ar = []
        if args != "default":
            ar = [s for s in self.X + self.P if s in free or args == "more"]
            if args != "listed": self.rng.shuffle(ar)
            if not ar: ar = [self.X[0]]
        r, exc = outcome(self.lam, o, tuple(ar))
        val, shape, ok = r if exc == "" else ([], [], False)
        self.rec.ev("lambdify", exc=exc, val=val, shape=shape, args_ok=ok, **self.src(i))

    def lam(self, o, args=()):
        """flat values, shape, whether the listed arguments are the expected symbols"""
        al, f = o.tensor_lambdify(*args)
        vals = [float(self.map[s]) if s in self.map else float("nan") for s in al]
        r = f(*vals)
        a = np.array(r, dtype=float)
        want = tuple(args) if args else tuple(al)
        ok = tuple(al) == want and (bool(args) or (set(self.X) <= set(al) and
                                                   set(sympy.Array(o.tensor()).free_symbols) <= set(al) and len(set(al)) == len(al)))
        return qs([float(x) for x in a.flatten()]), list(a.shape), ok


def rcomp(rng, n, npar, depth=0):
    """a small random component"""
    t = rng.choice(["c", "v", "cv", "poly", "pv", "sq", "0", "trig", "rat"])
    i, j = rng.randint(1, n), rng.randint(1, n)
    if t == "c": return c(rng.randint(-5, 5))
    if t == "v": return v(i)
    if t == "cv": return mul(c(rng.randint(1, 4), 3), v(i))
    if t == "poly": return add(pw(v(i), 2), mul(c(2), v(j)))
    if t == "pv" and npar: return mul(p(rng.randint(1, npar)), v(i))
    if t == "sq": return mul(v(i), v(j))
    if t == "trig": return fn(rng.choice(["sin", "cos"]), v(i))
    if t == "rat": return div(c(1), add(c(2), pw(v(i), 2)))
    return c(0)


def rtensor(rng, n, r, npar=1):
    return [rcomp(rng, n, npar) for _ in range(n ** r)]


def space_metrics(rng, n, kinds=("off", "rand_uu")):
    """metrics over one set of symbols and one parameter, regular at the chosen point"""
    while True:
        pt, pr = sym.rpt(rng, n), sym.rpt(rng, 1)
        out = []
        for k in kinds:
            d = {}
            for i in range(1, n + 1):
                f = rng.choice([c(rng.randint(1, 4)), add(c(2), pw(v(rng.randint(1, n)), 2)), add(c(3), v(rng.randint(1, n)))])
                d[(i, i)] = f if rng.random() < .7 else sym.neg(f)
            i, j = sorted(rng.sample(range(1, n + 1), 2))
            if k != "diag":
                d[(i, j)] = rng.choice([c(1, 3), v(rng.randint(1, n)), p(1)])
            out.append(sym.Metric(k, n, sym.symmat(n, d), 1, "uu" if k == "rand_uu" else "ll"))
        ok = True
        for m in out:
            m.P = list(sympy.symbols("kappa lam mu nu")[:1])
            M = sympy.Matrix(m.array()).subs(dict(zip(m.X + m.P, pt + pr)))
            if abs(sympy.N(M.det())) < .05:
                ok = False
        if ok:
            return out, pt, pr
