"""Real dual numbers driven by programs of DualModel, and metric functions built from expression trees."""
import math
from fractions import Fraction
import numpy as np
from vlib import q, qs, outcome
import sym

FN = {"neg": lambda x: -x, "sin": np.sin, "cos": np.cos, "tan": np.tan, "exp": np.exp, "ln": np.log}
BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}


def frac(t):
    s, n, d = t
    return Fraction(s * sum(l * 10000 ** i for i, l in enumerate(n)), sum(l * 10000 ** i for i, l in enumerate(d)))


def evaluate(t, X, P):
    """the tree on whatever numbers X holds (floats or dual numbers)"""
    h = t[0]
    r = lambda a: evaluate(a, X, P)
    if h == "c":
        f = frac(t[1])
        return int(f) if f.denominator == 1 else float(f)
    if h == "v": return X[t[1] - 1]
    if h == "p": return P[t[1] - 1]
    if h in ("+", "*"):
        o = r(t[1])
        for a in t[2:]: o = BIN[h](o, r(a))
        return o
    if h in ("-", "/"): return BIN[h](r(t[1]), r(t[2]))
    if h == "^": return r(t[1]) ** t[2]
    if h == "powq": return r(t[1]) ** float(frac(t[2]))
    if h == "sqrt": return r(t[1]) ** 0.5
    return FN[h](r(t[1]))


def metric_fn(comps, name="mymetric", style=0):
    """a contravariant metric function of (x, *params) as users write them"""
    def f(x_vec, *params):
        g = np.zeros(shape=(4, 4), dtype=object) if style == 0 else [[0] * 4 for _ in range(4)]
        for i in range(4):
            for j in range(4):
                t = comps[4 * i + j]
                if sym.isz(t): continue
                v = evaluate(t, x_vec, params)
                if style == 0: g[i, j] = v
                else: g[i][j] = v
        return g if style == 0 else np.array(g, dtype=object)
    f.__name__ = name
    return f


def dn(v, d):
    from einsteinpy.utils.dual import DualNumber
    return DualNumber(v, d)


def encd(o):
    if type(o).__name__ != "DualNumber": return []
    return [q(o.val), q(o.deriv)]


class Machine:
    def __init__(self, rec):
        self.rec, self.rng, self.regs = rec, rec.rng, []

    def new(self, v, d):
        o = dn(v, d)
        self.regs.append(o)
        self.rec.ev("new", v=q(v), d=q(d), res=encd(o))

    def plain(self, kind):
        rng = self.rng
        v = rng.choice([rng.randint(-4, 4), rng.randint(1, 9)]) if kind == "int" else rng.choice([0.0, 1.0, -1.0, rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(.1, 30)])
        return v if kind == "int" else float(v) if kind == "float" else np.float64(v)

    def put(self, op, f, fn, **kw):
        o, exc = outcome(fn)
        self.regs.append(o)
        self.rec.ev(op, f=f, res=encd(o) if exc == "" else [], type=type(o).__name__, exc=exc, **kw)

    def ok(self, i):
        o = self.regs[i - 1]
        return type(o).__name__ == "DualNumber" and math.isfinite(o.val) and math.isfinite(o.deriv) and abs(o.val) < 1e8 and abs(o.deriv) < 1e12

    def instr(self, i):
        f, a, b, k = i["f"], i["a"], i["b"], i["k"]
        for r in (a, b):
            if r and not self.ok(r): return self.new(self.rng.uniform(.5, 2), 1.0)
        R = self.regs
        if f in BIN:
            if k == "dd": return self.put("bin", f, lambda: BIN[f](R[a - 1], R[b - 1]), a=["r", a], b=["r", b])
            p = self.plain(k)
            if a: return self.put("bin", f, lambda: BIN[f](R[a - 1], p), a=["r", a], b=["p", q(p)])
            return self.put("bin", f, lambda: BIN[f](p, R[b - 1]), a=["p", q(p)], b=["r", b])
        if f == "pow":
            y = {0: 0, 2: 1, 8: 4}.get(k)
            ys = self.rng.choice([0, 1, 2, 3, 4, 5, -1, -2, -3, 0.5, 1.5, -0.5, 2.0, 1.0, 0.0, -1.0, 2.5])
            if self.rng.random() < .2: ys = np.float64(ys)
            if self.rng.random() < .1 and float(ys).is_integer() and ys >= 0: ys = np.int64(ys)
            return self.put("pow", "pow", lambda: R[a - 1] ** ys, a=["r", a], y=q(ys))
        if f == "exp" and R[a - 1].val > 30: return self.new(self.rng.uniform(.5, 2), 1.0)
        self.put("un", f, lambda: FN[f](R[a - 1]), a=["r", a])

    def eq(self):
        rng = self.rng
        R = self.regs
        i = rng.randrange(len(R))
        if not self.ok(i + 1): return
        c = rng.choice(["other", "same", "copy", "val", "dif", "float", "num", "num0"])
        x = R[i]
        if c == "other":
            j = rng.randrange(len(R))
            if not self.ok(j + 1): return
            y, b = R[j], ["r", j + 1]
        elif c == "same": y, b = x, ["r", i + 1]
        elif c in ("copy", "val", "dif"):
            self.new(x.val + (c == "val"), x.deriv + (c == "dif"))
            y, b = R[-1], ["r", len(R)]
        else:
            v = x.val if c != "num" else rng.choice([0, 1, 2.5])
            if c == "num0":
                self.new(v, 0.0)
                x, i = R[-1], len(R) - 1
            y, b = v, ["p", q(v)]
        a = ["r", i + 1]
        if b[0] == "p" and rng.random() < .5: x, y, a, b = y, x, b, a
        e, exc = outcome(lambda: x == y)
        n, e2 = outcome(lambda: x != y)
        self.rec.ev("eq", a=a, b=b, eq=bool(e), ne=bool(n), exc=exc or e2)

    def snap(self):
        self.rec.ev("snap", regs=[encd(o) for o in self.regs])


# ------------------------------------------------------------ expressions
def gen_tree(rng, depth, nv, npar, dom="any"):
    """random tree whose subexpressions stay in range at points with coordinates in (.3, 2)"""
    if depth == 0 or rng.random() < .12:
        r = rng.random()
        if r < .6: return sym.v(rng.randint(1, nv))
        if r < .75 and npar: return sym.p(rng.randint(1, npar))
        return sym.c(rng.choice([1, 2, 3, -1, -2]), rng.choice([1, 1, 2, 3, 4]))
    G = lambda: gen_tree(rng, depth - 1, nv, npar)
    k = rng.choice(["+", "-", "*", "/", "+", "-", "*", "/", "neg", "sin", "cos", "tan", "exp", "ln", "^", "powq", "sqrt"])
    if k in "+-*/": return [k, G(), G()]
    if k == "^": return ["^", G(), rng.choice([0, 1, 2, 3, -1, -2])]
    if k == "powq": return ["powq", G(), q(Fraction(rng.choice([1, 3, -1, -3, 5]), rng.choice([2, 3, 4])))]
    return [k, G()]


class Bad(Exception):
    pass


def safe(t, X, P):
    """float value, or Bad when a subexpression leaves the comfortable range"""
    h = t[0]
    if h == "c": v = float(frac(t[1]))
    elif h == "v": v = X[t[1] - 1]
    elif h == "p": v = P[t[1] - 1]
    else:
        a = [safe(s, X, P) for s in t[1:] if isinstance(s, list) and isinstance(s[0], str)]
        if h == "+": v = sum(a)
        elif h == "*": v = math.prod(a)
        elif h == "-": v = a[0] - a[1]
        elif h == "neg": v = -a[0]
        elif h == "/":
            if abs(a[1]) < 1e-2: raise Bad()
            v = a[0] / a[1]
        elif h == "^":
            if abs(a[0]) < 1e-2 and t[2] < 0: raise Bad()
            v = a[0] ** t[2]
        elif h in ("powq", "sqrt"):
            if a[0] < 1e-2: raise Bad()
            v = a[0] ** (float(frac(t[2])) if h == "powq" else .5)
        elif h == "ln":
            if a[0] < 1e-2: raise Bad()
            v = math.log(a[0])
        elif h == "exp":
            if a[0] > 12: raise Bad()
            v = math.exp(a[0])
        elif h == "tan":
            if abs(math.cos(a[0])) < .05: raise Bad()
            v = math.tan(a[0])
        else: v = getattr(math, h)(a[0])
    if abs(v) > 1e5: raise Bad()
    return v


def good_tree(rng, depth, nv, npar, X, P, want=None):
    for _ in range(4000):
        t = gen_tree(rng, depth, nv, npar)
        if want and not want(t): continue
        try:
            safe(t, X, P)
            return t
        except (Bad, OverflowError): pass
    return sym.v(1)


def depends(t, i):
    if t[0] == "v": return t[1] == i
    return any(depends(s, i) for s in t[1:] if isinstance(s, list) and s and isinstance(s[0], str))


def vanishing(rng, X, P):
    """an expression that is zero at X although its derivatives are not"""
    i = rng.randrange(4)
    if X[i] == 0 and rng.random() < .7:
        b = sym.v(i + 1)
        if rng.random() < .5: b = ["sin", b]
    else: b = ["-", sym.v(i + 1), ["c", q(X[i])]]
    return ["*", good_tree(rng, 2, 4, len(P), X, P), b] if rng.random() < .6 else b


def gen_contra(rng, X, P):
    """components of a symmetric contravariant metric as trees, with off-diagonal entries"""
    comps = {}
    for i in range(1, 5):
        for j in range(i, 5):
            if rng.random() < .15: comps[(i, j)] = vanishing(rng, X, P)
            elif i == j: comps[(i, j)] = good_tree(rng, rng.choice([1, 2, 3]), 4, len(P), X, P)
            elif rng.random() < .5: comps[(i, j)] = good_tree(rng, rng.choice([0, 1, 2]), 4, len(P), X, P)
    return sym.symmat(4, comps)


def builtin(name):
    from einsteinpy.geodesic import utils as gu
    return {"Schwarzschild": gu._sch, "Kerr": gu._kerr, "KerrNewman": gu._kerrnewman}[name]


def mprm(rng, name):
    if name == "Schwarzschild": return []
    a = rng.choice([0.0, .5, .9, 1.0, rng.random(), rng.random()])
    if name == "Kerr": return [a]
    return [a, rng.choice([0.0, .3, -.4, rng.uniform(-1, 1)])]


def mplace(rng, prm):
    a, Q = (list(prm) + [0.0, 0.0])[:2]
    while True:
        r = rng.choice([rng.uniform(2.5, 12), rng.uniform(2.5, 12), rng.uniform(12, 100), rng.uniform(.2, 1.8)])
        d = r * r - 2 * r + a * a + Q * Q
        if abs(d) > .15 * r: break
    return [rng.choice([0.0, rng.uniform(-50, 50)]), r, rng.choice([math.pi / 2, math.pi / 4, rng.uniform(.3, 2.8), rng.uniform(.3, 2.8)]), rng.uniform(-6, 6)]
