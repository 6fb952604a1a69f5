"""Expression trees shared with the specification (Jet.tla), metric generators, and evaluation of symbolic tensors."""
import random
from fractions import Fraction
import sympy, mpmath
from vlib import q

# ---------------------------------------------------------------- expression trees (see Jet.tla)
def c(x, y=1): return ["c", q(Fraction(x) / Fraction(y))]
def v(i): return ["v", i]
def p(i): return ["p", i]
def add(*a): return ["+", *a] if len(a) > 1 else a[0]
def mul(*a): return ["*", *a] if len(a) > 1 else a[0]
def sub(a, b): return ["-", a, b]
def div(a, b): return ["/", a, b]
def neg(a): return ["neg", a]
def pw(a, k): return ["^", a, k]
def fn(f, a): return [f, a]
Z, ONE = c(0), c(1)


def isz(t): return t[0] == "c" and t[1][0] == 0


_F = {"sin": sympy.sin, "cos": sympy.cos, "tan": sympy.tan, "exp": sympy.exp, "ln": sympy.log, "cosh": sympy.cosh,
      "sinh": sympy.sinh, "tanh": sympy.tanh, "sqrt": sympy.sqrt}


def to_sympy(t, X, P):
    h = t[0]
    r = lambda a: to_sympy(a, X, P)
    if h == "c":
        s, n, d = t[1]
        N = sum(l * 10000 ** i for i, l in enumerate(n)); D = sum(l * 10000 ** i for i, l in enumerate(d))
        return sympy.Rational(s * N, D)
    if h == "v": return X[t[1] - 1]
    if h == "p": return P[t[1] - 1]
    if h == "+": return sympy.Add(*[r(a) for a in t[1:]])
    if h == "*": return sympy.Mul(*[r(a) for a in t[1:]])
    if h == "-": return r(t[1]) - r(t[2])
    if h == "/": return r(t[1]) / r(t[2])
    if h == "neg": return -r(t[1])
    if h == "^": return r(t[1]) ** t[2]
    if h == "powq": return r(t[1]) ** to_sympy(["c", t[2]], X, P)
    if h == "besj0": return sympy.besselj(0, r(t[1]))
    return _F[h](r(t[1]))


# ---------------------------------------------------------------- metrics
class Metric:
    """A symbolic metric given by trees: comps is the flat n x n list (symmetric)."""
    def __init__(self, name, n, comps, npar=0, variance="ll", pts=(), prs=(), syms=None):
        self.name, self.n, self.comps, self.npar, self.variance = name, n, comps, npar, variance
        self.pts = [[Fraction(a) for a in x] for x in pts]
        self.prs = [[Fraction(a) for a in x] for x in prs] or [[]] * len(self.pts)
        self.X = list(syms or sympy.symbols(" ".join("xyzuwabd"[i] for i in range(n))))
        if n == 1 and not isinstance(self.X, list): self.X = [self.X]
        self.P = list(sympy.symbols("kappa lam mu nu")[:npar])

    def array(self):
        n = self.n
        s = [to_sympy(t, self.X, self.P) for t in self.comps]
        return [[s[i * n + j] for j in range(n)] for i in range(n)]

    def build(self):
        from einsteinpy.symbolic import MetricTensor
        return MetricTensor(self.array(), self.X, config=self.variance, name="m")

    def event(self, K):
        return dict(n=self.n, K=K, variance=self.variance, comps=self.comps)

    def subsmap(self, i):
        return dict(zip(self.X + self.P, list(self.pts[i]) + list(self.prs[i])))


def symmat(n, d):
    """flat matrix from {(i,j): tree}, i<=j, 1-based"""
    return [d.get((min(i, j), max(i, j)), Z) for i in range(1, n + 1) for j in range(1, n + 1)]


def simple_fn(rng, n, npar, pos=True, rich=1):
    """a positive (near the points used) function of one or two coordinates"""
    i = rng.randint(1, n)
    j = rng.randint(1, n)
    k = c(rng.randint(1, 3))
    ch = ["poly", "poly2", "exp", "sin", "inv", "par", "const", "lin"]
    t = rng.choice(ch if rich else ["poly", "lin", "const"])
    if t == "poly": return add(c(rng.randint(1, 3)), mul(k, pw(v(i), 2)))
    if t == "poly2": return add(c(rng.randint(2, 4)), mul(v(i), v(j)))
    if t == "exp": return fn("exp", mul(c(rng.choice([1, 2, -1]), 2), v(i)))
    if t == "sin": return add(c(2), fn(rng.choice(["sin", "cos"]), v(i)))
    if t == "inv": return div(ONE, add(c(1), pw(v(i), 2)))
    if t == "par" and npar: return add(c(2), mul(p(rng.randint(1, npar)), v(i)))
    if t == "lin": return add(c(rng.randint(2, 3)), v(i))
    return k


def rpt(rng, n):
    return [Fraction(rng.choice([x for x in range(-14, 15) if abs(x) > 1]), rng.choice([11, 13, 17, 19])) for _ in range(n)]


def gen_metric(rng, name, n, kind, npts=2):
    upper = kind.endswith("_uu")            # the components are those of the contravariant form
    if kind != "rand_uu": kind = kind.removesuffix("_uu")
    npar = rng.choice([0, 1, 2]) if kind != "rand_uu" else rng.choice([0, 1])
    d = {}
    sig = [rng.choice([1, 1, -1]) for _ in range(n)]
    if kind in ("diag", "rand_uu"):
        for i in range(1, n + 1):
            f = simple_fn(rng, n, npar, rich=1 if kind == "diag" else 0)
            if kind == "rand_uu" and n > 2 and i != n - 1:
                f = add(c(i + 1), v(1)) if i == n else c(i + 1)
            d[(i, i)] = f if sig[i - 1] > 0 else neg(f)
        if kind == "rand_uu" and n >= 2:
            i, j = sorted(rng.sample(range(1, n + 1), 2))
            d[(i, j)] = c(1, 3) if n > 2 else mul(c(1, 3), v(rng.randint(1, n)))
    elif kind == "off":        # one or two off-diagonal entries
        for i in range(1, n + 1):
            f = simple_fn(rng, n, npar, rich=0)
            d[(i, i)] = f if sig[i - 1] > 0 else neg(f)
        for _ in range(rng.choice([1, 2]) if n == 3 else 1):
            i, j = sorted(rng.sample(range(1, n + 1), 2))
            d[(i, j)] = rng.choice([v(rng.randint(1, n)), c(1, 3)] if n < 4 else [c(1, 2), c(-1, 3)])
    elif kind == "wave":       # null coordinates: no diagonal in the first pair
        i, j = 1, n
        d[(i, j)] = c(1)
        d[(1, 1)] = mul(pw(v(2), 2), fn("sin", v(1))) if n > 2 else v(2)
        for m in range(2, n):
            d[(m, m)] = simple_fn(rng, n, npar, rich=0)
    elif kind == "conf":       # conformally flat
        f = simple_fn(rng, n, npar)
        for i in range(1, n + 1):
            d[(i, i)] = f if sig[i - 1] > 0 else neg(f)
    elif kind == "warp":       # warped product
        f = add(ONE, pw(v(1), 2))
        for i in range(1, n + 1):
            d[(i, i)] = c(sig[0]) if i == 1 else (pw(f, 2) if i == 2 else mul(pw(v(1), 2), c(i)))
    elif kind == "full":       # every component present
        for i in range(1, n + 1):
            f = add(c(2), v((i % n) + 1)) if i < 3 else c(i)
            d[(i, i)] = f if sig[i - 1] > 0 else neg(f)
            for j in range(i + 1, n + 1):
                d[(i, j)] = mul(c(1, 2), v(rng.randint(1, n))) if n == 2 else c(rng.choice([1, -1]), 2)
    comps = symmat(n, d)
    m = Metric(name, n, comps, npar, "uu" if upper else "ll", [], [])
    tries = 0
    while len(m.pts) < npts:
        tries += 1
        pt, pr = rpt(rng, n), rpt(rng, npar)
        M = sympy.Matrix(m.array()).subs(dict(zip(m.X + m.P, pt + pr)))
        try:
            M = M.applyfunc(lambda e: sympy.N(e, 20))
            dt = abs(M.det())
            if dt > sympy.Rational(1, 20) and dt < 10 ** 4:
                m.pts.append(pt); m.prs.append(pr)
        except TypeError:
            pass
        if tries > 200:
            return gen_metric(rng, name, n, kind, npts)
    return m


# ---------------------------------------------------------------- evaluating what the library returns
DPS = 40


def flat(arr):
    """row-major list of the components of a sympy array / nested list"""
    if hasattr(arr, "tensor"): arr = arr.tensor()
    if hasattr(arr, "rank") and callable(arr.rank) and arr.rank() == 0 and hasattr(arr, "_array"):
        return [arr[()]]
    if hasattr(arr, "tolist"): arr = arr.tolist()
    out = []

    def go(a):
        if isinstance(a, (list, tuple)):
            for b in a: go(b)
        else:
            out.append(a)
    go(arr)
    return out


def evals(exprs, maps):
    """values of a list of sympy expressions at each substitution map (symbol -> Fraction): list of lists of mpf / None"""
    exprs = [sympy.sympify(e) for e in exprs]
    syms = list(maps[0])
    res = []
    free = set().union(*[e.free_symbols for e in exprs]) if exprs else set()
    byname = {s.name: s for s in syms}
    with mpmath.workdps(DPS):
        f = None
        if free <= set(syms):
            try:
                f = sympy.lambdify(syms, exprs, modules="mpmath", cse=True)
            except Exception:
                f = None
        for m in maps:
            args = [mpmath.mpf(Fraction(m[s]).numerator) / Fraction(m[s]).denominator for s in syms]
            out = None
            if f is not None:
                try:
                    out = list(f(*args))
                except Exception:
                    out = None
            if out is None:
                out = []
                sm = {s: sympy.Rational(Fraction(x).numerator, Fraction(x).denominator) for s, x in m.items()}
                for e in exprs:
                    try:
                        w = sympy.N(e.subs({t: sm.get(t, sm.get(byname.get(t.name))) for t in e.free_symbols}), DPS)
                        out.append(mpmath.mpmathify(w))
                    except Exception:
                        out.append(None)
            res.append([q(x) if x is not None else q(float("nan")) for x in out])
    return res


def tvals(T, maps):
    """values of a tensor object at each map; [] when it cannot be flattened"""
    return evals(flat(T), maps)
