"""C10: predefined spacetimes are what they are documented to be."""
import random
from fractions import Fraction as F
import sympy
import vlib, sym
from vlib import q, qs, outcome
from sym import c, v, p, add, mul, pw

COORD = {"sph": "t r theta phi", "car": "t x y z"}
# catalogue: constructor keyword for every parameter (in the specification's order) and the name of its default symbol
CAT = {
    "Schwarzschild": [("c", "c"), ("sch", "r_s")],
    "Kerr": [("c", "c"), ("sch", "r_s"), ("a", "a")],
    "KerrNewman": [("c", "c"), ("G", "G"), ("eps_0", "eps_0"), ("sch", "r_s"), ("a", "a"), ("Q", "Q")],
    "ReissnerNordstorm": [("c", "c"), ("G", "G"), ("eps_0", "eps_0"), ("sch", "r_s"), ("Q", "Q")],
    "AntiDeSitter": [], "AntiDeSitterStatic": [], "DeSitter": [(None, "alpha")],
    "AlcubierreWarp": [("x_s", "x_s"), ("sigma", "sigma"), ("R", "R"), ("v", "v")],
    "BesselGravitationalWave": [("C", "C")],
    "MinkowskiCartesian": [("c", "c")], "Minkowski": [("c", "c")], "MinkowskiPolar": [("c", "c")],
    "CMetric": [(None, "f"), (None, "h")], "Davidson": [], "Ernst": [("B", "B"), ("M", "M")], "Godel": [(None, "omega")],
    "BertottiKasner": [("c", "c"), ("lambd", "l")], "BarriolaVilekin": [("c", "c"), ("k", "k")],
    "JanisNewmanWinicour": [("c", "c"), ("G", "G"), ("gam", "gam"), ("M", "M")]}
RANGE = {"c": (.5, 2), "G": (.5, 2), "eps_0": (.5, 2), "r_s": (.2, 1.2), "a": (-.8, .8), "Q": (-1, 1), "alpha": (.6, 2), "x_s": (-1, 1), "sigma": (.5, 2),
         "R": (.5, 2), "v": (-1, 2), "C": (.3, 1), "f": (.5, 2), "h": (.5, 2), "B": (-.3, .3), "M": (.2, .5), "omega": (-1, 1), "l": (.2, 1), "k": (.3, 1.4), "gam": (.7, 1.5)}


def rnd(rng, lo, hi):
    while True:
        x = F(rng.randint(int(lo * 97), int(hi * 97)), 97)
        if x != 0: return x


def point(rng, name):
    big = name not in ("AntiDeSitter", "AntiDeSitterStatic", "BesselGravitationalWave", "AlcubierreWarp", "Godel", "Davidson", "CMetric", "DeSitter")
    t = rnd(rng, .2, 2)
    r = rnd(rng, 6, 12) if big else rnd(rng, .4, 2.5)
    return [t, r, rnd(rng, .3, 2.8), rnd(rng, -3, 3) if name not in ("Davidson",) else rnd(rng, .2, 3)]


def lit(x, form):
    return {"int": int, "float": float, "rat": lambda y: sympy.Rational(y.numerator, y.denominator)}[form](x)


def session(rec, seed, reps):
    import importlib
    pre = importlib.import_module("einsteinpy.symbolic.predefined")
    from einsteinpy.symbolic import constants as K
    rng = random.Random(seed)
    zz = sympy.Symbol("zz")
    for _ in range(reps):
        for name in rng.sample(sorted(CAT), len(CAT)):
            pars = CAT[name]
            m = len(pars)
            base0 = [sympy.Symbol(d) for _, d in pars] + [zz]
            trees, kw, expected, generic = [], {}, set(), True
            few = rng.random() < .35
            for j, (kwn, d) in enumerate(pars):
                lo, hi = RANGE[d]
                if kwn is None or few or rng.random() < .4:
                    trees.append(p(j + 1)); expected.add(d); continue
                form = rng.choice(["int", "float", "rat", "sym", "expr", "time", "zero", "same"])
                coords = sympy.symbols("t")
                if form == "int" or (form == "time" and d != "x_s"):
                    val = {True: F(1)}.get(lo <= 1 <= hi, F(round(lo) or round(hi) or 1))
                    if not (lo <= val <= hi): form, val = "rat", rnd(rng, lo, hi)
                    else: form = "int"
                    kw[kwn] = lit(val, form); trees.append(c(val))
                elif form == "float":
                    val = F(float(rnd(rng, lo, hi))); kw[kwn] = float(val); trees.append(c(val))
                elif form == "rat":
                    val = rnd(rng, lo, hi); kw[kwn] = lit(val, "rat"); trees.append(c(val))
                elif form == "sym":
                    kw[kwn] = zz; trees.append(p(m + 1)); expected.add("zz")
                elif form == "expr":
                    val = rnd(rng, lo, hi); kw[kwn] = zz * lit(val, "rat"); trees.append(mul(p(m + 1), c(val))); expected.add("zz")
                elif form == "time":
                    kw[kwn] = sympy.Rational(1, 2) * coords; trees.append(mul(c(1, 2), v(1)))
                elif form == "zero" and lo < 0:
                    kw[kwn] = rng.choice([0, 0.0, sympy.Integer(0)]); trees.append(c(0)); generic = False
                else:
                    kw[kwn] = sympy.Symbol(d); trees.append(p(j + 1)); expected.add(d)
            # two parameters given as zz can cancel each other out
            if "zz" in expected: generic = False
            fn_ = getattr(pre, name)
            g, exc = outcome(fn_, **kw)
            ev = dict(name=name, pars=trees, exc=exc, cls="", config="", mname="", coords=[], free=[], expected=sorted(expected), generic=generic, points=[])
            if g is not None:
                X = list(g.syms)
                fs = set(sympy.Array(g.tensor()).free_symbols) - set(X)
                flat = sym.flat(g)
                if name == "CMetric":
                    f, h = sympy.Function("f")(X[1]), sympy.Function("h")(X[2])
                    sf, sh = sympy.symbols("f h")
                    flat = [sympy.sympify(e).subs({f: sf, h: sh}) for e in flat]
                    fs = set().union(*[e.free_symbols for e in flat]) - set(X)
                maps, pts = [], []
                for _k in range(2):
                    pt = point(rng, name)
                    base = [rnd(rng, *RANGE[d]) for _, d in pars] + [rnd(rng, .7, 1)]
                    maps.append({**dict(zip(X, pt)), **{b: x for b, x in zip(base0, base)}})
                    # identity of the default symbols: constants of the library are symbols of their own class
                    for s in fs:
                        if s not in maps[-1]:
                            hit = [b for b in base0 if b.name == s.name]
                            if hit: maps[-1][s] = maps[-1][hit[0]]
                    pts.append((pt, base))
                vals = []
                for mp in maps:
                    vals += sym.evals(flat, [mp])
                ev.update(cls=type(g).__name__, config=g.config, mname=g.name or "", coords=[str(x) for x in X], free=sorted(s.name for s in fs),
                          points=[dict(pt=qs(pt), base=qs(b), val=va) for (pt, b), va in zip(pts, vals)])
            rec.ev("spacetime", **ev)


def laws(rec, seed, names):
    """the library's own Ricci tensor of predefined spacetimes with numbers for parameters"""
    import importlib
    pre = importlib.import_module("einsteinpy.symbolic.predefined")
    from einsteinpy.symbolic import RicciTensor
    rng = random.Random(seed)
    for name in names:
        pars = CAT[name]
        base = [F(1) if d in ("c", "G", "eps_0") else rnd(rng, *RANGE[d]) for _, d in pars]
        kw = {k: lit(b, "rat") for (k, _), b in zip(pars, base) if k}
        g = getattr(pre, name)(**kw)
        pt = point(rng, name)
        r, exc = outcome(RicciTensor.from_metric, g)
        mp = dict(zip(g.syms, pt))
        for (k, d), b in zip(pars, base):
            mp[sympy.Symbol(d)] = b
        rec.ev("law", name=name, pars=[c(b) for b in base], base=qs(base), pt=qs(pt), exc=exc, ricci=sym.tvals(r, [mp])[0] if r is not None else [])


def finds(rec, seed, n):
    from einsteinpy.symbolic.predefined import find
    rng = random.Random(seed)
    names = sorted(CAT)
    qsx = ["", "kerr", "KERR", "Ker", "sitter", "DeSitter", "xyz", "Min", "a", "E", "metric", "find", "wave", "kerrnewman ", "Schwarzschild", "predefined", "constants",
           "__", "s", "z", "vilekin", "polar"]
    while len(qsx) < n:
        w = rng.choice(names)
        i = rng.randrange(len(w)); j = min(len(w), i + rng.choice([1, 2, 2, 3, 4, 6]))
        s = w[i:j]
        s = rng.choice([s, s.lower(), s.upper(), s.swapcase(), s + rng.choice("qa"), s[::-1]])
        qsx.append(s)
    for s in qsx:
        rec.ev("find", query=s, result=list(find(s)))


def run(ck, thorough):
    ck.design("SpacetimeDesign", dict(NPTS=4 if thorough else 2, MAXORD=2), invariants=["FieldEquations", "LawKnown", "Reductions"], spec="SSpec", workers=8,
              what="every catalogued line element obeys its field equations at regular points; black-hole family reductions")
    s = vlib.SEED
    jobs = [(f"params-{i}", session, (f"{s}:p{i}", 12 if thorough else 3)) for i in range(8)] + [("find", finds, (f"{s}:f", 1000 if thorough else 200))]
    heavy = ["KerrNewman", "Kerr", "JanisNewmanWinicour", "Ernst"]
    light = [n for n in CAT if n not in heavy + ["AlcubierreWarp", "CMetric", "BesselGravitationalWave"]]
    for i, n in enumerate(light + (heavy if thorough else [])):
        jobs.append((f"law-{n}", laws, (f"{s}:l{i}", [n] * (2 if thorough else 1))))
    ses = vlib.record(jobs, limit=600)
    ck.validate("SpacetimeTrace", ses, what="predefined metrics with every mix of default, numeric and symbolic parameters; catalogue searches")
