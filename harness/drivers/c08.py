"""C08: construction validates its input and records faithful metadata."""
import random
from fractions import Fraction as F
import numpy as np
import sympy
import vlib, sym
from vlib import q, qs, outcome
from sym import c, v, p, add, mul, pw, fn

NAMES = ["zeta", "alpha", "M", "kappa", "a", "Q"]      # alphabetical order differs from creation order
NX = 4


class Tools:
    def __init__(self, rng, ns=1):
        self.X = list(sympy.symbols("t x y z w"))
        nm = rng.sample(NAMES, 3)
        if rng.random() < .3: nm[rng.randrange(3)] = rng.choice("txyz")         # named like a coordinate, but another symbol
        self.P = [sympy.Symbol(n, positive=True) if len(n) == 1 and n in "txyz" else sympy.Symbol(n) for n in nm]
        self.prank = [sorted(nm).index(n) for n in nm]
        f, g = sympy.Function("f"), sympy.Function("g")
        X, P = [self.X[min(i, max(0, ns - 1))] for i in range(3)], self.P
        # parameters 4, 5, 6 of the trees; 5 and 6 bring parameter 1 along; any number of arguments, also expressions
        self.Fn = [rng.choice([f(X[0]), f(X[0], X[1]), f(X[0], X[1], X[2]), f(X[0], 1, 2, X[1])]),
                   rng.choice([g(X[0], P[0]), g(P[0], X[1]), g(P[0], X[0], X[1], 3), g(X[0] * P[0]), g(P[0]**2 + X[1], X[0])]),
                   rng.choice([f(P[0]), f(P[0], P[0]), sympy.Function("h")(P[0]), f(P[0], 1, 2)])]
        self.pt, self.pr = sym.rpt(rng, NX + 1), sym.rpt(rng, 6)
        self.sub = dict(zip(self.X + self.P, self.pt + self.pr[:3]))

    def expr(self, t):
        return sym.to_sympy(t, self.X, self.P + self.Fn)

    def values(self, arr):
        dummies = [sympy.Symbol(f"F__{i}") for i in range(3)]
        ex = [sympy.sympify(e).xreplace(dict(zip(self.Fn, dummies))) for e in sym.flat(arr)]
        return sym.evals(ex, [{**self.sub, **dict(zip(dummies, self.pr[3:]))}])[0]


def comps_for(rng, kind, size, ns):
    out = []
    for _ in range(size):
        if kind in ("int", "npnum"): out.append(c(rng.choice([7, -2, 0, 3]))); continue
        if kind == "float": out.append(c(F(rng.choice([5, 3]), 4))); continue
        if kind == "ndarray" and rng.random() < .5: out.append(c(rng.randint(-9, 9))); continue
        t = rng.choice(["c", "v", "p", "f", "mix", "0"]) if ns else rng.choice(["c", "0"])
        i = rng.randint(1, max(1, ns))
        k = rng.randint(1, 3)
        f = 4
        out.append({"c": c(rng.randint(-5, 5)), "v": add(pw(v(i), 2), c(1)), "p": mul(p(k), v(i)), "f": add(p(f), v(i)),
                    "mix": add(mul(p(k), fn("sin", v(i))), mul(p(rng.choice([5, 6])), p(1))), "0": c(0)}[t])
    return out


def session(rec, seed, reqs):
    from einsteinpy import symbolic as S
    from einsteinpy.symbolic.tensor import Tensor, BaseRelativityTensor
    rng = random.Random(seed)
    for rq in reqs:
        T = Tools(rng, min(NX, rq['nsyms']))
        cls, kind, shape = rq["cls"], rq["kind"], rq["shape"]
        size = int(np.prod(shape)) if shape else 1
        comps = comps_for(rng, kind, size, min(NX, rq['nsyms']))
        flat = [T.expr(t) for t in comps]

        def nest(a, sh):
            if not sh: return a[0]
            k = len(a) // sh[0]
            return [nest(a[i * k:(i + 1) * k], sh[1:]) for i in range(sh[0])]

        def tup(a): return tuple(tup(x) for x in a) if isinstance(a, list) else a
        nested = nest(flat, shape)
        arr = {"list": lambda: nested, "tuple": lambda: tup(nested), "sympy": lambda: sympy.Array(nested),
               "ndarray": lambda: (np.array([int(e) for e in flat]).reshape(shape) if all(e.is_Integer for e in flat)
                                   else np.array(nested, dtype=object)),
               "int": lambda: int(flat[0]), "float": lambda: float(flat[0]), "expr": lambda: flat[0],
               "npnum": lambda: rng.choice([np.int64, np.float64])(int(flat[0])),
               "str": lambda: "uu", "dict": lambda: {0: 1}, "none": lambda: None, "set": lambda: {1, 2}, "function": lambda: outcome}[kind]()
        sy = T.X[:rq["nsyms"]]
        syms = {"list": lambda: list(sy), "tuple": lambda: tuple(sy), "set": lambda: set(sy), "str": lambda: "txyz"[:len(sy)],
                "none": lambda: None, "dict": lambda: {s: 0 for s in sy}}[rq["symskind"]]()
        given = rng.sample(T.P, 2)
        varsl = {"absent": None, "list": list(given), "tuple": tuple(given), "set": set(given), "str": "value", "int": 3, "none": None, "dict": {given[0]: 1}}[rq["varskind"]]
        kw = {}
        gf = rng.sample(T.Fn, 2)
        fl = {"absent": None, "list": list(gf), "tuple": tuple(gf), "set": set(gf), "str": "value", "int": 3, "none": None, "dict": {gf[0]: 1}}[rq["funcskind"]]
        cfgk = rq["cfgkind"]
        if cls != "RicciScalar" and cfgk != "default":
            kw["config"] = {"str": "".join(rq["cfg"]), "int": 5, "tuple": ("l",) * len(shape), "list": ["u"] * len(shape), "none": None}[cfgk]
        name = "default" if cls == "RicciScalar" else rng.choice(["default", "my name", "x"])
        if name != "default": kw["name"] = name
        par = None
        if cls not in ("Tensor", "MetricTensor") and rng.random() < .5:
            n2 = max(1, rq["n"])
            par = S.MetricTensor(np.eye(n2, dtype=int).tolist(), T.X[:n2])
            kw["parent_metric"] = par
        if cls == "BaseRelativityTensor" and rq["varskind"] != "absent":
            kw["variables"] = varsl
        if cls == "BaseRelativityTensor" and rq["funcskind"] != "absent":
            kw["functions"] = fl
        C = {"Tensor": Tensor, "BaseRelativityTensor": BaseRelativityTensor}.get(cls) or getattr(S, cls)
        o, exc = outcome(C, arr, **kw) if cls == "Tensor" else outcome(C, arr, syms, **kw)
        meta = dict(order=-1, config="", name="", shape=[], val=[], items=[], syms_same=False, dims=-1, variables=[], functions=[], parent_ok=False)
        if o is not None:
            a = o.tensor()
            meta.update(order=o.order, config=o.config, name=o.name or "", shape=[int(x) for x in a.shape], val=T.values(a))
            if shape and list(a.shape) == list(shape):
                for _ in range(2):
                    ix = tuple(rng.randrange(s) for s in shape)
                    at = 0
                    for s_, i_ in zip(shape, ix): at = at * s_ + i_
                    meta["items"].append(dict(at=at + 1, val=T.values([o[ix if len(ix) > 1 else ix[0]]])[0]))
            if cls != "Tensor":
                allP = T.P + T.Fn
                idx = lambda x: allP.index(x) + 1 if x in allP else 0
                pm = o.parent_metric
                meta.update(syms_same=(list(o.syms) == list(sy) and list(o.symbols()) == list(sy)), dims=o.dims,
                            variables=[idx(x) for x in o.variables], functions=[idx(x) for x in o.functions],
                            parent_ok=(pm is par) if cls != "MetricTensor" else pm is o)
        rec.ev("construct", req=rq, exc=exc, name=name, comps=comps if rq["kind"] in ("list", "tuple", "ndarray", "sympy", "int", "float", "expr", "npnum") else [],
               pt=qs(T.pt[:NX]), pr=qs(T.pr), nx=NX, npar=3, prank=T.prank + [0, 0, 0],
               vars_given=[T.P.index(x) + 1 for x in given] if rq["varskind"] in ("list", "tuple", "set") and cls == "BaseRelativityTensor" else [],
               funcs_given=[T.Fn.index(x) + 4 for x in gf] if rq["funcskind"] in ("list", "tuple", "set") and cls == "BaseRelativityTensor" else [],
               meta=meta)


def run(ck, thorough):
    rng = random.Random(vlib.SEED + 8)
    behs = ck.generate("ConstructModel", dict(DEPTH=2, DIMS="{2, 3}" if thorough else "{2}"), spec="CSpec",
                       invariants=["Reasons", "StartsValid", "NoSymbolsNeeded"])
    seen, reqs = set(), []
    for b in behs:
        k = str(b["req"])
        if k not in seen:
            seen.add(k); reqs.append(b)
    one = [b["req"] for b in reqs if b["ok"]]
    two = [b["req"] for b in reqs if not b["ok"]]
    rng.shuffle(one); rng.shuffle(two)
    ck.assumptions.append(f"{len(one)} accepted and {len(two)} refused requests within two deviations of a valid one")
    if not thorough:
        one, two = one[:1600], two[:2200]
    allr = one + two
    rng.shuffle(allr)
    K = 16
    jobs = [(f"requests-{i}", session, (f"{vlib.SEED}:c08:{i}", allr[i::K])) for i in range(K)]
    ses = vlib.record(jobs, limit=400)
    ck.validate("ConstructTrace", ses, what="construction requests within two deviations of a valid one, enumerated by ConstructModel")
