"""C31: transformation matrices of coordinate changes."""
import random
import sympy
import vlib, sym
from vlib import q, qs, outcome
from sym import c, v, add, mul, sub, div, pw, fn, neg


def change(rng, n):
    """old coordinates as functions of the new ones"""
    kind = rng.choice(["polar", "linear", "mixed", "diagonal", "mixed", "mixed"])
    if kind == "polar" and n >= 2:
        out = [mul(v(1), fn("cos", v(2))), mul(v(1), fn("sin", v(2)))]
        if n >= 3:
            out = rng.choice([out + [v(3)], [mul(mul(v(1), fn("sin", v(2))), fn("cos", v(3))), mul(mul(v(1), fn("sin", v(2))), fn("sin", v(3))), mul(v(1), fn("cos", v(2)))]])
        return out + [v(i) for i in range(4, n + 1)]
    if kind == "linear":
        return [add(mul(c(n + 3 + i), v(i)), *[mul(c(rng.choice([-1, 1, 2])), v(j)) for j in range(1, n + 1) if j != i]) if n > 1 else mul(c(3), v(1)) for i in range(1, n + 1)]
    f = lambda i: rng.choice([lambda: add(v(i), pw(v(i), 3)), lambda: fn("exp", v(i)), lambda: fn("sinh", v(i)), lambda: mul(c(2), v(i)), lambda: v(i)])()
    if kind == "diagonal": return [f(i) for i in range(1, n + 1)]
    out = []
    for i in range(1, n + 1):                          # triangular, so that it is regular; then shuffled
        t = f(i)
        for j in range(i + 1, n + 1):
            t = rng.choice([lambda: t, lambda: add(t, mul(c(rng.choice([1, -2, 3])), v(j))), lambda: add(t, pw(v(j), 2)), lambda: add(t, fn("sin", v(j)))])()
        out.append(t)
    rng.shuffle(out)
    return out


def direct(rng, n):
    M = [[add(c(5 + i), pw(v(rng.randint(1, n)), 2)) if i == j else rng.choice([c(0), c(1), c(-1, 2), fn("sin", v(rng.randint(1, n)))]) for j in range(n)] for i in range(n)]
    return [t for r in M for t in r]


def history(rec, behs):
    from einsteinpy.symbolic import TransformationMatrix as T
    rng = rec.rng
    for acts in behs:
        n = rng.choice([1, 2, 2, 3, 3, 4])
        new, old = list(sympy.symbols("p q r s")[:n]), list(sympy.symbols("x y z w")[:n])
        pt = sym.rpt(rng, n)
        mp = dict(zip(new, pt))
        vals = lambda o: sym.evals(sym.flat(o), [mp])[0]
        objs, base = [], [rec.nobj if hasattr(rec, "nobj") else 0][0]
        for a in acts:
            if a["do"] == "make":
                tr = change(rng, n)
                seq = rng.choice([list, tuple])
                ex = seq(sym.to_sympy(t, new, []) for t in tr)
                o, exc = outcome(T.from_new2old, seq(old), seq(new), ex)
                meta = exc == "" and list(o.old_coords) == old and list(o.new_coords) == new and list(o.new2old) == list(ex) and o.old2new is None and tuple(o.shape) == (n, n)
                rec.ev("make", n=n, olds=tr, pt=qs(pt), exc=exc, meta=bool(meta), val=vals(o) if exc == "" else [])
                objs.append(o)
            elif a["do"] == "direct":
                tr = direct(rng, n)
                ex = [sym.to_sympy(t, new, []) for t in tr]
                rows = [ex[i * n:(i + 1) * n] for i in range(n)]
                kw = rng.choice([{}, dict(new2old=list(old)), dict(old2new=list(new)), dict(old2new=list(new), new2old=tuple(old))])
                args = rng.choice([(rows, old, new), (sympy.Array(rows), old, new), (ex, old, new, (n, n))])
                o, exc = outcome(T, *args, **kw)
                meta = exc == "" and list(o.old_coords) == old and list(o.new_coords) == new and o.new2old == kw.get("new2old") and o.old2new == kw.get("old2new") and tuple(o.shape) == (n, n)
                rec.ev("direct", n=n, comps=tr, pt=qs(pt), exc=exc, meta=bool(meta), val=vals(o) if exc == "" else [])
                objs.append(o)
            else:
                o = objs[a["on"] - 1]
                if o is None: continue
                r, exc = outcome(o.inv)
                rec.ev("inv", on=base + a["on"], exc=exc, val=vals(r) if exc == "" else [], src=vals(o))
        rec.nobj = base + len(objs)


def refusals(rec, n):
    from einsteinpy.symbolic import TransformationMatrix as T
    x, y, p, qq = sympy.symbols("x y p q")
    rng = rec.rng
    for _ in range(n):
        r = rng.choice([1, 2, 3])
        arr = rng.choice([[x, 2 * y], [1, 2, 3]]) if r == 1 else rng.choice([[[x, y], [1, 2]], [[1, 0], [0, 1]]]) if r == 2 else [[[x, y], [1, 2]], [[x, 1], [y, 2]]]
        _, exc = outcome(T, arr, (x, y), (p, qq))
        rec.ev("rank", rank=r, exc=exc)
        _, exc = outcome(T.from_old2new, [x, y], [p, qq], **rng.choice([{}, dict(old2new=[x + y, x - y])]))
        rec.ev("old2new", exc=exc)


def run(ck, thorough):
    rng = random.Random(vlib.SEED + 31)
    ck.design("BasisModel", dict(vlib.NUMCONST, PREC=40, MAXDIM=2, MAXORD=1, MAXOBJ=3, MAXACT=3, EMIT="FALSE"), ["Inverse", "InverseFunction"], spec="MSpec", workers=8,
              what="matrix times inverse is the identity; Jacobians of mutually inverse changes are inverse matrices")
    b = ck.generate("BasisModel", dict(vlib.NUMCONST, PREC=40, MAXDIM=2, MAXORD=1, MAXOBJ=2, MAXACT=4, EMIT="TRUE"), spec="MSpec", invariants=["Inverse"])
    behs, seen = [], set()
    for x in b:                                      # which change is made is chosen anew by the driver
        k = tuple((a["do"], a["on"] if a["do"] == "inv" else 0) for a in x)
        if k not in seen:
            seen.add(k); behs.append(x)
    behs = behs * (30 if thorough else 6)
    rng.shuffle(behs)
    jobs = []
    for i in range(40 if thorough else 6):
        jobs.append((f"history-{i}", history, ([x for j, x in enumerate(behs) if j % (40 if thorough else 6) == i],)))
    jobs.append(("refusals", refusals, (12,)))
    ses = vlib.record(jobs)
    ck.validate("BasisTrace", ses, dict(MAXDIM=4, MAXORD=1), what="matrices of coordinate changes in dimensions 1 to 4, their inverses asked for in any order and repeatedly")
