"""C29: constants, bodies, symbolic constants."""
import importlib, random
import numpy as np
import vlib
from vlib import q, qs, outcome
from . import bh

KIND = {"mass": "mass", "q": "charge", "R": "len"}
SYS = {"cart": ("Cartesian", "CartesianDifferential"), "sph": ("Spherical", "SphericalDifferential"), "bl": ("BoyerLindquist", "BoyerLindquistDifferential")}


def amount(rng, f):
    v = rng.choice([0.0, 1.0, 10 ** rng.uniform(-8, 30), 10 ** rng.uniform(-3, 6), rng.uniform(1, 9)])
    if f == "q" and rng.random() < .4: v = -v
    return bh.inunit(rng, KIND[f], v, rng.random() < .6)


def differential(rng, kind):
    from einsteinpy import coordinates as co
    system, cls = SYS[kind]
    ks = bh.KINDS[system] + bh.VKINDS[system]
    ps = []
    for i, k in enumerate(ks):
        v = rng.choice([0.0, rng.uniform(-3, 3), rng.uniform(.1, 3)]) if i else rng.uniform(0, 5)
        if k == "len": v = rng.uniform(1, 9) * 10 ** rng.uniform(-2, 9)
        if k == "ang": v = rng.uniform(.1, 3)
        ps.append(bh.inunit(rng, k, v, rng.random() < .5))
    return getattr(co, cls)(*[bh.quant(p) for p in ps]), ps


def reading(b, bodies):
    par = next((i + 1 for i, x in enumerate(bodies) if x is b.parent), 0 if b.parent is None else -1)
    si = lambda x: q(x.si.value)
    co = b.coords is not None
    d = dict(name=b.name, mass=si(b.mass), q=si(b.q), R=si(b.R), parent=par, hascoords=co, pos=[], vel=[])
    if co: d.update(pos=[si(x) for x in b.pos_vec], vel=[si(x) for x in b.vel_vec])
    return d


def history(rec, acts):
    from einsteinpy.bodies import Body
    rng = rec.rng
    bodies, coords = [], []
    look = lambda: [reading(b, bodies) for b in bodies]
    asked = []
    for a in acts:
        if a["do"] == "new":
            req = dict(name="", mass=[], q=[], R=[], coords=[], parent=a["on"] if not a["bad"] else 0)
            kw = {}
            for f in a["given"]:
                p = amount(rng, f); kw[f] = bh.quant(p); req[f] = bh.enc(p)
            if a["named"]:
                req["name"] = kw["name"] = rng.choice(["A", "Vulcan", "Body 9", "x", "Sun", "Generic Body 2"])
            twin = not a["bad"] and asked and rng.random() < .3
            if twin:
                req, kw = dict(rng.choice(asked)[0]), None
                kw = {f: req_q(req[f]) for f in KIND if req[f]}
                if req["name"]: kw["name"] = req["name"]
                req["coords"] = []
                if rng.random() < .3:
                    req["mass"] = bh.enc((7.25, "kg")); kw["mass"] = 7.25 * bh.U("kg")
            if a["coords"] != "none" and not twin:
                c, ps = differential(rng, a["coords"])
                kw["coords"] = c; req["coords"] = bh.encs(ps[1:])
            if a["bad"]:
                f = a["field"]
                if a["bad"] == "plain":
                    kw[f] = rng.choice([5, 2.5, 1e30]); req[f] = [q(kw[f]), "plain"]
                else:
                    p = (rng.uniform(1, 9), rng.choice([x for x in ("kg", "C", "km", "s", "m/s", "deg") if x != {"mass": "kg", "q": "C", "R": "km"}[f]]))
                    kw[f] = bh.quant(p); req[f] = bh.enc(p)
            if req["parent"]: kw["parent"] = bodies[req["parent"] - 1]
            names = ["name", "mass", "q", "R", "coords", "parent"]
            args = []
            if rng.random() < .4:
                while names and names[0] in kw: args.append(kw.pop(names.pop(0)))
            b, exc = outcome(lambda: Body(*args, **kw))
            if exc == "": bodies.append(b); asked.append((req,))
            rec.ev("new", req=req, exc=exc, all=look())
            if exc == "" and rng.random() < .5: show(rec, b, len(bodies))
        elif a["on"] > len(bodies): return                     # a body that should exist was refused: reported above
        else:
            b, f = bodies[a["on"] - 1], a["field"]
            p = amount(rng, f)
            if a["do"] == "increase" and getattr(b, f).unit != bh.U(p[1]):
                # in place, in the unit the body holds
                k = getattr(b, f).unit; p = (rng.uniform(1, 9) * (1 + abs(float(getattr(b, f).value))), bh.uname(getattr(b, f)))
                if p[1] not in sum(bh.UNITS.values(), []): k = None
                if k is None: p = (1.0, {"mass": "kg", "q": "C", "R": "km"}[f])
            def act():
                if a["do"] == "assign": setattr(b, f, bh.quant(p)); return
                v = getattr(b, f)
                v += bh.quant(p)
                setattr(b, f, v)
            _, exc = outcome(act)
            rec.ev("set", on=a["on"], field=f, do=a["do"], x=bh.enc(p), exc=exc, all=look())
    for i in range(len(bodies)):
        for j in range(len(bodies)):
            if all(bodies[k].coords is None and chain(bodies[k]) for k in (i, j)):
                r, exc = outcome(lambda: bool(bodies[i] == bodies[j]))
                rec.ev("eq", i=i + 1, j=j + 1, same=r if exc == "" else exc)
    for i, b in enumerate(bodies): show(rec, b, i + 1)


def chain(b):
    while b.parent is not None:
        b = b.parent
        if b.coords is not None: return False
    return True


def req_q(e):
    return float(vlib.unq(e[0])) * bh.U(e[1])


def show(rec, b, i):
    s = str(b)
    parts = [l.strip() for l in s.strip().splitlines()]
    co = str(b.coords)
    if b.coords is not None:                                   # printed over several lines
        flat = " ".join(" ".join(s.split()).split())
        cf = " ".join(co.split())
        parts = parts[:4] + ([co] if cf in flat else ["?"]) + parts[-1:]
    rec.ev("str", on=i, parts=parts, mass=str(b.mass), q=str(b.q), R=str(b.R), coords=co)


def dims(unit):
    from astropy import units as u
    d = unit.decompose()
    p = {str(b): int(x) for b, x in zip(d.bases, d.powers)}
    return [p.pop("m", 0), p.pop("kg", 0), p.pop("s", 0), p.pop("A", 0)] + sorted(p)


def table(rec, *_):
    from einsteinpy import constant as k
    from einsteinpy.units import primitive
    from astropy import units as u
    rng = rec.rng
    B = importlib.import_module("einsteinpy.bodies")
    names = ["Sun", "Earth", "Moon", "Mercury", "Venus", "Mars", "Jupiter", "Saturn", "Uranus", "Neptune", "Pluto"]
    def consts():
        for n in ("c", "G", "eps0", "coulombs_const", "Cosmo_Const", "Solar_Mass", "R_sun"):
            x = getattr(k, n)
            rec.ev("const", name=n, value=q((1 * x).si.value), dim=dims(x.unit))
    def solar():
        for i, n in enumerate(names):
            b = getattr(B, n)
            rec.ev("solar", i=i + 1, name=b.name, mass=q(b.mass.si.value), R=q(b.R.si.value), q=q(b.q.si.value), parent="" if b.parent is None else (b.parent.name if b.parent is getattr(B, b.parent.name, None) else "?"), coords=b.coords is not None)
    consts(); solar()
    for _ in range(40):
        args, enc = [], []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            kind = rng.choice(list(bh.UNITS))
            form = rng.random()
            if form < .5:
                p = bh.inunit(rng, kind, rng.choice([0.0, rng.uniform(-9, 9), 10 ** rng.uniform(-9, 20)]), True)
                args.append(bh.quant(p)); enc.append([bh.enc(p)])
            elif form < .65:
                un = rng.choice(bh.UNITS[kind]); vs = [rng.uniform(-9, 9) for _ in range(rng.choice([1, 2, 3]))]
                args.append(np.array(vs) * bh.U(un)); enc.append([[q(v), un] for v in vs])
            elif form < .75: args.append(k.c); enc.append([[q(299792458), "m/s"]])
            else:
                v = rng.choice([0, 3, -2.5, rng.uniform(-5, 5), np.float64(1.5)])
                args.append(v); enc.append([[q(v), "1"]])
        r, exc = outcome(primitive, *args)
        ok = exc == "" and isinstance(r, (list, tuple)) and not any(hasattr(x, "unit") for x in r)
        rec.ev("primitive", args=enc, exc=exc if ok or exc else "not plain", out=[qs(np.atleast_1d(np.asarray(x, float))) for x in r] if ok else [])
    # use of bodies and constants leaves them as they were
    b = B.Body(name="x", mass=3 * u.kg, parent=B.Sun); b.mass += 1 * u.kg; b.q += 2 * u.C; str(b)
    c = B.Body(parent=B.Earth); c.R += 5 * u.km; c.q += 1 * u.C
    consts(); solar()


def symbolic(rec, acts):
    sc = importlib.import_module("einsteinpy.symbolic.constants")
    objs, owns = [], {n: getattr(sc, n) for n in ("c", "G", "Cosmo_Const", "eps_0")}
    own = {"c": "Speed Of Light", "G": "Gravitational Constant", "k": "Boltzmann"}
    see = lambda: [[o.name, o.descriptive_name or ""] for o in objs]
    for a in acts:
        if a["do"] == "get":
            o, exc = outcome(sc.get_constant, a["name"])
            if exc == "": objs.append(o)
            rec.ev("get", name=a["name"], exc=exc, own=exc == "" and o is owns.get(a["name"]), all=see())
        else:
            d = own[a["name"]] if a["desc"] == "own" else a["desc"]
            kw = dict(real=True) if a["assume"] else {}
            o, exc = outcome(lambda: sc.SymbolicConstant(a["name"], d, **kw) if d else sc.SymbolicConstant(a["name"], **kw))
            if exc == "": objs.append(o)
            rec.ev("make", name=a["name"], desc=d, exc=exc, all=see())
    for n in owns:
        o, exc = outcome(sc.get_constant, n)
        if exc == "": objs.append(o)
        rec.ev("get", name=n, exc=exc, own=exc == "" and o is owns[n], all=see())


def run(ck, thorough):
    ck.design("BodyModel", dict(MAXBODY=2, MAXACT=3, SHARED="FALSE", EMIT="FALSE"), ["Isolated", "Own"], spec="MSpec", workers=8, merge=False, what="no two fields of any bodies share a quantity; every change is seen in its own place only")
    rng = random.Random(vlib.SEED + 29)
    b = ck.generate("BodyModel", dict(MAXBODY=3, MAXACT=3, SHARED="FALSE", EMIT="TRUE"), spec="MSpec", workers=4)
    b = [x for x in b if any(a["do"] == "new" and not a["bad"] for a in x)]
    # extend the enumerated histories by another one's changes
    ext = []
    for x in rng.sample(b, 3000 if thorough else 300):
        n = sum(a["do"] == "new" and not a["bad"] for a in x)
        tail = [dict(do=rng.choice(["increase", "increase", "assign"]), on=rng.randrange(1, n + 1), field=rng.choice(["mass", "q", "R"]), given=[], named=False, coords="none", bad="") for _ in range(rng.randrange(3))]
        mid = [dict(do="new", on=rng.randrange(n + 1), field="", given=rng.choice([[], ["mass"], ["q", "R"]]), named=rng.random() < .5, coords=rng.choice(["none", "none", "cart", "bl"]), bad="")] if rng.random() < .6 else []
        ext.append(x + tail + mid + tail[:1])
    c = ck.generate("ConstantModel", dict(MAXACT=3, EMIT="TRUE"), spec="MSpec", properties=["Kept"])
    c = rng.sample(c, min(len(c), 1500 if thorough else 250))
    ses = vlib.record([("table", table, ())] + [(f"bodies-{i}", history, (x,)) for i, x in enumerate(ext)] + [(f"symbols-{i}", symbolic, (x,)) for i, x in enumerate(c)])
    ck.validate("BodyTrace", ses, dict(MAXDIM=1, MAXORD=1), what="constants and predefined bodies; histories of bodies and of symbolic constants")
