"""C28: plotters."""
import importlib, math, os, random, re, shutil, tempfile, warnings
import numpy as np
import vlib
from vlib import q, qs, outcome


def hexa(c):
    from matplotlib import colors
    try: return colors.to_hex(c)
    except Exception: return str(c)


def item(cls, P, name, color, rng, every=False, most=24):
    """P: (n, dim) points"""
    P = np.asarray(P, float)
    if P.ndim != 2: P = P.reshape(-1, 1)
    ok = len(P) > 0 and bool(np.all(np.isfinite(P)))
    name = "" if name is None or name.startswith("_") else name
    S = P if every or len(P) <= most else P[sorted(rng.sample(range(len(P)), most))]
    return dict(cls=cls, dim=P.shape[1], name=name, color=hexa(color), n=len(P), pts=[qs(r) for r in S],
                lo=qs(P.min(axis=0)) if ok and not every else [], hi=qs(P.max(axis=0)) if ok and not every else [])


def seen_static(fig, rng):
    from mpl_toolkits.mplot3d import art3d
    out, lay = [], dict(title="", aspect="", labels2=["", ""], labels3=["", "", ""], size=qs(fig.get_size_inches()))
    axes = [a for a in fig.axes if a.has_data()]
    for ax in axes:
        three = ax.name == "3d"
        for c in ax.collections:
            if isinstance(c, art3d.Poly3DCollection): out.append(item("surface", vertices(c), c.get_label(), "k", rng))
            else: out.append(item(type(c).__name__, np.zeros((1, 2)), c.get_label(), "k", rng))
        for p in ax.patches: out.append(item("area", p.get_xy(), p.get_label(), p.get_facecolor()[:3], rng))
        for l in ax.lines:
            d = np.array(l.get_data_3d() if three else l.get_data(), float).T
            out.append(item("line", d, l.get_label(), l.get_color(), rng, True))
        if len(axes) == 1:
            lay["title"] = ax.get_title()
            if three: lay.update(aspect=str(ax.get_aspect()), labels3=[letter(ax.get_xlabel()), letter(ax.get_ylabel()), letter(ax.get_zlabel())])
            else: lay["labels2"] = [letter(ax.get_xlabel()), letter(ax.get_ylabel())]
    return dict(items=out, lay=lay)


def vertices(c):
    for a in ("_faces", "_vec"):
        v = getattr(c, a, None)
        if v is not None:
            v = np.asarray(np.ma.filled(v, np.nan), float)
            return v.reshape(-1, 3) if a == "_faces" else v[:3].T
    raise vlib.MachineryError("no vertices of a 3D surface")


def letter(s):
    m = re.match(r"\W*([A-Za-z]\d*)\b", s or "")
    return m.group(1) if m else ""


def seen_interactive(fig, rng):
    out = []
    for t in fig.data:
        kind = type(t).__name__
        f = lambda x: np.asarray(x, float).ravel()
        if kind == "Surface": out.append(item("surface", np.array([f(t.x), f(t.y), f(t.z)]).T, t.name, t.colorscale[0][1], rng))
        elif kind == "Scatter3d": out.append(item("line", np.array([f(t.x), f(t.y), f(t.z)]).T, t.name, t.line.color, rng, True))
        elif kind == "Scatter" and t.fill: out.append(item("area", np.array([f(t.x), f(t.y)]).T, t.name, t.fillcolor, rng))
        elif kind == "Scatter": out.append(item("line", np.array([f(t.x), f(t.y)]).T, t.name, t.line.color, rng, True))
        else: out.append(item(kind, np.zeros((1, 2)), t.name, "k", rng))
    L = fig.layout
    lay = dict(title=L.title.text or "", aspect=L.scene.aspectmode or "", labels2=[letter(L.xaxis.title.text), letter(L.yaxis.title.text)],
               labels3=[letter(a.title.text) for a in (L.scene.xaxis, L.scene.yaxis, L.scene.zaxis)], size=[])
    return dict(items=out, lay=lay)


def geodesics(rng, n, steps=(1, 2, 5, 9)):
    from einsteinpy.geodesic import Timelike, Nulllike
    out = []
    for _ in range(n):
        a = rng.choice([0.0, .5, .9, 1.0, -.6, rng.uniform(0, .99)])
        Q = rng.choice([0.0, .3, rng.uniform(0, .99 * math.sqrt(max(0, 1 - a * a)))])
        if a * a + Q * Q > .98: Q = 0.0
        name, prm, hole = rng.choice([("Schwarzschild", (), (0.0, 0.0)), ("Kerr", (a,), (a, 0.0)), ("Kerr", (a,), (a, 0.0)), ("KerrNewman", (a, Q), (a, Q))])
        cls = rng.choice([Timelike, Nulllike])
        g = cls(metric=name, metric_params=prm, position=[rng.uniform(3, 12), rng.uniform(.3, 2.8), rng.uniform(-3, 3)],
                momentum=[rng.uniform(-.3, .3), rng.uniform(-1, 1), rng.uniform(-3, 3)], steps=rng.choice(steps), delta=rng.choice([.05, .2]),
                return_cartesian=rng.random() < .7, suppress_warnings=True)
        t = g.trajectory
        e = dict(hole=qs(hole), kind=g.kind, coords=g.coords, traj=[[q(l)] + qs(r[:4]) for l, r in zip(t[0], t[1])])
        # the specification's columns: parameter, X1, X2, X3
        e["traj"] = [[r[0], r[2], r[3], r[4]] for r in e["traj"]]
        out.append((g, e))
    return out


COLORS = ["#123456", "#abcdef", "red", "#0f0", "#00ffff", "#FF8800"]


def history(rec, acts, *steps):
    import matplotlib
    from matplotlib import pyplot as plt
    from matplotlib.figure import Figure
    from unittest import mock
    P = importlib.import_module("einsteinpy.plotting")
    rng = rec.rng
    geo = geodesics(rng, 2, *steps)
    plotters, canvases, cur = [], [], {}
    saved = []

    def look(): return [seen_static(c, rng) if isinstance(c, Figure) else seen_interactive(c, rng) for c in canvases]

    def note(k):
        """the figure the plotter has after a call"""
        f = getattr(plotters[k - 1][0], "fig", None)
        if f is not None and not any(f is c for c in canvases):
            canvases.append(f)
        if f is not None: cur[k] = next(i + 1 for i, c in enumerate(canvases) if c is f)

    def sent(fig, image=None, image_filename="", **k):
        saved.append([next((i + 1 for i, c in enumerate(canvases) if c is fig), 0), f"{image_filename}.{image}"])

    def fake(self, name, *a, **k): saved.append([next((i + 1 for i, c in enumerate(canvases) if c is self), 0), str(name)])
    tmp = tempfile.mkdtemp(prefix="plots-")
    here = os.getcwd()
    try:
        os.chdir(tmp)
        with mock.patch.object(Figure, "savefig", fake), mock.patch.object(plt, "show", lambda *a, **k: None), \
                mock.patch.object(importlib.import_module("einsteinpy.plotting.geodesic.interactive"), "saveplot", sent):
            for a in acts:
                do, k = a["do"], a["on"]
                if do in ("static", "interactive"):
                    cols = tuple(rng.sample(COLORS, 2))
                    cls = P.StaticGeodesicPlotter if do == "static" else P.InteractiveGeodesicPlotter
                    if do == "static" and rng.random() < .3: cls = P.GeodesicPlotter
                    kw = {}
                    if rng.random() < .7: kw["bh_colors"] = cols
                    else: cols = ("#000", "#FFC")
                    if not a["good"] or rng.random() < .6: kw["draw_ergosphere"] = a["good"]
                    o, exc = outcome(lambda: cls(**kw))
                    if exc: rec.ev("new", kind=do, ergo=a["good"], cols=[hexa(c) for c in cols], exc=exc, seen=look()); return
                    plotters.append((o, do))
                    if do == "interactive": note(len(plotters))
                    rec.ev("new", kind=do, ergo=a["good"], cols=[hexa(c) for c in cols], exc="", seen=look())
                    continue
                o, kind = plotters[k - 1]
                g, ge = geo[a["geo"] - 1] if a["geo"] else (None, None)
                col = rng.choice(COLORS)
                title = rng.choice(["", "A title", "Orbit 2", "t\n"])
                kw = {}
                named = rng.random() < .7
                if named: kw["title"] = title
                fs = rng.choice([None, (6, 6), (8, 5)])
                if do == "plot":
                    if not named: title = "" if kind == "static" else "Geodesic Plot"
                    asp = rng.choice(["auto", "equal", "equalxy", "equalyz", "equalxz"] if kind == "static" else ["auto", "data", "manual", "cube"]) if a["good"] else rng.choice(["", "Auto", "cube" if kind == "static" else "equal", "no", None])
                    if a["good"] and rng.random() < .3: asp = "auto"
                    else: kw["aspect"] = asp
                    if fs and kind == "static": kw["figsize"] = fs
                    _, exc = outcome(lambda: o.plot(g, color=col, **kw)); note(k)
                    rec.ev("plot", on=k, size=qs(fs or (6, 6)), geo=ge, aspect=str(asp), color=hexa(col), title=title, exc=exc, seen=look())
                elif do == "plot2D":
                    if not named: title = ""
                    v = a["view"]
                    if v == [1, 2] and rng.random() < .3: pass
                    else: kw["coordinates"] = rng.choice([tuple, list])(v)
                    if fs: kw["figsize"] = fs
                    _, exc = outcome(lambda: o.plot2D(g, color=col, **kw)); note(k)
                    rec.ev("plot2D", on=k, size=qs(fs or (6, 6)), geo=ge, view=v, color=hexa(col), title=title, exc=exc, seen=look())
                elif do == "parametric":
                    if not named: title = "" if kind == "static" else "Parametric Plot"
                    cs = tuple(rng.sample(COLORS, 3))
                    if rng.random() < .7: kw["colors"] = cs
                    else: cs = ("#00FFFF", "#FF00FF", "#FFFF00")
                    if fs and kind == "static": kw["figsize"] = fs
                    _, exc = outcome(lambda: o.parametric_plot(g, **kw)); note(k)
                    rec.ev("parametric", on=k, size=qs(fs or (8, 6)), geo=ge, colors=[hexa(c) for c in cs], title=title, exc=exc, seen=look())
                elif do == "animate":
                    if rng.random() < .5: kw = dict(interval=rng.choice([5, 50]))
                    else: kw = {}
                    _, exc = outcome(lambda: o.animate(g, color=col, **kw)); note(k)
                    frames, name = [], ""
                    if exc == "":
                        lines = [l for ax in o.fig.axes for l in ax.lines]
                        for n in list(o.ani.new_frame_seq()):
                            o.ani._draw_frame(n)
                            frames.append([qs(r) for r in np.array(lines[-1].get_data_3d(), float).T] if lines else [])
                        name = (lines[-1].get_label() or "") if lines else ""
                        o.ani.event_source = None; o.ani._draw_was_started = True
                    rec.ev("animate", on=k, geo=ge, color=hexa(col), exc=exc, frames=frames, linename="" if name.startswith("_") else name, seen=look())
                elif do == "clear":
                    _, exc = outcome(o.clear); note(k)
                    rec.ev("clear", on=k, exc=exc, seen=look())
                elif do == "show":
                    az, el = (rng.uniform(-180, 180), rng.uniform(-80, 80)) if rng.random() < .6 else (-60, 30)
                    r, exc = outcome(lambda: (o.show(azim=az, elev=el) if (az, el) != (-60, 30) else o.show()) if kind == "static" else o.show()); note(k)
                    leg, view, own = [], [q(0), q(0)], True
                    if kind == "static":
                        for ax in o.fig.axes:
                            if ax.get_legend(): leg += [t.get_text() for t in ax.get_legend().get_texts()]
                            if ax.name == "3d": view = [q(ax.azim), q(ax.elev)]
                    else: own = r is canvases[cur[k] - 1]
                    rec.ev("show", on=k, exc=exc, legend=leg, view=view, azim=q(az), elev=q(el), own=own, seen=look())
                elif do == "save":
                    saved.clear()
                    nm = rng.choice(["a.png", "Orbit.pdf", "x/y.png", "x/Geodesic.png", "a.b.svg", ""])
                    _, exc = outcome(o.save, nm) if nm else outcome(o.save); note(k)
                    rec.ev("save", on=k, name=nm, exc=exc, saved=[list(x) for x in saved], seen=look())
    finally:
        os.chdir(here)
        plt.close("all")
        shutil.rmtree(tmp, ignore_errors=True)


def savefile(rec):
    """the figure really written, in a folder of its own, without a browser"""
    import webbrowser
    from unittest import mock
    P = importlib.import_module("einsteinpy.plotting")
    (g, _), = geodesics(rec.rng, 1)
    tmp, here = tempfile.mkdtemp(prefix="plots-"), os.getcwd()
    try:
        os.chdir(tmp)
        with mock.patch.object(webbrowser, "open", lambda *a, **k: True), mock.patch.object(webbrowser, "get", lambda *a: mock.Mock()):
            o = P.InteractiveGeodesicPlotter()
            o.plot(g)
            _, exc = outcome(o.save, "Orbit.svg")
        rec.ev("savefile", exc=exc, written=len(os.listdir(tmp)))
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)


def others(rec, n, big=False):
    from matplotlib import pyplot as plt
    from matplotlib.collections import QuadMesh
    from mpl_toolkits.mplot3d import art3d
    from astropy import units as u
    P = importlib.import_module("einsteinpy.plotting")
    from einsteinpy.rays import Shadow
    from einsteinpy.hypersurface import SchwarzschildEmbedding
    from unittest import mock
    rng = rec.rng
    with mock.patch.object(plt, "show", lambda *a, **k: None):
        for _ in range(n):
            plt.close("all")
            M = rng.uniform(.5, 3)
            sh = Shadow(mass=M * u.kg, n_rays=400 if big else rng.choice([4, 6, 9]), fov=M * rng.uniform(7, 30) * u.km)
            if rng.random() < .3: sh.smoothen(rng.choice([8, 15]))
            d = dict(fb1=qs(list(sh.fb1)), fb2=qs(list(sh.fb2)), intensity=qs([float(x) for x in sh.intensity]))
            top = q(float(np.max(np.abs(np.asarray(list(sh.fb1), float)))))
            p = P.ShadowPlotter(sh) if rng.random() < .5 else P.ShadowPlotter(sh, is_line_plot=True)
            _, exc = outcome(lambda: (p.plot(), p.show()))
            its = [item("line", np.array(l.get_data(), float).T, l.get_label(), l.get_color(), rng, True) for ax in plt.gcf().axes for l in ax.lines] if exc == "" else []
            rec.ev("lines", exc=exc, items=its, **d)
            plt.close("all")
            p = P.ShadowPlotter(sh, False)
            _, exc = outcome(lambda: (p.plot(), p.show()))
            V, lo, hi = [], [q(0)] * 2, [q(0)] * 2
            if exc == "":
                for ax in plt.gcf().axes:
                    for c in ax.collections:
                        if isinstance(c, QuadMesh):
                            XY, A = np.asarray(c.get_coordinates(), float), np.asarray(c.get_array(), float).reshape(-1)
                            XY = XY.reshape(-1, 2)
                            lo, hi = qs(XY.min(axis=0)), qs(XY.max(axis=0))
                            if len(A) == len(XY):
                                V += [qs([*XY[i], A[i]]) for i in rng.sample(range(len(A)), min(len(A), 40))]
            rec.ev("disc", exc=exc, verts=V, lo=lo, hi=hi, top=top, fb1=d["fb1"], intensity=d["intensity"])
            plt.close("all")
            em = SchwarzschildEmbedding(10 ** rng.uniform(22, 31) * u.kg)
            alpha = rng.choice([3, 5, 8])
            tex = rng.choice(["wireframe", "surface"])
            kw = dict(alpha=alpha)
            if tex == "surface" or rng.random() < .5: kw["plot_type"] = tex
            h = P.HypersurfacePlotter(embedding=em, **kw)
            _, exc = outcome(lambda: (h.plot(), h.show()))
            X, Y, Z = em.get_values_surface(alpha)
            r, z = np.hypot(X[0], Y[0]), np.asarray(Z, float).reshape(X.shape)[0]
            V, cls, lo, hi = np.zeros((0, 3)), "", [q(0)] * 2, [q(0)] * 2
            if exc == "":
                for ax in plt.gcf().axes:
                    for c in ax.collections:
                        if isinstance(c, art3d.Poly3DCollection): V, cls = vertices(c), cls + "surface"
                        elif isinstance(c, art3d.Line3DCollection): V, cls = np.concatenate([np.asarray(x, float).reshape(-1, 3) for x in c._segments3d]), cls + "wireframe"
                if len(V): lo, hi = qs(V.min(axis=0)[:2]), qs(V.max(axis=0)[:2])
            r, z = np.asarray(r, float), np.asarray(z, float)
            rec.ev("hyper", exc=exc, texture=tex, cls=cls, verts=[qs(x) for x in V[sorted(rng.sample(range(len(V)), min(len(V), 40)))]] if len(V) else [], lo=lo, hi=hi,
                   prof=[qs(x) for x in zip(r, z)], top=q(float(np.max(r))))
            plt.close("all")


def run(ck, thorough):
    import matplotlib
    matplotlib.use("Agg")
    ck.design("CanvasModel", dict(MAXPLOTTER=2, MAXACT=4 if thorough else 3, EMIT="FALSE"), ["OncePerCall", "HoleAsAsked"], ["Others"], spec="MSpec", workers=8, merge=False,
              what="every drawing call shows once on a canvas of its plotter; no other canvas changes")
    rng = random.Random(vlib.SEED + 28)
    b = ck.generate("CanvasModel", dict(MAXPLOTTER=2, MAXACT=4, EMIT="TRUE"), spec="MSpec", workers=4)
    b = [x for x in b if sum(a["do"] in ("plot", "plot2D", "parametric", "animate") for a in x) >= 1]
    two = [x for x in b if sum(a["do"] in ("static", "interactive") for a in x) == 2]
    n = 1500 if thorough else 220
    pick = rng.sample(b, n // 2)
    # two histories of the model one after the other: on the same two plotters
    long = []
    for _ in range(n // 2):
        x, y = rng.choice(two), rng.choice(b)
        ks = [a["do"] for a in x if a["do"] in ("static", "interactive")]
        made = [a["do"] for a in y if a["do"] in ("static", "interactive")]
        drawn = {a["on"] for a in x if a["do"] in ("plot", "plot2D", "parametric", "animate") and a["good"]}
        tail = []
        for a in y:
            if a["do"] in ("static", "interactive"): continue
            k = next((i + 1 for i, t in enumerate(ks) if t == made[a["on"] - 1]), 0)
            if not k: continue
            if a["do"] in ("plot", "plot2D", "parametric", "animate") and a["good"]: drawn.add(k)
            elif ks[k - 1] == "static" and k not in drawn and a["do"] in ("show", "clear", "save"): continue
            tail.append(dict(a, on=k))
        long.append(x + tail)
    ses = vlib.record([(f"history-{i}", history, (x,)) for i, x in enumerate(pick + long)] + [(f"others-{i}", others, (3,)) for i in range(40 if thorough else 12)])
    S = lambda do, on=0, geo=0, view=(), good=True: dict(do=do, on=on, geo=geo, view=list(view), good=good)
    far = [[S("static"), S("animate", 1, 1), S("show", 1)], [S("static"), S("interactive"), S("plot", 1, 1), S("plot", 2, 2), S("plot2D", 1, 2, (3, 1)), S("plot2D", 2, 1, (2, 3)), S("parametric", 1, 1), S("parametric", 2, 2)]]
    ses += vlib.record([(f"long-{i}", history, (x, (104, 131))) for i, x in enumerate(far * (4 if thorough else 1))] + [("large", others, (1, True)), ("savefile", savefile, ())])
    ck.validate("CanvasTrace", ses, dict(MAXDIM=1, MAXORD=1), what="figures of histories of plotters; shadow and hypersurface figures")
