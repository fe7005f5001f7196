"""P21: the plotting helpers put every label, title, trace, view and frame where the caller asked, over all small grids of subplots,
spellings of the labels and patterns of absent subplots and titles."""
import io
import itertools
import os
import pickle
import sys
import types
import warnings

import numpy as onp

ASSUMPTIONS = ["matplotlib (Agg) and plotly hold what they are told; the figures are read back through their object models.",
               "MayaviMakePlot cannot be imported here (mayavi is not installed); plotly's static images need a browser, so only HTML files are saved.",
               "The screen is a stand-in for tkinter (1920x1080 pixels, 480x360 mm)."]
SHAPES = {"quick": [(1, 1), (1, 2), (2, 1), (3, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3)],
          "thorough": [(r, c) for r in range(1, 6) for c in range(1, 5)]}
TRACES2 = ["Scatter", "Histogram", "Contour", "Box", "Violin"]
TRACES3 = ["Surface", "Scatter3d", "Volume"]
FORMATS = ["png", "pdf", "ps", "eps", "svg"]


def bounds(tier):
    return {"grids": f"{SHAPES[tier]} x label spellings (string, list, tuple, nested list, array) x 2-D/3-D x twin axes x titles",
            "absent subplots and titles": "matplotlib: all subsets of absent subplots and of absent titles of grids of up to 4 cells (thorough 6), independently, and single ones of the larger grids; plotly: all subsets of absent titles of grids of up to 6 cells",
            "traces and views": "every trace kind in every cell of every grid, every view of every cell after every other view",
            "colour scales": "all pairs of two traces out of surfaces and volumes with and without own colours x (data, cmax, cmin given or not) x types",
            "files": "5 formats x suffix in the name or fileType x transparent, pickles, html; animations of 0 to 4 frames, shown or saved"}


def groups(tier):
    gs = [{"k": "mpl", "shape": list(s)} for s in SHAPES[tier]]
    gs += [{"k": "plotly", "shape": list(s)} for s in SHAPES[tier]]
    gs += [{"k": "color", "first": i} for i in range(5)]
    gs += [{"k": "files"}, {"k": "anim"}, {"k": "screen"}]
    return gs


def weight(g):
    return {"mpl": 10, "plotly": 6}.get(g["k"], 3) * (g["shape"][0] * g["shape"][1] if "shape" in g else 3)


def run(g, rec, tier):
    warnings.simplefilter("ignore")
    {"mpl": mpl, "plotly": ply, "color": color, "files": files, "anim": anim, "screen": screen}[g["k"]](g, rec, tier)


def grid(prefix, r, c, absent=()):
    return [[None if j * c + k in absent else f"{prefix}{j}{k}" for k in range(c)] for j in range(r)]


def spellings(lab):
    """the forms the caller may give the same grid of labels in"""
    r, c = len(lab), len(lab[0])
    out = [("nested list", lab), ("nested tuple", tuple(tuple(x) for x in lab)), ("array", onp.array(lab))]
    if c == 1:
        out += [("list", [x[0] for x in lab]), ("tuple", tuple(x[0] for x in lab)), ("1-D array", onp.array([x[0] for x in lab]))]
    if r == c == 1 and lab[0][0] is not None:
        out += [("string", lab[0][0])]
    return out


def subsets(n):
    return [tuple(i for i in range(n) if b >> i & 1) for b in range(2 ** n)]


def mpl(g, rec, tier):
    import matplotlib.pyplot as plt
    from tfc.utils.MakePlot import MakePlot

    r, c = g["shape"]
    n = r * c
    full = n <= (4 if tier == "quick" else 6)
    holes = [s for s in subsets(n) if len(s) < n] if full else [()] + [(i,) for i in range(n)] + [(0, n - 1), tuple(range(n - 1)), tuple(range(1, n))]
    notitle = [None] + (subsets(n) if full else [()] + [(i,) for i in range(n)] + [(0, n - 1), tuple(range(n - 1))])
    kinds = [("2d", False), ("2d", True), ("3d", False)]
    one = 0
    for absent, nt, (dim, twin) in itertools.product(holes, notitle, kinds):
        if n > 2 and absent and nt and (dim == "3d" or twin) and (n > 4 or len(absent) + len(nt) > 3):
            continue
        if not full and absent and nt and absent != nt and len(absent) + len(nt) > 2:
            continue
        X, Y, Z, T, W = (grid(p, r, c) for p in "xyztw")
        for i in absent:
            X[i // c][i % c] = None
        if nt is not None:
            for i in nt:
                T[i // c][i % c] = None
        # the spelling of each argument: all alike, and one differing at a time on the full grid
        forms = range(len(spellings(X))) if not absent and not nt else [one % len(spellings(X))]
        one += 1
        for f in forms:
            case = dict(g, absent=list(absent), titles_absent=None if nt is None else list(nt), dim=dim, twin=twin, spelling=spellings(X)[f][0])
            rec.now(str(case))
            kw = {}
            if nt is not None:
                kw["titles"] = spellings(T)[f % len(spellings(T))][1]
            if twin:
                kw["twinYlabs"] = spellings(W)[f][1]
            if dim == "3d":
                kw["zlabs"] = spellings(Z)[f][1]
            with rec.guard("MakePlot", case):
                p = MakePlot(spellings(X)[f][1], spellings(Y)[f][1], **kw)
                rec.states += 1
                rec.traces += 1
                cells = [(j, k) for j in range(r) for k in range(c) if j * c + k not in absent]
                if len(p.ax) != len(cells):
                    rec.fail("subplots", f"{len(p.ax)} subplots, expected {len(cells)}", case)
                    continue
                if len(p.fig.axes) != len(cells) * (2 if twin else 1):
                    rec.fail("axes", f"{len(p.fig.axes)} axes in the figure for {len(cells)} subplots", case)
                for i, (j, k) in enumerate(cells):
                    rec.transitions += 1
                    ax = p.ax[i]
                    ss = ax.get_subplotspec()
                    pos = (ss.get_gridspec().get_geometry(), ss.rowspan.start, ss.colspan.start, ss.rowspan.stop, ss.colspan.stop)
                    if pos != ((r, c), j, k, j + 1, k + 1):
                        rec.fail("position", f"subplot {i} is at {pos}, expected row {j}, column {k} of {r}x{c}", case)
                    got = [ax.get_xlabel(), ax.get_ylabel(), ax.get_title()]
                    want = [X[j][k], Y[j][k], (T[j][k] or "") if nt is not None else ""]
                    if dim == "3d":
                        got.append(ax.get_zlabel())
                        want.append(Z[j][k])
                    if twin:
                        got.append(p.twinAx[i].get_ylabel())
                        want.append(W[j][k])
                        if not (p.twinAx[i].get_shared_x_axes().joined(p.twinAx[i], ax) and p.twinAx[i].get_position().bounds == ax.get_position().bounds):
                            rec.fail("twin", f"twin axes {i} do not lie over subplot {i}", case)
                    if got != want:
                        rec.fail("labels", f"subplot in row {j}, column {k} shows {got}, expected {want}", case)
            plt.close("all")
            if rec.full:
                return
    rec.sample(case)


def data_for(kind, i):
    """keyword arguments of a trace, different for every i"""
    v = onp.array([1.0, 2.0, 4.0]) + i
    if kind in ("Scatter",):
        return dict(x=v, y=v ** 2)
    if kind in ("Histogram", "Box", "Violin"):
        return dict(y=v) if kind != "Histogram" else dict(x=v)
    if kind in ("Contour", "Surface"):
        return dict(z=onp.outer(v, v))
    if kind == "Scatter3d":
        return dict(x=v, y=v ** 2, z=-v)
    x, y, z = onp.meshgrid([0.0, 1.0], [0.0, 1.0], [0.0, 1.0])
    return dict(x=x.flatten(), y=y.flatten(), z=z.flatten(), value=(x + y + z).flatten() + i)


def num(prefix, i):
    return prefix if i == 0 else prefix + str(i + 1)


def text(t):
    return t.text if t is not None else None


def cell_labels(fig, tr, three):
    """labels of the axes a trace is drawn on"""
    if three:
        s = fig.layout[tr.scene or "scene"]
        return [text(s.xaxis.title), text(s.yaxis.title), text(s.zaxis.title)]
    x, y = tr.xaxis or "x", tr.yaxis or "y"
    return [text(fig.layout["xaxis" + x[1:]].title), text(fig.layout["yaxis" + y[1:]].title)]


def ply(g, rec, tier):
    from tfc.utils.PlotlyMakePlot import MakePlot

    r, c = g["shape"]
    n = r * c
    X, Y, Z, T = (grid(p, r, c) for p in "xyzt")
    nts = [None] + (subsets(n) if n <= 6 else [()] + [(i,) for i in range(n)])
    for three in (False, True):
        for nt in nts:
            Tn = grid("t", r, c, nt or ())
            for f in range(len(spellings(X))) if not nt else [0]:
                case = dict(g, three=three, titles_absent=None if nt is None else list(nt), spelling=spellings(X)[f][0])
                rec.now(str(case))
                with rec.guard("MakePlot", case):
                    kw = {}
                    if nt is not None:
                        kw["titles"] = spellings(Tn)[f % len(spellings(Tn))][1]
                    if three:
                        kw["zlabs"] = spellings(Z)[f][1]
                    p = MakePlot(spellings(X)[f][1], spellings(Y)[f][1], **kw)
                    rec.states += 1
                    rec.traces += 1
                    axes = sorted(k for k in p.fig.layout.to_plotly_json() if k.startswith("scene" if three else "xaxis"))
                    if n > 1 and len(axes) != n:
                        rec.fail("subplots", f"the figure has {axes}, expected {n} subplots", case)
                    # one trace per cell tells which axes the cell has
                    for j, k in itertools.product(range(r), range(c)):
                        kind = TRACES3[0] if three else TRACES2[0]
                        rc = dict(row=j + 1, col=k + 1) if n > 1 else {}
                        getattr(p, kind)(**rc, **data_for(kind, j * c + k))
                        rec.transitions += 1
                        got = cell_labels(p.fig, p.fig.data[-1], three)
                        want = [X[j][k], Y[j][k]] + ([Z[j][k]] if three else [])
                        if got != want:
                            rec.fail("labels", f"subplot in row {j}, column {k} shows {got}, expected {want}", case)
                    want = [] if nt is None else [t for row in Tn for t in row if t is not None]
                    if n == 1:
                        got = [p.fig.layout.title.text] if p.fig.layout.title.text else []
                        if got != want:
                            rec.fail("title", f"the figure's title is {got}, expected {want}", case)
                    else:
                        ann = {a.text: a for a in p.fig.layout.annotations}
                        if sorted(ann) != sorted(want):
                            rec.fail("title", f"titles {sorted(ann)}, expected {sorted(want)}", case)
                        else:
                            for j, k in itertools.product(range(r), range(c)):
                                if Tn[j][k] is not None and nt is not None:
                                    tr = p.fig.data[j * c + k]
                                    dom = p.fig.layout[tr.scene].domain if three else None
                                    dx, dy = (dom.x, dom.y) if three else (p.fig.layout["xaxis" + tr.xaxis[1:]].domain, p.fig.layout["yaxis" + tr.yaxis[1:]].domain)
                                    a = ann[Tn[j][k]]
                                    if not (dx[0] <= a.x <= dx[1] and abs(a.y - dy[1]) < 1e-9):
                                        rec.fail("title", f"title {a.text} is at {(a.x, a.y)}, its subplot at {dx} x {dy}", case)
                if rec.full:
                    return
        # every kind of trace in every cell
        for kind in TRACES3 if three else TRACES2:
            case = dict(g, trace=kind)
            with rec.guard(kind, case):
                p = MakePlot(X, Y, **({"zlabs": Z} if three else {}))
                for j, k in itertools.product(reversed(range(r)), range(c)):
                    rc = dict(row=j + 1, col=k + 1) if n > 1 else {}
                    kw = data_for(kind, j * c + k)
                    before = len(p.fig.data)
                    getattr(p, kind)(**rc, **kw, name=f"n{j}{k}")
                    rec.states += 1
                    rec.transitions += 1
                    tr = p.fig.data[-1]
                    if len(p.fig.data) != before + 1 or type(tr).__name__ != kind or tr.name != f"n{j}{k}":
                        rec.fail("trace", f"{len(p.fig.data)} traces, the last a {type(tr).__name__}, expected a {kind}", case)
                    elif not all(onp.array_equal(tr[a], v) for a, v in kw.items()):
                        rec.fail("trace", f"the data of the {kind} in row {j}, column {k} differ from those given", case)
                    elif cell_labels(p.fig, tr, three) != [X[j][k], Y[j][k]] + ([Z[j][k]] if three else []):
                        rec.fail("trace", f"the {kind} for row {j}, column {k} is on the axes {cell_labels(p.fig, tr, three)}", case)
            if rec.full:
                return
    # views
    cells = list(itertools.product(range(r), range(c)))
    for (j, k), (j2, k2) in itertools.product(cells, cells):
        case = dict(g, views=[[j, k], [j2, k2]])
        with rec.guard("view", case):
            p = MakePlot(X, Y, zlabs=Z)
            for a, b in cells:
                p.Surface(**(dict(row=a + 1, col=b + 1) if n > 1 else {}), z=onp.eye(2))
            eye = {}
            for step, (a, b, az, el, d) in enumerate([(j, k, 30.0, 20.0, None), (j2, k2, -100.0, 65.0, 4.0), (j, k, 0.0, -90.0, None), (j2, k2, 45.0, 0.0, 0.5)]):
                dist = {0: 2.5, 1: 4.0, 2: 4.0, 3: 0.5}[step]
                p.view(az, el, **(dict(row=a + 1, col=b + 1) if n > 1 or step % 2 else {}), **({"viewDistance": d} if d else {}))
                u, v = onp.radians(az), onp.radians(el)
                eye[a, b] = dist * onp.array([-onp.sin(u) * onp.cos(v), -onp.cos(u) * onp.cos(v), onp.sin(v)])
                rec.transitions += 1
                for i, (a2, b2) in enumerate(cells):
                    e = p.fig.layout[p.fig.data[i].scene or "scene"].camera.eye
                    got = None if e.x is None else onp.array([e.x, e.y, e.z])
                    want = eye.get((a2, b2))
                    if (got is None) != (want is None) or (got is not None and abs(got - want).max() > 1e-9):
                        rec.fail("view", f"after {step + 1} views the camera of row {a2}, column {b2} is at {got}, expected {want}", case)
            rec.states += 1
        if rec.full:
            return
    with rec.guard("view", dict(g)):
        p = MakePlot(X, Y)
        try:
            p.view(10.0, 10.0)
            rec.fail("view", "view is accepted by a 2-D figure", dict(g))
        except BaseException as e:
            rec.transitions += 1
    rec.sample(dict(g, views="all pairs"))


def color(g, rec, tier):
    from tfc.utils.PlotlyMakePlot import MakePlot

    x, y, z = (a.flatten() for a in onp.meshgrid([0.0, 1.0], [0.0, 1.0], [0.0, 1.0]))
    items = [("Surface", dict(z=onp.array([[1.0, 2.0], [3.0, 4.0]]))), ("Surface", dict(z=onp.array([[-5.0, 2.0], [0.0, 1.0]]), surfacecolor=onp.array([[7.0, 8.0], [9.0, 6.5]]))),
             ("Volume", dict(x=x, y=y, z=z * 10, value=x + y)), ("Scatter3d", dict(x=x, y=y, z=z + 100)), ("Surface", dict(z=onp.array([[-1.0, -2.0], [-3.0, -4.0]]), surfacecolor=onp.array([[-7.0, -8.0], [-9.0, -6.5]])))]
    ns = (1, 2) if tier == "quick" else (1, 2, 3)
    for n in ns:
        for pick in itertools.product(range(len(items)), repeat=n):
            if pick[0] != g["first"]:
                continue
            for ty in (["Surface"], ["Volume"], ["Surface", "Volume"], []):
                for data, cmax, cmin in itertools.product((None, "z", "surfacecolor", "value"), (None, 3.5, 0.0), (None, -2.0, 0.0)):
                    case = dict(g, traces=[items[i][0] for i in pick], own=[sorted(items[i][1]) for i in pick], types=ty, data=data, cmax=cmax, cmin=cmin)
                    sel = [i for i in range(n) if items[pick[i]][0] in ty]
                    have = [items[pick[i]][1][data] for i in sel if data in items[pick[i]][1]]
                    given = cmax is not None or cmin is not None
                    if not given and (data is None or (sel and not have)):
                        continue  # nothing to take the limits from
                    rec.now(str(case))
                    with rec.guard("NormalizeColorScale", case):
                        p = MakePlot("x", "y", zlabs="z")
                        for i in pick:
                            getattr(p, items[i][0])(**items[i][1])
                        p.NormalizeColorScale(types=ty, data=data, **{k: v for k, v in (("cmax", cmax), ("cmin", cmin)) if v is not None})
                        rec.states += 1
                        rec.transitions += n
                        for i in range(n):
                            tr = p.fig.data[i]
                            if items[pick[i]][0] == "Scatter3d":
                                continue
                            got = (tr.cmax, tr.cmin)
                            if i not in sel:
                                want = (None, None)
                            elif given:
                                if data is not None and data not in items[pick[i]][1]:
                                    continue
                                want = (cmax, cmin)
                            else:
                                if data not in items[pick[i]][1]:
                                    continue  # not defined whether a trace without that data takes part
                                want = (max(a.max() for a in have), min(a.min() for a in have))
                            if got != want:
                                rec.fail("limits", f"trace {i} has (cmax, cmin) = {got}, expected {want}", case)
                            if not all(onp.array_equal(tr[a], v) for a, v in items[pick[i]][1].items()):
                                rec.fail("data", f"the data of trace {i} changed", case)
                    if rec.full:
                        return
    rec.sample(case)


MAGIC = {"png": b"\x89PNG", "pdf": b"%PDF", "ps": b"%!PS", "eps": b"%!PS", "svg": b"<?xml"}


def files(g, rec, tier):
    import tempfile

    import matplotlib.pyplot as plt
    from matplotlib import image
    from tfc.utils.MakePlot import MakePlot
    from tfc.utils.PlotlyMakePlot import MakePlot as Plotly

    d = tempfile.mkdtemp(dir=os.environ["MC_SCRATCH"])
    os.chdir(d)
    count = 0
    for nm, absdir, ft, tr, how in itertools.product(("fig", "two.part", "v1.png", "a b"), (False, True), FORMATS, (True, False), ("suffix", "fileType", "all")):
        count += 1
        case = dict(g, name=nm, fileType=ft, transparent=tr, how=how, absolute=absdir)
        rec.now(str(case))
        sub = os.path.join(d, f"s{count}")
        os.mkdir(sub)
        os.chdir(sub)
        with rec.guard("save", case):
            p = MakePlot("x", "y", titles="t")
            p.PartScreen(2.0, 1.5)
            p.ax[0].plot([0, 1, 2], [5.0, 4.0, 4.5])
            base = os.path.join(sub, nm) if absdir else nm
            if how == "suffix":
                p.save(base + "." + ft, transparent=tr)
                want = {f"{nm}.{ft}"}
            elif how == "fileType":
                p.save(base, fileType=ft, transparent=tr)
                want = {f"{nm}.{ft}"}
            else:
                p.saveAll(base, fileType=ft, transparent=tr)
                want = {f"{nm}.{ft}", f"{nm}.pickle"}
            rec.states += 1
            rec.transitions += 1
            got = set(os.listdir(sub))
            if got != want:
                rec.fail("files", f"wrote {sorted(got)}, expected {sorted(want)}", case)
                continue
            with open(f"{nm}.{ft}", "rb") as fh:
                raw = fh.read()
            if not raw.startswith(MAGIC[ft]) or len(raw) < 1000 or (ft == "eps") != (b"EPSF" in raw[:30]):
                rec.fail("format", f"{nm}.{ft} starts with {raw[:20]!r}", case)
            if ft == "png":
                im = image.imread(io.BytesIO(raw))
                if (im.ndim == 3 and im.shape[2] == 4 and im[0, 0, 3] == 0) != tr:
                    rec.fail("transparent", f"the corner pixel is {im[0, 0]}", case)
            if how == "all":
                import tfc.utils.MakePlot  # noqa: F401
                with open(f"{nm}.pickle", "rb") as fh:
                    q = pickle.load(fh)
                ax = q.ax[0]
                got = (ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), ax.lines[0].get_xdata().tolist(), ax.lines[0].get_ydata().tolist(), tuple(q.fig.get_size_inches()))
                if got != ("x", "y", "t", [0, 1, 2], [5.0, 4.0, 4.5], (2.0, 1.5)):
                    rec.fail("pickle", f"the pickled figure holds {got}", case)
        plt.close("all")
        os.chdir(d)
        if rec.full:
            return
    for nm, how in itertools.product(("fig", "two.part"), ("suffix", "fileType")):
        case = dict(g, name=nm, fileType="html", how=how)
        count += 1
        sub = os.path.join(d, f"s{count}")
        os.mkdir(sub)
        os.chdir(sub)
        with rec.guard("save html", case):
            p = Plotly("the x label", "the y label", titles="the title")
            p.Scatter(x=[1, 2], y=[1234.5, 2])
            p.save(nm + ".html") if how == "suffix" else p.save(nm, fileType="html")
            rec.states += 1
            rec.transitions += 1
            if os.listdir(sub) != [nm + ".html"]:
                rec.fail("files", f"wrote {os.listdir(sub)}, expected {nm}.html", case)
            else:
                with open(nm + ".html") as fh:
                    page = fh.read()
                for s in ("the x label", "the y label", "the title", "1234.5"):
                    if s not in page:
                        rec.fail("html", f"{s!r} is not in the page", case)
        os.chdir(d)
    rec.sample(case)


def anim(g, rec, tier):
    import contextlib
    import tempfile

    import matplotlib.pyplot as plt
    from matplotlib import image
    from tfc.utils.MakePlot import MakePlot

    d = tempfile.mkdtemp(dir=os.environ["MC_SCRATCH"])
    for steps, save, name, there in itertools.product(range(5), (True, False), (None, "frame"), (True, False)):
        case = dict(g, steps=steps, save=save, fileName=name, directory_exists=there)
        rec.now(str(case))
        os.chdir(tempfile.mkdtemp(dir=d))
        if there:
            os.mkdir("MyMovie")
        with rec.guard("animate", case):
            p = MakePlot("x", "y")
            p.PartScreen(1.0, 1.0)
            done = []

            def gen():
                for i in range(steps):
                    p.fig.patch.set_facecolor((i / 4, 0.0, 1 - i / 4))
                    p.ax[0].set_facecolor((i / 4, 0.0, 1 - i / 4))
                    done.append(i)
                    yield

            orig = p.fig.savefig

            def opaque(*a, **k):  # transparent frames do not show the face colour that tells the steps apart
                k["transparent"] = False
                return orig(*a, **k)

            p.fig.savefig = opaque
            kw = {} if name is None else {"fileName": name}
            with contextlib.redirect_stdout(io.StringIO()):
                p.animate(gen, save=save, delay=1, **kw)
            rec.states += 1
            rec.transitions += steps
            if done != list(range(steps)):
                rec.fail("steps", f"the generator was stepped {done}", case)
            base = name or "images"
            want = [f"{base}{i:06d}.png" for i in range(steps)] if save else []
            got = sorted(os.listdir("MyMovie")) if os.path.isdir("MyMovie") else []
            if got != want:
                rec.fail("frames", f"frames {got}, expected {want}", case)
            else:
                for i, f in enumerate(want):
                    im = image.imread(os.path.join("MyMovie", f))
                    if abs(im[1, 1, :3] - onp.array([i / 4, 0.0, 1 - i / 4])).max() > 0.02:
                        rec.fail("frames", f"{f} does not show step {i}", case)
        plt.close("all")
        if rec.full:
            return
    rec.sample(case)


def screen(g, rec, tier):
    import matplotlib.pyplot as plt
    from tfc.utils.MakePlot import MakePlot
    from tfc.utils.PlotlyMakePlot import MakePlot as Plotly

    px, mm = (1920, 1080), (480, 360)

    class Tk:
        withdraw = destroy = update = lambda self, *a: None
        winfo_screenwidth = lambda self: px[0]
        winfo_screenheight = lambda self: px[1]
        winfo_screenmmwidth = lambda self: mm[0]
        winfo_screenmmheight = lambda self: mm[1]

    m = types.ModuleType("tkinter")
    m.Tk = Tk
    sys.modules["tkinter"] = m
    for w, h in itertools.product((1.0, 3.25, 7.5), (1.0, 2.75, 6.0)):
        case = dict(g, width=w, height=h)
        with rec.guard("PartScreen", case):
            p = MakePlot("x", "y")
            p.PartScreen(w, h)
            rec.states += 1
            rec.transitions += 1
            if tuple(p.fig.get_size_inches()) != (w, h):
                rec.fail("size", f"the figure is {p.fig.get_size_inches()} inches", case)
            p.FullScreen()
            if abs(p.fig.get_size_inches() * p.fig.get_dpi() - onp.array(px)).max() > 0.6:
                rec.fail("size", f"full screen is {p.fig.get_size_inches() * p.fig.get_dpi()} pixels", case)
            plt.close("all")
            for unit in (None, "in", "mm", "px"):
                q = Plotly("x", "y")
                k = 100 if unit == "px" else 10 if unit == "mm" else 1
                q.PartScreen(w * k, h * k, **({} if unit is None else {"units": unit}))
                f = {"px": (1, 1), "mm": (px[0] / mm[0], px[1] / mm[1])}.get(unit, (px[0] / mm[0] * 25.4, px[1] / mm[1] * 25.4))
                rec.transitions += 1
                got, want = (q.fig.layout.width, q.fig.layout.height), (w * k * f[0], h * k * f[1])
                if not all(abs(a - b) <= 1 for a, b in zip(got, want)):
                    rec.fail("size", f"{(w * k, h * k)} {unit or 'in'} became {got} pixels, expected {want}", case)
                q.FullScreen()
                if (q.fig.layout.width, q.fig.layout.height) != px:
                    rec.fail("size", f"full screen is {(q.fig.layout.width, q.fig.layout.height)} pixels", case)
    rec.sample(case)
