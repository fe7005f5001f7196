"""P04: univariate basis matrices against the definitions, for every configuration of a bounded space."""
import numpy as onp

import refs

ASSUMPTIONS = [
    "The reference is the mathematical definition evaluated at 400 bits; a result counts as exact within a rounding tolerance relative to the size of the function near the point.",
    "Between the enumerated points the functions are polynomials of degree < m (more than m points are enumerated for m up to the point count) or the same closed form.",
]
BASES = refs.POLY + ("FS",) + refs.ELM
DOMS = {"quick": [(-1.0, 1.0), (0.0, 1.0), (-3.0, 5.0), (2.0, -1.0), (0.25, 0.3125), (0.0, 2.0)],
        "thorough": [(-1.0, 1.0), (0.0, 1.0), (-3.0, 5.0), (2.0, -1.0), (0.25, 0.3125), (0.0, 2.0), (-0.1, 0.7), (-7.3, -2.9), (100.0, 101.0), (-20.0, 20.0), (1e-3, 2e-3)]}
M = {"quick": 32, "thorough": 64}
D = {"quick": 12, "thorough": 16}
TOL = 64  # multiples of machine precision times the local scale; the tree as it is stays below 3


def bounds(tier):
    return {"bases": list(BASES), "domains": DOMS[tier], "functions": f"1..{M[tier]}", "derivative_orders": f"0..{D[tier]}",
            "wide": "130 functions (polynomials, Fourier), 70 neurons, weights up to 1e4",
            "points": "ends, interior and exterior points; point counts 1..12, 100, 1000, 4097"}


def groups(tier):
    g = []
    for b in BASES:
        for dom in DOMS[tier] if refs.DOMAIN[b] else DOMS[tier][:2]:
            g.append({"kind": "grid", "basis": b, "dom": dom})
            if b not in ("LaP", "HoPpro", "HoPphy"):
                g.append({"kind": "utfc", "basis": b, "dom": dom})
        if b in refs.POLY + ("FS",):
            g.append({"kind": "big", "basis": b, "dom": (-1.0, 3.0)})
        else:
            g.append({"kind": "wide", "basis": b, "dom": (-1.0, 3.0)})
        g.append({"kind": "count", "basis": b, "dom": (-3.0, 5.0)})
    return g


def weight(g):
    return {"grid": 2, "utfc": 1, "count": 1.5, "big": 4, "wide": 3}[g["kind"]] + (3 if g["basis"].startswith("ELM") else 0)


def points(basis, dom):
    x0, xf = dom
    if refs.DOMAIN[basis] is None:
        return onp.array([-4.0, -1.5, -1.0, -0.3, 0.0, 1e-7, 0.5, 0.77, 1.0, 1.9, 2.5, 3.7, 6.0])
    t = onp.array([0.0, 1.0, 0.5, 0.01, 0.99, 0.125, 0.3, 0.7, 0.875, 0.61803, 0.45, 0.08, 0.93, 1.25, -0.25, 1.6, -0.6])
    return x0 + t * (xf - x0)


def weights(m):
    w = onp.array([((-1) ** k) * (0.1 + 0.37 * k) if k % 5 else 0.0 for k in range(m)])
    w = onp.where(onp.abs(w) > 6, w % 3 - 1.3, w)
    b = onp.array([((k * 7) % 11 - 5) * 0.31 for k in range(m)])
    return w, b


def dmax_of(basis, tier):
    return D[tier]


def make(BF, basis, dom, m, nC=()):
    return getattr(BF, basis)(dom[0], dom[1], onp.array(nC, dtype=onp.int32), m)


def table(basis, m, dmax, xs, dom, w=None, b=None):
    vs, ss = zip(*[refs.uni_table(basis, m, dmax, float(x), dom[0], dom[1], w, b) for x in xs])
    return onp.stack(vs, 1), onp.stack(ss, 1)  # (d, point, m)


def run(g, rec, tier):
    from tfc.utils import BF

    eps = onp.finfo(float).eps
    basis, dom = g["basis"], tuple(g["dom"])
    elm = basis in refs.ELM
    dmax = dmax_of(basis, tier)

    def check(key, got, val, sc, case):
        got = onp.asarray(got)
        rec.states += 1
        rec.transitions += val.size
        rec.traces += 1
        if got.shape == val.shape and onp.isfinite(got).all():
            with onp.errstate(all="ignore"):
                r = onp.abs(got - val) / (eps * sc)
            r = r[onp.isfinite(r)]
            if r.size:
                rec.maxi("error_in_units", r.max())
        rec.close(key, got, val, TOL * eps * sc + 1e-300, case)

    if g["kind"] == "grid":
        xs = points(basis, dom)
        mm = M[tier] if not elm else min(M[tier], 16)
        w, b = weights(mm) if elm else (None, None)
        val, sc = table(basis, mm, dmax, xs, dom, w, b)
        for m in range(1, mm + 1):
            rec.now(f"{basis} {dom} m={m}")
            with rec.guard(basis, {"basis": basis, "domain": dom, "m": m}):
                o = make(BF, basis, dom, m)
                if elm:
                    o.w = w[:m].copy()
                    o.b = b[:m].copy()
                for d in range(dmax + 1):
                    for full in (False, True):
                        case = {"basis": basis, "domain": dom, "m": m, "d": d, "full": full, "x": xs.tolist()}
                        check(f"{basis}:d{d}", o.H(xs, d, full), val[d][:, :m], sc[d][:, :m], case)
            if rec.full:
                return
        rec.sample({"basis": basis, "domain": dom, "m": f"1..{mm}", "d": f"0..{dmax}", "points": len(xs)})
        if elm:  # the weights an instance starts with are the ones it evaluates with
            for m in (1, 5):
                with rec.guard(basis + ":initial", {"basis": basis, "m": m}):
                    o = make(BF, basis, dom, m)
                    w, b = onp.array(o.w).flatten(), onp.array(o.b).flatten()
                    val, sc = table(basis, m, 3, xs, dom, w, b)
                    for d in range(4):
                        check(f"{basis}:initial-weights", o.H(xs, d, True), val[d], sc[d], {"basis": basis, "m": m, "d": d})
    elif g["kind"] == "big":
        top = 130 if tier == "quick" else 300
        xs = points(basis, dom)[:11]
        val, sc = table(basis, top, 4, xs, dom)
        for m in (40, 65, 100, 129, 130, 257, 300):
            if m > top:
                continue
            with rec.guard(basis, {"basis": basis, "domain": dom, "m": m}):
                o = make(BF, basis, dom, m)
                for d in range(5):
                    ok = onp.isfinite(val[d][:, :m]).all(0) & onp.isfinite(sc[d][:, :m]).all(0)
                    got = onp.asarray(o.H(xs, d, True))
                    if got.shape == (len(xs), m):
                        check(f"{basis}:large-m", got[:, ok], val[d][:, :m][:, ok], sc[d][:, :m][:, ok], {"basis": basis, "m": m, "d": d})
                    else:
                        rec.fail(f"{basis}:large-m:shape", got.shape, {"m": m, "d": d})
        rec.sample({"basis": basis, "m": "40..%d" % top, "d": "0..4"})
    elif g["kind"] == "wide":  # many neurons; saturated ones
        xs = points(basis, dom)
        for m, dm in ((70, 3), (33, 4), (14, 8)):
            w, b = weights(m)
            if m == 14:
                w = onp.array([s * v for v in (20.0, 40.0, 100.0, 400.0, 720.0, 1e4, 1e-4) for s in (1, -1)])
                b = onp.array([0.0, 3.0, -17.0, 17.0, 0.0, -100.0, 5.0, 0.0, -300.0, 1.0, 0.0, 7.0, 0.5, -40.0])
            val, sc = table(basis, m, dm, xs, dom, w, b)
            with rec.guard(basis, {"basis": basis, "domain": dom, "m": m}):
                o = make(BF, basis, dom, m)
                o.w, o.b = w, b
                for d in range(dm + 1):
                    check(f"{basis}:wide", o.H(xs, d, True), val[d], sc[d], {"basis": basis, "m": m, "d": d, "w": w.tolist()[:14]})
        rec.sample({"basis": basis, "m": "14 saturated, 33, 70", "d": "0..8"})
    elif g["kind"] == "utfc":
        from tfc import utfc

        xs = points(basis, dom)
        for deg in (1, 2, 5, 9):
            for nC in (0, 1):
                case = {"basis": basis, "domain": dom, "deg": deg, "nC": nC}
                with rec.guard(basis + ":utfc", case):
                    t = utfc(12, nC, deg, basis=basis, x0=dom[0], xf=dom[1])
                    m = deg + 1
                    w = b = None
                    if elm:
                        w, b = weights(m)
                        t.basisClass.w, t.basisClass.b = w, b
                    val, sc = table(basis, m, 8, xs, dom, w, b)
                    for d, f in ((0, t.H), (1, t.dH), (2, t.d2H), (4, t.d4H), (8, t.d8H)):
                        check(f"{basis}:utfc-d{d}", f(xs, full=True), val[d], sc[d], dict(case, d=d, full=True))
                        check(f"{basis}:utfc-d{d}", f(xs), val[d][:, nC:], sc[d][:, nC:], dict(case, d=d, full=False))
    else:
        m = 7
        span = (dom[1] - dom[0])
        n0 = 12
        xs = dom[0] + span * onp.linspace(-0.1, 1.1, 4097) if refs.DOMAIN[basis] else onp.linspace(-3, 5, 4097)
        idx = onp.linspace(0, 4096, n0).astype(int)
        w, b = weights(m) if elm else (None, None)
        o = make(BF, basis, dom, m, (1, 4))
        keep = [k for k in range(m) if k not in (1, 4)]
        if elm:
            o.w, o.b = w, b
        val, sc = table(basis, m, 4, xs[idx], dom, w, b)
        for d in range(5):
            for full in (True, False):
                cols = list(range(m)) if full else keep
                V, S = val[d][:, cols], sc[d][:, cols]
                for n in range(1, n0 + 1):
                    for start in (0, n0 - n):
                        s = slice(start, start + n)
                        check(f"{basis}:points", o.H(xs[idx][s].copy(), d, full), V[s], S[s], {"basis": basis, "d": d, "n": n, "full": full})
                for n in (100, 1000, 4097):
                    sel = onp.linspace(0, 4096, n).astype(int)
                    got = onp.asarray(o.H(xs[sel].copy(), d, full))
                    one = onp.vstack([onp.asarray(o.H(xs[sel[i:i + 1]].copy(), d, full)) for i in range(0, n, 1 if n == 100 else 16)])
                    check(f"{basis}:many-points", got[:: 1 if n == 100 else 16] if got.ndim == 2 else got, one, onp.maximum(onp.abs(one), onp.abs(one).max(0)), {"basis": basis, "d": d, "n": n, "full": full})
                    if got.shape != (n, len(cols)):
                        rec.fail(f"{basis}:many-points:shape", f"{got.shape}", {"n": n, "d": d})
