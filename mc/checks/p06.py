"""P06: the Python backend against the C++ backend, and against the definitions for complex and single precision points."""
import itertools

import numpy as onp

import refs
from checks import p04, p05

ASSUMPTIONS = [
    "Both backends are given the same weights; agreement is up to rounding relative to the size of the functions near the points.",
    "ReLU is not compared at complex points (it has no analytic continuation) nor exactly at its kink.",
]
BASES = p04.BASES
DOMS = [(-1.0, 1.0), (0.0, 1.0), (-3.0, 5.0), (2.0, -1.0)]
TOL = 256


def bounds(tier):
    q = tier == "quick"
    return {"univariate": f"11 bases, m 1..{9 if q else 16}, d 0..{12 if q else 16} (networks: d 0..{4 if q else 6}, one configuration each to 8), 4 domains, 6 removed sets, both full",
            "large": "m 17, 33, 40; 1..12, 100, 1050 and 4096 points",
            "multivariate": "8 bases, dim 1..4, mixed derivative orders, removed sets", "types": "float64, float32, complex128, complex64",
            "classes": "utfc, mtfc, HybridUtfc with both backends: points, maps, H and derivative methods, egrad"}


def groups(tier):
    g = []
    for b in BASES:
        for dom in DOMS:
            g.append({"kind": "uni", "basis": b, "dom": dom})
        g.append({"kind": "types", "basis": b})
        g.append({"kind": "big", "basis": b})
        if refs.DOMAIN[b]:
            g.append({"kind": "utfc", "basis": b})
    for b in p05.TENSOR + refs.ELM:
        for dim in (1, 2, 3, 4):
            g.append({"kind": "multi", "basis": b, "dim": dim})
        g.append({"kind": "mtfc", "basis": b})
        g.append({"kind": "ntypes", "basis": b})
    return g


def weight(g):
    return (10 if g["basis"].startswith("ELM") else 1) * {"uni": 1, "types": 1, "big": 1, "utfc": 3, "multi": 3, "mtfc": 4, "ntypes": 1}[g["kind"]]


def run(g, rec, tier):
    from tfc.utils import BF, BF_Py

    q = tier == "quick"
    eps = onp.finfo(float).eps
    basis = g["basis"]
    elm = basis in refs.ELM

    def check(key, got, ref, sc, case, tol=TOL * eps, dtype=None):
        rec.states += 1
        rec.traces += 1
        rec.transitions += onp.size(ref)
        got = onp.asarray(got)
        rec.close(key, got, onp.asarray(ref), tol * sc + 1e-300, case)
        if dtype is not None and got.dtype != dtype:
            rec.fail(key + ":type", f"result has type {got.dtype} for points of type {dtype}", case)

    kind = g["kind"]
    if kind == "uni":
        dom = tuple(g["dom"])
        xs = p04.points(basis, dom)
        mm = (4 if q else 8) if elm else (9 if q else 16)
        dmax = 8 if elm else (12 if q else 16)
        w, b = p04.weights(mm)
        sc = p04.table(basis, mm, dmax, xs, dom, w, b)[1]
        for m in range(1, mm + 1):
            for nC in ((), (0,), (1,), (0, 1), (2, 0), tuple(range(m - 1))):
                if any(k >= m for k in nC) or (elm and len(nC) > 1 and m < mm):
                    continue
                case = {"basis": basis, "domain": dom, "m": m, "nC": nC}
                with rec.guard(basis, case):
                    o = getattr(BF, basis)(dom[0], dom[1], onp.array(nC, dtype=onp.int32), m)
                    p = getattr(BF_Py, basis)(dom[0], dom[1], onp.array(nC, dtype=onp.int32), m)
                    if elm:
                        for k in (o, p):
                            k.w, k.b = w[:m].copy(), b[:m].copy()
                    if abs(float(o.c) - float(p.c)) > 4 * eps * abs(float(o.c)):
                        rec.fail(basis + ":c", f"c: C++ {o.c}, Python {p.c}", case)
                    top = dmax if not elm or (nC == () and m == mm and dom == DOMS[1]) else 4 if q else 6
                    for d in range(top + 1):
                        for full in (False, True):
                            cols = list(range(m)) if full else [k for k in range(m) if k not in nC]
                            check(f"{basis}:H", p.H(xs, d, full), o.H(xs, d, full), sc[d][:, cols], dict(case, d=d, full=full))
                            for i in (0, 3):  # one point at a time, and two
                                if d <= 4 and m in (1, 2, mm):
                                    check(f"{basis}:H", p.H(xs[i : i + 1 + i // 3], d, full), o.H(xs[i : i + 1 + i // 3], d, full), sc[d][i : i + 1 + i // 3][:, cols], dict(case, d=d, full=full, points=1 + i // 3))
            if rec.full:
                return
        rec.sample({"basis": basis, "domain": dom, "m": mm, "d": dmax})
    elif kind == "big":  # many functions, many points
        dom = (-1.0, 3.0)
        xs = p04.points(basis, dom)
        for m in (17, 33, 40):
            w, b = p04.weights(m)
            dmax = 1 if elm else 4
            sc = p04.table(basis, m, dmax, xs, dom, w, b)[1]
            for nC in ((), (m - 1, 0, m // 2), tuple(range(m - 1))):
                case = {"basis": basis, "domain": dom, "m": m, "nC": nC}
                with rec.guard(basis + ":big", case):
                    o, p = (getattr(B, basis)(dom[0], dom[1], onp.array(nC, dtype=onp.int32), m) for B in (BF, BF_Py))
                    if elm:
                        for k in (o, p):
                            k.w, k.b = w.copy(), b.copy()
                    for d in range(dmax + 1):
                        for full in (False, True):
                            cols = list(range(m)) if full else [k for k in range(m) if k not in nC]
                            check(f"{basis}:big", p.H(xs, d, full), o.H(xs, d, full), m * sc[d][:, cols], dict(case, d=d, full=full))
                    if m == 17:
                        for n in list(range(1, 13)) + [100, 1050, 4096]:
                            i = onp.arange(n) % len(xs)
                            cols = [k for k in range(m) if k not in nC]
                            check(f"{basis}:points", p.H(xs[i], 1, False), o.H(xs[i], 1, False), m * sc[1][i][:, cols], dict(case, d=1, points=n))
            if rec.full:
                return
    elif kind == "types":
        dom = (-1.0, 3.0)
        base = p04.points(basis, dom)[:9]
        m, dmax = (3, 4) if elm else (6, 10)
        w, b = p04.weights(m)
        w = w * 0.5
        for dt in (onp.complex128, onp.complex64, onp.float32):
            if basis == "ELMReLU" and dt != onp.float32:
                continue
            cx = dt in (onp.complex128, onp.complex64)
            xs = base + (1j * onp.array([0.0, 0.5, -0.25, 0.125, 1.0, -0.75, 0.3125, 0.0625, -0.5]) if cx else 0)
            xs = xs.astype(dt)
            unit = onp.finfo(dt).eps
            val, sc = _table(basis, m, dmax, xs, dom, w, b, cx)
            for typed in (False, True):
                case = {"basis": basis, "type": onp.dtype(dt).name, "typed_domain": typed}
                with rec.guard(basis + ":types", case):
                    x0, xf = (dt(dom[0]), dt(dom[1])) if typed else dom
                    p = getattr(BF_Py, basis)(x0, xf, onp.array([1], dtype=onp.int32), m)
                    if elm:
                        p.w, p.b = w, b
                    for d in range(dmax + 1):
                        for full in (False, True):
                            cols = [k for k in range(m) if full or k != 1]
                            check(f"{basis}:types", p.H(xs, d, full), val[d][:, cols], sc[d][:, cols], dict(case, d=d, full=full), tol=1024 * unit,
                                  dtype=None if elm else onp.dtype(dt))
        rec.sample({"basis": basis, "types": "complex128, complex64, float32"})
    elif kind == "utfc":
        from tfc import utfc
        from tfc.utils import egrad

        for dom in DOMS[1:]:
            for deg, nC in ((1, 0), (3, 2), (4, [3, 1])):
                case = {"basis": basis, "domain": dom, "deg": deg, "nC": nC}
                with rec.guard("utfc", case):
                    a = utfc(7, nC, deg, basis=basis, x0=dom[0], xf=dom[1])
                    p = utfc(7, nC, deg, basis=basis, x0=dom[0], xf=dom[1], backend="Python")
                    if elm:
                        w, b = p04.weights(deg + 1)
                        for k in (a, p):
                            k.basisClass.w, k.basisClass.b = w.copy(), b.copy()
                    else:
                        w = b = None
                    for at in ("x", "z", "c"):
                        check("utfc." + at, getattr(p, at), getattr(a, at), 1 + abs(dom[0]) + abs(dom[1]), case, tol=16 * eps)
                    sc = p04.table(basis, deg + 1, 8, a.x, dom, w, b)[1]
                    rem = list(range(nC)) if isinstance(nC, int) else nC
                    for full in (False, True):
                        cols = [k for k in range(deg + 1) if full or k not in rem]
                        for d, nm in ((0, "H"), (1, "dH"), (2, "d2H"), (4, "d4H")):
                            if elm and d > 2 and deg != 1:
                                continue
                            check("utfc." + nm, getattr(p, nm)(p.x, full=full), getattr(a, nm)(a.x, full=full), sc[d][:, cols], dict(case, full=full, method=nm))
                        check("utfc.egrad", egrad(egrad(lambda x: p.H(x, full=full)))(p.x), a.d2H(a.x, full=full), sc[2][:, cols], dict(case, full=full, method="egrad egrad H"))
        rec.sample({"utfc": basis})
    elif kind in ("multi", "ntypes"):
        dims = [g["dim"]] if kind == "multi" else [2]
        for dim in dims:
            doms = p05.DOMS[1][:dim]
            X = p05.grid_points(basis, doms)
            x0 = onp.array([a for a, _ in doms])
            xf = onp.array([b for _, b in doms])
            if kind == "multi":
                degs = ((0, 1, 2) if elm else {1: range(8), 2: range(6), 3: range(5), 4: range(3)}[dim])
                ords = p05.orders(dim, {1: 5, 2: 4, 3: 3, 4: 2}[dim] if elm else {1: 9, 2: 5, 3: 4, 4: 2}[dim])
            else:
                degs, ords = (3,), p05.orders(dim, 2)
            for deg in degs:
                if elm:
                    w, b = p05.elm_weights(dim, deg + 1)
                    refd = {d: p05.elm_ref(basis, d, X, doms, w, b) for d in ords}
                    choices = [(), (0,), (1,)] if deg else [()]
                    if deg > 1:
                        choices.append((2, 0))
                    choices = [c for c in choices if all(k <= deg for k in c)]
                else:
                    vecs = refs.index_vectors(dim, deg)
                    uni = p05.uni_all(basis, deg + 1, max(map(max, ords)), X, doms)
                    refd = {d: p05.tensor_ref(uni, vecs, d) for d in ords}
                    S = [s for s in ((), (0,), (0, 1), (2, 0)) if all(k <= deg for k in s)]
                    choices = list(itertools.product(S if dim < 3 else S[:3] if dim == 3 else S[:2], repeat=dim))
                if kind == "ntypes":
                    choices = choices[-1:]
                for nC in choices:
                    case = {"basis": "n" + basis, "dim": dim, "deg": deg, "nC": nC}
                    arr = onp.array(nC, dtype=onp.int32) if elm else p05.nc_array(nC)
                    with rec.guard("n" + basis, case):
                        if kind == "multi":
                            o = getattr(BF, "n" + basis)(x0, xf, arr, deg + 1)
                            p = getattr(BF_Py, "n" + basis)(x0, xf, arr, deg + 1)
                            if elm:
                                for k in (o, p):
                                    k.w, k.b = w.copy(), b.copy()
                            if (o.numBasisFunc, o.numBasisFuncFull) != (p.numBasisFunc, p.numBasisFuncFull):
                                rec.fail("n" + basis + ":count", f"C++ {o.numBasisFunc}/{o.numBasisFuncFull}, Python {p.numBasisFunc}/{p.numBasisFuncFull}", case)
                            check("n" + basis + ":c", onp.asarray(p.c).flatten(), onp.asarray(o.c).flatten(), onp.abs(onp.asarray(o.c).flatten()), case)
                            for d in ords:
                                for full in (False, True):
                                    A = onp.asarray(o.H(X, d, full))
                                    Sc = refd[d][1]
                                    if not full:
                                        keep = [k for k in range(deg + 1) if k not in nC] if elm else [i for i, v in enumerate(vecs) if not refs.removed(v, nC)]
                                        Sc = Sc[:, keep]
                                    check("n" + basis + ":H", p.H(X, d, full), A, Sc, dict(case, d=d, full=full))
                                    if sum(d) == 1 and not full:
                                        for n in (3, 100):
                                            i = onp.arange(n) % X.shape[1]
                                            check("n" + basis + ":points", p.H(X[:, i], d, full), A[i], Sc[i], dict(case, d=d, points=n))
                                    if sum(d) < 3:
                                        check("n" + basis + ":H", p.H(X[:, :1], d, full), A[:1], Sc[:1], dict(case, d=d, full=full, points=1))
                        else:
                            for dt in (onp.complex128, onp.float32):
                                if basis == "ELMReLU" and dt == onp.complex128:
                                    continue
                                unit = onp.finfo(dt).eps
                                p = getattr(BF_Py, "n" + basis)(x0.astype(dt), xf.astype(dt), arr, deg + 1)
                                if elm:
                                    p.w, p.b = w.copy(), b.copy()
                                Xt = X.astype(dt)
                                if dt == onp.complex128:
                                    Xt = X + 1j * onp.array([[0.25, -0.5, 0.125, 0.0, 1.0, -0.25, 0.5], [0.5, 0.25, -0.125, 0.75, 0.0, 0.0625, -0.5]])
                                for d in ords:
                                    for full in (False, True):
                                        V, Sc = _nref(basis, d, Xt, doms, deg, w if elm else None, b if elm else None)
                                        if not full:
                                            keep = [k for k in range(deg + 1) if k not in nC] if elm else [i for i, v in enumerate(vecs) if not refs.removed(v, nC)]
                                            V, Sc = V[:, keep], Sc[:, keep]
                                        check("n" + basis + ":types", p.H(Xt, d, full), V, Sc, dict(case, d=d, full=full, type=onp.dtype(dt).name), tol=2048 * unit,
                                              dtype=None if elm else onp.dtype(dt))
            rec.sample({"basis": "n" + basis, "dim": dim, "kind": kind})
    else:
        from tfc import mtfc
        from tfc.utils import egrad

        for dim, deg, nC in ((2, 3, [2, 1]), (2, 2, [[1], -1]), (3, 2, [1, 2, -1])):
            case = {"basis": basis, "dim": dim, "deg": deg, "nC": nC}
            doms = p05.DOMS[0][:dim]
            with rec.guard("mtfc", case):
                kw = dict(dim=dim, basis=basis, x0=[a for a, _ in doms], xf=[b for _, b in doms])
                a = mtfc([3, 4, 2][:dim], 1 if elm else nC, deg, **kw)
                p = mtfc([3, 4, 2][:dim], 1 if elm else nC, deg, backend="Python", **kw)
                if elm:
                    w, b = p05.elm_weights(dim, deg + 1)
                    for k in (a, p):
                        k.basisClass.w, k.basisClass.b = w.copy(), b.copy()
                check("mtfc.x", onp.array(p.x), onp.array(a.x), 10.0, case, tol=16 * eps)
                check("mtfc.z", onp.array(p.z), onp.array(a.z), 10.0, case, tol=16 * eps)
                check("mtfc.c", onp.array(p.c).flatten(), onp.array(a.c).flatten(), 10.0, case, tol=16 * eps)
                for full in (False, True):
                    for nm in ("H", "Hx", "Hy", "Hxy", "Hx2", "Hy2", "Hx2y") + (("Hz",) if dim == 3 else ()):
                        A = onp.asarray(getattr(a, nm)(*a.x, full=full))
                        check("mtfc." + nm, getattr(p, nm)(*p.x, full=full), A, 1 + onp.abs(A).max(), dict(case, method=nm, full=full), tol=1e4 * eps)
                    A = onp.asarray(a.Hx2y(*a.x, full=full))
                    h = lambda *x: p.H(*x, full=full)
                    check("mtfc.egrad", egrad(egrad(egrad(h, 0), 1), 0)(*p.x), A, 1 + onp.abs(A).max(), dict(case, method="egrad", full=full), tol=1e4 * eps)
        rec.sample({"mtfc": basis})


def _table(basis, m, dmax, xs, dom, w, b, cx):
    vs, ss = zip(*[refs.uni_table(basis, m, dmax, complex(x) if cx else float(x), dom[0], dom[1], w, b) for x in xs])
    return onp.stack(vs, 1), onp.stack(ss, 1)


def _nref(basis, d, X, doms, deg, w, b):
    cx = onp.iscomplexobj(X)
    n = X.shape[1]
    if w is None:
        vecs = refs.index_vectors(len(doms), deg)
        V = onp.ones((n, len(vecs)), dtype=complex if cx else float)
        S = onp.ones((n, len(vecs)))
        for j, dom in enumerate(doms):
            v, s = _table(basis, deg + 1, d[j], X[j], dom, None, None, cx)
            idx = [vec[j] for vec in vecs]
            V = V * v[d[j]][:, idx]
            S = S * onp.maximum(s[d[j]][:, idx], onp.abs(v[d[j]][:, idx]))
        return V, S
    m = w.shape[1]
    V = onp.zeros((n, m), dtype=complex if cx else float)
    S = onp.zeros((n, m))
    c = [refs.slope(basis, *dom) for dom in doms]
    D = sum(d)
    for i in range(n):
        z = [refs.to_z(basis, complex(X[j, i]) if cx else float(X[j, i]), *doms[j]) for j in range(len(doms))]
        for k in range(m):
            u = sum((refs.exact(w[j, k]) * z[j] for j in range(len(doms))), refs.exact(b[k]))
            f = refs.mp.mpf(1)
            for j in range(len(doms)):
                f *= (refs.exact(w[j, k]) * c[j]) ** d[j]
            a = refs.act(basis, D, u)
            V[i, k] = complex(a * f) if cx else float(a * f)
            S[i, k] = float(abs(f)) * max(refs.act_sup(basis, D), float(abs(a))) * (2 + abs(float(b[k])) + sum(abs(float(w[j, k])) * (1 + abs(complex(z[j]))) for j in range(len(doms))))
    return V, S
