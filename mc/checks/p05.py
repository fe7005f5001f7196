"""P05: multivariate bases: content, order, counts, mixed derivatives."""
import itertools

import numpy as onp

import refs
from checks.p04 import points, weights

ASSUMPTIONS = [
    "Univariate factors come from the 400 bit reference of P04; products are compared within rounding relative to the size of the factors.",
]
TENSOR = ("CP", "LeP", "FS")
DOMS = [((-1.0, 1.0), (0.0, 2.0), (-3.0, 5.0), (2.0, -1.0)), ((0.25, 1.5), (-2.0, -1.0), (0.0, 1.0), (-1.0, 1.0))]
DEG = {"quick": {1: 9, 2: 8, 3: 5, 4: 3}, "thorough": {1: 16, 2: 12, 3: 8, 4: 5, 5: 3}}
SETS = ((), (0,), (0, 1), (1,), (2, 0), (3,), (0, 1, 2))
TOTAL = {"quick": {1: 8, 2: 5, 3: 3, 4: 2}, "thorough": {1: 12, 2: 8, 3: 5, 4: 3, 5: 2}}
BIG = ((1, 40), (2, 17), (3, 9), (4, 5), (5, 3), (6, 2))  # to total order 2 only, three removed sets
TOL = 64


def bounds(tier):
    return {"bases": list(TENSOR) + ["n" + e for e in refs.ELM], "dim->max degree": DEG[tier], "removed sets per dimension": SETS,
            "dim->max total derivative order": TOTAL[tier], "domains": 2,
            "large (dim, degree)": BIG, "point counts": "1, 7, 1050 (networks: 1..12, 100, 1050, 4096)"}


def groups(tier):
    g = []
    for b in TENSOR:
        for dim, top in DEG[tier].items():
            for deg in range(top + 1):
                for k in range(2):
                    g.append({"kind": "tensor", "basis": b, "dim": dim, "deg": deg, "dom": k})
        for dim, deg in BIG:
            g.append({"kind": "tensor", "basis": b, "dim": dim, "deg": deg, "dom": dim % 2, "big": True})
    for b in refs.ELM:
        for dim in (1, 2, 3, 4):
            g.append({"kind": "elm", "basis": b, "dim": dim})
    for b in TENSOR + refs.ELM:
        for dim in (2, 3):
            g.append({"kind": "mtfc", "basis": b, "dim": dim})
    return g


def weight(g):
    if g["kind"] == "tensor":
        return 300 if g.get("big") else (g["deg"] + 1) ** g["dim"]
    return 200 if g["kind"] == "mtfc" else 100


def orders(dim, total):
    return [d for d in itertools.product(range(total + 1), repeat=dim) if sum(d) <= total]


def nc_array(sets):
    k = max((len(s) for s in sets), default=0)
    return onp.array([list(s) + [-1] * (k - len(s)) for s in sets], dtype=onp.int32).reshape(len(sets), k)


def grid_points(basis, doms):
    """A few points, with different coordinates in every dimension."""
    cols = []
    for j, dom in enumerate(doms):
        p = points(basis, dom)[:15]
        cols.append(onp.roll(p, 3 * j)[:7])
    return onp.array(cols)


def uni_all(basis, m, dmax, X, doms):
    out = []
    for j, dom in enumerate(doms):
        vs, ss = zip(*[refs.uni_table(basis, m, dmax, float(x), dom[0], dom[1]) for x in X[j]])
        out.append((onp.stack(vs, 1), onp.stack(ss, 1)))  # (d, point, m)
    return out


def tensor_ref(uni, vecs, d):
    n = uni[0][0].shape[1]
    V = onp.ones((n, len(vecs)))
    S = onp.ones((n, len(vecs)))
    for j in range(len(d)):
        idx = [v[j] for v in vecs]
        V = V * uni[j][0][d[j]][:, idx]
        S = S * onp.maximum(uni[j][1][d[j]][:, idx], onp.abs(uni[j][0][d[j]][:, idx]))
    return V, S


def sets_for(dim, deg):
    """All choices of removed sets per dimension (every set for up to two dimensions, fewer above)."""
    S = [s for s in SETS if all(k <= deg for k in s)]
    if dim >= 3:
        S = [s for s in S if s in ((), (0,), (0, 1), (2, 0))]
    if dim >= 4:
        S = [s for s in S if s in ((), (0, 1), (2, 0))]
    return list(itertools.product(S, repeat=dim))


def elm_weights(dim, m):
    w = onp.array([[((-1) ** (k + j)) * (0.2 + 0.23 * k + 0.4 * j) % 2.3 - (0.7 if j else 0) for k in range(m)] for j in range(dim)])
    w[0, 1 % m] = 0.0
    b = weights(m)[1]
    return w, b


def elm_ref(kind, d, X, doms, w, b):
    n, m = X.shape[1], w.shape[1]
    D = sum(d)
    V = onp.zeros((n, m))
    S = onp.zeros((n, m))
    c = [refs.slope(kind, *dom) for dom in doms]
    for i in range(n):
        z = [refs.to_z(kind, float(X[j, i]), *doms[j]) for j in range(len(doms))]
        for k in range(m):
            u = sum((refs.exact(w[j, k]) * z[j] for j in range(len(doms))), refs.exact(b[k]))
            f = refs.mp.mpf(1)
            for j in range(len(doms)):
                f *= (refs.exact(w[j, k]) * c[j]) ** d[j]
            a = refs.act(kind, D, u)
            V[i, k] = a * f
            S[i, k] = abs(f) * max(refs.act_sup(kind, D), float(abs(a))) * (1 + abs(float(b[k])) + sum(abs(float(w[j, k])) * (1 + abs(float(z[j]))) for j in range(len(doms))))
    return V, S


def run(g, rec, tier):
    from tfc.utils import BF

    eps = onp.finfo(float).eps
    basis, dim = g["basis"], g["dim"]

    def check(key, got, V, S, case):
        rec.states += 1
        rec.traces += 1
        rec.transitions += V.size
        got = onp.asarray(got)
        if got.shape == V.shape and V.size:
            with onp.errstate(all="ignore"):
                r = onp.abs(got - V) / (eps * S)
            r = r[onp.isfinite(r)]
            if r.size:
                rec.maxi("error_in_units", r.max())
        rec.close(key, got, V, TOL * eps * S + 1e-300, case)

    if g["kind"] == "tensor":
        deg = g["deg"]
        doms = (DOMS[g["dom"]] + DOMS[1 - g["dom"]])[:dim]
        X = grid_points(basis, doms)
        big = g.get("big")
        tot = 2 if big else TOTAL[tier][dim]
        uni = uni_all(basis, deg + 1, tot, X, doms)
        vecs = refs.index_vectors(dim, deg)
        x0 = onp.array([a for a, _ in doms])
        xf = onp.array([b for _, b in doms])
        ords = orders(dim, tot)
        refd = {d: tensor_ref(uni, vecs, d) for d in ords}
        few = [((),) * dim, ((0, 1),) * dim, tuple(tuple(range(j + 1, min(deg, j + 3) + 1)) if j % 2 else (deg, 0) for j in range(dim))]
        for si, sets in enumerate(few if big else sets_for(dim, deg)):
            case = {"basis": basis, "dim": dim, "deg": deg, "nC": sets, "domains": doms}
            rec.now(case)
            with rec.guard(f"n{basis}", case):
                o = getattr(BF, "n" + basis)(x0, xf, nc_array(sets), deg + 1)
                keep = [i for i, v in enumerate(vecs) if not refs.removed(v, sets)]
                if (o.numBasisFunc, o.numBasisFuncFull) != (len(keep), len(vecs)):
                    rec.fail(f"n{basis}:count", f"reports {o.numBasisFunc} of {o.numBasisFuncFull} functions, expected {len(keep)} of {len(vecs)}", case)
                for di, d in enumerate(ords):
                    V, S = refd[d]
                    check(f"n{basis}:H", o.H(X, d, False), V[:, keep], S[:, keep], dict(case, d=d, full=False))
                    if si % 4 == 0 or di < 3:
                        check(f"n{basis}:full", o.H(X, d, True), V, S, dict(case, d=d, full=True))
                # one point and many points at once
                one = o.H(X[:, 2:3].copy(), ords[-1], False)
                check(f"n{basis}:one-point", one, refd[ords[-1]][0][2:3, keep], refd[ords[-1]][1][2:3, keep], case)
                if si % 5 == 0:
                    many = onp.asarray(o.H(onp.tile(X, 150), ords[-1], False))
                    rec.close(f"n{basis}:many-points", many, onp.tile(refd[ords[-1]][0][:, keep], (150, 1)), TOL * eps * onp.tile(refd[ords[-1]][1][:, keep], (150, 1)) + 1e-300, case)
            if rec.full:
                return
        rec.sample({"basis": "n" + basis, "dim": dim, "deg": deg, "removed_sets": si + 1, "derivative_orders": len(ords), "columns_full": len(vecs)})
    elif g["kind"] == "elm":
        for dk in range(2):
            doms = DOMS[dk][:dim]
            X = grid_points(basis, doms)
            x0 = onp.array([a for a, _ in doms])
            xf = onp.array([b for _, b in doms])
            for m in (1, 2, 6):
                w, b = elm_weights(dim, m)
                ords = orders(dim, {1: 12, 2: 10, 3: 4, 4: 3}[dim]) if m == 6 else orders(dim, 2)
                refd = {d: elm_ref(basis, d, X, doms, w, b) for d in ords}
                for nC in ((), (0,), (1,), (0, 1), (3, 1), (0, 1, 2, 3, 4)):
                    if any(k >= m for k in nC) or len(nC) > m - 1:
                        continue
                    case = {"basis": basis, "dim": dim, "m": m, "nC": nC, "domains": doms}
                    rec.now(case)
                    with rec.guard(f"n{basis}", case):
                        o = getattr(BF, "n" + basis)(x0, xf, onp.array(nC, dtype=onp.int32), m)
                        o.w = w
                        o.b = b
                        keep = [k for k in range(m) if k not in nC]
                        if (o.numBasisFunc, o.numBasisFuncFull) != (len(keep), m):
                            rec.fail(f"n{basis}:count", f"reports {o.numBasisFunc} of {o.numBasisFuncFull} functions", case)
                        for d in ords:
                            V, S = refd[d]
                            check(f"n{basis}:H", o.H(X, d, False), V[:, keep], S[:, keep], dict(case, d=d, full=False))
                            check(f"n{basis}:full", o.H(X, d, True), V, S, dict(case, d=d, full=True))
                        if m == 6 and dk == 1 and len(nC) == 2:
                            d = (1,) + (0,) * (dim - 1)
                            V, S = refd[d]
                            for n in list(range(1, 13)) + [100, 1050, 4096]:
                                i = onp.arange(n) % X.shape[1]
                                check(f"n{basis}:points", o.H(onp.ascontiguousarray(X[:, i]), d, False), V[i][:, keep], S[i][:, keep], dict(case, d=d, points=n))
            w, b = elm_weights(dim, 70)
            case = {"basis": basis, "dim": dim, "m": 70, "domains": doms}
            with rec.guard(f"n{basis}:wide", case):
                nC = (0, 3, 33, 64, 69)
                o = getattr(BF, "n" + basis)(x0, xf, onp.array(nC, dtype=onp.int32), 70)
                o.w, o.b = w, b
                keep = [k for k in range(70) if k not in nC]
                for d in orders(dim, 1):
                    V, S = elm_ref(basis, d, X, doms, w, b)
                    check(f"n{basis}:wide", o.H(X, d, False), V[:, keep], S[:, keep], dict(case, d=d, full=False))
                    check(f"n{basis}:wide", o.H(X, d, True), V, S, dict(case, d=d, full=True))
        rec.sample({"basis": "n" + basis, "dim": dim, "orders": len(ords)})
    else:
        from tfc import mtfc

        doms = DOMS[1][:dim]
        X = grid_points(basis, doms)
        elm = basis in refs.ELM
        M = {"H": (0, 0, 0), "Hx": (1, 0, 0), "Hy": (0, 1, 0), "Hxy": (1, 1, 0), "Hx2": (2, 0, 0), "Hy2": (0, 2, 0), "Hx2y": (2, 1, 0), "Hz": (0, 0, 1)}
        for deg in (2, 4):
            for nC in ([2] + [-1] * (dim - 1), [[1, 2]] + [1] * (dim - 1), [1] * (dim - 1) + [[0, 2]], [0] * dim):
                case = {"basis": basis, "dim": dim, "deg": deg, "nC": nC}
                with rec.guard("mtfc", case):
                    if elm:
                        nC = {2: 2, 1: 1, 0: 0}[nC[0]] if not isinstance(nC[0], list) else [1, 2]
                    t = mtfc([3] * dim, nC, deg, dim=dim, basis=basis, x0=[a for a, _ in doms], xf=[b for _, b in doms])
                    if elm:
                        rem = list(range(nC)) if isinstance(nC, int) else nC
                        w, b = elm_weights(dim, deg + 1)
                        t.basisClass.w, t.basisClass.b = w, b
                        keep = [k for k in range(deg + 1) if k not in rem]
                    else:
                        sets = [tuple(range(s)) if isinstance(s, int) else tuple(s) for s in nC]
                        uni = uni_all(basis, deg + 1, 2, X, doms)
                        vecs = refs.index_vectors(dim, deg)
                        keep = [i for i, v in enumerate(vecs) if not refs.removed(v, sets)]
                    for name, d in M.items():
                        if name == "Hz" and dim < 3:
                            continue
                        d = d[:dim]
                        V, S = elm_ref(basis, d, X, doms, w, b) if elm else tensor_ref(uni, vecs, d)
                        check(f"mtfc.{name}", getattr(t, name)(*X), V[:, keep], S[:, keep], dict(case, method=name, full=False))
                        check(f"mtfc.{name}", getattr(t, name)(*X, full=True), V, S, dict(case, method=name, full=True))
        rec.sample({"mtfc": basis, "dim": dim, "methods": list(M)})
