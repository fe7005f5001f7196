"""P08: collocation points and domain maps."""
import itertools
import math

import numpy as onp

import refs

ASSUMPTIONS = ["At least two points per dimension (a single Chebyshev-Gauss-Lobatto node is not defined).", "Points are compared up to rounding relative to the size of the domain."]
UBASES = ("CP", "LeP", "FS") + refs.ELM
DOMS = [(-1.0, 1.0), (0.0, 1.0), (-3.0, 5.0), (2.0, -1.0), (0.25, 0.3125), (0, 2), (-4, -1), (100.0, 101.0)]


def bounds(tier):
    return {"utfc": f"8 bases, N 2..{40 if tier == 'quick' else 200} and 1001, 8 domains (negative, reversed, integer)",
            "mtfc": "8 bases, dim 1..5, all point counts 2..4 per dimension (2..6 for dim 2, 2..3 for dim 4, three for dim 5) and some up to 101, 3 domain tuples, list and array spellings, both backends"}


def groups(tier):
    g = []
    for b in UBASES:
        for k in range(len(DOMS)):
            g.append({"kind": "utfc", "basis": b, "dom": k})
        for dim in (1, 2, 3, 4, 5):
            g.append({"kind": "mtfc", "basis": b, "dim": dim})
    return g


def weight(g):
    return 5 if g["kind"] == "utfc" else [0, 1, 5, 10, 13, 4][g["dim"]]


def nodes(basis, n):
    z0, zf = [float(v) for v in refs.DOMAIN[basis]]
    if basis in ("CP", "LeP"):
        return onp.array([-math.cos(math.pi * k / (n - 1)) for k in range(n)])
    return onp.array([z0 + (zf - z0) * k / (n - 1) for k in range(n)])


def run(g, rec, tier):
    from tfc import utfc, mtfc
    import jax.numpy as jnp

    basis = g["basis"]
    z0, zf = [float(v) for v in refs.DOMAIN[basis]]

    def close(key, got, ref, scale, case):
        rec.states += 1
        rec.traces += 1
        rec.transitions += onp.size(ref)
        rec.close(key, got, ref, 64 * onp.finfo(float).eps * scale, case)

    if g["kind"] == "utfc":
        x0, xf = DOMS[g["dom"]]
        for N in list(range(2, (40 if tier == "quick" else 200) + 1)) + [1001]:
            case = {"basis": basis, "N": N, "x0": x0, "xf": xf}
            with rec.guard("utfc", case):
                t = utfc(N, 1, 2, basis=basis, x0=x0, xf=xf, backend="Python" if N % 7 == 6 else "C++")
                z = nodes(basis, N)
                c = (zf - z0) / (float(xf) - x0)
                close("utfc.z", t.z, z, 4, case)
                close("utfc.x", t.x, x0 + (z - z0) / c, 1 + abs(x0) + abs(xf), case)
                close("utfc.c", t.c, onp.array(c), abs(c), case)
                x = onp.asarray(t.x)
                close("utfc.ends", x[[0, -1]], onp.array([x0, xf], dtype=float), 1 + abs(x0) + abs(xf), case)
                if not (t.N == N and len(x) == N):
                    rec.fail("utfc.N", f"N={t.N}, {len(x)} points", case)
                if x.dtype != onp.float64 or onp.asarray(t.z).dtype != onp.float64:
                    rec.fail("utfc.dtype", f"{x.dtype}", case)
                if not (float(t.x0) == x0 and float(t.xf) == xf):
                    rec.fail("utfc.domain", f"{t.x0} {t.xf}", case)
            if rec.full:
                return
        if g["dom"] == 1:
            with rec.guard("utfc.default", basis):  # x0 defaults to 0
                t = utfc(5, 0, 2, basis=basis, xf=3.0)
                close("utfc.default", t.x, (nodes(basis, 5) - z0) / (zf - z0) * 3.0, 4, {"x0": None})
                t = utfc(5, 0, 2, basis=basis, x0=-2.0)
                close("utfc.default", t.x, (nodes(basis, 5) - z0) / (zf - z0) * 2.0 - 2.0, 4, {"xf": None})
        rec.sample(case)
    else:
        dim = g["dim"]
        combos = [((-1.0, 1.0), (0.0, 2.0), (-3.0, 5.0), (2.0, -1.0)), ((0.25, 1.5), (-2.0, -1.0), (0.0, 1.0), (-1.0, 4.0)), ((0, 3), (-2, 2), (1, 2), (5, 4))]
        hi = 4 if dim < 4 else 3
        counts = list(itertools.product(range(2, hi + 1), repeat=dim))
        if dim == 1:
            counts = [(n,) for n in range(2, 30)]
        if dim == 2:
            counts = list(itertools.product(range(2, 7), repeat=2)) + [(2, 50), (50, 2), (13, 11), (101, 3), (40, 41)]
        if dim == 3:
            counts += [(2, 3, 17), (17, 2, 5), (5, 11, 2), (12, 12, 12)]
        if dim == 4:
            counts += [(2, 2, 2, 9), (9, 2, 2, 2), (2, 7, 5, 3)]
        if dim == 5:
            counts = [(2,) * 5, (2, 3, 2, 4, 2), (4, 2, 3, 2, 5)]
            combos = [c + ((-0.5, 2.5),) for c in combos]
        for ci, n in enumerate(counts):
            doms = combos[ci % 3][:dim] if dim > 2 else None
            for doms in ([doms] if doms else [c[:dim] for c in combos]):
                x0, xf = [a for a, _ in doms], [b for _, b in doms]
                for form in ("list", "np", "jax", "Python") if ci % 5 == 0 else ("list",):
                    mk = {"list": list, "np": onp.array, "jax": jnp.array, "Python": list}[form]
                    case = {"basis": basis, "n": n, "x0": x0, "xf": xf, "form": form}
                    with rec.guard("mtfc", case):
                        elm = basis in refs.ELM
                        t = mtfc(mk(n), 0 if elm else [1] * dim, 2, dim=dim, basis=basis, x0=mk(x0), xf=mk(xf), backend="Python" if form == "Python" else "C++")
                        c = onp.array([(zf - z0) / (float(b) - a) for a, b in doms])
                        per = [nodes(basis, k) for k in n]
                        grid = onp.array(list(itertools.product(*per))).T  # last variable fastest
                        close("mtfc.z", onp.array(t.z), grid, 4, case)
                        X = onp.array([x0[j] + (grid[j] - z0) / c[j] for j in range(dim)])
                        if len(t.x) != dim:
                            rec.fail("mtfc.x", f"{len(t.x)} arrays of points", case)
                        close("mtfc.x", onp.array(t.x), X, 12, case)
                        close("mtfc.c", onp.array(t.c).flatten(), c, onp.abs(c), case)
                        if t.N != int(onp.prod(n)) or tuple(int(k) for k in onp.array(t.n).flatten()) != tuple(n):
                            rec.fail("mtfc.N", f"N={t.N} n={t.n}", case)
            if rec.full:
                return
        for x0, xf in ((None, [3.0, -2.0, 0.5, 1.0, 2.0][:dim]), ([3.0, -2.0, 0.5, 1.0, 2.0][:dim], None)):
            case = {"basis": basis, "dim": dim, "x0": x0, "xf": xf}
            with rec.guard("mtfc.default", case):  # the ends default to 0
                t = mtfc([3] * dim, 0 if basis in refs.ELM else [1] * dim, 2, dim=dim, basis=basis, x0=x0, xf=xf)
                grid = (onp.array(list(itertools.product(*[nodes(basis, 3)] * dim))).T - z0) / (zf - z0)
                a, b = onp.array(x0 or [0.0] * dim)[:, None], onp.array(xf or [0.0] * dim)[:, None]
                close("mtfc.default", onp.array(t.x), a + (b - a) * grid, 12, case)
                close("mtfc.default c", onp.array(t.c).flatten(), ((zf - z0) / (b - a)).flatten(), 16, case)
        rec.sample(case)
