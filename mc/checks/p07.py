"""P07: nC in every spelling; hybrid classes."""
import itertools

import numpy as onp

import refs
from checks import p04, p05

ASSUMPTIONS = ["The columns of the full matrix themselves are the subject of P04/P05; here which of them remain is decided by comparing with an instance that removes nothing."]
UBASES = ("CP", "LeP", "FS") + refs.ELM
SPELL = ("list", "tuple", "np32", "np64", "jax", "strided")


def bounds(tier):
    return {"utfc": f"all subsets of size <= deg, deg 1..{4 if tier == 'quick' else 6}, 3 orders, spellings {SPELL} and counts, 8 bases, 5 derivative methods",
            "basis classes": "all subsets for the bases not offered by utfc", "mtfc": "all combinations of per-dimension entries (counts, lists, arrays, -1), dim 1..3, array form",
            "wide": "deg 12, 33, 70: all single indices, counts, alternating sets; 2-D deg 9, 3-D deg 5, 4-D deg 3", "backends": "utfc with both",
            "hybrid": "all ordered pairs and triples of member classes"}


def groups(tier):
    g = []
    for b in UBASES:
        for deg in range(1, (4 if tier == "quick" else 6) + 1):
            g.append({"kind": "utfc", "basis": b, "deg": deg})
        g.append({"kind": "hybrid", "basis": b})
        g.append({"kind": "wide", "basis": b})
        g.append({"kind": "melm", "basis": b})
    for b in ("LaP", "HoPpro", "HoPphy") + UBASES:
        g.append({"kind": "class", "basis": b})
    for b in p05.TENSOR:
        for dim in (1, 2, 3):
            g.append({"kind": "mtfc", "basis": b, "dim": dim})
    return [x for x in g if not (x["kind"] == "melm" and x["basis"] not in refs.ELM)]


def weight(g):
    if g["kind"] == "utfc":
        return 2 ** g["deg"] * (1.5 if g["basis"] in refs.ELM else 1)
    return {"hybrid": 6, "wide": 6, "class": 3, "melm": 8, "mtfc": 20 * g.get("dim", 1)}[g["kind"]]


def spell(s, how):
    import jax.numpy as jnp

    s = list(s)
    if how == "list":
        return s
    if how == "tuple":
        return tuple(s)
    if how == "np32":
        return onp.array(s, dtype=onp.int32)
    if how == "np64":
        return onp.array(s, dtype=onp.int64)
    if how == "jax":
        return jnp.array(s, dtype=int)
    return onp.array([[k, 9] for k in s], dtype=onp.int32).reshape(len(s), 2)[:, 0]


def spellings(sub, deg):
    """Every way to write the removed set."""
    out = []
    for order in {tuple(sub), tuple(reversed(sub)), tuple(sub[1:] + sub[:1])}:
        for how in SPELL:
            out.append((f"{how}{order}", lambda o=order, h=how: spell(o, h)))
    if tuple(sub) == tuple(range(len(sub))):
        for ty in (int, onp.int32, onp.int64):
            out.append((f"{ty.__name__} {len(sub)}", lambda ty=ty: ty(len(sub))))
        if not sub:
            out.append(("int -1", lambda: -1))
    return out


def run(g, rec, tier):
    from tfc import utfc, mtfc, HybridUtfc
    from tfc.utils import BF

    basis = g["basis"]
    elm = basis in refs.ELM

    def same(key, got, ref, case):
        rec.states += 1
        rec.traces += 1
        rec.transitions += onp.size(ref)
        ref = onp.asarray(ref)
        rec.close(key, got, ref, 1e-12 * (1e-12 + (onp.abs(ref).max() if ref.size else 0)), case)

    if g["kind"] == "utfc":
        deg = g["deg"]
        dom = (-1.0, 2.0)
        xs = onp.linspace(-1.2, 2.1, 5)
        w, b = p04.weights(deg + 1)
        base = utfc(5, 0, deg, basis=basis, x0=dom[0], xf=dom[1])
        if elm:
            base.basisClass.w, base.basisClass.b = w, b
        names = ("H", "dH", "d2H", "d4H", "d8H")
        F = {n: onp.asarray(getattr(base, n)(xs, full=True)) for n in names}
        for size in range(0, deg + 1):
            for sub in itertools.combinations(range(deg + 1), size):
                keep = [k for k in range(deg + 1) if k not in sub]
                for si, (label, mk) in enumerate(spellings(list(sub), deg)):
                    case = {"basis": basis, "deg": deg, "nC": label}
                    rec.now(case)
                    with rec.guard("utfc", case):
                        t = utfc(5, mk(), deg, basis=basis, x0=dom[0], xf=dom[1])
                        if elm:
                            t.basisClass.w, t.basisClass.b = w, b
                        for n in names if si == 0 else names[:2]:
                            same("utfc." + n, getattr(t, n)(xs), F[n][:, keep], dict(case, method=n, full=False))
                        for n in names if si == 0 else names[:1]:
                            same("utfc." + n + ":full", getattr(t, n)(xs, full=True), F[n], dict(case, method=n, full=True))
                        if deg < 4:
                            t = utfc(5, mk(), deg, basis=basis, x0=dom[0], xf=dom[1], backend="Python")
                            if elm:
                                t.basisClass.w, t.basisClass.b = w, b
                            same("utfc.python", t.H(xs), F["H"][:, keep], dict(case, backend="Python", full=False))
                            same("utfc.python:full", t.H(xs, full=True), F["H"], dict(case, backend="Python", full=True))
                    if rec.full:
                        return
        rec.sample({"utfc": basis, "deg": deg, "last": label})
    elif g["kind"] == "wide":  # many functions
        xs = onp.linspace(-1.0, 2.0, 4)
        for deg in (12, 33, 70):
            w, b = p04.weights(deg + 1)
            for nC in [1, 7, 11, deg // 2, deg - 1, deg] + [[k] for k in range(0, deg + 1, 1 if deg < 40 else 5)] + [list(range(deg, 0, -1)), [deg, 0, deg // 2], list(range(1, deg, 2))]:
                rem = list(range(nC)) if isinstance(nC, int) else nC
                keep = [k for k in range(deg + 1) if k not in rem]
                case = {"basis": basis, "deg": deg, "nC": nC}
                with rec.guard("utfc.wide", case):
                    t = utfc(5, nC, deg, basis=basis, x0=-1.0, xf=2.0)
                    if elm:
                        t.basisClass.w, t.basisClass.b = w, b
                    for nm in ("H", "dH"):
                        F = onp.asarray(getattr(t, nm)(xs, full=True))
                        if F.shape != (4, deg + 1):
                            rec.fail("utfc.wide", f"shape {F.shape} with full", case)
                        same("utfc.wide", getattr(t, nm)(xs), F[:, keep], dict(case, method=nm))
            if rec.full:
                return
        if not elm:  # high indices in several dimensions
            for dim, deg in ((2, 9), (3, 5), (4, 3)):
                doms = p05.DOMS[0][:dim]
                X = p05.grid_points(basis, doms)
                vecs = refs.index_vectors(dim, deg)
                pool = [deg, [deg, 0], [deg - 1], list(range(deg - 1, -1, -2)), -1]
                for combo in itertools.product(pool, repeat=dim) if dim == 2 else [tuple(pool[(i + j * k) % 5] for j in range(dim)) for i in range(5) for k in range(5)]:
                    case = {"mtfc": basis, "dim": dim, "deg": deg, "nC": combo}
                    with rec.guard("mtfc.wide", case):
                        t = mtfc([2] * dim, list(combo), deg, dim=dim, basis=basis, x0=[a for a, _ in doms], xf=[c for _, c in doms])
                        sets = [tuple(range(e)) if isinstance(e, int) else tuple(e) for e in combo]
                        keep = [i for i, v in enumerate(vecs) if not refs.removed(v, sets)]
                        for nm in ("H", "Hy"):
                            F = onp.asarray(getattr(t, nm)(*X, full=True))
                            if F.shape[1] != len(vecs):
                                rec.fail("mtfc.wide", f"{F.shape[1]} columns with full instead of {len(vecs)}", case)
                            same("mtfc.wide", getattr(t, nm)(*X), F[:, keep], dict(case, method=nm))
        rec.sample(case)
    elif g["kind"] == "class":
        xs = onp.linspace(-1.2, 2.1, 5)
        for m in range(1, 7):
            w, b = p04.weights(m)
            o0 = getattr(BF, basis)(-1.0, 2.0, onp.array([], dtype=onp.int32), m)
            if elm:
                o0.w, o0.b = w, b
            for size in range(0, m + 1):
                for sub in itertools.permutations(range(m), size) if m <= 3 else itertools.combinations(range(m), size):
                    case = {"class": basis, "m": m, "nC": sub}
                    with rec.guard("class", case):
                        o = getattr(BF, basis)(-1.0, 2.0, onp.array(sub, dtype=onp.int32), m)
                        if elm:
                            o.w, o.b = w, b
                        keep = [k for k in range(m) if k not in sub]
                        for d in (0, 1, 3):
                            same(basis, o.H(xs, d, False), onp.asarray(o0.H(xs, d, True))[:, keep], dict(case, d=d))
                            same(basis + ":full", o.H(xs, d, True), o0.H(xs, d, True), dict(case, d=d, full=True))
        rec.sample({"class": basis, "m": "1..6", "subsets": "all"})
    elif g["kind"] == "hybrid":
        others = [("CP", 3, 2), ("FS", 4, [3, 0]), ("ELMSin", 2, 0)]
        mine = (basis, 3, [1])
        xs = onp.linspace(-1.0, 2.0, 5)
        for n in (1, 2, 3):
            for combo in itertools.permutations([mine] + others, n):
                if mine not in combo:
                    continue
                case = {"members": combo}
                with rec.guard("hybrid", case):
                    ts = [utfc(6, c, d, basis=b, x0=-1.0, xf=2.0) for b, d, c in combo]
                    h = HybridUtfc(ts)
                    for full in (False, True):
                        for nm, d in (("H", 0), ("dH", 1), ("d2H", 2), ("d3H", 3), ("d4H", 4), ("d8H", 8)):
                            ref = onp.hstack([onp.asarray(t.basisClass.H(xs, d, full)) for t in ts])
                            same("hybrid." + nm, getattr(h, nm)(xs, full=full), ref, dict(case, method=nm, full=full))
        rec.sample({"hybrid": case})
    elif g["kind"] == "melm":
        doms = p05.DOMS[0][:2]
        X = p05.grid_points(basis, doms)
        for deg in (1, 2, 3):
            w, b = p05.elm_weights(2, deg + 1)
            kw = dict(dim=2, basis=basis, x0=[a for a, _ in doms], xf=[c for _, c in doms])
            base = mtfc([2, 2], 0, deg, **kw)
            base.basisClass.w, base.basisClass.b = w, b
            for size in range(0, deg + 1):
                for sub in itertools.combinations(range(deg + 1), size):
                    keep = [k for k in range(deg + 1) if k not in sub]
                    for label, mk in spellings(list(sub), deg):
                        case = {"mtfc": basis, "deg": deg, "nC": label}
                        with rec.guard("mtfc-network", case):
                            t = mtfc([2, 2], mk(), deg, **kw)
                            t.basisClass.w, t.basisClass.b = w, b
                            for nm in ("H", "Hxy"):
                                full = onp.asarray(getattr(base, nm)(*X, full=True))
                                same("mtfc-network." + nm, getattr(t, nm)(*X), full[:, keep], case)
                                same("mtfc-network:full", getattr(t, nm)(*X, full=True), full, case)
        rec.sample({"mtfc": basis})
    else:
        import jax.numpy as jnp

        dim = g["dim"]
        doms = p05.DOMS[0][:dim]
        X = p05.grid_points(basis, doms)
        kw = dict(dim=dim, basis=basis, x0=[a for a, _ in doms], xf=[c for _, c in doms])
        entries = [(-1, ()), (0, ()), (1, (0,)), (2, (0, 1)), ([0], (0,)), ([1], (1,)), ([2, 0], (0, 2)), (onp.array([1, 2]), (1, 2)), (jnp.array([0]), (0,)), (onp.array([2]), (2,)), ((1, 0), (0, 1))]
        if dim == 3:
            entries = [entries[k] for k in (0, 2, 3, 5, 6, 7)]
        deg = 3
        base = mtfc([2] * dim, [0] * dim, deg, **kw)
        names = ("H",) if dim == 1 else ("H", "Hxy")
        F = {nm: onp.asarray(getattr(base, nm)(*X, full=True)) for nm in names}
        vecs = refs.index_vectors(dim, deg)
        for combo in itertools.product(entries, repeat=dim):
            sets = [s for _, s in combo]
            keep = [i for i, v in enumerate(vecs) if not refs.removed(v, sets)]
            forms = [("list", [e for e, _ in combo])]
            if dim < 3:
                forms.append(("tuple", tuple(e for e, _ in combo)))
                arr = p05.nc_array(sets)
                if arr.shape[1]:
                    forms += [("np array", arr), ("jax array", jnp.array(arr))]
            for label, nC in forms:
                case = {"mtfc": basis, "dim": dim, "form": label, "nC": str(nC)}
                rec.now(case)
                with rec.guard("mtfc", case):
                    t = mtfc([2] * dim, nC, deg, **kw)
                    for nm in names:
                        same("mtfc." + nm, getattr(t, nm)(*X), F[nm][:, keep], dict(case, method=nm))
                        same("mtfc:full", getattr(t, nm)(*X, full=True), F[nm], dict(case, method=nm, full=True))
            if rec.full:
                return
        rec.sample({"mtfc": basis, "dim": dim, "last": case})
