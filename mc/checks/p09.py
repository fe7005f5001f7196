"""P09: automatic derivatives of expressions of H, for every word of derivative operators and variables."""
import itertools
import math

import numpy as onp
import sympy as sp

import refs
from checks.p04 import weights
from checks.p05 import elm_weights, elm_ref, tensor_ref, orders

ASSUMPTIONS = ["Reference: mixed partial derivatives of the basis at 400 bits, composed with the Taylor coefficients of the inner functions (exact chain rule).",
               "Points are arrays of the same length for all variables; the tangent space is enumerated by words of operators (egrad, egradSimple, jvp, forward and reverse Jacobians), not by all functions."]
UB = ("CP", "LeP", "FS") + refs.ELM
VX = sp.symbols("a b c")
a, b, c = VX
# name -> (dimension of the basis, inner functions of the variables)
INNER = {
    "x": (1, [a]), "x2": (1, [a**2]), "sin": (1, [sp.sin(a) + 2 * a]), "xy": (1, [a * b]), "x+yy": (1, [a + b**2]),
    "id2": (2, [a, b]), "swap2": (2, [b, a]), "mix2": (2, [a * b, b - a**2]), "one2": (2, [a, a]), "xyz2": (2, [a * c, b + c]),
    "id3": (3, [a, b, c]), "mix3": (3, [a * c, b, a + b]),
}
DOM = ((-1.0, 2.0), (0.0, 3.0), (-2.0, 1.0))
PTS = onp.array([[0.3, -0.7, 1.1], [0.45, 1.7, 0.9], [-0.35, 0.6, -1.2]])
OPS = "ERJFB"


def bounds(tier):
    return {"bases": list(UB), "inner functions": {k: str(v[1]) for k, v in INNER.items()}, "words": "all words of (operator, variable), operators egrad, egradSimple, jvp, diag of jacfwd, diag of jacrev; length <= 3 for one variable (all 155), <= 2 with all operators and <= 3 with egrad for more",
            "deep": "egrad to order 9 (one variable), all mixed orders to total 6 (two) and 5 (three), in up to three orders of differentiation",
            "jit": "homogeneous words, inner and outer jit", "tangents": "zero, unit, ones, general; concrete, traced, symbolic zero; linearize, vjp, hvp", "vmap": "all in/out axes of 1-3 nested maps, unmapped arguments, composed with derivatives and jit"}


def groups(tier):
    gs = []
    for bs in UB:
        for n in INNER:
            gs.append({"kind": "words", "basis": bs, "inner": n, "full": n in ("x2", "mix2")})
        gs += [{"kind": "tangents", "basis": bs}, {"kind": "vmap", "basis": bs, "dim": 1}, {"kind": "vmap", "basis": bs, "dim": 2}, {"kind": "xi", "basis": bs}]
        gs += [{"kind": "deep", "basis": bs, "dim": d} for d in (1, 2, 3)]
    gs += [{"kind": "python", "basis": bs} for bs in UB]
    gs += [{"kind": "step"}]
    return gs


def weight(g):
    return {"words": 3, "vmap": 3, "deep": 4}.get(g["kind"], 1)


def build(basis, dim, backend="C++", deg=2, nC=1):
    from tfc import utfc, mtfc

    m = deg + 1
    if dim == 1:
        t = utfc(4, nC, deg, basis=basis, x0=DOM[0][0], xf=DOM[0][1], backend=backend)
        if basis in refs.ELM:
            t.basisClass.w, t.basisClass.b = weights(m)[0] + 0.4, weights(m)[1]
    else:
        elm = basis in refs.ELM
        t = mtfc([3] * dim, nC if elm else [nC] * dim, deg, dim=dim, basis=basis, x0=[d[0] for d in DOM[:dim]], xf=[d[1] for d in DOM[:dim]], backend=backend)
        if elm:
            w, bb = elm_weights(dim, m)
            t.basisClass.w, t.basisClass.b = w, bb
    return t


def tables(t, basis, dim, U, order, full, deg=2, nC=1):
    """T[alpha] = mixed partial of all kept functions at the points U (dim, n)."""
    m = deg + 1
    out = {}
    if basis in refs.ELM:
        w = onp.asarray(t.basisClass.w).reshape(dim, m)
        bb = onp.asarray(t.basisClass.b).flatten()
        keep = list(range(m)) if full else list(range(nC, m))
        for d in orders(dim, order):
            out[d] = elm_ref(basis, d, U, DOM[:dim], w, bb)[0][:, keep]
        return out
    uni = []
    for j in range(dim):
        uni.append((onp.stack([refs.uni_table(basis, m, order, float(x), *DOM[j])[0] for x in U[j]], 1),) * 2)
    vecs = refs.index_vectors(dim, deg)
    if not full:
        vecs = [v for v in vecs if not refs.removed(v, [tuple(range(nC))] * dim)]
    for d in orders(dim, order):
        out[d] = tensor_ref(uni, vecs, d)[0]
    return out


def compose(inner, r, V, T, order):
    """D[beta] = derivative of order beta (in the r variables) of T(inner(v)), truncated Taylor arithmetic."""
    n = V.shape[1]
    mons = [d for d in itertools.product(range(order + 1), repeat=r) if sum(d) <= order]
    fact = lambda d: math.prod(math.factorial(k) for k in d)

    def mul(p, q):
        o = {}
        for d1, v1 in p.items():
            for d2, v2 in q.items():
                d = tuple(i + j for i, j in zip(d1, d2))
                if sum(d) <= order:
                    o[d] = o.get(d, 0) + v1 * v2
        return o

    delta = []
    for u in inner:
        p = {}
        for d in mons:
            if sum(d) == 0:
                continue
            e = u
            for v, k in zip(VX, d):
                e = sp.diff(e, v, k) if k else e
            val = onp.array([float(e.subs({VX[j]: V[j, i] for j in range(r)})) for i in range(n)])[:, None]
            if onp.any(val):
                p[d] = val / fact(d)
        delta.append(p)
    zero = (0,) * r
    res = {d: 0.0 for d in mons}
    for al, tab in T.items():
        p = {zero: onp.ones((n, 1))}
        for k, e in enumerate(al):
            for _ in range(e):
                p = mul(p, delta[k])
        for d, v in p.items():
            res[d] = res[d] + v * tab / fact(al)
    return {d: (v * fact(d) if not onp.isscalar(v) else v) for d, v in res.items()}


def run(g, rec, tier):
    import jax
    import jax.numpy as np
    from tfc.utils import egrad, egradSimple, step

    if g["kind"] == "step":
        return do_step(rec, jax, np, egrad, egradSimple, step)
    basis = g["basis"]

    def ok(key, got, want, case):
        rec.states += 1
        rec.traces += 1
        rec.transitions += onp.size(want)
        want = onp.asarray(want)
        return rec.close(key, got, want, 1e-10 * (1 + onp.max(onp.abs(want), initial=0)), case)

    def diag(J, off):
        # J[i, k, l] = d out[i, k] / d v[l]; nothing depends on other points
        i = np.arange(J.shape[0])
        return J[i, :, i]

    def apply_op(op, F, j):
        if op == "E":
            return egrad(F, j)
        if op == "R":
            return egradSimple(F, j)
        if op == "J":
            def dJ(*v):
                return jax.jvp(lambda q: F(*v[:j], q, *v[j + 1:]), (v[j],), (np.ones_like(v[j]),))[1]
            return dJ
        jac = jax.jacfwd if op == "F" else jax.jacrev

        def dd(*v):
            return diag(jac(F, j)(*v), None)
        return dd

    if g["kind"] in ("words", "python"):
        todo = [(g["inner"], g["full"], "C++")] if g["kind"] == "words" else [(n, False, "Python") for n in ("x", "x2", "id2", "mix2")]
        for name, full, backend in todo:
            dim, inner = INNER[name]
            r = max(i for i, v in enumerate(VX) for u in inner if v in u.free_symbols) + 1
            order = 3
            t = build(basis, dim, backend)
            V = PTS[:r]
            fs = [sp.lambdify(VX[:r], u, {"sin": np.sin}) for u in inner]

            def F(*v):
                return t.H(*[f(*v) for f in fs], full=full) if dim > 1 else t.H(fs[0](*v), full=full)

            U = onp.array([[float(u.subs({VX[j]: V[j, i] for j in range(r)})) for i in range(V.shape[1])] for u in inner])
            D = compose(inner, r, V, tables(t, basis, dim, U, order, full), order)
            ops = OPS if backend == "C++" else "ERJ"
            words = []
            for L in (0, 1, 2, 3):
                for idx in itertools.product(range(r), repeat=L):
                    if r == 1 or L < 3:
                        opw = list(itertools.product(ops, repeat=L))
                        if r > 1 and L == 2 and tier == "quick":
                            opw = [w for w in opw if w[0] == w[1] or "E" in w]
                        if r > 2 and L == 2 and tier == "quick":
                            opw = [w for w in opw if w[0] == w[1]]
                    else:
                        opw = [("E",) * L] + ([("F", "E", "B"), ("R",) * L, ("E", "B", "J")] if tier != "quick" else [])
                    words += [(idx, w) for w in opw]
            if backend == "C++":
                extra = [(idx, ("E",) * len(idx), jm) for L in (0, 1, 2) for idx in itertools.product(range(r), repeat=L) for jm in ("outer", "each") if L < 2 or jm == "outer" or r == 1]
            else:
                extra = []
            vj = [np.array(v) for v in V]
            for item in [w + (None,) for w in words] + extra:
                idx, w, jm = item
                case = {"basis": basis, "inner": name, "full": full, "backend": backend, "word (innermost first)": "".join(f"{o}{i} " for o, i in zip(w, idx)), "jit": jm}
                rec.now(str(case))
                with rec.guard("ad", case):
                    G = F
                    for o, i in zip(w, idx):
                        G = apply_op(o, G, i)
                        if jm == "each":
                            G = jax.jit(G)
                    if jm == "outer":
                        G = jax.jit(G)
                    beta = tuple(idx.count(k) for k in range(r))
                    ok("ad:" + ("jit" if jm else "eager"), G(*vj), D[beta], case)
                if rec.full:
                    return
            # the same array object for every variable; numpy points
            V1 = onp.array([PTS[0]] * r)
            U1 = onp.array([[float(u.subs({VX[j]: V1[j, i] for j in range(r)})) for i in range(V1.shape[1])] for u in inner])
            D1 = compose(inner, r, V1, tables(t, basis, dim, U1, 2, full), 2)
            one, onen = np.array(V1[0]), onp.array(V1[0])
            for L in (1, 2):
                for idx in itertools.product(range(r), repeat=L):
                    for o in (ops if L == 1 else "ER"):
                        for how in ("same object", "same numpy object", "same tracer", "numpy"):
                            if backend != "C++" and how == "same tracer":
                                continue
                            case = {"basis": basis, "inner": name, "full": full, "backend": backend, "word (innermost first)": "".join(f"{o}{i} " for i in idx), "points": how}
                            rec.now(str(case))
                            with rec.guard("ad", case):
                                G = F
                                for i in idx:
                                    G = apply_op(o, G, i)
                                beta = tuple(idx.count(k) for k in range(r))
                                if how == "numpy":
                                    ok("ad:numpy", G(*[onp.array(v) for v in V]), D[beta], case)
                                elif how == "same tracer":
                                    ok("ad:same", jax.jit(lambda q: G(*[q] * r))(one), D1[beta], case)
                                else:
                                    ok("ad:same", G(*[one if how == "same object" else onen] * r), D1[beta], case)
                        if rec.full:
                            return
            if backend == "C++":  # off-diagonal blocks vanish
                for jac in (jax.jacfwd, jax.jacrev, jax.hessian):
                    case = {"basis": basis, "inner": name, "jacobian": jac.__name__}
                    with rec.guard("jacobian", case):
                        J = onp.array(jac(F, 0)(*vj))
                        n = V.shape[1]
                        want = onp.zeros(J.shape)
                        for i in range(n):
                            if jac is jax.hessian:
                                want[i, :, i, i] = D[(2,) + (0,) * (r - 1)][i]
                            else:
                                want[i, :, i] = D[(1,) + (0,) * (r - 1)][i]
                        ok("jacobian", J, want, case)
        rec.sample({"basis": basis, "inner": name, "words": len(words)})
        return

    if g["kind"] == "deep":  # higher orders, every mix of variables, in three orders of differentiation
        dim = g["dim"]
        deg = 2 if basis in refs.ELM else {1: 9, 2: 6, 3: 4}[dim]
        top = {1: 9, 2: 6, 3: 5}[dim]
        t = build(basis, dim, deg=deg)
        V = PTS[:dim]
        vj = [np.array(v) for v in V]
        T = tables(t, basis, dim, V, top, False, deg=deg)
        for beta in orders(dim, top):
            if sum(beta) < 3 or (tier == "quick" and sum(beta) < top - 1 and 0 in beta and dim > 1):
                continue
            up = [j for j in range(dim) for _ in range(beta[j])]
            mixed = sorted(up, key=lambda j: (up.count(j), j))[::-1]
            woven = [j for _, _, j in sorted((up[:i].count(j), -j, j) for i, j in enumerate(up))]
            for word in [list(w) for w in sorted({tuple(up), tuple(woven), tuple(mixed)})]:
                case = {"basis": basis, "dim": dim, "egrad word": word}
                rec.now(str(case))
                with rec.guard("deep", case):
                    G = t.H
                    for j in word:
                        G = egrad(G, j)
                    ok("deep", (jax.jit(G) if word == up or sum(beta) > 5 else G)(*vj), T[beta], case)
            if rec.full:
                return
        rec.sample(case)
        return

    if g["kind"] == "tangents":
        for dim in (1, 2):
            t = build(basis, dim)
            V = PTS[:dim]
            F = t.H
            T = tables(t, basis, dim, V, 3, False)
            n = V.shape[1]
            vj = tuple(np.array(v) for v in V)
            e0 = (0,) * dim
            unit = [tuple(int(i == j) for i in range(dim)) for j in range(dim)]
            tans = {"zero": onp.zeros(n), "ones": onp.ones(n), "first": onp.eye(n)[0], "last": onp.eye(n)[-1], "gen": onp.array([0.5, -2.0, 3.0])[:n], "neg": -onp.ones(n)}
            for names in itertools.product(tans, repeat=dim):
                tv = tuple(tans[k] for k in names)
                want = sum(T[unit[j]] * tv[j][:, None] for j in range(dim))
                case = {"basis": basis, "dim": dim, "tangents": names}
                rec.now(str(case))
                with rec.guard("tangent", case):
                    p, d = jax.jvp(F, vj, tuple(onp.array(x) for x in tv))
                    ok("tangent", p, T[e0], case)
                    ok("tangent", d, want, case)
                    ok("tangent:jax", jax.jvp(F, vj, tuple(np.array(x) for x in tv))[1], want, case)
                    ok("tangent:traced", jax.jit(lambda v, s: jax.jvp(F, v, s)[1])(vj, tv), want, case)
                    ok("tangent:const in jit", jax.jit(lambda v: jax.jvp(F, v, tv)[1])(vj), want, case)
                    ok("tangent:linearize", jax.linearize(F, *vj)[1](*tv), want, case)
                    # reverse mode against the same numbers
                    ct = onp.cos(onp.arange(want.size)).reshape(want.shape)
                    back = jax.vjp(F, *vj)[1](np.array(ct))
                    for j in range(dim):
                        ok("cotangent", back[j], (T[unit[j]] * ct).sum(1), case)
                if rec.full:
                    return
            # differentiation of one argument while the others are constants, functions of it, or stopped
            for j in range(dim):
                case = {"basis": basis, "dim": dim, "arg": j}
                with rec.guard("partial", case):
                    rest = lambda q: [vj[i] if i != j else q for i in range(dim)]
                    ok("partial", jax.jvp(lambda q: F(*rest(q)), (vj[j],), (np.ones(n),))[1], T[unit[j]], case)
                    st = jax.lax.stop_gradient
                    ok("stopped", jax.jvp(lambda q: F(*[st(v) for v in rest(q)]), (vj[j],), (np.ones(n),))[1], 0 * T[e0], case)
                    ok("stopped others", egrad(lambda *v: F(*[v[i] if i == j else st(v[i]) for i in range(dim)]), j)(*vj), T[unit[j]], case)
                    ok("partially const", jax.jvp(lambda q: F(*[q if i == j else np.array(V[i]) for i in range(dim)]) * q[:, None], (vj[j],), (np.ones(n),))[1], T[unit[j]] * V[j][:, None] + T[e0], case)
                    ok("unused", egrad(lambda *v: F(*v[:dim]), dim)(*vj, np.ones(n)), 0 * T[e0], case)
                    ok("grad of sum", jax.grad(lambda q: F(*rest(q)).sum())(vj[j]), T[unit[j]].sum(1), case)
                    two = tuple(2 * k for k in unit[j])
                    ok("hvp", jax.jvp(jax.grad(lambda q: F(*rest(q)).sum()), (vj[j],), (np.ones(n),))[1], T[two].sum(1), case)
                    ok("grad of grad", jax.grad(lambda q: jax.grad(lambda s: F(*rest(s)).sum())(q).sum())(vj[j]), T[two].sum(1), case)
                    ok("where", egrad(lambda *v: np.where(v[j][:, None] > 0, F(*v), 0.0), j)(*vj), onp.where(V[j][:, None] > 0, T[unit[j]], 0), case)
                    ok("cond", jax.jit(egrad(lambda *v: jax.lax.cond(v[j][0] > -10, lambda w: F(*w), lambda w: F(*w) * 0, v), j))(*vj), T[unit[j]], case)
                    ok("scan", jax.jit(egrad(lambda *v: jax.lax.scan(lambda s, _: (s + F(*v), None), F(*v) * 0, None, length=3)[0], j))(*vj), 3 * T[unit[j]], case)
                if rec.full:
                    return
        rec.sample(case)
        return

    if g["kind"] == "xi":
        # constrained expressions: derivatives with respect to points and coefficients
        from tfc.utils import TFCDict

        t = build(basis, 1)
        x = np.array(PTS[0])
        T = tables(t, basis, 1, PTS[:1], 3, False)
        m = T[(0,)].shape[1]
        for xv in [onp.zeros(m), onp.eye(m)[0], onp.eye(m)[-1], onp.arange(1.0, m + 1)]:
            xi = np.array(xv)
            u = lambda x, xi: np.dot(t.H(x), xi) + x**2 * xi[0]
            U = [T[(d,)] @ xv + [PTS[0] ** 2, 2 * PTS[0], 2 + 0 * PTS[0], 0 * PTS[0]][d] * xv[0] for d in range(4)]
            A = [T[(d,)] + onp.outer([PTS[0] ** 2, 2 * PTS[0], 2 + 0 * PTS[0], 0 * PTS[0]][d], onp.eye(m)[0]) for d in range(4)]
            case = {"basis": basis, "xi": xv.tolist()}
            with rec.guard("xi", case):
                for eg in (egrad, egradSimple):
                    f = u
                    for d in range(4):
                        ok("u", f(x, xi), U[d], case)
                        for jac in (jax.jacfwd, jax.jacrev):
                            ok("du/dxi", jac(f, 1)(x, xi), A[d], case)
                            ok("du/dxi jit", jax.jit(jac(f, 1))(x, xi), A[d], case)
                        f = eg(f, 0)
                ud = lambda x, xi: np.dot(t.H(x), xi["a"]) + x**2 * xi["b"]
                xd = TFCDict({"a": xi, "b": np.array([xv[0]])})
                f = ud
                for d in range(4):
                    ok("dict", f(x, xd), U[d], case)
                    J = jax.jacfwd(f, 1)(x, xd)
                    ok("dict jac", J["a"], T[(d,)], case)
                    f = egrad(f, 0)
                # a jitted function is differentiated like the original
                ok("egrad of jit", egrad(jax.jit(u), 0)(x, xi), U[1], case)
                ok("egradSimple of jit", egradSimple(jax.jit(u), 0)(x, xi), U[1], case)
                ok("egrad xi", egrad(u, 1)(x, xi), A[0].sum(1), case)
                ok("egrad xi", egrad(egrad(u, 0), 1)(x, xi), A[1].sum(1), case)
                # other arguments of any structure, and with respect to them (all entries together)
                import functools
                from tfc.utils import TFCDictRobust

                parts = {"a": xi, "b": np.array([xv[0]])}
                conts = {"dict": dict(parts), "TFCDict": TFCDict(parts), "TFCDictRobust": TFCDictRobust(parts), "TFCDict numpy": TFCDict({k: onp.array(v) for k, v in parts.items()}),
                         "tuple": (parts["a"], parts["b"]), "list": [parts["a"], parts["b"]], "nested": ({"p": parts["a"]}, [parts["b"]])}
                get = {"tuple": lambda c: c, "list": lambda c: c, "nested": lambda c: (c[0]["p"], c[1][0])}
                for cn, cont in conts.items() if tier != "quick" or g["basis"] in ("CP", "ELMTanh") else ():
                    ab = get.get(cn, lambda c: (c["a"], c["b"]))
                    for pos in (0, 1, 2):  # where the points are
                        def w(*v):
                            rest = [v[i] for i in range(3) if i != pos]
                            aa, bb = ab(rest[0])
                            return np.dot(t.H(v[pos]), aa) + v[pos] ** 2 * bb * rest[1]
                        c2 = dict(case, container=cn, points=pos)
                        s = np.array(1.0)
                        args = [cont, s]
                        args.insert(pos, x)
                        kp, ks = [i for i in range(3) if i != pos]
                        fs = {"function": w, "partial": functools.partial(w), "method": type("M", (), {"w": lambda self, *v: w(*v)})().w, "object": type("M", (), {"__call__": lambda self, *v: w(*v)})(), "jit": jax.jit(w)}
                        for fn, ff in fs.items():
                            if fn != "function" and (cn, pos) not in (("TFCDict", 0), ("tuple", 1), ("nested", 2)):
                                continue
                            c2["callable"] = fn
                            ok("container", egrad(ff, pos)(*args), U[1], c2)
                            ok("container", egrad(egrad(ff, pos), pos)(*args), U[2], c2)
                            ok("container xi", egrad(ff, kp)(*args), A[0].sum(1), c2)
                            ok("container xi", egrad(egrad(ff, kp), pos)(*args), A[1].sum(1), c2)
                            ok("container s", egrad(ff, ks)(*args), PTS[0] ** 2 * xv[0], c2)
                            ok("container jit", jax.jit(egrad(egrad(ff, pos), ks))(*args), 2 * PTS[0] * xv[0], c2)
            if rec.full:
                return
        return

    if g["kind"] == "vmap":
        dim = g["dim"]
        t = build(basis, dim)
        F = t.H
        rng = onp.arange(24.0)
        big = [onp.cos(rng * (1.3 + j) + j) + 0.2 * j for j in range(dim)]
        flat_ref = tables(t, basis, dim, onp.array(big), 1, False)
        e0 = (0,) * dim
        unit = [tuple(int(i == j) for i in range(dim)) for j in range(dim)]

        def look(idx, d=e0):
            """Reference rows for an integer array of point numbers."""
            return flat_ref[d][idx]

        def arr(j, idx):
            return np.array(big[j][idx])

        # same index array for all variables
        for shape in ((3,), (2, 3), (3, 2), (2, 3, 4), (1, 4), (4, 1)):
            idx = onp.arange(int(onp.prod(shape))).reshape(shape)
            nd = len(shape)
            for depth in range(1, nd + 1):
                for axes in itertools.product(range(nd), repeat=depth):
                    # axes[k] is the axis mapped by the k-th map (outermost first), in the shape that is left
                    if any(ax >= nd - k for k, ax in enumerate(axes)) or nd - depth > 1:
                        continue
                    want_idx = idx
                    for k, ax in enumerate(axes):
                        want_idx = onp.moveaxis(want_idx, k + ax, k)
                    case = {"basis": basis, "dim": dim, "shape": shape, "axes (outermost first)": axes}
                    rec.now(str(case))
                    with rec.guard("vmap", case):
                        G, dG = F, egrad(F, dim - 1)
                        Jt = lambda *v: jax.jvp(F, v, tuple(np.ones_like(q) for q in v))[1]
                        for ax in reversed(axes):
                            G, dG, Jt = jax.vmap(G, in_axes=ax), jax.vmap(dG, in_axes=ax), jax.vmap(Jt, in_axes=ax)
                        args = [arr(j, idx) for j in range(dim)]
                        ok("vmap", G(*args), look(want_idx), case)
                        ok("vmap of egrad", dG(*args), look(want_idx, unit[-1]), case)
                        ok("vmap of jvp", Jt(*args), sum(look(want_idx, k) for k in unit), case)
                        ok("egrad of vmap", egrad(G, 0)(*args), look(want_idx, unit[0]), case)
                        if depth <= 2 and nd <= 2:
                            ok("jit vmap", jax.jit(G)(*args), look(want_idx), case)
                            ok("jit egrad vmap", jax.jit(egrad(G, dim - 1))(*args), look(want_idx, unit[-1]), case)
                    if rec.full:
                        return
        # output axes
        for oa in (0, 1, 2, -1):
            with rec.guard("vmap out", oa):
                idx = onp.arange(6).reshape(2, 3)
                ok("vmap out", jax.vmap(F, out_axes=oa)(*[arr(j, idx) for j in range(dim)]), onp.moveaxis(look(idx), 0, oa), {"out_axes": oa})
        # unmapped arguments, for every choice of axis per argument
        if dim == 2:
            pts = {}
            for a0, a1 in itertools.product((None, 0, 1), repeat=2):
                if a0 is None and a1 is None:
                    continue
                B, n = 4, 3
                v = []
                for j, ax in enumerate((a0, a1)):
                    base = big[j][: B * n].reshape(B, n)
                    v.append(base[0] if ax is None else base if ax == 0 else base.T)
                case = {"basis": basis, "in_axes": [a0, a1]}
                rec.now(str(case))
                with rec.guard("unmapped", case):
                    rows = []
                    for k in range(B):
                        rows.append(onp.array([v[j] if ax is None else onp.take(v[j], k, axis=ax) for j, ax in enumerate((a0, a1))]))
                    want = [onp.stack([tables(t, basis, 2, q, 1, False)[d] for q in rows]) for d in (e0, unit[0], unit[1])]
                    args = [np.array(q) for q in v]
                    ok("unmapped", jax.vmap(F, in_axes=(a0, a1))(*args), want[0], case)
                    ok("unmapped jit", jax.jit(jax.vmap(F, in_axes=(a0, a1)))(*args), want[0], case)
                    for j in range(2):
                        ok("unmapped egrad", jax.vmap(egrad(F, j), in_axes=(a0, a1))(*args), want[1 + j], case)
                        ok("unmapped jvp", jax.vmap(lambda *q: jax.jvp(lambda s: F(*[s if i == j else q[i] for i in range(2)]), (q[j],), (np.ones(n),))[1], in_axes=(a0, a1))(*args), want[1 + j], case)
                        ok("unmapped jacrev", jax.vmap(lambda *q: diag(jax.jacrev(F, j)(*q), None), in_axes=(a0, a1))(*args), want[1 + j], case)
                # closed over instead of passed
                if a1 is None:
                    with rec.guard("closure", case):
                        ok("closure", jax.vmap(lambda q: F(q, args[1]), in_axes=a0)(args[0]), want[0], case)
                if rec.full:
                    return
            # scalars mapped on one side, a scalar closed over on the other
            with rec.guard("scalar", basis):
                idx = onp.arange(5)
                q = jax.vmap(lambda s: F(s, np.array(big[1][0])))(arr(0, idx))
                ok("scalar closure", q, tables(t, basis, 2, onp.array([big[0][idx], onp.full(5, big[1][0])]), 0, False)[e0], {"basis": basis})
        else:
            # tangents that are mapped while the point is not, and the other way round
            with rec.guard("mapped tangents", basis):
                idx = onp.arange(3)
                tn = onp.arange(6.0).reshape(2, 3) - 2
                x = arr(0, idx)
                ok("mapped tangents", jax.vmap(lambda s: jax.jvp(F, (x,), (s,))[1])(np.array(tn)), look(idx, (1,))[None] * tn[:, :, None], basis)
                xs = arr(0, onp.arange(6).reshape(2, 3))
                ok("mapped points", jax.vmap(lambda q: jax.jvp(F, (q,), (np.array(tn[0]),))[1])(xs), look(onp.arange(6).reshape(2, 3), (1,)) * tn[0][None, :, None], basis)
                ok("mapped const tangents", jax.vmap(lambda q: jax.jvp(F, (q,), (onp.zeros(3),))[1])(xs), 0 * look(onp.arange(6).reshape(2, 3)), basis)
        rec.sample(case)


def do_step(rec, jax, np, egrad, egradSimple, step):
    pts = onp.array([-2.0, -1e-300, -0.0, 0.0, 1e-300, 0.5, 3.0, onp.inf, -onp.inf])
    want = onp.where(pts > 0, 1.0, 0.0)

    def ok(key, got, ref):
        rec.states += 1
        rec.traces += 1
        rec.transitions += onp.size(ref)
        rec.close("step:" + key, got, ref, 0.0, key)

    with rec.guard("step"):
        for xs, w in [(pts, want)] + [(pts[i : i + 1], want[i : i + 1]) for i in range(len(pts))] + [(pts[i], want[i]) for i in range(len(pts))]:
            x = np.array(xs)
            ok("value", step(x), w)
            ok("jit", jax.jit(step)(x), w)
            z = 0 * w
            for f, nm in ((egrad(step), "egrad"), (egradSimple(step), "egradSimple"), (jax.jit(egrad(step)), "jit egrad"), (egrad(egrad(step)), "egrad^2"), (egrad(jax.jit(step)), "egrad jit"),
                          (lambda q: jax.jvp(step, (q,), (onp.zeros(q.shape),))[1], "zero tangent"), (lambda q: jax.vjp(step, q)[1](np.ones(q.shape))[0], "vjp"), (lambda q: jax.grad(lambda s: np.sum(step(s)))(q), "grad")):
                ok(nm, f(x), z)
            if xs.ndim:
                ok("vmap", jax.vmap(step)(x), w)
                ok("vmap grad", jax.vmap(jax.grad(step))(x), z)
                ok("jacfwd", jax.jacfwd(step)(x), onp.zeros((x.size, x.size)))
                ok("jacrev", jax.jacrev(step)(x), onp.zeros((x.size, x.size)))
                fin = onp.isfinite(xs)
                y = np.array(xs[fin])
                ok("chain", egrad(lambda q: step(q**2 - 0.25) * q + q)(y), onp.where(xs[fin] ** 2 > 0.25, 2.0, 1.0))
    rec.sample("step")
