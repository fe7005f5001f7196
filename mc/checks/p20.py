"""P20: whole solutions. Constrained expressions from H and switching functions are evaluated for the zero vector and every
unit vector (which decides all coefficient vectors, the expression being affine in them) and solved for known solutions."""
import itertools
import warnings

import numpy as onp

ASSUMPTIONS = ["Constrained expressions are built as in the documentation: free function plus switching functions times projection functionals, switching functions from polynomial supports.",
               "Affinity in the coefficients is checked with a generic vector; tolerances are relative to the size of the basis functions in the constraints.",
               "Network weights are set to fixed values."]
ELM = ("ELMReLU", "ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish")
BASES = ("CP", "LeP", "FS") + ELM
DOMS = {"quick": [(0.0, 1.0), (-1.0, 3.0), (2.0, 2.5)], "thorough": [(0.0, 1.0), (-1.0, 3.0), (2.0, 2.5), (-4.0, -1.0), (0.0, 10.0)]}
# constraint: ("p", order, end) value of a derivative at an end (0, 1 or fraction of the domain); ("i",) integral; ("r",) y(x0) = y(xf) + kappa
CSETS = {
    "value": [("p", 0, 0)], "values": [("p", 0, 0), ("p", 0, 1)], "ivp": [("p", 0, 0), ("p", 1, 0)], "mixed": [("p", 1, 0), ("p", 0, 1)],
    "inner": [("p", 0, 0.3), ("p", 1, 0.8)], "three": [("p", 0, 0), ("p", 0, 1), ("p", 1, 0)], "four": [("p", 0, 0), ("p", 0, 1), ("p", 1, 0), ("p", 1, 1)],
    "second": [("p", 0, 0), ("p", 2, 1)], "integral": [("i",)], "integral and value": [("i",), ("p", 0, 1)], "relative": [("r",), ("p", 0, 0.5)], "none": [],
}


def bounds(tier):
    return {"univariate": f"{len(BASES)} bases x 2 backends + hybrids x constraint sets {list(CSETS)} x domains {DOMS[tier]} (quick: one of them per basis and backend) x removed functions (none, as many as constraints, index lists), zero, all unit and one generic coefficient vector, eager / jit / pejit",
            "solving": "first to third order linear and nonlinear equations, systems with dictionaries, complex coefficients; LS, LsClass, NLLS, NllsClass x pinv/lstsq",
            "high degrees": "deg 30 and 60 (solution of degree 27) in one, deg 12 in two dimensions, 4 constraint sets",
            "multivariate": "2 and 3 dimensions, products of constraint sets per variable, Poisson and heat equations"}


def groups(tier):
    gs = []
    for b in BASES:
        for be in ("C++", "Python"):
            for di in range(len(DOMS[tier])):
                # quick: one domain per basis and backend, in rotation
                if tier == "quick" and (BASES.index(b) + (be == "Python")) % 3 != di:
                    continue
                gs.append({"k": "uni", "basis": b, "backend": be, "dom": di})
                gs.append({"k": "solve", "basis": b, "backend": be, "dom": di})
    for di in range(len(DOMS[tier])) if tier != "quick" else (1,):
        gs.append({"k": "uni", "basis": "hybrid", "backend": "C++", "dom": di})
        gs.append({"k": "solve", "basis": "hybrid", "backend": "C++", "dom": di})
    for b in BASES:
        gs.append({"k": "multi", "basis": b, "backend": "C++"})
        gs.append({"k": "pde", "basis": b, "backend": "C++"})
    gs.append({"k": "multi", "basis": "LeP", "backend": "Python"})
    gs += [{"k": "high", "basis": b, "backend": be} for b, be in (("CP", "C++"), ("CP", "Python"), ("LeP", "C++"), ("LeP", "Python"), ("FS", "C++"))]
    gs.append({"k": "complex"})
    gs.append({"k": "system"})
    return gs


def weight(g):
    return {"multi": 20, "pde": 15, "solve": 12}.get(g["k"], 8) + (g.get("backend") == "C++") * 5


def fixed_weights(bc, n, dim=None):
    k = onp.arange(n)
    if dim is None:
        bc.w = onp.cos(1.7 * k + 0.3) * 4
    else:
        bc.w = onp.cos(1.7 * onp.arange(n * dim) + 0.3).reshape(dim, n) * 2
    bc.b = onp.sin(2.3 * k) * 1.5


def uni(basis, backend, N, nC, deg, dom):
    from tfc import utfc, HybridUtfc
    if basis == "hybrid":
        a = uni("CP", backend, N, nC, deg, dom)
        b = uni("ELMTanh", backend, N, 0, 3, dom)
        h = HybridUtfc([a, b])
        h.x = a.x
        h.N = a.N
        return h
    t = utfc(N, nC, deg, basis=basis, x0=dom[0], xf=dom[1], backend=backend)
    if basis in ELM:
        fixed_weights(t.basisClass, deg + 1)
    return t


def at(dom, e):
    return dom[0] + (dom[1] - dom[0]) * e


def gl(dom, n):
    x, w = onp.polynomial.legendre.leggauss(n)
    return dom[0] + (x + 1) / 2 * (dom[1] - dom[0]), w * (dom[1] - dom[0]) / 2


def polyder(j, o):
    """o-th derivative of x**j as a function"""
    c = onp.prod([j - i for i in range(o)]) if o else 1
    return (lambda x: 0.0 * x + c * x ** (j - o)) if j >= o else (lambda x: 0.0 * x)


def apply_poly(con, dom, j):
    if con[0] == "p":
        return polyder(j, con[1])(at(dom, con[2]))
    if con[0] == "i":
        return (dom[1] ** (j + 1) - dom[0] ** (j + 1)) / (j + 1)
    return dom[0] ** j - dom[1] ** j


def ders(f, n):
    """[f, f', ...] with egrad"""
    from tfc.utils import egrad
    out = [f]
    for _ in range(n):
        out.append(egrad(out[-1]))
    return out


def supports(cons):
    """exponents of monomials that make the support matrix regular"""
    n = len(cons)
    if ("r",) in cons:
        return [1, 2][:n] if n == 2 else [1]
    if cons and all(c[0] == "p" and c[1] > 0 for c in cons):
        return list(range(1, n + 1))
    if ("p", 2, 1) in cons:
        return [0, 2]
    return list(range(n))


def expression(g, cons, kap, dom, exps):
    """y(x, xi) = g + sum phi_j (kappa_j - C_j g)"""
    import jax.numpy as np
    n = len(cons)
    if n == 0:
        return g
    mid = 0.0
    S = onp.array([[apply_poly(c, dom, e) for e in exps] for c in cons])
    al = onp.linalg.inv(S)
    dg = ders(g, max([c[1] for c in cons if c[0] == "p"] + [0]))
    xq, wq = gl(dom, 80)

    def C(c, xi):
        if c[0] == "p":
            return dg[c[1]](np.array([at(dom, c[2])]), xi)[0]
        if c[0] == "i":
            return np.dot(wq, g(np.array(xq), xi))
        return g(np.array([dom[0]]), xi)[0] - g(np.array([dom[1]]), xi)[0]

    def y(x, xi):
        out = g(x, xi)
        for j in range(n):
            phi = sum(al[i, j] * x ** exps[i] for i in range(n))
            out = out + phi * (kap[j] - C(cons[j], xi))
        return out

    return y


def check_constraints(rec, y, H, cons, kap, dom, xi, case, jit, scale):
    import jax
    import jax.numpy as np
    n = max([c[1] for c in cons if c[0] == "p"] + [0])
    dy = ders(y, n)
    if jit:
        dy = [jax.jit(f) for f in dy]
    xq, wq = gl(dom, 120)
    for j, c in enumerate(cons):
        rec.transitions += 1
        if c[0] == "p":
            # among other points: the value does not depend on what else is evaluated
            pts = np.array([at(dom, 0.4), at(dom, c[2]), at(dom, 0.9)])
            v = onp.asarray(dy[c[1]](pts, xi))[1]
        elif c[0] == "i":
            v = wq @ onp.asarray(dy[0](np.array(xq), xi))
        else:
            v = onp.asarray(dy[0](np.array([dom[0], dom[1]]), xi))
            v = v[0] - v[1]
        rec.close("constraint", onp.asarray(v), onp.asarray(kap[j]), 1e-11 * scale, dict(case, constraint=c))


def run(g, rec, tier):
    import jax
    warnings.simplefilter("ignore")
    globals()["do_" + g["k"]](g, rec, tier)
    jax.clear_caches()


def do_uni(g, rec, tier):
    import jax
    import jax.numpy as np
    dom = DOMS[tier][g["dom"]]
    deg = 5
    for name, cons in CSETS.items():
        n = len(cons)
        if n == 0 or (g["basis"] == "ELMReLU" and (name.startswith("integral") or name == "second")):
            continue
        exps = supports(cons)
        for nC in {"quick": (0, n)}.get(tier, (0, n, [deg - i for i in range(n)], [1, 3][:n])):
            if g["basis"] == "FS" and nC:
                nC = 1
            t = uni(g["basis"], g["backend"], 7, nC, deg, dom)
            gfun = lambda x, xi: np.dot(t.H(x), xi)
            kap = [0.5, -1.25, 2.0, 0.75][:n]
            y = expression(gfun, cons, kap, dom, exps)
            M = onp.shape(t.H(t.x))[1]
            vecs = [onp.zeros(M)] + [onp.eye(M)[k] for k in range(M)] + [onp.cos(onp.arange(M) * 1.3) * 3]
            big = max(float(onp.abs(f(t.x)).max()) for f in ([t.H, t.dH, t.d2H][: 1 + max([c[1] for c in cons if c[0] == "p"] + [0])]))
            S = onp.array([[apply_poly(c, dom, e) for e in exps] for c in cons])
            scale = (1 + big) * 10 * onp.linalg.cond(S) * max(1, max(abs(dom[0]), abs(dom[1]))) ** max(exps)
            vals = []
            for vi, v in enumerate(vecs):
                for jit in (False, True):
                    if jit and (g["backend"] == "Python" or (tier == "quick" and vi not in (0, 1, M + 1))):
                        continue
                    case = dict(g, domain=dom, constraints=name, nC=nC, xi=v.tolist(), jit=jit)
                    rec.now(str(case))
                    rec.states += 1
                    rec.traces += 1
                    with rec.guard("expression", case):
                        check_constraints(rec, y, t, cons, kap, dom, np.array(v), case, jit, scale * 3)
                        if not jit:
                            vals.append(onp.asarray(y(t.x, np.array(v))))
                if rec.full:
                    return
            lin = vals[0] + sum(c * (u - vals[0]) for c, u in zip(vecs[-1], vals[1:-1]))
            rec.close("affine", vals[-1], lin, 1e-11 * scale * 10, case)
    rec.sample(case)


# equation: (constraints, operator(list of derivatives at x) -> residual part, nonlinear)
EQS = {
    "first": ("value", 1, lambda np, x, d: d[1] + 2.0 * d[0], False),
    "oscillator": ("ivp", 2, lambda np, x, d: d[2] + 4.0 * d[0], False),
    "boundary": ("values", 2, lambda np, x, d: d[2] - d[0] + 0.1 * x * d[1], False),
    "mixed": ("mixed", 2, lambda np, x, d: d[2] - d[0], False),
    "integral": ("integral", 1, lambda np, x, d: d[1], False),
    "third": ("three", 3, lambda np, x, d: d[3] + d[1], False),
    "riccati": ("value", 1, lambda np, x, d: d[1] + 0.05 * d[0] ** 2 + d[0], True),
    "sine": ("values", 2, lambda np, x, d: d[2] + 0.1 * np.sin(d[0]), True),
}


def do_solve(g, rec, tier):
    import jax
    import jax.numpy as np
    from tfc.utils import LS, LsClass, NLLS, NllsClass, pejit

    dom = DOMS[tier][g["dom"]]
    basis = g["basis"]
    if basis == "ELMReLU":
        return do_solve_relu(g, rec, tier)
    deg = 7 if basis not in ELM else 6
    for name, (cname, order, op, nonlin) in EQS.items():
        cons = CSETS[cname]
        exps = supports(cons)
        n = len(cons)
        for nC in ((n,) if tier == "quick" else (n, 0, list(range(n))[::-1])):
            if basis == "FS" and nC:
                nC = 1
            t = uni(basis, g["backend"], 16, nC, deg, dom)
            gfun = lambda x, xi: np.dot(t.H(x), xi)
            M = onp.shape(t.H(t.x))[1]
            if basis in ("CP", "LeP"):
                # a polynomial solution, its derivatives exact
                P = onp.polynomial.Polynomial([0.3, -0.5, 0.25, 0.1, -0.05], domain=list(dom), window=[-1, 1])
                sol = [P.deriv(k) if k else P for k in range(order + 1)]
                sol = [lambda x, p=p: onp.asarray(p(onp.asarray(x))) for p in sol]
                xq, wq = gl(dom, 80)
                kap = [float(sol[c[1]](at(dom, c[2]))) if c[0] == "p" else float(wq @ sol[0](xq)) for c in cons]
            else:
                xs = np.array(onp.cos(onp.arange(M) * 1.1 + 0.5) * 0.4)
                kap = [0.4, -0.2, 0.3][:n]
            y = expression(gfun, cons, kap, dom, exps)
            dy = ders(y, order)
            if basis not in ("CP", "LeP"):
                sol = [lambda x, k=k: onp.asarray(dy[k](np.asarray(x), xs)) for k in range(order + 1)]
            f = np.array(op(onp, onp.asarray(t.x), [s(t.x) for s in sol]))

            def res(xi, x, rhs):
                return op(np, x, [d(x, xi) for d in dy]) - rhs

            z = np.zeros(M)
            ref = sol[0](t.x)
            py = g["backend"] == "Python"
            ca = {"constant_arg_nums": [1]} if py else {}
            args = (t.x, f)
            rest = (f,) if py else args
            for method in ("pinv", "lstsq"):
                if tier == "quick" and method == "lstsq" and name not in ("boundary", "sine"):
                    continue
                runs = {}
                if not nonlin:
                    runs["LS"] = lambda: LS(z, res, *args, method=method, **ca)
                    runs["LsClass"] = lambda: LsClass(z, res, *args, method=method, **ca).run(np.zeros(M), *rest)
                if nonlin or tier != "quick" or name == "first":
                    runs["NLLS"] = lambda: NLLS(z, res, *args, method=method, tol=1e-12, maxIter=20, **ca)[0]
                    runs["NllsClass"] = lambda: NllsClass(z, res, *args, method=method, tol=1e-12, maxIter=20, **ca).run(z, *rest)[0]
                for api, go in runs.items():
                    case = dict(g, domain=dom, equation=name, nC=nC, api=api, method=method)
                    rec.now(str(case))
                    rec.states += 1
                    rec.traces += 1
                    with rec.guard("solve", case):
                        xi = go()
                        got = onp.asarray(y(t.x, xi))
                        rec.transitions += got.size
                        tol = (1e-8 if basis in ("CP", "LeP") else 1e-5) * (1 + onp.abs(ref).max())
                        rec.close("solution", got, ref, tol, case)
                        if not py:
                            rec.close("solution:jit", onp.asarray(jax.jit(y)(t.x, xi)), ref, tol, case)
                    if rec.full:
                        return
    rec.sample(case)


def do_solve_relu(g, rec, tier):
    """fits (no derivatives needed): y = data, with constraints"""
    import jax.numpy as np
    from tfc.utils import LS
    dom = DOMS[tier][g["dom"]]
    for cname in ("value", "values", "inner", "relative"):
        cons = CSETS[cname]
        t = uni("ELMReLU", g["backend"], 20, 0, 6, dom)
        M = onp.shape(t.H(t.x))[1]
        xs = np.array(onp.cos(onp.arange(M) * 1.1 + 0.5) * 0.4)
        y = expression(lambda x, xi: np.dot(t.H(x), xi), cons, [0.4, -0.2][: len(cons)], dom, supports(cons))
        ref = onp.asarray(y(t.x, xs))
        ca = {"constant_arg_nums": [1]} if g["backend"] == "Python" else {}
        for method in ("pinv", "lstsq"):
            case = dict(g, domain=dom, equation="fit " + cname, method=method)
            rec.states += 1
            rec.traces += 1
            rec.transitions += ref.size
            with rec.guard("solve", case):
                xi = LS(np.zeros(M), lambda xi, x, r: y(x, xi) - r, t.x, np.array(ref), method=method, **ca)
                rec.close("solution", onp.asarray(y(t.x, xi)), ref, 1e-8 * (1 + onp.abs(ref).max()), case)
    rec.sample(case)


def nest(g, dim, per, u, dom):
    """Recursive multivariate constrained expression: variable by variable, projecting onto the constraints of u.
    per[k]: list of ("p", order, end) for variable k; u: exact function of (x1..xd) built with jax"""
    import jax.numpy as np
    from tfc.utils import egrad
    y = g
    for k in range(dim):
        cons = per[k]
        if not cons:
            continue
        exps = supports(cons)
        S = onp.array([[apply_poly(c, dom[k], e) for e in exps] for c in cons])
        al = onp.linalg.inv(S)

        def wrap(y, k=k, cons=cons, exps=exps, al=al):
            def D(f, o):
                for _ in range(o):
                    f = egrad(f, k)
                return f

            ys = [D(y, c[1]) for c in cons]
            us = [D(lambda *a: u(*a[:-1]), c[1]) for c in cons]

            def new(*a):
                x, xi = a[:-1], a[-1]
                out = y(*x, xi)
                for j, c in enumerate(cons):
                    q = list(x)
                    q[k] = at(dom[k], c[2]) * np.ones_like(x[k])
                    phi = sum(al[i, j] * x[k] ** exps[i] for i in range(len(cons)))
                    out = out + phi * (us[j](*q, xi) - ys[j](*q, xi))
                return out

            return new

        y = wrap(y)
    return y


def mult(basis, backend, dim, n, nC, deg, dom):
    from tfc import mtfc
    t = mtfc([n] * dim, nC, deg, dim=dim, basis=basis, x0=[d[0] for d in dom], xf=[d[1] for d in dom], backend=backend)
    if basis in ELM:
        fixed_weights(t.basisClass, deg + 1, dim)
    return t


def udef(dim):
    def u(*x):
        v = 0.25 + 0.5 * x[0] - 0.3 * x[0] * x[1] + 0.2 * x[1] ** 2 + 0.1 * x[0] ** 2 * x[1]
        if dim == 3:
            v = v + 0.3 * x[2] * x[0] - 0.1 * x[2] ** 2
        return v
    return u


def do_multi(g, rec, tier):
    import jax
    import jax.numpy as np
    from tfc.utils import egrad
    names = ["none", "value", "values", "ivp", "mixed"]
    for dim in (2, 3):
        dom = [(0.0, 1.0), (-1.0, 1.5), (2.0, 2.5)][:dim]
        deg = 3 if dim == 2 else 2
        combos = list(itertools.product(names, repeat=dim))
        if dim == 3:
            combos = [("value", "values", "ivp"), ("values", "none", "value"), ("mixed", "values", "values")] if tier == "quick" else combos[::4]
        elif tier == "quick":
            combos = [c for i, c in enumerate(combos) if i and (i % 3 == 0 or c == ("values", "values"))]
        for combo in combos:
            per = [CSETS[c] for c in combo]
            if not any(per):
                continue
            if g["basis"] in ELM:
                nC = -1
            else:
                nC = [len(p) if p and g["basis"] != "FS" else -1 if not p else 1 for p in per]
                nC = [min(v, deg) for v in nC]
            t = mult(g["basis"], g["backend"], dim, 4, nC, deg, dom)
            u = udef(dim)
            gf = lambda *a: np.dot(t.H(*a[:-1]), a[-1])
            y = nest(gf, dim, per, u, dom)
            M = int(t.basisClass.numBasisFunc)
            vecs = [onp.zeros(M)] + [onp.eye(M)[k] for k in range(M)] + [onp.cos(onp.arange(M) * 1.3) * 3]
            big = 1 + max(float(onp.abs(f(*t.x)).max()) for f in [t.H, t.Hx, t.Hy, t.Hxy])
            for vi, v in enumerate(vecs):
                if tier == "quick" and vi not in (0, 1, len(vecs) - 1) and vi % 4:
                    continue
                xi = np.array(v)
                for k in range(dim):
                    for c in per[k]:
                        fy, fu = y, (lambda *a: u(*a[:-1]))
                        for _ in range(c[1]):
                            fy, fu = egrad(fy, k), egrad(fu, k)
                        q = [np.array(p) for p in t.x]
                        q[k] = at(dom[k], c[2]) * np.ones_like(q[k])
                        for jit in (False, True):
                            if jit and (g["backend"] == "Python" or (tier == "quick" and vi != len(vecs) - 1)):
                                continue
                            case = dict(g, dim=dim, constraints=combo, nC=str(nC), xi=v.tolist(), variable=k, constraint=c, jit=jit)
                            rec.now(str(case))
                            rec.states += 1
                            rec.traces += 1
                            with rec.guard("expression", case):
                                got = (jax.jit(fy) if jit else fy)(*q, xi)
                                ref = fu(*q, xi)
                                rec.transitions += onp.size(ref)
                                rec.close("constraint", got, ref, 1e-9 * big * 4, case)
                if rec.full:
                    return
        jax.clear_caches()
    rec.sample(case)


def do_pde(g, rec, tier):
    import jax
    import jax.numpy as np
    from tfc.utils import egrad, LS, NLLS
    dom = [(0.0, 1.0), (-1.0, 1.5)]
    u = udef(2)
    us = lambda x, y, xi: u(x, y)
    if g["basis"] == "ELMReLU":
        eqs = {"fit": (["values", "value"], lambda f: (lambda x, y, xi: f(x, y, xi)))}
    else:
        eqs = {
            "poisson": (["values", "values"], lambda f: (lambda x, y, xi: egrad(egrad(f, 0), 0)(x, y, xi) + egrad(egrad(f, 1), 1)(x, y, xi))),
            "heat": (["values", "value"], lambda f: (lambda x, y, xi: egrad(f, 1)(x, y, xi) - 0.1 * egrad(egrad(f, 0), 0)(x, y, xi))),
            "nonlinear": (["value", "values"], lambda f: (lambda x, y, xi: egrad(f, 0)(x, y, xi) + 0.05 * f(x, y, xi) ** 2 - 0.2 * egrad(egrad(f, 1), 1)(x, y, xi))),
        }
        if tier != "quick":
            eqs["wave"] = (["values", "ivp"], lambda f: (lambda x, y, xi: egrad(egrad(f, 1), 1)(x, y, xi) - 0.5 * egrad(egrad(f, 0), 0)(x, y, xi)))
    for name, (combo, op) in eqs.items():
        per = [CSETS[c] for c in combo]
        elm = g["basis"] in ELM
        nC = -1 if elm else [1, 1] if g["basis"] == "FS" else [len(p) for p in per]
        t = mult(g["basis"], g["backend"], 2, 7, nC, 4 if not elm else 7, dom)
        M = int(t.basisClass.numBasisFunc)
        y = nest(lambda *a: np.dot(t.H(*a[:-1]), a[-1]), 2, per, u, dom)
        if g["basis"] in ("CP", "LeP"):
            rhs = op(us)(*t.x, None)
            ref = onp.asarray(u(*t.x))
        else:
            xs = np.array(onp.cos(onp.arange(M) * 1.1 + 0.5) * 0.4)
            rhs = op(y)(*t.x, xs)
            ref = onp.asarray(y(*t.x, xs))
        Ly = op(y)
        res = lambda xi, x, yy: Ly(x, yy, xi) - rhs
        for method in ("pinv", "lstsq"):
            if method == "lstsq" and tier == "quick" and name != "heat":
                continue
            case = dict(g, equation=name, method=method, nC=str(nC))
            rec.now(str(case))
            rec.states += 1
            rec.traces += 1
            rec.transitions += ref.size
            with rec.guard("solve", case):
                z = np.zeros(M)
                xi = NLLS(z, res, *t.x, method=method, maxIter=20, tol=1e-12)[0] if name == "nonlinear" else LS(z, res, *t.x, method=method)
                rec.close("solution", onp.asarray(y(*t.x, xi)), ref, (1e-8 if g["basis"] in ("CP", "LeP") else 1e-4) * (1 + onp.abs(ref).max()), case)
            if rec.full:
                return
    rec.sample(case)


def do_high(g, rec, tier):
    """many functions: ill conditioned systems, solutions with the highest degrees"""
    import jax
    import jax.numpy as np
    from tfc.utils import LS, NLLS, egrad

    basis = g["basis"]
    for dom, deg, cname in itertools.product([(-1.0, 3.0), (0.0, 0.5)], (30, 60), ("values", "ivp", "mixed", "four")):
        cons, n = CSETS[cname], len(CSETS[cname])
        if tier == "quick" and ((deg == 60) != (dom[0] == 0.0) or (g["backend"] == "Python" and cname == "four")):
            continue
        t = uni(basis, g["backend"], deg + 20, n if basis != "FS" else 1, deg, dom)
        gfun = lambda x, xi: np.dot(t.H(x), xi)
        M = onp.shape(t.H(t.x))[1]
        if basis != "FS":
            P = onp.polynomial.Chebyshev([0.0] * 3 + [0.4] + [0.0] * 23 + [1.0], domain=list(dom))
            sol = [P.deriv(k) if k else P for k in range(3)]
        else:
            L = dom[1] - dom[0]
            w = 2 * onp.pi / L * 3
            sol = [lambda x: onp.sin(w * (x - dom[0])) , lambda x: w * onp.cos(w * (x - dom[0])), lambda x: -w * w * onp.sin(w * (x - dom[0]))]
        kap = [float(sol[c[1]](at(dom, c[2]))) for c in cons]
        y = expression(gfun, cons, kap, dom, supports(cons))
        d2 = egrad(egrad(y))
        f = np.array(sol[2](onp.asarray(t.x)) + sol[0](onp.asarray(t.x)))
        res = lambda xi, x, f: d2(x, xi) + y(x, xi) - f
        py = g["backend"] == "Python"
        ref = sol[0](onp.asarray(t.x))
        for method in ("pinv", "lstsq"):
            case = dict(g, domain=dom, deg=deg, constraints=cname, method=method)
            rec.now(str(case))
            rec.states += 1
            rec.traces += 1
            with rec.guard("solve", case):
                xi = LS(np.zeros(M), res, t.x, f, method=method, **({"constant_arg_nums": [1]} if py else {}))
                rec.transitions += M
                rec.close("solution", onp.asarray(y(t.x, xi)), ref, 1e-8 * (1 + onp.abs(ref).max()), case)
        for xv in (onp.zeros(M), onp.eye(M)[-1], onp.cos(1.3 * onp.arange(M))):
            case = dict(g, domain=dom, deg=deg, constraints=cname, xi=xv.tolist()[:4])
            with rec.guard("constraint", case):
                size = max(onp.abs(onp.asarray(h(t.x, np.array(xv)))).max() for h in ders(gfun, max(c[1] for c in cons)))
                check_constraints(rec, y, t.H, cons, kap, dom, np.array(xv), case, not py, 100 * (1 + size + max(map(abs, kap))))
        if rec.full:
            return
    if basis == "FS" or g["backend"] == "Python":
        return rec.sample(case)
    dom = [(0.0, 1.0), (-1.0, 1.5)]
    c = onp.polynomial.Chebyshev
    A, B = c([0.2, 0.0, 0.0, 0.0, 0.0, 1.0], domain=[0.0, 1.0]), c([0.0, 0.3, 0.0, 0.0, 0.0, 0.0, 1.0], domain=[-1.0, 1.5])
    pa, pb = A.convert(kind=onp.polynomial.Polynomial, domain=[-1, 1], window=[-1, 1]).coef, B.convert(kind=onp.polynomial.Polynomial, domain=[-1, 1], window=[-1, 1]).coef
    u = lambda x, y: np.polyval(np.array(pa[::-1]), x) * np.polyval(np.array(pb[::-1]), y)
    t = mult(basis, "C++", 2, 16, [2, 2], 12, dom)
    M = int(t.basisClass.numBasisFunc)
    y = nest(lambda *a: np.dot(t.H(*a[:-1]), a[-1]), 2, [CSETS["values"]] * 2, u, dom)
    lap = lambda f: (lambda x, yy, xi: egrad(egrad(f, 0), 0)(x, yy, xi) + egrad(egrad(f, 1), 1)(x, yy, xi))
    rhs = lap(lambda x, yy, xi: u(x, yy))(*t.x, None)
    for method in ("pinv", "lstsq"):
        case = dict(g, equation="poisson", deg=12, method=method)
        rec.now(str(case))
        rec.states += 1
        rec.traces += 1
        with rec.guard("solve", case):
            xi = LS(np.zeros(M), lambda xi, x, yy: lap(y)(x, yy, xi) - rhs, *t.x, method=method)
            ref = onp.asarray(u(*t.x))
            rec.transitions += ref.size
            rec.close("solution", onp.asarray(y(*t.x, xi)), ref, 1e-8 * (1 + onp.abs(ref).max()), case)
    rec.sample(case)


def do_complex(g, rec, tier):
    """complex equations with the Python backend and holomorphic least squares"""
    import jax.numpy as np
    from tfc.utils import LS, NLLS
    for basis in ("CP", "LeP", "FS"):
        for dom in DOMS[tier]:
            t = uni(basis, "Python", 14, 1, 8, dom)
            x = t.x + 0.0j
            M = 8
            xs = np.array(onp.exp(1j * onp.arange(M) * 1.1) * 0.4)
            y = expression(lambda x, xi: np.dot(t.H(x), xi), CSETS["value"], [0.5 - 0.25j], dom, [0])
            c = t.c
            # derivatives from dH: egrad of complex points is not holomorphic aware
            dyf = lambda x, xi: np.dot(t.dH(x), xi)
            for api in ("LS", "NLLS"):
                for method in ("pinv", "lstsq"):
                    for a in (1j, 2.0 - 1j):
                        nonlin = (lambda v: v) if api == "LS" else (lambda v: v + 0.02 * v * v)
                        op = lambda xi, x: dyf(x, xi) - a * nonlin(y(x, xi))
                        rhs = op(xs, x)
                        res = lambda xi, x: op(xi, x) - rhs
                        case = {"basis": basis, "domain": dom, "api": api, "method": method, "a": str(a)}
                        rec.now(str(case))
                        rec.states += 1
                        rec.traces += 1
                        rec.transitions += 14
                        with rec.guard("complex", case):
                            z = np.zeros(M) + 0.0j
                            if api == "LS":
                                xi = LS(z, res, x, method=method, holomorphic=True, constant_arg_nums=[1])
                            else:
                                xi = NLLS(z, res, x, method=method, holomorphic=True, constant_arg_nums=[1], tol=1e-12)[0]
                            ref = onp.asarray(y(x, xs))
                            rec.close("solution", onp.asarray(y(x, xi)), ref, 1e-8 * (1 + onp.abs(ref).max()), case)
                    if rec.full:
                        return
    rec.sample(case)


def do_system(g, rec, tier):
    """two coupled equations, unknowns in dictionaries"""
    import jax
    import jax.numpy as np
    from tfc.utils import LS, LsClass, NLLS, NllsClass, TFCDict, TFCDictRobust
    for dom in DOMS[tier][: 1 if tier == "quick" else None]:
        for ba, bb in (("CP", "LeP"), ("LeP", "ELMTanh"), ("FS", "CP")):
            ta, tb = uni(ba, "C++", 14, 1, 7, dom), uni(bb, "C++", 14, 1, 5, dom)
            Ma, Mb = onp.shape(ta.H(ta.x))[1], onp.shape(tb.H(ta.x))[1]
            ya = expression(lambda x, xi: np.dot(ta.H(x), xi), CSETS["value"], [0.3], dom, [0])
            yb = expression(lambda x, xi: np.dot(tb.H(x), xi), CSETS["value"], [-0.6], dom, [0])
            da, db = ders(ya, 1)[1], ders(yb, 1)[1]
            x = ta.x
            xs = (np.array(onp.cos(onp.arange(Ma))) * 0.3, np.array(onp.sin(onp.arange(Mb) + 1.0)) * 0.3)
            for cls in (TFCDict, TFCDictRobust):
                for nl in (False, True):
                    def op(xi, x):
                        a, b = ya(x, xi["z"]), yb(x, xi["a"])
                        q = 0.03 * a * b if nl else 0.0
                        return np.hstack([da(x, xi["z"]) + a - 0.5 * b + q, db(x, xi["a"]) + 0.4 * a + b - q])
                    exact = cls([("z", xs[0]), ("a", xs[1])])
                    rhs = op(exact, x)
                    res = lambda xi, x: op(xi, x) - rhs
                    z = lambda: cls([("z", np.zeros(Ma)), ("a", np.zeros(Mb))])
                    for method in ("pinv", "lstsq"):
                        runs = {"NLLS": lambda: NLLS(z(), res, x, method=method, tol=1e-12)[0], "NllsClass": lambda: NllsClass(z(), res, method=method, tol=1e-12).run(z(), x)[0]} if nl else \
                            {"LS": lambda: LS(z(), res, x, method=method), "LsClass": lambda: LsClass(z(), res, method=method).run(z(), x)}
                        for api, go in runs.items():
                            case = {"bases": (ba, bb), "domain": dom, "type": cls.__name__, "api": api, "method": method}
                            rec.now(str(case))
                            rec.states += 1
                            rec.traces += 1
                            rec.transitions += 28
                            with rec.guard("system", case):
                                xi = go()
                                for k, y, s in (("z", ya, xs[0]), ("a", yb, xs[1])):
                                    ref = onp.asarray(y(x, s))
                                    rec.close("solution", onp.asarray(y(x, xi[k])), ref, 1e-8 * (1 + onp.abs(ref).max()), case)
                        if rec.full:
                            return
        jax.clear_caches()
    rec.sample(case)
