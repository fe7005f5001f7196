"""P01: constrained expressions satisfy their constraints for every free function."""
import itertools

import sympy as sp

from checks import ceops as co
from checks.ceops import X, Y, Z, R

NO_TFC = False
ASSUMPTIONS = ["Free functions are covered symbolically (the free function stays an undefined function in checkCe) and by polynomials with symbolic coefficients and an exponential.",
               "Nested expressions use operators that act on one variable each, with kappas taken from a common function (compatible constraints)."]
g, h = sp.Function("g"), sp.Function("h")
ONE = ["v0", "v1", "vm", "v3", "vpi", "d0", "d2", "dd1", "ddd0", "i01", "im2", "w02", "per", "rob", "mix", "neg"]
SYM = ["va", "vb", "da", "ddb", "ia", "pa", "ra", "v0", "d2"]
SUP = {"1": sp.Integer(1), "x": X, "x2": X**2, "x3": X**3, "half": (1 - 2 * X) / 2, "sin": sp.sin(X), "cos": sp.cos(X), "exp": sp.exp(2 * X)}
k1, k2 = sp.symbols("k1 k2")
KAP = [sp.Integer(0), sp.Integer(2), R(-3, 2), sp.pi, k1, sp.cos(1) * k2, sp.re(2)]
F2 = 2 + X - 3 * Y + X * Y**2 - X**2 * Y + 4 * X**3 * Y**2  # source of compatible kappas
F3 = 1 + X * Y * Z + X**2 - Y**2 * Z - Z**2
PAIRS = [("1", "x"), ("x", "1"), ("1", "x2"), ("x2", "x"), ("x3", "x"), ("exp", "1"), ("half", "x3")]
SMALL = ["v0", "v1", "d0", "dd1", "i01", "per", "rob"]


def bounds(tier):
    t = tier != "quick"
    return {"one constraint": "16 operators (values, derivatives to order 3, integrals, periodic, Robin, mixed) x 8 supports x 7 kappas x 4 free function forms",
            "two constraints": "all ordered pairs of operators x %s ordered pairs of supports" % ("all 56" if t else "7"), "three constraints": "all triples of %s operators x support triples" % (len(ONE) if t else len(SMALL)),
            "four constraints": "all 4-subsets of 7 operators, supports 1,x,x2,x3" + (" and orders" if t else ""),
            "symbolic points": "all ordered pairs of 9 operators at points that stay symbols",
            "more": "all 5-subsets and the 6, 7 and 8 constraint sets of these operators, powers of x",
            "nested": "2-D: all operator pairs in x (1 or 2 constraints) x in y (1 constraint), both nesting orders; 3-D: all triples of 4 operators", "checkCe": "stored expression perturbed by 8 functions"}


def groups(tier):
    gs = [{"kind": "n1", "op": o} for o in ONE]
    gs += [{"kind": "n2", "op": o} for o in ONE]
    gs += [{"kind": "sym", "op": o} for o in SYM]
    ops3 = ONE if tier != "quick" else SMALL
    gs += [{"kind": "n3", "ops": [a, b]} for a, b in itertools.combinations(ops3, 2)]
    gs += [{"kind": "n4", "ops": list(c)} for c in itertools.combinations(SMALL, 4)]
    gs += [{"kind": "n5", "ops": list(c)} for c in itertools.combinations(SMALL, 5)] + [{"kind": "n5", "ops": SMALL[:6]}, {"kind": "n5", "ops": SMALL}, {"kind": "n5", "ops": ["v0", "d0", "v1", "vm", "v3", "d2", "ddd0", "i01"]}]
    gs += [{"kind": "m2", "x": list(c)} for c in [(o,) for o in SMALL] + list(itertools.combinations(SMALL, 2))]
    gs += [{"kind": "m3", "x": o} for o in SMALL[:4]]
    return gs


def weight(gr):
    return {"n2": 8, "sym": 8, "m2": 6, "n3": 4, "n4": 3, "n5": 6, "m3": 2, "n1": 2}[gr["kind"]]


def subst(e, fun, args, f):
    """Replace the free function by an explicit one, derivatives and integrals carried out."""
    return e.replace(fun, sp.Lambda(args, f)).doit()


def smatrix(ops, sup, var="x"):
    return sp.Matrix([[co.model(o, var, s) for s in sup] for o in ops])


def invertible(M):
    d = M.det()
    return sp.simplify(d) != 0 if d.free_symbols else abs(sp.N(d, 40)) > sp.Float(10) ** -30


def check(rec, CeSolver, ops, kap, sup, case, full, form=0, perturb=False, tuples=False):
    rec.now(str(case))
    rec.states += 1
    C = [co.user(o, "x") for o in ops]
    seq = tuple if tuples else list
    free = [g(X), g(X) + X**2 * sp.sin(X), h(X) * 3 - X, g(X) * X][form]
    with rec.guard("solve", case):
        cs = CeSolver(seq(C), seq(kap), seq(sup), free)
        ce = cs.ce
        # support matrix, its inverse and the switching functions
        M = smatrix(ops, sup)
        n = len(ops)
        if full:
            S, A, phi = cs.S, cs.alpha, cs.phi
            for i in range(n):
                for j in range(n):
                    if not co.is_zero(S[i, j] - M[i, j]):
                        rec.fail("S", f"S[{i},{j}] = {S[i, j]}, C_i(s_j) = {M[i, j]}", case)
                    if not co.is_zero(sum(M[i, k] * A[k, j] for k in range(n)) - (1 if i == j else 0)):
                        rec.fail("alpha", f"(S alpha)[{i},{j}] is not {int(i == j)}: alpha={A}", case)
                    if not co.is_zero(co.model(ops[i], "x", phi[j]) - (1 if i == j else 0)):
                        rec.fail("phi", f"C_{i}(phi_{j}) is not {int(i == j)}: phi={phi}", case)
                    rec.transitions += 3
        # the constraints, for every polynomial free function at once and for an exponential
        for f in [co.generic([X], 4)] + ([sp.exp(X) + X**5] if full else []):
            e = ce
            for fn in (g, h):
                e = subst(e, fn, X, f)
            for i, o in enumerate(ops):
                rec.transitions += 1
                rec.traces += 1
                d = co.model(o, "x", e) - kap[i]
                if not co.is_zero(d):
                    rec.fail("constraint", f"constraint {i} ({o}) misses its kappa by {sp.simplify(d)}; ce = {ce}; free function {f}", case)
            # what is added to the free function is in the span of the supports
            fr = free
            for fn in (g, h):
                fr = subst(fr, fn, X, f)
            al = [kap[i] - co.model(o, "x", fr) for i, o in enumerate(ops)]
            want = fr + sum(sup[r] * M.inv()[r, c] * al[c] for r in range(n) for c in range(n))
            if not co.is_zero(e - want):
                rec.fail("projection", f"ce = {ce} differs from the projection of the free function", case)
        if full:
            # projection: a free function that meets the constraints comes back unchanged
            again = CeSolver(seq(C), seq(kap), seq(sup), ce).ce
            e2 = again
            for fn in (g, h):
                e2 = subst(e2, fn, X, co.generic([X], 3))
            e1 = ce
            for fn in (g, h):
                e1 = subst(e1, fn, X, co.generic([X], 3))
            rec.transitions += 1
            if not co.is_zero(e2 - e1):
                rec.fail("idempotent", f"{again} is not {ce}", case)
            if cs.checkCe() is not True:
                rec.fail("checkCe", f"False for the solved expression {ce}", case)
            rec.transitions += 1
        if perturb:
            for d in (sp.Integer(1), X, X * (X - 1), X**2 * (X - 1) ** 3 * (X - 2), sp.sin(sp.pi * X), X**3, g(0), g(X)):
                ok = True
                probes = [d] if not d.has(g) else [subst(d, g, X, f) for f in (X**2 + 1, X - 5, sp.Integer(1), X**3)]
                for o in ops:
                    ok = ok and all(co.is_zero(co.model(o, "x", p)) for p in probes)
                cs.ce = ce + d
                got = cs.checkCe()
                rec.transitions += 1
                if got is not ok:
                    rec.fail("checkCe", f"checkCe() is {got} for ce = {ce + d}, the truth is {ok}", case)
            cs.ce = ce


def run(gr, rec, tier):
    from tfc.utils import CeSolver
    from tfc.utils.TFCUtils import TFCPrint

    thorough = tier != "quick"
    TFCPrint.Warning = staticmethod(lambda *a, **k: None)  # checkCe prints what differs
    kind = gr["kind"]
    if kind == "n1":
        for (sn, s), (ki, k), f in itertools.product(SUP.items(), enumerate(KAP), range(4)):
            if not invertible(smatrix([gr["op"]], [s])):
                continue
            check(rec, CeSolver, [gr["op"]], [k], [s], {"ops": gr["op"], "support": sn, "kappa": str(k), "free": f}, full=(ki + f) % 5 == 0 or thorough, form=f,
                  perturb=sn in ("1", "x") and f == 0 and ki in (0, 4), tuples=(ki + f) % 2 == 1)
            if rec.full:
                return
    elif kind == "n2":
        for oi, o2 in enumerate(ONE):
            if o2 == gr["op"]:
                continue
            ops = [gr["op"], o2]
            pairs = list(itertools.permutations(SUP, 2)) if thorough else PAIRS
            for si, (n1, n2) in enumerate(pairs):
                s1, s2 = SUP[n1], SUP[n2]
                if not invertible(smatrix(ops, [s1, s2])):
                    continue
                kap = [KAP[(oi + si) % len(KAP)], KAP[(2 * oi + si + 3) % len(KAP)]]
                check(rec, CeSolver, ops, kap, [s1, s2], {"ops": ops, "supports": [n1, n2], "kappa": str(kap)}, full=thorough or (oi + si) % 9 == 0, perturb=(n1, n2) == ("1", "x"), tuples=si % 2 == 1)
                if rec.full:
                    return
    elif kind == "sym":
        for oi, o2 in enumerate([None] + SYM):
            if o2 == gr["op"]:
                continue
            ops = [gr["op"]] + ([o2] if o2 else [])
            for si, names in enumerate([("1", "x"), ("x", "x2"), ("x2", "1"), ("x", "x3")] if o2 else [(n,) for n in ("1", "x", "x2", "exp")]):
                sup = [SUP[n] for n in names]
                if not invertible(smatrix(ops, sup)):
                    continue
                kap = [KAP[(oi + si + 2 * j) % len(KAP)] for j in range(len(ops))]
                check(rec, CeSolver, ops, kap, sup, {"ops": ops, "supports": names, "kappa": str(kap)}, full=thorough or si == 0, tuples=si % 2 == 1)
                if rec.full:
                    return
    elif kind == "n3":
        third = [o for o in (ONE if thorough else SMALL) if o not in gr["ops"]]
        for oi, o3 in enumerate(third):
            for pos in range(3):
                ops = list(gr["ops"])
                ops.insert(pos, o3)
                for si, names in enumerate([("1", "x", "x2"), ("x2", "1", "x"), ("x", "exp", "1"), ("x3", "x", "1")]):
                    if not thorough and (si + pos + oi) % 2:
                        continue
                    sup = [SUP[n] for n in names]
                    if not invertible(smatrix(ops, sup)):
                        continue
                    kap = [KAP[(oi + si + j) % len(KAP)] for j in range(3)]
                    check(rec, CeSolver, ops, kap, sup, {"ops": ops, "supports": names, "kappa": str(kap)}, full=pos == 0 and si == 0)
                if rec.full:
                    return
    elif kind == "n4":
        for oi, ops in enumerate(itertools.permutations(gr["ops"]) if thorough else [gr["ops"], gr["ops"][::-1]]):
            sup = [SUP[n] for n in ("1", "x", "x2", "x3")]
            if not invertible(smatrix(ops, sup)):
                continue
            kap = [KAP[(oi + j) % len(KAP)] for j in range(4)]
            check(rec, CeSolver, list(ops), kap, sup, {"ops": ops, "kappa": str(kap)}, full=oi == 0)
    elif kind == "n5":
        n = len(gr["ops"])
        sup = [X**k for k in range(n)]
        for oi, ops in enumerate([gr["ops"], gr["ops"][::-1]] if thorough or n > 5 else [gr["ops"]]):
            k = 0
            while not invertible(smatrix(ops, sup)):  # replace powers until the operators are independent on them
                k += 1
                sup = [X**j for j in range(n - 1)] + [X ** (n - 1 + k)]
                if k > 3:
                    break
            else:
                kap = [KAP[(oi + j) % len(KAP)] for j in range(n)]
                check(rec, CeSolver, list(ops), kap, sup, {"ops": ops, "kappa": str(kap)}, full=oi == 0)
    elif kind == "m2":
        opsx = gr["x"]
        mono = [sp.Integer(1), X, X**2, X**3]
        sx = next(list(c) for c in itertools.permutations(mono, len(opsx)) if invertible(smatrix(opsx, c)))
        for oy in SMALL:
            sy = next(s for s in (sp.Integer(1), Y, Y**2) if not co.is_zero(co.model(oy, "y", s)))
            for order in ("xy", "yx"):
                case = {"x": opsx, "y": oy, "order": order}
                rec.now(str(case))
                rec.states += 1
                with rec.guard("nested", case):
                    kx = [sp.expand(co.model(o, "x", F2)) for o in opsx]
                    ky = [sp.expand(co.model(oy, "y", F2))]
                    Cx, Cy = [co.user(o, "x") for o in opsx], [co.user(oy, "y")]
                    if order == "xy":
                        inner, outer = CeSolver(Cx, kx, sx, g(X, Y)), CeSolver(Cy, ky, [sy], h(X, Y))
                    else:
                        inner, outer = CeSolver(Cy, ky, [sy], g(X, Y)), CeSolver(Cx, kx, sx, h(X, Y))
                    outer.ce  # solved for a placeholder first, as the documentation does
                    outer.g = inner.ce
                    full = outer.ce
                    e = subst(full, g, (X, Y), co.generic([X, Y], 3))
                    for i, o in enumerate(opsx):
                        d = co.model(o, "x", e) - kx[i]
                        rec.transitions += 1
                        if not co.is_zero(d):
                            rec.fail("nested", f"x constraint {o} is off by {sp.simplify(d)} in {full}", case)
                    d = co.model(oy, "y", e) - ky[0]
                    rec.transitions += 1
                    rec.traces += 1
                    if not co.is_zero(d):
                        rec.fail("nested", f"y constraint {oy} is off by {sp.simplify(d)} in {full}", case)
                    if len(opsx) == 1 and not ({"i01", "per", "rob"} & {opsx[0], oy}):
                        inner.ce = full
                        if inner.checkCe() is not True or outer.checkCe() is not True:
                            rec.fail("checkCe", f"False for nested expression {full}", case)
                        rec.transitions += 2
                if rec.full:
                    return
    else:
        for oy, oz in itertools.product(SMALL[:4], repeat=2):
            case = {"ops": [gr["x"], oy, oz]}
            rec.states += 1
            with rec.guard("nested", case):
                cur = g(X, Y, Z)
                todo = []
                for v, o in (("x", gr["x"]), ("y", oy), ("z", oz)):
                    s = next(s for s in (sp.Integer(1), co.VARS[v], co.VARS[v] ** 2) if not co.is_zero(co.model(o, v, s)))
                    k = sp.expand(co.model(o, v, F3))
                    cur = CeSolver([co.user(o, v)], [k], [s], cur).ce
                    todo.append((o, v, k))
                e = subst(cur, g, (X, Y, Z), co.generic([X, Y, Z], 2))
                for o, v, k in todo:
                    rec.transitions += 1
                    if not co.is_zero(co.model(o, v, e) - k):
                        rec.fail("nested", f"{v} constraint {o} not met by {cur}", case)
            if rec.full:
                return
    rec.sample(gr)
