"""Constraint operators as data, applied by the user's lambdas (what CeSolver gets) and, independently, by the
reference model to explicit functions.  An operator is a list of [coef, kind, a, b] acting on one variable:
val a, der a (order b), int from a to b, wint (weighted with the variable)."""
import functools

import sympy as sp

X, Y, Z = sp.symbols("x y z")
VARS = {"x": X, "y": Y, "z": Z}
R = sp.Rational
A, B = sp.symbols("a b")

OPS = {
    "v0": [(1, "val", R(0), None)], "v1": [(1, "val", R(1), None)], "vm": [(1, "val", R(-1, 2), None)],
    "v3": [(1, "val", R(3), None)], "vpi": [(1, "val", sp.pi, None)],
    "d0": [(1, "der", R(0), 1)], "d2": [(1, "der", R(2), 1)], "dd1": [(1, "der", R(1), 2)], "ddd0": [(1, "der", R(0), 3)],
    "i01": [(1, "int", R(0), R(1))], "im2": [(1, "int", R(-1), R(2))], "w02": [(1, "wint", R(0), R(2))],
    "per": [(1, "val", R(0), None), (-1, "val", R(2), None)],
    "rob": [(1, "val", R(1), None), (2, "der", R(1), 1)],
    "mix": [(3, "der", R(0), 2), (-1, "val", R(3), None), (1, "int", R(0), R(1))],
    "neg": [(-2, "val", R(1), None)],
    # at points that stay symbols
    "va": [(1, "val", A, None)], "vb": [(1, "val", B, None)], "da": [(1, "der", A, 1)], "ddb": [(1, "der", B, 2)],
    "ia": [(1, "int", A, B)], "pa": [(1, "val", A, None), (-1, "val", B, None)], "ra": [(2, "val", A, None), (3, "der", B, 1)],
}


# sympy identifies Subs(f(x, y), (x, y), (1, 1)) with Subs(f(y, x), ...): points differ between the variables
SHIFT = {"x": R(0), "y": R(1, 3), "z": R(2, 7)}


def terms(op, var):
    for c, k, a, b in OPS[op]:
        yield c, k, a + SHIFT[var], (b + SHIFT[var] if k in ("int", "wint") else b)


def user(op, var):
    """The lambda a user would write."""
    v = VARS[var]

    def one(u, kind, a, b):
        if kind == "val":
            return u.subs(v, a)
        if kind == "der":
            return sp.diff(u, v, b).subs(v, a)
        if kind == "int":
            return lin_int(u, v, a, b)
        return lin_int(v * u, v, a, b)

    def C(u):
        return sp.Add(*[sp.Mul(sp.Integer(c), one(u, k, a, b)) for c, k, a, b in terms(op, var)])

    return C


def model(op, var, f):
    """The same operator on an explicit function, by term: coefficient of elementary functions of the variable."""
    v = VARS[var]
    tot = sp.Integer(0)
    for c, k, a, b in terms(op, var):
        if k == "val":
            t = f.xreplace({v: a})
        elif k == "der":
            t = f
            for _ in range(b):
                t = t.diff(v)
            t = t.xreplace({v: a})
        else:
            F = antider(f if k == "int" else v * f, v)
            t = F.xreplace({v: b}) - F.xreplace({v: a})
        tot += c * t
    return tot


def lin_int(u, v, a, b):
    """Definite integral, term by term (what a user writes who wants sympy to be quick)."""
    out = sp.Integer(0)
    for t in sp.Add.make_args(sp.expand(u)):
        c, d = t.as_independent(v, as_Add=False)
        if d.is_polynomial(v):
            out += c * sum(k * (b ** (e + 1) - a ** (e + 1)) / (e + 1) for (e,), k in sp.Poly(d, v).terms())
        elif d.atoms(sp.core.function.AppliedUndef):
            out += c * sp.Integral(d, (v, a, b))
        else:
            out += c * (elem(d, v).subs(v, b) - elem(d, v).subs(v, a))
    return out


def antider(f, v):
    f = sp.expand(f)
    out = sp.Integer(0)
    for t in sp.Add.make_args(f):
        c, d = t.as_independent(v, as_Add=False)
        n = sp.Poly(d, v) if d.is_polynomial(v) else None
        if n is not None:
            (e,), k = n.terms()[0]
            out += c * k * v ** (e + 1) / (e + 1)
        else:
            out += c * elem(d, v)
    return out


@functools.lru_cache(None)
def elem(d, v):
    return sp.integrate(d, v)


def is_zero(e):
    """Exactly zero: as a polynomial in its symbols, with constant coefficients decided at 60 digits."""
    e = sp.expand(e)
    if e == 0:
        return True
    e = sp.expand(e, func=True, trig=False)
    atoms = sorted(e.free_symbols, key=str)
    funs = sorted([a for a in e.atoms(sp.Function) | {p for p in e.atoms(sp.Pow) if not p.exp.is_Integer} if a.free_symbols], key=str)
    rep = {f: sp.Symbol("_f%d" % i) for i, f in enumerate(funs)}
    p = e.xreplace(rep)
    gens = atoms + list(rep.values())
    if not gens:
        return abs(sp.N(p, 60)) < sp.Float(10) ** -40
    try:
        P = sp.Poly(p, *gens)
    except sp.PolynomialError:
        return sp.simplify(e) == 0
    if all(abs(sp.N(c, 60)) < sp.Float(10) ** -40 for c in P.coeffs()):
        return True
    return bool(sp.simplify(e) == 0) if funs else False


def generic(vars, deg, name="c"):
    """A polynomial with symbolic coefficients: stands for every polynomial of that degree at once."""
    import itertools

    out = sp.Integer(0)
    for e in itertools.product(range(deg + 1), repeat=len(vars)):
        if sum(e) <= deg:
            m = sp.Symbol(name + "".join(map(str, e)))
            for v, k in zip(vars, e):
                m *= v**k
            out += m
    return out
