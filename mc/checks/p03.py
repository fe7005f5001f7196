"""P03: the text of the tfc printer, executed, gives the value of the expression."""
import itertools
import json
import os
import subprocess
import sys

import mpmath
import sympy as sp

ASSUMPTIONS = ["The names np, egrad and the free functions in the printed text are bound to exact stand-ins (differentiation by sympy on known functions, 50 digits); the stand-ins are compared with jax.numpy and tfc's egrad on the expressions whose function arguments are variables.",
               "Differentiated functions have distinct arguments; integrals are not printed as code."]
x, y = sp.symbols("x y")
g, h, f, u1 = sp.Function("g"), sp.Function("h"), sp.Function("f"), sp.Function("u1")
R = sp.Rational
t, s, r = sp.symbols("t s r")
FUN = {"g": ((t,), t**5 + sp.sin(2 * t) + t / 3 + 2), "h": ((t,), t**2 * 2 - sp.cos(t) + 1), "f": ((t, s), t**4 * s**3 + sp.exp(t - 2 * s) + t * s**5 - s * t**2),
       "u1": ((t, s, r), t * r**3 + s**2 * r + sp.cos(t * s) * r**2 + t**2 * s)}
D = sp.Derivative


def atoms():
    a = {
        "x": x, "y": y, "2": sp.Integer(2), "-3/2": R(-3, 2), "1/3": R(1, 3), "pi": sp.pi, "E": sp.E, "sqrt2": sp.sqrt(2), "0.75": sp.Float(0.75),
        "g(x)": g(x), "g(y)": g(y), "f(x,y)": f(x, y), "f(y,x)": f(y, x), "g(0)": g(0), "f(x,2)": f(x, 2), "f(1/3,y)": f(R(1, 3), y), "g(pi)": g(sp.pi),
        "g_x": D(g(x), x), "g_xx": D(g(x), (x, 2)), "g_xxx": D(g(x), (x, 3)), "g_y": D(g(y), y), "f_x": D(f(x, y), x), "f_y": D(f(x, y), y), "f_xy": D(f(x, y), x, y),
        "f_xxy": D(f(x, y), (x, 2), y), "f_xyy": D(f(x, y), x, (y, 2)), "f_yyy": D(f(x, y), (y, 3)), "f_xxyy": D(f(x, y), (x, 2), (y, 2)), "fswap_x": D(f(y, x), x), "fswap_xyy": D(f(y, x), x, (y, 2)),
        "u1_y": D(u1(x, y, g(x)), y), "f(x,2)_x": D(f(x, 2), x), "f(1,y)_yy": D(f(1, y), (y, 2)),
        "g_x(2)": D(g(x), x).subs(x, 2), "g_xx(-1/2)": D(g(x), (x, 2)).subs(x, R(-1, 2)), "f_x(1/3,y)": D(f(x, y), x).subs(x, R(1, 3)), "f_y(x,2)": D(f(x, y), y).subs(y, 2),
        "f_x(x,2)": sp.Subs(D(f(x, y), x), y, 2), "f_xy(0,2)": D(f(x, y), x, y).subs({x: R(1, 4), y: 2}), "f_xxy(1/4,y)": D(f(x, y), (x, 2), y).subs(x, R(1, 4)),
        "g_x(2x)": sp.Subs(D(g(x), x), x, 2 * x), "g_x(x+y)": sp.Subs(D(g(x), x), x, x + y),
        "chain g(2x)": sp.diff(g(2 * x), x), "chain g(x*y)": sp.diff(g(x * y), x, y), "chain g(h)": sp.diff(g(h(x)), x), "chain f(x**2,y)": sp.diff(f(x**2, y), x), "chain f(g,h)": sp.diff(f(g(x), h(y)), y),
        "g(2x)": g(2 * x), "g(h(x))": g(h(x)), "f(g(x),y**2)": f(g(x), y**2), "u1": u1(x, y, f(x, y)), "u1(0)": u1(0, y, f(0, y)), "g(g(x))": g(g(x)),
        "subs sum": sp.Subs(D(g(x), x) * x + y, x, 3), "subs sum2": sp.Subs(D(f(x, y), y) - D(f(x, y), x) * 2, y, x + 1), "subs power": sp.Subs(D(g(x), x), x, 2) ** 2, "subs plain": sp.Subs(g(x) + x**2, x, 3),
        "subs subs": sp.Subs(sp.Subs(D(f(x, y), x, y), x, 2), y, R(1, 3)), "subs sub-sum": sp.Subs(x - D(g(x), x), x, R(5, 2)),
        "sin": sp.sin(x), "cos": sp.cos(sp.pi * y), "tan": sp.tan(x), "exp": sp.exp(2 * x), "log": sp.log(x), "sqrtx": sp.sqrt(x), "1/x": 1 / x, "1/sqrt": 1 / sp.sqrt(y), "x**y": x**y, "x**-2": x**-2, "x**1/3": x ** R(1, 3), "x**1/2y": (x + y) ** R(3, 2),
        "abs": sp.Abs(x - y), "sinh": sp.sinh(x), "cosh": sp.cosh(y), "tanh": sp.tanh(x), "atan": sp.atan(x), "asin": sp.asin(x), "acos": sp.acos(x),
        "sin g": sp.sin(g(x)), "exp f_x": sp.exp(-D(f(x, y), x) / 50), "g(sin)": g(sp.sin(x)), "sqrt g": sp.sqrt(g(x) + 9), "e**2": sp.E**2, "-g": -g(x), "2g-1": 2 * g(x) - 1, "g/h": g(x) / h(x),
    }
    return a


A = atoms()
BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}
SUB = ["x", "-3/2", "pi", "sqrt2", "g(x)", "f(x,2)", "g_x", "f_xy", "g_x(2)", "f_x(1/3,y)", "subs sum", "chain g(2x)", "u1", "sin", "1/x", "x**1/3", "2g-1", "g/h", "f_y(x,2)", "fswap_x"]


def others():
    """What sympy's other printers are asked to print."""
    exprs = {n: a for n, a in A.items() if not a.atoms(sp.core.function.AppliedUndef)}
    exprs.update({"gamma": sp.gamma(x), "ceil": sp.ceiling(x), "floor": sp.floor(x), "sign": sp.sign(x), "atan2": sp.atan2(x, y), "log1p": sp.log(x + 1), "erf": sp.erf(x), "nan": sp.nan, "oo": sp.oo})
    fns = {"pycode": sp.pycode, "str": str, "latex": sp.latex, "srepr": sp.srepr, "ccode": sp.ccode, "lambdarepr": sp.printing.lambdarepr.lambdarepr,
           "NumPy": sp.printing.numpy.NumPyPrinter().doprint, "SciPy": sp.printing.numpy.SciPyPrinter().doprint, "pretty": sp.pretty}
    return exprs, fns


def weight(g):
    return 9 if g["kind"] == "other" else 3 if g["kind"] == "pairs" else 1


def bounds(tier):
    return {"grammar": f"{len(A)} atoms (symbols, constants, functions, mixed derivatives to order 4, substitutions, chain rules, numpy functions), all ordered pairs under + - * /, powers -1, 2, 1/2, -3/2 and nested in free functions",
            "deeper": f"(a op b) op c over {len(SUB) if tier != 'quick' else 10} atoms, all operators", "constrained expressions": "CeSolver output for all pairs of 8 operators, univariate, and nested 2-D"}


def groups(tier):
    gs = [{"kind": "pairs", "a": a} for a in A]
    sub = SUB if tier != "quick" else SUB[1:20:2]
    gs += [{"kind": "triples", "a": a, "sub": sub} for a in sub]
    gs += [{"kind": "ce", "i": i} for i in range(8)]
    gs += [{"kind": "other"}, {"kind": "real"}]
    return gs


class Fun:
    """A known function with exact partial derivatives."""

    cache = {}

    def __init__(self, args, expr):
        self.args, self.expr = args, expr
        k = (args, expr)
        if k not in Fun.cache:
            Fun.cache[k] = sp.lambdify(args, expr, "mpmath")
        self.fn = Fun.cache[k]

    def __call__(self, *a):
        if len(a) != len(self.args):
            raise TypeError(f"{len(a)} arguments for a function of {len(self.args)}")
        return self.fn(*[mpmath.mpf(v) for v in a])


def egrad(fun, j=0):
    return Fun(fun.args, DIFF(fun.expr, fun.args[j]))


_d = {}


def DIFF(e, v):
    if (e, v) not in _d:
        _d[(e, v)] = sp.diff(e, v)
    return _d[(e, v)]


class NP:
    """numpy's names, in 50 digits."""

    pi, e = mpmath.pi, mpmath.e

    def __getattr__(self, name):
        import jax.numpy as jnp

        if not hasattr(jnp, name):
            raise AttributeError(f"numpy has no {name}")
        alias = {"arcsin": "asin", "arccos": "acos", "arctan": "atan", "abs": "fabs", "absolute": "fabs", "power": "power"}
        return getattr(mpmath, alias.get(name, name))


ENV = {"np": NP(), "egrad": egrad}
for _n, (_a, _e) in FUN.items():
    ENV[_n] = Fun(_a, _e)
PTS = [(R(7, 10), R(13, 10)), (R(2, 5), R(3, 4))]
_val = {}


def exact(e, p):
    """Value of the expression by substitution of the known functions."""
    for n in ("u1", "f", "g", "h"):  # outer functions first: derivatives with respect to h(x) are carried out
        e = e.replace(sp.Function(n), sp.Lambda(*FUN[n])).doit()
    return e.subs({x: p[0], y: p[1]}).doit()


def number(v):
    return mpmath.mpmathify(sp.N(v, 40)) if isinstance(v, sp.Basic) else mpmath.mpmathify(v)


def check(rec, pr, e, name, npts=1, val=None):
    rec.states += 1
    case = {"expression": str(e), "how": name}
    with rec.guard("print", case):
        text = pr.doprint(e)
        code = compile(text.strip(), "<printed>", "eval")
        for i, p in enumerate(PTS[:npts]):
            rec.transitions += 1
            rec.traces += 1
            got = eval(code, dict(ENV, x=mpmath.mpf(p[0].p) / p[0].q, y=mpmath.mpf(p[1].p) / p[1].q))
            got = number(got)
            want = number(exact(e, p)) if val is None else val[i]
            if not abs(got - want) <= 1e-11 * (1 + abs(want)):
                rec.fail("value", f"printed {text!r} is {mpmath.nstr(got, 17)}, the expression {e} is {mpmath.nstr(want, 17)} at x={p[0]}, y={p[1]}", case)


def vals(n):
    if n not in _val:
        _val[n] = [number(exact(A[n], p)) for p in PTS]
    return _val[n]


def run(gr, rec, tier):
    from tfc.utils.CeSolver import TfcPrinter
    from tfc.utils import CeSolver

    mpmath.mp.dps = 40
    kind = gr["kind"]
    if kind == "other":
        exprs, fns = others()
        code = "import json, sys; sys.path.insert(0, sys.argv[1]); import checks.p03 as m; e, f = m.others(); print(json.dumps([[n, k, fn(x)] for n, x in e.items() for k, fn in f.items()]))"
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        before = {(n, k): v for n, k, v in json.loads(subprocess.run([sys.executable, "-c", code, here], check=True, stdout=subprocess.PIPE, text=True).stdout)}  # without tfc
        first = TfcPrinter()
        text = {n: first.doprint(e) for n, e in A.items()}
        second = TfcPrinter()
        cs = CeSolver([lambda u: u.subs(x, 0)], [sp.re(2)], [sp.re(1)], g(x))
        stages = [("after doprint", None)] + [("print_type " + p, p) for p in ("tfc", "str", "latex", "tfc", "pretty")]
        hook, out = sys.displayhook, sys.stdout
        for label, p in stages:
            if p:
                with rec.guard("print_type", p):
                    cs.print_type = p
            for (n, k), b in before.items():
                rec.transitions += 1
                now = fns[k](exprs[n])
                if now != b and not (p == "latex" and k in ("str", "pretty")):
                    rec.fail("other printer changed", f"{label}: {k}({n}) was {b!r}, now {now!r}", label)
            rec.states += 1
        for n, e in A.items():
            for pr in (first, second, TfcPrinter()):
                rec.transitions += 1
                if pr.doprint(e) != text[n]:
                    rec.fail("printer state", f"{n}: {pr.doprint(e)!r} after other uses, {text[n]!r} before", n)
        import io

        for p, want in (("tfc", lambda e: text_of(e)), ("str", str)):
            text_of = TfcPrinter().doprint
            cs.print_type = p
            for e in [cs.ce, D(g(x), x), g(x) ** 2 + sp.pi]:
                sys.stdout = buf = io.StringIO()
                try:
                    sys.displayhook(e)
                finally:
                    sys.stdout = out
                rec.transitions += 1
                if buf.getvalue().strip() != want(e):
                    rec.fail("display", f"print_type {p} shows {buf.getvalue()!r} for {e}", p)
        sys.displayhook = hook
        return
    pr = TfcPrinter()
    if kind == "pairs":
        a = A[gr["a"]]
        check(rec, pr, a, gr["a"], npts=2)
        va = vals(gr["a"])
        for nm, w in (("a**2", a**2), ("1/a", 1 / a), ("g(a)", g(a)), ("f(y,a)", f(y, a)), ("sin(a)", sp.sin(a)), ("(a**2+1)**1/2", sp.sqrt(a**2 + 1)), ("(a**2+1)**-3/2", (a**2 + 1) ** R(-3, 2)), ("exp", sp.exp(a / 100)), ("-a", -a), ("2**", 2 ** (a / 10))):
            check(rec, pr, w, f"{nm} with a={gr['a']}")
        for n, b in A.items():
            vb = vals(n)
            for op, fn in BIN.items():
                if op in "+*" and n < gr["a"]:
                    continue
                e = fn(a, b)
                if e in (sp.nan, sp.zoo):
                    continue
                check(rec, pr, e, f"{gr['a']} {op} {n}", val=[fn(va[0], vb[0])])
            if rec.full:
                return
    elif kind == "triples":
        for b, c in itertools.product(gr["sub"], repeat=2):
            for o1, o2 in itertools.product(BIN, repeat=2):
                v1 = BIN[o1](vals(gr["a"])[0], vals(b)[0])
                e1 = BIN[o1](A[gr["a"]], A[b])
                for e, v, nm in ((BIN[o2](e1, A[c]), lambda: BIN[o2](v1, vals(c)[0]), f"({gr['a']}{o1}{b}){o2}{c}"), (BIN[o2](A[c], e1), lambda: BIN[o2](vals(c)[0], v1), f"{c}{o2}({gr['a']}{o1}{b})")):
                    if e.has(sp.nan, sp.zoo) or e1 == 0:
                        continue
                    check(rec, pr, e, nm, val=[v()])
            if rec.full:
                return
    elif kind == "ce":
        from checks import ceops as co

        ops = ["v0", "v1", "vm", "d0", "d2", "dd1", "per", "rob"]
        o1 = ops[gr["i"]]
        kaps = [sp.re(2), sp.pi / 2, sp.sqrt(2), R(-1, 3)]
        for i, o2 in enumerate(ops):
            if o2 == o1:
                continue
            for sup in ([sp.re(1), x], [x, x**2], [sp.cos(x), x**2], [x**2, x**3]):
                if abs(sp.N(sp.Matrix([[co.model(o, "x", v) for v in sup] for o in (o1, o2)]).det(), 30)) < 1e-20:
                    continue
                with rec.guard("ce", [o1, o2]):
                    cs = CeSolver([co.user(o1, "x"), co.user(o2, "x")], [kaps[i % 4], kaps[(i + 1) % 4]], sup, g(x))
                    e = cs.ce
                check(rec, pr, e, f"CeSolver {o1} {o2} {sup}", npts=2)
            with rec.guard("ce2", [o1, o2]):
                so = next(v for v in (sp.Integer(1), x, x**2) if not co.is_zero(co.model(o1, "x", v)))
                sy = next(v for v in (sp.Integer(1), y, y**2) if not co.is_zero(co.model(o2, "y", v)))
                inner = CeSolver([co.user(o1, "x")], [sp.cos(y)], [so], f(x, y)).ce
                full = CeSolver([co.user(o2, "y")], [x**2], [sy], inner).ce
            check(rec, pr, full, f"nested {o1} {o2}", npts=2)
            if rec.full:
                return
    else:  # the stand-ins against the real names
        import jax.numpy as jnp
        import numpy as onp
        from tfc.utils import egrad as real

        env = {"np": jnp, "egrad": real}
        for n, (a, b) in FUN.items():
            env[n] = sp.lambdify(a, b, {"sin": jnp.sin, "cos": jnp.cos, "exp": jnp.exp})
        X, Yv = onp.array([0.7, 0.4]), onp.array([1.3, 0.75])
        env.update(x=jnp.array(X), y=jnp.array(Yv))
        numeric = [n for n, e in A.items() if not any(arg.is_number for fn in e.atoms(sp.core.function.AppliedUndef) for arg in fn.args) and not any(q.is_number for s_ in e.atoms(sp.Subs) for q in s_.point)]
        for n in numeric:
            rec.states += 1
            with rec.guard("real", n):
                got = onp.broadcast_to(onp.asarray(eval(pr.doprint(A[n]), dict(env))), (2,))
                want = onp.array([float(v) for v in vals(n)])
                rec.traces += 1
                rec.transitions += 2
                rec.close("real", got, want, 1e-9 * (1 + abs(want)), {"expression": n, "text": pr.doprint(A[n])})
    rec.sample(gr)
