"""P18: every parameter value around the validity boundary is accepted or refused as the validity predicate says."""
import contextlib
import io
import itertools
import os
import subprocess
import sys
import warnings

import numpy as onp

ASSUMPTIONS = ["Refused means: an exception with a message, or the printed message and exit of TFCPrint.Error (for weights of the C++ classes: the process ends with a printed message, observed in a child process).",
               "For multivariate polynomial and Fourier bases repeated or irrelevant indices are not refused; they name the same set (P07)."]
ELM = ("ELMReLU", "ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish")
BASES = ("CP", "LeP", "FS") + ELM


def bounds(tier):
    d = 3 if tier == "quick" else 4
    return {"univariate nC": f"deg 0..{d}, all counts -2..deg+3, all lists over -1..deg+2 of length up to {3 if tier == 'quick' else 4} as list/tuple/numpy/jax, 8 bases, 2 backends; deg 9, 20, 64: boundary indices and counts, repeated or invalid entries at every place of lists of 8",
            "multivariate": "dim 1..3, lengths 0..dim+1 of n, x0, xf, nC as list/tuple/numpy/jax; all counts -1..deg+2 per dimension; network nC as in the univariate case",
            "points": "all shapes of rank 0..3 with sizes 1..3 (utfc), all pairs and triples of shapes, 1..dim+1 arrays (mtfc); eager and jit",
            "names": "unknown bases, backends, least squares methods, print types, graph nodes; hybrid members with different numbers of points; weights of sizes 0..2m"}


def groups(tier):
    gs = []
    for b in BASES:
        for be in ("C++", "Python"):
            gs += [{"k": "nC", "basis": b, "backend": be}, {"k": "points", "basis": b, "backend": be}, {"k": "mtfc", "basis": b, "backend": be}, {"k": "mpoints", "basis": b, "backend": be}]
    gs += [{"k": "names"}, {"k": "methods"}, {"k": "graph"}, {"k": "hybrid"}, {"k": "print"}]
    gs += [{"k": "weights", "basis": b} for b in ELM]
    return gs


def weight(g):
    return {"nC": 10, "mtfc": 8, "weights": 6, "methods": 5}.get(g["k"], 2)


def attempt(f):
    """(result, None) or (None, message)"""
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            r = f()
        return r, None
    except KeyboardInterrupt:
        raise
    except SystemExit as e:
        return None, (buf.getvalue() + str(e.code if isinstance(e.code, str) else "")).strip()
    except BaseException as e:
        return None, f"{type(e).__name__}: {e}" if str(e) else ""


def judge(rec, key, f, valid, case, then=None):
    rec.now(str(case))
    rec.states += 1
    rec.transitions += 1
    rec.traces += 1
    r, msg = attempt(f)
    if valid and msg is not None:
        rec.fail(key + ":refused", f"valid, but refused: {msg[:300]!r}", case)
    elif not valid and msg is None:
        rec.fail(key + ":accepted", "invalid, but accepted", case)
    elif not valid and not msg:
        rec.fail(key + ":silent", "refused without a message", case)
    elif valid and then is not None:
        with rec.guard(key, case):
            then(r)


def spell(kind, v):
    import jax.numpy as np
    return {"list": list, "tuple": tuple, "numpy": lambda q: onp.array(q, dtype=onp.int64), "numpy32": lambda q: onp.array(q, dtype=onp.int32), "jax": lambda q: np.array(q, dtype=np.int32)}[kind](v)


def run(g, rec, tier):
    warnings.simplefilter("ignore")
    globals()["do_" + g["k"]](g, rec, tier)
    if "basis" in g:
        rec.sample(g, 1)


def valid_nC(v, deg):
    return len(v) <= deg and len(set(v)) == len(v) and all(0 <= i <= deg for i in v)


def do_nC(g, rec, tier):
    from tfc import utfc
    q = tier == "quick"
    kinds = ("list", "tuple", "numpy", "jax")
    for deg in range(0, 4 if q else 5):
        for cnt in range(-2, deg + 4):
            for conv in (int, onp.int32, onp.int64):
                n = max(0, cnt)

                def then(t):
                    if onp.shape(t.H(t.x)) != (5, deg + 1 - n):
                        rec.fail("nC:shape", f"H has shape {onp.shape(t.H(t.x))}", case)

                case = dict(g, deg=deg, nC=cnt, type=conv.__name__)
                judge(rec, "count", lambda: utfc(5, conv(cnt), deg, basis=g["basis"], x0=0.0, xf=1.0, backend=g["backend"]), n <= deg, case, then)
        k = 0
        for L in range(0, (4 if q else 5)):
            for v in itertools.product(range(-1, deg + 3), repeat=L):
                # the spelling rotates for invalid and long lists in the quick tier
                use = kinds if (not q or L <= 1) else (kinds[k % 4],)
                k += 1
                for kind in use:
                    case = dict(g, deg=deg, nC=v, type=kind)

                    def then(t):
                        if onp.shape(t.H(t.x)) != (5, deg + 1 - L):
                            rec.fail("nC:shape", f"H has shape {onp.shape(t.H(t.x))}", case)

                    judge(rec, "list", lambda: utfc(5, spell(kind, v), deg, basis=g["basis"], x0=0.0, xf=1.0, backend=g["backend"]), valid_nC(v, deg), case, then)
                if rec.full:
                    return


    for deg in (9, 20, 64):  # larger degrees, at the boundaries
        lists = [(i,) for i in (-1, 0, deg - 1, deg, deg + 1, deg + 64, 2 ** 31 - 1)] + [tuple(range(deg)), tuple(range(1, deg + 1)), tuple(range(deg + 1)), tuple(range(1, deg)) + (deg + 1,), tuple(range(-1, deg - 1))]
        long = list(range(deg - 1, deg - 8, -1))
        lists += [tuple(long[:j] + [long[i]] + long[j:]) for i in range(7) for j in range(8)]  # repeated at every distance
        lists += [tuple(long[:j] + [v] + long[j:]) for v in (-1, deg, deg + 1) for j in range(8)]
        for k, v in enumerate(lists):
            kind = kinds[k % 4]
            case = dict(g, deg=deg, nC=list(v), type=kind)

            def then(t):
                if onp.shape(t.H(t.x)) != (5, deg + 1 - len(v)):
                    rec.fail("nC:shape", f"H has shape {onp.shape(t.H(t.x))}", case)

            judge(rec, "long list", lambda: utfc(5, spell(kind, v), deg, basis=g["basis"], x0=0.0, xf=1.0, backend=g["backend"]), valid_nC(v, deg), case, then)
        for cnt in (deg - 1, deg, deg + 1, deg + 64):
            case = dict(g, deg=deg, nC=cnt)
            judge(rec, "count", lambda: utfc(5, cnt, deg, basis=g["basis"], x0=0.0, xf=1.0, backend=g["backend"]), cnt <= deg, case, None)
        if rec.full:
            return


def do_points(g, rec, tier):
    import jax
    import jax.numpy as np
    from tfc import utfc

    t = utfc(5, 1, 3, basis=g["basis"], x0=0.0, xf=1.0, backend=g["backend"])
    fs = {"H": t.H, "dH": t.dH, "d2H": t.d2H}
    for r in (1, 2, 3):
        for sh in itertools.product((1, 2, 3), repeat=r):
            size = int(onp.prod(sh))
            if r > 1 and size == sh[0]:
                continue  # one column: neither promised nor refused
            x = onp.linspace(0.1, 0.9, size).reshape(sh)
            for name, f in fs.items():
                for lib in ("numpy", "jax", "jit"):
                    if g["backend"] == "Python" and (lib == "jit" or r > 1):
                        continue
                    ff = jax.jit(f) if lib == "jit" else f
                    xx = x if lib == "numpy" else np.array(x)
                    case = dict(g, shape=sh, f=name, how=lib)

                    def then(h):
                        if onp.shape(h) != (sh[0], 3):
                            rec.fail("points:shape", f"shape {onp.shape(h)}", case)

                    judge(rec, "points", lambda: jax.block_until_ready(ff(xx)), r == 1, case, then)
            if rec.full:
                return


def do_mtfc(g, rec, tier):
    import jax.numpy as np
    from tfc import mtfc

    elm = g["basis"] in ELM
    num = {"list": list, "tuple": tuple, "numpy": lambda v: onp.array(v, float), "jax": lambda v: np.array(v, dtype=float)}
    for dim in (1, 2, 3):
        deg = 3 if dim < 3 else 2
        ok = dict(n=[3] * dim, x0=[0.0] * dim, xf=[1.0] * dim, nC=1 if elm else [1] * dim)

        def make(**kw):
            a = dict(ok, **kw)
            return mtfc(a["n"], a["nC"], deg, dim=dim, basis=g["basis"], x0=a["x0"], xf=a["xf"], backend=g["backend"])

        for field in ("n", "x0", "xf") + (() if elm else ("nC",)):
            for ln in range(0, dim + 2):
                for kind in ("list", "tuple", "numpy", "jax"):
                    v = [3] * ln if field == "n" else [1] * ln if field == "nC" else [0.0 if field == "x0" else 1.0] * ln
                    v = spell(kind, v) if field in ("n", "nC") else num[kind](v)
                    case = dict(g, dim=dim, field=field, length=ln, type=kind)

                    def then(t):
                        h = onp.shape(t.H(*t.x))
                        if h != (3**dim, t.basisClass.numBasisFunc) or len(t.x) != dim:
                            rec.fail("lengths:shape", f"H has shape {h}", case)

                    judge(rec, "length", lambda: make(**{field: v}), ln == dim, case, then)
        # nested lists that flatten to another length
        for field in ("x0", "xf"):
            judge(rec, "nested", lambda: make(**{field: [[0.5, 0.75]] * dim}), False, dict(g, dim=dim, field=field, value="nested"))
        if elm:
            cands = [(v, valid_nC(range(max(0, v)), deg)) for v in range(-2, deg + 4)]
            for L in range(0, 4):
                cands += [(spell(k, v), valid_nC(v, deg)) for n, v in enumerate(itertools.product(range(-1, deg + 3), repeat=L)) for k in [("list", "tuple", "numpy", "jax")[n % 4]]]
            if tier == "quick" and dim != 2:
                cands = cands[:60]
        else:
            cands = [(list(v), max(v) <= deg) for v in itertools.product(range(-1, deg + 3), repeat=dim)]
            cands += [([list(range(k))] + [-1] * (dim - 1), k <= deg) for k in range(1, deg + 3)]
            cands += [(v, False) for v in range(-1, 3)] + [(onp.int64(1), False)]
            if tier == "quick" and dim == 3:
                cands = cands[::3] + cands[-4:]
        for v, valid in cands:
            case = dict(g, dim=dim, nC=str(v))
            judge(rec, "mtfc nC", lambda: make(nC=v), valid, case, lambda t: t.H(*t.x))
            if rec.full:
                return


def do_mpoints(g, rec, tier):
    import jax
    import jax.numpy as np
    from tfc import mtfc

    shapes = [(1,), (2,), (3,), (2, 2), (1, 2), (2, 3), (1, 1, 2)]
    for dim in (1, 2, 3):
        t = mtfc([3] * dim, -1 if g["basis"] in ELM else [-1] * dim, 2, dim=dim, basis=g["basis"], x0=[0.0] * dim, xf=[1.0] * dim, backend=g["backend"])
        fs = {"H": t.H, "Hx": t.Hx}
        if dim > 1:
            fs["Hxy"] = t.Hxy
        for n in range(1, dim + 2):
            for shs in itertools.product(shapes, repeat=n):
                if n == 4 and len(set(shs)) > 1:
                    continue
                if n == 3 and tier == "quick" and len(set(shs)) == 3:
                    continue
                valid = n == dim and all(s == shs[0] for s in shs) and len(shs[0]) == 1
                if g["backend"] == "Python" and not valid and (n == dim or len(set(shs)) > 1):
                    continue  # the Python classes check the number of arrays only
                xs = [onp.linspace(0.1, 0.9, int(onp.prod(s))).reshape(s) for s in shs]
                for name, f in fs.items():
                    for how in ("eager", "jit"):
                        if how == "jit" and (g["backend"] == "Python" or (tier == "quick" and name != "H")):
                            continue
                        ff = jax.jit(f) if how == "jit" else f
                        case = dict(g, dim=dim, shapes=shs, f=name, how=how)

                        def then(h):
                            if onp.shape(h) != (shs[0][0], t.basisClass.numBasisFuncFull):
                                rec.fail("points:shape", f"shape {onp.shape(h)}", case)

                        judge(rec, "points", lambda: jax.block_until_ready(ff(*[np.array(x) for x in xs])), valid, case, then)
                if rec.full:
                    return


def do_names(g, rec, tier):
    from tfc import utfc, mtfc
    bad = ["", "cp", "CP ", "Chebyshev", "ELM", "ELMtanh", "nCP", "XYZ", None, 3]
    badbe = ["", "c++", "python", "Cpp", "C", "JAX", None, 1]
    for be in ("C++", "Python"):
        for b in list(BASES) + bad:
            ok = b in BASES
            judge(rec, "basis", lambda: utfc(5, 1, 3, basis=b, x0=0.0, xf=1.0, backend=be), ok, {"basis": b, "backend": be})
            judge(rec, "basis", lambda: mtfc([3, 3], 1 if b in ELM else [1, 1], 3, basis=b, x0=[0.0, 0.0], xf=[1.0, 1.0], backend=be), ok, {"mtfc basis": b, "backend": be})
    for b in BASES:
        for be in badbe:
            judge(rec, "backend", lambda: utfc(5, 1, 3, basis=b, x0=0.0, xf=1.0, backend=be), False, {"basis": b, "backend": be})
            judge(rec, "backend", lambda: mtfc([3, 3], 1 if b in ELM else [1, 1], 3, basis=b, x0=[0.0, 0.0], xf=[1.0, 1.0], backend=be), False, {"mtfc basis": b, "backend": be})
    rec.sample({"basis": bad, "backend": badbe})


def do_methods(g, rec, tier):
    import jax.numpy as np
    from tfc.utils import LS, LsClass, NLLS, NllsClass, TFCDict, TFCDictRobust
    res = lambda xi: 2.0 * xi - np.array([1.0, 2.0])
    resd = lambda xi: 2.0 * xi["a"] - np.array([1.0, 2.0])
    for form in ("array", "TFCDict", "TFCDictRobust"):
        z = {"array": lambda: np.zeros(2), "TFCDict": lambda: TFCDict({"a": np.zeros(2)}), "TFCDictRobust": lambda: TFCDictRobust({"a": np.zeros(2)})}[form]
        r = res if form == "array" else resd
        for method in ("pinv", "lstsq", "PINV", "lstsq ", "qr", "inv", "solve", "", None, 0):
            ok = method in ("pinv", "lstsq")
            for timer in (False, True):
                case = {"form": form, "method": method, "timer": timer}
                judge(rec, "LS", lambda: LS(z(), r, method=method, timer=timer), ok, dict(case, f="LS"))
                judge(rec, "LsClass", lambda: LsClass(z(), r, method=method, timer=timer).run(z()), ok, dict(case, f="LsClass"))
                judge(rec, "NLLS", lambda: NLLS(z(), r, method=method, timer=timer), ok, dict(case, f="NLLS"))
                judge(rec, "NllsClass", lambda: NllsClass(z(), r, method=method, timer=timer).run(z()), ok, dict(case, f="NllsClass"))
    rec.sample(case)


def do_graph(g, rec, tier):
    from tfc.utils import ComponentConstraintGraph
    names = ["u", "v", "w", "U", "uv", "", "x"]
    for n in range(0, 4):
        N = ["u", "v", "w"][:n]
        for e in (1, 2):
            for ends in itertools.product([(a, b) for a in names for b in names if a != b], repeat=e):
                if e == 2 and (tier == "quick" and not ({"u", "v"} & (set(ends[0]) | set(ends[1])))):
                    continue
                valid = all(a in N and b in N for a, b in ends)
                case = {"nodes": N, "edges": ends}
                judge(rec, "graph", lambda: ComponentConstraintGraph(N, [dict(name="c", node0=a, node1=b) for a, b in ends]), valid, case)
                if rec.full:
                    return
    rec.sample(case)


def do_hybrid(g, rec, tier):
    from tfc import utfc, HybridUtfc
    for n in (1, 2, 3):
        for Ns in itertools.product((3, 4, 5), repeat=n):
            for be in ("C++", "Python"):
                ts = [utfc(k, 1, 2, basis=b, x0=0.0, xf=1.0, backend=be) for k, b in zip(Ns, ("CP", "LeP", "ELMTanh"))]
                judge(rec, "hybrid", lambda: HybridUtfc(ts), len(set(Ns)) == 1, {"N": Ns, "backend": be})
    rec.sample({"N": Ns})


def do_print(g, rec, tier):
    import sympy as sp
    from tfc.utils import CeSolver
    x = sp.Symbol("x")
    f = sp.Function("g")
    for p in ("tfc", "pretty", "latex", "str", "", "TFC", "repr", None, 1):
        def go():
            ce = CeSolver([lambda u: u.subs(x, 0)], [1], [sp.Integer(1)], f(x))
            ce.print_type = p
            return ce.print_type, str(ce.ce)
        judge(rec, "print_type", go, p in ("tfc", "pretty", "latex", "str"), {"print_type": p})
    rec.sample({"print_type": p})


CHILD = r'''
import sys, os
import numpy as np
from tfc.utils import BF
kind, basis, what, size = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
if kind == "u":
    b = getattr(BF, basis)(0.0, 1.0, np.array([0], dtype=np.int32), 4)
else:
    b = getattr(BF, "n" + basis)(np.zeros(2), np.ones(2), np.array([0], dtype=np.int32), 4)
v = np.arange(size) * 0.5
if kind == 'n' and what == 'w' and size % 2 == 0:
    v = v.reshape(2, -1)
try:
    setattr(b, what, v)
except Exception as e:
    print("message:", e)
    sys.exit(3)
assert np.array_equal(np.asarray(getattr(b, what)).ravel(), v.ravel()), "not stored"
sys.stdout.write("accepted\n")
'''


def do_weights(g, rec, tier):
    from tfc.utils import BF_Py
    jobs = []
    for kind in ("u", "n"):
        for what in ("w", "b"):
            need = 4 * (2 if kind == "n" and what == "w" else 1)
            for size in range(0, 11):
                case = dict(g, kind=kind, what=what, size=size)

                def go():
                    b = getattr(BF_Py, ("n" if kind == "n" else "") + g["basis"])(
                        *((0.0, 1.0) if kind == "u" else (onp.zeros(2), onp.ones(2))), onp.array([0], dtype=onp.int32), 4)
                    setattr(b, what, onp.arange(size) * 0.5)
                    return b

                judge(rec, "weights", go, size == need, dict(case, backend="Python"))
                if tier == "quick" and size not in (0, need - 1, need, need + 1, need + 2, need - 2):
                    continue
                rec.states += 1
                rec.transitions += 1
                rec.traces += 1
                p = subprocess.run([sys.executable, "-c", CHILD, kind, g["basis"], what, str(size)], capture_output=True, text=True, env=os.environ)
                acc = p.returncode == 0 and "accepted" in p.stdout
                if acc != (size == need) or (not acc and (p.returncode <= 0 or len(p.stdout.strip()) < 10)):
                    rec.fail("weights", f"status {p.returncode}, output {p.stdout[-200:]!r} {p.stderr[-300:]!r}", dict(case, backend="C++"))
                if rec.full:
                    return
