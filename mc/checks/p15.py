"""P15: LS, LsClass and ScaledQrLs over option products, all small integer matrices, and histories of runs."""
import itertools
import warnings

import numpy as onp

ASSUMPTIONS = ["Residuals are affine in the unknowns, A xi - b; matrices have small integer entries (or powers of ten times them), so that ranks are unambiguous in double precision; matrices whose smallest singular values are not numerically clear are counted as skipped.",
               "Reference: numpy.linalg.pinv with a rank decided in exact rational arithmetic."]

FORMS = ["jax", "numpy", "TFCDict", "TFCDict numpy", "TFCDictRobust", "TFCDictRobust numpy"]
SHAPES = {"quick": [(1, 1), (2, 2), (3, 2), (2, 3), (3, 4), (4, 3)], "thorough": [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (3, 4), (4, 3), (5, 4), (4, 6)]}


def bounds(tier):
    return {"options": "LS/LsClass x 6 forms of the unknowns x pinv/lstsq x user Jacobian or none x timer x all sets of constant arguments x real/complex holomorphic x shapes " + str(SHAPES[tier]),
            "matrices": "all matrices over {-1,0,1} of shapes 2x2, 3x2, 2x3 (thorough: also 3x3 and 2x2 over {-2..2}) x 2 right hand sides through LsClass",
            "large": "12x7, 8x8, 25x20, 20x25 (full rank and deficient), scaled by 1e-6..1e6, consistent systems with condition 1e2..1e10",
            "histories": "all run sequences of length 3 over 3 argument sets", "ScaledQrLs": "all full rank matrices of these shapes x column scales {1e-6,1,1e6}, vector and matrix right hand sides"}


def groups(tier):
    gs = []
    for api in ("LS", "LsClass"):
        for form in FORMS:
            for method in ("pinv", "lstsq"):
                for cx in (False, True):
                    gs.append({"k": "options", "api": api, "form": form, "method": method, "cx": cx})
    for form in FORMS:
        for method in ("pinv", "lstsq"):
            for shape in ((2, 2), (3, 2), (2, 3)):
                gs.append({"k": "matrices", "form": form, "method": method, "shape": shape, "ent": [-1, 0, 1]})
            if tier != "quick":
                gs.append({"k": "matrices", "form": form, "method": method, "shape": (2, 2), "ent": [-2, -1, 0, 1, 2]})
                gs.append({"k": "matrices", "form": form, "method": method, "shape": (3, 3), "ent": [-1, 0, 1]})
            gs.append({"k": "history", "form": form, "method": method})
    for shape in ((1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (2, 3)) + (((3, 3), (4, 2)) if tier != "quick" else ()):
        gs.append({"k": "qr", "shape": shape})
    gs += [{"k": "alias", "form": f} for f in FORMS]
    gs += [{"k": "large", "form": f, "method": m} for f in FORMS for m in ("pinv", "lstsq")]
    return gs


def weight(g):
    if g["k"] == "options":
        return 10 + (g["api"] == "LS") * 5 + ("Robust" in g["form"])
    if g["k"] == "qr":
        return 8 if g["shape"] != (1, 1) else 1
    return 5 if g["k"] == "matrices" else 2


def ratrank(A):
    import sympy
    return sympy.Matrix(A.tolist()).rank()


def exact_pinv(A):
    """A pinv with known rank: (pinv, clear)"""
    u, s, vh = onp.linalg.svd(A, full_matrices=False)
    r = int(onp.linalg.matrix_rank(A, tol=1e-9 * (s[0] if s[0] else 1)))
    si = onp.array([1 / v if i < r else 0 for i, v in enumerate(s)])
    clear = r == len(s) or s[0] == 0 or s[r:].max() < 0.4 * max(A.shape) * 2.2e-16 * s[0]
    return vh.conj().T @ (si[:, None] * u.conj().T), clear


def split(m):
    """sizes of the dictionary entries of m unknowns; robust ones get shapes"""
    if m == 1:
        return [("z", 1)]
    if m == 2:
        return [("z", 1), ("a", 1)]
    if m == 3:
        return [("z", 2), ("a", 1)]
    if m >= 7:
        return [("k9", 2), ("k10", m - 5), ("b", 1), ("a", 1), ("z", 1)]
    return [("z", 1), ("a", m - 2), ("k", 1)]


def rsplit(m):
    if m == 1:
        return [("z", (1, 1))]
    if m == 2:
        return [("z", (1,)), ("a", ())]
    if m == 3:
        return [("z", (2, 1)), ("a", (1,))]
    if m == 4:
        return [("z", (2, 2))]
    if m >= 7:
        return [("k9", (1, 2)), ("k10", (m - 6,)), ("b", (2, 1, 1)), ("a", ()), ("z", (1, 1))]
    return [("z", (1,)), ("a", (2, (m - 2) // 2)), ("k", (m - 1 - 2 * ((m - 2) // 2),))]


class Form:
    def __init__(self, form, m, cx):
        import jax.numpy as np
        from tfc.utils import TFCDict, TFCDictRobust

        self.form, self.m = form, m
        self.dt = complex if cx else float
        lib = onp if "numpy" in form else np
        self.lib = lib
        if form.startswith("TFCDictRobust"):
            self.cls, self.parts = TFCDictRobust, rsplit(m)
        elif form.startswith("TFCDict"):
            self.cls, self.parts = TFCDict, [(k, (n,)) for k, n in split(m)]
        else:
            self.cls = None

    def make(self, v):
        v = onp.asarray(v, dtype=self.dt)
        if self.cls is None:
            return self.lib.array(v)
        out, i = [], 0
        for k, s in self.parts:
            n = int(onp.prod(s))
            out.append((k, self.lib.array(v[i:i + n].reshape(s))))
            i += n
        return self.cls(out)

    def flat(self, xi):
        """traceable: the unknowns as one vector, by the order of keys that the user gave"""
        import jax.numpy as np
        if self.cls is None:
            return xi
        return np.concatenate([np.reshape(xi[k], (-1,)) for k, _ in self.parts])

    def read(self, rec, xi, case):
        if self.cls is None:
            a = onp.asarray(xi)
            if a.shape != (self.m,):
                rec.fail("structure", f"solution has shape {a.shape}, expected {(self.m,)}", case)
                return None
            return a
        if type(xi) is not self.cls:
            rec.fail("structure", f"solution is a {type(xi).__name__}, the unknowns are a {self.cls.__name__}", case)
            return None
        got = [(k, onp.shape(v)) for k, v in xi.items()]
        if got != [(k, tuple(s)) for k, s in self.parts]:
            rec.fail("structure", f"solution has entries {got}, expected {self.parts}", case)
            return None
        return onp.concatenate([onp.asarray(v).reshape(-1) for v in xi.values()])


def problem(n, m, k, cx):
    """k-th (A, b) of a shape: k=0,1 full rank, 2 rank deficient, 3 zero."""
    i, j = onp.meshgrid(onp.arange(n), onp.arange(m), indexing="ij")
    A = ((3 * i + 5 * j + i * j + k) % 7 - 3.0) + 2.0 * (i == j)
    if cx:
        A = A + 1j * ((2 * i + j + k) % 3 - 1.0)
    b = onp.arange(1.0, n + 1) * (1 - 2 * (onp.arange(n) % 2)) + k
    if cx:
        b = b * (1 + 0.5j) - 0.25j
    if k == 2:
        A[:, -1] = A[:, 0]
        if m == 1:
            A = A * 0
    if k == 3:
        A = A * 0
    return A, b


def check_sol(rec, key, F, xi, A, b, case):
    P, clear = exact_pinv(A)
    if not clear:
        rec.count("skipped_numerically_ambiguous")
        return
    rec.states += 1
    rec.traces += 1
    a = F.read(rec, xi, case)
    if a is None:
        return
    rec.transitions += len(a)
    ref = P @ b
    cond = onp.linalg.norm(P, 2) * onp.linalg.norm(A, 2) if A.any() else 1
    rec.close(key, a, ref, 1e-12 * (1 + onp.abs(ref).max()) * (1 + cond) ** 2, case)


def run(g, rec, tier):
    import jax

    warnings.simplefilter("ignore")
    {"options": options, "matrices": matrices, "history": history, "qr": qr, "alias": alias, "large": large}[g["k"]](g, rec, tier)
    jax.clear_caches()


def same(a, b):
    import jax
    return all(onp.array_equal(onp.asarray(p), onp.asarray(q)) for p, q in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))


def options(g, rec, tier):
    import jax.numpy as np
    from tfc.utils import LS, LsClass

    cx = g["cx"]
    shapes = SHAPES[tier]
    for (n, m) in shapes:
        F = Form(g["form"], m, cx)

        def res(xi, A, b, q):
            return np.dot(A, F.flat(xi)) * q["s"] - b

        userJ = lambda xi, A, b, q: A * q["s"]
        for useJ, timer in itertools.product((False, True), repeat=2):
            if tier == "quick" and useJ and timer and (n, m) != (3, 2):
                continue
            csets = [c for r in range(4) for c in itertools.permutations((1, 2, 3), r)]
            if tier == "quick":
                csets = [[], [1], [3, 1], [1, 2, 3]] if (n, m) == (3, 2) and not timer else [[], [2]] if not timer else [[]]
            for cs in csets:
                case = dict(g, shape=(n, m), J=useJ, timer=timer, constant_arg_nums=list(cs))
                rec.now(str(case))
                kw = dict(method=g["method"], holomorphic=cx)
                if useJ:
                    kw["J"] = userJ
                if timer:
                    kw.update(timer=True, timerType={1: "perf_counter", 2: "process_time", 3: "monotonic"}.get(n, "time"))
                with rec.guard(g["api"], case):
                    start = onp.zeros(m) if g["api"] == "LsClass" else onp.arange(m) - 1.5
                    nums = list(cs)
                    if cs:
                        kw["constant_arg_nums"] = nums
                    if g["api"] == "LS":
                        for k in (0, 2) if m > 1 and not cs else (1,):
                            A, b = problem(n, m, k, cx)
                            x0 = F.make(start)
                            args = (np.array(A), np.array(b), {"s": 1.0})
                            out = LS(x0, res, *args, **kw)
                            if timer:
                                out, t = tcheck(rec, out, case)
                            check_sol(rec, "solution", F, out, A, b, case)
                            if not same(x0, F.make(start)):
                                rec.fail("input modified", "LS changed the unknowns it was given", case)
                    else:
                        A0, b0 = problem(n, m, 0, cx)
                        ls = LsClass(F.make(start), res, np.array(A0), np.array(b0), {"s": 2.0}, **kw)
                        for k in range(4):
                            A, b = problem(n, m, k, cx)
                            q = {"s": 2.0}
                            if 1 in cs:
                                A = A0
                            if 2 in cs:
                                b = b0
                            if 3 not in cs:
                                q = {"s": 2.0 if k != 1 else -0.5}
                            args = [v for i, v in enumerate((np.array(A), np.array(b), q), 1) if i not in cs]
                            out = ls.run(F.make(start), *args)
                            if timer:
                                out, t = tcheck(rec, out, case)
                            check_sol(rec, "solution", F, out, A * q["s"], b, dict(case, run=k))
                    if nums != list(cs):
                        rec.fail("caller's list", f"constant_arg_nums became {nums}", case)
                if rec.full:
                    return
    rec.sample(case)


def tcheck(rec, out, case):
    if not (isinstance(out, tuple) and len(out) == 2 and isinstance(out[1], float) and 0 <= out[1] < 100):
        rec.fail("timer", f"expected (solution, seconds), got {str(out)[:200]}", case)
    return out


def matrices(g, rec, tier):
    import jax.numpy as np
    from tfc.utils import LsClass

    n, m = g["shape"]
    F = Form(g["form"], m, False)
    ls = LsClass(F.make(onp.zeros(m)), lambda xi, A, b: np.dot(A, F.flat(xi)) - b, method=g["method"])
    bs = [onp.array([1.0, -2.0, 3.0])[:n], onp.array([0.0, 5.0, 1.0])[:n]]
    for ents in itertools.product(g["ent"], repeat=n * m):
        A = onp.array(ents, float).reshape(n, m)
        for b in bs[: 1 if g["ent"] != [-1, 0, 1] or n * m > 6 else 2]:
            case = dict(g, A=A.tolist(), b=b.tolist())
            with rec.guard("run", case):
                check_sol(rec, "solution", F, ls.run(F.make(onp.zeros(m)), A, b), A, b, case)
            if rec.full:
                return
    rec.sample(case)


def history(g, rec, tier):
    """one LsClass, all run sequences over changing arguments, changing starting points when the rank is full"""
    import jax.numpy as np
    from tfc.utils import LsClass

    for timer in (False, True):
        F = Form(g["form"], 2, False)
        for seq in itertools.product(range(3), repeat=3):
            if "k" not in locals() or seq[0] != k:
                k = seq[0]
                ls = LsClass(F.make(onp.zeros(2)), lambda xi, A, b: np.dot(A, F.flat(xi)) - b, method=g["method"], timer=timer)
            outs = []
            for j, k2 in enumerate(seq):
                A, b = problem(3, 2, k2, False)
                start = onp.zeros(2) if k2 == 2 else onp.array([j, -2.0])
                case = dict(g, timer=timer, runs=seq[: j + 1])
                rec.now(str(case))
                with rec.guard("run", case):
                    out = ls.run(F.make(start), A, b)
                    if timer:
                        out, _ = tcheck(rec, out, case)
                    check_sol(rec, "solution", F, out, A, b, case)
                    outs.append((out, A, b))
            for out, A, b in outs:  # earlier results stay what they were
                check_sol(rec, "earlier solution", F, out, A, b, case)
            if rec.full:
                return
    rec.sample(case)


def alias(g, rec, tier):
    """The same unknowns object passed to two runs: the second run has to give the solution of its own problem, and the
    first result has to stay what it was."""
    import jax.numpy as np
    from tfc.utils import LsClass

    A1, b1 = onp.array([[1.0, 1.0]]), onp.array([2.0])
    A2, b2 = onp.array([[1.0, 0.0]]), onp.array([3.0])
    for form in [g["form"]]:
        F = Form(form, 2, False)
        for timer in (False, True):
            ls = LsClass(F.make(onp.zeros(2)), lambda xi, A, b: np.dot(A, F.flat(xi)) - b, timer=timer)
            z = F.make(onp.zeros(2))
            case = {"form": form, "timer": timer, "history": "z = zeros; r1 = run(z, [[1,1]], [2]); r2 = run(z, [[1,0]], [3])"}
            r1 = ls.run(z, A1, b1)
            r2 = ls.run(z, A2, b2)
            if timer:
                r1, r2 = r1[0], r2[0]
            rec.states += 2
            rec.traces += 1
            rec.transitions += 2
            d1 = F.read(rec, r1, case)
            d2 = F.read(rec, r2, case)
            ok = onp.allclose(d1, [1, 1], atol=1e-12) and onp.allclose(d2, [3, 0], atol=1e-12)
            if not ok:
                # the finding: the unknowns object is updated in place, so both results are that object and the second
                # run starts from the first solution
                inplace = onp.allclose(d2, [3, 1], atol=1e-12) and (r1 is r2 is z)
                rec.fail("LsClass-in-place-" + form.replace(" ", "-") if inplace else "two runs", f"results {d1}, {d2}; expected [1 1], [3 0]", case)


def large(g, rec, tier):
    """More unknowns; scaled right hand sides and matrices; ill-conditioned consistent systems."""
    import jax.numpy as np
    from tfc.utils import LS, LsClass

    for n, m in ((12, 7), (8, 8), (25, 20), (20, 25)):
        F = Form(g["form"], m, False)
        i, j = onp.meshgrid(onp.arange(n), onp.arange(m), indexing="ij")
        res = lambda xi, A, b: np.dot(A, F.flat(xi)) - b
        ls = LsClass(F.make(onp.zeros(m)), res, method=g["method"])
        for k in range(3):
            A = onp.cos((i + 1) * (j + 0.5) * onp.pi / max(n, m) + k)
            if k == 2:
                A[:, -1], A[:, 1] = A[:, 0], 2 * A[:, 2]
            for sa, sb in ((1.0, 1.0), (1e-5, 1e6), (1e6, 1e-6)):
                b = sb * onp.sin(1.0 + onp.arange(n) * (k + 1))
                case = dict(g, shape=(n, m), k=k, scales=(sa, sb))
                rec.now(str(case))
                u, s, vh = onp.linalg.svd(sa * A, full_matrices=False)
                r = int((s > 1e-6 * s[0]).sum())
                if (s[r:] > 1e-15 * s[0]).any():
                    rec.count("skipped_numerically_ambiguous")
                    continue
                ref = vh[:r].T @ ((u[:, :r].T @ b) / s[:r])
                with rec.guard("large", case):
                    for out in (ls.run(F.make(onp.zeros(m)), sa * A, b), LS(F.make(onp.zeros(m)), res, sa * A, b, method=g["method"])) if k == 1 else (ls.run(F.make(onp.zeros(m)), sa * A, b),):
                        rec.states += 1
                        rec.traces += 1
                        rec.transitions += m
                        a = F.read(rec, out, case)
                        if a is not None:
                            rec.close("large", a, ref, 1e-12 * onp.abs(ref).max() * (s[0] / s[r - 1]) ** 2, case)
        # consistent systems with known solution and singular values down to 10**-e of the largest
        if n >= m:
            q1, q2 = onp.linalg.qr(onp.cos((i + 1) * (j + 0.5)))[0], onp.linalg.qr(onp.sin(onp.outer(onp.arange(m) + 1, onp.arange(m) + 0.3)) + 2 * onp.eye(m))[0]
            for e in (2, 4, 6, 8, 10):
                A = q1 @ onp.diag(10.0 ** -(e * onp.arange(m) / (m - 1))) @ q2.T
                x = 1.0 + onp.arange(m) % 3
                case = dict(g, shape=(n, m), smallest_singular_value=f"1e-{e}")
                with rec.guard("ill-conditioned", case):
                    a = F.read(rec, ls.run(F.make(onp.zeros(m)), A, A @ x), case)
                    rec.states += 1
                    rec.traces += 1
                    if a is not None:
                        rec.close("ill-conditioned", a, x, 1e-13 * m * 10.0**e, case)
    rec.sample(case)


def qr(g, rec, tier):
    import jax.numpy as np
    from tfc.utils.TFCUtils import ScaledQrLs

    n, m = g["shape"]
    bs = [onp.arange(1.0, n + 1), onp.stack([onp.arange(1.0, n + 1), onp.cos(onp.arange(n)) * 3, -onp.ones(n)], 1)]
    if n * m <= 6:
        ents = [-1, 0, 1]
    else:
        ents = [-1, 0, 1] if n * m == 8 else [0, 1]
    for e in itertools.product(ents, repeat=n * m):
        A0 = onp.array(e, float).reshape(n, m)
        if onp.linalg.matrix_rank(A0) < min(n, m) or not A0.any(0).all():
            continue
        combos = list(itertools.product((1e-6, 1.0, 1e6), repeat=m)) if n * m <= 2 else [(1.0,) * m, tuple([1e6, 1e-6, 1.0][:m]), tuple([1e-6, 1.0, 1e6][:m])][: 3 if (tier != "quick" or sum(e) % 5 == 0) else 1]
        for sc in combos:
            A = A0 * onp.array(sc)
            for b in bs:
                case = dict(g, A=A.tolist(), B=b.tolist())
                with rec.guard("ScaledQrLs", case):
                    x, cn = ScaledQrLs(np.array(A), np.array(b))
                    rec.states += 1
                    rec.traces += 1
                    rec.transitions += onp.size(x)
                    S = 1 / onp.linalg.norm(A, axis=0)
                    s = onp.linalg.svd(A * S, compute_uv=False)
                    c = s[0] / s[-1]
                    ref = (onp.linalg.pinv(A0 / onp.linalg.norm(A0, axis=0)) @ b)
                    ref = (ref.T * S).T
                    scale = (S if b.ndim == 1 else S[:, None]) * (1 + onp.abs(b).max())
                    rec.close("ScaledQrLs:x", x, ref, 1e-12 * scale * (1 + c) ** 2, case)
                    rec.close("ScaledQrLs:cond", cn, onp.asarray(c), 1e-11 * c * c, case)
                if rec.full:
                    return
    rec.sample(case)
