"""P16: NLLS and NllsClass against a reference Gauss-Newton iteration, over option products, guesses, tolerances and
histories of runs."""
import contextlib
import io
import itertools
import re
import warnings

import numpy as onp

from checks.p15 import FORMS, Form, same

ASSUMPTIONS = ["tol < 1 (the step before the first iteration counts as 1, so a larger tol ends at the guess).",
               "Iteration counts are compared when every stopping decision of the reference is clear of rounding (a factor 1.01 from tol, and above or below rounding level); other runs are counted as skipped.",
               "Reference: Gauss-Newton in numpy double precision with analytic Jacobians and numpy.linalg.pinv."]
TOLS = [0.3, 1e-2, 1e-4, 1e-7, 1e-10, 1e-13]
ITERS = {"quick": [0, 1, 2, 3, 7, 50], "thorough": [0, 1, 2, 3, 4, 5, 7, 10, 20, 50, 100]}
PROBLEMS = ["sqrt", "overdetermined", "wide", "linear", "coupled"]


def bounds(tier):
    return {"problems": "square roots, overdetermined with nonzero final residual, underdetermined (minimum norm steps), linear, coupled",
            "stopping": f"tol {TOLS} x maxIter {ITERS[tier]} x initial guesses {{-3,-1,0.5,2}}^m (and exact solutions) x 3 argument values",
            "options": "NLLS/NllsClass x 6 forms x pinv/lstsq x user Jacobian x user cond x user body x timer x printOut (3 line ends) x constant arguments x real/complex",
            "long runs": "degenerate roots x^2, x^4, x^6 (linear convergence, up to 120 steps), 1, 2, 5 and 12 unknowns, guesses of size 1e-3 to 1e6 of both signs, documented defaults (tol 1e-13, maxIter 50) and tol x maxIter 30/49/51/120, NLLS and NllsClass",
            "histories": "all sequences of 3 runs of one NllsClass over 3 argument sets, with and without timer"}


def groups(tier):
    gs = [{"k": "stop", "p": p, "method": me, "form": f, "tol": t}
          for p in PROBLEMS for me in ("pinv", "lstsq") for f in (FORMS if tier != "quick" else ["jax", "TFCDict numpy", "TFCDictRobust"]) for t in TOLS
          if tier != "quick" or f == "jax" or (t in (1e-4, 1e-13) and me == "pinv")]
    gs += [{"k": "options", "api": api, "form": f, "method": me, "cx": cx} for api in ("NLLS", "NllsClass") for f in FORMS for me in ("pinv", "lstsq") for cx in (False, True)]
    gs += [{"k": "long", "api": api, "form": f, "method": me} for api in ("NLLS", "NllsClass") for f in ("jax", "TFCDict", "TFCDictRobust") for me in ("pinv", "lstsq")
           if tier != "quick" or (api, f, me) in (("NLLS", "jax", "pinv"), ("NLLS", "TFCDict", "lstsq"), ("NllsClass", "jax", "lstsq"), ("NllsClass", "TFCDictRobust", "pinv"))]
    gs += [{"k": "history", "form": f, "method": me} for f in FORMS for me in ("pinv", "lstsq")]
    return gs


def weight(g):
    return {"options": 10, "stop": 5, "history": 3, "long": 8}[g["k"]]


def prob(name, cx=False):
    """(m, residual(x, a, q, lib), jacobian(x, a, q)) with a an array of parameters, q a dictionary"""
    if name == "sqrt":
        return 2, lambda x, a, q, np: x * x * q["s"] - a[:2], lambda x, a, q: onp.diag(2 * x * q["s"])
    if name == "overdetermined":
        return 2, (lambda x, a, q, np: np.array([x[0] + x[1] - a[0], x[0] * x[1] * q["s"] - a[1], x[0] - x[1] + 0.5, x[1] * x[1] / 4 - a[0] / 3])), \
            (lambda x, a, q: onp.array([[1, 1], [x[1] * q["s"], x[0] * q["s"]], [1, -1], [0, x[1] / 2]]))
    if name == "wide":
        return 3, (lambda x, a, q, np: np.array([(x[0] + x[1] - x[2]) ** 2 * q["s"] - a[0], x[0] * x[2] + x[1] - a[1]])), \
            (lambda x, a, q: onp.array([[2 * (x[0] + x[1] - x[2]) * q["s"] * s for s in (1, 1, -1)], [x[2], 1, x[0]]]))
    if name == "linear":
        A = onp.array([[2.0, 1.0, 0.0], [0.0, 1.0, -1.0], [1.0, 0.0, 3.0], [1.0, 1.0, 1.0]])
        return 3, (lambda x, a, q, np: np.dot(A * q["s"], x) - np.array([a[0], a[1], -a[0], 1.0])), lambda x, a, q: A * q["s"]
    if name == "coupled":
        return 2, (lambda x, a, q, np: np.array([np.exp(x[0] / 2) * q["s"] - x[1] - a[0] / 4, x[0] * x[0] + x[1] * x[1] - a[1] * 2])), \
            (lambda x, a, q: onp.array([[onp.exp(x[0] / 2) / 2 * q["s"], -1], [2 * x[0], 2 * x[1]]]))
    raise KeyError(name)


def reference(m, res, jac, x0, a, q, tol, maxIter, cond=None, damp=1.0, limit=1e12, rel=False):
    """(x, it, clear, [max|res| after each step])"""
    x = onp.array(x0)
    dx = onp.ones_like(x)
    it, clear, hist = 0, True, []
    while True:
        r = onp.asarray(res(x, a, q, onp))
        mr, md = onp.abs(r).max(), onp.abs(dx).max()
        if not (onp.isfinite(mr) and onp.isfinite(md) and mr < limit):
            return x, it, False, hist
        if cond is not None:
            if not cond(x, dx, it, mr):
                return x, it, clear, hist
        else:
            if it < maxIter:  # only then the tolerances decide
                noise = 0 if rel else 2e-14 * (1 + onp.abs(x).max() ** 2)
                for v in (mr, md):
                    if 0.99 < v / tol < 1.01 or (abs(v - tol) < noise):
                        clear = False
            if not (mr > tol and it < maxIter and md > tol):
                return x, it, clear, hist
        J = jac(x, a, q)
        if not onp.isfinite(J).all():
            return x, it, False, hist
        s = onp.linalg.svd(J, compute_uv=False)
        if s[0] == 0 or s[-1] < 1e-7 * s[0] or it > 200:
            return x, it, False, hist
        dx = onp.linalg.pinv(J) @ r
        x = x - damp * dx
        it += 1
        hist.append(onp.abs(onp.asarray(res(x, a, q, onp))).max())


def compare(rec, F, got, ref, case):
    x, it, clear, hist = ref
    if not clear:
        rec.count("skipped_unclear")
        return False
    rec.states += 1
    rec.traces += 1
    rec.transitions += it + 1
    if int(got[1]) != it:
        rec.fail("iterations", f"{int(got[1])} steps, reference {it}", case)
        return False
    v = F.read(rec, got[0], case)
    if v is not None:
        rec.close("iterate", v, x, 1e-9 * (1 + onp.abs(x).max()), case)
    return True


def run(g, rec, tier):
    import jax

    warnings.simplefilter("ignore")
    onp.seterr(all="ignore")
    {"stop": stop, "options": options, "history": history, "long": long}[g["k"]](g, rec, tier)
    jax.clear_caches()


AS = [onp.array([4.0, 2.0]), onp.array([1.0, 3.0]), onp.array([0.25, 0.5])]


def guesses(m, tier):
    vals = (-3.0, -1.0, 0.5, 2.0)
    gs = list(itertools.product(vals, repeat=m))
    if m == 3 and tier == "quick":
        gs = gs[::3]
    return gs + [(0.0,) * m, (2.0, 2.0 ** 0.5, 1.0)[:m]]


def stop(g, rec, tier):
    import jax.numpy as np
    from tfc.utils import NllsClass

    m, res, jac = prob(g["p"])
    F = Form(g["form"], m, False)
    q = {"s": 1.0}
    for mi in ITERS[tier]:
        nl = NllsClass(F.make(onp.zeros(m)), lambda xi, a, q: res(F.flat(xi), a, q, np), tol=g["tol"], maxIter=mi, method=g["method"])
        for a in AS:
            for x0 in guesses(m, tier):
                case = dict(g, maxIter=mi, a=a.tolist(), guess=list(x0))
                rec.now(str(case))
                with rec.guard("run", case):
                    ref = reference(m, res, jac, onp.array(x0), a, q, g["tol"], mi)
                    if not ref[2]:
                        rec.count("skipped_unclear")
                        continue
                    xi = F.make(x0)
                    out = nl.run(xi, a, q)
                    compare(rec, F, out, ref, case)
                    if not same(xi, F.make(x0)):
                        rec.fail("guess modified", "the initial guess changed", case)
                if rec.full:
                    return
    rec.sample(case)


def options(g, rec, tier):
    import jax
    import jax.numpy as np
    from tfc.utils import NLLS, NllsClass

    cx = g["cx"]
    first = True
    for p in (["sqrt", "overdetermined"] if not cx else ["sqrt"]) if tier == "quick" else (PROBLEMS if not cx else ["sqrt", "wide", "linear"]):
        m, res, jac = prob(p)
        F = Form(g["form"], m, cx)
        fres = lambda xi, a, q: res(F.flat(xi), a, q, np)
        if p == "sqrt":
            fj = lambda xi, a, q: np.diag(2 * F.flat(xi) * q["s"])
        elif p == "overdetermined":
            fj = lambda xi, a, q: np.array([[1.0, 1.0], [F.flat(xi)[1] * q["s"], F.flat(xi)[0] * q["s"]], [1.0, -1.0], [0.0, F.flat(xi)[1] / 2]])
        else:
            fj = None
        opts = []
        for useJ, cond, body, timer, pr, cs in itertools.product((False, True), (None, "it", "res"), (None, "damped"), (False, True), (None, "\n", "\r", " | "), ((), (1,), (2,), (2, 1))):
            if useJ and fj is None:
                continue
            if body and pr:
                continue  # the user's body decides what is printed
            n = sum([useJ, cond is not None, body is not None, timer, pr is not None, len(cs) > 0])
            if n > (1 if tier == "quick" else 2) and not (p == "sqrt" and n == 6 - (body is not None) - (pr is None)):
                # quick: each option alone (and all of them together); thorough: all pairs
                if tier == "quick" and not (p == "overdetermined" and n == 2 and pr != "\r" and pr != " | " and cs != (2,) and g["method"] == "pinv" and not cx and g["form"] in ("jax", "TFCDictRobust")):
                    continue
                if tier != "quick" and n > 2:
                    continue
            opts.append((useJ, cond, body, timer, pr, cs))
        for useJ, cond, body, timer, pr, cs in opts:
            case = dict(g, p=p, J=useJ, cond=cond, body=body, timer=timer, printOut=pr, constant_arg_nums=list(cs))
            rec.now(str(case))
            tol, mi = 1e-7, 12
            kw = dict(method=g["method"], holomorphic=cx, tol=tol, maxIter=mi)
            rc, damp = None, 1.0
            if useJ:
                kw["J"] = fj
            if cond == "it":
                kw["cond"] = lambda val: val["it"] < 3
                rc = lambda x, dx, it, mr: it < 3
            elif cond == "res":
                # what the whole state gives: residual from the state's own arguments
                if cs:
                    continue
                kw["cond"] = lambda val: np.logical_and(np.max(np.abs(fres(val["xi"], *val["args"]))) > 0.05, np.logical_and(val["it"] < 9, np.max(np.abs(val["dxi"])) > 1e-3))
                rc = lambda x, dx, it, mr: mr > 0.05 and it < 9 and onp.abs(dx).max() > 1e-3
            if body:
                if cs:
                    continue
                damp = 0.5

                def bodyf(val):
                    import copy
                    J = np.array(jac_traced(F, res, val))
                    val["dxi"] = np.dot(np.linalg.pinv(J), fres(val["xi"], *val["args"]))
                    val["xi"] -= 0.5 * val["dxi"]
                    val["it"] += 1
                    return val

                kw["body"] = bodyf
            if timer:
                kw.update(timer=True, timerType="perf_counter")
            if pr:
                kw.update(printOut=True, printOutEnd=pr)
            nums = list(cs)
            if cs:
                kw["constant_arg_nums"] = nums
            A = AS if not cx else [a * (1 + 0.5j) for a in AS]
            Q = [{"s": 1.0}, {"s": 2.0}, {"s": -1.5 if cx else 0.5}]
            g0 = onp.array([2.0, 1.0, 0.5])[:m] + (0.5j if cx else 0)
            with rec.guard(g["api"], case):
                obj = None
                for k in range(3):
                    a = A[0] if 1 in cs else A[k]
                    q = Q[0] if 2 in cs else Q[k]
                    ref = reference(m, res, jac, g0, a, q, tol, mi, rc, damp)
                    xi = F.make(g0)
                    rest = [v for i, v in enumerate((np.array(a), q), 1) if i not in cs]
                    buf = io.StringIO()
                    with contextlib.redirect_stdout(buf):
                        if g["api"] == "NLLS":
                            if k == 2 and cs:
                                break
                            out = NLLS(xi, fres, np.array(a), q, **kw)
                        else:
                            if obj is None:
                                obj = NllsClass(xi, fres, np.array(A[0]), Q[0], **kw)
                                first = True
                            out = obj.run(xi, *rest)
                        jax.effects_barrier()
                    if timer:
                        if not (len(out) == 3 and isinstance(out[2], float) and 0 <= out[2] < 100):
                            rec.fail("timer", f"expected (xi, it, seconds), got {str(out)[:200]}", case)
                    elif len(out) != 2:
                        rec.fail("result", f"expected (xi, it), got {str(out)[:200]}", case)
                    if compare(rec, F, out, ref, dict(case, run=k)) and pr:
                        check_print(rec, buf.getvalue(), pr, ref[3], timer and (g["api"] == "NLLS" or first), mi, dict(case, run=k))
                    elif not pr and "Iteration" in buf.getvalue():
                        rec.fail("printing", f"printed without printOut: {buf.getvalue()[:200]}", case)
                    first = False
                    if not same(xi, F.make(g0)):
                        rec.fail("guess modified", "the initial guess changed", case)
                if nums != list(cs):
                    rec.fail("caller's list", f"constant_arg_nums became {nums}", case)
            if rec.full:
                return
    rec.sample(case)


def long(g, rec, tier):
    """slowly converging problems, where the defaults and large iteration numbers decide; the unknowns keep one scale, so that
    the Jacobians stay well conditioned"""
    import jax.numpy as np
    from tfc.utils import NLLS, NllsClass

    ms = (1, 2, 5, 12) if g["api"] == "NllsClass" or tier != "quick" else (1, 5)
    lim = [{}, {"tol": 1e-7}, {"tol": 1e-30, "maxIter": 49}, {"tol": 1e-30, "maxIter": 51}, {"tol": 1e-30, "maxIter": 120}, {"maxIter": 30}]
    for m, pw, kw in itertools.product(ms, (2, 4, 6), lim):
        if g["api"] == "NLLS" and tier == "quick" and (pw == 6 or len(kw) > 1):
            continue
        F = Form(g["form"], m, False)
        sc = 1.0 + onp.arange(m) / m
        res = lambda x, a, q, lib: (x * sc) ** pw * q["s"]
        jac = lambda x, a, q: onp.diag(pw * (x * sc) ** (pw - 1) * sc) * q["s"]
        fres = lambda xi, a, q: res(F.flat(xi), a, q, np)
        q = {"s": 1.0 / 4}
        nl = None
        me = {} if g["method"] == "pinv" else {"method": "lstsq"}  # pinv is the default
        for size in (1e-3, 0.5, 30.0, 1e3, 1e6):
            for sign in (1, -1):
                x0 = sign * size / sc * (1 - 2.0 * (onp.arange(m) % 2))
                case = dict(g, unknowns=m, power=pw, guess=x0.tolist(), **kw)
                rec.now(str(case))
                with rec.guard("run", case):
                    ref = reference(m, res, jac, x0, AS[0], q, kw.get("tol", 1e-13), kw.get("maxIter", 50), limit=1e40, rel=True)
                    if not ref[2]:
                        rec.count("skipped_unclear")
                        continue
                    if g["api"] == "NLLS":
                        out = NLLS(F.make(x0), fres, AS[0], q, **me, **kw)
                    else:
                        nl = nl or NllsClass(F.make(x0), fres, AS[0], q, **me, **kw)
                        out = nl.run(F.make(x0), AS[0], q)
                    compare(rec, F, out, ref, case)
                if rec.full:
                    return
    rec.sample(case)


def jac_traced(F, res, val):
    import jax
    import jax.numpy as np
    return jax.jacfwd(lambda v: res(v, val["args"][0], val["args"][1], np), holomorphic=F.dt is complex)(F.flat(val["xi"]))


def check_print(rec, text, end, hist, warm, mi, case):
    """one line per step with the step number and the residual after it, each followed by the requested end"""
    lines = text.split(end)
    lines = [s for s in lines if "Iteration" in s]
    pat = re.compile(r"Iteration: (\d+)\tmax\(abs\(res\)\): (\S+)$")
    got = []
    for s in lines:
        mt = pat.search(s)
        if not mt:
            rec.fail("printing", f"unexpected output {s!r}", case)
            return
        got.append((int(mt.group(1)), float(mt.group(2))))
    if warm and got and got[0][0] == mi - 1:
        got = got[1:]  # the run that compiles
    got.sort()
    rec.transitions += len(got)
    if [i for i, _ in got] != list(range(len(hist))):
        rec.fail("printing", f"printed iterations {[i for i, _ in got]}, {len(hist)} steps were done", case)
        return
    for (i, v), h in zip(got, hist):
        if not abs(v - h) <= 1e-6 * (1e-6 + h):
            rec.fail("printing", f"iteration {i}: printed max(abs(res)) {v}, it is {h}", case)


def history(g, rec, tier):
    import jax.numpy as np
    from tfc.utils import NllsClass

    m, res, jac = prob("coupled")
    F = Form(g["form"], m, False)
    gs = [onp.array([1.0, 2.0]), onp.array([-2.0, 1.0]), onp.array([0.5, -1.0])]
    for timer in (False, True):
        for s0 in range(3):
            nl = NllsClass(F.make(gs[0]), lambda xi, a, q: res(F.flat(xi), a, q, np), method=g["method"], timer=timer, tol=1e-9, maxIter=9)
            for seq in itertools.product(range(3), repeat=2):
                outs = []
                for k in (s0,) + seq:
                    q = {"s": 1.0 + k / 2}
                    case = dict(g, timer=timer, runs=[s0, *seq])
                    rec.now(str(case))
                    with rec.guard("run", case):
                        ref = reference(m, res, jac, gs[k], AS[k], q, 1e-9, 9)
                        xi = F.make(gs[k])
                        out = nl.run(xi, AS[k], q)
                        compare(rec, F, out, ref, case)
                        outs.append((out, ref))
                        if not same(xi, F.make(gs[k])):
                            rec.fail("guess modified", "the initial guess changed", case)
                for out, ref in outs:
                    compare(rec, F, out, ref, case)
            if rec.full:
                return
    rec.sample(case)
