"""P14: partial evaluation for every function of a library, every ordered choice of constants, pe and pejit."""
import copy
import itertools

import numpy as onp

ASSUMPTIONS = ["Arguments are arrays, numbers and pytrees of them; the remaining arguments keep the shapes they had at transformation.",
               "'Computed once' is observed by counting host callbacks placed in the parts of the function."]


def bounds(tier):
    return {"functions": "17 functions of 1..4 arguments and one of 6 (array, scalar, dict, tuple, list, TFCDict, nested arguments and results, unused arguments, results that depend on constants only or pass an argument through, basis functions of both backends)",
            "constants": "all ordered selections without repetition of the argument numbers" + (", with every sign pattern" if tier != "quick" else ", plus all negative spellings of the sorted ones"), "then": "call, 3 sets of values, jit, grad, vmap, pe of pe"}


def lib():
    import jax.numpy as np
    from tfc.utils import TFCDict, TFCDictRobust
    from tfc import utfc

    s = lambda k: np.array([0.3, 1.1, -0.7]) * (k + 1)
    py = utfc(4, 1, 4, basis="LeP", x0=-1.0, xf=2.0, backend="Python")
    cc = utfc(4, 1, 4, basis="CP", x0=-1.0, xf=2.0)
    z = lambda k: np.arange(4.0) - k
    return {
        "one": (lambda x: np.sin(x) * 2, [s(0)]),
        "two": (lambda x, y: x * y + np.sin(x) - y**2, [s(0), s(1)]),
        "three": (lambda x, y, z: x * y - z + np.exp(x) * np.cos(z), [s(0), s(1), s(2)]),
        "four": (lambda a, b, c, d: a + 2 * b * np.sin(d) - 3 * c + a * d, [s(0), s(1), s(2), s(3)]),
        "shapes": (lambda A, x, k: A @ x + k, [np.arange(6.0).reshape(2, 3), s(0), 2.5]),
        "scalars": (lambda x, n, f: x * n + f, [s(0), 3, -0.25]),
        "unused": (lambda x, y, z: x * 2, [s(0), s(1), s(2)]),
        "through": (lambda x, y, z: (z, x, y * x), [s(0), s(1), s(2)]),
        "const result": (lambda x, y: {"c": np.sin(x), "v": y * 2, "k": np.ones(2)}, [s(0), s(1)]),
        "dict": (lambda d, x, t: {"s": d["a"] * x + d["b"].sum(), "t": t[0] - t[1][0] * x}, [{"b": s(1), "a": s(2)}, s(0), (s(3), [s(1)])]),
        "tfcdict": (lambda xi, x, q: TFCDict([("z", xi["z"] * x), ("a", xi["a"] + q)]), [TFCDict([("z", s(0)), ("a", s(1))]), s(2), s(3)]),
        "robust": (lambda a, xi, b: TFCDictRobust([("m", xi["m"] * a[0]), ("v", xi["v"] @ b)]), [s(0), TFCDictRobust([("m", np.ones((2, 2))), ("v", np.arange(6.0).reshape(2, 3))]), s(1)]),
        "nested list": (lambda L, x, y: [[L[0] + x, (y, L[1]["k"])]], [[s(0), {"k": s(1)}], s(2), s(3)]),
        "singleton": (lambda x, y, w: [x * y + w], [s(0), s(1), s(2)]),
        "python basis": (lambda x, xi, c: np.dot(py.H(x), xi) * c + py.dH(x)[:, 0], [np.array([0.1, -0.4, 1.2]), z(0), 2.0]),
        "compiled basis": (lambda c, x, xi: np.dot(cc.H(x), xi) * c + cc.d2H(x)[:, 1], [1.5, np.array([0.1, -0.4, 1.2]), z(1)]),
        "control": (lambda x, y, n: __import__("jax").lax.cond(n > 1.0, lambda q: q * x, lambda q: q - x, y), [s(0), s(1), 2.0]),
        "six": (lambda a, b, c, d, e, f: {"r": a + 2 * b - 3 * c * d, "q": (e - 5 * f + a * e, c)}, [s(0), s(4), s(2), s(6), s(1), s(3)]),
        "minus": (lambda a, b, c, d: {"r": (a - b) / (c - d), "q": [c]}, [s(0), s(4), s(2), s(6)]),
    }


NAMES = ["one", "two", "three", "four", "shapes", "scalars", "unused", "through", "const result", "dict", "tfcdict", "robust", "nested list", "singleton", "python basis", "compiled basis", "control", "minus", "six"]


def groups(tier):
    return [{"f": n, "tr": t} for n in NAMES for t in ("pe", "pejit")] + [{"f": "once", "tr": t} for t in ("pe", "pejit")]


def weight(g):
    return 3 if g["f"] in ("four", "minus", "six") else 1


def run(g, rec, tier):
    import jax
    import jax.numpy as np
    from tfc.utils import pejit
    from tfc.utils.TFCUtils import pe

    tr = {"pe": pe, "pejit": pejit}[g["tr"]]
    tu = jax.tree_util

    def same(key, got, want, case):
        rec.states += 1
        rec.traces += 1
        gl, gt = tu.tree_flatten(got)
        wl, wt = tu.tree_flatten(want)
        if gt != wt:
            rec.fail(key + ":structure", f"result has structure {gt}, expected {wt}", case)
            return
        for a, b in zip(gl, wl):
            rec.transitions += 1
            b = onp.asarray(b)
            rec.close(key, onp.asarray(a), b, 1e-12 * (1 + onp.abs(b)), case)

    if g["f"] == "once":
        return once(rec, tr, jax, np, tier)
    f, args = lib()[g["f"]]
    n = len(args)
    for k in range(n + 1):
        for sel in itertools.permutations(range(n), k):
            if n == 6 and tier == "quick" and list(sel) not in (sorted(sel), sorted(sel)[::-1], sorted(sel)[1:] + sorted(sel)[:1]):
                continue
            if g["f"] == "python basis" and (0 not in sel and (k or g["tr"] == "pejit")):
                continue  # documented: the Python backend cannot be traced, its points have to be constants
            spells = [list(sel)]
            if tier != "quick":
                spells = [[i if not (mask >> p) & 1 else i - n for p, i in enumerate(sel)] for mask in range(1 << k)]
            elif list(sel) == sorted(sel) and k:
                spells += [[i - n for i in sel], [i - n if p == 0 else i for p, i in enumerate(sel)]]
            for cs in spells:
                case = {"f": g["f"], "transform": g["tr"], "constant_arg_nums": cs}
                rec.now(str(case))
                with rec.guard("pe", case):
                    snap = [onp.array(x) for x in tu.tree_leaves(args)]
                    nums = list(cs)
                    F = tr(*args, constant_arg_nums=nums)(f)
                    if nums != cs:
                        rec.fail("caller's list", f"constant_arg_nums became {nums}", case)
                    rest = [i for i in range(n) if i not in sel]
                    for v in range(3):
                        new = [args[i] if i in sel else tu.tree_map(lambda q: q * (1 + 0.5 * v) + 0.25 * v if v else q, args[i]) for i in range(n)]
                        if g["f"] == "scalars":
                            new = [q if i in sel or not v else type(args[i])(q) if i == 1 else q for i, q in enumerate(new)]
                        if g["f"] == "control" and 2 not in sel:
                            new[2] = [2.0, 0.5, 1.0][v]
                        same("value", F(*[new[i] for i in rest]), f(*new), case)
                    for a, b in zip(tu.tree_leaves(args), snap):
                        if not onp.array_equal(onp.asarray(a), b):
                            rec.fail("arguments", "an argument changed", case)
                    if list(sel) == sorted(sel):
                        ra = [args[i] for i in rest]
                        if rest and g["f"] not in ("python basis",) or (g["f"] == "python basis" and 0 in sel):
                            same("jit", jax.jit(F)(*ra), f(*args), case)
                        fl = [i for i in rest if all(onp.asarray(q).dtype.kind == "f" for q in tu.tree_leaves(args[i]))]
                        if fl:
                            i = fl[0]
                            tot = lambda fn: (lambda *a: sum(np.sum(q) for q in tu.tree_leaves(fn(*a))))
                            if g["f"] != "python basis" or 0 in sel:
                                same("grad", jax.grad(tot(F), rest.index(i))(*ra), jax.grad(tot(f), i)(*args), case)
                        if len(rest) >= 1 and k >= 1 and g["f"] != "python basis":
                            # once more: remove the last remaining argument too
                            F2 = tr(*ra, constant_arg_nums=[len(rest) - 1])(F)
                            same("pe of pe", F2(*ra[:-1]), f(*args), case)
                        if rest and g["f"] in ("two", "three", "four", "minus", "through"):
                            B = lambda q: np.stack([q, q + 1.0])
                            want = [f(*[args[i] if i in sel else B(args[i])[j] for i in range(n)]) for j in range(2)]
                            same("vmap", jax.vmap(F)(*[B(q) for q in ra]), tu.tree_map(lambda *q: np.stack(q), *want), case)
                if rec.full:
                    return
    # no constants: unchanged function; default argument
    with rec.guard("none", g["f"]):
        if g["f"] != "python basis" or g["tr"] == "pe":
            same("no constants", tr(*args)(f)(*args), f(*args), g["f"])
        wrapped = tr(*args, constant_arg_nums=[0])
        same("reused", wrapped(f)(*args[1:]), f(*args), g["f"])
        # the transformation applied to a second function of the same arguments
        h = lambda *a: tu.tree_map(lambda q: q * 2, a[0])
        same("second function", wrapped(h)(*args[1:]), h(*args), g["f"])
        same("first again", wrapped(f)(*args[1:]), f(*args), g["f"])
    jax.clear_caches()
    rec.sample(case)


def once(rec, tr, jax, np, tier):
    """Host callbacks count how often each part runs."""
    for n in (2, 3, 4):
        for k in range(0, n + 1):
            for sel in itertools.permutations(range(n), k):
                if list(sel) != sorted(sel) and n == 4 and tier == "quick":
                    continue
                cnt = {}

                def tick(name):
                    def cb(x):
                        cnt[name] = cnt.get(name, 0) + 1
                        return onp.asarray(x) * 2
                    return cb

                def part(name, x):
                    return jax.pure_callback(tick(name), jax.ShapeDtypeStruct(x.shape, x.dtype), x)

                def f(*a):
                    one = [part((i,), q) for i, q in enumerate(a)]
                    pairs = [part((i, j), a[i] * a[j]) for i in range(n) for j in range(i + 1, n)]
                    return sum(one) + sum(pairs)

                args = [np.array([0.5, 1.5]) + i for i in range(n)]
                want = 2 * sum(args) + 2 * sum(args[i] * args[j] for i in range(n) for j in range(i + 1, n))
                case = {"n": n, "constants": sel}
                rec.now(str(case))
                with rec.guard("once", case):
                    F = tr(*args, constant_arg_nums=list(sel))(f)
                    at = dict(cnt)
                    rest = [args[i] for i in range(n) if i not in sel]
                    for _ in range(3):
                        out = onp.asarray(F(*rest))
                        rec.close("once:value", out, onp.asarray(want), 1e-12, case)
                    jax.effects_barrier()
                    rec.states += 1
                    rec.traces += 1
                    for name in [(i,) for i in range(n)] + [(i, j) for i in range(n) for j in range(i + 1, n)]:
                        rec.transitions += 1
                        const = all(i in sel for i in name) and k > 0
                        if const and (at.get(name, 0) != 1 or cnt.get(name, 0) != 1):
                            rec.fail("once", f"part {name} depends on constants only: run {at.get(name, 0)} times at transformation, {cnt.get(name, 0) - at.get(name, 0)} times in 3 calls", case)
                        if not const and at.get(name, 0) != 0:
                            rec.fail("once", f"part {name} depends on a remaining argument but ran at transformation", case)
                        if not const and cnt.get(name, 0) < 3:
                            rec.fail("once", f"part {name} depends on a remaining argument but ran {cnt.get(name, 0)} times in 3 calls", case)
                if rec.full:
                    return
    rec.sample(case)
