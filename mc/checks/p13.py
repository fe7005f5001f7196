"""P13: explicit histories of TFCDict and TFCDictRobust against a plain list-of-pairs model."""
import collections
import itertools

import numpy as onp

ASSUMPTIONS = ["Operations whose operands lack keys or have other shapes are not part of the property (they are skipped).",
               "Values are arrays (1-D for TFCDict, any shape for TFCDictRobust); keys are strings, numbers or tuples."]


def D(tier):
    return 3 if tier == "quick" else 4


def bounds(tier):
    return {"variables": 2, "operations": len(OPS), "history depth": f"{D(tier)} (numpy values, after one start), {D(tier) - 1} (all starts, jax values)", "values": "numpy and jax, float, integer and complex, lengths 0..3 (TFCDict), ranks 0 (jax) to 3 (TFCDictRobust)", "assignments": "also of values with another shape", "modes": "eager; traced inside jit (depth 2)"}


# key -> shapes
SH = {"TFCDict": {"b": (2,), "a": (3,), "z": (1,), 7: (2,), "n": (2,), ("t", 1): (0,), "k10": (4,), "k9": (1,)}, "TFCDictRobust": {"b": (2, 2), "a": (3,), "z": (), 7: (1, 2, 1), "n": (2,), ("t", 1): (2, 0), "k10": (2, 2), "k9": (1, 1, 1)}}
GROWN = {"TFCDict": (5,), "TFCDictRobust": (1, 2, 3)}  # another shape for a key that exists
INITS = [["b", "a"], ["a", "b"], ["z", "b", "a"], [7, "n"], ["n"], ["a", ("t", 1), "b"], ["k9", "k10", "b", 7, "a", "n"]]
OPS = ([("init", i) for i in range(len(INITS))] + ["set b", "set n", "set z obj", "grow b", "update grow", "del first", "del last", "pop a", "update", "update pairs", "update B", "A+B", "A-B", "B-A->B", "A+=B", "A-=B", "A+=A", "A-=A", "A+arr", "A-arr", "A+=arr", "A-=arr", "A+jarr",
                                                                    "A+dict", "A-=odict", "B=copy", "B=alias", "swap", "roundtrip", "tree_map", "A+=matrix", "reassign via B"])


def groups(tier):
    gs = []
    for cls in SH:
        for lib in ("numpy", "jax"):
            for i in range(len(INITS)):
                for op in range(len(OPS)):
                    gs.append({"cls": cls, "lib": lib, "init": i, "first": op, "jit": False})
                if lib == "jax" and (tier != "quick" or i in (2, 5)):
                    gs.append({"cls": cls, "lib": lib, "init": i, "first": None, "jit": True})
            for i in (3, 5):
                gs += [{"cls": cls, "lib": lib, "init": i, "first": op, "jit": False, "cx": True} for op in range(len(OPS))]
    return gs


def weight(g):
    return 2 if g["jit"] or (g["lib"] == "numpy" and g["init"] == 2) else 1


class Model:
    """Ordered pairs; A and B may be the same object."""

    def __init__(self, pairs):
        self.d = collections.OrderedDict(pairs)


def run(g, rec, tier):
    import jax
    import jax.numpy as jnp
    from tfc.utils import TFCDict, TFCDictRobust

    cls = {"TFCDict": TFCDict, "TFCDictRobust": TFCDictRobust}[g["cls"]]
    shapes = dict(SH[g["cls"]])
    if g["lib"] == "numpy" and shapes["z"] == ():
        shapes["z"] = (1, 1)  # numpy turns sums of 0-dimensional arrays into plain numbers
    traced = g["jit"]
    conv = jnp.array if g["lib"] == "jax" else onp.array
    ident = jax.jit(lambda d: d)

    def val(key, salt):
        n = int(onp.prod(shapes[key]))
        v = (onp.arange(n) * 1.25 + 0.5 * salt + len(str(key))).reshape(shapes[key])
        if g.get("cx"):
            v = v * (1 - 0.75j)
        elif key == "n":
            v = onp.round(v).astype(int)
        return v

    def size(m):
        return sum(v.size for v in m.d.values())

    def step(op, A, B, mA, mB, k):
        """Returns the new (A, B, mA, mB) or None when the operation does not apply."""
        like = lambda m1, m2: all(key in m2.d and m2.d[key].shape == v.shape for key, v in m1.d.items())
        comb = lambda s: Model([(key, v + s * mB.d[key]) for key, v in mA.d.items()])
        if isinstance(op, (tuple, list)):
            keys = INITS[op[1]]
            src = [(key, val(key, k)) for key in keys]
            form = [(key, conv(v)) for key, v in src]
            A = cls(form) if k % 2 else cls(collections.OrderedDict(form))
            return A, B, Model(src), mB
        if op in ("set b", "set n", "set z obj"):
            key = op.split()[1]
            v = val(key, 10 + k)
            A[key] = conv(v)
            mA.d[key] = v
        elif op in ("grow b", "update grow"):
            v = (onp.arange(onp.prod(GROWN[g["cls"]])) * 0.5 - k).reshape(GROWN[g["cls"]])
            if op == "grow b":
                A["b"] = conv(v)
            else:
                A.update({"b": conv(v)})
            mA.d["b"] = v
        elif op == "del first":
            if len(mA.d) < 2:
                return None
            key = next(iter(mA.d))
            del A[key]
            del mA.d[key]
        elif op == "del last":
            if len(mA.d) < 2:
                return None
            key = list(mA.d)[-1]
            del A[key]
            del mA.d[key]
        elif op == "pop a":
            if "a" not in mA.d or len(mA.d) < 2:
                return None
            got = A.pop("a")
            want = mA.d.pop("a")
            rec.close("pop", onp.asarray(got), want, 1e-12, op)
        elif op in ("update", "update pairs"):
            new = [("a", val("a", 20 + k)), ("z", val("z", 21 + k)), ("b", val("b", 22 + k))]
            A.update({key: conv(v) for key, v in new} if op == "update" else [(key, conv(v)) for key, v in new])
            mA.d.update(new)
        elif op == "update B":
            A.update(B)
            mA.d.update(dict(mB.d))
        elif op in ("A+B", "A-B", "A+=B", "A-=B"):
            if not like(mA, mB):
                return None
            s = 1 if "+" in op else -1
            new = comb(s)
            if op == "A+B":
                A, mA = A + B, new
            elif op == "A-B":
                A, mA = A - B, new
            else:
                if op == "A+=B":
                    A += B
                else:
                    A -= B
                mA.d.update(new.d)
        elif op == "B-A->B":
            if not like(mB, mA):
                return None
            B, mB = B - A, Model([(key, v - mA.d[key]) for key, v in mB.d.items()])
        elif op in ("A+=A", "A-=A"):
            if op == "A+=A":
                A += A
                mA.d.update({key: v + v for key, v in mA.d.items()})
            else:
                A -= A
                mA.d.update({key: v - v for key, v in mA.d.items()})
        elif op in ("A+arr", "A-arr", "A+=arr", "A-=arr", "A+jarr", "A+=matrix"):
            n = size(mA)
            if op == "A+=matrix" and n % 2:
                return None
            arr = (onp.arange(n) * 0.75 - k) * (2 + 0.5j if g.get("cx") else 1)
            o = 0
            new = []
            for key, v in mA.d.items():
                sl = arr[o : o + v.size].reshape(v.shape)
                o += v.size
                new.append((key, v + sl if "+" in op else v - sl))
            real = jnp.array(arr) if op == "A+jarr" or g["lib"] == "jax" else onp.array(arr)
            if op == "A+=matrix":
                real = real.reshape(2, -1)
            keep = None if traced else onp.array(real)
            if op in ("A+arr", "A+jarr"):
                A, mA = A + real, Model(new)
            elif op == "A-arr":
                A, mA = A - real, Model(new)
            else:
                if "+=" in op:
                    A += real
                else:
                    A -= real
                mA.d.update(new)
            if not traced:
                rec.close("operand array", onp.asarray(real), keep, 0.0, op)
        elif op == "A+dict":
            A, mA = A + {key: conv(v) for key, v in reversed([*mA.d.items(), ("extra", onp.ones(1))])}, Model([(key, v + v) for key, v in mA.d.items()])
        elif op == "A-=odict":
            A -= collections.OrderedDict((key, conv(2 * v)) for key, v in reversed(mA.d.items()))
            mA.d.update({key: v - 2 * v for key, v in mA.d.items()})
        elif op == "B=copy":
            B, mB = cls(A), Model(mA.d)
        elif op == "B=alias":
            B, mB = A, mA
        elif op == "swap":
            A, B, mA, mB = B, A, mB, mA
        elif op == "roundtrip":
            A, mA = A.toDict(A.toArray()), Model(mA.d)
        elif op == "tree_map":
            A, mA = jax.tree_util.tree_map(lambda v: v * 2, A), Model([(key, v * 2) for key, v in mA.d.items()])
        elif op == "reassign via B":
            # an element-wise edit of B's array must not reach A's values, and B only when set
            key = next(iter(mB.d))
            B[key] = B[key] * 3
            mB.d[key] = mB.d[key] * 3
        return A, B, mA, mB

    def compare(real, m, hist, who):
        rec.states += 1
        if type(real) is not cls:
            rec.fail("type", f"{who} is a {type(real).__name__}", hist)
            return
        if list(real.keys()) != list(m.d.keys()) or len(real) != len(m.d):
            rec.fail("keys", f"{who} has keys {list(real.keys())}, expected {list(m.d.keys())}", hist)
            return
        for key, v in m.d.items():
            got = onp.asarray(real[key])
            rec.transitions += 1
            if got.shape != v.shape or not onp.allclose(got, v, rtol=0, atol=1e-12):
                rec.fail("value", f"{who}[{key!r}] is {got.tolist()}, expected {v.tolist()}", hist)
                return
        flat = onp.concatenate([v.flatten() for v in m.d.values()])
        got = real.toArray()
        rec.close("toArray", onp.asarray(got), flat, 1e-12, hist)
        for arr in (flat + 1, jnp.array(flat + 1)):
            back = real.toDict(arr)
            ok = type(back) is cls and list(back.keys()) == list(m.d.keys()) and all(onp.asarray(back[k]).shape == v.shape and onp.allclose(onp.asarray(back[k]), v + 1, rtol=0, atol=1e-12) for k, v in m.d.items())
            if not ok:
                rec.fail("toDict", f"{who}.toDict gave {back}, expected {[(k, (v + 1).tolist()) for k, v in m.d.items()]}", hist)

    def through_jax(real, m, hist):
        out = ident(real)
        leaves, tree = jax.tree_util.tree_flatten(real)
        again = jax.tree_util.tree_unflatten(tree, leaves)
        for o in (out, again):
            if type(o) is not cls or list(o.keys()) != list(m.d.keys()) or not all(onp.allclose(onp.asarray(o[k]), v, rtol=0, atol=1e-12) and onp.asarray(o[k]).shape == v.shape for k, v in m.d.items()):
                rec.fail("jax", f"jit or flatten of {real} gave {o}", hist)
        rec.transitions += 2
        if len(leaves) != len(m.d) or not all(onp.allclose(onp.asarray(a), b) for a, b in zip(leaves, m.d.values())):
            rec.fail("leaves", f"leaves {leaves}", hist)

    ini = INITS[g["init"]]

    def start():
        pa = [(k, val(k, 0)) for k in ini]
        pb = [(k, val(k, 5)) for k in sorted(set(ini) | {"b", "a"}, key=str)]
        return pa, pb

    if not traced:
        depth = 2 + (g["lib"] == "numpy" and g["init"] == 2) + (tier != "quick")
        for tail in itertools.product(range(len(OPS)), repeat=depth - 1):
            hist = [OPS[g["first"]]] + [OPS[i] for i in tail]
            pa, pb = start()
            A, B = cls([(k, conv(v)) for k, v in pa]), cls([(k, conv(v)) for k, v in pb])
            mA, mB = Model(pa), Model(pb)
            case = {"class": g["cls"], "values": g["lib"], "init": ini, "history": hist}
            with rec.guard("history", case):
                skip = False
                # snapshots: values a caller kept hold of must not change behind their back
                held = [(v, onp.array(v), who) for who, d in (("A", A), ("B", B)) for v in d.values()]
                for k, op in enumerate(hist):
                    r = step(op, A, B, mA, mB, k)
                    if r is None:
                        skip = True
                        break
                    A, B, mA, mB = r
                    held += [(v, onp.array(v), op) for d in (A, B) for v in d.values()]
                if skip:
                    continue
                rec.traces += 1
                compare(A, mA, case, "A")
                compare(B, mB, case, "B")
                for v, snap, who in held:
                    if not onp.array_equal(onp.asarray(v), snap):
                        rec.fail("operand modified", f"an array of {who} changed from {snap.tolist()} to {onp.asarray(v).tolist()}", case)
                        break
                if len(rec.samples) < 1 or rec.traces % 7 == 0:
                    through_jax(A, mA, case)
            if rec.full:
                return
    else:
        ops = [i for i, o in enumerate(OPS) if o not in ("B=alias",)]
        for seq in itertools.product(ops, repeat=2):
            hist = [OPS[i] for i in seq]
            pa, pb = start()
            mods = {}

            def f(A, B):
                mA, mB = Model(pa), Model(pb)
                for k, op in enumerate(hist):
                    r = step(op, A, B, mA, mB, k)
                    if r is None:
                        mods["skip"] = True
                        return A, B
                    A, B, mA, mB = r
                mods["m"] = (mA, mB)
                return A, B

            case = {"class": g["cls"], "jit": True, "init": ini, "history": hist}
            if "pop a" in hist:
                continue
            with rec.guard("traced", case):
                A0, B0 = cls([(k, conv(v)) for k, v in pa]), cls([(k, conv(v)) for k, v in pb])
                A, B = jax.jit(f)(A0, B0)
                if "skip" in mods:
                    continue
                rec.traces += 1
                compare(A, mods["m"][0], case, "A")
                compare(B, mods["m"][1], case, "B")
                compare(A0, Model(pa), case, "argument A")
                compare(B0, Model(pb), case, "argument B")
                for o, n in ((A, "A"), (B, "B")):
                    if o.block_until_ready() is not o:
                        rec.fail("block_until_ready", f"of {n} is another object", case)
            if rec.full:
                return
        jax.clear_caches()
    rec.sample({"class": g["cls"], "values": g["lib"], "history": hist})
