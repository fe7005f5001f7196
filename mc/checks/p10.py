"""P10: compiled = eager for every configuration; histories of several instances and compiled functions."""
import gc
import itertools

import numpy as onp

import refs
from checks.p04 import weights
from checks.p05 import elm_weights, elm_ref, tensor_ref

ASSUMPTIONS = ["C++ backend (the Python backend is documented as not compilable).", "Compiled functions are jax.jit wrappers and ahead-of-time compiled executables on the CPU platform."]
UB = ("CP", "LeP", "FS") + refs.ELM
# name -> (class, basis)
KINDS = {"U": ("u", "CP"), "F": ("u", "FS"), "E": ("u", "ELMTanh"), "R": ("u", "ELMReLU"), "M": ("m", "LeP"), "N": ("m", "ELMSigmoid")}
DOM = ((-1.0, 2.0), (0.0, 3.0))
DEG = 3
PTS = onp.array([[0.3, -0.7, 1.1, 1.9, -1.0], [0.45, 1.7, 0.9, 2.2, 0.0]])
DTYPES = ("float64", "float32", "float16", "bfloat16", "int64", "int32", "int8", "uint8", "bool")


def depth(tier):
    return 2 if tier == "quick" else 3  # with two more actions, the creations, before


def bounds(tier):
    return {"many": "300 (thorough 1100) instances alive or dropped, with compiled functions",
            "lockstep": "8 bases, H dH d2H d4H d8H (utfc), all mixed derivatives to total order 2 (mtfc, dim 1..3), full or not, 0..6, 64, 1000 and 4097 points, 9 number types, jit / jit of vmap / cond / scan / while / switch",
            "histories": f"two instances of every ordered pair of {len(KINDS) if tier != 'quick' else 4} kinds, then all sequences of {depth(tier)} actions (3 for one pair in the quick tier) out of: set w, set b, set c, compile, create another, create and drop a bare basis class, drop a bare basis class created before the first or the second instance, create while tracing, drop the instance and collect; all instances and compiled functions evaluated after every action"}


def groups(tier):
    gs = []
    for b in UB:
        for full in (False, True):
            gs.append({"kind": "u", "basis": b, "full": full})
            gs.append({"kind": "m", "basis": b, "full": full})
        gs.append({"kind": "flow", "basis": b})
    gs.append({"kind": "many", "n": 300 if tier == "quick" else 1100})
    for p in itertools.product(KINDS if tier != "quick" else "UEMN", repeat=2):
        d = depth(tier) if "".join(p) not in (("EN",) if tier == "quick" else ("EE", "NN", "EN", "UE")) else 3
        if d == 3:
            gs += [{"kind": "hist", "pair": p, "d": d, "first": i} for i in range(len(actions(p)))]
        else:
            gs.append({"kind": "hist", "pair": p, "d": d, "first": None})
    return gs


def weight(g):
    return {"many": 9, "hist": 5, "u": 4, "m": 3}.get(g["kind"], 1)


def actions(pair):
    acts = []
    for i, k in enumerate(pair):
        if k in "ERN":
            acts += [("w", i), ("b", i)]
        acts += [("jit", i), ("del", i), ("c", i)]
    return acts + [("new", pair[0]), ("new", "E"), ("raw",), ("inner", pair[1]), ("free", 0), ("free", 1)]


def wts(kind, variant):
    cls, basis = KINDS[kind]
    if cls == "u":
        w, b = weights(DEG + 1)
        w = w + 0.4
    else:
        w, b = elm_weights(2, DEG + 1)
    return w + 0.31 * variant[0], b - 0.17 * variant[1]


_ref = {}


def reference(kind, variant, cscale, n):
    key = (kind, variant, cscale)
    if key not in _ref:
        cls, basis = KINDS[kind]
        dim = 1 if cls == "u" else 2
        # another slope c is another right end of the domain
        doms = [(a, a + (b - a) / cscale) for a, b in DOM[:dim]]
        X = PTS[:dim]
        if basis in refs.ELM:
            w, b = wts(kind, variant)
            _ref[key] = elm_ref(basis, (0,) * dim, X, doms, w.reshape(dim, -1), b)[0][:, 1:]
        else:
            uni = [(onp.stack([refs.uni_table(basis, DEG + 1, 0, float(x), *doms[j])[0] for x in X[j]], 1),) * 2 for j in range(dim)]
            vecs = [v for v in refs.index_vectors(dim, DEG) if not refs.removed(v, [(0,)] * dim)]
            _ref[key] = tensor_ref(uni, vecs, (0,) * dim)[0]
    return _ref[key][:n]


def make(kind):
    from tfc import utfc, mtfc

    cls, basis = KINDS[kind]
    if cls == "u":
        return utfc(4, 1, DEG, basis=basis, x0=DOM[0][0], xf=DOM[0][1])
    return mtfc([3, 3], 1 if basis in refs.ELM else [1, 1], DEG, dim=2, basis=basis, x0=[d[0] for d in DOM], xf=[d[1] for d in DOM])


class Inst:
    def __init__(self, kind):
        self.kind = kind
        self.t = make(kind)
        self.variant, self.cs = (0, 0), 1.0
        self.elm = KINDS[kind][1] in refs.ELM
        self.dim = 1 if KINDS[kind][0] == "u" else 2
        self.bc = self.t.basisClass
        self.c0 = onp.array(self.bc.c, dtype=float)
        if self.elm:
            self.setw()
            self.setb()
        self.comp = []

    def setw(self):
        w = wts(self.kind, self.variant)[0]
        self.bc.w = w
        w[...] = onp.nan  # the caller's array is the caller's

    def setb(self):
        b = wts(self.kind, self.variant)[1]
        self.bc.b = b
        b[...] = onp.nan


def run(g, rec, tier):
    import jax
    import jax.numpy as np

    def same(key, got, want, case, tol=1e-13):
        rec.states += 1
        rec.traces += 1
        rec.transitions += onp.size(want)
        got, want = onp.asarray(got), onp.asarray(want)
        if got.dtype != want.dtype:
            rec.fail(key + ":dtype", f"{got.dtype} instead of {want.dtype}", case)
        rec.close(key, got.astype(float), want.astype(float), tol * (1 + onp.abs(want.astype(float))), case)

    kind = g["kind"]
    if kind in ("u", "m", "flow"):
        basis = g["basis"]
    base = onp.array([0, 1, 2, 1, 0, 2] * 700)[:4097]
    frac = onp.tile(PTS[0], 820)[:4097]
    if kind == "u":
        from tfc import utfc

        full = g["full"]
        for m, nC in ((3, 0), (4, 2), (1, 0)) if tier == "quick" else ((1, 0), (2, 1), (3, 0), (4, 2), (9, [1, 4])):
            t = utfc(5, nC, m - 1, basis=basis, x0=DOM[0][0], xf=DOM[0][1])
            elm = basis in refs.ELM
            if elm:
                t.basisClass.w, t.basisClass.b = weights(m)
            for name in ("H", "dH", "d2H", "d4H", "d8H"):
                f = getattr(t, name)
                J = jax.jit(lambda x: f(x, full=full))
                for n in (0, 1, 2, 3, 5, 6, 64, 1000, 4097) if name == "H" else (0, 1, 2, 3, 5, 6, 64):
                    for dt in DTYPES if n in (3, 64) else DTYPES[:1]:
                        case = {"basis": basis, "f": name, "full": full, "m": m, "nC": nC, "n": n, "dtype": dt}
                        rec.now(str(case))
                        x = np.array(frac[:n]).astype(dt) if "float" in dt else np.array(base[:n]).astype(dt)
                        with rec.guard("lockstep", case):
                            same("lockstep:" + name, J(x), f(x, full=full), case)
                if rec.full:
                    return
        rec.sample(case)
    elif kind == "m":
        from tfc import mtfc
        from tfc.utils import egrad

        full = g["full"]
        elm = basis in refs.ELM
        for dim in (1, 2, 3):
            t = mtfc([3] * dim, 1 if elm else [1] * dim, 2, dim=dim, basis=basis, x0=[-1.0] * dim, xf=[2.0] * dim)
            words = [w for L in (0, 1, 2) for w in itertools.product(range(dim), repeat=L) if list(w) == sorted(w)]
            for w in words:
                f = lambda *v: t.H(*v, full=full)
                for j in w:
                    f = egrad(f, j)
                J = jax.jit(f)
                for n in (0, 1, 2, 5, 64, 4097) if not w else (1, 5):
                    for dt in DTYPES if n == 5 and not w else DTYPES[:1]:
                        case = {"basis": basis, "dim": dim, "derivative": w, "full": full, "n": n, "dtype": dt}
                        rec.now(str(case))
                        pts = [onp.roll(frac if "float" in dt else base, k)[:n] for k in range(dim)]
                        x = [np.array(p).astype(dt) for p in pts]
                        with rec.guard("lockstep", case):
                            same("lockstep:m", J(*x), f(*x), case)
                if rec.full:
                    return
        rec.sample(case)
    elif kind == "flow":
        from tfc import utfc, mtfc

        t = utfc(5, 1, 3, basis=basis, x0=DOM[0][0], xf=DOM[0][1])
        t2 = utfc(5, 0, 2, basis="CP", x0=DOM[0][0], xf=DOM[0][1])
        x = np.array(PTS[0])
        h, h2 = onp.asarray(t.H(x)), onp.asarray(t2.H(x))
        lax = jax.lax
        forms = {
            "cond": (lambda q: lax.cond(q[0] > 0, lambda s: t.H(s), lambda s: t.dH(s), q), h),
            "cond2": (lambda q: lax.cond(q[0] < 0, lambda s: t.H(s), lambda s: t.dH(s), q), onp.asarray(t.dH(x))),
            "switch": (lambda q: lax.switch(np.array(1), [lambda s: t.dH(s), lambda s: t.H(s), lambda s: t.d2H(s)], q), h),
            "scan": (lambda q: lax.scan(lambda c, s: (c, t.H(s[None])[0]), 0, q)[1], h),
            "map": (lambda q: lax.map(lambda s: t.H(s[None])[0], q), h),
            "fori": (lambda q: lax.fori_loop(0, 3, lambda i, a: a + t.H(q), np.zeros(h.shape)), 3 * h),
            "while": (lambda q: lax.while_loop(lambda c: c[0] < 2, lambda c: (c[0] + 1, c[1] + t.H(q)), (0, np.zeros(h.shape)))[1], 2 * h),
            "vmap": (lambda q: jax.vmap(lambda s: t.H(s[None])[0])(q), h),
            "vmap scalar": (lambda q: jax.vmap(t.H)(q), h),
            "two instances": (lambda q: np.concatenate([t.H(q), t2.H(q), t.dH(q)], 1), onp.concatenate([h, h2, onp.asarray(t.dH(x))], 1)),
            "nested jit": (lambda q: jax.jit(t.H)(q) + jax.jit(jax.jit(t.H))(q), 2 * h),
            "constant points": (lambda q: t.H(x) + 0 * q[:, None], h),
            "numpy points": (lambda q: t.H(onp.array(PTS[0])) + 0 * q[:, None], h),
            "list of two": (lambda q: np.stack([t.H(q), t.H(q[::-1])]), onp.stack([h, onp.asarray(t.H(x[::-1]))])),
            "sliced points": (lambda q: t.H(q[1:4]), h[1:4]),
            "strided points": (lambda q: t.H(q[::2]), h[::2]),
            "matrix column": (lambda q: t.H(np.stack([q, q + 1, q], 1)[:, 2]), h),
            "donated sum": (lambda q: t.H(q) @ np.ones(h.shape[1]), h.sum(1)),
            "remat": (lambda q: jax.checkpoint(t.H)(q), h),
            "hypercube": (lambda q: jax.vmap(jax.vmap(t.H))(q.reshape(5, 1, 1)), h.reshape(5, 1, 1, -1)),
        }
        for name, (f, want) in forms.items():
            case = {"basis": basis, "form": name}
            rec.now(str(case))
            with rec.guard("flow", case):
                same("flow:jit", jax.jit(f)(x), want, case)
                same("flow:eager", f(x), want, case)
        rec.sample(case)
    elif kind == "many":
        pool = {}
        last = 0
        for i in range(g["n"]):
            k = "UFERMN"[i % 6]
            case = {"instances": i + 1, "created": k}
            rec.now(str(case))
            with rec.guard("many", case):
                o = Inst(k)
                if o.elm:
                    o.variant = (i // 6 % 4, i // 24 % 3)
                    o.setw()
                    o.setb()
                pts = [np.array(PTS[j]) for j in range(o.dim)]
                if i % 17 == 0 or i & (i - 1) == 0 or i & (i + 1) == 0:
                    o.comp.append(jax.jit(o.t.H).lower(*pts).compile())
                pool[i] = o
                if i % 5 == 4:
                    pool.pop(i - 3)  # also ones with code compiled for them
                if i == g["n"] - 1 or i - last >= 60 or i & (i + 1) == 0 and i > 60:
                    last = i
                    gc.collect()
                    for q, o in pool.items():
                        want = reference(o.kind, o.variant, 1.0, 5)
                        pts = [np.array(PTS[j]) for j in range(o.dim)]
                        same("many:eager", o.t.H(*pts), want, dict(case, instance=q), 1e-11)
                        for c in o.comp:
                            same("many:compiled", c(*pts), want, dict(case, instance=q), 1e-11)
            if rec.full:
                return
        rec.sample(case)
    else:
        do_hist(g, rec, tier, jax, np, same)


def do_hist(g, rec, tier, jax, np, same):
    from tfc.utils import BF

    pair, d = g["pair"], g["d"]
    acts = actions(pair)
    Xn = [PTS[0], PTS[1]]

    def pts(dim, n):
        return [np.array(Xn[j][:n]) for j in range(dim)]

    for seq in itertools.product(range(len(acts)), repeat=d):
        if g["first"] is not None and seq[0] != g["first"]:
            continue
        hist = [("hold",), ("new", pair[0]), ("hold",), ("new", pair[1])] + [acts[i] for i in seq]
        case = {"history": hist}
        rec.now(str(case))
        rec.count("histories")
        pool, raws = [], []
        with rec.guard("history", case):
            for si, act in enumerate(hist):
                if act[0] == "new":
                    pool.append(Inst(act[1]))
                elif act[0] in ("w", "b", "c"):
                    o = pool[act[1]]
                    if act[0] == "w":
                        o.variant = (o.variant[0] + 1, o.variant[1])
                        o.setw()
                    elif act[0] == "b":
                        o.variant = (o.variant[0], o.variant[1] + 1)
                        o.setb()
                    else:
                        o.cs = 2.0 if o.cs == 1.0 else 1.0
                        o.bc.c = o.c0 * o.cs if o.c0.ndim else float(o.c0 * o.cs)
                elif act[0] == "jit":
                    o = pool[act[1]]
                    if o.t is not None:
                        J = jax.jit(o.t.H)
                        o.comp.append((J, None))
                        o.comp.append((J.lower(*pts(o.dim, 3)).compile(), 3))
                elif act[0] == "raw":
                    r = BF.ELMTanh(0.0, 1.0, onp.zeros(0, dtype=onp.int32), 3)
                    r.H(PTS[0], 0, False)
                    del r
                    gc.collect()
                elif act[0] == "hold":
                    r = BF.nLeP(onp.zeros(2), onp.ones(2), onp.full((2, 1), -1, dtype=onp.int32), 3) if raws else BF.ELMTanh(0.0, 1.0, onp.zeros(0, dtype=onp.int32), 3)
                    raws.append(r)
                    del r
                elif act[0] == "free":
                    raws[act[1]] = None
                    gc.collect()
                elif act[0] == "inner":
                    k = act[1]

                    def build(*v):
                        with jax.ensure_compile_time_eval():
                            o = Inst(k)
                        return o.t.H(*v)

                    dim = 1 if KINDS[k][0] == "u" else 2
                    J = jax.jit(build)
                    same("created in jit", J(*pts(dim, 3)), reference(k, (0, 0), 1.0, 3), case, 1e-11)
                    ghost = Inst.__new__(Inst)
                    ghost.kind, ghost.t, ghost.variant, ghost.cs, ghost.dim, ghost.elm, ghost.comp = k, None, (0, 0), 1.0, dim, False, [(J, 3)]
                    pool.append(ghost)
                else:  # drop
                    o = pool[act[1]]
                    if o.t is not None:
                        J = [c for c in o.comp if c[1] is not None]
                        o.comp = J  # ahead-of-time compiled code holds no reference to the instance
                        keep = o.bc if not o.comp else None
                        o.t = None
                        gc.collect()
                rec.transitions += 1
                # everything that is alive evaluates its own basis with its own current weights
                for i, o in enumerate(pool):
                    want = reference(o.kind, o.variant, o.cs, 5)
                    info = {"history": hist[: si + 1], "instance": i}
                    if o.t is not None:
                        same("eager", o.t.H(*pts(o.dim, 5)), want, info, 1e-11)
                        if o.elm:
                            w, b = wts(o.kind, o.variant)
                            same("w", onp.asarray(o.bc.w), w, info, 0.0)
                            same("b", onp.asarray(o.bc.b), b, info, 0.0)
                    for c, n in o.comp:
                        same("compiled", c(*pts(o.dim, n or 3)), want[: n or 3], info, 1e-11)
                    if si == len(hist) - 1 and o.comp and o.comp[0][1] is None:
                        same("recompiled", o.comp[0][0](*pts(o.dim, 4)), want[:4], info, 1e-11)
                if rec.full:
                    return
        if rec.full:
            return
    jax.clear_caches()
    rec.sample(case)
