"""P12: memory safety of the compiled layer.

The extension is built from the working tree twice with AddressSanitizer and UndefinedBehaviorSanitizer (stack variables initialised
with a pattern in one build and with zero in the other), with every allocation of the extension going through a shim that counts live
blocks and fills new memory with a byte of the check's choosing.  Every configuration and every history below runs on that build.
"""
import ctypes
import glob
import hashlib
import importlib.util
import itertools
import json
import os
import subprocess
import sys
import threading

import numpy as onp

import convention

NO_TFC = True
ASSUMPTIONS = [
    "Out-of-bounds and use-after-free accesses are those AddressSanitizer sees in the extension's own code (pybind11 glue included); the memory XLA passes in is checked exactly by calling the registered entry point on malloc'ed buffers.",
    "Uninitialised reads are seen through results that depend on what fresh heap memory (two fill bytes) or fresh stack memory (two builds) contains.",
    "Leaks are live blocks that grow with each repetition of the same evaluation (or of the same history, beyond what its constructions alone leave behind).",
]
POLY = ("CP", "LeP", "LaP", "HoPpro", "HoPphy", "FS")
ELM = ("ELMSigmoid", "ELMReLU", "ELMTanh", "ELMSin", "ELMSwish")
NPOLY = ("nCP", "nLeP", "nFS")
NELM = tuple("n" + e for e in ELM)
LIBASAN = "/usr/lib/gcc/x86_64-linux-gnu/13/libasan.so /usr/lib/x86_64-linux-gnu/libstdc++.so.6"  # both, or exceptions cannot be thrown
CAPNAME = b"xla._CUSTOM_CALL_TARGET"


def bounds(tier):
    q = tier == "quick"
    return {"univariate": f"11 bases, 1..{5 if q else 8} and 24 functions, all removed sets up to 4 functions (ordered), 7 shapes of set above, 0,1,2,5,67 points, orders 0..{10 if q else 14}, full or not, both entry points",
            "multivariate": f"8 bases, dim 1..{3 if q else 4}, 1..4 functions per dimension, removed sets per dimension padded with -1, all mixed orders up to total 3 and single orders up to 10, short order arrays",
            "wide": "up to 130 functions, 6 dimensions, 20000 points; all ordered pairs of 30 kinds of evaluation in turn on two instances",
            "histories": f"all sequences of {4 if q else 5} actions of two instances: create, evaluate, evaluate compiled, hold results and views, set and get w b c, delete",
            "compiled": "jit of H for 8 utfc and 8 mtfc bases under the sanitizers"}


def prepare(runmod, scratch, tier):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    obj = os.path.join(scratch, "shim.o")
    subprocess.run(["gcc", "-c", "-O1", "-fPIC", "-w", os.path.join(here, "native", "shim.c"), "-o", obj], check=True)
    nm = subprocess.run(["nm", obj], check=True, stdout=subprocess.PIPE, text=True).stdout
    wraps = sorted({w.split("__wrap_", 1)[1] for w in nm.split() if w.startswith("__wrap_")})
    # of the undefined-behaviour checks only those about memory: others also fire on harmless code, such as memcpy of no bytes from NULL
    san = "-fsanitize=address,bounds -fno-sanitize-recover=bounds -fno-omit-frame-pointer"
    ld = san + " " + obj + "".join(f" -Wl,--wrap={w}" for w in wraps)
    res, err = {}, {}

    def one(kind):
        try:
            res[kind] = runmod.build(scratch, kind, debug=True, cxx="g++", cc="gcc", env_extra={
                "CXXFLAGS": f"-w -O1 {san} -ftrivial-auto-var-init={kind}", "LDFLAGS": ld})
        except BaseException as e:
            err[kind] = e

    def ask():
        try:
            res["conv"] = convention.learn(runmod, scratch)
        except BaseException as e:
            err["conv"] = e

    ts = [threading.Thread(target=one, args=(k,)) for k in ("pattern", "zero")] + [threading.Thread(target=ask)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for e in err.values():
        raise e
    # allocator_may_return_null and the like stay at their defaults; leaks are counted by the shim
    return res["pattern"], {"LD_PRELOAD": LIBASAN, "MC_TREE2": res["zero"], "MC_CONV": json.dumps(res["conv"] if len(res["conv"]) == 2 else {}),
                            "ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:quarantine_size_mb=16",
                            "UBSAN_OPTIONS": "print_stacktrace=1"}


BF = LIB = LIBC = HELPER = None
CONV = json.loads(os.environ.get("MC_CONV", "{}"))


def load(tree):
    """The extension alone, under the name the package would import it by (no jax)."""
    global BF, LIB, LIBC
    so = glob.glob(os.path.join(tree, "src", "tfc", "utils", "BF.*.so"))[0]
    spec = importlib.util.spec_from_file_location("tfc.utils.BF", so)
    BF = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(BF)
    sys.modules["tfc.utils.BF"] = BF
    LIB = ctypes.CDLL(so)
    for f in ("mc_live", "mc_bytes", "mc_total"):
        getattr(LIB, f).restype = ctypes.c_long
    LIBC = ctypes.CDLL(None)
    LIBC.malloc.restype = ctypes.c_void_p
    LIBC.malloc.argtypes = [ctypes.c_size_t]
    LIBC.free.argtypes = [ctypes.c_void_p]
    g = ctypes.pythonapi.PyCapsule_GetPointer
    g.restype = ctypes.c_void_p
    g.argtypes = [ctypes.py_object, ctypes.c_char_p]


def worker_init(tier):
    global HELPER
    load(os.environ["MC_TREE"])
    env = dict(os.environ, MC_TREE=os.environ["MC_TREE2"])
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    HELPER = subprocess.Popen([sys.executable, "-c", "import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True\nimport checks.p12 as p; p.helper()" % here],
                              stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, text=True)


def helper():
    load(os.environ["MC_TREE"])
    for line in sys.stdin:
        g, tier = json.loads(line)
        out = [digest(c) for c in cases(g, tier)]
        print(json.dumps(out), flush=True)


class Buf:
    """An exactly sized malloc'ed buffer (red zones on both sides)."""

    def __init__(self, arr=None, nbytes=None, fill=None):
        self.n = arr.nbytes if arr is not None else nbytes
        self.p = LIBC.malloc(self.n)
        if arr is not None:
            ctypes.memmove(self.p, arr.tobytes(), self.n)
        elif fill is not None:
            ctypes.memset(self.p, fill, self.n)

    def bytes(self):
        return ctypes.string_at(self.p, self.n)

    def free(self):
        LIBC.free(self.p)


def xla_call(obj, x, d, full, n, mOut, fill, uni):
    """The entry point XLA calls, on exactly sized buffers.  Returns the output bytes."""
    fn = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.POINTER(ctypes.c_void_p))(
        ctypes.pythonapi.PyCapsule_GetPointer(obj.xlaCapsule, CAPNAME))
    ins = convention.pack(CONV["uni" if uni else "multi"], {"id": obj.identifier, "x": x, "d": d, "dlen": 1 if uni else len(d), "full": full, "n": n, "m": mOut})
    bufs = [Buf(a) for a in ins]
    out = Buf(nbytes=8 * n * mOut, fill=fill)
    ptrs = (ctypes.c_void_p * len(bufs))(*[b.p for b in bufs])
    fn(out.p, ptrs)
    res = out.bytes()
    changed = [k for k, (a, b) in enumerate(zip(ins, bufs)) if b.bytes() != a.tobytes()]
    for b in bufs + [out]:
        b.free()
    if changed:
        raise AssertionError(f"the compiled call changed its input {changed}")
    return res


def wb(m, dim=None):
    b = onp.array([0.3 * k - 0.7 for k in range(m)])
    if dim is None:
        return onp.array([((-1) ** k) * (0.4 + 0.2 * k) for k in range(m)]), b
    return onp.array([[((-1) ** (k + j)) * (0.4 + 0.2 * k - 0.1 * j) for k in range(m)] for j in range(dim)]), b


def subsets(m):
    """Removed sets that the package can pass: distinct indices in any order."""
    if m <= 4:
        for k in range(m + 1):
            yield from itertools.permutations(range(m), k) if m <= 3 else itertools.combinations(range(m), k)
    else:
        yield from ((), (0,), (m - 1,), (0, 1), (m - 1, 0), tuple(range(1, m)), tuple(range(m)))


def cases(g, tier):
    q = tier == "quick"
    if g["kind"] == "uni":
        m = g["m"]
        for nC in subsets(m):
            for n in (0, 1, 2, 5, 67) if m < 24 else (0, 1, 3, 700):
                for d in range(11 if q else 15):
                    for full in (False, True):
                        yield {"cls": g["cls"], "m": m, "nC": list(nC), "n": n, "d": d, "full": full}
    elif g["kind"] == "wide":
        # past any size at which the code could treat its scratch memory differently
        cls = g["cls"]
        for m, dim in ((33, 1), (70, 1), (130, 1)) if cls in POLY + ELM else ((20, 1), (12, 2), (6, 3), (3, 4), (2, 5)) if cls in NPOLY else ((70, 1), (33, 2), (130, 2), (9, 4), (5, 6)):
            for nC in ((), (0, m - 1), tuple(range(0, m, 2))):
                for n in (0, 1, 40, 300) if m * dim < 60 else (1, 40):
                    for d in (0, 1, 2, 3, 8, 9, 12):
                        for full in (False, True):
                            c = {"cls": cls, "m": m, "nC": list(nC), "n": n, "d": d, "full": full}
                            if cls in NPOLY + NELM:
                                c.update(dim=dim, d=[d] + [1] * (dim - 1) if d < 4 else [0] * (dim - 1) + [d])
                            if cls in NPOLY:
                                c["nC"] = [list(nC)] * dim
                            yield c
        if cls in POLY + ELM:
            for d in (0, 1, 2):
                yield {"cls": cls, "m": 7, "nC": [2], "n": 20000, "d": d, "full": False}
    elif g["kind"] == "multi":
        m, dim = g["m"], g["dim"]
        if g["cls"] in NPOLY:
            per = [s for s in ((), (0,), (0, 1), (m - 1,), tuple(range(m))) if all(0 <= k < m for k in s)]
            per = sorted(set(per))
            sets = list(itertools.product(per, repeat=dim)) if dim <= 2 else [(s,) * dim for s in per] + [per[-1:] + [()] * (dim - 1)] + [[()] * (dim - 1) + per[-1:]]
        else:
            sets = list(subsets(m))
        orders = [d for d in itertools.product(range(4), repeat=dim) if sum(d) <= 3] if dim <= 3 else [d for d in itertools.product(range(3), repeat=dim) if sum(d) <= 2]
        orders += [tuple(k if j == t else 0 for j in range(dim)) for t in (0, dim - 1) for k in range(4, 11)] + [tuple([2] * k) for k in range(dim)] + [()]
        for s in sets:
            for n in (0, 1, 3, 33) if len(sets) < 20 else (0, 1, 3):
                for d in dict.fromkeys(orders):
                    for full in (False, True):
                        yield {"cls": g["cls"], "m": m, "dim": dim, "nC": [list(k) for k in s] if g["cls"] in NPOLY else list(s), "n": n, "d": list(d), "full": full}


def make(c):
    cls = getattr(BF, c["cls"])
    if "dim" not in c:
        o = cls(-1.0, 2.0, onp.array(c["nC"], dtype=onp.int32), c["m"])
        if c["cls"] in ELM:
            o.w, o.b = wb(c["m"])
        return o
    dim = c["dim"]
    x0, xf = onp.array([-1.0 - j for j in range(dim)]), onp.array([2.0 + 0.5 * j for j in range(dim)])
    if c["cls"] in NPOLY:
        k = max(map(len, c["nC"]), default=0)
        nC = onp.array([s + [-1] * (k - len(s)) for s in c["nC"]], dtype=onp.int32).reshape(dim, k)
    else:
        nC = onp.array(c["nC"], dtype=onp.int32)
    o = cls(x0, xf, nC, c["m"])
    if c["cls"] in NELM:
        o.w, o.b = wb(c["m"], dim)
    return o


def pts(c):
    n = c["n"]
    x = onp.array([(-0.9 + 2.83 * ((k * 7 + 3) % max(n, 1)) / max(n, 1)) for k in range(n)])
    if "dim" not in c:
        return x
    return onp.array([onp.roll(x, j) for j in range(c["dim"])]).reshape(c["dim"], n)


_cache = {}


def evaluate(c, fill):
    """One case under one fill byte: bytes of H and of the compiled entry point."""
    LIB.mc_fill(fill)
    key = (json.dumps([c["cls"], c["m"], c.get("dim"), c["nC"]]), fill)
    if key not in _cache:
        _cache.clear() if len(_cache) > 3 else None
        _cache[key] = make(c)
    o = _cache[key]
    x = pts(c)
    d = c["d"] if "dim" not in c else onp.array(c["d"], dtype=onp.int32)
    H = o.H(x, d, c["full"])
    r = xla_call(o, x, c["d"], c["full"], c["n"], H.shape[1], fill, "dim" not in c) if CONV else b""
    return H.shape, H.tobytes(), r, o


def digest(c):
    s, h, r, _ = evaluate(c, 0x11)
    return hashlib.sha1(repr(s).encode() + h + r).hexdigest()[:12]


def groups(tier):
    q = tier == "quick"
    gs = []
    for b in POLY + ELM:
        for m in list(range(1, 6 if q else 9)) + [24]:
            gs.append({"kind": "uni", "cls": b, "m": m})
    for b in NPOLY + NELM:
        for dim in (1, 2, 3) if q else (1, 2, 3, 4):
            for m in (1, 2, 3, 4):
                gs.append({"kind": "multi", "cls": b, "dim": dim, "m": m})
    for b in POLY + ELM + NPOLY + NELM:
        gs += [{"kind": "wide", "cls": b}, {"kind": "switch", "cls": b}]
        gs.append({"kind": "hist", "cls": b})
    for b in ("CP", "LeP", "FS") + ELM:
        gs += [{"kind": "jax", "cls": b, "lib": l} for l in ("utfc", "mtfc")]
    return gs


def weight(g):
    return {"jax": 100, "hist": 50, "wide": 30, "switch": 5, "uni": g.get("m", 0), "multi": g.get("dim", 0) * 8}[g["kind"]]


def run(g, rec, tier):
    if g["kind"] == "hist":
        return histories(g, rec, tier)
    if g["kind"] == "jax":
        return compiled(g, rec, tier)
    if g["kind"] == "switch":
        return switching(g, rec, tier)
    HELPER.stdin.write(json.dumps([g, tier]) + "\n")
    HELPER.stdin.flush()
    mine, cs = [], []
    for c in cases(g, tier):
        rec.states += 1
        rec.traces += 2
        rec.transitions += c["n"] * c["m"]
        with rec.guard("evaluation", c):
            s1, h1, r1, o1 = evaluate(c, 0x11)
            mine.append(hashlib.sha1(repr(s1).encode() + h1 + r1).hexdigest()[:12])
            cs.append(c)
            s2, h2, r2, o2 = evaluate(c, 0xFF)
            if (s1, h1, r1) != (s2, h2, r2):
                rec.fail("uninitialised", f"the result depends on what fresh memory contains: {onp.frombuffer(h1)[:6]} / {onp.frombuffer(h2)[:6]}; compiled {onp.frombuffer(r1)[:6]} / {onp.frombuffer(r2)[:6]}", c)
            live = LIB.mc_live()
            total = LIB.mc_total()
            evaluate(c, 0xFF)
            if LIB.mc_live() != live:
                rec.fail("leak", f"one more evaluation leaves {LIB.mc_live() - live} more live blocks", c)
            rec.count("allocations_watched", LIB.mc_total() - total)
            # inputs of another layout are converted, not misread
            if c["n"] == 5:
                x = pts(c)
                d = c["d"] if "dim" not in c else onp.array(c["d"], dtype=onp.int64)
                for v in (onp.repeat(x, 2, axis=-1)[..., ::2], onp.asfortranarray(x), x[..., ::-1].copy()[..., ::-1]):
                    if o1.H(v, d, c["full"]).tobytes() != h1:
                        rec.fail("layout", "another memory layout of the points changes the result", c)
        if rec.full:
            break
    line = HELPER.stdout.readline()
    if not line:
        rec.fail("crash", f"the second build ended with status {HELPER.wait()} in these cases (its report is in the log)", None)
        os._exit(3)
    for c, a, b in zip(cs, mine, json.loads(line)):
        if a != b:
            rec.fail("uninitialised-stack", "the result depends on what fresh stack memory contains", c)
    rec.sample(c)


# ------------------------------------------------------------------------------------------------------------ histories
def switching(g, rec, tier):
    """Evaluations of different kinds in turn: the third round may not need more memory than the second."""
    cls = g["cls"]
    multi = cls in NPOLY + NELM
    base = {"cls": cls, "m": 4, "nC": [1]}
    if multi:
        base.update(dim=2, nC=[[1], [0]] if cls in NPOLY else [1])
    o, o2 = make(base), make(dict(base, m=6))
    kinds = [(n, d, full) for n in (1, 5, 40) for d in (0, 1, 2, 4, 9) for full in (False, True)]

    def ev(inst, k):
        n, d, full = k
        dd = [d, 1] if multi else d
        x = pts(dict(base, n=n))
        H = inst.H(x, onp.array(dd, dtype=onp.int32) if multi else dd, full)
        return H.tobytes(), xla_call(inst, x, dd, full, n, H.shape[1], 0x11, not multi) if CONV else b""

    LIB.mc_fill(0x11)
    want = {k: ev(o, k) for k in kinds}
    want2 = {k: ev(o2, k) for k in kinds}
    for a, b in itertools.product(kinds, repeat=2):
        case = dict(base, first=list(a), second=list(b))
        rec.states += 1
        rec.traces += 1
        with rec.guard("switching", case):
            live = []
            for _ in range(3):
                for inst, k, w in ((o, a, want), (o2, b, want2), (o, b, want)):
                    rec.transitions += 1
                    if ev(inst, k) != w[k]:
                        rec.fail("switching", f"an evaluation {k} after others gives another result", case)
                live.append(LIB.mc_live())
            if live[2] > live[1]:
                rec.fail("leak", f"evaluating in turn leaves {live[2] - live[1]} more live blocks per round", case)
        if rec.full:
            return
    rec.sample(case)


def histories(g, rec, tier):
    cls = g["cls"]
    multi = cls in NPOLY + NELM
    elm = cls in ELM + NELM
    depth = 4 if tier == "quick" else 5
    acts = ["new", "H0", "X0", "H1", "X1", "del0", "del1", "c0"] if CONV else ["new", "H0", "H1", "del0", "del1", "c0"]
    if elm:
        acts += ["w0", "b0"]
    c = {"cls": cls, "m": 3, "nC": [0], "n": 4, "d": 1, "full": False}
    if multi:
        c.update(dim=2, d=[1, 0], nC=[[0], [0, 1]] if cls in NPOLY else [0])
    x = pts(c)
    d = c["d"] if not multi else onp.array(c["d"], dtype=onp.int32)

    def play(seq):
        """Runs a history; afterwards everything is dropped.  Returns the number of constructions."""
        objs = [make(c), None]
        want = [make_want(objs[0]), None]
        held = []  # (array, what it must contain)
        made = 1
        for a in seq:
            k = int(a[-1]) if a[-1].isdigit() else 0
            if a == "new":
                k = 0 if objs[0] is None else 1
                objs[k] = make(c)
                want[k] = make_want(objs[k])
                made += 1
                continue
            o = objs[k]
            if o is None:
                continue
            if a[0] == "H":
                H = o.H(x, d, False)
                if H.tobytes() != want[k][0]:
                    rec.fail("history", f"instance {k} evaluates differently", {"seq": seq, **c})
                held.append((H, H.tobytes()))
            elif a[0] == "X":
                mOut = len(want[k][0]) // 8 // c["n"]
                if not onp.allclose(onp.frombuffer(xla_call(o, x, c["d"], False, c["n"], mOut, 0x5A, not multi)), onp.frombuffer(want[k][0]), rtol=1e-10, atol=1e-12, equal_nan=True):
                    rec.fail("history", f"instance {k} evaluates differently compiled", {"seq": seq, **c})
            elif a[:3] == "del":
                objs[k] = want[k] = None
                del o
            elif a[0] == "c":
                v = o.c
                if multi:
                    held.append((v, None))
                    o.c = onp.array(v) * 2
                else:
                    o.c = v * 2
                want[k] = make_want(o)
            else:
                name = a[0]
                v = getattr(o, name)
                held.append((v, v.tobytes()))
                setattr(o, name, onp.array(v) + 1)
                v2 = getattr(o, name)
                if onp.any(v2 != onp.array(v) + 1):
                    rec.fail("history", f"{name} reads back differently", {"seq": seq, **c})
                want[k] = make_want(o)
            for arr, b in held:  # all results and views stay readable, results stay what they were
                now = arr.tobytes()
                if b is not None and now != b:
                    rec.fail("history", "an array that was returned earlier changed", {"seq": seq, **c})
                arr *= 1.0  # and writable
        objs = o = None
        for arr, b in held:
            now = arr.tobytes()
            if b is not None and now != b:
                rec.fail("history", "an array that was returned earlier changed", {"seq": seq, **c})
        held.clear()
        return made

    def make_want(o):
        return (o.H(x, d, False).tobytes(),)

    def leak(seq):
        play(seq)
        a = LIB.mc_live()
        n = play(seq)
        return n, LIB.mc_live() - a

    LIB.mc_fill(0xFF)
    make(c)
    n, base = leak(())
    for seq in itertools.product(acts, repeat=depth):
        rec.now({"seq": seq, **c})
        rec.states += 1
        rec.traces += 1
        rec.transitions += depth
        with rec.guard("history", {"seq": seq, **c}):
            n, l = leak(seq)
            if l != n * base:
                rec.fail("leak", f"{l} live blocks are left behind by {n} instances; constructing and deleting them leaves {n * base}", {"seq": seq, **c})
        if rec.full:
            return
    rec.count("histories", len(acts) ** depth)
    rec.sample({"history": seq, **c})


# ------------------------------------------------------------------------------------------------------------ compiled
def compiled(g, rec, tier):
    import jax
    import jax.numpy as np
    from tfc import utfc, mtfc

    cls = g["cls"]
    LIB.mc_fill(0xFF)
    for m, nC in ((0, -1), (4, -1), (4, [1, 0])) if g["lib"] == "utfc" else ():
        if True:
            for n in (1, 5) if tier == "quick" else (1, 2, 5, 64):
                for full in (False, True):
                    case = {"utfc": cls, "deg": m, "nC": str(nC), "n": n, "full": full}
                    rec.now(case)
                    with rec.guard("compiled", case):
                        t = utfc(max(n, 2), nC, m, basis=cls, x0=-1.0, xf=2.0)
                        x = np.linspace(-0.9, 1.9, n)
                        for f in (t.H, t.dH, t.d2H, t.d8H):
                            rec.states += 1
                            rec.traces += 1
                            J = jax.jit(lambda v, f=f: f(v, full=full))
                            want = onp.asarray(f(x, full=full))
                            got = onp.asarray(J(x))
                            live = LIB.mc_live()
                            again = onp.asarray(J(x))
                            if LIB.mc_live() != live:
                                rec.fail("leak", f"one more compiled evaluation leaves {LIB.mc_live() - live} more live blocks", case)
                            rec.transitions += got.size
                            if got.shape != want.shape or not onp.allclose(got, want, equal_nan=True) or got.tobytes() != again.tobytes():
                                rec.fail("compiled", f"{got} instead of {want}, again {again}", case)
                    jax.clear_caches()
    for dim in () if g["lib"] == "utfc" else (2, 3) if tier == "quick" else (1, 2, 3, 4):
        for m in (0, 2) if dim == 2 else (2,):
            for n in (1, 5):
                for full in (False, True):
                    case = {"mtfc": cls, "deg": m, "dim": dim, "n": n, "full": full}
                    rec.now(case)
                    with rec.guard("compiled", case):
                        t = mtfc([2] * dim, -1 if cls in ELM else [-1] * dim, m, dim=dim, basis=cls, x0=[-1.0] * dim, xf=[2.0] * dim)
                        x = [np.linspace(-0.9, 1.9, n) + 0.01 * j for j in range(dim)]
                        for d in ("H", "Hx2") + (("Hxy", "Hx2y") if dim > 1 else ()):
                            rec.states += 1
                            rec.traces += 1
                            f = lambda *v, d=d: getattr(t, d)(*v, full=full)
                            J = jax.jit(f)
                            want = onp.asarray(f(*x))
                            got = onp.asarray(J(*x))
                            live = LIB.mc_live()
                            again = onp.asarray(J(*x))
                            if LIB.mc_live() != live:
                                rec.fail("leak", f"one more compiled evaluation leaves {LIB.mc_live() - live} more live blocks", case)
                            rec.transitions += got.size
                            if got.shape != want.shape or not onp.allclose(got, want, equal_nan=True) or got.tobytes() != again.tobytes():
                                rec.fail("compiled", f"{got} instead of {want}, again {again}", case)
                    jax.clear_caches()
    rec.sample(case)
