"""P11: thread safety of the compiled layer.

The extension is built from the working tree with clang's thread instrumentation against our own runtime (native/sched.c): a controlled
scheduler that runs the threads one at a time and switches at every synchronisation operation, plus a happens-before race detector on
every instrumented memory access.  For race-free executions the interleavings of synchronisation operations are all there are; a race
on any of them is itself a violation.  Every schedule runs in a forked child from the same state.
"""
import ctypes
import glob
import importlib.util
import itertools
import json
import os
import pickle
import subprocess
import sys
import threading
import traceback

import numpy as onp

import convention
from checks.p12 import CAPNAME, ELM, NELM, NPOLY, POLY, wb

NO_TFC = True
ASSUMPTIONS = [
    "Memory accesses and synchronisation (mutexes, read/write locks, atomics, static guards, once) are those of the code compiled from BF.cc, BF.h and BF_Py.cc; the C and C++ libraries below are assumed thread safe.",
    "Switching threads only at synchronisation operations is complete for executions without data races, and data races are reported (sequentially consistent memory).",
    "The interpreter lock is modelled as a mutex around constructions, eager evaluations, reads and deletions.",
]


def bounds(tier):
    q = tier == "quick"
    return {"threads": "2 and 3", "calls per thread": "1 and 2",
            "pairs": f"19 bases: same instance, two instances of one class, two classes; orders 0..{9 if q else 13}; 1,3,7,{400 if q else 3000} points; full or not",
            "with the interpreter lock": "construct, evaluate eagerly, read c/w/b, delete another instance - against compiled calls, instance table full, with room for one, with room for more",
            "schedules": "all interleavings of synchronisation operations (up to 3 preemptions where a scenario has more than 4000)"}


def prepare(runmod, scratch, tier):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    obj = os.path.join(scratch, "sched.o")
    inc = subprocess.run([runmod.PYEXE, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], check=True, stdout=subprocess.PIPE, text=True).stdout.strip()
    subprocess.run(["gcc", "-c", "-O2", "-fPIC", "-w", "-I" + inc, os.path.join(here, "native", "sched.c"), "-o", obj], check=True)
    nm = subprocess.run(["nm", obj], check=True, stdout=subprocess.PIPE, text=True).stdout
    wraps = sorted({w.split("__wrap_", 1)[1] for w in nm.split() if w.startswith("__wrap_")})
    ld = "-fno-sanitize=thread -Wl,--unresolved-symbols=ignore-all " + obj + "".join(f" -Wl,--wrap={w}" for w in wraps)
    global CONV
    got = {}

    def ask():
        try:
            got["conv"] = convention.learn(runmod, scratch)
        except BaseException as e:
            got["err"] = e

    th = threading.Thread(target=ask)
    th.start()
    tree = runmod.build(scratch, "instr", debug=True, cxx="clang++", cc="clang", env_extra={"CXXFLAGS": "-w -O1 -g1 -fsanitize=thread", "LDFLAGS": ld})
    th.join()
    if "err" in got:
        raise got["err"]
    CONV = got["conv"]
    return tree, {"MC_CONV": json.dumps(CONV)}


BF = LIB = SO = None
CONV = json.loads(os.environ.get("MC_CONV", "{}"))


class Op(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_int), ("fn", ctypes.c_void_p), ("out", ctypes.c_void_p), ("in_", ctypes.POINTER(ctypes.c_void_p)), ("call", ctypes.py_object)]


class Task(ctypes.Structure):
    _fields_ = [("n", ctypes.c_int), ("ops", ctypes.POINTER(Op))]


def worker_init(tier):
    global BF, LIB, SO
    SO = glob.glob(os.path.join(os.environ["MC_TREE"], "src", "tfc", "utils", "BF.*.so"))[0]
    spec = importlib.util.spec_from_file_location("tfc.utils.BF", SO)
    BF = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(BF)
    LIB = ctypes.CDLL(SO)
    LIB.mc_run.argtypes = [ctypes.c_int, ctypes.POINTER(Task), ctypes.c_int, ctypes.POINTER(ctypes.c_int), ctypes.c_int, ctypes.POINTER(ctypes.c_size_t)]
    LIB.mc_accesses.restype = ctypes.c_long
    g = ctypes.pythonapi.PyCapsule_GetPointer
    g.restype = ctypes.c_void_p
    g.argtypes = [ctypes.py_object, ctypes.c_char_p]


def cold(f):
    """f() computed in a forked child: this process stays as if nothing had been evaluated."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            try:
                data = pickle.dumps((True, f()))
            except BaseException:
                data = pickle.dumps((False, traceback.format_exc()))
            with os.fdopen(w, "wb") as o:
                o.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        data = i.read()
    status = os.waitpid(pid, 0)[1]
    if not data:
        raise Died(f"a single evaluation ended the process with status {status}")
    ok, v = pickle.loads(data)
    if not ok:
        raise RuntimeError(v)
    return v


class Died(Exception):
    pass


class Call:
    """One compiled call on its own buffers."""

    def __init__(self, o, cfg, n, d, full, shift=0.0):
        self.cfg = (n, d, full)
        multi = o.cls in NPOLY + NELM
        x = -0.9 + shift + 2.8 * onp.arange(n) / max(n, 1)
        if multi:
            x = onp.array([x + 0.01 * j for j in range(o.dim)])
        i32 = lambda v: onp.array(v, dtype=onp.int32)
        dd = [d] + [1] * (o.dim - 1) if multi else d
        self.H = lambda: o.o.H(x, i32(dd) if multi else d, full)
        self.fn = ctypes.pythonapi.PyCapsule_GetPointer(o.o.xlaCapsule, CAPNAME)

        def buffers(shape):
            self.ins = convention.pack(CONV["multi" if multi else "uni"], {"id": o.o.identifier, "x": x, "d": dd, "dlen": o.dim, "full": full, "n": n, "m": shape[1]})
            self.copy = [a.copy() for a in self.ins]
            self.out = onp.full(shape, 777.25)
            self.ptrs = (ctypes.c_void_p * len(self.ins))(*[a.ctypes.data for a in self.ins])

        def alone():
            h = self.H()
            buffers(h.shape)
            self.now()
            return self.out.tobytes(), self.out.shape, h.tobytes()

        # in a child, so that the explored executions include the very first evaluation
        want, shape, self.eager = cold(alone)
        buffers(shape)
        self.want = onp.frombuffer(want).reshape(shape)  # what the call returns on its own

    def now(self):
        ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.POINTER(ctypes.c_void_p))(self.fn)(self.out.ctypes.data, self.ptrs)

    def op(self):
        return Op(0, self.fn, self.out.ctypes.data, ctypes.cast(self.ptrs, ctypes.POINTER(ctypes.c_void_p)), None)

    def bad(self):
        if self.out.tobytes() != self.want.tobytes():
            k = int(onp.argmax((self.out != self.want).ravel()))
            return f"a compiled call returned {self.out.ravel()[k]} at {k}, on its own it returns {self.want.ravel()[k]}"
        if any(a.tobytes() != b.tobytes() for a, b in zip(self.ins, self.copy)):
            return "a compiled call changed its inputs"


class Inst:
    def __init__(self, cls, m=4, dim=2, nC=(1,), set_=True):
        self.cls, self.m, self.dim = cls, m, dim
        nC = [k for k in nC if k < m]
        if cls in NPOLY:
            self.o = getattr(BF, cls)(onp.full(dim, -1.0), onp.full(dim, 2.0), onp.array([nC] * dim, dtype=onp.int32).reshape(dim, len(nC)), m)
        elif cls in NELM:
            self.o = getattr(BF, cls)(onp.full(dim, -1.0), onp.full(dim, 2.0), onp.array(nC, dtype=onp.int32), m)
            self.o.w, self.o.b = wb(m, dim)
        else:
            self.o = getattr(BF, cls)(-1.0, 2.0, onp.array(nC, dtype=onp.int32), m)
            if cls in ELM:
                self.o.w, self.o.b = wb(m)


class Py:
    """A Python callable, run under the interpreter lock."""

    def __init__(self, f, check=None):
        self.f, self.check = f, check

    def op(self):
        return Op(1, None, None, None, self.f)

    def bad(self):
        return self.check() if self.check else None


def symbol(pc, base):
    r = subprocess.run(["addr2line", "-Cfe", SO, hex(pc - base - 1)], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    return f"{r[0][:60]} at {os.path.basename(r[1])}" if len(r) > 1 else hex(pc)


def load_base():
    for line in open("/proc/self/maps"):
        if line.rstrip().endswith(SO):
            return int(line.split("-")[0], 16)


def one(threads, sched, shared=()):
    """One execution in a forked child.  threads: list of lists of ops (Call or Py)."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            arrs = [(Op * len(t))(*[o.op() for o in t]) for t in threads]
            ts = (Task * len(threads))(*[Task(len(t), a) for t, a in zip(threads, arrs)])
            st = LIB.mc_run(len(threads), ts, len(sched), (ctypes.c_int * max(1, len(sched)))(*sched),
                            len(shared), (ctypes.c_size_t * max(1, len(shared)))(*shared))
            msgs = []
            if st == 1:
                msgs.append("deadlock: no thread can go on")
            n = 0
            buf = (ctypes.c_int * 60000)()
            n = LIB.mc_decisions(buf, 20000)
            rb = (ctypes.c_size_t * 112)()
            races = [list(rb[7 * i: 7 * i + 7]) for i in range(LIB.mc_races(rb))]
            if races:
                base = load_base()
                for q in races[:3]:
                    msgs.append(f"data race: thread {q[3]} {'writes' if q[5] else 'reads'} in {symbol(q[1], base)}, thread {q[4]} {'writes' if q[6] else 'reads'} in {symbol(q[2], base)}, not ordered")
            if st == 0:
                if LIB.mc_pyfailed():
                    msgs.append("a call under the interpreter lock raised (see the log)")
                for t in threads:
                    for o in t:
                        b = o.bad()
                        if b:
                            msgs.append(b)
            ob = (ctypes.c_size_t * 6000)()
            objs = [list(ob[3 * i: 3 * i + 3]) for i in range(LIB.mc_objects(ob, 2000))]
            res = {"objs": objs, "st": st, "dec": [list(buf[3 * i: 3 * i + 3]) for i in range(max(n, 0))], "n": n, "msgs": msgs, "acc": LIB.mc_accesses()}
            os.write(w, json.dumps(res).encode())
        except BaseException as e:
            import traceback

            os.write(w, json.dumps({"harness": traceback.format_exc()}).encode())
        os._exit(0)
    os.close(w)
    data = b""
    import select
    import signal

    while True:
        ready = select.select([r], [], [], 200)[0]
        if not ready:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not data:
        return {"objs": [], "st": 3, "dec": [], "n": 0, "msgs": [f"the process ended with status {status} (signal {status & 127}) or did not answer within 200 s"], "acc": 0}
    res = json.loads(data)
    if "harness" in res:
        raise RuntimeError(res["harness"])
    return res


def explore(threads, rec, key, case, cap=4000, bound=3):
    """All schedules; if there are more than cap, all with at most `bound` preemptions.  Starts again whenever an execution shows
    another synchronisation object that two threads use and one of them changes."""
    masks, shared = {}, []

    def dfs(limit, budget):
        todo, runs = [[]], 0
        while todo:
            pre = todo.pop()
            if budget is not None and runs >= budget:
                return None
            res = one(threads, pre, shared)
            for k, t, w in res["objs"]:
                a = masks.setdefault(k, [0, 0])
                a[0] |= t
                a[1] |= w
                if k not in shared and a[1] and a[0] & (a[0] - 1):
                    shared.append(k)
                    todo = [[]]
            if todo == [[]]:
                continue
            runs += 1
            rec.count("schedules")
            rec.states += len(res["dec"])
            rec.traces += 1
            rec.count("memory_accesses_checked", res["acc"])
            if res["st"] == 2 or res["n"] < 0:
                raise RuntimeError(f"schedule {pre} does not replay: {res}")
            if res["msgs"]:
                rec.fail(key, "; ".join(res["msgs"]), {**case, "schedule": [d[1] for d in res["dec"]]})
                return runs
            used = 0
            for i, (en, ch, cur) in enumerate(res["dec"]):
                if i >= len(pre):
                    rec.transitions += 1
                    for t in range(4):
                        if en >> t & 1 and t != ch:
                            pp = used + (1 if cur >= 0 and en >> cur & 1 and t != cur else 0)
                            if limit is None or pp <= limit:
                                todo.append([d[1] for d in res["dec"][:i]] + [t])
                used += 1 if cur >= 0 and en >> cur & 1 and ch != cur else 0
        return runs

    n = dfs(None, cap)
    if n is None:
        rec.count("bounded_scenarios")
        n = dfs(bound, None)
    rec.maxi("schedules_of_one_scenario", n)
    rec.count("scenarios")


ALL = POLY + ELM + NPOLY + NELM


def groups(tier):
    if set(CONV) != {"uni", "multi"}:
        return []
    gs = [{"kind": k, "cls": c} for c in ALL for k in ("same", "two", "seq", "py", "three")]
    gs += [{"kind": "mixed", "cls": c} for c in ALL]
    gs += [{"kind": "table", "cls": c, "left": left} for left in (0, 1, 5) for c in (ALL if tier != "quick" else ("CP", "ELMTanh", "nLeP", "nELMSin"))]
    return gs


def weight(g):
    return {"py": 5, "three": 4, "table": 4}.get(g["kind"], 1)


def run(g, rec, tier):
    try:
        explore_group(g, rec, tier)
    except Died as e:
        rec.fail("single", str(e), g)


def explore_group(g, rec, tier):
    q = tier == "quick"
    kind = g["kind"]
    D = range(10 if q else 14)
    if kind == "same":
        o = Inst(g["cls"])
        o1 = Inst(g["cls"], m=1, nC=())
        o2 = Inst(g["cls"], m=2, nC=())
        for d in D:
            for n1, n2 in ((1, 3), (7, 7)) if d else ((1, 3), (7, 7), (400, 90) if q else (3000, 700), (0, 3)):
                for f1, f2 in ((False, False), (False, True), (True, True)):
                    for inst in (o, o1, o2):
                        if inst is not o and d > 3:
                            continue
                        case = {"same instance": g["cls"], "m": inst.m, "d": d, "points": [n1, n2], "full": [f1, f2]}
                        explore([[Call(inst, None, n1, d, f1)], [Call(inst, None, n2, d, f2, 0.05)]], rec, "same", case)
                        if rec.full:
                            return
        multi = g["cls"].startswith("n")
        # past any size at which the code could treat its scratch memory differently
        for m, dim in (((70 if g["cls"] in NELM else 30, 2), (9, 1), (5, 4)) if multi else ((70, 1), (33, 1))):
            inst = Inst(g["cls"], m=m, dim=dim)
            for d in (0, 1, 2, 11) if dim < 3 else (0, 1, 2):
                case = {"same instance": g["cls"], "m": m, "dim": dim, "d": d}
                explore([[Call(inst, None, 5, d, False)], [Call(inst, None, 33, d, False, 0.05)]], rec, "same", case)
                if rec.full:
                    return
    elif kind == "two":
        a, b, c = Inst(g["cls"]), Inst(g["cls"], m=6, nC=(0, 2)), Inst(g["cls"], m=4, dim=3 if g["cls"].startswith("n") else 2, nC=())
        for x, y in ((a, b), (a, c), (b, c)):
            for d1, d2 in itertools.product((0, 1, 2, 5), repeat=2):
                case = {"two instances": g["cls"], "d": [d1, d2]}
                explore([[Call(x, None, 3, d1, False)], [Call(y, None, 4, d2, True)]], rec, "two", case)
                if rec.full:
                    return
    elif kind == "mixed":
        a = Inst(g["cls"])
        for other in ALL:
            if other <= g["cls"]:
                continue
            b = Inst(other, m=3)
            for d in (0, 2):
                explore([[Call(a, None, 3, d, False)], [Call(b, None, 2, d, False)]], rec, "mixed", {"classes": [g["cls"], other], "d": d})
            if rec.full:
                return
    elif kind == "three":
        a, b = Inst(g["cls"]), Inst(g["cls"], m=3)
        for d in (0, 1, 3):
            explore([[Call(a, None, 2, d, False)], [Call(a, None, 3, d, True)], [Call(b, None, 3, d, False)]], rec, "three", {"three threads": g["cls"], "d": d})
            if rec.full:
                return
    elif kind == "seq":
        a, b = Inst(g["cls"]), Inst(g["cls"], m=3)
        for d in (0, 1, 2):
            explore([[Call(a, None, 2, d, False), Call(b, None, 3, d, True)], [Call(b, None, 5, d, False), Call(a, None, 1, d, False)]], rec, "seq", {"two calls each": g["cls"], "d": d})
            if rec.full:
                return
    elif kind == "py":
        cls = g["cls"]
        a, b = Inst(cls), Inst(cls, m=3)
        for d in (0, 2):
            ca = Call(a, None, 3, d, False)
            cb = Call(b, None, 2, d, True)
            wantH = ca.eager
            got, mine = [], []
            py = {
                "eager": Py(lambda: mine.append(ca.H().tobytes()), lambda: None if mine[-1] == wantH else "an eager evaluation returned something else"),
                "eager other": Py(lambda: got.append(cb.H().tobytes())),
                "read": Py(lambda: got.append([onp.array(getattr(a.o, k)) for k in ("c", "w", "b") if hasattr(a.o, k)])),
                "construct": Py(lambda: got.append(Inst(cls, m=5))),
                "construct and delete": Py(lambda: Inst(cls, m=2)),
            }
            for name, p in py.items():
                explore([[ca], [p]], rec, "py", {"compiled": cls, "d": d, "against": name})
                explore([[ca], [p], [cb]], rec, "py", {"compiled": [cls, cls], "d": d, "against": name})
                if rec.full:
                    return
            for p1, p2 in itertools.combinations(py, 2) if not (q and d) else ():
                explore([[ca], [py[p1]], [py[p2]]], rec, "py", {"compiled": cls, "d": d, "against": [p1, p2]})
                if rec.full:
                    return
            dead = [Inst(cls, m=2)]
            explore([[ca], [Py(lambda: dead.clear())]], rec, "py", {"compiled": cls, "against": "delete another instance"})
    else:  # table: constructions when the instance table is full, has room for one more, has room
        old = Inst("CP", m=5)
        co = Call(old, None, 3, 1, False)
        cls, pad = g["cls"], [Inst("CP")]
        while len(pad) < 700:
            n = pad[-1].o.identifier + 1
            if n >= 16 and not (n + g["left"]) & (n + g["left"] - 1):  # the table grows by doubling
                break
            pad.append(Inst("CP"))
        made = []

        def check():
            seen = set()
            for i in made:
                if i.o.identifier in seen or i.o.identifier == old.o.identifier:
                    return f"two instances with identifier {i.o.identifier}"
                seen.add(i.o.identifier)
                c = Call(i, None, 2, 1, False)
                if c.want.tobytes() != c.H().tobytes():
                    return "an instance that was created at the same time evaluates as another one"

        mk = lambda m: Py(lambda: made.append(Inst(cls, m=m, nC=())), check)
        explore([[mk(3)], [co]], rec, "table", {"construct": cls, "left": g["left"]})
        explore([[mk(3)], [mk(4)], [co]], rec, "table", {"construct twice": cls, "left": g["left"]})
        explore([[mk(3), mk(4)], [co, co]], rec, "table", {"construct two": cls, "left": g["left"]})
        if rec.full:
            return
    rec.sample({**g})

