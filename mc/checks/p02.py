"""P02: explicit-state exploration of the histories of a CeSolver (sets, gets) against a stateless model."""
import itertools

import sympy as sp

ASSUMPTIONS = ["Inputs are replaced through the setters; changing a list in place without setting it again is not a set.",
               "Two values per input (and one smaller system), all supports independent."]
x, k1 = sp.symbols("x k1")
g, h = sp.Function("g"), sp.Function("h")
CV = [[lambda u: u.subs(x, 0), lambda u: sp.diff(u, x).subs(x, 2)], [lambda u: u.subs(x, 1), lambda u: u.subs(x, 3) - 2 * u.subs(x, 0)], [lambda u: u.subs(x, 5)]]
KV = [[sp.re(2), sp.re(1)], [k1, sp.Integer(0)], [sp.Integer(7)]]
SV = [[sp.re(1), x], [1 + x, x**2], [x]]
GV = [g(x), x * h(x) + 1]
PHI = {2: sp.Matrix([[1 - x / 2, x**3]]), 1: sp.Matrix([[x - 4]])}
CE = g(x) + x * 5
READS = ("S", "alpha", "phi", "rho", "ce", "checkCe")
SETS = ("C", "K", "s", "g", "s~", "K~", "phi!", "ce!", "size")
INPUTS = ("C?", "K?", "s?", "g?")
SAME = ("C=", "K=", "s=", "g=")
ACTIONS = SETS + READS


def depth(tier):
    return 3 if tier == "quick" else 4


def bounds(tier):
    return {"actions": "set C, kappa, s, g (other value, same value again, same list object changed and set again), phi, ce, change the number of constraints; read S, alpha, phi, rho, ce, checkCe (and the inputs at the end)",
            "history_depth": depth(tier) + 1, "histories": "all sequences of the actions of that depth, each followed by reads of everything in two orders"}


def groups(tier):
    return [{"first": [a, b]} for a in ACTIONS + SAME for b in ACTIONS + SAME]


class Model:
    """Stateless semantics: what is read depends only on the current inputs and on phi/ce given by the user."""

    memo = {}

    def __init__(self):
        self.C = self.K = self.s = self.g = 0
        self.n = 2
        self.phi = self.ce = False

    def key(self):
        return (self.C, self.K, self.s, self.g, self.n, self.phi, self.ce)

    def value(self, what):
        k = (self.key(), what)
        if k not in Model.memo:
            Model.memo[k] = self.calc(what)
        return Model.memo[k]

    def vals(self):
        i = 2 if self.n == 1 else None
        return CV[i if i else self.C], KV[i if i else self.K], SV[i if i else self.s], GV[self.g]

    def calc(self, what):
        C, K, s, gg = self.vals()
        if what == "S":
            return sp.Matrix([[c(t) for t in s] for c in C])
        if what == "alpha":
            return self.value("S").inv()
        if what == "phi":
            return PHI[self.n] if self.phi else sp.Matrix([[sum(s[i] * self.value("alpha")[i, j] for i in range(self.n)) for j in range(self.n)]])
        if what == "rho":
            return sp.Matrix([K[i] - C[i](gg) for i in range(self.n)])
        if what == "ce":
            if self.ce:
                return CE
            return gg + sum(self.value("phi")[i] * self.value("rho")[i] for i in range(self.n))
        return all(sp.simplify(C[i](self.value("ce")) - K[i]) == 0 for i in range(self.n))


class Real:
    def __init__(self, CeSolver):
        self.K, self.s = list(KV[0]), list(SV[0])
        self.cs = CeSolver(CV[0], self.K, self.s, GV[0])
        self.m = Model()

    def act(self, a):
        cs, m = self.cs, self.m
        small = m.n == 1
        if a in READS or a in INPUTS:
            return self.read(a)
        if a in ("C", "C="):
            if a == "C" and not small:
                m.C = 1 - m.C
            cs.C = list(m.vals()[0])
            m.phi = m.ce = False
        elif a in ("K", "K=", "K~"):
            if a != "K=" and not small:
                m.K = 1 - m.K
            v = list(m.vals()[1])
            if a == "K~":
                self.K[:] = v
            else:
                self.K = v
            cs.kappa = self.K
            m.ce = False
        elif a in ("s", "s=", "s~"):
            if a != "s=" and not small:
                m.s = 1 - m.s
            v = list(m.vals()[2])
            if a == "s~":
                self.s[:] = v
            else:
                self.s = v
            cs.s = self.s
            m.phi = m.ce = False
        elif a in ("g", "g="):
            if a == "g":
                m.g = 1 - m.g
            cs.g = GV[m.g]
            m.ce = False
        elif a == "phi!":
            cs.phi = PHI[m.n]
            m.phi, m.ce = True, False
        elif a == "ce!":
            cs.ce = CE
            m.ce = True
        elif a == "size":
            m.n = 3 - m.n
            C, self.K, self.s = [list(v) for v in m.vals()[:3]]
            cs.s, cs.kappa, cs.C = self.s, self.K, C
            m.phi = m.ce = False

    def read(self, a):
        if a in INPUTS:
            v = {"C?": self.cs.C, "K?": self.cs.kappa, "s?": self.cs.s, "g?": self.cs.g}[a]
            w = self.m.vals()[INPUTS.index(a)]
            return (v == w, True) if a == "g?" else (list(v) == list(w), True)
        if a == "checkCe":
            return self.cs.checkCe(), self.m.value(a)
        return getattr(self.cs, a), self.m.value(a)


EQ = {}


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if a == b:
        return True
    if getattr(a, "shape", None) != getattr(b, "shape", None):
        return False
    k = (str(a), str(b))
    if k not in EQ:
        EQ[k] = sp.simplify(a - b) == (sp.zeros(*a.shape) if hasattr(a, "shape") else 0)
    return EQ[k]


def run(gr, rec, tier):
    from tfc.utils import CeSolver
    from tfc.utils.TFCUtils import TFCPrint

    TFCPrint.Warning = staticmethod(lambda *a, **k: None)
    d = depth(tier) - 1
    tails = [t for n in ([d] if gr["first"][0] not in SAME and gr["first"][1] not in SAME else [d - 1]) for t in itertools.product(ACTIONS, repeat=n)]
    for ti, tail in enumerate(tails):
        hist = gr["first"] + list(tail)
        if any(a in READS and b == a for a, b in zip(hist, hist[1:])):
            continue  # the same read twice in a row is covered by the final reads
        finals = [READS + INPUTS, ("ce", "rho", "phi", "checkCe", "alpha", "S", "ce") + INPUTS]
        rec.states += 1
        rec.traces += 1
        with rec.guard("history", hist):
            order = finals[(ti + len(hist)) % 2]
            r = Real(CeSolver)
            for i, a in enumerate(hist + list(order)):
                out = r.act(a)
                rec.transitions += 1
                if out is not None and not same(*out):
                    rec.fail("stale:" + a, f"read {a} gave {out[0]}, current inputs give {out[1]}", hist[: i + 1] + list(order)[: max(0, i + 1 - len(hist))])
                    break
        if rec.full:
            return
    rec.sample({"history": hist})
