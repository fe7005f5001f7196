"""Reference models: the mathematical definitions, evaluated far beyond double precision (or exactly).

None of this is derived from the code under test."""
from functools import lru_cache
from fractions import Fraction

import mpmath as mp
import numpy as np

mp.mp.prec = 400
POLY = ("CP", "LeP", "LaP", "HoPpro", "HoPphy")
ELM = ("ELMReLU", "ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish")
DOMAIN = {"CP": (-1, 1), "LeP": (-1, 1), "FS": (-mp.pi, mp.pi), "LaP": None, "HoPpro": None, "HoPphy": None}
for _e in ELM:
    DOMAIN[_e] = (0, 1)


def exact(x):
    """The double (or pair of doubles) x as an exact 400 bit number."""
    if isinstance(x, complex):
        return mp.mpc(x.real, x.imag)
    return mp.mpf(x)


def slope(basis, x0, xf):
    if DOMAIN[basis] is None:
        return mp.mpf(1)
    z0, zf = DOMAIN[basis]
    return (mp.mpf(zf) - z0) / (exact(xf) - exact(x0))


def to_z(basis, x, x0, xf):
    if DOMAIN[basis] is None:
        return exact(x)
    return (exact(x) - exact(x0)) * slope(basis, x0, xf) + DOMAIN[basis][0]


def _poly_table(basis, m, dmax, z):
    return _poly_table_cached(basis, m, dmax, z, isinstance(z, mp.mpc))


@lru_cache(maxsize=None)
def _poly_table_cached(basis, m, dmax, z, is_complex):
    """P[d][k] = d-th derivative with respect to z of the k-th polynomial at z, by differentiating the defining
    three-term recurrence d times (Leibniz), at 400 bits."""
    P = []
    for d in range(dmax + 1):
        row = []
        low = P[d - 1] if d else None
        for k in range(m):
            if k == 0:
                v = mp.mpf(1 if d == 0 else 0)
            elif k == 1:
                a, b = {"CP": (1, 0), "LeP": (1, 0), "HoPpro": (1, 0), "HoPphy": (2, 0), "LaP": (-1, 1)}[basis]
                v = a * z + b if d == 0 else mp.mpf(a if d == 1 else 0)
            else:
                n = k - 1
                # P_{n+1} = (A z + B) P_n - C P_{n-1}
                if basis == "CP":
                    A, B, C = mp.mpf(2), mp.mpf(0), mp.mpf(1)
                elif basis == "LeP":
                    A, B, C = mp.mpf(2 * n + 1) / (n + 1), mp.mpf(0), mp.mpf(n) / (n + 1)
                elif basis == "LaP":
                    A, B, C = mp.mpf(-1) / (n + 1), mp.mpf(2 * n + 1) / (n + 1), mp.mpf(n) / (n + 1)
                elif basis == "HoPpro":
                    A, B, C = mp.mpf(1), mp.mpf(0), mp.mpf(n)
                else:
                    A, B, C = mp.mpf(2), mp.mpf(0), mp.mpf(2 * n)
                v = (A * z + B) * row[k - 1] - C * row[k - 2]
                if d:
                    v += d * A * low[k - 1]
            row.append(v)
        P.append(row)
    return P


def poly(basis, m, dmax, z):
    return _poly_table(basis, m, dmax, z)


def poly_scale(basis, m, dmax, z):
    """A bound on the size of the k-th function's d-th derivative between -|z| and |z| (and on [-1, 1]): rounding of z
    and in the recurrences is relative to this."""
    az = max(abs(z), mp.mpf(1))
    if basis in ("CP", "LeP") and isinstance(z, mp.mpc):
        return [[abs(v) for v in row] for row in poly(basis, m, dmax, mp.mpc(0, az))]
    if basis in ("CP", "LeP"):
        return [[abs(v) for v in row] for row in poly(basis, m, dmax, az)]
    # sums of absolute values of the terms: evaluate where no cancellation occurs
    if basis == "LaP":
        return [[abs(v) for v in row] for row in poly(basis, m, dmax, -az)]
    # Hermite: replace C by -C  <=>  evaluate at i|z|
    return [[abs(v) for v in row] for row in _poly_table(basis, m, dmax, mp.mpc(0, az))]


def fourier(m, dmax, z):
    P = []
    for d in range(dmax + 1):
        row = []
        for k in range(m):
            g = (k + 1) // 2
            if k == 0:
                row.append(mp.mpf(1 if d == 0 else 0))
            else:
                ph = g * z + d * mp.pi / 2
                row.append(mp.mpf(g) ** d * (mp.cos(ph) if k % 2 == 0 else mp.sin(ph)))
        P.append(row)
    return P


@lru_cache(maxsize=None)
def _sigmoid_poly(d):
    """Integer coefficients of the d-th derivative of the sigmoid s as a polynomial in s (s' = s - s^2)."""
    if d == 0:
        return (0, 1)
    c = _sigmoid_poly(d - 1)
    out = [0] * (len(c) + 1)
    for i, a in enumerate(c):
        if i:
            out[i] += i * a
            out[i + 1] -= i * a
    return tuple(out)


@lru_cache(maxsize=None)
def _tanh_poly(d):
    if d == 0:
        return (0, 1)
    c = _tanh_poly(d - 1)
    out = [0] * (len(c) + 1)
    for i, a in enumerate(c):
        if i:
            out[i - 1] += i * a
            out[i + 1] -= i * a
    return tuple(out)


def _horner(c, t):
    v = mp.mpf(0) if not isinstance(t, mp.mpc) else mp.mpc(0)
    for a in reversed(c):
        v = v * t + a
    return v


def act(kind, d, u):
    """d-th derivative of the activation at u."""
    if kind == "ELMReLU":
        if d == 0:
            return u if mp.re(u) > 0 else mp.mpf(0)
        return mp.mpf(1) if d == 1 and u > 0 else mp.mpf(0)
    if kind == "ELMSin":
        return mp.sin(u + d * mp.pi / 2)
    if kind == "ELMSigmoid":
        return _horner(_sigmoid_poly(d), 1 / (1 + mp.exp(-u)))
    if kind == "ELMTanh":
        return _horner(_tanh_poly(d), mp.tanh(u))
    if kind == "ELMSwish":
        s = 1 / (1 + mp.exp(-u))
        v = u * _horner(_sigmoid_poly(d), s)
        if d:
            v += d * _horner(_sigmoid_poly(d - 1), s)
        return v
    raise KeyError(kind)


@lru_cache(maxsize=None)
def act_sup(kind, d):
    """The scale of the d-th derivative of the activation: the sum of the absolute values of the terms of its closed
    form, which bounds both its size and what cancels when it is evaluated."""
    if kind == "ELMReLU":
        return 1.0 if d < 2 else 0.0
    if kind == "ELMSin":
        return 1.0
    if kind == "ELMTanh":
        return float(sum(map(abs, _tanh_poly(d))))
    s = float(sum(map(abs, _sigmoid_poly(d))))
    return s if kind == "ELMSigmoid" else s * (d + 1)


def uni_table(basis, m, dmax, x, x0, xf, w=None, b=None):
    """(value, scale) arrays of shape (dmax+1, m) of float: derivatives with respect to x at one point x."""
    c = slope(basis, x0, xf)
    z = to_z(basis, x, x0, xf)
    cx = isinstance(z, mp.mpc)
    num = (lambda v: complex(v)) if cx else (lambda v: float(v))
    val = np.zeros((dmax + 1, m), dtype=complex if cx else float)
    sc = np.zeros((dmax + 1, m))
    if basis in POLY:
        P = poly(basis, m, dmax, z)
        S = poly_scale(basis, m, dmax, z)
        for d in range(dmax + 1):
            for k in range(m):
                val[d, k] = num(P[d][k] * c**d)
                # a perturbation of z moves the value by the next derivative, at most k^2 times larger on [-1, 1]
                sc[d, k] = S[d][k] * abs(c) ** d * (1 + k * k)
    elif basis == "FS":
        P = fourier(m, dmax, z)
        for d in range(dmax + 1):
            for k in range(m):
                val[d, k] = num(P[d][k] * c**d)
                g = (k + 1) // 2
                sc[d, k] = (g**d if k else (d == 0)) * abs(c) ** d * (1 + g * (1 + abs(z))) * mp.cosh(g * mp.im(z))
    else:
        for k in range(m):
            wk, bk = exact(w[k]), exact(b[k])
            u = wk * z + bk
            for d in range(dmax + 1):
                val[d, k] = num(act(basis, d, u) * (wk * c) ** d)
                sc[d, k] = abs(wk * c) ** d * max(act_sup(basis, d), abs(act(basis, d, u))) * (1 + abs(wk) * (1 + abs(z)) + abs(bk))
    return val, sc


@lru_cache(maxsize=None)
def index_vectors(dim, deg):
    """All index vectors of total degree at most deg, first index fastest, last slowest."""
    out = []

    def rec(k, vec):
        if k < 0:
            if sum(vec) <= deg:
                out.append(tuple(vec))
            return
        for v in range(deg + 1):
            rec(k - 1, [v] + vec)

    rec(dim - 1, [])
    return tuple(out)


def removed(vec, sets):
    """A product is left out when every one of its factors is marked removed."""
    return all(v in s for v, s in zip(vec, sets))


def exact_fraction(x):
    return Fraction(float(x))
