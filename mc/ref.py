"""Reference implementations, written from the published schemes and the documentation,
independent of the code under test.

* psi functions (diagonal and full matrix),
* exponential Runge-Kutta tableaux of all seven solvers,
* one step of a scheme,
* the adaptive step controller.
"""

import math

import numpy as np
from scipy.linalg import expm

# --------------------------------------------------------------------------
# psi_r(z) = r! phi_r(z)
# --------------------------------------------------------------------------


def psis_diag(z):
    """psi_1, psi_2, psi_3 elementwise: Taylor series near 0, direct formula elsewhere."""
    z = np.asarray(z, dtype=complex)
    out = [np.empty(z.shape, complex) for _ in range(3)]
    small = np.abs(z) < 1.0
    zs = z[small]
    for r in (1, 2, 3):
        term = np.ones_like(zs)
        acc = np.ones_like(zs)
        for k in range(1, 40):
            term = term * zs / (r + k)
            acc = acc + term
        out[r - 1][small] = acc
    zb = z[~small]
    e = np.exp(zb)
    out[0][~small] = (e - 1) / zb
    out[1][~small] = 2 * (e - 1 - zb) / zb**2
    out[2][~small] = 6 * (e - 1 - zb - zb**2 / 2) / zb**3
    return out


def psis_matrix(Z):
    """psi_1..3 of a matrix through the exponential of an augmented block matrix."""
    Z = np.asarray(Z, dtype=complex)
    n = Z.shape[0]
    M = np.zeros((4 * n, 4 * n), complex)
    I = np.eye(n)
    M[:n, :n] = Z
    M[:n, n : 2 * n] = I
    M[n : 2 * n, 2 * n : 3 * n] = I
    M[2 * n : 3 * n, 3 * n :] = I
    E = expm(M)
    return E[:n, n : 2 * n], 2 * E[:n, 2 * n : 3 * n], 6 * E[:n, 3 * n :]


class Ops:
    """exp(c z) and psi_r(c z) for a diagonal (1D) or full operator z = h L."""

    def __init__(self, z):
        self.z = np.asarray(z, dtype=complex)
        self.diag = self.z.ndim == 1
        self._psi = {}
        self._exp = {}

    def exp(self, c):
        if c not in self._exp:
            self._exp[c] = np.exp(c * self.z) if self.diag else expm(c * self.z)
        return self._exp[c]

    def psi(self, r, c):
        if c not in self._psi:
            self._psi[c] = psis_diag(c * self.z) if self.diag else psis_matrix(c * self.z)
        return self._psi[c][r - 1]

    def dot(self, m, v):
        return m * v if self.diag else m.dot(v)


# --------------------------------------------------------------------------
# tableaux.  Entry: list of (coefficient, kind, r, c): coefficient*psi_r(c z) or exp(c z)
# --------------------------------------------------------------------------
def P(r, c, k):
    return [(k, "psi", r, c)]


def X(c, k):
    return [(k, "exp", 0, c)]


def _krogstad():
    c = [0, 0.5, 0.5, 1]
    a = {
        (1, 0): P(1, 0.5, 0.5),
        (2, 0): P(1, 0.5, 0.5) + P(2, 0.5, -0.5),
        (2, 1): P(2, 0.5, 0.5),
        (3, 0): P(1, 1, 1) + P(2, 1, -1),
        (3, 2): P(2, 1, 1),
    }
    b1 = P(1, 1, 1) + P(2, 1, -1.5) + P(3, 1, 2 / 3)
    b2 = P(2, 1, 1) + P(3, 1, -2 / 3)
    b4 = P(2, 1, -0.5) + P(3, 1, 2 / 3)
    return c, a, {0: b1, 1: b2, 2: b2, 3: b4}, b4


def tab_etd4():
    c, a, b, _ = _krogstad()
    return dict(c=c, a=a, b=b, err=None, order=4)


def tab_etd34():
    """Krogstad's method plus the fifth (FSAL) stage; err = b4 (N4 - N5)."""
    c, a, b, b4 = _krogstad()
    neg = [(-k, t, r, cc) for k, t, r, cc in b4]
    a = dict(a)
    for j, w in b.items():
        a[(4, j)] = w
    return dict(c=c + [1], a=a, b=b, err={3: b4, 4: neg}, order=4, q=4, est=3)


def _etd5():
    c = [0, 0.25, 0.25, 0.5, 0.75, 1]
    a = {
        (1, 0): P(1, 0.25, 0.25),
        (2, 0): P(1, 0.25, 0.25) + P(2, 0.25, -0.125),
        (2, 1): P(2, 0.25, 0.125),
        (3, 0): P(1, 0.5, 0.5) + P(2, 0.5, -0.5),
        (3, 2): P(2, 0.5, 0.5),
        (4, 0): P(1, 0.75, 0.75) + P(2, 0.75, -9 / 16),
        (4, 1): P(1, 0.75, -3 / 8),
        (4, 2): P(1, 0.75, 3 / 8),
        (4, 3): P(2, 0.75, 9 / 16),
        (5, 0): P(1, 1, -77 / 42) + P(2, 1, 59 / 42),
        (5, 1): P(1, 1, 8 / 7),
        (5, 2): P(1, 1, 111 / 28) + P(2, 1, -87 / 28),
        (5, 3): P(1, 1, -12 / 7),
        (5, 4): P(1, 1, -47 / 84) + P(2, 1, 143 / 84),
    }

    def w(x1, x2, x3):
        return P(1, 1, x1) + P(2, 1, x2) + P(3, 1, x3)

    b = {
        0: w(1799 / 2700, -3479 / 2700, 1890 / 2700),
        2: w(1097 / 1350, -467 / 1350, -150 / 1350),
        3: w(-98 / 225, 398 / 225, -270 / 225),
        4: w(-313 / 1350, 883 / 1350, -90 / 1350),
        5: w(509 / 2700, -2129 / 2700, 1830 / 2700),
    }
    return c, a, b


def tab_etd5():
    c, a, b = _etd5()
    return dict(c=c, a=a, b=b, err=None, order=5)


def tab_etd35():
    c, a, b = _etd5()
    b5 = b[4]

    def sc(f):
        return [(f * k, t, r, cc) for k, t, r, cc in b5]

    err = {0: sc(-1), 2: sc(4), 3: sc(-6), 4: sc(4), 5: sc(-1)}
    return dict(c=c, a=a, b=b, err=err, order=5, q=4, est=3)


def _lawson(c, A, b, err=None):
    """Integrating-factor version of an explicit Runge-Kutta tableau."""
    a = {}
    for i, row in enumerate(A):
        for j, v in enumerate(row):
            if v != 0:
                a[(i, j)] = X(c[i] - c[j], v)
    bb = {j: X(1 - c[j], v) for j, v in enumerate(b) if v != 0}
    ee = None if err is None else {j: X(1 - c[j], v) for j, v in enumerate(err) if v != 0}
    return c, a, bb, ee


RK4_A = [[], [0.5], [0, 0.5], [0, 0, 1]]
RK4_B = [1 / 6, 1 / 3, 1 / 3, 1 / 6]


def tab_if4():
    c, a, b, _ = _lawson([0, 0.5, 0.5, 1], RK4_A, RK4_B)
    return dict(c=c, a=a, b=b, err=None, order=4)


def tab_if34():
    c, a, b, e = _lawson([0, 0.5, 0.5, 1, 1], RK4_A + [RK4_B], RK4_B, [0, 0, 0, 1 / 6, -1 / 6])
    return dict(c=c, a=a, b=b, err=e, order=4, q=4, est=3)


DP_C = [0, 1 / 5, 3 / 10, 4 / 5, 8 / 9, 1, 1]
DP_B = [35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84, 0]
DP_A = [
    [],
    [1 / 5],
    [3 / 40, 9 / 40],
    [44 / 45, -56 / 15, 32 / 9],
    [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729],
    [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656],
    DP_B[:6],
]
DP_BHAT = [5179 / 57600, 0, 7571 / 16695, 393 / 640, -92097 / 339200, 187 / 2100, 1 / 40]


def tab_if45dp():
    c, a, b, e = _lawson(DP_C, DP_A, DP_B, [x - y for x, y in zip(DP_B, DP_BHAT)])
    return dict(c=c, a=a, b=b, err=e, order=5, q=5, est=4)


TABLEAUX = {
    "IF4": tab_if4(),
    "ETD4": tab_etd4(),
    "ETD5": tab_etd5(),
    "IF34": tab_if34(),
    "ETD34": tab_etd34(),
    "ETD35": tab_etd35(),
    "IF45DP": tab_if45dp(),
}


def _apply(ops, terms, v):
    out = 0
    for k, t, r, c in terms:
        m = ops.exp(c) if t == "exp" else ops.psi(r, c)
        out = out + k * ops.dot(m, v)
    return out


def step(name, L, nl, u, h, ops=None):
    """(u_next, error estimate or None) of one step of scheme ``name``."""
    tab = TABLEAUX[name]
    ops = ops or Ops(h * np.asarray(L))
    u = np.asarray(u, dtype=complex)
    N = []
    for i, ci in enumerate(tab["c"]):
        if i == 0:
            k = u
        else:
            k = ops.dot(ops.exp(ci), u)
            for j in range(i):
                if (i, j) in tab["a"]:
                    k = k + h * _apply(ops, tab["a"][(i, j)], N[j])
        N.append(np.asarray(nl(k), dtype=complex))
    unew = ops.dot(ops.exp(1), u)
    for j, w in tab["b"].items():
        unew = unew + h * _apply(ops, w, N[j])
    err = None
    if tab["err"] is not None:
        err = 0
        for j, w in tab["err"].items():
            err = err + h * _apply(ops, w, N[j])
    return unew, err


# --------------------------------------------------------------------------
# step controller
# --------------------------------------------------------------------------
MAX_S, MIN_S, MAX_LOOPS = 4.0, 0.25, 50
DEFAULTS = dict(epsilon=1e-4, incr_f=1.25, decr_f=0.85, safety_f=0.8, adapt_cutoff=0.01, minh=1e-16)


def factor(u, err, q, cfg):
    """Step factor s of a candidate: math.inf for an exact step, nan if not assessable."""
    u = [complex(x) for x in np.ravel(u)]
    err = [complex(x) for x in np.ravel(err)]
    if not all(np.isfinite(x) for x in u):
        return math.nan
    mags = [abs(x) for x in u]
    top = max(mags)
    if top == 0:
        sel = range(len(u))
    else:
        sel = [i for i, m in enumerate(mags) if m / top > cfg["adapt_cutoff"]]
    e2 = [abs(err[i]) for i in sel]
    if not all(math.isfinite(x) for x in e2):
        return math.nan
    en = math.sqrt(math.fsum(x * x for x in e2))
    un = math.sqrt(math.fsum(mags[i] ** 2 for i in sel))
    if en == 0:
        return math.inf
    return cfg["safety_f"] * (cfg["epsilon"] * un / en) ** (1.0 / q)


def masked_norm(u, cfg):
    """Norm of the modes that count."""
    m = np.abs(np.ravel(u))
    sel = m / np.max(m) > cfg["adapt_cutoff"]
    return math.sqrt(math.fsum(float(x) ** 2 for x in m[sel]))


def reject_factor(s, cfg):
    if math.isnan(s):
        return MIN_S
    return min(max(s, MIN_S), cfg["decr_f"])


def accept_factor(s, cfg):
    s = min(s, MAX_S)
    return s if s > cfg["incr_f"] else 1.0
