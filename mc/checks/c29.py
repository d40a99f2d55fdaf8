"""C29: the library's grids, models, transforms and solvers together against known solutions of the equations."""
import functools
import json
import os

import numpy as np
from scipy.integrate import solve_ivp

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is one equation with one parameter set and one solver and operator form, with every step size or tolerance of the grid; "
    "the error against the known solution must stay within 10 times the calibrated one and decrease at the solver's rate; "
    "non-trivial: an integration was compared with the solution."
)
ASSUMPTIONS = [
    "error bounds are 10 times those measured on the pinned tree (calibration.json) plus a rounding allowance",
    "Allen-Cahn and Kerr reference solutions are computed with scipy's DOP853/Radau at tolerance 1e-12 on an independently written discretization",
]
CAL = os.path.join(os.path.dirname(os.path.abspath(__file__)), "calibration.json")


@functools.lru_cache(None)
def calibration():
    with open(CAL) as f:
        return json.load(f)


# -- equations ------------------------------------------------------------------------
def kdv(n, ab, amps, pos, T):
    from rkstiff import grids, models

    x, kx = grids.construct_x_kx_rfft(n, *ab)
    L, nl = models.kdv_ops(kx)
    multi = len(amps) > 1
    u0 = models.kdv_multi_soliton(x, amps, pos) if multi else models.kdv_soliton(x, amps[0], pos[0])

    def exact(t):
        ln = ab[1] - ab[0]
        if not multi:
            return sum(0.5 * amps[0] ** 2 / np.cosh(0.5 * amps[0] * (x - pos[0] - amps[0] ** 2 * t + s * ln)) ** 2 for s in (-1, 0, 1))
        # two solitons: the exact two-soliton solution starting from well separated ones (logarithmic derivative form)
        return two_solitons(x, amps, pos, t)

    dx = x[1] - x[0]
    inv = {"mass": lambda u: dx * np.sum(u), "momentum": lambda u: dx * np.sum(u**2)}
    return dict(L=L, nl=nl, u0=np.fft.rfft(u0), phys=lambda c: np.fft.irfft(c, n), exact=exact, T=T, inv=inv, forms=("diag",))


def two_solitons(x, amps, pos, t):
    """u = 2 (log F)_xx; positions are those of the separated solitons before (faster one behind) the interaction."""
    (k1, k2), (x1, x2) = amps, pos
    # F = 1 + e1 + e2 + A e1 e2
    A = ((k1 - k2) / (k1 + k2)) ** 2
    # the faster soliton (k1 > k2) starts on the left, where e2 vanishes; around the other e1 >> 1, hence F ~ e1 (1 + A e2)
    t1, t2 = k1 * (x - x1 - k1**2 * t), k2 * (x - x2 - k2**2 * t)
    t2 = t2 - np.log(A)
    e = np.maximum.reduce([np.zeros_like(x), t1, t2, t1 + t2 + np.log(A)])
    w = [np.exp(-e), np.exp(t1 - e), np.exp(t2 - e), A * np.exp(t1 + t2 - e)]
    ks = [0.0, k1, k2, k1 + k2]
    F = sum(w)
    F1 = sum(k * v for k, v in zip(ks, w))
    F2 = sum(k * k * v for k, v in zip(ks, w))
    return 2 * (F2 / F - (F1 / F) ** 2)


def burgers(n, ab, mu, m, c, T):
    from rkstiff import grids, models

    x, kx = grids.construct_x_kx_rfft(n, *ab)
    L, nl = models.burgers_ops(kx, mu)
    k = 2 * np.pi * m / (ab[1] - ab[0])

    def exact(t):
        e = c * np.exp(-mu * k * k * t)
        th = k * (x - ab[0])
        return 2 * mu * k * e * np.sin(th) / (1 + e * np.cos(th))

    dx = x[1] - x[0]
    return dict(L=L, nl=nl, u0=np.fft.rfft(exact(0.0)), phys=lambda v: np.fft.irfft(v, n), exact=exact, T=T,
                inv={"mass": lambda u: dx * np.sum(u)}, forms=("diag", "full"))


def nls(n, ab, amp, vel, T):
    """i u_t + u_xx/2 + |u|^2 u = 0: moving bright soliton."""
    from rkstiff import grids

    x, kx = grids.construct_x_kx_fft(n, *ab)
    L = -0.5j * kx**2

    def nl(c):
        u = np.fft.ifft(c)
        return np.fft.fft(1j * np.abs(u) ** 2 * u)

    ln = ab[1] - ab[0]

    def exact(t):
        y = (x - vel * t - ab[0]) % ln + ab[0]
        # the phase belongs to the unwrapped coordinate; the domain holds a whole number of carrier periods
        return amp / np.cosh(amp * y) * np.exp(1j * (vel * x + 0.5 * (amp**2 - vel**2) * t))

    dx = x[1] - x[0]
    return dict(L=L, nl=nl, u0=np.fft.fft(exact(0.0)), phys=np.fft.ifft, exact=exact, T=T,
                inv={"power": lambda u: dx * np.sum(np.abs(u) ** 2)}, forms=("diag",))


def heat(n, ab, m, source, T):
    """u_t = u_xx on a Chebyshev grid with zero end values (or with a nonlinear source that keeps a closed form)."""
    from rkstiff import grids
    from rkstiff.derivatives import dx_cheb

    x, D = grids.construct_x_dx_cheb(n, *ab)
    D2 = dx_cheb(D, np.eye(n + 1), 2)
    L = D2[1:-1, 1:-1]
    k = np.pi * m / (ab[1] - ab[0])
    s = np.sin(k * (x - ab[0]))[1:-1]
    if not source:
        exact = lambda t: np.exp(-k * k * t) * s
        nl = lambda u: np.zeros_like(u)
    else:
        # u = s/(1+t): u_t = -u^2/s = u_xx + k^2 u - u^2/s
        exact = lambda t: s / (1 + t)
        nl = lambda u: k * k * u - u * u / s
    return dict(L=L, nl=nl, u0=exact(0.0), phys=np.real, exact=exact, T=T, inv={}, forms=("full", "eig"))


@functools.lru_cache(None)
def allen_reference(n, ab, eps, T, which):
    j = np.arange(n + 1)
    x = ab[0] + (ab[1] - ab[0]) * np.sin(j * np.pi / (2 * n)) ** 2
    # differentiation matrix from barycentric weights
    w = (-1.0) ** j
    w[0] *= 0.5
    w[-1] *= 0.5
    D = np.zeros((n + 1, n + 1))
    for i in range(n + 1):
        for k in range(n + 1):
            if i != k:
                D[i, k] = w[k] / w[i] / (x[i] - x[k])
        D[i, i] = -np.sum(D[i])
    D2 = D.dot(D)
    w0 = start(x, which)

    def f(t, y):
        v = w0.copy()
        v[1:-1] = y
        return (eps * D2.dot(v) + v - v**3)[1:-1]

    r = solve_ivp(f, (0, T), w0[1:-1], method="Radau", rtol=1e-12, atol=1e-13)
    return r.y[:, -1]


def start(x, which):
    """Initial states equal to x at the ends of the interval."""
    if which == 0:
        return 0.53 * x + 0.47 * np.sin(-1.5 * np.pi * x)
    s = (2 * x - x[0] - x[-1]) / (x[-1] - x[0])
    return x + 0.4 * np.sin(np.pi * s) + 0.3 * np.sin(2 * np.pi * s)


def allen(n, eps, which, T, ab=(-1.0, 1.0)):
    from rkstiff import grids, models

    x, D = grids.construct_x_dx_cheb(n, *ab)
    L, nl = models.allen_cahn_ops(x, D, eps)
    u0 = (start(x, which) - x)[1:-1]

    def exact(t):
        return (x[1:-1] + u0) if t == 0 else allen_reference(n, ab, eps, T, which)

    return dict(L=L, nl=nl, u0=u0, phys=lambda u: np.real(u) + x[1:-1], exact=exact, T=T, inv={}, forms=("full", "eig"))


def beam(n, rmax, w0, T, space):
    """Diffraction A_z = i/2 (A_rr + A_r/r) of a Gaussian beam; spectral (diagonal) or physical (full matrix) form."""
    from rkstiff.transforms import HankelTransform

    h = HankelTransform(n, rmax)
    r = h.r

    def exact(t):
        q = 1 + 2j * t / w0**2
        return np.exp(-(r**2) / (w0**2 * q)) / q

    inv = {"power": lambda u: power(h, u)}
    if space == "spectral":
        return dict(L=-0.5j * h.kr**2, nl=lambda a: np.zeros_like(a), u0=h.ht(exact(0.0)), phys=h.iht, exact=exact, T=T, inv=inv, forms=("diag",))
    M = np.array([h.iht(-0.5j * h.kr**2 * h.ht(e)) for e in np.eye(n)]).T
    return dict(L=M, nl=lambda a: np.zeros_like(a), u0=exact(0.0), phys=lambda a: a, exact=exact, T=T, inv=inv, forms=("full", "eig"))


def power(h, u):
    """2 int |u|^2 r dr by the quadrature belonging to the Bessel zeros."""
    from scipy.special import j1

    return np.sum(np.abs(u) ** 2 / j1(h.bessel_zeros()) ** 2) * h.rmax**2 / (h.kr[-1] * h.rmax) ** 2


@functools.lru_cache(None)
def kerr_reference(n, rmax, w0, g, T):
    from scipy import special as sp

    z = sp.jn_zeros(0, n + 1)
    j, jN = z[:-1], z[-1]
    Y = 2 * sp.j0(np.outer(j, j) / jN) / (jN * sp.j1(j) ** 2)
    r, k = j * rmax / jN, j / rmax
    S = rmax**2 / jN

    # integrating factor form removes the stiff part from the reference integration
    def f(t, b):
        u = Y.dot(b * np.exp(-0.5j * k**2 * t)) / S
        return np.exp(0.5j * k**2 * t) * S * Y.dot(1j * g * np.abs(u) ** 2 * u)

    b0 = S * Y.dot(np.exp(-(r**2) / w0**2)).astype(complex)
    s = solve_ivp(f, (0, T), b0, method="DOP853", rtol=1e-12, atol=1e-13)
    return Y.dot(s.y[:, -1] * np.exp(-0.5j * k**2 * T)) / S


def kerr(n, rmax, w0, g, T):
    """A_z = i/2 Lap A + i g |A|^2 A."""
    from rkstiff.transforms import HankelTransform

    h = HankelTransform(n, rmax)

    def nl(a):
        u = h.iht(a)
        return h.ht(1j * g * np.abs(u) ** 2 * u)

    def exact(t):
        return np.exp(-(h.r**2) / w0**2) + 0j if t == 0 else kerr_reference(n, rmax, w0, g, T)

    return dict(L=-0.5j * h.kr**2, nl=nl, u0=h.ht(exact(0.0)), phys=h.iht, exact=exact, T=T, inv={}, forms=("diag",))


PROBLEMS = {
    "kdv-1": lambda: kdv(128, (-30.0, 30.0), (1.0,), (-3.0,), 2.0),
    "kdv-2": lambda: kdv(128, (-20.0, 20.0), (1.6,), (0.0,), 1.0),
    "kdv-shift": lambda: kdv(96, (5.0, 53.0), (1.2,), (25.0,), 1.5),
    "kdv-two": lambda: kdv(192, (-40.0, 40.0), (1.5, 0.9), (-18.0, 4.0), 3.0),
    "burgers-1": lambda: burgers(64, (0.0, 2 * np.pi), 0.1, 1, 0.7, 2.0),
    "burgers-2": lambda: burgers(64, (-1.0, 1.0), 0.05, 2, -0.6, 1.0),
    "burgers-3": lambda: burgers(96, (3.0, 13.0), 0.4, 1, 0.85, 3.0),
    "nls-1": lambda: nls(128, (-6 * np.pi, 6 * np.pi), 1.0, 0.0, 2.0),
    "nls-2": lambda: nls(128, (-6 * np.pi, 6 * np.pi), 1.3, 1.0, 1.5),
    "heat-1": lambda: heat(24, (-1.0, 1.0), 1, False, 0.3),
    "heat-2": lambda: heat(24, (2.0, 5.0), 2, False, 0.5),
    "source-1": lambda: heat(20, (-1.0, 1.0), 1, True, 1.0),
    "source-2": lambda: heat(20, (0.0, np.pi), 1, True, 2.0),
    "allen-1": lambda: allen(24, 0.01, 0, 3.0),
    "allen-2": lambda: allen(24, 0.1, 1, 1.0),
    "allen-3": lambda: allen(24, 0.1, 1, 1.0, (-0.5, 1.5)),
    "allen-4": lambda: allen(20, 0.05, 1, 1.5, (0.0, 1.0)),
    "beam-spectral": lambda: beam(64, 8.0, 1.0, 0.7, "spectral"),
    "beam-wide": lambda: beam(48, 20.0, 2.5, 4.0, "spectral"),
    "beam-physical": lambda: beam(32, 7.0, 1.0, 0.4, "physical"),
    "kerr": lambda: kerr(48, 6.0, 1.0, 2.0, 0.5),
}
LINEAR = ("heat", "beam")
CS_STEPS = (20, 40, 80)
TOLS = (1e-3, 1e-5, 1e-7)
MORE_STEPS = (15, 33, 160)
MORE_TOLS = (1e-2, 1e-4, 1e-6, 1e-9)
_MEASURE = {}


def operator(p, form):
    L = p["L"]
    if form != "diag" and L.ndim == 1:
        return np.diag(L)
    return L


def integrate(p, v, setting, t0=0.0):
    name, form = v
    L = operator(p, form)
    if name in common.CS:
        sol = common.make(v, L, p["nl"])
        u = sol.evolve(p["u0"], t0, t0 + p["T"], p["T"] / setting, store_freq=max(setting // 5, 1))
    else:
        sol = common.make(v, L, p["nl"], config=common.config(epsilon=setting))
        u = sol.evolve(p["u0"], t0, t0 + p["T"], p["T"] / 100)
    return sol, u


def error(p, u, t):
    w = p["exact"](t)
    return float(np.max(np.abs(p["phys"](u) - w)) / np.max(np.abs(p["exact"](0.0))))


def problem(pname, v, settings):
    tr = core.tracker()
    p = PROBLEMS[pname]()
    p0 = p["phys"](p["u0"])
    w0 = p["exact"](0.0)
    if not np.max(np.abs(p0 - w0)) <= 1e-7 * np.max(np.abs(w0)):
        core.fail("the initial state is off by %.3g after the transforms" % np.max(np.abs(p0 - w0)))
    errs = {}
    for s in settings:
        sol, u = integrate(p, v, s)
        what = "%s with %s, %s" % (pname, common.vname(v), "%d steps" % s if v[0] in common.CS else "epsilon=%g" % s)
        key = "%s|%s|%s" % (pname, common.vname(v), s)
        e = error(p, u, p["T"])
        errs[s] = e
        drift = {k: max(float(abs(f(p["phys"](x)) - f(p0)) / max(abs(f(p0)), f(np.abs(p0)))) for x in sol.u) for k, f in p["inv"].items()}
        _MEASURE[key] = dict(error=e, **drift)
        tr.ev(key)
        if not pname.startswith(("allen", "kerr")):
            mid = max(error(p, x, t) for t, x in zip(sol.t, sol.u))
            _MEASURE[key]["along"] = mid
        if os.environ.get("MC_CALIBRATE"):
            continue
        cal = calibration()[key]
        if not cal["error"] < 0.2:  # not resolved with this step size
            tr.count("unresolved")
            continue
        for k, m in _MEASURE[key].items():
            floor = 2e-10 if k != "mass" else 1e-11
            if not m <= 10 * cal[k] + floor:
                core.fail("%s: %s %.3g, at most %.3g expected" % (what, {"error": "final error", "along": "error along the way"}.get(k, k + " drift"), m, 10 * cal[k] + floor))
    rate(pname, v, errs, settings)


def rate(pname, v, errs, settings):
    """Errors fall with the step size at the method's rate while they are above the discretization error."""
    if v[0] not in common.CS or os.environ.get("MC_CALIBRATE") or pname.startswith(LINEAR):
        return
    order = 5 if v[0] == "ETD5" else 4
    best = min(errs.values())
    ss = sorted(settings)
    for a, b in zip(ss, ss[1:]):
        if errs[b] > 1e-7 and errs[a] < 1e-2 and errs[b] < errs[a]:
            core.tracker().count("slopes")
            slope = np.log(errs[a] / errs[b]) / np.log(b / a)
            if slope < order - 1.6 and errs[b] > 30 * best:
                core.fail("%s with %s: error falls from %.3g (%d steps) to %.3g (%d steps), a rate of %.2f" % (pname, common.vname(v), errs[a], a, errs[b], b, slope))


def origin(pname, v, setting):
    """The same integration from another starting time."""
    p = PROBLEMS[pname]()
    _, u = integrate(p, v, setting)
    for t0 in (7.0, -2.5):
        _, w = integrate(p, v, setting, t0)
        common.close(p["phys"](w), p["phys"](u), 1e-6 if v[0] in common.AS else 1e-8, "%s with %s started at t=%g" % (pname, common.vname(v), t0))
        core.tracker().ev("%g" % t0)


def cases(tier):
    big = tier == "thorough"
    for pname in PROBLEMS:
        for v in common.VARIANTS:
            ok = {"kdv": ("diag",), "nls": ("diag",), "burgers": ("diag", "full") if pname == "burgers-2" else ("diag",), "heat": ("full", "eig"),
                  "source": ("full", "eig"), "allen": ("full", "eig"), "beam": ("full", "eig") if "physical" in pname else ("diag",), "kerr": ("diag",)}
            if v[1] not in ok[pname.split("-")[0]]:
                continue
            settings = CS_STEPS + (MORE_STEPS if big else ()) if v[0] in common.CS else TOLS + (MORE_TOLS if big else ())
            yield "%s-%s" % (pname, common.vname(v)), lambda p=pname, v=v, s=settings: problem(p, v, s)
            if v[1] == "diag":
                yield "origin-%s-%s" % (pname, common.vname(v)), lambda p=pname, v=v: origin(p, v, 20 if v[0] in common.CS else 1e-4)
