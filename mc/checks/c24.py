"""C24: discrete Hankel transform: grids, matrix on every unit vector, round trip, continuous transform."""
import itertools

import numpy as np
import scipy.special as sp

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is one size with every radius of the alphabet and every unit vector (linear maps are decided by a basis), or one "
    "family of functions; non-trivial: a transform was built (or an argument refused)."
)

RADII = (1.0, 0.5, 3, 10.0, 1e-3, 250.0, 2.5e6, 1e-150, 0.7)
_Z = {}


def zeros(m):
    """First m zeros of J0 by Newton iteration from McMahon's expansion."""
    if m not in _Z:
        b = (np.arange(1, m + 1) - 0.25) * np.pi
        z = b + 1 / (8 * b) - 124 / (3 * (8 * b) ** 3)
        for _ in range(6):
            z = z + sp.j0(z) / sp.j1(z)
        _Z[m] = z
    return _Z[m]


def ref_matrix(n):
    z = zeros(n + 1)
    j, jN = z[:-1], z[-1]
    return 2 * sp.j0(np.outer(j, j) / jN) / (jN * sp.j1(j) ** 2)[None, :]


def size(n):
    from rkstiff import grids
    from rkstiff.transforms import HankelTransform

    tr = core.tracker()
    z = zeros(n + 1)
    j, jN = z[:-1], z[-1]
    Y = ref_matrix(n)
    dev = np.max(np.abs(Y.dot(Y) - np.eye(n)))
    if dev > 1e-4:
        raise RuntimeError("reference matrix is not an involution: %g" % dev)
    for R in RADII:
        h = HankelTransform(n, R)
        g = grids.construct_r_kr_hankel(n, R)
        what = "nr=%d, rmax=%g" % (n, R)
        for nm, got, want in (
            ("r", h.r, j * R / jN), ("kr", h.kr, j / R), ("bessel_zeros()", h.bessel_zeros(), j),
            ("r of construct_r_kr_hankel", g[0], j * R / jN), ("kr of construct_r_kr_hankel", g[1], j / R),
            ("zeros of construct_r_kr_hankel", g[2], j), ("jN", np.array([g[3]]), np.array([jN])),
        ):
            each(got, want, 1e-12, "%s: %s" % (what, nm))
        if h.nr != n or h.rmax != R:
            core.fail("%s: attributes nr=%r, rmax=%r" % (what, h.nr, h.rmax))
        each(h.hankel_matrix(), Y, 2e-13 * n, "%s: hankel_matrix()" % what, floor=np.max(np.abs(Y)))
        S = float(R) ** 2 / jN
        E = np.eye(n)
        F = np.array([h.ht(e) for e in E]).T
        B = np.array([h.iht(e) for e in E]).T
        each(F / S, Y, 2e-13 * n, "%s: forward transform of the unit vectors" % what, floor=np.max(np.abs(Y)))
        each(B * S, Y, 2e-13 * n, "%s: inverse transform of the unit vectors" % what, floor=np.max(np.abs(Y)))
        tr.ev("R%g" % R, n=2 * n)
        for k in range(n):
            e = E[k]
            for nm, back in (("iht(ht(.))", h.iht(h.ht(e))), ("ht(iht(.))", h.ht(h.iht(e)))):
                if not np.max(np.abs(back - e)) <= dev + 1e-11 * n:
                    core.fail("%s: %s of unit vector %d is off by %.3g (method's own accuracy %.3g)" % (what, nm, k, np.max(np.abs(back - e)), dev))
        # linearity: complex and integer combinations of all unit vectors, and several columns at once
        c = np.cos(np.arange(n) * 1.3) + 1j * np.sin(np.arange(n) ** 2)
        for f, M, sc in ((h.ht, Y * S, S), (h.iht, Y / S, 1 / S)):
            for v in (c, c.real, np.arange(n) % 5 - 2, c[::-1], c * (np.abs(c) > 1), np.zeros(n)) + ((c.real * 1e9, c * 1e-100, c * 1e100) if R > 1e-9 else ()):
                w = np.sum(M * np.asarray(v)[None, :], axis=1)
                if not np.max(np.abs(f(v) - w)) <= 1e-11 * n * sc * max(np.max(np.abs(v)), 1e-290):
                    core.fail("%s: %s of a combination is off by %.3g" % (what, f.__name__, np.max(np.abs(f(v) - w))))
            V = np.stack([c, c.real, c.imag], axis=1)
            got = f(V)
            if got.shape != (n, 3):
                core.fail("%s: %s of %s data has shape %s" % (what, f.__name__, V.shape, got.shape))
            for k in range(3):
                if not np.max(np.abs(got[:, k] - f(V[:, k].copy()))) <= 1e-11 * n * sc:
                    core.fail("%s: %s of several columns" % (what, f.__name__))
            tr.ev("lin%g%s" % (R, f.__name__))
        # band-limited functions: J0(k_m r) on [0, rmax] has the single coefficient rmax^2 J1(j_m)^2 / 2
        for m in range(n - 1):
            f = sp.j0(h.kr[m] * h.r)
            want = np.zeros(n)
            want[m] = float(R) ** 2 * sp.j1(j[m]) ** 2 / 2
            got = h.ht(f)
            if not np.max(np.abs(got - want)) <= (2 * dev + 1e-10) * S * 3:
                core.fail("%s: transform of the Bessel mode %d is off by %.3g" % (what, m, np.max(np.abs(got - want))))
            tr.ev("bessel%g-%d" % (R, m))


def each(got, want, tol, what, floor=0.0):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        core.fail("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    e = np.abs(got - want)
    if not np.all(e <= tol * np.maximum(np.abs(want), floor)):
        i = np.unravel_index(np.argmax(e), e.shape)
        core.fail("%s: entry %s is %r, expected %r" % (what, i, got[i], want[i]))


def gaussians(n):
    """Functions resolved on the grid: exp(-r^2/w^2) (and r^2 times it) and their closed-form transforms."""
    from rkstiff.transforms import HankelTransform

    tr = core.tracker()
    for R in (1.0, 8.0, 0.02):
        h = HankelTransform(n, R)
        for frac in np.linspace(1.0, 40.0, 40):
            w = R / frac
            if R / w < 5.5 or h.kr[-1] * w / 2 < 5.5:
                continue
            r, k = h.r, h.kr
            a = np.exp(-((r / w) ** 2))
            A = w * w / 2 * np.exp(-((k * w) ** 2) / 4)
            b = (r / w) ** 2 * a
            B = w * w / 2 * (1 - (k * w) ** 2 / 4) * np.exp(-((k * w) ** 2) / 4)
            for nm, f, F in (("Gaussian", a, A), ("r^2 Gaussian", b, B)):
                for x, y, s in ((h.ht(f), F, w * w), (h.iht(F), f, 1.0), (h.iht(h.ht(f)), f, 1.0), (h.ht(h.iht(F)), F, w * w)):
                    e = np.max(np.abs(x - y)) / s
                    if not e <= 1e-7:
                        core.fail("nr=%d rmax=%g: %s of width %g is off by %.3g" % (n, R, nm, w, e))
            tr.ev("%g-%g" % (R, frac))
            tr.count("resolved_gaussians")


def refused():
    from rkstiff import grids
    from rkstiff.transforms import HankelTransform

    tr = core.tracker()
    bad_r = (0.0, -0.0, 0, -1, -1e-300, -1.0, float("-inf"), float("nan"), np.float64("nan"), np.float64(-2.0))
    for fn in (grids.construct_r_kr_hankel, HankelTransform):
        for n in (*range(-6, 12), 3.5, 3.99, 0.5, -4.5):
            for R in (1.0, 2, 1e-3) + bad_r:
                if n >= 4 and R > 0:
                    fn(n, R)
                else:
                    common.expect_raises(ValueError, lambda: fn(n, R), "%s(%d, %r)" % (fn.__name__, n, R))
                tr.ev("%s%d%r" % (fn.__name__, n, R))
    for n in range(-6, 12):
        if n >= 4:
            if HankelTransform(n).rmax != 1.0:
                core.fail("default radius %r" % HankelTransform(n).rmax)
            common.expect_same(HankelTransform(n).r, HankelTransform(n, 1.0).r, "default radius")
        else:
            common.expect_raises(ValueError, lambda: HankelTransform(n), "HankelTransform(%d)" % n)
        tr.ev(str(n))


def histories():
    """The grids do not depend on calls made before, nor on what the caller did with their results."""
    from rkstiff import grids

    tr = core.tracker()
    args = [(4, 1.0), (5, 1.0), (5, 2.0), (40, 0.5)]
    want = {a: [np.array(x) for x in grids.construct_r_kr_hankel(*a)] for a in args}
    for depth in (1, 2, 3):
        for seq in itertools.product(args, repeat=depth):
            for a in seq:
                got = grids.construct_r_kr_hankel(*a)
                for g, w in zip(got, want[a]):
                    common.expect_same(np.asarray(g), w, "construct_r_kr_hankel%r after %r" % (a, seq))
                for g in got[:3]:
                    g[...] = np.nan
            tr.ev(repr(seq))


def cases(tier):
    big = tier == "thorough"
    for n in list(range(4, 130 if big else 49)) + [64, 100] * (not big) + [130, 160, 200, 256, 300] + [400, 512] * big:
        yield "size-%d" % n, lambda n=n: size(n)
    for n in list(range(16, 200 if big else 80, 4)):
        yield "gauss-%d" % n, lambda n=n: gaussians(n)
    yield "refused", refused
    yield "histories", histories
