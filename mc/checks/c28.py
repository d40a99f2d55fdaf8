"""C28: soliton profiles against the closed form, the equation and superposition."""
import itertools

import numpy as np
from numpy.polynomial import chebyshev as C

from .. import common, core

LEVEL = "exploration"
RULE = "A case is an amplitude (or list of solitons) with all positions and times of the grid; non-trivial: a profile was evaluated."

AMPL = (0.5, 0.1, 1.0, 2, 3.7, 0.01, -1.3, 10.0)
POS = (0.0, -4.0, 7.25, 1)
TIMES = (0.0, 0.3, 2, -1.5, 40.0)


def sech2(y):
    e = np.exp(-2 * np.abs(y))
    return 4 * e / (1 + e) ** 2


def want(x, a, x0, t):
    return 0.5 * a * a * sech2(0.5 * a * (np.asarray(x, float) - x0 - a * a * t))


def near(got, ref, tol, what):
    got = np.asarray(got)
    if got.shape != ref.shape:
        core.fail("%s: shape %s, expected %s" % (what, got.shape, ref.shape))
    e = np.max(np.abs(got - ref)) if ref.size else 0.0
    if not e <= tol:
        i = int(np.argmax(np.abs(got - ref)))
        core.fail("%s: value %d is %r, expected %r" % (what, i, got[i], ref[i]))


def single(a):
    from rkstiff.models import kdv_soliton

    tr = core.tracker()
    for x0, t in itertools.product(POS, TIMES):
        c = x0 + a * a * t
        what = "kdv_soliton(ampl=%g, x0=%g, t=%g)" % (a, x0, t)
        width = 1 / abs(a)
        for x in (c + width * np.linspace(-30, 30, 241), np.linspace(-100, 100, 64), c + width * np.array([-2000.0, 0, 2000.0]), np.array([c]), np.arange(-5, 6)):
            keep = x.copy()
            tol = 1e-13 * a * a * (1 + abs(a) * (abs(c) + np.max(np.abs(x))))
            w = want(x, a, x0, t)
            for got in (kdv_soliton(x, a, x0, t), kdv_soliton(x, ampl=a, x0=x0, t=t), kdv_soliton(x, t=t, x0=x0, ampl=a)):
                near(got, w, tol, what)
            if not np.array_equal(x, keep):
                core.fail("%s changed the grid" % what)
            tr.ev("%g-%g-%d" % (x0, t, x.size))
        # the peak a^2/2 is at x0 + a^2 t
        p = kdv_soliton(np.array([c, c - 0.01 * width, c + 0.01 * width]), a, x0, t)
        if abs(p[0] - a * a / 2) > 1e-9 * a * a or p[1] >= p[0] or p[2] >= p[0]:
            core.fail("%s: values %s around the expected peak %g at %g" % (what, p, a * a / 2, c))
        # travelling wave: the profile at t is the initial one moved by a^2 t
        x = c + width * np.linspace(-6, 6, 49)
        near(kdv_soliton(x, a, x0, t), np.asarray(kdv_soliton(x - a * a * t, a, x0)), 1e-12 * a * a * (1 + abs(a * c)), what + " against the initial profile")
        residual(lambda y, s: kdv_soliton(y, a, x0, s), a, c, t, what)
    # defaults
    x = np.linspace(-20, 20, 81)
    near(kdv_soliton(x, a), want(x, a, 0.0, 0.0), 1e-12 * a * a * (1 + abs(a) * 20), "kdv_soliton with default position and time")
    near(kdv_soliton(x), want(x, 0.5, 0.0, 0.0), 1e-12, "kdv_soliton with default arguments")
    near(kdv_soliton(x, t=3.0), want(x, 0.5, 0.0, 3.0), 1e-12, "kdv_soliton with default amplitude")
    near(kdv_soliton(x, x0=3.0), want(x, 0.5, 3.0, 0.0), 1e-12, "kdv_soliton with default amplitude")


def residual(f, a, c, t, what):
    """u_t + 6 u u_x + u_xxx on polynomial interpolants around the soliton."""
    if abs(a * c) > 1e4:
        return
    for off in np.linspace(-3, 3, 13) / abs(a):
        half = 0.8 / abs(a)
        xi = np.cos(np.pi * (np.arange(24) + 0.5) / 24)
        tau = 0.8 / abs(a) ** 3
        ux = C.chebfit(xi, f(c + off + half * xi, t), 23)
        y0 = np.array([c + off])
        ut = C.chebfit(xi, np.array([f(y0, t + tau * s)[0] for s in xi]), 23)
        d = lambda k: C.chebval(0.0, C.chebder(ux, k)) / half**k
        r = C.chebval(0.0, C.chebder(ut)) / tau + 6 * f(y0, t)[0] * d(1) + d(3)
        s = abs(a) ** 5
        if not abs(r) <= 1e-7 * s * (1 + abs(a * c)):
            core.fail("%s: u_t + 6 u u_x + u_xxx = %.3g (scale %.3g) at distance %g from the peak" % (what, r, s, off))
        core.tracker().count("residuals")


def multi(m, t):
    from rkstiff.models import kdv_multi_soliton, kdv_soliton

    tr = core.tracker()
    x = np.linspace(-25, 25, 101)
    amps, pos = (0.5, 1.0, 2.2, -0.7, 3), (0.0, -6.5, 11.0, 4)
    for aa in itertools.product(amps, repeat=m):
        for pp in itertools.product(pos, repeat=m):
            w = sum((want(x, a, p, t) for a, p in zip(aa, pp)), np.zeros_like(x))
            what = "kdv_multi_soliton(%s, %s, t=%g)" % (aa, pp, t)
            for conv in (list, tuple, np.array):
                near(kdv_multi_soliton(x, conv(aa), conv(pp), t), w, 1e-11 * (m + 1), what)
            s = sum((np.asarray(kdv_soliton(x, a, p, t)) for a, p in zip(aa, pp)), np.zeros_like(x))
            near(kdv_multi_soliton(x, ampl=aa, x0=pp, t=t), s, 1e-12 * (m + 1), what + " against kdv_soliton")
            if t == 0:
                near(kdv_multi_soliton(x, aa, pp), w, 1e-11 * (m + 1), what + " with the default time")
            tr.ev("%s%s" % (aa, pp))
    for size in (1, 2, 3, 17):
        y = np.linspace(-3, 3, size)
        aa, pp = amps[:m], pos[:m]
        near(kdv_multi_soliton(y, aa, pp, t), sum((want(y, a, p, t) for a, p in zip(aa, pp)), np.zeros_like(y)), 1e-11 * (m + 1), "%d points" % size)


def extremes(a):
    """Tiny and huge amplitudes, far positions and late times, where the profile is still determined by the arguments."""
    tr = core.tracker()
    from rkstiff.models import kdv_soliton

    width = 1 / abs(a)
    for q in (0.0, 1.0, -3.5, 40.0, -1e3, 1e5):  # position in widths
        for s in (0.0, 1.0, -7.0, 900.0, -1e5):  # displacement a^2 t in widths
            x0, t = q * width, s * width / a**2
            c = x0 + a * a * t
            x = c + width * np.concatenate([np.linspace(-12, 12, 97), [-700.0, 700.0, -1e4, 1e4]])
            tol = 1e-13 * a * a * (1 + abs(a) * (abs(x0) + a * a * abs(t) + np.max(np.abs(x))))
            near(kdv_soliton(x, a, x0, t), want(x, a, x0, t), tol, "kdv_soliton(ampl=%g, x0=%g, t=%g)" % (a, x0, t))
            tr.ev("%g%g" % (q, s))


def many_points():
    """Grids of every length to 300 and some long ones, of several types and orders."""
    from rkstiff.models import kdv_multi_soliton, kdv_soliton

    tr = core.tracker()
    for n in list(range(1, 301)) + [511, 512, 513, 1000, 1024, 4096, 10000, 100001]:
        x = np.linspace(-37.0, 41.0, n)
        for nm, y in (("", x), ("reversed", x[::-1]), ("shuffled", x[(np.arange(n) * 7919) % n]), ("strided", np.repeat(x, 2)[::2]), ("rounded", np.round(x).astype(int))):
            near(kdv_soliton(y, 0.9, 2.5, 1.5), want(y, 0.9, 2.5, 1.5), 1e-11, "kdv_soliton on %d points %s" % (n, nm))
            near(kdv_multi_soliton(y, [0.9, 0.4], [2.5, -11.0], 1.5), want(y, 0.9, 2.5, 1.5) + want(y, 0.4, -11.0, 1.5), 1e-11, "kdv_multi_soliton on %d points %s" % (n, nm))
            tr.ev("%d%s" % (n, nm))


def crowd():
    """Many solitons: equal ones, close ones, far ones."""
    from rkstiff.models import kdv_multi_soliton

    tr = core.tracker()
    x = np.linspace(-60, 60, 241)
    for m in (3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 50, 100):
        k = np.arange(m)
        for nm, aa, pp in (
            ("equal", 0 * k + 0.8, 0 * k + 1.5), ("equal amplitudes", 0 * k + 0.8, k * 7.0 - 40), ("equal positions", 0.3 + 0.05 * k, 0 * k - 3.0),
            ("all different", 0.3 + 0.05 * k, k * 5.0 - 50), ("falling", 2.0 - 0.015 * k, 40 - 1.0 * k), ("one far", 0.5 + 0.1 * (k % 4), np.where(k == m - 1, 1e4, 2.0 * k)),
            ("signs", np.where(k % 2, 0.7, -0.7), 3.0 * k - 30), ("integers", k % 3 + 1, k % 5 - 2),
        ):
            for t in (0.0, 0.4, -3.0):
                w = sum((want(x, a, p, t) for a, p in zip(aa, pp)), np.zeros_like(x))
                for conv in (np.array, lambda v: v.tolist(), lambda v: tuple(v.tolist())):
                    near(kdv_multi_soliton(x, conv(aa), conv(pp), t), w, 1e-10 * (m + 1), "%d solitons (%s) at t=%g" % (m, nm, t))
                tr.ev("%d%s%g" % (m, nm, t))


def mismatch():
    from rkstiff.models import kdv_multi_soliton

    tr = core.tracker()
    x = np.linspace(-3, 3, 7)
    for p, q in itertools.product(range(0, 8), repeat=2):
        for conv in (list, tuple, np.array):
            a, b = conv([0.5 + i for i in range(p)]), conv([1.0 * i for i in range(q)])
            for t in (0.0, 1.0):
                if p != q:
                    common.expect_raises(ValueError, lambda: kdv_multi_soliton(x, a, b, t), "%d amplitudes and %d positions" % (p, q))
                else:
                    near(kdv_multi_soliton(x, a, b, t), sum((want(x, u, v, t) for u, v in zip(a, b)), np.zeros_like(x)), 1e-11 * (p + 1), "%d solitons" % p)
        tr.ev("%d-%d" % (p, q))


def cases(tier):
    big = tier == "thorough"
    for a in AMPL + ((0.003, 25.0, 1 / 3) if big else ()):
        yield "single-%g" % a, lambda a=a: single(a)
    for m in range(0, 4 if big else 3):
        for t in (0.0, 0.7, -2.0, 5):
            yield "multi-%d-%g" % (m, t), lambda m=m, t=t: multi(m, t)
    yield "mismatch", mismatch
    for a in (1e-6, 1e-4, 1e-3, 0.02, 0.3, 1.0, -1.0, 4.0, 30.0, 1e3, 1e5, -1e-3):
        yield "extremes-%g" % a, lambda a=a: extremes(a)
    yield "points", many_points
    yield "crowd", crowd
