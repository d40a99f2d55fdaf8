"""C23: Chebyshev grids and differentiation on a polynomial basis."""
import itertools

import numpy as np
from numpy.polynomial import chebyshev as C

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is one grid order n and interval with every Chebyshev polynomial of degree at most n and every derivative order up to "
    "the bound; non-trivial: a grid, matrix or derivative was computed (or an argument refused)."
)

INTERVALS = [(-1, 1), (-1.0, 1.0), (0.0, 1.0), (-30.0, 50.0), (2.0, 2.5), (-0.001, 0.002), (1, 7), (-5.0, -1.0)]
EPS = 2.2e-16


def ref_points(n, a, b):
    j = np.arange(n + 1)
    # 1 + cos(pi - j pi/n) = 2 sin^2(j pi/(2n)), accurate at both ends
    s = np.sin(j * np.pi / (2 * n)) ** 2
    return a + (b - a) * s


def grids_of(n, a, b):
    from rkstiff import grids

    x = grids.construct_x_cheb(n, a, b)
    x2, D = grids.construct_x_dx_cheb(n, a, b)
    return x, x2, D


def norm(D):
    return np.max(np.sum(np.abs(D), axis=1))


def poly(n, ab, orders):
    from rkstiff import derivatives as d

    tr = core.tracker()
    a, b = ab
    x, x2, D = grids_of(n, a, b)
    what = "n=%d on [%g, %g]" % (n, a, b)
    want = ref_points(n, float(a), float(b))
    tol = 8 * EPS * max(abs(a), abs(b), b - a)
    for g in (x, x2):
        if g.shape != (n + 1,):
            core.fail("%s: %s points" % (what, g.shape))
        if not np.max(np.abs(g - want)) <= tol:
            core.fail("%s: points %s, expected %s" % (what, common.short(g), common.short(want)))
        if not np.all(np.diff(g) > 0):
            core.fail("%s: points are not increasing" % what)
    if D.shape != (n + 1, n + 1):
        core.fail("%s: differentiation matrix of shape %s" % (what, D.shape))
    s = 2.0 / (b - a)
    # exact differentiation norm scale: n^2 per order
    nd = s * (2.0 * n * n + 1) / 3
    xi = np.cos((n - np.arange(n + 1)) * np.pi / n)
    cols, dcols = [], {o: [] for o in orders}
    for deg in range(n + 1):
        c = np.zeros(deg + 1)
        c[deg] = 1.0
        u = C.chebval(xi, c)
        cols.append(u)
        for o in orders:
            dc = C.chebder(c, o) if o <= deg else np.zeros(1)
            w = s**o * C.chebval(xi, dc) if o else u
            dcols[o].append(w)
            got = d.dx_cheb(D, u, o)
            check(got, w, tolerance(n, nd, o, a, b), "%s: derivative %d of T_%d" % (what, o, deg))
            if o == 1:
                check(D.dot(u), w, tolerance(n, nd, 1, a, b), "%s: D applied to T_%d" % (what, deg))
                check(d.dx_cheb(D, u), w, tolerance(n, nd, 1, a, b), "%s: dx_cheb with the default order of T_%d" % (what, deg))
            tr.ev("%d-%d" % (deg, o))
    # all columns at once, every number of columns (also non-square data) and complex data
    U = np.array(cols).T
    for o in orders:
        W = np.array(dcols[o]).T
        for m in sorted({1, 2, n, n + 1}):
            check(d.dx_cheb(D, U[:, :m], o), W[:, :m], tolerance(n, nd, o, a, b), "%s: derivative %d of %d columns" % (what, o, m))
        check(d.dx_cheb(D, U[:, ::-1], o), W[:, ::-1], tolerance(n, nd, o, a, b), "%s: derivative %d of reversed columns" % (what, o))
        check(d.dx_cheb(D, np.asfortranarray(U), o), W, tolerance(n, nd, o, a, b), "%s: derivative %d of column-major data" % (what, o))
        z = U + 1j * U[:, ::-1]
        check(d.dx_cheb(D, z, o), W + 1j * W[:, ::-1], 2 * tolerance(n, nd, o, a, b), "%s: derivative %d of complex columns" % (what, o))
        check(d.dx_cheb(D, z[:, -1], o), (W + 1j * W[:, ::-1])[:, -1], 2 * tolerance(n, nd, o, a, b), "%s: derivative %d of complex data" % (what, o))
        tr.ev("cols-%d" % o)
    # linear in the data: integer data and the matrix itself
    k = np.arange(n + 1) ** 2
    check(d.dx_cheb(D, k, 1), d.dx_cheb(D, k.astype(float), 1), 1e-9, "%s: integer data" % what)
    # D annihilates constants and maps x to 1
    check(D.dot(np.ones(n + 1)), np.zeros(n + 1), tolerance(n, nd, 1, a, b), "%s: derivative of 1" % what)
    check(D.dot(x), np.ones(n + 1), tolerance(n, nd, 1, a, b) * max(abs(a), abs(b)), "%s: derivative of x" % what)


def tolerance(n, nd, order, a, b):
    # the grid points carry rounding of the size of the end points relative to the length
    off = max(abs(a), abs(b), b - a) / (b - a)
    return 4 * EPS * n * n * off * max(order, 1) * nd**order


def check(got, want, tol, what):
    got = np.asarray(got)
    if got.shape != want.shape:
        core.fail("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    e = np.max(np.abs(got - want))
    if not e <= tol:
        core.fail("%s: off by %.3g (allowed %.1g)\n got %s\n want %s" % (what, e, tol, common.short(got), common.short(want)))


def defaults(top):
    from rkstiff import grids

    tr = core.tracker()
    for n in range(2, top):
        for f in (grids.construct_x_cheb, grids.construct_x_dx_cheb):
            for got, want in ((f(n), f(n, -1.0, 1.0)), (f(n, -3.0), f(n, -3.0, 1.0)), (f(n, b=4.0), f(n, -1.0, 4.0)), (f(n=n, b=2.0, a=0.0), f(n, 0.0, 2.0))):
                got, want = (got, want) if isinstance(got, tuple) else ((got,), (want,))
                for g, w in zip(got, want):
                    common.close(g, w, 1e-13, "%s(%d) with default end points" % (f.__name__, n))
        tr.ev(str(n))


def histories():
    """Grids and matrices handed out are independent of each other and of later calls."""
    from rkstiff import derivatives as d
    from rkstiff import grids

    tr = core.tracker()
    calls = [(n, ab) for n in (2, 3, 8) for ab in ((-1, 1), (0.0, 3.0))]
    first = {c: [y.copy() for y in grids_of(c[0], *c[1])] for c in calls}
    for seq in itertools.product(calls, repeat=3):
        for c in seq:
            got = grids_of(c[0], *c[1])
            for g, w in zip(got, first[c]):
                common.expect_same(g, w, "grid %r after other calls" % (c,))
            for o in (0, 1, 2, 3, 4):
                u = np.arange(c[0] + 1.0) ** 2
                r = d.dx_cheb(got[2], u, o)
                w = np.linalg.matrix_power(first[c][2], o).dot(u)
                big = np.max(np.linalg.matrix_power(np.abs(first[c][2]), o).dot(np.abs(u)))  # rounding: derivatives cancel
                common.close(r, w, 1e-12, "dx_cheb of order %d after other calls" % o, floor=big)
            for g in got:
                g[...] = 3.5
        tr.ev(repr(seq))


def refused():
    from rkstiff import derivatives as d
    from rkstiff import grids

    tr = core.tracker()
    for f in (grids.construct_x_cheb, grids.construct_x_dx_cheb):
        for ab in ((), (0.0, 1.0)):
            for n in range(-10, 2):
                common.expect_raises(ValueError, lambda: f(n, *ab), "%s(%d)" % (f.__name__, n))
                tr.ev("%s%d%s" % (f.__name__, n, ab))
            for n in (4.0, 4.5, 2.0, "4", None, [4], float("nan"), np.float64(4)):
                common.expect_raises(TypeError, lambda: f(n, *ab), "%s(%r)" % (f.__name__, n))
                tr.ev("%s%r%s" % (f.__name__, n, ab))
    for n in range(2, 7):
        x, D = grids.construct_x_dx_cheb(n)
        for u in (x, np.stack([x, x], axis=1)):
            for o in (1.0, 0.0, 2.5, "1", None, float("nan"), np.float64(2), (1,), 1j):
                common.expect_raises(TypeError, lambda: d.dx_cheb(D, u, o), "dx_cheb, order %r" % (o,))
                tr.ev("%d%d%r" % (n, u.ndim, o))
            for o in range(-6, 0):
                common.expect_raises(ValueError, lambda: d.dx_cheb(D, u, o), "dx_cheb, order %r" % (o,))
                tr.ev("%d%d%r" % (n, u.ndim, o))
        for o in (1, 2, 3):
            for m in range(0, 9):
                if m != n + 1:
                    common.expect_raises(ValueError, lambda: d.dx_cheb(D, np.zeros(m), o), "dx_cheb of %d values with n=%d, order %d" % (m, n, o))
                    for k in range(0, 9):
                        common.expect_raises(ValueError, lambda: d.dx_cheb(D, np.zeros((m, k)), o), "dx_cheb of %d x %d values with n=%d, order %d" % (m, k, n, o))
                    tr.ev("m%d%d%d" % (n, m, o))
                    for v in (np.zeros(n + 1), np.zeros(m)):
                        common.expect_raises(ValueError, lambda: d.dx_cheb(np.zeros((n + 1, m)), v, o), "dx_cheb with a %d x %d matrix" % (n + 1, m))
                        common.expect_raises(ValueError, lambda: d.dx_cheb(np.zeros((m, n + 1)), v, o), "dx_cheb with a %d x %d matrix" % (m, n + 1))
            for u in (np.zeros((n + 1, 2, 2)), np.zeros((n + 1,) * 3), np.array(1.0), np.zeros((n + 1, 1, 1, 1))):
                common.expect_raises(ValueError, lambda: d.dx_cheb(D, u, o), "dx_cheb of data of shape %s" % (u.shape,))
                tr.ev("s%d%s%d" % (n, u.shape, o))


def cases(tier):
    big = tier == "thorough"
    for i, ab in enumerate(INTERVALS):
        for n in list(range(2, 65 if big else 33)) + [40, 64][: 0 if big else 2]:
            yield "poly-%d-%d" % (i, n), lambda n=n, ab=ab: poly(n, ab, range(0, (min(n, 10) if n <= 16 else 4) + 2))
    for i in (0, 2, 5):
        for n in (97, 128) if not big else (97, 128, 200, 257):
            yield "poly-%d-%d" % (i, n), lambda n=n, ab=INTERVALS[i]: poly(n, ab, range(0, 4))
    yield "defaults", lambda: defaults(40)
    yield "histories", histories
    yield "refused", refused
