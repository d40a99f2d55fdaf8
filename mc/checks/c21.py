"""C21: Fourier grids against exact rational formulas."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is one interval (or one kind of invalid argument) with every even n up to the bound and both grid functions; "
    "non-trivial: a grid was built or refused."
)

PI = math.pi
INTERVALS = [
    (0.0, 2 * PI), (0, 1), (-1, 1), (0.0, 0.1), (-PI, PI), (-30.0, 30.0), (-150.0, 150.0), (1.0, 1.3), (-0.7, 0.2), (0.1, 0.7),
    (-1e-3, 2e-3), (0.0, 1e6), (1e6, 1e6 + 1), (-1e3, -999.9), (0.0, 1e-9), (-7.3, 11.9), (3.0, 10.0), (0.0, 1 / 3), (-2.2, 6.6),
    (5e-324, 1.0), (0.3, 0.9), (-1e150, 1e150), (1e-150, 3e-150), (100.0, 100.7), (-PI / 3, 2.9), (np.float64(0.1), np.float64(1.9)),
]


def fns():
    from rkstiff import grids

    return grids.construct_x_kx_rfft, grids.construct_x_kx_fft


EPS = F(1, 2**52)
TWO_PI = F(2 * math.pi) + F(math.ulp(2 * math.pi))  # upper end of 2 pi's rounding


def interval(a, b, top, step=2):
    tr = core.tracker()
    A, B = F(float(a)), F(float(b))
    big = max(abs(A), abs(B), B - A)
    xtol = 8 * EPS * big + F(1, 2**1070)
    for n in range(4, top + 1, step):
        for fn, real in zip(fns(), (True, False)):
            for form in (0, 1) if n < 20 else (0,):
                x, kx = fn(n, a, b) if form == 0 else fn(n=n, b=b, a=a)
                what = "%s(%d, %r, %r)" % (fn.__name__, n, a, b)
                m = list(range(n // 2 + 1)) if real else list(range(n // 2)) + list(range(-(n // 2), 0))
                if x.shape != (n,) or kx.shape != (len(m),):
                    core.fail("%s: shapes %s and %s, expected %s and %s" % (what, x.shape, kx.shape, (n,), (len(m),)))
                if x[0] != a:
                    core.fail("%s: starts at %r" % (what, x[0]))
                if np.issubdtype(x.dtype, np.floating) and x.dtype.itemsize >= 8:
                    pass
                else:
                    core.fail("%s: dtype %s" % (what, x.dtype))
                for j in (range(n) if n <= 64 else {0, 1, 2, n // 4, n // 3, n // 2, n // 2 + 1, n - 3, n - 2, n - 1}):
                    e = F(float(x[j])) - (A + (B - A) * j / n)
                    if abs(e) > xtol:
                        core.fail("%s: point %d is %r, expected %r" % (what, j, x[j], float(A + (B - A) * j / n)))
                ref = float(a) + (float(b) - float(a)) * (np.arange(n) / n)
                if not np.all(np.abs(x - ref) <= float(xtol) * 2):
                    core.fail("%s: points off the uniform grid by up to %g" % (what, np.max(np.abs(x - ref))))
                w = 2 * math.pi / float(B - A) if B - A < F(10) ** 300 else 2 * math.pi / float(B - A)
                kref = w * np.array(m, float)
                # the width b-a carries a relative error of up to an ulp of the end points
                kt = 1e-14 + float(4 * EPS * big / (B - A))
                if not np.all(np.abs(kx - kref) <= kt * np.abs(kref)):
                    i = int(np.argmax(np.abs(kx - kref) - kt * np.abs(kref)))
                    core.fail("%s: wavenumber %d is %r, expected %r" % (what, i, kx[i], kref[i]))
        tr.ev(str(n), n=2)


def defaults(top):
    tr = core.tracker()
    for n in range(4, top + 1, 2):
        for fn in fns():
            for got, want in ((fn(n), fn(n, 0.0, 2 * PI)), (fn(n, 1.0), fn(n, 1.0, 2 * PI)), (fn(n, b=1.5), fn(n, 0.0, 1.5))):
                common.expect_same(got[0], want[0], "%s(%d) with default end points" % (fn.__name__, n))
                common.expect_same(got[1], want[1], "%s(%d) with default end points" % (fn.__name__, n))
        tr.ev(str(n))


def refused(top):
    tr = core.tracker()
    bad_type = [4.0, 4.5, 8.0, 0.5, float("nan"), float("inf"), "8", None, [8], (8,), 8j, np.float64(8), np.array([8, 10]), {}]
    for fn in fns():
        for ab in ((), (0.0, 1.0), (-1.0, 2.0)):
            for n in range(-20, top):
                if n % 2 or n <= 2:
                    common.expect_raises(ValueError, lambda: fn(n, *ab), "%s(%d)" % (fn.__name__, n))
                    tr.ev("%s%d%s" % (fn.__name__, n, ab))
            for n in bad_type:
                common.expect_raises(TypeError, lambda: fn(n, *ab), "%s(%r)" % (fn.__name__, n))
                tr.ev("%s%r%s" % (fn.__name__, n, ab))


def histories():
    """Calls do not influence each other, even if the caller overwrites what it was given."""
    tr = core.tracker()
    calls = [(f, n, ab) for f in fns() for n in (4, 6, 8) for ab in ((0.0, 1.0), (-1.0, 1.0))]
    first = {}
    for c in calls:
        x, k = c[0](c[1], *c[2])
        first[c] = x.copy(), k.copy()
    for seq in itertools.product(calls, repeat=2):
        for c in seq:
            x, k = c[0](c[1], *c[2])
            common.expect_same(x, first[c][0], "%s(%d) after other calls" % (c[0].__name__, c[1]))
            common.expect_same(k, first[c][1], "%s(%d) after other calls" % (c[0].__name__, c[1]))
            x[:] = -7.0
            k[:] = -7.0
        tr.ev(repr([(c[0].__name__,) + c[1:] for c in seq]))


def cases(tier):
    big = tier == "thorough"
    for i, (a, b) in enumerate(INTERVALS):
        yield "grid-%d-%r-%r" % (i, a, b), lambda a=a, b=b: interval(a, b, 4096 if big else 1024)
        yield "powers-%d-%r-%r" % (i, a, b), lambda a=a, b=b: interval(a, b, 8192 * 16, 8192 * 4 - 2)
    yield "defaults", lambda: defaults(512)
    yield "refused", lambda: refused(520)
    yield "histories", histories
