"""C22: Fourier derivatives on every resolved mode."""
import itertools

import numpy as np

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is one number of points and interval with every resolved mode, phase and order up to the bound; non-trivial: a "
    "derivative was computed (or an argument refused)."
)

INTERVALS = [(0.0, 2 * np.pi), (-1.0, 1.0), (0.0, 0.3), (-40.0, 25.0), (5.0, 105.0)]


def grid(n, a, b, real):
    """Points and wavenumbers of a grid of n points (any n), written from the definition."""
    x = a + (b - a) * np.arange(n) / n
    m = np.arange(n // 2 + 1) if real else np.array([j if 2 * j < n else j - n for j in range(n)])
    return x, 2 * np.pi / (b - a) * m, m


def tolerance(n, kmax, order):
    return 2e-15 * n * max(order, 1) * kmax**order


def basis(n, ab, orders):
    from rkstiff import derivatives as d
    from rkstiff import grids

    tr = core.tracker()
    a, b = ab
    for real in (True, False):
        fn = d.dx_rfft if real else d.dx_fft
        x, kx, ms = grid(n, a, b, real)
        if n % 2 == 0 and n > 2:
            gx, gk = (grids.construct_x_kx_rfft if real else grids.construct_x_kx_fft)(n, a, b)
            common.close(gk, kx, 1e-12, "wavenumbers of the grid")
            x, kx = gx, gk
        w = 2 * np.pi / (b - a)
        kmax = w * (n // 2)
        modes = range(0, (n - 1) // 2 + 1) if real else range(-((n - 1) // 2), (n - 1) // 2 + 1)
        if n % 2 == 0:
            nyquist(fn, n, x, kx, orders, real, "%s of the highest mode of %d points on [%g, %g]" % (fn.__name__, n, a, b))
        total = np.zeros(n, complex)
        acc = {o: np.zeros(n, complex) for o in orders}
        for i, m in enumerate(modes):
            k = w * m
            th = k * (x - a)
            phases = (0.0, np.pi / 2, 0.7) if real else (0.0, 0.7)
            for ph in phases:
                for o in orders:
                    if real:
                        u = np.cos(th + ph)
                        want = k**o * np.cos(th + ph + o * np.pi / 2)
                    else:
                        u = np.exp(1j * (th + ph))
                        want = (1j * k) ** o * u
                    got = fn(kx, u, o)
                    check(got, want, tolerance(n, kmax, o), u, "%s of mode %d of %d points on [%g, %g], order %d" % (fn.__name__, m, n, a, b, o), real)
                    if o == 1:
                        check(fn(kx, u), want, tolerance(n, kmax, o), u, "%s with the default order, mode %d" % (fn.__name__, m), real)
                    tr.ev("%s%d%g%d" % (real, m, ph, o))
            c = 1.0 / (1 + i) * (1 if real else np.exp(1j * i))
            e = np.cos(th + i) if real else np.exp(1j * th)
            total = total + c * e
            for o in orders:
                de = k**o * np.cos(th + i + o * np.pi / 2) if real else (1j * k) ** o * e
                acc[o] = acc[o] + c * de
        if real:
            total = total.real
        forms = {"plain": total, "strided": np.repeat(total, 2)[::2], "readonly": total.copy()}
        forms["readonly"].flags.writeable = False
        for o in orders:
            for f, u in forms.items():
                want = acc[o].real if real else acc[o]
                check(fn(kx, u, o), want, 3 * tolerance(n, kmax, o), u, "%s of a combination of all modes (%s), %d points, order %d" % (fn.__name__, f, n, o), real)
                tr.ev("%s%s%d" % (real, f, o))
        if not real:  # real data is complex data with zero imaginary part
            u = total.real
            for o in orders:
                check(fn(kx, u, o) + 0j, fn(kx, u.astype(complex), o), tolerance(n, kmax, o), u, "dx_fft of real data, order %d" % o, False)
        # compositions of orders
        for o1, o2 in itertools.product(orders, repeat=2):
            if o1 + o2 <= max(orders):
                g = fn(kx, fn(kx, total, o1), o2)
                want = acc[o1 + o2].real if real else acc[o1 + o2]
                check(g, want, 10 * tolerance(n, kmax, o1 + o2), total, "%s of order %d after order %d, %d points" % (fn.__name__, o2, o1, n), real)
                tr.ev("comp%s%d-%d" % (real, o1, o2))


def wide(n, ab):
    """Many points: chosen modes at every amplitude and high orders, offsets, and sums of distant modes."""
    from rkstiff import derivatives as d

    tr = core.tracker()
    a, b = ab
    w = 2 * np.pi / (b - a)
    top = (n - 1) // 2
    pick = sorted({0, 1, 2, 3, 7, 8, 9, 16, 31, 32, 33, n // 8, n // 4, n // 3, n // 3 + 1, top // 2, top - 1, top} & set(range(top + 1)))
    for real in (True, False):
        fn = d.dx_rfft if real else d.dx_fft
        x, kx, _ = grid(n, a, b, real)
        j = np.arange(n)
        for m in pick:
            # phases by exact reduction
            th = 2 * np.pi * ((m * j) % n) / n
            for sgn in ((1,) if real else (1, -1)):
                for o in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12):
                    k = w * m
                    if max(w * (n / 2), 1) ** o > 1e100:
                        continue
                    for amp, off in ((1.0, 0.0), (1e-9, 0.0), (1e9, 0.0), (1e-200, 0.0), (1e-3, 50.0)):
                        if real:
                            u = off + amp * np.cos(th + 0.4)
                            want = amp * k**o * np.cos(th + 0.4 + o * np.pi / 2) + (off if o == 0 else 0.0)
                        else:
                            u = off + amp * np.exp(1j * sgn * th)
                            want = amp * (1j * sgn * k) ** o * np.exp(1j * sgn * th) + (off if o == 0 else 0.0)
                        # rounding noise is amplified like the highest resolved mode
                        tol = 2e-15 * (n + 20) * max(o, 1) * (w * (n // 2)) ** o * (amp + off)
                        check(fn(kx, u, o), want, tol, u, "%s of %g*mode %d of %d points on [%g, %g], order %d" % (fn.__name__, amp, sgn * m, n, a, b, o), real)
                    tr.ev("%s%d%d%d" % (real, m, sgn, o))
                    if m and o:
                        # filtered derivative of a single mode: compare its own coefficient, where there is no amplification
                        got = np.sum(fn(kx, np.cos(th) if real else np.exp(1j * sgn * th), o) * np.exp(-1j * sgn * th)) / n
                        own = (1j * sgn * k) ** o * (0.5 if real else 1.0)
                        if 2 * m != n and not abs(got - own) <= 1e-12 * n * abs(own) + 1e-29 * n * (w * (n // 2)) ** o:
                            core.fail("%s: mode %d of %d points on [%g, %g], order %d: coefficient %r instead of %r" % (fn.__name__, sgn * m, n, a, b, o, got, own))


def nyquist(fn, n, x, kx, orders, real, what):
    """The mode (-1)^j of an even grid: even derivatives are exact (the odd ones vanish on the grid for real data)."""
    u = (-1.0) ** np.arange(n)
    kmax = abs(kx[n // 2])
    for o in orders:
        if o % 2 and not real:
            continue
        for c in (1.0, -0.4) if real else (1.0, 1j, 0.3 - 0.7j):
            want = 0 * u if o % 2 else c * (-1.0) ** (o // 2) * kmax**o * u
            check(fn(kx, c * u, o), want, tolerance(n, kmax, o), u, "%s, order %d" % (what, o), real)
            core.tracker().ev("nyq%s%s%d" % (real, c, o))


def check(got, want, tol, u, what, real):
    got = np.asarray(got)
    if got.shape != want.shape:
        core.fail("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if real and np.iscomplexobj(got):
        core.fail("%s: complex result %s for real data" % (what, got.dtype))
    e = np.max(np.abs(got - want))
    if not e <= tol:
        core.fail("%s: off by %.3g (allowed %.1g)\n got %s\n want %s" % (what, e, tol, common.short(got), common.short(want)))


def data_types(n):
    """Integer and other exact data types give the derivative of their values."""
    from rkstiff import derivatives as d

    tr = core.tracker()
    for real in (True, False):
        fn = d.dx_rfft if real else d.dx_fft
        x, kx, _ = grid(n, 0.0, 1.0, real)
        base = (np.arange(n) * 7) % 5 - 2
        for o in range(0, 4):
            want = fn(kx, base.astype(float), o)
            for t in (np.int64, np.int32, np.int8, np.float64) + (() if real else (complex,)):
                common.close(fn(kx, base.astype(t), o), want, 1e-12, "%s of %s data, order %d" % (fn.__name__, t, o), floor=1.0)
                tr.ev("%s%s%d" % (real, t, o))


def refused(n):
    from rkstiff import derivatives as d

    tr = core.tracker()
    for real in (True, False):
        fn = d.dx_rfft if real else d.dx_fft
        x, kx, _ = grid(n, 0.0, 1.0, real)
        u = np.sin(2 * np.pi * x)
        for o in (1.0, 2.0, 0.0, 0.5, -1.0, float("nan"), "1", None, (1,), np.float64(1), 1j):
            common.expect_raises(TypeError, lambda: fn(kx, u, o), "%s, order %r" % (fn.__name__, o))
            tr.ev("%s%r" % (real, o))
        for o in range(-6, 0):
            common.expect_raises(ValueError, lambda: fn(kx, u, o), "%s, order %r" % (fn.__name__, o))
            tr.ev("%s%r" % (real, o))
        for m in range(0, 2 * n + 2):
            if m != len(kx):
                for o in (1, 2, 3):
                    common.expect_raises(ValueError, lambda: fn(np.arange(float(m)), u, o), "%s with %d wavenumbers for %d points" % (fn.__name__, m, n))
                    tr.ev("%sk%d%d" % (real, m, o))
        for k2 in (kx.reshape(1, -1), kx.reshape(-1, 1), np.array(1.0)):
            common.expect_raises(ValueError, lambda: fn(k2, u, 1), "%s with wavenumbers of shape %s" % (fn.__name__, k2.shape))
    for o in range(0, 4):
        x, kx, _ = grid(n, 0.0, 1.0, True)
        for u in (np.exp(1j * x), x.astype(complex), np.zeros(n, complex), x.astype(np.complex64)):
            common.expect_raises(TypeError, lambda: d.dx_rfft(kx, u, o), "dx_rfft of %s data, order %d" % (u.dtype, o))
            tr.ev("c%s%d" % (u.dtype, o))


def cases(tier):
    big = tier == "thorough"
    for ab in INTERVALS:
        for n in range(3, 97 if big else 41):
            yield "modes-%d-%g-%g" % (n, ab[0], ab[1]), lambda n=n, ab=ab: basis(n, ab, range(0, 9 if n > 12 else 13 if n > 8 else 42))
        for n in (64, 100, 127, 128, 255, 256) + ((511, 512, 1024) if big else ()):
            if big and n < 97:
                continue
            yield "modes-%d-%g-%g" % (n, ab[0], ab[1]), lambda n=n, ab=ab: basis(n, ab, range(0, 4))
        for n in (48, 49, 62, 63, 65, 66, 96, 129, 192, 200, 243, 257, 300, 384, 500, 511, 512, 513, 600, 729, 1000, 1024, 1025, 2048, 4096) + ((8192, 16384, 65536) if big else ()):
            yield "wide-%d-%g-%g" % (n, ab[0], ab[1]), lambda n=n, ab=ab: wide(n, ab)
    for n in range(3, 25):
        yield "types-%d" % n, lambda n=n: data_types(n)
        yield "refused-%d" % n, lambda n=n: refused(n)
