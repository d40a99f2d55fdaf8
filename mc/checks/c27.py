"""C27: model operators on all pairs (triples) of basis states."""
import itertools

import numpy as np

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is one model and grid with all pairs (triples for Allen-Cahn) of modes and complex coefficients: the nonlinear terms "
    "are quadratic (cubic) forms, which these values determine; non-trivial: an operator was evaluated."
)

COEFS = (1.0, 1j, -0.5 + 0.7j)
INTERVALS = [(0.0, 2 * np.pi), (-30.0, 50.0), (0.0, 0.4)]
MUS = (1.0, 0.03, 2.5e-4, 12.0, -0.7, 0.0)


class Grid:
    """rfft convention written out as sums."""

    def __init__(self, n, a, b):
        self.n = n
        m = np.arange(n // 2 + 1)
        self.k = 2 * np.pi / (b - a) * m
        x = np.arange(n)
        self.F = np.exp(-2j * np.pi * np.outer(m, x) / n)
        self.C = np.cos(2 * np.pi * np.outer(x, m) / n)
        self.S = np.sin(2 * np.pi * np.outer(x, m) / n)
        self.w = np.full(n // 2 + 1, 2.0)
        self.w[0] = self.w[-1] = 1.0

    def values(self, c):
        """Real grid values of the coefficients (the imaginary parts of the mean and of the Nyquist mode carry none)."""
        c = np.asarray(c, complex)
        return (self.C.dot(self.w * c.real) - self.S.dot(self.w * c.imag)) / self.n

    def transform(self, u):
        return self.F.dot(u)


def nonlinear(g, c, factor):
    u = g.values(c)
    ux = g.values(1j * g.k * np.asarray(c, complex))
    return factor * g.transform(u * ux)


def states(n):
    """All single modes and pairs of modes with all coefficients (real ones for the mean and the Nyquist mode,
    as in every transform of real data)."""
    m = n // 2 + 1

    def coefs(i):
        return COEFS if 0 < i < m - 1 else (1.0, -0.4)

    for i in range(m):
        for c in coefs(i):
            e = np.zeros(m, complex)
            e[i] = c
            yield "%d*%s" % (i, c), e
    for i, j in itertools.combinations(range(m), 2):
        for c, d in itertools.product(coefs(i), coefs(j)):
            e = np.zeros(m, complex)
            e[i], e[j] = c, d
            yield "%d*%s+%d*%s" % (i, c, j, d), e


def fourier(model, n, ab, mu):
    from rkstiff import grids, models

    tr = core.tracker()
    g = Grid(n, *ab)
    _, kx = grids.construct_x_kx_rfft(n, *ab)
    common.close(kx, g.k, 1e-12, "wavenumbers")
    if model == "kdv":
        L, nl = models.kdv_ops(kx)
        wantL = 1j * g.k**3
        factor = -6.0
    else:
        L, nl = models.burgers_ops(kx, mu)
        wantL = -mu * g.k**2 + 0j
        factor = -1.0
    what = "%s, %d points on [%g, %g], mu=%g" % (model, n, ab[0], ab[1], mu)
    if L.shape != g.k.shape or np.max(np.abs(L - wantL) - 1e-12 * np.abs(wantL)) > 0:
        core.fail("%s: linear operator %s, expected %s" % (what, common.short(L), common.short(wantL)))
    if L[0] != 0:
        core.fail("%s: the linear operator changes the mean by %r" % (what, L[0]))
    if model == "kdv" and np.any(np.real(L) != 0):
        core.fail("%s: the linear operator is not purely dispersive" % what)
    kmax = g.k[-1]
    tol = 1e-13 * abs(factor) * kmax * n
    for nm, c in states(n):
        want = nonlinear(g, c, factor)
        keep = c.copy()
        got = nl(c)
        cmp(got, want, tol, "%s: nonlinear term of %s" % (what, nm))
        if not np.array_equal(keep, c):
            core.fail("%s: the nonlinear function changed its argument" % what)
        if abs(got[0]) > tol:
            core.fail("%s: the nonlinear term changes the mean of %s by %.3g" % (what, nm, abs(got[0])))
        for s in (0.0, -1.0, 3.0):  # quadratic
            cmp(nl(s * c), s * s * np.asarray(got), tol * 10, "%s: scaling %s by %g" % (what, nm, s))
        tr.ev(nm)
    # resolved products: exact coefficients of a product of two waves
    for i, j in itertools.combinations_with_replacement(range(1, n // 2), 2):
        if i + j >= n / 2:
            continue
        c = np.zeros(n // 2 + 1, complex)
        c[i] += n / 2
        if j != i:
            c[j] += n / 2
        # u = cos(k_i x) (+ cos(k_j x));  u u_x = (u^2/2)_x
        want = np.zeros(n // 2 + 1, complex)
        if i == j:
            want[2 * i] += 1j * g.k[2 * i] * n / 8
        else:
            for p, a in ((2 * i, 0.125), (2 * j, 0.125), (i + j, 0.25), (j - i, 0.25)):
                if p < n / 2:
                    want[p] += 1j * g.k[p] * n * a
        if i != j and 2 * j >= n / 2:
            continue
        cmp(nl(c), factor * want, tol * n * n, "%s: waves %d and %d" % (what, i, j))
        tr.ev("wave%d-%d" % (i, j))
    history(L, nl, n, what)


def cmp(got, want, tol, what):
    got = np.asarray(got)
    if got.shape != want.shape:
        core.fail("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    e = np.max(np.abs(got - want))
    if not e <= tol:
        core.fail("%s: off by %.3g (allowed %.1g)\n got %s\n want %s" % (what, e, tol, common.short(got), common.short(want)))


def history(L, nl, n, what):
    """Results do not depend on earlier calls nor share memory with later ones."""
    sts = [np.fft.rfft(np.cos(np.arange(n) * (s + 1.0)) + np.arange(n) % (s + 2)) for s in range(3)]
    first = [np.array(nl(s)) for s in sts]
    for seq in itertools.product(range(3), repeat=3):
        held = []
        for k in seq:
            r = nl(sts[k])
            common.expect_same(r, first[k], what + ": repeated evaluation")
            held.append((r, k))
        for r, k in held:
            common.expect_same(r, first[k], what + ": earlier result after later evaluations")
        buf = sts[seq[0]].copy()  # one array object holding different states in turn
        for k in seq:
            buf[...] = sts[k]
            common.expect_same(nl(buf), first[k], what + ": evaluation of an array object that held another state before")
        if seq[0] == 0:
            held[0][0][...] = 0.0
            common.expect_same(nl(sts[0]), first[0], what + ": evaluation after the caller overwrote a result")


def wide(model, n, ab, mu):
    """Many modes and every amplitude: states dense, sparse and steep against sums (or the transform of the product)."""
    from rkstiff import grids, models

    tr = core.tracker()
    x, kx = grids.construct_x_kx_rfft(n, *ab)
    k = 2 * np.pi / (ab[1] - ab[0]) * np.arange(n // 2 + 1)
    if model == "kdv":
        L, nl = models.kdv_ops(kx)
        wantL, factor = 1j * k**3, -6.0
    else:
        L, nl = models.burgers_ops(kx, mu)
        wantL, factor = -mu * k**2 + 0j, -1.0
    what = "%s, %d points on [%g, %g], mu=%g" % (model, n, ab[0], ab[1], mu)
    e = np.abs(L - wantL)
    if L.shape != k.shape or not np.all(e <= 1e-11 * np.abs(wantL)):
        core.fail("%s: linear operator %s, expected %s" % (what, common.short(L), common.short(wantL)))
    j = np.arange(n)
    th = 2 * np.pi * j / n
    shapes = {
        "smooth": np.exp(np.cos(th)), "wave": np.cos(3 * th + 0.4), "two": np.cos(th) + 0.3 * np.sin((n // 2 - 1) * th), "nyquist": 1.0 + 0.5 * (-1.0) ** j,
        "noise": np.cos(j * j * 1.7), "spike": 1.0 * (j == n // 3), "step": np.where(j < n // 2, 1.0, -0.5), "constant": 0 * th + 1.0, "offset": 1e3 + np.cos(th),
        "negative": -np.exp(np.sin(th)), "decay": np.exp(-0.5 * (th - np.pi) ** 2 * 16), "top": np.cos((n // 2 - 1) * th), "third": np.cos((n // 3) * th + 1.0),
    }
    kmax = k[-1]
    for nm, u0 in shapes.items():
        for amp in (1.0, 1e-3, 1e-8, 1e-30, 1e-100, 1e3, 1e8, 1e60, -1.0):
            u = amp * u0
            c = np.fft.rfft(u)
            ux = np.fft.irfft(1j * k * c, n)
            want = factor * np.fft.rfft(u * ux)
            top = np.max(np.abs(u))
            tol = 1e-13 * abs(factor) * kmax * top * top * n
            got = np.asarray(nl(c))
            cmp(got, want, tol, "%s: nonlinear term of %g*%s" % (what, amp, nm))
            if not abs(got[0]) <= tol:
                core.fail("%s: the nonlinear term changes the mean of %g*%s by %.3g" % (what, amp, nm, abs(got[0])))
            tr.ev("%s%g" % (nm, amp))
    z = np.asarray(nl(np.zeros(n // 2 + 1, complex)))
    if np.any(z != 0):
        core.fail("%s: nonlinear term of the zero state is %s" % (what, common.short(z)))


def wide_allen(n, ab, eps):
    from rkstiff import grids, models

    tr = core.tracker()
    x, D = grids.construct_x_dx_cheb(n, *ab)
    L, nl = models.allen_cahn_ops(x, D, eps)
    what = "Allen-Cahn n=%d on [%g, %g], epsilon=%g" % (n, ab[0], ab[1], eps)
    D2 = D.dot(D)
    cmp(L, eps * D2[1:-1, 1:-1] + np.eye(n - 1), 1e-13 * (1 + abs(eps) * np.max(np.abs(D2))) * n, what + ": linear operator")
    xi = x[1:-1]
    for nm, u0 in (("sine", np.sin(np.pi * (xi - ab[0]) / (ab[1] - ab[0]))), ("noise", np.cos(np.arange(n - 1.0) ** 2)), ("ones", np.ones(n - 1)), ("spike", 1.0 * (np.arange(n - 1) == n // 2)), ("back", -xi), ("ramp", xi + 1)):
        for amp in (1.0, 1e-3, 1e-8, 1e3, 1e8, -1.0, 1e-30, 0.0):
            u = amp * u0
            want = xi - (u + xi) ** 3
            s = max(1.0, np.max(np.abs(x)), np.max(np.abs(u)))
            for v in (u, u + 0j):
                cmp(np.asarray(nl(v)), want.astype(complex), 1e-13 * s**3, "%s: nonlinear term of %g*%s" % (what, amp, nm))
            tr.ev("%s%g" % (nm, amp))


def independent():
    """Operators created one after the other keep their own grid and parameters."""
    from rkstiff import models

    tr = core.tracker()
    specs = [("kdv", 8, 1.0, 0), ("kdv", 8, 0.3, 0), ("kdv", 12, 1.0, 0), ("burgers", 8, 1.0, 0.1), ("burgers", 8, 1.0, 2.0), ("burgers", 12, 0.5, 0.1)]

    def make(s):
        k = s[2] * np.arange(s[1] // 2 + 1)
        return models.kdv_ops(k) if s[0] == "kdv" else models.burgers_ops(k, s[3])

    def want(s):
        g = Grid(s[1], 0, 2 * np.pi / s[2])
        c = np.fft.rfft(np.cos(np.arange(s[1]) * 1.7) + np.arange(s[1]) % 3)
        return c, (1j * g.k**3 if s[0] == "kdv" else -s[3] * g.k**2), nonlinear(g, c, -6.0 if s[0] == "kdv" else -1.0)

    for seq in itertools.product(specs, repeat=3):
        made = [make(s) for s in seq]
        for order in ((0, 1, 2), (2, 1, 0), (1, 0, 2)):
            for i in order:
                c, L, N = want(seq[i])
                common.close(made[i][0], L, 1e-12, "operator %d of %r" % (i, seq))
                cmp(made[i][1](c), N, 1e-10, "nonlinear function %d of %r" % (i, seq))
        tr.ev(repr(seq))


def allen(n, ab, eps, default):
    from rkstiff import grids, models

    tr = core.tracker()
    x, D = grids.construct_x_dx_cheb(n, *ab)
    L, nl = models.allen_cahn_ops(x, D) if default else models.allen_cahn_ops(x, D, eps)
    what = "Allen-Cahn n=%d on [%g, %g], epsilon=%g" % (n, ab[0], ab[1], eps)
    D2 = D.dot(D)
    wantL = eps * D2[1:-1, 1:-1] + np.eye(n - 1)
    if L.shape != (n - 1, n - 1):
        core.fail("%s: operator of shape %s" % (what, L.shape))
    cmp(L, wantL, 1e-13 * (1 + abs(eps) * np.max(np.abs(D2))) * n, what + ": linear operator")
    xi = x[1:-1]
    scale = max(1.0, np.max(np.abs(x)))

    def F(u):
        return xi - (u + xi) ** 3

    sts = [("0", np.zeros(n - 1))]
    for r in (1, 2, 3):
        for idx in itertools.combinations_with_replacement(range(n - 1), r):
            u = np.zeros(n - 1)
            for p, i in enumerate(idx):
                u[i] += (1.0, -0.6, 1.7)[p]
            sts.append((str(idx), u))
    for nm, u in sts:
        for v in (u, u.astype(complex), 1j * u, (0.3 - 0.8j) * u):
            keep = v.copy()
            got = np.asarray(nl(v))
            cmp(got, F(v).astype(complex), 1e-12 * scale**3, "%s: nonlinear term of %s" % (what, nm))
            if not np.array_equal(keep, v):
                core.fail("%s: the nonlinear function changed its argument" % what)
            # together: eps w_xx + w - w^3 for w = u + x, which vanishes with u at the ends
            w = x.astype(complex)
            w[1:-1] += v
            total = (eps * D2.dot(w) + w - w**3)[1:-1]
            cmp(L.dot(v) + got, total, 1e-12 * (scale**3 + (1 + abs(eps) * np.max(np.abs(D2))) * n * scale), "%s: right-hand side for %s" % (what, nm))
        tr.ev(nm)
    # u = +-1 - x (interior) are the equilibria of the reaction; N is cubic in u + x
    for s in (-1.0, 1.0, 0.0):
        cmp(np.asarray(nl(s - xi)), (xi - s**3).astype(complex), 1e-12 * scale**3, "%s: constant state %g" % (what, s))
    buf = np.zeros(n - 1)
    for nm, u in sts:
        buf[...] = u
        cmp(np.asarray(nl(buf)), F(u).astype(complex), 1e-12 * scale**3, "%s: nonlinear term of %s in an array object that held another state before" % (what, nm))
    col = np.asarray(nl(np.linspace(0, 1, n - 1)))
    if col.shape != (n - 1,):
        core.fail("%s: result of shape %s" % (what, col.shape))
    before = np.array(nl(sts[-1][1]))
    r = nl(sts[-1][1])
    r[...] = 0
    common.expect_same(nl(sts[-1][1]), before, what + ": evaluation after the caller overwrote a result")


def cases(tier):
    big = tier == "thorough"
    for ab in INTERVALS:
        for n in range(4, 41 if big else 21, 2):
            yield "kdv-%d-%g" % (n, ab[1]), lambda n=n, ab=ab: fourier("kdv", n, ab, 0.0)
            for mu in MUS:
                yield "burgers-%d-%g-%g" % (n, ab[1], mu), lambda n=n, ab=ab, mu=mu: fourier("burgers", n, ab, mu)
    yield "independent", independent
    for ab in INTERVALS + [(0.0, 1e-4), (-1e4, 1e5)]:
        for n in (4, 6, 8, 16, 30, 32, 62, 64, 66, 100, 126, 128, 256, 258, 500, 512, 1000, 1024) + ((2048, 4096, 65536) if big else ()):
            for mu in (None, 0.0, 1e-10, 0.5, -0.5, 1e6):
                if mu in (0.0, 1e-10, -0.5, 1e6) and n % 64 and n > 8:
                    continue
                m = "kdv" if mu is None else "burgers"
                yield "wide-%s-%d-%g-%s" % (m, n, ab[1], mu), lambda m=m, n=n, ab=ab, mu=mu: wide(m, n, ab, mu or 0.0)
    for ab in ((-1, 1), (0.0, 2.0), (-5.0, 0.5), (-0.01, 0.03)):
        for n in (2, 3, 5, 12, 15, 16, 20, 31, 32, 33, 64, 65, 100):
            for eps in (0.0, 1e-8, 1e-3, 0.01, 2.0, 1e4, -0.3):
                yield "wide-allen-%d-%g-%g" % (n, ab[1], eps), lambda n=n, ab=ab, e=eps: wide_allen(n, ab, e)
    for ab in ((-1, 1), (-1.0, 1.0), (0.0, 2.0), (-3.0, 1.0)):
        for n in range(2, 15 if big else 11):
            for eps, default in ((0.01, True), (0.01, False), (1.0, False), (0.3, False), (-0.2, False), (0.0, False)):
                yield "allen-%d-%r-%r-%g-%s" % (n, ab[0], ab[1], eps, default), lambda n=n, ab=ab, e=eps, d=default: allen(n, ab, e, d)
