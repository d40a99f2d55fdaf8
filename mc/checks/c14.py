"""C14: linear problems, constant forcing and equilibria are integrated exactly."""
import itertools

import numpy as np

from .. import common, core, ref
from . import c11

LEVEL = "exploration"
RULE = (
    "A case is a solver form with a set of spectra (all singles, pairs, or eigenvalue multisets in a basis) and step sizes; "
    "every step and evolve is compared with the exact solution; non-trivial: a step was compared."
)
ASSUMPTIONS = ["the exact solution is evaluated through the known eigenvectors or the series of the affine problem"]

HS = [1e-6, 0.01, 0.3, 1.0, 7.0]


def zero(u):
    return np.zeros_like(np.asarray(u, dtype=complex))


def run(variant, L, f, u, hs, want, tol, what, accept=True):
    """A chain of steps; every step of an adaptive solver has to be accepted at once and to suggest growth."""
    conf = common.config(adapt_cutoff=-1.0) if variant[0] in common.AS else None
    sol = common.make(variant, L, f, config=conf)
    v = u
    t = 0.0
    for k, h in enumerate(hs):
        r = sol.step(v, h)
        if variant[0] in common.AS:
            v, h1, h2 = r
            if h1 != h or not abs(h2 - 4 * h) <= 1e-9 * h:
                core.fail("%s: step %d of size %g: took %r and suggested %r" % (what, k, h, h1, h2))
        else:
            v = r
        t += h
        w = want(t)
        s = max(np.max(np.abs(w)), 1e-250)
        d = np.max(np.abs(np.asarray(v) - w)) / s
        if not d <= tol(t):
            core.fail("%s: state after t=%g is %s, exact %s (relative %.3g > %.3g)" % (what, t, common.short(v), common.short(w), d, tol(t)))


def plans(h):
    yield (h, h, 2 * h)
    yield (2 * h, h)


def linear_diag(variant, h, zs, n):
    tr = core.tracker()
    u = np.array([0.7 - 0.3j, 1.1, -0.4j])[:n]
    for zz in itertools.product(zs, repeat=n):
        L = np.array(zz, dtype=complex) / h
        if np.max(np.real(L)) * 4 * h > 300:
            continue
        for hs in plans(h):
            phase = np.max(np.abs(L)) * sum(hs)
            # relative to the largest mode; decayed modes are known to absolute accuracy
            run(variant, L, zero, u, hs, lambda t: np.exp(t * L) * u, lambda t: 1e-12 + 4e-15 * phase * (np.max(np.abs(np.imag(L))) > 0 or phase < 700), "N=0, h*L=%s, steps %s" % (zz, hs))
        tr.ev(str(zz))


def linear_underflow(variant):
    """Every mode is exact by itself, even next to very different ones."""
    tr = core.tracker()
    if variant[1] != "diag":
        return
    L = np.array([0.0, -1e-8, -0.5, 3.0, -20.0, -400.0, 2j, -0.1 + 50j])
    u = np.exp(1j * np.arange(8.0))
    for h in (1e-3, 0.1, 1.0):
        conf = common.config(adapt_cutoff=-1.0) if variant[0] in common.AS else None
        sol = common.make(variant, L, zero, config=conf)
        v = u
        for k in range(1, 4):
            r = sol.step(v, h)
            v = r[0] if variant[0] in common.AS else r
            w = np.exp(k * h * L) * u
            d = np.abs(v - w) / np.abs(w)
            ok = np.abs(w) > 1e-290
            if not np.all(d[ok] <= 1e-11):
                core.fail("N=0, h=%g: modes %s, exact %s" % (h, common.short(v), common.short(w)))
            tr.ev("%g%d" % (h, k))


def affine_diag(variant, h, zs, n):
    """Constant nonlinear term, ETD solvers."""
    tr = core.tracker()
    u = np.array([0.7 - 0.3j, 1.1, -0.4j])[:n]
    c = np.array([0.5 - 0.2j, -1.0, 0.3])[:n] / h
    for zz in itertools.product(zs, repeat=n):
        z = np.array(zz, dtype=complex)
        if np.max(np.real(z)) * 4 > 60:
            continue
        L = z / h

        def want(t):
            return np.exp(t * L) * u + t * ref.psis_diag(t * L)[0] * c

        for hs in plans(h):
            tol = np.max(c11.tol_diag(z)) * 20
            run(variant, L, lambda v: c.copy(), u, hs, want, lambda t: tol, "N=const, h*L=%s, steps %s" % (zz, hs))
        tr.ev(str(zz))


def equilibrium_diag(variant, h, zs, n):
    tr = core.tracker()
    u = np.array([0.7 - 0.3j, 1.1, -0.4j])[:n]
    g = lambda v: 0.3 * np.roll(v, 1) - 0.2 * v**2
    for zz in itertools.product(zs, repeat=n):
        z = np.array(zz, dtype=complex)
        if np.max(np.real(z)) > 5:
            continue
        L = z / h
        f = lambda v: -L * u + (g(np.asarray(v)) - g(u)) / h
        hs = (h, h)
        growth = np.exp(2 * max(np.max(np.real(z)), 0) + 2.0)
        tol = np.max(c11.tol_diag(z)) * 20 * growth + 1e-14 * np.max(np.abs(z)) ** 1
        run(variant, L, f, u, hs, lambda t: u, lambda t: tol, "equilibrium, h*L=%s" % (zz,))
        tr.ev(str(zz))


ZM = [0.0, 0.005, -0.0101, 0.3j, -0.9, 1.0, -2.5 + 1j, -5.0, -40.0, -1e3]


def matrices(variant, n, basis, h, what):
    tr = core.tracker()
    S = c11.BASES[n][basis]
    Si = np.linalg.inv(S)
    cond = np.linalg.cond(S)
    u = np.array([0.7 - 0.3j, 1.1, -0.4j])[:n]
    c = np.array([0.5 - 0.2j, -1.0, 0.3])[:n] / h
    g = lambda v: 0.3 * np.roll(v, 1) - 0.2 * v**2
    for zz in itertools.combinations_with_replacement(ZM, n):
        z = np.array(zz, dtype=complex)
        L = (S * (z / h)).dot(Si)
        if np.all(np.imag(L) == 0):
            L = np.real(L)
        if variant[1] == "eig" and (np.min(np.abs(z)) < 1e-3 or len(set(zz)) < n):
            continue
        big = np.max(np.abs(z))
        zc = np.min(np.abs(z[np.abs(z) >= 0.01])) if np.any(np.abs(z) >= 0.01) else 1
        tol = (1e-11 + 1e-14 * big + 4e-13 / min(zc, 1) ** 3) * cond**2 * 10
        lam = z / h
        hs = (h, 2 * h) if what != "equilibrium" else (h, h)
        if what == "linear":
            run(variant, L, zero, u, hs, lambda t: (S * np.exp(t * lam)).dot(Si.dot(u)), lambda t: tol, "N=0, eigenvalues of h*L %s basis %s" % (zz, basis))
        elif what == "affine":

            def want(t):
                return (S * np.exp(t * lam)).dot(Si.dot(u)) + t * (S * ref.psis_diag(t * lam)[0]).dot(Si.dot(c))

            run(variant, L, lambda v: c.copy(), u, hs, want, lambda t: tol, "N=const, eigenvalues of h*L %s basis %s" % (zz, basis))
        else:
            Lu = L.dot(u)
            f = lambda v: -Lu + (g(np.asarray(v)) - g(u)) / h
            run(variant, L, f, u, hs, lambda t: u, lambda t: tol * 300, "equilibrium, eigenvalues of h*L %s basis %s" % (zz, basis))
        tr.ev(str(zz))


def defective(variant, h):
    """Matrices without an eigenbasis, all three problems."""
    tr = core.tracker()
    for n in (2, 3, 5):
        for a in (0.0, -0.4, -6.0, 0.7):
            Z = a * np.eye(n) + np.diag(np.ones(n - 1), 1)
            L = Z / h
            u = np.linspace(-1, 1.2, n).astype(complex)
            c = np.linspace(0.3, -0.7, n) / h

            def series(t, v):
                """exp(tL) v for L = a/h + nilpotent."""
                N = np.diag(np.ones(n - 1), 1) * t / h
                out, term = v.astype(complex), v.astype(complex)
                for k in range(1, n):
                    term = N.dot(term) / k
                    out = out + term
                return np.exp(a * t / h) * out

            run(variant, L, zero, u, (h, h, 2 * h), lambda t: series(t, u), lambda t: 1e-10, "N=0, Jordan block %g n=%d" % (a, n))
            tr.ev("lin%d%g" % (n, a))
            if variant[0] in common.ETD:
                # augmented system: constant forcing is a linear problem of one more dimension
                M = np.zeros((n + 1, n + 1), complex)
                M[:n, :n], M[:n, n] = L, c

                def want(t):
                    p = np.append(u, 1.0)
                    steps = 64
                    E = np.eye(n + 1, dtype=complex)
                    B, term = np.eye(n + 1, dtype=complex), np.eye(n + 1, dtype=complex)
                    for k in range(1, 20):
                        term = term.dot(M * t / steps) / k
                        B = B + term
                    for _ in range(steps):
                        p = B.dot(p)
                    return p[:n]

                run(variant, L, lambda v: c.copy(), u, (h, 2 * h), want, lambda t: 1e-9, "N=const, Jordan block %g n=%d" % (a, n))
                tr.ev("aff%d%g" % (n, a))


BLOCKS = {  # slow 2x2 blocks with their eigenvalues and eigenvectors
    "rotation": (np.array([-0.5 + 0.8j, -0.5 - 0.8j]), np.array([[1, 1], [1j, -1j]])),
    "skewed": (np.array([-0.4, -1.9]), np.array([[1.0, 1.0], [0.2, -0.5]])),
    "weak": (np.array([-0.3, -0.301]), np.array([[1.0, 0.5], [0.5, 1.0]])),
}


def stiff_blocks(variant, h):
    """A slow coupled block beside much faster modes: the slow part is exact to the roundoff of the fast one."""
    tr = core.tracker()
    u = np.array([0.7, -0.6, 1.1, 0.4])
    c = np.array([0.5, 1.0, -0.3, 0.2]) / h
    for bname, (mu, V) in BLOCKS.items():
        for stiff in (1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9):
            for fast in ((-stiff, -0.3 * stiff), (1j * stiff, -1j * stiff / 3), (-stiff, -2.0)):
                for order in ((0, 1, 2, 3), (2, 3, 0, 1), (1, 2, 0, 3)):
                    S = np.zeros((4, 4), complex)
                    S[:2, :2], S[2:, 2:] = V, np.eye(2)
                    S = S[np.ix_(order, order)]
                    z = np.concatenate([mu, fast])[list(order)]
                    Si = np.linalg.inv(S)
                    L = (S * (z / h)).dot(Si)
                    if np.max(np.abs(np.imag(L))) <= 1e-12 * np.min(np.abs(z)) / h:
                        L = np.real(L)
                    L[np.abs(L) < 1e-12 / h] = 0
                    lam = z / h
                    what = "%s block beside %s, order %s" % (bname, fast, order)
                    tol = 1e-11 + 4e-15 * stiff
                    hs = (h, h, 2 * h)
                    slow = S.dot(np.diag((np.abs(z) < 10).astype(float))).dot(Si)  # the fast waves only have a phase error
                    run(variant, L, zero, slow.dot(u), hs, lambda t: (S * np.exp(t * lam)).dot(Si.dot(slow.dot(u))), lambda t: tol, "N=0, " + what)
                    if variant[0] in common.ETD:
                        v, d = slow.dot(u), slow.dot(c)
                        ta = tol + 1e-10
                        run(variant, L, lambda x: d.copy(), v, hs, lambda t: (S * np.exp(t * lam)).dot(Si.dot(v)) + t * (S * ref.psis_diag(t * lam)[0]).dot(Si.dot(d)), lambda t: ta, "N=const, " + what)
                    tr.ev("%s%g%s%s" % (bname, stiff, fast, order))


def evolve(variant):
    """Whole integrations of linear problems: exact at every stored time, whatever the steps."""
    tr = core.tracker()
    if variant[1] == "diag":
        L = np.array([-0.3, -5.0, 2j, 0.0])
        lam, S = L, np.eye(4)
    else:
        S = np.eye(4) + 0.3 * np.diag(np.ones(3), 1) - 0.2 * np.diag(np.ones(3), -1)
        lam = np.array([-0.3, -5.0, 2j, -0.05])
        L = (S * lam).dot(np.linalg.inv(S))
    Si = np.linalg.inv(S)
    u = np.array([1.0, -0.5, 0.3j, 0.8])
    ex = lambda t: (S * np.exp(t * lam)).dot(Si.dot(u))
    for t0, tf in ((0.0, 1.0), (-2.0, 3.0), (10.0, 10.01)):
        for h in (0.3, 0.01, 0.5):
            h = h * (tf - t0)
            for eps in (1e-2, 1e-8, 1e-13):
                if variant[0] in common.AS:
                    sol = common.make(variant, L, zero, config=common.config(epsilon=eps))
                    sol.evolve(u, t0, tf, h_init=h)
                    # nothing is rejected: steps grow by 4
                    n = 1 + int(np.ceil(np.log(1 + 3 * (1 - h / (tf - t0)) / (4 * h / (tf - t0))) / np.log(4)))
                    if len(sol.t) - 1 > n + 1:
                        core.fail("N=0: %d steps for [%g,%g] from h=%g, at most %d are needed" % (len(sol.t) - 1, t0, tf, h, n + 1))
                else:
                    if eps != 1e-2:
                        continue
                    sol = common.make(variant, L, zero)
                    sol.evolve(u, t0, tf, h)
                for t, v in zip(sol.t, sol.u):
                    common.close(v, ex(float(t) - t0), 1e-11, "N=0 at t=%r of [%g,%g], h=%g, epsilon=%g" % (t, t0, tf, h, eps))
                tr.ev("%g%g%g" % (t0, h, eps))


def large(variant, n, h):
    """The three problems with many modes, and with large matrices of known eigenvectors."""
    tr = core.tracker()
    k = np.arange(n)
    if variant[1] == "diag":
        zs = np.array([z for z in c11.Z_ALL if abs(z) < 1e6 and np.real(z) < 5])
        spectra = {"cycled": zs[k % len(zs)], "diffusion": -1e-3 * k**2.0, "dispersion": 1j * (k - n / 3.0) ** 2 / n, "oneout": np.where(k == n - 1, 0.7, -0.002)}
        bases = {"id": None}
    else:
        Q = np.sqrt(2.0 / n) * np.cos(np.pi * (k[:, None] + 0.5) * k[None, :] / n)
        Q[:, 0] /= np.sqrt(2)
        bases = {"orthogonal": Q, "skew": Q @ (np.eye(n) + 0.3 * np.diag(np.ones(n - 1), 1))}
        spectra = {"diffusion": -((k + 0.3) ** 2) * 5.0 / n, "wave": 1j * (k + 0.5 - n / 4), "growing": 1.5 - 0.7 * k}
    u = (0.7 - 0.3j) * np.exp(0.9j * k) / (1 + k % 3)
    c = (0.5 - 0.2j) * np.exp(-0.4j * k) / h
    g = lambda v: 0.3 * np.roll(v, 1) - 0.2 * v**2
    for bname, S in bases.items():
        for sname, z in spectra.items():
            z = np.asarray(z, dtype=complex)
            lam = z / h
            if S is None:
                L, cond = lam, 1.0
                ap = lambda f, x: f * x
            else:
                Si = np.linalg.inv(S)
                L, cond = (S * lam).dot(Si), np.linalg.cond(S)
                if np.all(np.imag(z) == 0):
                    L = np.real(L)
                ap = lambda f, x: (S * f).dot(Si.dot(x))
            if variant[1] == "eig" and np.linalg.cond(L) > 1e8:
                continue
            top = np.max(np.abs(z))
            zc = np.min(np.abs(z[np.abs(z) >= 0.01]))
            what = "%d modes (%s, %s) h=%g" % (n, bname, sname, h)
            tl = (1e-11 + 1e-14 * top) * cond**2 * (10 if S is not None else 1)
            hs = (h, 2 * h)
            run(variant, L, zero, u, hs, lambda t: ap(np.exp(t * lam), u), lambda t: tl, "N=0, " + what)
            tr.ev("linear/%s/%s" % (bname, sname))
            if variant[0] not in common.ETD:
                continue
            ta = tl + 4e-13 / min(zc, 1) ** 3 * cond**2 * 20
            run(variant, L, lambda v: c.copy(), u, hs, lambda t: ap(np.exp(t * lam), u) + t * ap(ref.psis_diag(t * lam)[0], c), lambda t: ta, "N=const, " + what)
            tr.ev("affine/%s/%s" % (bname, sname))
            Lu = L * u if S is None else L.dot(u)
            f = lambda v: -Lu + (g(np.asarray(v)) - g(u)) / h
            run(variant, L, f, u, (h, h), lambda t: u, lambda t: (ta + 1e-14 * top * cond**2) * 300 * np.exp(2 * max(np.max(np.real(z)), 0) + 2.0), "equilibrium, " + what)
            tr.ev("equilibrium/%s/%s" % (bname, sname))


def cases(tier):
    big = tier == "thorough"
    Z = c11.Z_ALL
    Z1 = [z for z in Z if abs(z) < 1e6]
    small = Z1[::2] if not big else Z1
    for v in common.VARIANTS:
        vn = common.vname(v)
        yield "evolve-%s" % vn, lambda v=v: evolve(v)
        ns = (16, 64, 129, 512, 1025) + ((8193,) if big else ()) if v[1] == "diag" else (8, 33, 64) + ((128,) if big else ())
        for n in ns:
            for h in (0.05,) if not big else (1e-4, 0.05, 3.0):
                yield "large-%s-%d-%g" % (vn, n, h), lambda v=v, n=n, h=h: large(v, n, h)
        if v[1] == "diag":
            yield "modes-%s" % vn, lambda v=v: linear_underflow(v)
            for h in HS:
                yield "linear1-%s-%g" % (vn, h), lambda v=v, h=h: linear_diag(v, h, Z, 1)
                yield "linear2-%s-%g" % (vn, h), lambda v=v, h=h: linear_diag(v, h, small, 2)
                if v[0] in common.ETD:
                    yield "affine1-%s-%g" % (vn, h), lambda v=v, h=h: affine_diag(v, h, Z1, 1)
                    yield "affine2-%s-%g" % (vn, h), lambda v=v, h=h: affine_diag(v, h, small, 2)
                    yield "equilibrium1-%s-%g" % (vn, h), lambda v=v, h=h: equilibrium_diag(v, h, Z1, 1)
                    yield "equilibrium2-%s-%g" % (vn, h), lambda v=v, h=h: equilibrium_diag(v, h, small, 2)
        else:
            for h in HS if big else (0.01, 1.0):
                yield "stiff-%s-%g" % (vn, h), lambda v=v, h=h: stiff_blocks(v, h)
                for n in c11.BASES:
                    for b in c11.BASES[n]:
                        for what in ("linear", "affine", "equilibrium") if v[0] in common.ETD else ("linear",):
                            if n == 3 and b == "id" and not big:
                                continue
                            yield "%s-%s-%d%s-%g" % (what, vn, n, b, h), lambda v=v, n=n, b=b, h=h, w=what: matrices(v, n, b, h, w)
                if v[1] == "full":
                    yield "defective-%s-%g" % (vn, h), lambda v=v, h=h: defective(v, h)
