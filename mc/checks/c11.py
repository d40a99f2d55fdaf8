"""C11: one step equals the published scheme for every linear spectrum."""
import itertools

import numpy as np

from .. import common, core, ref

LEVEL = "exploration"
RULE = (
    "A case is a solver form with a set of spectra, step size, state and nonlinear function; every step is compared with "
    "an independent evaluation of the published scheme, and the adaptive suggestion with the published error estimate; "
    "non-trivial: a step was compared."
)
ASSUMPTIONS = ["reference psi functions by Taylor series / direct formula, matrices by their known eigenvectors or augmented exponentials"]

Z_SMALL = [0.0, 1e-12, -1e-7, 1e-5j, -1e-3, 2e-3 + 3e-3j, -0.0099, 0.00999j, -0.00999, 0.0099]
Z_CUT = [-0.010001, 0.0101, 0.0101j, -0.02, 0.03j, -0.05, 0.1]
Z_MOD = [-0.2, 0.3j, -0.5 + 0.4j, -0.5 - 0.4j, -0.999, -1.0, 1.0, -1.5, 2j, -2 - 3j, -3.999, 3.14159j, -6.283185307179586j, -5.0, -10.0]
Z_STIFF = [-30.0, -100.0, -1e3, -1e5, -1e8, -50 + 80j, -1e4 + 1e3j]
Z_OSC = [10j, -30j, 1e3j, -1e5j]
Z_GROW = [0.5, 2.0, 3 + 2j, 8.0]
Z_ALL = Z_SMALL + Z_CUT + Z_MOD + Z_STIFF + Z_OSC + Z_GROW
HS = [1.0, 0.1, 1e-3, 3.0, 1 / 3]

NLS = {
    "sat": lambda u: 0.6 + 0.5 * u / (1 + np.abs(u) ** 2),
    "strong": lambda u: 2.0 * u / (1 + np.abs(u)) - 0.7j * np.conj(u) / (1 + np.abs(u) ** 2),
    "lin": lambda u: (0.4 - 0.3j) * u,
    "coupled": lambda u: 0.3 + 0.8 * np.roll(u, 1) / (1 + np.abs(u) ** 2) - 0.2 * u,
    "autonomousless": lambda u: np.full_like(np.asarray(u, dtype=complex), 0.5 - 0.2j),
}


def tol_diag(z, cutoff=0.01, base=3e-12):
    """Attainable relative accuracy of the direct formula at z (cancellation like 1/|z|^3)."""
    a = np.abs(np.asarray(z))
    t = np.full(a.shape, base)
    big = (a >= cutoff) & (a < 10)
    t[big] += 4e-14 / a[big] ** 3
    return t + 2e-14 * a * (a > 1) * (np.abs(np.real(z)) < 30)


def states(n):
    i = np.arange(n)
    yield (0.7 - 0.3j) * np.exp(0.9j * i)
    yield np.where(i % 2 == 0, 1.3, -0.4).astype(complex)


def compare(u, want, tol, scale, what):
    u = np.asarray(u)
    if u.shape != want.shape:
        core.fail("%s: shape %s instead of %s" % (what, u.shape, want.shape))
    d = np.abs(u - want) / scale
    if not np.all(d <= tol):
        i = int(np.argmax(np.where(np.isfinite(d), d / tol, np.inf)))
        core.fail("%s: mode %d is %s, published scheme gives %s (relative %.3g > %.3g)" % (what, i, u[i], want[i], d[i], np.broadcast_to(tol, d.shape)[i]))


def make_any(variant, L, nl, err, unew, q, econf):
    """A solver which accepts the step and reveals the error norm in its suggestion (adaptive only)."""
    conf = None
    target = None
    if variant[0] in common.AS:
        en, un = np.linalg.norm(err), np.linalg.norm(unew)
        target = 2.2
        if en > 0 and np.isfinite(en) and un > 0:
            eps = (target / 0.8) ** q * en / un
        else:
            eps = 1.0
        if not np.isfinite(eps) or eps <= 0:
            eps = 1.0
        conf = common.config(epsilon=eps, adapt_cutoff=-1.0)
    return common.make(variant, L, nl, config=conf, etd_config=econf)


def one(variant, L, z, nlname, u, h, tol, what, ops=None, scale=None, econf=None, vectol=False, cond=1.0, amp=1.0):
    name = variant[0]
    base = NLS[nlname]
    u = u * amp

    def nl(v):
        return amp * base(v / amp) / h

    want, err = ref.step(name, L, nl, u, h, ops)
    if not np.all(np.isfinite(want)):
        return False
    q = ref.TABLEAUX[name].get("q", 4)
    sol = make_any(variant, L, nl, err, want, q, econf)
    r = sol.step(u, h)
    got = r[0] if name in common.AS else r
    if scale is None:
        # hN is of order 1, divided by |z| in stiff modes
        floor = amp / np.maximum(1, np.abs(z)) if vectol else 0
        scale = np.maximum(np.abs(want), floor) if vectol else max(np.max(np.abs(want)), np.max(np.abs(u)))
    if name in common.AS:
        if r[1] != h:
            core.fail("%s: step of %r was not accepted (took %r) although tolerance matches the published estimate" % (what, h, r[1]))
    compare(got, want, tol, scale, what)
    if name in common.AS:
        en = np.linalg.norm(err)
        # the estimate is a difference: it is known to rounding relative to the stages it is made of
        zz = 1.0 if z is None or L.ndim == 2 else np.maximum(1, np.abs(z))
        noise = np.linalg.norm(tol * np.maximum(np.abs(want), amp / zz)) * 40 / en if en > 0 else np.inf
        if noise < 0.02:
            s = r[2] / h
            lo, hi = 2.2 * (1 - noise - 1e-9), 2.2 * (1 + noise + 1e-9)
            if not lo <= s <= hi:
                core.fail("%s: suggested step factor %.12g instead of 2.2 for the published error estimate" % (what, s))
            core.tracker().count("error estimates compared")
    return True


def good_modes(name, z):
    """A published scheme evaluated in exact arithmetic has to be finite."""
    return [x for x in z if np.real(x) < 50]


def singles(variant, h, nlname):
    """Every spectrum value alone and all of them at once."""
    tr = core.tracker()
    for x in Z_ALL:
        L = np.array([x]) / h
        z = h * L
        for k, u in enumerate(states(1)):
            ok = one(variant, L, z, nlname, u, h, tol_diag(z), "z=%s h=%g state %d nl=%s" % (x, h, k, nlname), vectol=False)
            if ok:
                tr.ev("%s/%d" % (x, k))
    for order in (1, -1):
        L = np.array(Z_ALL[::order]) / h
        z = h * L
        for k, u in enumerate(states(len(L))):
            tol = tol_diag(z)
            if nlname == "coupled":
                continue
            w = "all spectra together (order %d) h=%g state %d nl=%s" % (order, h, k, nlname)
            # per mode, relative to the mode itself
            one(variant, L, z, nlname, u, h, tol * 30, w, vectol=True)
            tr.ev("all%d/%d" % (order, k))


def pairs(variant, h, nlname, zs):
    """All ordered pairs of spectrum values in one diagonal operator."""
    tr = core.tracker()
    u = next(states(2))
    for a, b in itertools.product(zs, repeat=2):
        L = np.array([a, b]) / h
        z = h * L
        tol = tol_diag(z)
        if nlname == "coupled":
            tol = np.full(2, np.max(tol) * 5)
        if one(variant, L, z, nlname, u, h, tol, "z=(%s, %s) h=%g nl=%s" % (a, b, h, nlname)):
            tr.ev("%s/%s" % (a, b))


def triples(variant, h, zs):
    tr = core.tracker()
    u = next(states(3))
    for t in itertools.product(zs, repeat=3):
        L = np.array(t) / h
        z = h * L
        if one(variant, L, z, "sat", u, h, tol_diag(z), "z=%s h=%g" % (t, h)):
            tr.ev(str(t))


def many(variant, h, n):
    """Operators with very many modes of every kind, in several arrangements."""
    tr = core.tracker()
    k = np.arange(n)
    zs = np.array(Z_ALL)
    arr = {
        "cycled": zs[k % len(zs)],
        "blocks": np.sort_complex(zs[k % len(zs)]),
        "stiff": -(k.astype(float) ** 2) - 0.02,
        "wave": 1j * (k - n // 2) ** 3 / 10.0,
        "small": -1e-6 * (k + 1.0) / n,
        "oneout": np.where(k == n - 1, -0.3, 0.004j),
    }
    for aname, z in arr.items():
        L = z / h
        z = h * L
        a = np.abs(z)
        for nlname in ("sat", "strong"):
            for j, u in enumerate(states(n)):
                ok = one(variant, L, z, nlname, u, h, tol_diag(z) * 30, "%d modes (%s) h=%g state %d nl=%s" % (n, aname, h, j, nlname), vectol=True)
                if ok:
                    tr.ev("%d/%s/%s/%d" % (n, aname, nlname, j))


ANGLES = 2 * np.pi * np.arange(48) / 48


def plane(variant, h, lo, hi, per):
    """The complex plane of h*L as a fine polar grid in the moduli 10^lo..10^hi, each point a mode of one operator."""
    tr = core.tracker()
    mod = 10 ** (np.arange(lo * per, hi * per + 1) / per)
    w = np.exp(1j * ANGLES)
    w[[0, 24]], w[[12, 36]] = (1, -1), (1j, -1j)
    z = (mod[:, None] * w).ravel()
    z = z[np.real(z) <= 12]
    L = z / h
    z = h * L
    for nlname in ("sat", "strong", "lin", "autonomousless"):
        for j, u in enumerate(states(len(z))):
            if one(variant, L, z, nlname, u, h, tol_diag(z) * 30, "polar grid 1e%d..1e%d h=%g state %d nl=%s" % (lo, hi, h, j, nlname), vectol=True):
                for i in range(len(z)):
                    tr.ev("%s%d/%d" % (nlname, j, i))


def plane1(variant, h, per, nang):
    """The same for matrices: 1x1, and real 2x2 with a pair of conjugate eigenvalues in an orthogonal and in a skewed basis."""
    tr = core.tracker()
    for m in 10 ** (np.arange(-6.0 * per, 4 * per + 1) / per):
        if variant[1] == "eig" and m < 1e-3:
            continue
        for a in range(nang):
            z = m * {0: 1, nang // 4: 1j, nang // 2: -1, 3 * nang // 4: -1j}.get(a, np.exp(2j * np.pi * a / nang))
            if np.real(z) > 12:
                continue
            for n, S in ((1, np.eye(1)), (2, np.array([[1, 1], [1j, -1j]]) / np.sqrt(2)), (2, np.array([[1, 1], [0.5 + 1j, 0.5 - 1j]]))):
                zz = np.array([z, np.conj(z)][:n], dtype=complex)
                if n == 2 and abs(np.imag(z)) < 0.1 * m:
                    continue
                cond = np.linalg.cond(S)
                L = (S * (zz / h)).dot(np.linalg.inv(S))
                if n == 2:
                    L = np.real(L)
                tol = (2e-11 if m > 0.02 else 4e-13) * cond**2 + 4e-14 * cond**2 * m
                if variant[1] == "eig" and variant[0] != "IF34":
                    tol += 1e-13 * cond**2 / max(m, 0.01) ** 3
                u = next(states(n))
                if one(variant, L, zz, "coupled", u, h, np.full(n, tol), "%dx%d matrix with eigenvalues h*L=%s h=%g" % (n, n, zz, h), ops=EigOps(zz, S)):
                    tr.ev("%g/%d/%d/%g" % (m, a, n, cond))


def manymatrix(variant, h, n):
    """Large matrices with known eigenvectors: orthogonal and not."""
    tr = core.tracker()
    k = np.arange(n)
    Q = np.sqrt(2.0 / n) * np.cos(np.pi * (k[:, None] + 0.5) * k[None, :] / n)
    Q[:, 0] /= np.sqrt(2)
    bases = {"orthogonal": Q, "skew": Q @ (np.eye(n) + 0.3 * np.diag(np.ones(n - 1), 1)), "unitary": np.exp(2j * np.pi * np.outer(k, k) / n) / np.sqrt(n)}
    spectra = {
        "laplace": -(k + 0.3) ** 2 * 20.0 / n,
        "small": -1e-4 * (k + 1.0),
        "mixed": -(10.0 ** (-3 + 6 * k / (n - 1))),
        "wave": 1j * (k + 0.5 - n / 4),
        "growing": 1.5 - 0.7 * k,
    }
    for bname, S in bases.items():
        cond = np.linalg.cond(S)
        for sname, z in spectra.items():
            L = (S * (z / h)).dot(np.linalg.inv(S))
            if np.all(np.imag(S) == 0) and np.all(np.imag(z) == 0):
                L = np.real(L)
            if variant[1] == "eig" and np.linalg.cond(L) > 1e8:
                continue
            top = np.max(np.abs(z))
            tol = (4e-11 + 4e-14 * top) * cond**2
            if variant[1] == "eig" and variant[0] != "IF34":
                b = np.abs(z[np.abs(z) >= 0.01])
                tol += 1e-13 * cond**2 / (np.min(b) if len(b) else 1) ** 3
            for nlname in ("sat", "coupled"):
                u = next(states(n))
                if one(variant, L, z, nlname, u, h, np.full(n, tol), "%dx%d matrix (%s, %s) h=%g nl=%s" % (n, n, bname, sname, h, nlname), ops=EigOps(z, S)):
                    tr.ev("%d/%s/%s/%s" % (n, bname, sname, nlname))


def long(variant, n, nsteps):
    """A solver object which has already taken many steps, with equal and with changing sizes."""
    tr = core.tracker()
    name, rep = variant
    zs = np.array([-0.3, 0.004j, -2.0 + 1j, -0.02, 3j, -40.0, 0.0099, -5.0])[np.arange(n) % 8] * (1 + 0.01 * np.arange(n))
    if rep == "diag":
        L, ops, tol = zs, None, 1e-9
    else:
        i = np.arange(n)
        S = np.eye(n) + 0.3 * np.cos(i[:, None] * 2.0 + i[None, :]) / n
        L, ops, tol = (S * zs).dot(np.linalg.inv(S)), None, 1e-8
    base = NLS["coupled"]
    for plan in ((0.2,), (0.2, 0.1), (0.2, 0.2, 0.05)):
        conf = common.config(epsilon=1e6) if name in common.AS else None
        sol = common.make(variant, L, common.NL(base, budget=10**7), config=conf)
        u = next(states(n))
        for k in range(nsteps):
            h = plan[k % len(plan)]
            r = sol.step(u, h)
            got = r[0] if name in common.AS else r
            if name in common.AS and r[1] != h:
                core.fail("%s: step %d of size %g was not accepted with tolerance 1e6 (took %r)" % (common.vname(variant), k, h, r[1]))
            if k < 4 or k % 7 == 0 or k > nsteps - 3:
                if rep != "diag":
                    ops = EigOps(zs * h, S)
                want, err = ref.step(name, L, base, u, h, ops)
                compare(got, want, tol, np.max(np.abs(want)), "%s: step %d of sizes %s on one solver, %d modes" % (common.vname(variant), k, plan, n))
                tr.ev("%s/%d" % (plan, k))
            u = np.array(got, copy=True)


AMPS = [2.0**e for e in (-300, -150, -60, -30, -15, 15, 30, 60, 150, 300)]


def amplitudes(variant, h):
    """States and nonlinear terms of every magnitude (the schemes commute with a change of units)."""
    tr = core.tracker()
    if variant[1] == "diag":
        zss = {"all": np.array(Z_ALL), "small": np.array([0.0, -1e-7, 1e-5j, 0.0099]), "one": np.array([-0.5 + 0.4j])}
    else:
        zss = {"mod": np.array([-0.5 + 0.4j, -3.0, 0.3j]), "small": np.array([-1e-3, 2e-3j, 5e-3]), "stiff": np.array([-30.0, -1.0, -0.2])}
    for amp in AMPS:
        for zname, z in zss.items():
            n = len(z)
            if variant[1] == "diag":
                L, kw, tol = z / h, dict(vectol=True), tol_diag(z) * 30
            else:
                i = np.arange(n)
                S = np.eye(n) + 0.3 * np.cos(i[:, None] * 2.0 + i[None, :])
                L, kw = (S * (z / h)).dot(np.linalg.inv(S)), dict(ops=EigOps(z, S))
                tol = np.full(n, 1e-10 * np.linalg.cond(S) ** 2)
                if variant[1] == "eig" and variant[0] != "IF34":
                    b = np.abs(z[np.abs(z) >= 0.01])
                    tol = tol + (1e-12 / np.min(b) ** 3 if len(b) else 0)
            for nlname in ("sat", "strong") if variant[1] == "diag" else ("coupled", "strong"):
                for k, u in enumerate(states(n)):
                    w = "amplitude %g, z=%s h=%g state %d nl=%s" % (amp, zname, h, k, nlname)
                    if one(variant, L, z, nlname, u, h, tol, w, amp=amp, **kw):
                        tr.ev("%g/%s/%s/%d" % (amp, zname, nlname, k))


# -- full matrices ---------------------------------------------------------------
class EigOps:
    """Functions of S diag(z) S^-1."""

    diag = False

    def __init__(self, z, S):
        self.d, self.S, self.Si = ref.Ops(z), S, np.linalg.inv(S)

    def _m(self, f):
        return (self.S * f).dot(self.Si)

    def exp(self, c):
        return self._m(self.d.exp(c))

    def psi(self, r, c):
        return self._m(self.d.psi(r, c))

    def dot(self, m, v):
        return m.dot(v)


BASES = {
    2: {
        "id": np.eye(2),
        "rot": np.array([[0.6, -0.8], [0.8, 0.6]]),
        "skew": np.array([[1.0, 0.7], [0.2, -1.0]]),
        "complex": np.array([[1.0, 0.5j], [0.3, 1.0 - 0.2j]]),
    },
    3: {
        "id": np.eye(3),
        "skew": np.array([[1.0, 0.3, -0.2], [0.1, 1.0, 0.6], [-0.4, 0.2, 1.0]]),
    },
}
ZM = [0.0, -1e-7, 0.005, -0.0101, 0.3j, -0.9, 1.0, -2.5 + 1j, -5.0, 4j, -40.0, -1e3, 1e2j, 2.0]
ZMX = ZM + [-1e5, 0.0099j, -0.3, -3.0, -15.0, 3 - 2j]


def matrices(variant, n, basis, h, nlname, zs):
    """All multisets of eigenvalues in a known eigenbasis."""
    tr = core.tracker()
    S = BASES[n][basis]
    cond = np.linalg.cond(S)
    for zz in itertools.combinations_with_replacement(zs, n):
        z = np.array(zz, dtype=complex)
        L = (S * (z / h)).dot(np.linalg.inv(S))
        if np.all(np.imag(S) == 0) and np.all(np.imag(z) == 0):
            L = np.real(L)
        if variant[1] == "eig" and (np.min(np.abs(z)) < 1e-3 or np.linalg.cond(L) > 1e8):
            continue  # refused or ill-conditioned: singular operators can not be diagonalized
        if variant[1] == "eig" and len({complex(x) for x in z}) < n and basis != "id":
            continue  # repeated eigenvalues: the numerical eigenbasis is arbitrary
        big = np.max(np.abs(z))
        tol = (2e-11 if big > 0.02 else 4e-13) * cond**2 + 4e-14 * cond**2 * big
        if variant[1] == "eig" and variant[0] != "IF34":
            zc = np.min(np.abs(z[np.abs(z) >= 0.01])) if np.any(np.abs(z) >= 0.01) else 1
            tol += 1e-13 * cond**2 / zc**3
        tol = np.full(n, tol)
        u = next(states(n))
        if one(variant, L, z, nlname, u, h, tol, "eigenvalues h*L=%s basis=%s h=%g nl=%s" % (zz, basis, h, nlname), ops=EigOps(z, S)):
            tr.ev(str(zz))


def defective(variant, h):
    """Jordan blocks, nilpotent, triangular and rotation matrices."""
    tr = core.tracker()
    J = lambda a, n, c=1.0: a * np.eye(n) + c * np.diag(np.ones(n - 1), 1)
    for n in (2, 3, 4):
        mats = {"jordan%g,%g" % (a, c): J(a, n, c) for a in (0.0, -1e-3, -0.5, -3.0, 1.0, -12.0) for c in (1.0, 1e-4, 5.0)}
        mats["lower"] = np.tril(np.arange(1.0, n * n + 1).reshape(n, n) / n) - 3 * np.eye(n)
        mats["skewsym"] = np.triu(np.ones((n, n)), 1) - np.tril(np.ones((n, n)), -1)
        mats["laplace"] = np.diag(-2.0 * np.ones(n)) + np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1)
        mats["zero"] = np.zeros((n, n))
        mats["complex"] = J(-0.5 + 1j, n, 1j)
        for name, Z in mats.items():
            if variant[1] == "eig" and name not in ("laplace", "skewsym" if n % 2 == 0 else "laplace"):
                continue
            L = Z / h
            u = next(states(n))
            for nlname in ("coupled", "strong"):
                tol = np.full(n, 1e-10)
                if one(variant, L, None, nlname, u, h, tol, "%s n=%d h=%g nl=%s" % (name, n, h, nlname)):
                    tr.ev("%s%d%s" % (name, n, nlname))


def etdconfigs(variant):
    """Other contour settings give the same scheme."""
    tr = core.tracker()
    for cut, pts, rad in itertools.product((1e-3, 0.01, 0.1, 0.5, 1.0), (16, 17, 32, 33, 64), (0.5, 1.0, 2.0)):
        econf = common.etd_config(modecutoff=cut, contour_points=pts, contour_radius=rad)
        zs = [0.0, 1e-5, -5e-4j, -0.003, 0.009, -0.02, 0.05j, -0.2, 0.4, -0.45j, -0.7, -1.0, 2j, -5.0, -100.0]
        h = 0.5
        # accuracy of the mean over the contour: aliasing radius^points / points!, and cancellation where the contour passes near 0
        if variant[1] == "diag" or variant[1] == "eig":
            zs = [x for x in zs if abs(x) >= cut or min(abs(abs(c * x) - rad * 1) for c in (1,)) > 0.2 * rad]
            tol = np.array([3e-12 + (4e-13 / abs(x) ** 3 if abs(x) >= cut else 0) for x in zs])
            tol = tol + 50 * np.exp(-pts * 2.5 * (1 + np.log(pts / 32)))  # rounding dominates from 16 points on
            tol = tol + (3e-9 if pts < 20 and rad > 1 else 0)
        if variant[1] == "diag":
            L = np.array(zs) / h
            u = next(states(len(L)))
            one(variant, L, h * L, "sat", u, h, tol * 10, "contour %s" % ((cut, pts, rad),), econf=econf)
            tr.ev(str((cut, pts, rad)))
        else:
            S = BASES[2]["skew"]
            for a, b in itertools.combinations([-5e-4, 0.009, -0.2, 0.4j, -2.0, -30.0], 2):
                z = np.array([a, b], dtype=complex)
                if variant[1] == "eig" and any(abs(x) < cut and abs(abs(x) - rad) < 0.2 * rad for x in z):
                    continue
                L = (S * (z / h)).dot(np.linalg.inv(S))
                t = 1e-8 if variant[1] == "full" else 1e-8 + max(1e-12 / abs(x) ** 3 if abs(x) >= cut else 0 for x in z)
                u = next(states(2))
                one(variant, L, z, "coupled", u, h, np.full(2, t), "contour %s eigenvalues %s" % ((cut, pts, rad), (a, b)), ops=EigOps(z, S), econf=econf)
                tr.ev(str((cut, pts, rad, a, b)))


def cases(tier):
    big = tier == "thorough"
    for v in common.VARIANTS:
        vn = common.vname(v)
        if v[1] == "diag":
            for h in HS:
                for nl in NLS:
                    yield "single-%s-%g-%s" % (vn, h, nl), lambda v=v, h=h, nl=nl: singles(v, h, nl)
                for nl in ("sat", "coupled"):
                    if big or h in (1.0, 0.1):
                        yield "pairs-%s-%g-%s" % (vn, h, nl), lambda v=v, h=h, nl=nl: pairs(v, h, nl, Z_ALL)
            for n in (3, 8, 31, 64, 65, 128, 257, 512, 1025) + ((4099, 20000) if big else ()):
                for h in (0.1,) if not big else (1.0, 0.1, 1e-3):
                    yield "many-%s-%d-%g" % (vn, n, h), lambda v=v, n=n, h=h: many(v, h, n)
            for h in (1e-60, 1e-18, 1e-13, 1e-11, 1e-9, 1e-5, 30.0, 1e4, 1e9, 1e14, 1e60):
                for nl in NLS if big else ("sat", "strong"):
                    yield "single-%s-%g-%s" % (vn, h, nl), lambda v=v, h=h, nl=nl: singles(v, h, nl)
            for h in (0.1,) if not big else (1.0, 0.1, 1e-6, 1e5):
                for lo, hi in ((-14, -6), (-6, -2), (-2, 0), (0, 3), (3, 9)):
                    yield "plane-%s-%g-%d" % (vn, h, lo), lambda v=v, h=h, lo=lo, hi=hi: plane(v, h, lo, hi, 24 if big else 8)
            zs = Z_ALL[::2] if big else [0.0, -1e-7, 0.0099, 0.0101j, -0.5, 2j, -5.0, -1e3, 2.0]
            yield "triples-%s" % vn, lambda v=v, zs=zs: triples(v, 0.1, zs)
        else:
            for h in (1.0, 0.05) if big else (0.25,):
                for n in BASES:
                    for b in BASES[n]:
                        for nl in ("sat", "coupled", "strong") if big else ("coupled",):
                            zs = ZMX if big else ZM if n == 2 else [0.0, 0.005, -0.3, 1.0, -5.0, 4j, -1e3]
                            if v[1] == "eig" and n == 3 and not big:
                                zs = [0.005, -0.3, 1.0, -5.0, 4j, -1e3]
                            yield "matrix-%s-%d%s-%g-%s" % (vn, n, b, h, nl), lambda v=v, n=n, b=b, h=h, nl=nl, zs=zs: matrices(v, n, b, h, nl, zs)
            for h in (1e9, 1e-9) + ((1e4, 1e-5) if big else ()):
                for b in BASES[2]:
                    zs = [0.0, 1e-5, -0.003, -0.02j, -0.3, 1.0, -5.0, 4j, 0.5 + 1e-3j, -40.0, 3e-5j, -1e-4, 1e-3j, 1.5e-3]
                    if v[1] == "eig":
                        zs = zs[2:]
                    yield "matrix-%s-2%s-%g" % (vn, b, h), lambda v=v, b=b, h=h, zs=zs: matrices(v, 2, b, h, "coupled", zs)
            for h in (0.1,) if not big else (1.0, 0.1, 1e-6, 1e5):
                yield "plane1-%s-%g" % (vn, h), lambda v=v, h=h: plane1(v, h, 6 if big else 2, 48 if big else 16)
            for n in (5, 8, 16, 33, 64, 80) + ((100, 128) if big else ()):
                for h in (0.1,) if not big else (3.0, 0.1, 1e-4):
                    yield "many-%s-%d-%g" % (vn, n, h), lambda v=v, n=n, h=h: manymatrix(v, h, n)
            for h in HS[:3] + [1e-6, 1e3]:
                yield "defective-%s-%g" % (vn, h), lambda v=v, h=h: defective(v, h)
        for h in (1.0, 0.1, 3.0, 1e-6) if big else (0.1,):
            yield "amplitude-%s-%g" % (vn, h), lambda v=v, h=h: amplitudes(v, h)
        for n in (3, 7) if v[1] == "diag" else (3,):
            yield "long-%s-%d" % (vn, n), lambda v=v, n=n: long(v, n, 4000 if big else 400)
        if v[0] in common.ETD:
            yield "contour-%s" % vn, lambda v=v: etdconfigs(v)
