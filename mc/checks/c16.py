"""C16: solutions do not depend on time origin, time unit or the numbering and number of modes."""
import itertools

import numpy as np

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is a solver form, problem and kind of transformation with every transformation of the kind; the transformed "
    "problem is integrated and compared with the transformed solution; non-trivial: two integrations were compared."
)
ASSUMPTIONS = ["steps are far above the rounding of the shifted times"]

PROBS = {
    "mixed": (np.array([-1.0, -6.0 + 1j, 0.25 + 2.0j]), common.A3),
    "stiff": (np.array([-0.02, -300.0, 0.5]), common.A3 * 4 - 30 * np.outer([1, 2, 0.5], [1, 2, 0.5])),
    "slow": (np.array([0.004, -0.006j, -0.3]), common.A3 * 0.3),
}


def coupled(u):
    return 0.7 * u[[1, 2, 0]] * u - 0.4 * u**3 + 0.2 * u[[2, 0, 1]] + 0.1


U = np.array([0.8, -0.5, 0.3 + 0.1j])


def setup(variant, pname):
    d, A = PROBS[pname]
    return (d if variant[1] == "diag" else A), coupled, U


def integrate(variant, L, f, u, t0, tf, h, conf=None):
    kw = {}
    if variant[0] in common.AS:
        sol = common.make(variant, L, f, config=common.config(**(conf or {})))
        r = sol.evolve(u, t0, tf, **({} if h is None else dict(h_init=h)))
    else:
        sol = common.make(variant, L, f)
        r = sol.evolve(u, t0, tf, h)
    t = np.array([float(x) for x in sol.t])
    s = [np.array(x) for x in sol.u]
    # whether t + (tf - t) rounds to tf decides whether a last step of a few units in the last place is taken
    while len(t) > 2 and t[-1] - t[-2] <= 8 * np.spacing(np.max(np.abs(t))):
        t, s = np.delete(t, -2), s[:-2] + s[-1:]
    return np.array(r), t, s


def compare(got, want, tmap, umap, tol, what, ttol=1e-9):
    """got is the transformed run, want the original one."""
    t = np.array([tmap(x) for x in want[1]])
    span = abs(t[-1] - t[0])
    if len(got[1]) != len(t):
        core.fail("%s: %d steps instead of %d" % (what, len(got[1]) - 1, len(t) - 1))
    if not np.max(np.abs(got[1] - t)) <= ttol * span + 8 * np.spacing(np.max(np.abs(t))):
        core.fail("%s: times %s instead of %s" % (what, common.short(got[1]), common.short(t)))
    for i, (a, b) in enumerate(zip(got[2] + [got[0]], want[2] + [want[0]])):
        common.close(a, umap(b), tol, "%s: state %d" % (what, i))


TF = 0.75
CS_H = (0.05, 0.09375)


def hs(variant):
    return (None, 0.01, 0.4, 2.0) if variant[0] in common.AS else CS_H


def shift(variant, pname):
    tr = core.tracker()
    L, f, u = setup(variant, pname)
    for h in hs(variant):
        want = integrate(variant, L, f, u, 0.0, TF, h)
        for s in (1.0, -1.0, -0.75, -0.3, 0.1, 7.3, 1e3, -1e4, 12345.678, 1e6):
            tol = 1e-8 + abs(s) * 1e-11
            got = integrate(variant, L, f, u, s, s + TF, h)
            compare(got, want, lambda t: t + s, lambda v: v, tol, "shift by %g (h=%s)" % (s, h), ttol=1e-7)
            tr.ev("%s%g" % (h, s))


def unit(variant, pname):
    tr = core.tracker()
    L, f, u = setup(variant, pname)
    for h in hs(variant):
        for t0 in (0.0, -0.25):
            want = integrate(variant, L, f, u, t0, t0 + TF, h, dict(minh=1e-60))
            for k in (-60, -40, -30, -20, -7, -1, 1, 3, 10, 30, 60):
                c = 2.0**k
                # time t' = c t
                got = integrate(variant, L / c, lambda v: f(v) / c, u, t0 * c, (t0 + TF) * c, None if h is None else h * c, dict(minh=1e-60))
                compare(got, want, lambda t: t * c, lambda v: v, 1e-9, "time measured in units of 2^%d (h=%s)" % (-k, h))
                tr.ev("%s%g%d" % (h, t0, k))


def permute(variant, pname):
    tr = core.tracker()
    L, f, u = setup(variant, pname)
    for h in hs(variant):
        want = integrate(variant, L, f, u, 0.0, TF, h)
        for p in itertools.permutations(range(3)):
            p = list(p)
            inv = np.argsort(p)
            Lp = L[p] if L.ndim == 1 else L[np.ix_(p, p)]
            got = integrate(variant, Lp, lambda v: f(v[inv])[p], u[p], 0.0, TF, h)
            compare(got, want, lambda t: t, lambda v: v[p], 1e-9, "modes renumbered %s (h=%s)" % (p, h), ttol=1e-7)
            tr.ev("%s%s" % (h, p))


def copies(variant, pname):
    """Uncoupled copies, conjugates and scaled-down modes appended to the problem."""
    tr = core.tracker()
    L, f, u = setup(variant, pname)

    def block(A, B):
        if A.ndim == 1:
            return np.concatenate([A, B])
        Z = np.zeros((A.shape[0] + B.shape[0],) * 2, dtype=complex)
        Z[: A.shape[0], : A.shape[0]] = A
        Z[A.shape[0] :, A.shape[0] :] = B
        return Z

    for h in hs(variant):
        want = integrate(variant, L, f, u, 0.0, TF, h)
        for kind in ("copy", "conjugate", "copies", "interleaved", "sign"):
            if kind == "copy":
                L2, u2 = block(L, L), np.concatenate([u, u])
                f2 = lambda v: np.concatenate([f(v[:3]), f(v[3:])])
                m = lambda v: np.concatenate([v, v])
            elif kind == "conjugate":
                L2, u2 = block(L, np.conj(L)), np.concatenate([u, np.conj(u)])
                f2 = lambda v: np.concatenate([f(v[:3]), np.conj(f(np.conj(v[3:])))])
                m = lambda v: np.concatenate([v, np.conj(v)])
            elif kind == "copies":
                L2, u2 = block(block(L, L), block(L, L)), np.concatenate([u] * 4)
                f2 = lambda v: np.concatenate([f(v[i : i + 3]) for i in range(0, 12, 3)])
                m = lambda v: np.concatenate([v] * 4)
            elif kind == "sign":
                L2, u2 = block(L, L), np.concatenate([u, -1j * u])
                f2 = lambda v: np.concatenate([f(v[:3]), -1j * f(1j * v[3:])])
                m = lambda v: np.concatenate([v, -1j * v])
            else:
                e = [0, 3, 1, 4, 2, 5]
                inv = np.argsort(e)
                B = block(L, L)
                L2 = B[e] if B.ndim == 1 else B[np.ix_(e, e)]
                u2 = np.concatenate([u, u])[e]
                f2 = lambda v: np.concatenate([f(v[inv][:3]), f(v[inv][3:])])[e]
                m = lambda v: np.concatenate([v, v])[e]
            if variant[1] == "eig" and kind in ("copy", "copies", "interleaved", "sign") and False:
                continue
            got = integrate(variant, L2, f2, u2, 0.0, TF, h)
            compare(got, want, lambda t: t, m, 1e-8, "%s appended (h=%s)" % (kind, h), ttol=1e-6)
            tr.ev("%s%s" % (h, kind))


def crowd(variant, pname):
    """Very many uncoupled copies (renumbered, with phases) take the steps of one."""
    tr = core.tracker()
    L, f, u = setup(variant, pname)
    for k in (20, 90, 400) if variant[1] == "diag" else (5, 12):
        ph = np.exp(1j * np.arange(k))
        idx = np.add.outer(k * np.arange(3), np.arange(k))  # mode i of copy j is number i*k+j
        if variant[1] == "diag":
            Lk = np.repeat(L, k)
        else:
            Lk = np.kron(L, np.eye(k))

        def fk(v):
            x = v.reshape(3, k) / ph
            return (np.array(coupled(x)) * ph).ravel()

        for h in hs(variant):
            for eps in (1e-3, 1e-6) if variant[0] in common.AS else (0,):
                conf = dict(epsilon=eps)
                want = integrate(variant, L, f, u, 0.0, TF, h, conf)
                got = integrate(variant, Lk, fk, np.multiply.outer(u, ph).ravel(), 0.0, TF, h, conf)
                compare(got, want, lambda t: t, lambda v: np.multiply.outer(v, ph).ravel(), 1e-8, "%d copies (h=%s, epsilon=%g)" % (k, h, eps), ttol=1e-6)
                tr.ev("%d%s%g" % (k, h, eps))


def conjugate(variant, pname):
    """The conjugated problem has the conjugated solution; a phase or scale of the state commutes with a homogeneous problem."""
    tr = core.tracker()
    L, f, u = setup(variant, pname)
    for h in hs(variant):
        want = integrate(variant, L, f, u, 0.0, TF, h)
        got = integrate(variant, np.conj(L), lambda v: np.conj(f(np.conj(v))), np.conj(u), 0.0, TF, h)
        compare(got, want, lambda t: t, np.conj, 1e-9, "conjugated (h=%s)" % h, ttol=1e-7)
        for c in (2.0, 2.0**-30, 2.0**40, -1.0, 1j, 0.6 - 0.8j, 1e-6, 1e5):
            got = integrate(variant, L, lambda v: c * f(v / c), c * u, 0.0, TF, h)
            compare(got, want, lambda t: t, lambda v: c * v, 1e-9, "state measured in units of %s (h=%s)" % (1 / c, h), ttol=1e-7)
            tr.ev("%s%s" % (h, c))


def split(variant, pname):
    """Constant-step solvers: an integration in two parts equals one in one part. Adaptive ones: to the tolerance."""
    tr = core.tracker()
    L, f, u = setup(variant, pname)
    if variant[0] in common.CS:
        h = 0.0625
        want = integrate(variant, L, f, u, 0.0, 12 * h, h)
        for k in range(1, 12):
            a = integrate(variant, L, f, u, 0.0, k * h, h)
            b = integrate(variant, L, f, a[0], k * h, 12 * h, h)
            common.close(b[0], want[0], 1e-10, "integrated in parts of %d and %d steps" % (k, 12 - k))
            tr.ev("%d" % k)
    else:
        conf = dict(epsilon=1e-7)
        want = integrate(variant, L, f, u, 0.0, TF, 0.01, conf)
        for k in range(1, 8):
            m = TF * k / 8
            a = integrate(variant, L, f, u, 0.0, m, 0.01, conf)
            b = integrate(variant, L, f, a[0], m, TF, 0.01, conf)
            common.close(b[0], want[0], 2e-5, "integrated in parts [0,%g] and [%g,%g]" % (m, m, TF))
            tr.ev("%d" % k)


def cases(tier):
    for v in common.VARIANTS:
        for p in PROBS:
            vn = common.vname(v)
            for name, fn in (("shift", shift), ("unit", unit), ("permute", permute), ("copies", copies), ("crowd", crowd), ("scale", conjugate), ("split", split)):
                yield "%s-%s-%s" % (name, vn, p), lambda v=v, p=p, fn=fn: fn(v, p)
