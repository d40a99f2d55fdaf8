"""C15: the accuracy of adaptive solutions follows the tolerance."""
import itertools

import numpy as np

from .. import common, core
from .c12 import rk_exact

LEVEL = "exploration"
RULE = (
    "A case is an adaptive solver form and a problem; every tolerance, initial step and interval is integrated and compared "
    "with a reference solution; non-trivial: an evolve was compared."
)
ASSUMPTIONS = ["the problems do not amplify perturbations; the factor between error and tolerance is bounded with a margin of about 10 over the measured one"]

FACTOR = {"IF34": 2.0, "ETD34": 2.0, "ETD35": 0.05, "IF45DP": 5.0}  # ten times the largest measured
EPS = [1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e-10]
HREL = [None, 1e-6, 1e-3, 0.05, 0.3, 1.0, 10.0]


def rot(n):
    """An orthogonal matrix."""
    v = np.arange(1.0, n + 1)
    return np.eye(n) - 2 * np.outer(v, v) / v.dot(v)


# name -> (eigenvalues, nonlinear function in the eigenbasis, initial state, final time, characteristic rate)
PROBLEMS = {
    "logistic": (np.array([-1.0, -2.0, -4.0]), lambda v: 1.5 * v - v**3 + 0.4, np.array([0.1, 1.0, -0.5]), 3.0, 6.0),
    "coupled": (np.array([-0.5, -3.0, -12.0]), lambda v: 0.4 * np.roll(v, 1) * v - 0.3 * v + 0.5 * np.cos(v), np.array([1.0, -0.6, 0.4]), 3.0, 12.0),
    "schroedinger": (np.array([-1j, -4j, -9j]), lambda v: -2j * np.abs(v) ** 2 * v, np.array([0.8, 0.5 + 0.2j, -0.3]), 2.0, 12.0),
    "oscillator": (np.array([5j, -5j, -0.2]), lambda v: -1j * np.array([v[1], v[0], 0]) - 0.2 * v**3, np.array([1.0, 1.0, 0.5]), 2.0, 6.0),
    "relax": (np.array([-0.3, -20.0, -5 + 10j]), lambda v: np.array([np.sin(3 * v[0]), v[0] * 8, v[0] * v[1] * 3]), np.array([0.3, 2.0, -1.0]), 2.5, 15.0),
    "zero": (np.array([0.0, -1e-3, -1e-5]), lambda v: np.array([-3 * v[0], v[0] - v[1], -v[2] ** 3]), np.array([1.0, 0.3, 2.0]), 2.0, 6.0),
}
_ref = {}


def reference(pname, T):
    if (pname, T) not in _ref:
        d, f, u, _, _ = PROBLEMS[pname]
        _ref[(pname, T)] = rk_exact(lambda v: d * v + f(v), u.astype(complex), T, 400)
    return _ref[(pname, T)]


def pose(variant, pname):
    """(L, N, u0, back) in the form of the solver."""
    d, f, u, _, _ = PROBLEMS[pname]
    if variant[1] == "diag":
        return d, f, u, lambda v: v
    S = rot(3)
    if variant[1] == "eig" and np.min(np.abs(d)) < 1e-8:
        s = 0.5  # a singular operator can not be diagonalized: move a part of N into L
        return (S * (d - s)).dot(S.T), lambda v: S.dot(f(S.T.dot(v))) + s * v, S.dot(u), lambda v: S.T.dot(v)
    return (S * d).dot(S.T), lambda v: S.dot(f(S.T.dot(v))), S.dot(u), lambda v: S.T.dot(v)


def accuracy(variant, pname, big):
    tr = core.tracker()
    L, f, u, back = pose(variant, pname)
    _, _, _, T, rate = PROBLEMS[pname]
    worst = 0.0
    for frac in (1.0, 0.1):
        tf = T * frac
        want = reference(pname, tf)
        scale = max(np.linalg.norm(want), np.linalg.norm(u))
        bywhat = {}
        for eps in EPS if big else EPS[::2] + [1e-5]:
            vals = []
            for hrel in HREL:
                for cut in (0.01, -1.0):
                    count = [0]

                    def nl(v):
                        count[0] += 1
                        if count[0] > 300000:
                            raise core.Budget("evaluations")
                        return f(v)

                    sol = common.make(variant, L, nl, config=common.config(epsilon=eps, adapt_cutoff=cut), etd_config=common.etd_config(modecutoff=0.3))
                    kw = {} if hrel is None else dict(h_init=hrel * tf)
                    r = back(sol.evolve(u, 0.0, tf, **kw))
                    e = np.linalg.norm(r - want) / scale
                    bound = FACTOR[variant[0]] * eps * (1 + rate * tf) + 2e-11
                    ratio = e / (eps * (1 + rate * tf) + 2e-12)
                    worst = max(worst, ratio)
                    if not e <= bound:
                        core.fail("epsilon=%g, h_init=%s*T, T=%g, adapt_cutoff=%g: relative error %.3g, bound %.3g" % (eps, hrel, tf, cut, e, bound))
                    vals.append(e)
                    tr.ev("%g%g%s%g" % (frac, eps, hrel, cut))
            bywhat[eps] = max(vals)
        es = sorted(bywhat)
        if not bywhat[es[0]] <= max(3e-3 * bywhat[es[-1]], 1e-9 * (1 + rate * tf)):
            core.fail("T=%g: error does not decrease with epsilon: %s" % (tf, bywhat))
    if core.PROFILE:
        import sys
        sys.stderr.write("ratio %.3g %s %s\n" % (worst, variant, pname))


def scaled(variant, pname, big):
    """The tolerance is relative: the problem in units in which the solution is tiny or huge is solved as accurately."""
    tr = core.tracker()
    L, f, u, back = pose(variant, pname)
    _, _, _, T, rate = PROBLEMS[pname]
    want = reference(pname, T)
    scale = max(np.linalg.norm(want), np.linalg.norm(u))
    for amp in (1e-100, 1e-20, 1e-9, 1e-5, 1e-2, 1e3, 1e7, 1e50) if big else (1e-20, 1e-5, 1e4):
        for eps in EPS if big else (1e-3, 1e-6):
            for hrel in (None, 1.0):
                sol = common.make(variant, L, common.NL(lambda v: amp * f(v / amp)), config=common.config(epsilon=eps))
                kw = {} if hrel is None else dict(h_init=hrel * T)
                r = back(sol.evolve(amp * u, 0.0, T, **kw)) / amp
                e = np.linalg.norm(r - want) / scale
                bound = FACTOR[variant[0]] * eps * (1 + rate * T) + 2e-11
                if not e <= bound:
                    core.fail("amplitude %g, epsilon=%g, h_init=%s*T: relative error %.3g, bound %.3g" % (amp, eps, hrel, e, bound))
                tr.ev("%g%g%s" % (amp, eps, hrel))


def tight(variant, pname):
    """The tightest tolerances."""
    tr = core.tracker()
    L, f, u, back = pose(variant, pname)
    _, _, _, T, rate = PROBLEMS[pname]
    for frac in (1.0, 0.1):
        tf = T * frac
        want = reference(pname, tf)
        scale = max(np.linalg.norm(want), np.linalg.norm(u))
        for eps in (1e-11, 1e-12):
            sol = common.make(variant, L, common.NL(f), config=common.config(epsilon=eps))
            e = np.linalg.norm(back(sol.evolve(u, 0.0, tf)) - want) / scale
            bound = FACTOR[variant[0]] * eps * (1 + rate * tf) + 3e-12
            if core.PROFILE:
                import sys
                sys.stderr.write("tight %s %s %g %g %.3g %.3g %d\n" % (variant, pname, frac, eps, e, bound, len(sol.t)))
            if not e <= bound:
                core.fail("epsilon=%g, T=%g: relative error %.3g, bound %.3g" % (eps, tf, e, bound))
            tr.ev("%g%g" % (frac, eps))


def large(variant, pname, k):
    """k uncoupled copies of the problem, each in its own units: every copy is solved as accurately."""
    tr = core.tracker()
    d, f, u, T, rate = PROBLEMS[pname]
    n = 3 * k
    want = np.tile(reference(pname, T), k)
    ix = np.arange(n).reshape(k, 3)
    F = lambda v: np.concatenate([f(v[i]) for i in ix]) if k < 20 else np.array([f(v[i]) for i in ix]).ravel()
    D, U = np.tile(d, k), np.tile(u, k)
    back = lambda v: v
    L = D
    if variant[1] != "diag":
        S = rot(n)
        s = 0.5 if variant[1] == "eig" and np.min(np.abs(d)) < 1e-8 else 0.0
        L, G, U, back = (S * (D - s)).dot(S.T), F, S.dot(U), lambda v: S.T.dot(v)
        F = lambda v: S.dot(G(S.T.dot(v))) + s * v
    scale = max(np.linalg.norm(want), np.linalg.norm(U))
    for eps in (1e-2, 1e-4, 1e-7):
        for hrel in (None, 1.0):
            sol = common.make(variant, L, common.NL(F), config=common.config(epsilon=eps), etd_config=common.etd_config(modecutoff=0.3))
            r = back(sol.evolve(U, 0.0, T, **({} if hrel is None else dict(h_init=hrel * T))))
            e = np.linalg.norm(r - want) / scale
            bound = FACTOR[variant[0]] * eps * (1 + rate * T) + 2e-11
            if not e <= bound:
                core.fail("%d copies, epsilon=%g, h_init=%s*T: relative error %.3g, bound %.3g" % (k, eps, hrel, e, bound))
            tr.ev("%d%g%s" % (k, eps, hrel))


def hard_start(variant):
    """Initial transients much faster than the initial step, and restarts: the controller has to find them."""
    tr = core.tracker()
    S = rot(2)
    for lam in (5.0, 40.0, 300.0):
        # v' = -lam (v - cos t) with the fast relaxation in N; t is the second component
        d = np.array([-0.1, -0.1])
        f = lambda v: np.array([-(lam - 0.1) * v[0] + lam * np.cos(v[1]), 0.1 * v[1] + 1.0])
        T = 1.0
        a = lam * lam / (1 + lam * lam)
        ex = lambda t: np.array([a * np.cos(t) + a / lam * np.sin(t) + (3.0 - a) * np.exp(-lam * t), t])
        for eps in (1e-3, 1e-5, 1e-7):
            for h in (None, 1e-5, 0.1, 1.0):
                L, g, u = d, f, np.array([3.0, 0.0])
                back = lambda v: v
                if variant[1] != "diag":
                    L = (S * d).dot(S.T)
                    g = lambda v: S.dot(f(S.T.dot(v)))
                    u, back = S.dot(u), lambda v: S.T.dot(v)
                sol = common.make(variant, L, g, config=common.config(epsilon=eps, adapt_cutoff=-1.0))
                r = back(sol.evolve(u, 0.0, T, **({} if h is None else dict(h_init=h))))
                e = np.max(np.abs(r - ex(T)))
                if not e <= 90 * eps + 1e-10:
                    core.fail("lambda=%g epsilon=%g h_init=%s: error %.3g" % (lam, eps, h, e))
                # the transient was resolved: stored states are on the solution
                t, s = np.array([float(x) for x in sol.t]), np.array([back(x) for x in sol.u])
                m = np.max(np.abs(s[:, 0] - np.array([ex(x)[0] for x in t])))
                if not m <= 30 * 3 * eps * 3 + 1e-10:
                    core.fail("lambda=%g epsilon=%g h_init=%s: error %.3g at a stored state" % (lam, eps, h, m))
                tr.ev("%g%g%s" % (lam, eps, h))


def cases(tier):
    big = tier == "thorough"
    for v in common.VAS:
        for p in PROBLEMS:
            yield "accuracy-%s-%s" % (common.vname(v), p), lambda v=v, p=p: accuracy(v, p, big)
            yield "tight-%s-%s" % (common.vname(v), p), lambda v=v, p=p: tight(v, p)
            yield "scaled-%s-%s" % (common.vname(v), p), lambda v=v, p=p: scaled(v, p, big)
            for k in ((30, 170) if v[1] == "diag" else (6,)) + ((400 if v[1] == "diag" else 15,) if big else ()):
                if big or p in ("coupled", "schroedinger"):
                    yield "large-%s-%s-%d" % (common.vname(v), p, k), lambda v=v, p=p, k=k: large(v, p, k)
        yield "start-%s" % common.vname(v), lambda v=v: hard_start(v)
