"""Instrumented use of the code under test."""

import numpy as np

from . import core, ref


def classes():
    from rkstiff.etd34 import ETD34
    from rkstiff.etd35 import ETD35
    from rkstiff.etd4 import ETD4
    from rkstiff.etd5 import ETD5
    from rkstiff.if34 import IF34
    from rkstiff.if4 import IF4
    from rkstiff.if45dp import IF45DP

    return dict(IF4=IF4, ETD4=ETD4, ETD5=ETD5, IF34=IF34, ETD34=ETD34, ETD35=ETD35, IF45DP=IF45DP)


CS = ("IF4", "ETD4", "ETD5")
AS = ("IF34", "ETD34", "ETD35", "IF45DP")
ETD = ("ETD4", "ETD5", "ETD34", "ETD35")
REPS = {
    "IF4": ("diag", "full"),
    "ETD4": ("diag", "full"),
    "ETD5": ("diag", "full"),
    "IF34": ("diag", "full", "eig"),
    "ETD34": ("diag", "full", "eig"),
    "ETD35": ("diag", "full", "eig"),
    "IF45DP": ("diag",),
}
VARIANTS = [(n, r) for n in CS + AS for r in REPS[n]]
VCS = [v for v in VARIANTS if v[0] in CS]
VAS = [v for v in VARIANTS if v[0] in AS]


def vname(v):
    return "%s-%s" % v


def make(variant, L, nl, cls=None, config=None, etd_config=None, **kw):
    """Build a solver. L is given in the form the representation needs (1D for diag)."""
    name, rep = variant
    cls = cls or classes()[name]
    if name in AS and config is not None:
        kw["config"] = config
    if name in ETD and etd_config is not None:
        kw["etd_config"] = etd_config
    if rep == "eig":
        kw["diagonalize"] = True
    return cls(L, nl, **kw)


def config(**kw):
    from rkstiff.solveras import SolverConfig

    return SolverConfig(**kw)


def etd_config(**kw):
    from rkstiff.etd import ETDConfig

    return ETDConfig(**kw)


class NL:
    """Nonlinear function with a call budget, optional fault injection and call log."""

    def __init__(self, fn, budget=200000, fault_at=(), fault=None):
        self.fn = fn
        self.calls = 0
        self.budget = budget
        self.fault_at = frozenset(fault_at)
        self.fault = fault

    def __call__(self, u):
        k = self.calls
        self.calls += 1
        if self.calls > self.budget:
            raise core.Budget("%d evaluations of the nonlinear function" % self.budget)
        if k in self.fault_at:
            return self.fault(u, self.fn)
        return self.fn(u)


class Injected(Exception):
    """The fault raised by an injected nonlinear function."""


def relerr(a, b, floor=0.0):
    """max|a-b| / max(max|b|, floor); inf if shapes differ or a is not finite."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return np.inf
    if a.size == 0:
        return 0.0
    s = max(np.max(np.abs(b)), floor)
    d = np.max(np.abs(a - b))
    return d if s == 0 else d / s


def close(a, b, tol, what, floor=0.0):
    e = relerr(a, b, floor)
    if not e <= tol:
        core.fail("%s: relative difference %.3g > %.1g\n got %s\n want %s" % (what, e, tol, short(a), short(b)))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def expect_same(a, b, what):
    if not same(a, b):
        core.fail("%s: results differ\n got %s\n want %s" % (what, short(a), short(b)))


def short(a):
    return np.array2string(np.asarray(a), precision=12, threshold=12)


def attempt(fn):
    """('ok', value) or ('exc', type name, exception)."""
    try:
        return ("ok", fn())
    except core.Budget:
        raise
    except core.Fail:
        raise
    except Exception as e:  # noqa: BLE001
        return ("exc", type(e).__name__, e)


def expect_raises(types, fn, what):
    try:
        r = fn()
    except types:
        return
    except core.Budget:
        raise
    except Exception as e:  # noqa: BLE001
        core.fail("%s: raised %s (%s)" % (what, type(e).__name__, e))
    core.fail("%s: expected %s, got %s" % (what, types, short(r) if not isinstance(r, tuple) else r))


# -- a small family of reference problems --------------------------------------
# A has a well-conditioned, non-orthogonal eigenbasis, real negative, positive and complex modes.
A3 = np.array([[-1.0, 0.6, 0.0], [-0.5, -0.3, 0.4], [0.2, 0.1, -6.0]])
D3 = np.array([-1.0, -6.0, 0.25 + 2.0j])
U3 = np.array([0.8, -0.5, 0.3])


def nl3(u):
    """Coupled, non-symmetric quadratic/cubic nonlinearity."""
    return 0.7 * u * np.roll(u, 1) - 0.4 * u**3 + 0.2 * np.roll(u, 2) + 0.1


SIZE = [1]
_tiled = {}


def op3(rep):
    """The operator of the small problem; in a ``sized`` case SIZE slightly different copies of it."""
    w = 1 + 0.003 * np.arange(SIZE[0])
    if rep == "diag":
        return np.multiply.outer(w, D3).ravel() if SIZE[0] > 1 else D3.copy()
    return np.kron(np.diag(w), A3) if SIZE[0] > 1 else A3.copy()


def big(u):
    """The state u, repeated SIZE times (always the same array for the same u)."""
    if SIZE[0] == 1:
        return u
    key = (id(u), SIZE[0])
    if key not in _tiled:
        _tiled[key] = (u, np.tile(u, SIZE[0]))
    return _tiled[key][1]


def sized(k, fn):
    """The case fn with k copies of its problem."""

    def run():
        SIZE[0] = k
        try:
            return fn()
        finally:
            SIZE[0] = 1

    return run
