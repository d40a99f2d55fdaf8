"""Explicit-state model of the adaptive controller and its replay on the implementation.

The environment of the controller is the sequence of *answers* (candidate state, error
estimate) that the stages produce.  An answer is taken from a finite alphabet; the model
below is executed on every answer sequence up to a bound, and every such path is replayed on
the implementation through the documented subclass interface (``_update_stages``, ``_reset``,
``_q``), comparing everything observable.
"""

import itertools
import math

import numpy as np

from . import core, ref

CFGS = {
    "default": {},
    "tight": dict(epsilon=1e-9, incr_f=1.05, decr_f=0.95, safety_f=0.95, adapt_cutoff=0.2),
    "loose": dict(epsilon=0.3, incr_f=3.0, decr_f=0.3, safety_f=0.5, adapt_cutoff=0.001),
    "grow": dict(epsilon=1e-3, incr_f=1.5, decr_f=0.7, safety_f=1.0, adapt_cutoff=-1.0),
    "never": dict(epsilon=2.0, incr_f=8.0, decr_f=0.25, safety_f=0.9, adapt_cutoff=0.5),
}

# one setting at a time at the far ends of its admissible range
XCFGS = {}
for _k, _vals in dict(
    epsilon=(1e-5, 1e-8, 1e-10, 1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16, 1e-18, 1e-25, 1e-60, 0.1, 1.0, 10.0, 1e4),
    safety_f=(0.01, 0.1, 0.3, 0.99, 0.999),
    adapt_cutoff=(0.9, 0.99, 0.1, 1e-3, 1e-6, 1e-9, 1e-15, 1e-25, 0.0, -0.5, -1e6),
    incr_f=(1.0001, 1.01, 1.1, 2.0, 3.999, 4.0, 4.5, 100.0, 1e9),
    decr_f=(0.9999, 0.99, 0.5, 0.26, 0.251),
    minh=(1e-300, 1e-30, 1e-3),
).items():
    for _v in _vals:
        XCFGS["%s=%g" % (_k, _v)] = {_k: _v}


def full_cfg(kw):
    return dict(ref.DEFAULTS, **kw)


# -- answers -----------------------------------------------------------------------
# name -> target step factor for the (unmasked) modes, or a special kind
FACTORS = {"s.05": 0.05, "s.28": 0.28, "s.6": 0.6, "s.9": 0.9, "s.99": 0.99, "s1.01": 1.01, "s1.3": 1.3, "s2": 2.0,
           "s3.9": 3.9, "s9": 9.0}
SPECIAL = ("exact", "errnan", "errinf", "unan", "uinf")


def answer(kind, k, cfg, q, mode="one"):
    """(candidate, error) number k of a path realizing the kind under cfg.

    Mode 0 is the largest; mode 1 lies 20 % above the mask cutoff; mode 2 lies below the
    cutoff (if there is room) and carries a huge error that must not count.
    """
    cut = cfg["adapt_cutoff"]
    u = np.array([-(2.0 + k), 1.2 * max(cut, 0.01) * (2.0 + k), 0.0], dtype=complex)
    if cut > 0:
        u[2] = 0.8 * cut * (2.0 + k) * 1j
    if kind == "unan":
        u[0] = np.nan
    elif kind == "uinf":
        u[1] = np.inf
    big = np.array([2.0 + k, 1.2 * max(cut, 0.01) * (2.0 + k)])
    un = math.sqrt(float(np.sum(big**2)))
    s = FACTORS.get(kind, 2.0)
    en = cfg["epsilon"] * un * (cfg["safety_f"] / s) ** q
    err = np.zeros(3, complex)
    if mode == "one":
        err[1] = -en
    else:
        err[0] = 1j * en * 0.6
        err[1] = en * 0.8
    if cut > 0 and mode != "one":
        err[2] = 1e6
    if kind == "exact":
        err[:2] = 0
    elif kind == "errnan":
        err[0] = np.nan
    elif kind == "errinf":
        err[1] = -np.inf
    return u, err


def decision(kind, u, err, q, cfg):
    """(accepted?, factor) of the model."""
    s = ref.factor(u, err, q, cfg)
    return (not math.isnan(s)) and s >= 1.0, s


class OutOfScript(Exception):
    pass


_cache = {}


def scripted_class():
    """Subclass of the library's adaptive base class whose stages play a script."""
    if "AS" in _cache:
        return _cache["AS"]
    from rkstiff.solveras import BaseSolverAS

    core.need_interface(BaseSolverAS, "_reset", "_q", "_update_stages")

    class Scripted(BaseSolverAS):
        script = None  # callable (attempt number, u, h) -> (unew, err)
        q = 4

        def _reset(self):
            self.resets = getattr(self, "resets", 0) + 1

        def _q(self):
            return self.q

        def _update_stages(self, u, h):
            n = len(self.attempts)
            if n > 100000:
                raise core.Budget("attempts")
            self.attempts.append((u, float(h)))
            return self.script(n, u, h)

    _cache["AS"] = Scripted
    return Scripted


def scripted(script, q, config, **kw):
    s = scripted_class()(np.array([-1.0, -2.0, -3.0]), lambda u: 0 * u, config=config, **kw)
    s.q, s.attempts = q, []
    if PRE[0]:
        HISTORIES[PRE[0]](s)
    s.script, s.attempts = script, []
    return s


# -- histories: what the solver did before the script starts ---------------------------
PRE = [None]
U1 = np.array([1.0, 2.0, 3.0])


def _exact(n, u, h):
    return U1 * (n + 1), np.zeros(3)


def _bad(n, u, h):
    return U1 * np.nan, np.zeros(3)


def _runs(script, *intervals):
    def pre(s):
        for t0, tf, h in intervals:
            s.script, s.attempts = script, []
            try:
                s.evolve(U1, t0, tf, h_init=h)
            except s.SolverError:
                pass

    return pre


def _steps(s):
    s.script, s.attempts = _exact, []
    for h in (1e-7, 3.0, 0.25):
        s.step(U1, h)


def _failed_steps(s):
    s.script, s.attempts = _bad, []
    for h in (0.25, 2.0):
        try:
            s.step(U1, h)
        except s.SolverError:
            pass


HISTORIES = {
    "short": _runs(_exact, (0.0, 2.0**-10, 2.0**-10)),
    "late": _runs(_exact, (2.0**30, 2.0**30 + 1, 0.25)),
    "negative": _runs(_exact, (-5.0, -4.0, 0.03), (0.0, 1e6, 2.5e5)),
    "failed": _runs(_bad, (0.0, 1.0, 0.1)),
    "empty": _runs(_exact, (1.0, 1.0, 0.1), (1.0, 0.0, 0.1)),
    "steps": _steps,
    "failedsteps": _failed_steps,
}


def used(name, fn):
    """The case fn on solvers which have done something before."""

    def run():
        PRE[0] = name
        try:
            return fn()
        finally:
            PRE[0] = None

    return run


# -- model of step -------------------------------------------------------------------
def model_step(h, answers, q, cfg):
    """Run the model of one step. ``answers``: iterator of (u, err).

    Returns dict(attempts=[h...], end='accept'|'loops'|'minh', state, h, suggest, factors)
    """
    att, fac = [], []
    n = 0
    while True:
        att.append(h)
        u, err = next(answers)
        ok, s = decision(None, u, err, q, cfg)
        fac.append(s)
        if ok and h != 0:
            return dict(attempts=att, end="accept", state=u, h=h, suggest=h * ref.accept_factor(s, cfg), factors=fac)
        h = h * ref.reject_factor(s if math.isfinite(s) else math.nan, cfg)
        n += 1
        if n > ref.MAX_LOOPS:
            return dict(attempts=att, end="loops", factors=fac)
        if h < cfg["minh"]:
            return dict(attempts=att, end="minh", factors=fac)


def model_evolve(t0, tf, h_init, answers, q, cfg, u0):
    """Model of evolve: times, states and every attempted step.

    'vague': some decision depended on the rounding of the time axis.
    """
    ts, us, att, vague = [t0], [u0], [], False
    slack = 64 * np.spacing(max(abs(t0), abs(tf), tf - t0))
    h = (tf - t0) / 100.0 if h_init is None else h_init
    t = t0

    def clip(h):
        nonlocal vague
        if t < tf and 0 < abs(t + h - tf) <= slack:
            vague = True
        return tf - t if t + h > tf else h

    h = clip(h)
    while t < tf:
        r = model_step(h, answers, q, cfg)
        att.extend(r["attempts"])
        if min(r["attempts"]) <= slack:
            vague = True
        if r["end"] != "accept":
            return dict(t=ts, u=us, attempts=att, end=r["end"], vague=vague)
        if t + r["h"] == t and r["suggest"] <= r["h"]:
            return dict(t=ts, u=us, attempts=att, end="minh", vague=vague)
        t = t + r["h"]
        if 0 < abs(t - tf) <= slack:
            vague = True
        ts.append(t)
        us.append(r["state"])
        h = clip(r["suggest"])
    return dict(t=ts, u=us, attempts=att, end="done", vague=vague)


def feq(a, b, tol=1e-12, floor=0.0):
    if a == b:
        return True
    return abs(a - b) <= tol * max(abs(a), abs(b), floor)


def paths(alphabet, depth):
    for n in range(1, depth + 1):
        yield from itertools.product(alphabet, repeat=n)


# -- real solvers -----------------------------------------------------------------------
def recorder(cls):
    """Subclass of a real adaptive solver recording every attempt (h, candidate, error)."""
    key = cls.__name__
    if key in _cache:
        return _cache[key]
    core.need_interface(cls, "_update_stages")

    class Rec(cls):
        def _update_stages(self, u, h):
            r = super()._update_stages(u, h)
            if not hasattr(self, "attempts"):
                self.attempts = []
            if len(self.attempts) > 100000:
                raise core.Budget("attempts")
            self.attempts.append((np.array(u, copy=True), float(h), np.array(r[0], copy=True), np.array(r[1], copy=True)))
            return r

    Rec.__name__ = "Rec" + key
    _cache[key] = Rec
    return Rec


def ref_step(name, L, nl, u, h, cfg):
    """Reference adaptive step of a real scheme; 'sharp' is False when a decision was too close to call."""
    q = ref.TABLEAUX[name]["q"]
    att, sharp, n = [], True, 0
    while True:
        unew, err = ref.step(name, L, nl, u, h)
        s = ref.factor(unew, err, q, cfg)
        att.append((h, s))
        if math.isfinite(s) and (abs(s - 1) < 1e-6 or abs(s / cfg["incr_f"] - 1) < 1e-6):
            sharp = False
        # modes close to the mask cutoff
        m = np.abs(unew)
        if np.all(np.isfinite(m)) and np.max(m) > 0:
            if np.any(np.abs(m / np.max(m) - cfg["adapt_cutoff"]) < 1e-9):
                sharp = False
        # an error estimate at rounding level is not determined
        if np.all(np.isfinite(err)) and np.linalg.norm(err) < 1e-12 * np.linalg.norm(unew):
            if 1.0 / cfg["epsilon"] > 1e9 or s < 4.0:
                sharp = False
        if not math.isnan(s) and s >= 1.0 and h != 0:
            return dict(end="accept", att=att, sharp=sharp, state=unew, h=h, suggest=h * ref.accept_factor(s, cfg))
        h = h * ref.reject_factor(s if math.isfinite(s) else math.nan, cfg)
        n += 1
        if n > ref.MAX_LOOPS:
            return dict(end="loops", att=att, sharp=sharp)
        if h < cfg["minh"]:
            return dict(end="minh", att=att, sharp=sharp)
