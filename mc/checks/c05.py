"""C05: the step count and time grid of constant-step integrations."""
import math
from fractions import Fraction

import numpy as np

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is a (step size, start) or a real solver; every number of steps up to the bound is run, exact and with "
    "interval lengths that are not a whole number of steps; non-trivial: evolve was called."
)
ASSUMPTIONS = ["a mismatch between interval and N*h below 1e-12 relative counts as rounding, one above 1e-8 does not"]

HS = [0.1, 0.01, 0.001, 0.3, 1 / 3, 0.7, 0.25, 0.05, 1e-7, 1e-5 * 3, math.pi / 7, math.sqrt(2), 2.0, 1.0, 12.5, 1e5, 0.6, 0.35]
T0S = [0.0, 0, 1.0, -1.0, 0.1, -0.7, 5.3, 100.0, -1e3, 1 / 3]

_cls = {}


def scripted_cs():
    if "c" not in _cls:
        from rkstiff.solvercs import BaseSolverCS

        core.need_interface(BaseSolverCS, "_reset", "_update_stages")

        class ScriptedCS(BaseSolverCS):
            def _reset(self):
                pass

            def _update_stages(self, u, h):
                self.hs.append(h)
                if len(self.hs) > 100000:
                    raise core.Budget("steps")
                return u + 1

        _cls["c"] = ScriptedCS
    s = _cls["c"](np.array([-1.0]), lambda u: 0 * u)
    s.hs = []
    return s


def check(sol, r, hs, t0, tf, h, n, u0, what):
    if len(hs) != n:
        core.fail("%s: %d steps taken, expected %d" % (what, len(hs), n))
    if any(abs(x - h) > 1e-9 * h for x in hs):
        core.fail("%s: step sizes %s instead of %r" % (what, sorted(set(hs))[:4], h))
    t = np.array([float(x) for x in sol.t])
    want = t0 + h * np.arange(n + 1)
    slack = 1e-10 * h + (16 + n / 8) * np.spacing(max(abs(t0), abs(tf), abs(want[-1])))
    if len(t) != n + 1 or np.max(np.abs(t - want)) > slack:
        bad = "count %d" % len(t) if len(t) != n + 1 else "largest deviation %.3g" % np.max(np.abs(t - want))
        core.fail("%s: time grid is not t0 + k*h (%s): %s" % (what, bad, common.short(t)))
    if t[0] != t0:
        core.fail("%s: starts at %r" % (what, t[0]))


def grid(h, t0, nmax, extra):
    """Whole numbers of steps, in both ways of writing tf."""
    tr = core.tracker()
    ns = list(range(1, nmax + 1)) + extra
    for n in ns:
        exact = Fraction(h) * n
        tfs = {t0 + n * h, float(Fraction(t0) + exact)}
        acc = t0
        if n <= 2000:
            for _ in range(n):
                acc += h
            tfs.add(acc)
        for tf in sorted(tfs):
            miss = abs(Fraction(tf) - Fraction(t0) - exact) / (Fraction(h) * max(n, 1))
            if miss > Fraction(1, 10**12):
                continue
            sol = scripted_cs()
            u0 = np.zeros(1)
            r = sol.evolve(u0, t0, tf, h)
            tr.ev("%d/%r" % (n, tf))
            check(sol, r, sol.hs, t0, tf, h, n, u0, "evolve(%r, %r, h=%r)" % (t0, tf, h))
            if r[0] != n:
                core.fail("returned the state after %g of %d steps" % (r[0], n))


def partial(h, t0, ns):
    """Intervals that are not a whole number of steps: the first step reaching tf is the last."""
    tr = core.tracker()
    for n in ns:
        for f in (1.05e-9 * n, 1e-6, 1e-3, 0.25, 0.5, 0.75, 0.999, 1 - 1e-6):
            tf = t0 + (n + f) * h
            miss = (tf - t0) / h - n
            if not max(1e-7 if f == 1e-6 else 0, 9e-10 * n) < miss < 1 - 1e-7 or 4 * np.spacing(max(abs(t0), abs(tf))) > 1e-10 * h:
                continue
            sol = scripted_cs()
            r = sol.evolve(np.zeros(1), t0, tf, h)
            tr.ev("%d/%g" % (n, f))
            check(sol, r, sol.hs, t0, tf, h, n + 1, None, "evolve(%r, %r, h=%r)" % (t0, tf, h))
            if r[0] != n + 1:
                core.fail("returned the state after %g of %d steps" % (r[0], n + 1))
            eps = 4 * np.spacing(max(abs(t0), abs(tf)))
            if not sol.t[-1] >= tf - eps or not sol.t[-2] < tf + eps:
                core.fail("evolve(%r, %r, h=%r) stopped at %r after %r" % (t0, tf, h, sol.t[-1], sol.t[-2]))


def refused(build, label):
    tr = core.tracker()
    for t0, tf in ((0.0, 1.0), (-1.0, 1.0), (1.0, 1.0), (1.0, 0.0), (0.0, 0.3), (5.0, 4.999), (0.0, 1e-9)):
        bad = [0.0, -0.1, -1e-300, -1.0, -np.inf, np.nan, -0.0]
        span = tf - t0
        bad += [h for h in (span * (1 + 1e-6), span * 1.5, span + 1e-3, 10.0, 1e300, np.inf, 1e-3 if span < 1e-4 else 10.0) if h > span]
        for h in bad:
            for store in (True, False):
                calls = [0]
                sol = build(calls)
                u0 = common.U3.astype(complex)
                common.expect_raises(ValueError, lambda: sol.evolve(u0, t0, tf, h, store_data=store), "evolve(%r, %r, h=%r)" % (t0, tf, h))
                tr.ev("%r/%r/%r/%r" % (t0, tf, h, store))
                if calls[0]:
                    core.fail("evolve(%r, %r, h=%r) evaluated before refusing" % (t0, tf, h))
        if span > 0:
            for h in (span, span / 2, span / 3, span * (1 - 1e-9), span * 0.999):
                calls = [0]
                sol = build(calls)
                r = common.attempt(lambda: sol.evolve(common.U3.astype(complex), t0, tf, h))
                tr.ev("ok%r/%r/%r" % (t0, tf, h))
                if r[0] != "ok" or not calls[0]:
                    core.fail("evolve(%r, %r, h=%r) refused a valid step: %s" % (t0, tf, h, r))


def build_real(v):
    def build(calls):
        def nl(u):
            calls[0] += 1
            return 1e-3 * common.nl3(u)

        L = np.array([-1.0, -2.0, -0.5]) if v[1] == "diag" else 0.3 * common.A3
        return common.make(v, L, nl)

    return build


def build_scripted(calls):
    s = scripted_cs()

    class L(list):
        def append(self, x):
            calls[0] += 1
            list.append(self, x)

    s.hs = L()
    return s


def real(variant, h, t0):
    """The real solvers: grid, count, and the returned state is the chain of that many steps."""
    tr = core.tracker()
    name, rep = variant
    L = (np.tile([-1.0, -2.0, 0.3j], common.SIZE[0]) if rep == "diag" else 0.3 * common.op3(rep)) / h
    cls = common.classes()[name]
    core.need_interface(cls, "_update_stages")

    class Rec(cls):
        def _update_stages(self, u, hh):
            self.hs.append(hh)
            return super()._update_stages(u, hh)

    Rec.__name__ = "Rec" + name
    fn = lambda u: 0.1 / h * common.nl3(u)
    for n in (1, 2, 3, 7, 10, 49, 100):
        for f in (0.0, 0.4):
            tf = t0 + (n + f) * h
            k = n if f == 0 else n + 1
            sol = common.make(variant, L, common.NL(fn), cls=Rec)
            sol.hs = []
            u0 = common.big(common.U3).astype(complex)
            r = sol.evolve(u0, t0, tf, h)
            tr.ev("%d/%g" % (n, f))
            check(sol, r, sol.hs, t0, tf, h, k, u0, "%s evolve(%r, %r, h=%r)" % (common.vname(variant), t0, tf, h))
            hand = common.make(variant, L, common.NL(fn))
            u = u0
            for i in range(k):
                u = hand.step(u, h)
                if common.relerr(sol.u[i + 1], u) > 1e-9:
                    core.fail("snapshot %d differs from the chain of steps" % (i + 1))
            if common.relerr(r, u) > 1e-9:
                core.fail("the returned state is not the state after %d steps" % k)


def cases(tier):
    big = tier == "thorough"
    for h in HS:
        for t0 in T0S:
            extra = [333, 1000, 1001, 2000] + ([9999, 10000, 30000, 99999] if big else [])
            yield "grid-%r-%r" % (h, t0), lambda a=h, b=t0, e=extra: grid(a, b, 600 if big else 130, e)
            yield "partial-%r-%r" % (h, t0), lambda a=h, b=t0: partial(a, b, range(1, 151 if big else 41))
        for t0 in (1e6, -1e6, 1e9, -1e12):
            yield "grid-%r-%r" % (h, t0), lambda a=h, b=t0: grid(a, b, 10, [999, 1000, 1001, 1024, 4096])
            if h > 1e-3 and t0 < 1e9 or h > 1:
                yield "partial-%r-%r" % (h, t0), lambda a=h, b=t0: partial(a, b, range(1, 11))
    for h in (0.1, 1 / 3, 1e-7, 0.25):
        yield "verylong-%r" % h, lambda a=h: grid(a, 0.0, 1, [9999, 10000, 10001, 16384, 65535, 65536, 65537, 99999])
        yield "verylong-partial-%r" % h, lambda a=h: partial(a, 0.0, [1000, 4097, 9999, 10001, 65536] + ([10**6] if big else []))
    yield "refused-scripted", lambda: refused(build_scripted, "s")
    for v in common.VCS:
        yield "refused-%s" % common.vname(v), lambda v=v: refused(build_real(v), v)
        for h in (0.1, 1 / 3, 0.01, 2.0):
            for t0 in (0.0, -0.7, 5.3):
                yield "real-%s-%r-%r" % (common.vname(v), h, t0), lambda v=v, a=h, b=t0: real(v, a, b)
            k = 100 if v[1] == "diag" else 6
            yield "large-%s-%r" % (common.vname(v), h), common.sized(k, lambda v=v, a=h: real(v, a, 0.0))
