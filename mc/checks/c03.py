"""C03: every adaptive integration ends, with a finite state or one of the two documented errors."""
import itertools
import math

import numpy as np

from .. import common, core, ctl, ref

LEVEL = "model_checking"
RULE = (
    "A case is a family of rejection scripts around the attempt limit, or a real solver with a fault (inf, nan, "
    "overflow) at every evaluation of a short run; non-trivial: at least one attempt was made."
)
ASSUMPTIONS = [
    "minh is above the rounding of the time axis (a step below it cannot advance time)",
    "scripted stages are plugged in through the documented subclass interface",
]


def outcome(fn, sol):
    """Classify the end of an integration, checking the exception hierarchy."""
    from rkstiff.solveras import BaseSolverAS

    r = common.attempt(fn)
    if r[0] == "ok":
        return "accept", r[1]
    e = r[2]
    if isinstance(e, ctl.OutOfScript):
        raise e
    if isinstance(e, BaseSolverAS.MaxLoopsExceeded):
        end = "loops"
    elif isinstance(e, BaseSolverAS.MinimumStepReached):
        end = "minh"
    else:
        core.fail("ended in %s: %s" % (r[1], e))
    for t, n in ((BaseSolverAS.SolverError, "SolverError"), (RuntimeError, "RuntimeError"), (type(sol).SolverError, "SolverError of the class")):
        if not isinstance(e, t):
            core.fail("%s is not a %s" % (r[1], n))
    if end == "loops" and isinstance(e, BaseSolverAS.MinimumStepReached) or not str(e):
        core.fail("unusable exception %r" % e)
    return end, None


def lasso(cname, kinds, h0, minh):
    """n rejections (cycling through ``kinds``) and then an acceptance, for every n around both limits."""
    kw = dict(ctl.CFGS[cname], minh=minh)
    cfg = ctl.full_cfg(kw)
    conf = common.config(**kw)
    tr = core.tracker()
    q = 4
    for n in list(range(0, 8)) + list(range(44, 56)) + [1000]:
        def gen():
            k = 0
            while True:
                yield ctl.answer(kinds[k % len(kinds)] if k < n else "s1.3", k % 7, cfg, q)
                k += 1

        m = ctl.model_step(h0, gen(), q, cfg)
        it = gen()
        sol = ctl.scripted(lambda k, x, h: next(it), q, conf)
        end, r = outcome(lambda: sol.step(np.ones(3), h0), sol)
        tr.ev("%d" % n)
        tr.transitions += len(m["attempts"])
        tr.traces += 1
        tr.state((cname, kinds, h0, minh, min(n, len(m["attempts"])), m["end"]))
        got = [a[1] for a in sol.attempts]
        what = "%d rejections %s from h=%g, minh=%g" % (n, kinds, h0, minh)
        exact = math.frexp(h0)[0] == math.frexp(minh)[0] == 0.5 and set(kinds) <= {"errnan", "uinf", "unan", "errinf", "s.05"}
        if not exact and any(abs(h / minh - 1) < 1e-9 for h in m["attempts"] + [got[-1]]):
            continue
        if end != m["end"]:
            core.fail("%s: ended with %s after %d attempts, expected %s after %d" % (what, end, len(got), m["end"], len(m["attempts"])))
        if len(got) != len(m["attempts"]):
            core.fail("%s: %d attempts, expected %d" % (what, len(got), len(m["attempts"])))
        if end == "accept" and not common.same(r[0], m["state"]):
            core.fail("%s: returned %s" % (what, r[0]))
        # the same through evolve, stopped after these attempts if the step succeeds
        def script(k, x, h):
            if k == len(got) and end == "accept":
                raise ctl.OutOfScript()
            return next(it2)

        it2 = gen()
        sol = ctl.scripted(script, q, conf)
        try:
            end2, _ = outcome(lambda: _evolve(sol, h0), sol)
        except ctl.OutOfScript:
            end2 = "accept"
        if end2 != end or [a[1] for a in sol.attempts][: len(got)] != got or len(sol.attempts) > len(got) + (end == "accept"):
            core.fail(
                "%s: evolve ended with %s after attempts %s, step with %s after %s"
                % (what, end2, [a[1] for a in sol.attempts], end, got)
            )


def carry(cname, kinds, minh):
    """Steps one after the other on one solver, failed ones included: every step has its own full number of attempts."""
    kw = dict(ctl.CFGS[cname], minh=minh)
    cfg = ctl.full_cfg(kw)
    conf = common.config(**kw)
    tr = core.tracker()
    q = 4
    for seq in itertools.product((0, 1, 26, 50, 51, 1000), repeat=3):
        sol = ctl.scripted(None, q, conf)
        for j, n in enumerate(seq):

            def gen():
                k = 0
                while True:
                    yield ctl.answer(kinds[k % len(kinds)] if k < n else "s1.3", k % 7, cfg, q)
                    k += 1

            m = ctl.model_step(1.0, gen(), q, cfg)
            it = gen()
            sol.attempts = []
            sol.script = lambda k, x, h: next(it)
            end, r = outcome(lambda: sol.step(np.ones(3), 1.0), sol)
            tr.transitions += len(m["attempts"])
            tr.state((cname, kinds, minh, seq[: j + 1]))
            if end != m["end"] or len(sol.attempts) != len(m["attempts"]):
                core.fail(
                    "steps with %s rejections %s: step %d ended with %s after %d attempts, expected %s after %d"
                    % (seq, kinds, j, end, len(sol.attempts), m["end"], len(m["attempts"]))
                )
        tr.ev(str(seq))
        tr.traces += 1


def _evolve(sol, h0):
    return sol.evolve(np.ones(3), 0.0, h0, h_init=h0)


def minh_grid(cname, kind, ratio):
    """minh placed between every pair of consecutive reduced steps."""
    base = ctl.CFGS[cname]
    cfg0 = ctl.full_cfg(base)
    q = 4
    tr = core.tracker()
    hs = [1.0]
    s = ref.factor(*ctl.answer(kind, 0, cfg0, q), q, cfg0)
    f = ref.reject_factor(s if math.isfinite(s) else math.nan, cfg0)
    for _ in range(60):
        hs.append(hs[-1] * f)
    for i in range(0, 56):
        minh = hs[i] * (1 - (1 - f) * ratio)  # between hs[i+1] and hs[i]
        kw = dict(base, minh=minh)
        cfg = ctl.full_cfg(kw)
        conf = common.config(**kw)
        ans = [ctl.answer(kind, k % 7, cfg, q) for k in range(120)]
        m = ctl.model_step(1.0, iter(ans), q, cfg)
        sol = ctl.scripted(lambda k, x, h: tuple(v.copy() for v in ans[k]), q, conf)
        end, r = outcome(lambda: sol.step(np.ones(3), 1.0), sol)
        tr.ev("%d" % i)
        tr.transitions += len(m["attempts"])
        tr.traces += 1
        tr.state((cname, kind, ratio, i, m["end"]))
        if end != m["end"] or len(sol.attempts) != len(m["attempts"]):
            core.fail(
                "%s answers with minh=%g: ended with %s after %d attempts, expected %s after %d"
                % (kind, minh, end, len(sol.attempts), m["end"], len(m["attempts"]))
            )


# -- faults in the real solvers ----------------------------------------------------------
FAULTS = {
    "nan": lambda u, fn: fn(u) * np.nan,
    "inf": lambda u, fn: fn(u) + np.inf,
    "onenan": lambda u, fn: np.where(np.arange(len(u)) == 1, np.nan, fn(u)),
    "oneinf": lambda u, fn: np.where(np.arange(len(u)) == 0, -np.inf, fn(u)),
    "cinf": lambda u, fn: fn(u) + 1j * np.inf,
    "lastnan": lambda u, fn: np.where(np.arange(len(u)) == len(u) - 1, np.nan, fn(u)),
    "lastinf": lambda u, fn: np.where(np.arange(len(u)) == len(u) - 1, 1j * np.inf, fn(u)),
    "huge": lambda u, fn: fn(u) * 1e300,
}


U3C = common.U3.astype(complex)


def faults(variant, fname, persist, h0):
    name, rep = variant
    fault = FAULTS[fname]
    tr = core.tracker()
    L = common.op3(rep)
    # number of evaluations of the undisturbed run
    base = common.NL(common.nl3)
    ref_u = common.make(variant, L, base).evolve(common.big(U3C), 0.0, 1.0, h_init=h0)
    total = base.calls
    for k in range(total + 1):
        at = range(k, 100000) if persist else (k,)
        nl = common.NL(common.nl3, budget=5000, fault_at=at, fault=fault)
        sol = common.make(variant, L, nl)
        end, r = outcome(lambda: sol.evolve(common.big(U3C), 0.0, 1.0, h_init=h0), sol)
        tr.ev("ev%d" % k)
        tr.transitions += nl.calls
        tr.traces += 1
        tr.state((variant, fname, persist, h0, k, end))
        if end == "accept":
            if not np.all(np.isfinite(r)):
                core.fail("%s at evaluation %d: evolve returned %s" % (fname, k, r))
            for ts, us in zip(sol.t, sol.u):
                if not np.all(np.isfinite(us)):
                    core.fail("%s at evaluation %d: non-finite snapshot at t=%g: %s" % (fname, k, ts, us))
            if persist and k < total and fname != "huge":
                core.fail("%s from evaluation %d on: evolve returned %s" % (fname, k, r))
        # a chain of steps
        nl = common.NL(common.nl3, budget=5000, fault_at=at, fault=fault)
        sol = common.make(variant, L, nl)
        u, h = common.big(U3C), h0
        for _ in range(3):
            end, r = outcome(lambda: sol.step(u, h), sol)
            if end != "accept":
                break
            if not np.all(np.isfinite(r[0])) or not (0 < r[1] <= h) or not np.isfinite(r[2]):
                core.fail("%s at evaluation %d: step returned %s" % (fname, k, r))
            u, h = r[0], r[2]
        tr.ev("st%d" % k)


def blowup(variant, h0):
    """u' = L u + u^2 with large data blows up in finite time: an error, never a non-finite state or a hang."""
    name, rep = variant
    tr = core.tracker()
    for amp in (1.0, 10.0, 1e3, 1e100, 1e160, 1e200, 1e300):
        L = np.array([-0.5, -0.1]) if rep == "diag" else np.array([[-0.5, 0.1], [0.2, -0.1]])
        for fn in (lambda u: u * u, lambda u: np.exp(u), lambda u: 1 / (u - u[0] + 0 * u)):
            nl = common.NL(fn, budget=100000)
            sol = common.make(variant, L, nl)
            end, r = outcome(lambda: sol.evolve(np.array([1.0, 0.7]) * amp, 0.0, 20.0, h_init=h0), sol)
            tr.ev("%g" % amp)
            tr.transitions += nl.calls
            tr.traces += 1
            tr.state((variant, h0, amp, end))
            if end == "accept" and not np.all(np.isfinite(r)):
                core.fail("blow-up from %g: evolve returned %s" % (amp, r))


def overflow_op(variant, h0):
    """Operators whose exponential overflows at the initial step."""
    name, rep = variant
    tr = core.tracker()
    for lam in (800.0, 1e4, 1e4j, -1e4, -1e300, 1e300):
        L = np.array([lam, -1.0]) if rep == "diag" else np.array([[lam, 0.1], [0.0, -1.0]])
        if rep != "diag" and abs(lam) > 1e5:
            continue
        nl = common.NL(lambda u: 0.1 * u * u, budget=100000)
        sol = common.make(variant, L, nl)
        end, r = outcome(lambda: sol.step(np.array([1e-3, 1.0]), h0), sol)
        tr.ev("%s" % lam)
        tr.transitions += nl.calls
        tr.traces += 1
        tr.state((variant, h0, lam, end))
        if end == "accept" and not np.all(np.isfinite(r[0])):
            core.fail("operator %s: step returned %s" % (lam, r[0]))


def stall(variant):
    """Steps too small to advance time: evolve ends with an error or reaches tf, whatever the growth factor."""
    name, rep = variant
    tr = core.tracker()
    for incr in (1.25, 3.9, 4.5, 8.0, 100.0):
        for t0 in (1.0, -2.0, 1e6, 1e14):
            for h0 in (1e-14, 1e-17, 1e-20, 1e-12 * t0 if t0 > 0 else 1e-18):
                if incr >= 4 and t0 + 3 * h0 != t0:
                    continue  # advances, but takes 1e12 steps
                nl = common.NL(common.nl3, budget=20000)
                sol = common.make(variant, common.op3(rep), nl, config=common.config(incr_f=incr))
                end, r = outcome(lambda: sol.evolve(common.big(U3C), t0, t0 + 1.0, h_init=h0), sol)
                tr.ev("%g/%g/%g" % (incr, t0, h0))
                tr.transitions += nl.calls
                tr.traces += 1
                tr.state((variant, incr, t0, h0, end))
                if end == "accept" and not np.all(np.isfinite(r)):
                    core.fail("returned %s" % r)


def cases(tier):
    big = tier == "thorough"
    kindsets = [("s.6",), ("s.99",), ("errnan",), ("uinf",), ("s.05",), ("s.9", "unan"), ("s.28", "s.99", "errinf")]
    for cname in ctl.CFGS:
        for kinds in kindsets:
            for h0, minh in ((1.0, 1e-16), (1.0, 1e-300), (1e-10, 1e-16), (1e5, 1e-3), (0.5, 0.4), (1e-17, 1e-16)):
                yield "lasso-%s-%s-%g-%g" % (cname, "+".join(kinds), h0, minh), lambda a=cname, b=kinds, c=h0, d=minh: lasso(a, b, c, d)
        # quarters of powers of two are exact: a step of exactly minh is not below it
        for kinds in (("errnan",), ("s.05", "uinf")):
            for h0, minh in ((1.0, 2.0**-6), (2.0**-10, 2.0**-40), (2.0**9, 2.0), (0.25, 0.25)):
                yield "equal-%s-%s-%g-%g" % (cname, "+".join(kinds), h0, minh), lambda a=cname, b=kinds, c=h0, d=minh: lasso(a, b, c, d)
        for kind in ("s.05", "s.28", "s.6", "s.99", "errnan"):
            for ratio in (0.3, 0.7) if not big else (0.01, 0.2, 0.4, 0.6, 0.8, 0.99):
                yield "minh-%s-%s-%g" % (cname, kind, ratio), lambda a=cname, b=kind, c=ratio: minh_grid(a, b, c)
    for cname in ctl.CFGS:
        for kinds in kindsets if big else kindsets[::3]:
            for minh in (1e-300, 3e-8):
                yield "carry-%s-%s-%g" % (cname, "+".join(kinds), minh), lambda a=cname, b=kinds, c=minh: carry(a, b, c)
    for pre in ctl.HISTORIES:
        for cname in ctl.CFGS:
            for kinds in kindsets if big else kindsets[:3]:
                yield "used-%s-%s-%s" % (pre, cname, "+".join(kinds)), ctl.used(
                    pre, lambda a=cname, b=kinds: [lasso(a, b, h0, minh) for h0, minh in ((1.0, 1e-300), (1e-10, 1e-16), (1e-17, 1e-25), (0.5, 0.4))])
    for v in common.VAS:
        k = 100 if v[1] == "diag" else 4 if v[0] == "ETD35" else 12
        for f in FAULTS if big else ("lastnan", "lastinf"):
            for persist in (False, True):
                yield "large-%s-%s-%s" % (common.vname(v), f, persist), common.sized(k, lambda a=v, b=f, c=persist: faults(a, b, c, 0.5))
        for f in FAULTS:
            for persist in (False, True):
                for h0 in (0.5,) if not big else (1.0, 0.5, 0.05):
                    yield "fault-%s-%s-%s-%g" % (common.vname(v), f, persist, h0), lambda a=v, b=f, c=persist, d=h0: faults(a, b, c, d)
        for h0 in (None, 1.0, 20.0):
            yield "blowup-%s-%s" % (common.vname(v), h0), lambda a=v, b=h0: blowup(a, b)
        yield "stall-%s" % common.vname(v), lambda v=v: stall(v)
        for h0 in (1.0, 1e-3):
            yield "overflow-%s-%g" % (common.vname(v), h0), lambda a=v, b=h0: overflow_op(a, b)
