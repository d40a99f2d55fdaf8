"""C08: chains of steps are independent of the attempts made on the way."""
import itertools

import numpy as np

from .. import common, core, ctl
from .c07 import Ctl

LEVEL = "fault_enumeration"
RULE = (
    "A case is a solver, operator form and problem with every sequence of step sizes up to the depth bound, or a fault "
    "at every evaluation of such a chain; non-trivial: at least one step was compared with a fresh solver."
)
ASSUMPTIONS = ["a chain starts with a new or reset solver and feeds each result into the next step"]

TOL = 1e-10
PROB = {
    "nl3": (common.nl3, common.U3.astype(complex), 1.0),
    "cubic": (lambda u: -(u**3) + 0.5 * np.roll(u, 1) ** 2, np.array([1.2, -0.9, 1.0 + 0.3j]), 1.0),
    "realdata": (lambda u: np.cos(np.real(u)) - 0.3 * np.roll(u, 1), np.array([1, 0, 2]), 1.0),
}
OTHER = np.array([3.0, 1.0, -1.0j])
SIZES_CS = [0.1, 0.2, 0.1 * (1 + 3e-6), 0.05, 0.0, 1e-7]
SIZES_AS = [0.1, 0.2, 0.1 * (1 + 3e-6), 2.5, 0.013, "suggest"]


def build(variant, prob, epsilon=1e-4):
    f = Ctl(PROB[prob][0])
    conf = common.config(epsilon=epsilon) if variant[0] in common.AS else None
    return common.make(variant, common.op3(variant[1]), f, config=conf), f


def single(variant, prob, u, h, cache):
    """One step of a fresh solver."""
    key = (u.tobytes(), h)
    if key not in cache:
        sol, f = build(variant, prob)
        r = common.attempt(lambda: sol.step(u, h))
        if r[0] != "ok":
            cache[key] = r
        elif variant[0] in common.AS:
            cache[key] = ("ok", (np.array(r[1][0]), r[1][1], r[1][2]))
        else:
            cache[key] = ("ok", np.array(r[1]))
    return cache[key]


def check_step(variant, prob, u, h, got, cache, what):
    """Compare one step of a chain with fresh solvers started from the same state."""
    w = single(variant, prob, u, h, cache)
    if w[0] != "ok":
        core.fail("%s: succeeded, a fresh solver raises %s" % (what, w[1]))
    w = w[1]
    if variant[0] in common.AS:
        if not ctl.feq(got[1], w[1], 1e-8) or not ctl.feq(got[2], w[2], 1e-6):
            core.fail("%s: accepted h=%r, suggested %r; a fresh solver accepts %r and suggests %r" % (what, got[1], got[2], w[1], w[2]))
        common.close(got[0], w[0], TOL, what)
        d = single(variant, prob, u, got[1], cache)
        if d[0] != "ok" or d[1][1] != got[1]:
            core.fail("%s: a fresh solver does not accept h=%r directly: %s" % (what, got[1], d[:2]))
        common.close(got[0], d[1][0], TOL, "%s, against a fresh solver using the accepted size directly" % what)
    else:
        common.close(got, w, TOL, what)


def chains(variant, prob, sizes, depth):
    tr = core.tracker()
    cache = {}
    adaptive = variant[0] in common.AS
    for seq in itertools.product(sizes, repeat=depth):
        sol, f = build(variant, prob)
        u = common.big(PROB[prob][1])
        sug = 0.3
        for k, h in enumerate(seq):
            h = sug if h == "suggest" else h
            r = common.attempt(lambda: sol.step(u, h))
            what = "step %d (h=%r) of the chain %s" % (k, h, list(seq))
            if r[0] != "ok":
                core.fail("%s raised %s: %s" % (what, r[1], r[2]))
            check_step(variant, prob, u, h, r[1], cache, what)
            if adaptive:
                u, sug = r[1][0], r[1][2]
            else:
                u = r[1]
        tr.ev(str(seq))
    # the same chain after a reset of a used object
    for seq in itertools.product(sizes[:3], repeat=2):
        sol, f = build(variant, prob)
        common.attempt(lambda: sol.step(common.big(OTHER), 0.2))
        sol.reset()
        u = common.big(PROB[prob][1])
        for k, h in enumerate(seq):
            r = sol.step(u, h)
            check_step(variant, prob, u, h, r, cache, "step %d of %s after reset" % (k, seq))
            u = r[0] if adaptive else r
        tr.ev("reset%s" % (seq,))


def revisit(variant, n):
    """n different step sizes there and back: sizes last used 1, 2, ... 2n steps ago return."""
    tr = core.tracker()
    adaptive = variant[0] in common.AS
    for extra in (0, 1):
        idx = list(range(n + extra)) + list(range(n - extra))[::-1]
        for scale in (0.004, 0.07) if not adaptive else (0.004,):
            hs = [scale * (1 + 0.013 * i) for i in idx]
            sol, f = build(variant, "nl3", epsilon=1e-2)
            u = common.big(PROB["nl3"][1])
            for k, h in enumerate(hs):
                r = sol.step(u, h)
                if k >= n + extra:
                    fresh = build(variant, "nl3", epsilon=1e-2)[0].step(u, h)
                    if adaptive:
                        if r[1] != fresh[1] or not ctl.feq(r[2], fresh[2], 1e-6):
                            core.fail("step %d of %d sizes there and back: accepted h=%r, suggested %r; a fresh solver accepts %r and suggests %r" % (k, n, r[1], r[2], fresh[1], fresh[2]))
                        fresh = fresh[0]
                    common.close(r[0] if adaptive else r, fresh, TOL, "step %d (h=%r) of %d sizes there and back" % (k, h, n + extra))
                    tr.ev("%d%g%d" % (extra, scale, k))
                u = r[0] if adaptive else r


NEAR = [2.0**-52, -(2.0**-53), 1e-14, 1e-12, -1e-10, 1e-9, 1e-8, -1e-7, 1e-6, 1e-5, -1e-4, 1e-3]


def near(variant, prob):
    """Neighbouring step sizes one after the other, at several magnitudes: each step has its own coefficients.

    A step of size h (1+d) reused from h differs by about d in the result; only changes far above rounding can show,
    and they are amplified by a fast mode with many oscillations per step.
    """
    tr = core.tracker()
    name, rep = variant
    adaptive = name in common.AS
    W = 3e6j
    for h0 in (0.1, 2.0**-10, 1e-7, 3e-12):
        L = np.array([-1.0, -0.4, W]) / h0 * 0.1
        T = np.eye(3)
        if rep != "diag":
            w = 300j  # larger ones are beyond the accuracy of the matrix functions
            T = np.array([[1.0, 0.2, 0.1], [0.0, 1.0, -0.3], [0.1, 0.0, 1.0]])
            L = T @ np.diag(np.array([-1.0, -0.4, w]) / h0 * 0.1) @ np.linalg.inv(T)
        f = lambda u: 0.01 / h0 * np.array([u[1] ** 2, u[0] * u[2], np.cos(u[0]) * u[2]])
        u = T @ np.array([1.0, 0.7, 1.0 - 0.5j])
        mk = lambda: common.make(variant, L, f, **(dict(config=common.config(epsilon=1e3, minh=1e-300)) if adaptive else {}))
        get = lambda r: np.array(r[0] if adaptive else r)
        for d in NEAR:
            tol = 1e-9 if rep == "diag" else 1e-11
            for order in (0, 1):
                ha, hb = (h0, h0 * (1 + d))[:: 1 - 2 * order]
                sol = mk()
                v = get(sol.step(u, ha))
                got = get(sol.step(v, hb))
                sol = mk()
                want = get(sol.step(v, hb))
                common.close(got, want, tol, "step of h=%.17g after one of %.17g" % (hb, ha))
                tr.ev("%g/%g/%d" % (h0, d, order))


def faults(variant, prob, sizes, mode):
    """Disturb every evaluation of every step of a chain; repeat the step where it raised."""
    tr = core.tracker()
    adaptive = variant[0] in common.AS
    cache = {}
    for seq in itertools.product(sizes, repeat=3):
        # evaluations per step in the undisturbed chain
        sol, f = build(variant, prob)
        u = common.big(PROB[prob][1])
        per, good, own = [], [], []
        for h in seq:
            f.arm()
            r = sol.step(u, h)
            per.append(f.calls)
            own.append([common.relerr(a, u) < 1e-9 for a in f.args])
            good.append(r)
            u = r[0] if adaptive else r
        for j in range(3):
            for k in range(per[j]):
                # a bad value at the step's own state cannot be repaired by a smaller step
                if mode != "raise" and k < 100 and own[j][k]:
                    continue
                for times in (1, 2) if mode == "raise" else (1,):
                    sol, f = build(variant, prob)
                    u = common.big(PROB[prob][1])
                    for i, h in enumerate(seq):
                        f.arm()
                        if i == j:
                            f.arm(mode, k)
                            if mode == "raise":
                                f.arm(mode, k)
                                common.expect_raises(common.Injected, lambda: sol.step(u, h), "evaluation %d of step %d" % (k, i))
                                if times == 2:  # raise again in the repetition (at its first evaluation)
                                    f.arm(mode, 0)
                                    common.expect_raises(common.Injected, lambda: sol.step(u, h), "evaluation 0 of step %d, repeated" % i)
                            elif mode == "nan":  # fails for good
                                r = common.attempt(lambda: sol.step(u, h))
                                if r[0] == "ok":
                                    core.fail("accepted although every evaluation from %d on is nan" % k)
                            else:  # nan1: one bad value, the solver recovers by itself
                                ub = u
                                r = sol.step(u, h)
                                what = "step %d of %s with nan at evaluation %d" % (i, seq, k)
                                d = single(variant, prob, ub, r[1], cache)
                                if d[0] != "ok" or d[1][1] != r[1]:
                                    # nan in the reused first evaluation can not be repaired by a smaller step
                                    core.fail("%s: accepted h=%r, a fresh solver does not (%s)" % (what, r[1], d[1]))
                                common.close(r[0], d[1][0], TOL, what)
                                u = r[0]
                                continue
                            f.arm()
                        r = sol.step(u, h)
                        what = "step %d of %s (%s at evaluation %d of step %d, %d times)" % (i, seq, mode, k, j, times)
                        if mode in ("raise", "nan"):
                            g = good[i]
                            if adaptive:
                                if not ctl.feq(r[1], g[1], 1e-8) or not ctl.feq(r[2], g[2], 1e-6):
                                    core.fail("%s: accepted %r and suggested %r instead of %r and %r" % (what, r[1], r[2], g[1], g[2]))
                                common.close(r[0], g[0], TOL, what)
                            else:
                                common.close(r, g, TOL, what)
                        else:
                            check_step(variant, prob, u, h, r, cache, what)
                        u = r[0] if adaptive else r
                    tr.ev("%s/%d/%d/%d" % (seq, j, k, times))


def badcoeffs(variant):
    """A step whose coefficients cannot be computed raises again or succeeds again when repeated; later steps are unharmed."""
    tr = core.tracker()
    cache = {}
    for bad in (np.nan, np.inf, 1e308):
        for h in (0.1, 0.2):
            sol, f = build(variant, "nl3")
            u = PROB["nl3"][1]
            if variant[0] in common.AS and bad != bad:
                continue
            r1 = common.attempt(lambda: sol.step(u, h))[1]
            u1 = r1[0] if variant[0] in common.AS else r1
            a = common.attempt(lambda: sol.step(u1, bad))
            b = common.attempt(lambda: sol.step(u1, bad))
            tr.ev("%r/%r" % (bad, h))
            if a[0] == "exc" and b[0] == "ok":
                core.fail("step with h=%r raised %s first and returned %s when repeated" % (bad, a[1], b[1]))
            if variant[0] in common.CS and (a[0] != "exc"):
                continue
            if variant[0] in common.AS and not (a[0] == "exc" and a[1] in ("ValueError", "LinAlgError")):
                continue
            r2 = sol.step(u1, h)
            check_step(variant, "nl3", u1, h, r2, cache, "step after two failed steps with h=%r" % bad)


def against_evolve(variant, prob):
    tr = core.tracker()
    adaptive = variant[0] in common.AS
    for h in (0.1, 0.23, 1.0) if adaptive else (0.1, 0.03, 0.23):
        sol, f = build(variant, prob)
        u0 = common.big(PROB[prob][1])
        if adaptive:
            sol.evolve(u0, 0.0, 1.3, h_init=h)
        else:
            sol.evolve(u0, 0.0, 4 * h, h)
        ts, us = list(sol.t), list(sol.u)
        hand, f = build(variant, prob)
        u = u0
        for k in range(1, len(ts)):
            hk = ts[k] - ts[k - 1] if adaptive else h
            r = hand.step(u, hk)
            u = r[0] if adaptive else r
            if adaptive and r[1] != hk:
                core.fail("step %d of evolve (h=%r) is not accepted in a chain of steps" % (k, hk))
            common.close(u, us[k], 1e-8, "state %d of evolve against the chain of steps" % k)
            fr, f = build(variant, prob)
            r = fr.step(us[k - 1], hk)
            common.close(r[0] if adaptive else r, us[k], 1e-8, "state %d of evolve against a single step" % k)
        tr.ev("%g" % h, n=len(ts) - 1)


def cases(tier):
    big = tier == "thorough"
    for v in common.VARIANTS:
        full_ = v[1] == "full"
        ad = v in common.VAS
        for n in (12, 70) if tier != "thorough" else (12, 70, 150, 300):
            yield "revisit-%s-%d" % (common.vname(v), n), lambda v=v, n=n: revisit(v, n)
        yield "near-%s" % common.vname(v), lambda v=v: near(v, None)
        for p in PROB:
            sizes = SIZES_AS if ad else SIZES_CS
            depth = (5 if not full_ else 4) if big else (4 if not full_ else 3)
            yield "chain-%s-%s" % (common.vname(v), p), lambda v=v, p=p, s=sizes, d=depth: chains(v, p, s, d)
            yield "evolve-%s-%s" % (common.vname(v), p), lambda v=v, p=p: against_evolve(v, p)
        k = 12 if v[1] != "diag" else 100
        yield "large-%s" % common.vname(v), common.sized(k, lambda v=v: chains(v, "nl3", (SIZES_AS if v in common.VAS else SIZES_CS)[:3], 3))
        if big:
            yield "large-evolve-%s" % common.vname(v), common.sized(k, lambda v=v: against_evolve(v, "nl3"))
        for mode in ("raise", "nan", "nan1") if ad else ("raise",):
            for p in PROB if big else ("nl3",):
                yield "fault-%s-%s-%s" % (common.vname(v), p, mode), lambda v=v, p=p, m=mode: faults(v, p, (0.1, 2.5) if v in common.VAS else (0.1, 0.2), m)
        yield "badcoeffs-%s" % common.vname(v), lambda v=v: badcoeffs(v)
