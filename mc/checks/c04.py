"""C04: the time axis of adaptive integrations."""
import itertools
import math

import numpy as np

from .. import common, core, ctl, ref

LEVEL = "model_checking"
RULE = (
    "A case is a (configuration, interval, initial step) with every answer sequence up to the depth bound, or a real "
    "solver on one interval; non-trivial: at least one step of the evolution was taken (or refused for tf <= t0)."
)
ASSUMPTIONS = [
    "steps are larger than the spacing of floating-point numbers at t",
    "scripted stages are plugged in through the documented subclass interface",
]

INTERVALS = [
    (0.0, 1.0), (0, 1), (0.1, 0.7), (-1.0, 0.0), (-3.3, -0.1), (-0.25, 0.5), (5.0, 5.0 + 1 / 3), (1e6, 1e6 + 1.0),
    (0.0, 1e-8), (0.0, 1e7), (-1e3, 1e3), (2.5, 2.5000001),
]
HINITS = [None, 1e-3, 0.1, 0.3, 1 / 3.0, 0.5, 0.999999, 1.0, 1.0000001, 50.0]  # fractions of the interval


def axis(sol, u0, t0, tf, what, strict=True):
    """Checks that need no model: order, contiguity, end."""
    t = [float(x) for x in sol.t]
    if t[0] != t0:
        core.fail("%s: first time is %r" % (what, t[0]))
    if any(not (b > a if strict else b >= a) for a, b in zip(t, t[1:])):
        core.fail("%s: times not strictly increasing: %s" % (what, t))
    end = 4 * np.spacing(max(abs(t0), abs(tf), tf - t0))
    if abs(t[-1] - tf) > end:
        core.fail("%s: ends at %r instead of %r" % (what, t[-1], tf))
    if len(sol.u) != len(t):
        core.fail("%s: %d states for %d times" % (what, len(sol.u), len(t)))
    if sol.u[0] is not u0 and not common.same(sol.u[0], u0):
        core.fail("%s: first snapshot is %s" % (what, sol.u[0]))


def sequences(cname, t0, tf, frac, alphabet, depth):
    cfg = ctl.full_cfg(ctl.CFGS[cname])
    conf = common.config(**ctl.CFGS[cname])
    tr = core.tracker()
    q = 4
    h_init = None if frac is None else frac * (tf - t0)
    u0 = np.array([7.0, 8.0, 9.0])
    tail = "exact"
    done = set()
    for pre in itertools.product(alphabet, repeat=depth):
        ans = [ctl.answer(k, i, cfg, q) for i, k in enumerate(pre)]
        n_acc = [0]

        def gen():
            for a in ans:
                yield a
            k = depth
            while True:
                yield ctl.answer(tail, k, cfg, q)
                k += 1

        m = ctl.model_evolve(t0, tf, h_init, gen(), q, cfg, u0)
        used = min(depth, len(m["attempts"]))
        if pre[:used] in done:
            continue
        done.add(pre[:used])
        it = gen()
        sol = ctl.scripted(lambda k, x, h: tuple(v.copy() for v in next(it)), q, conf)
        what = "answers %s on [%r, %r], h_init=%r" % (pre[:used], t0, tf, h_init)
        r = common.attempt(lambda: sol.evolve(u0, t0, tf, h_init=h_init))
        tr.ev("/".join(pre[:used]))
        tr.transitions += len(m["attempts"])
        tr.traces += 1
        for x in m["t"]:
            tr.state((cname, t0, tf, frac, "%.14e" % x))
        if m["end"] != "done":
            if r[0] == "ok" and not m["vague"]:
                core.fail("%s: returned although the model ends with %s" % (what, m["end"]))
            continue
        if r[0] != "ok":
            if m["vague"] and r[1] == "MinimumStepReached":
                continue
            core.fail("%s: raised %s (%s)" % (what, r[1], r[2]))
        span = tf - t0
        big = max(abs(t0), abs(tf), span)
        axis(sol, u0, t0, tf, what, strict=not m["vague"])
        if m["vague"]:
            tr.count("paths_judged_by_invariants_only")
            continue
        # the last step of a path is a difference of times and carries their rounding
        slack = 64 * np.spacing(big)
        got = [a[1] for a in sol.attempts]
        st, su, extra = list(sol.t), list(sol.u), 0
        # the last step may leave a remainder of rounding size, which takes one more step
        while len(got) > len(m["attempts"]) and got[-1] <= slack and len(st) > 2 and abs(st[-2] - tf) <= slack:
            got.pop(), st.pop(), su.pop()
            extra += 1
        if extra > 1:
            core.fail("%s: %d steps of rounding size at the end" % (what, extra))
        if len(got) != len(m["attempts"]) or any(abs(x - y) > 1e-9 * abs(y) + slack for x, y in zip(got, m["attempts"])):
            core.fail("%s: attempted steps %s, expected %s" % (what, got, m["attempts"]))
        if len(st) != len(m["t"]) or any(abs(x - y) > 1e-12 * span + slack for x, y in zip(st, m["t"])):
            core.fail("%s: times %s, expected %s" % (what, sol.t, m["t"]))
        if len(su) != len(m["u"]) or not all(common.same(x, y) for x, y in zip(su, m["u"])):
            core.fail("%s: states %s, expected %s" % (what, sol.u, m["u"]))
        if not common.same(r[1], sol.u[-1]):
            core.fail("%s: returned %s, last state is %s" % (what, r[1], sol.u[-1]))


def degenerate(build, label):
    """tf <= t0: nothing happens."""
    tr = core.tracker()
    for t0, tf in ((0.0, 0.0), (1.0, 1.0), (1.0, 0.5), (-1.0, -2.0), (0, 0), (5.0, -5.0), (1e9, 1e9)):
        for h in (None, 0.1, 1.0, 100.0):
            for store in (True, False):
                calls = [0]
                sol, u0 = build(calls)
                keep = u0.copy()
                r = common.attempt(lambda: sol.evolve(u0, t0, tf, h_init=h, store_data=store))
                tr.ev("%r/%r/%r/%r" % (t0, tf, h, store))
                tr.transitions += 1
                tr.traces += 1
                tr.state((label, t0, tf, h, store))
                what = "evolve over [%r, %r] with h_init=%r" % (t0, tf, h)
                if r[0] != "ok":
                    core.fail("%s raised %s (%s)" % (what, r[1], r[2]))
                if calls[0]:
                    core.fail("%s evaluated the stages" % what)
                if np.asarray(r[1]).dtype.kind != keep.dtype.kind:
                    core.fail("%s returned values of type %s for %s" % (what, np.asarray(r[1]).dtype, keep.dtype))
                if not common.same(r[1], keep) or not common.same(u0, keep):
                    core.fail("%s returned %s for %s" % (what, r[1], keep))
                if store and ([float(x) for x in sol.t] != [t0] or len(sol.u) != 1 or not common.same(sol.u[0], keep)):
                    core.fail("%s stored %s, %s" % (what, sol.t, sol.u))
                if not store and (len(sol.t) or len(sol.u)):
                    core.fail("%s stored %s, %s" % (what, sol.t, sol.u))


def build_scripted(calls):
    def script(k, x, h):
        calls[0] += 1
        return np.ones(3), np.zeros(3)

    return ctl.scripted(script, 4, common.config()), np.array([1.0, 2.0, 3.0])


def build_real(v, conv=lambda u: u):
    def build(calls):
        def nl(u):
            calls[0] += 1
            return common.nl3(u)

        return common.make(v, common.op3(v[1]), nl), conv(common.U3.copy())

    return build


def long_run(nsteps, t0, cname):
    """More than a thousand steps of constant size: contiguity and the end must not drift."""
    cfg = ctl.full_cfg(ctl.CFGS[cname])
    conf = common.config(**ctl.CFGS[cname])
    tr = core.tracker()
    for span in (1.0, 0.7, 3e3):
        h = span / nsteps
        for off in (0.0, 0.5, 1e-3):
            k0 = [0]
            sol = ctl.scripted(lambda k, x, hh: (np.array([2.0 + k, 1.0, 0.0]), np.array([cfg["epsilon"] * (2.0 + k) * (cfg["safety_f"] / 1.02) ** 4, 0, 0])), 4, conf)
            tf = t0 + span + off * h
            u = np.ones(3)
            sol.evolve(u, t0, tf, h_init=h)
            tr.ev("%g/%g" % (span, off))
            tr.transitions += len(sol.attempts)
            tr.traces += 1
            axis(sol, u, t0, tf, "%d steps over %g from %g" % (nsteps, span, t0))
            tr.state((nsteps, t0, cname, span, off))
            n = len(sol.t) - 1
            if not nsteps <= n <= nsteps + 2:
                core.fail("%d steps instead of %d over [%r, %r]" % (n, nsteps, t0, tf))
            slack = 8 * np.spacing(max(abs(t0), abs(tf)))
            d = np.diff(sol.t)
            hs = [a[1] for a in sol.attempts]
            if len(hs) != n or np.max(np.abs(d - hs)) > slack:
                core.fail("time differences do not equal the accepted steps")
            if any(abs(x - h) > 1e-9 * h + slack for x in hs[:-2]):
                core.fail("the step changed without the controller asking for it")


def real(variant, t0, tf, frac, eps, L=None):
    """Accepted steps of a real run: contiguous, and each proposal is the previous suggestion or the rest."""
    name, rep = variant
    tr = core.tracker()
    cls = common.classes()[name]

    class Rec(cls):
        def step(self, u, h_suggest):
            r = super().step(u, h_suggest)
            self.log.append((h_suggest, r[1], r[2]))
            return r

    Rec.__name__ = "Rec" + name
    h_init = None if frac is None else frac * (tf - t0)
    conf = common.config(epsilon=eps)
    scale = 1.0 / (tf - t0) * 3.0
    nl = common.NL(lambda u: scale * common.nl3(u))
    sol = common.make(variant, scale * common.op3(rep), nl, cls=Rec, config=conf)
    sol.log = []
    u0 = common.U3.astype(complex)
    ur = sol.evolve(u0, t0, tf, h_init=h_init)
    plain = common.make(variant, scale * common.op3(rep), lambda u: scale * common.nl3(u), config=conf)
    up = plain.evolve(u0, t0, tf, h_init=h_init)
    what = "%s over [%r, %r], h_init=%r" % (common.vname(variant), t0, tf, h_init)
    tr.ev("run")
    tr.transitions += len(sol.log)
    tr.traces += 1
    for x in plain.t:
        tr.state((variant, t0, tf, frac, eps, "%.12e" % x))
    common.expect_same(up, ur, what)
    axis(plain, u0, t0, tf, what)
    t = [float(x) for x in plain.t]
    if not common.same(plain.u[-1], up):
        core.fail("%s: last snapshot differs from the returned state" % what)
    big = max(abs(t0), abs(tf), tf - t0)
    slack = 16 * np.spacing(big)
    if len(sol.log) == len(t) - 1:  # evolve went through the public step method
        prop = (tf - t0) / 100.0 if h_init is None else h_init
        for k, (hp, h, hs) in enumerate(sol.log):
            want = min(prop, tf - t[k])
            if abs(hp - want) > 1e-9 * want + slack:
                core.fail("%s: step %d at t=%r was proposed %r, expected %r" % (what, k, t[k], hp, want))
            if abs(t[k + 1] - t[k] - h) > slack:
                core.fail("%s: step %d advanced t by %r but used h=%r" % (what, k, t[k + 1] - t[k], h))
            prop = hs
    # hand-made chain of steps with the same proposals
    hand = common.make(variant, scale * common.op3(rep), lambda u: scale * common.nl3(u), config=conf)
    u, tt, h = u0, t0, (tf - t0) / 100.0 if h_init is None else h_init
    for k in range(len(t) - 1):
        h = min(h, tf - tt) if tt + h > tf else h
        u, ha, h = hand.step(u, h)
        tt = tt + ha
        if abs(tt - t[k + 1]) > slack + 1e-9 * (tf - t0) or common.relerr(plain.u[k + 1], u) > 1e-7:
            core.fail("%s: snapshot %d (t=%r) differs from the chain of steps (t=%r)" % (what, k + 1, t[k + 1], tt))


def cases(tier):
    big = tier == "thorough"
    alpha = ["s1.3", "s.6", "s3.9", "s1.01", "errnan"]
    for cname in ctl.CFGS if big else ("default", "tight", "loose", "never"):
        for t0, tf in INTERVALS:
            for frac in HINITS:
                if cname == "never" and (frac is None or frac < 0.05) and not (big and t0 == 0.1):
                    continue
                yield "seq-%s-%r-%r-%r" % (cname, t0, tf, frac), lambda a=cname, b=t0, c=tf, d=frac: sequences(a, b, c, d, alpha, 5 if big else 3)
    for pre in ctl.HISTORIES:
        for cname in ("default", "tight", "loose", "never"):
            for t0, tf in INTERVALS:
                yield "used-%s-%s-%r-%r" % (pre, cname, t0, tf), ctl.used(pre, lambda a=cname, b=t0, c=tf: [sequences(a, b, c, d, alpha, 3 if big else 2) for d in (0.1, 1.0, 3.0)])
    yield "degenerate-scripted", lambda: degenerate(build_scripted, "scripted")
    for v in common.VAS:
        for cn, conv in (("", lambda u: u), ("real-", np.real), ("int-", lambda u: np.array(3 * np.real(u), int)), ("complex-", lambda u: u + 0j), ("list-f32-", lambda u: np.real(u).astype(np.float32))):
            yield "degenerate-%s%s" % (cn, common.vname(v)), lambda v=v, cn=cn, conv=conv: degenerate(build_real(v, conv), (v, cn))
    for n in (1, 2, 3, 7, 99, 100, 101, 1000, 1999) + ((20000,) if big else ()):
        for t0 in (0.0, -0.35, 1e3):
            for c in ("default", "never"):
                yield "long-%d-%g-%s" % (n, t0, c), lambda a=n, b=t0, c=c: long_run(a, b, c)
    for v in common.VAS:
        for t0, tf in INTERVALS:
            for frac in (None, 0.05, 1.0, 3.0) if not big else HINITS:
                for eps in (1e-4,) if not big else (1e-2, 1e-4, 1e-7):
                    yield "real-%s-%r-%r-%r-%g" % (common.vname(v), t0, tf, frac, eps), lambda v=v, a=t0, b=tf, c=frac, d=eps: real(v, a, b, c, d)
