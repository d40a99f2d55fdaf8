"""C06: stored snapshots."""
import itertools
import logging

import numpy as np

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is a solver, operator form and problem; all storage settings, log levels and follow-up operation sequences "
    "are run; non-trivial: an evolve whose stored data was compared with the trajectory."
)
ASSUMPTIONS = ["the caller does not modify arrays it shares with the solver"]

PROBS = {
    "short": (common.nl3, common.U3, 0.0, 0.7, 0.1),
    "shift": (lambda u: 0.5 * np.sin(u.real) + 0.2 * np.roll(u, 1), np.array([1, 2, -1]), -2.0, 0.5, 0.125),
    "cplx": (lambda u: -0.3j * u * np.abs(u) ** 2, np.array([1.0 + 1j, 0.2, -0.5j]), 3.0, 4.2, 0.15),
    "linear": (lambda u: 0 * u, common.U3.astype(complex), 0.0, 2.0, 0.5),
    "long": (lambda u: 0.05 * np.cos(u), common.U3.astype(complex), 0.0, 2.6, 0.02),
}


OTHER1 = np.array([3.0, -2.0, 1.0 + 1j])
OTHER2 = np.array([3.0, -2.0, 1.0])


def problem(prob):
    nl, u0, t0, tf, h = PROBS[prob]
    return nl, common.big(u0), t0, tf, h


def build(variant, nl, loglevel="WARNING"):
    kw = {"loglevel": loglevel}
    conf = None
    if variant[0] in common.AS:
        conf = common.config(epsilon=1e-5)
    return common.make(variant, common.op3(variant[1]), common.NL(nl), config=conf, **kw)


def run(sol, variant, prob, **kw):
    nl, u0, t0, tf, h = problem(prob)
    if variant[0] in common.AS:
        return sol.evolve(u0.copy(), t0, tf, h_init=h / 3, **kw)
    return sol.evolve(u0.copy(), t0, tf, h, **kw)


def trajectory(variant, prob):
    """Times and states of the same integration done by hand with step()."""
    nl, u0, t0, tf, h = problem(prob)
    sol = build(variant, nl)
    ts, us = [t0], [u0.copy()]
    u, t = u0.copy(), t0
    if variant[0] in common.AS:
        hh = h / 3
        while t < tf:
            if t + hh > tf:
                hh = tf - t
            u, ha, hh = sol.step(u, hh)
            t += ha
            ts.append(t)
            us.append(np.array(u, copy=True))
    else:
        n = int(np.ceil((tf - t0) / h - 1e-9))
        for k in range(n):
            u = sol.step(u, h)
            ts.append(t0 + (k + 1) * h)
            us.append(np.array(u, copy=True))
    return ts, us


def settings(variant, prob, levels, freqs):
    tr = core.tracker()
    nl = problem(prob)[0]
    ts, us = trajectory(variant, prob)
    n = len(ts) - 1
    slack = 1e-15 * (n + 4) * np.max(np.abs(ts))
    plain = build(variant, nl)
    base = run(plain, variant, prob)
    for fr in [1] + [f for f in (freqs or range(2, n + 3))]:
        for lv in levels:
            for store in (True, False):
                sol = build(variant, nl, loglevel="WARNING" if lv == "late" else lv)
                if lv == "late":
                    sol.set_loglevel("DEBUG")
                r = run(sol, variant, prob, store_data=store, store_freq=fr)
                tr.ev("%s/%s/%s" % (fr, lv, store))
                what = "store_data=%s, store_freq=%d, loglevel=%s" % (store, fr, lv)
                common.expect_same(r, base, "%s: returned state" % what)
                if not store:
                    if len(sol.t) or len(sol.u):
                        core.fail("%s: stored %d times and %d states" % (what, len(sol.t), len(sol.u)))
                    continue
                idx = list(range(0, n + 1, fr))
                if len(sol.t) != len(idx) or len(sol.u) != len(idx):
                    core.fail("%s: %d times and %d states stored, expected %d of %d steps" % (what, len(sol.t), len(sol.u), len(idx), n))
                for k, i in enumerate(idx):
                    if abs(sol.t[k] - ts[i]) > slack:
                        core.fail("%s: snapshot %d has t=%r, step %d is at %r" % (what, k, sol.t[k], i, ts[i]))
                    common.close(sol.u[k], us[i], 1e-9, "%s: snapshot %d against the state after step %d" % (what, k, i))
                common.expect_same(sol.u[0], problem(prob)[1], "%s: initial snapshot" % what)
                if fr == 1:
                    common.expect_same(sol.u[-1], r, "%s: last snapshot against the returned state" % what)
    set_quiet(variant)


def many(variant, steps, freqs):
    """Long histories: nothing is dropped, thinned out or merged however many snapshots there are."""
    tr = core.tracker()
    h = 2.0**-10
    nl = lambda u: 0.05 * np.cos(u)
    u0 = common.U3.astype(complex)
    ref = None
    for fr in freqs:
        if variant[0] in common.AS:
            conf = common.config(epsilon=1e-2, incr_f=1e9)
            sol = common.make(variant, common.op3(variant[1]), common.NL(nl, budget=10**7), config=conf)
            r = sol.evolve(u0, 0.0, steps * h, h_init=h, store_freq=fr)
        else:
            sol = common.make(variant, common.op3(variant[1]), common.NL(nl, budget=10**7))
            r = sol.evolve(u0, 0.0, steps * h, h, store_freq=fr)
        want = np.arange(0, steps + 1, fr) * h
        if len(sol.t) != len(want) or len(sol.u) != len(want):
            core.fail("store_freq=%d: %d times and %d states stored, expected %d of %d steps" % (fr, len(sol.t), len(sol.u), len(want), steps))
        if np.max(np.abs(np.array(sol.t, float) - want)) > 1e-14 * steps * h:
            core.fail("store_freq=%d: times are not the times of every %d-th step of %d" % (fr, fr, steps))
        if ref is None:
            ref = (np.array(sol.u), np.array(r))
            common.expect_same(ref[0][-1], r, "last of %d snapshots" % len(want))
            # every snapshot follows from the previous one by one step
            one = common.make(variant, common.op3(variant[1]), common.NL(nl, budget=10**7))
            for k in list(range(0, steps, max(1, steps // 400))):
                one.reset()
                x = one.step(sol.u[k], h)
                common.close(sol.u[k + 1], x[0] if variant[0] in common.AS else x, 1e-9, "snapshot %d of %d against one step from the previous one" % (k + 1, steps))
            # equal neighbours: only if the solution stands still there
            for k in np.flatnonzero(np.all(ref[0][1:] == ref[0][:-1], axis=1))[:100]:
                one.reset()
                x = one.step(ref[0][k], h)
                common.close(ref[0][k], x[0] if variant[0] in common.AS else x, 1e-14, "snapshots %d and %d of %d are the same state" % (k, k + 1, len(want)))
        else:
            common.expect_same(r, ref[1], "store_freq=%d: returned state" % fr)
            common.expect_same(np.array(sol.u), ref[0][::fr], "store_freq=%d: snapshots against every %d-th one of %d" % (fr, fr, steps))
        tr.ev("%s/%d" % (fr, steps), n=len(want))


def set_quiet(variant):
    logging.getLogger("rkstiff." + variant[0]).setLevel("WARNING")


def later(variant, prob, depth):
    """Snapshots, times and returned states survive every sequence of later uses."""
    tr = core.tracker()
    nl, u0, t0, tf, h = problem(prob)
    adaptive = variant[0] in common.AS

    def op_evolve(s):
        run(s, variant, prob)

    def op_other(s):
        u = common.big(OTHER1)
        s.evolve(u, 0.0, 3 * h, h_init=h) if adaptive else s.evolve(u, 0.0, 3 * h, h)

    def op_nostore(s):
        u = common.big(OTHER2)
        s.evolve(u, 0.0, 2 * h, h_init=h, store_data=False) if adaptive else s.evolve(u, 0.0, 2 * h, h, store_data=False)

    def op_step(s):
        s.step(s.u[-1] if len(s.u) else u0.astype(complex), h / 2)

    def op_step2(s):
        s.step(u0.astype(complex) * 2, h)

    def op_reset(s):
        s.reset()

    ops = dict(evolve=op_evolve, other=op_other, nostore=op_nostore, step=op_step, step2=op_step2, reset=op_reset)
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            sol = build(variant, nl)
            r = run(sol, variant, prob)
            tl, ul = sol.t, sol.u
            keep_t = list(tl)
            keep_u = [np.array(x, copy=True) for x in ul]
            arrays = list(ul)
            rk = np.array(r, copy=True)
            for o in seq:
                ops[o](sol)
            tr.ev("/".join(seq))
            what = "after evolve then %s" % (seq,)
            for k, (a, b) in enumerate(zip(arrays, keep_u)):
                common.expect_same(a, b, "%s: snapshot %d" % (what, k))
            common.expect_same(r, rk, "%s: returned state" % what)
            if list(tl) != keep_t or len(ul) != len(arrays) or any(x is not y for x, y in zip(ul, arrays)):
                core.fail("%s: the previously obtained t/u lists changed" % what)
            if len({id(x) for x in arrays}) != len(arrays):
                core.fail("%s: snapshots share one array" % what)


def runs(variant, prob, depth):
    """Several runs of one solver with different storage settings: each stores its own trajectory and nothing else."""
    tr = core.tracker()
    nl = problem(prob)[0]
    adaptive = variant[0] in common.AS
    ts, us = trajectory(variant, prob)
    n = len(ts) - 1
    slack = 1e-15 * (n + 4) * np.max(np.abs(ts))
    ops = {"s1": (True, 1), "s2": (True, 2), "s3": (True, 3), "n1": (False, 1), "n2": (False, 2), "big": (True, 10**6)}
    between = {
        "": lambda s: None,
        "step": lambda s: s.step(common.big(OTHER1), 0.1),
        "reset": lambda s: s.reset(),
        "debug": lambda s: s.set_loglevel("DEBUG"),
        "empty": lambda s: s.evolve(common.big(OTHER1), 5.0, 5.0) if adaptive else None,
        "refused": lambda s: common.attempt(lambda: s.evolve(common.big(OTHER1), 0.0, 1.0, -0.5)),
        "held": lambda s: (s.t, s.u),
    }
    want = None
    for seq in itertools.product(ops, repeat=depth):
        for bname, mid in between.items():
            sol = build(variant, nl)
            for k, o in enumerate(seq):
                if k:
                    mid(sol)
                store, fr = ops[o]
                r = run(sol, variant, prob, store_data=store, store_freq=fr)
                what = "run %d of %s (between: %s)" % (k, seq, bname)
                if want is None:
                    want = np.array(r, copy=True)
                common.expect_same(r, want, what + ": returned state")
                idx = list(range(0, n + 1, fr)) if store else []
                if len(sol.t) != len(idx) or len(sol.u) != len(idx):
                    core.fail("%s: %d times and %d states stored, expected %d" % (what, len(sol.t), len(sol.u), len(idx)))
                for j, i in enumerate(idx):
                    if abs(sol.t[j] - ts[i]) > slack:
                        core.fail("%s: snapshot %d has t=%r, step %d is at %r" % (what, j, sol.t[j], i, ts[i]))
                    common.close(sol.u[j], us[i], 1e-9, "%s: snapshot %d" % (what, j))
            tr.ev("%s/%s" % ("/".join(seq), bname))
            tr.transitions += depth
    set_quiet(variant)


def cases(tier):
    big = tier == "thorough"
    for v in common.VARIANTS:
        n = (16500 if big else 2500) if v[1] == "full" else (70000 if big else 5000)
        yield "many-%s" % common.vname(v), lambda v=v, n=n: many(v, n, (1, 2, 7, 1000, 1023, 4096))
        k = 500 if v[1] == "diag" else 12
        for p in ("short", "cplx"):
            yield "large-%s-%s" % (common.vname(v), p), common.sized(k, lambda v=v, p=p: (settings(v, p, ("WARNING", "DEBUG"), [2, 3]), later(v, p, 1)))
        for p in PROBS:
            if p == "long":
                freqs = [2, 3, 50, 99, 100, 101, 129, 130, 131]
                levels = ("INFO", "DEBUG")
            else:
                freqs, levels = None, ("WARNING", "DEBUG", "INFO", "CRITICAL", 1, "late")
            if v[1] == "full" and not big:
                levels = levels[:2]
            yield "settings-%s-%s" % (common.vname(v), p), lambda v=v, p=p, l=levels, f=freqs: settings(v, p, l, f)
            if p in ("short", "cplx"):
                yield "runs-%s-%s" % (common.vname(v), p), lambda v=v, p=p: runs(v, p, 3 if big else 2)
            if p != "long":
                yield "later-%s-%s" % (common.vname(v), p), lambda v=v, p=p: later(v, p, 3 if big else 2)
