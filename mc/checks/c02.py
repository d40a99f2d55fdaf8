"""C02: the step-size law of adaptive solvers."""
import itertools
import math

import numpy as np

from .. import common, core, ctl, ref
from .c01 import PROBLEMS

LEVEL = "model_checking"
RULE = (
    "A case is a (configuration, order, alphabet) with every answer sequence up to the depth bound, a configuration-"
    "change history, or a real solver on one problem; non-trivial: at least one step size was decided."
)
ASSUMPTIONS = [
    "decr_f >= 0.25 (below it the two clamps contradict each other)",
    "scripted stages are plugged in through the documented subclass interface",
    "factors within 1e-12 of a switching point are not judged",
]

EXTRA = dict(ctl.CFGS)
EXTRA["edge"] = dict(epsilon=1e-2, incr_f=3.95, decr_f=0.999, safety_f=0.99, adapt_cutoff=0.01)
ALL = dict(EXTRA, **ctl.XCFGS)


def compare(sol, r, m, what):
    got = [a[1] for a in sol.attempts]
    if len(got) != len(m["attempts"]) or not all(ctl.feq(x, y) for x, y in zip(got, m["attempts"])):
        core.fail("%s: attempted steps %s, the law gives %s (factors %s)" % (what, got, m["attempts"], m["factors"]))
    if m["end"] == "accept":
        if not ctl.feq(r[1], m["h"]):
            core.fail("%s: reported step %r, accepted step is %r" % (what, r[1], m["h"]))
        if not ctl.feq(r[2], m["suggest"]):
            core.fail("%s: suggested step %r, the law gives %r (factors %s)" % (what, r[2], m["suggest"], m["factors"]))


def near_switch(m, cfg):
    return any(
        math.isfinite(s) and any(abs(s / x - 1) < 1e-12 for x in (1.0, cfg["incr_f"])) for s in m["factors"]
    )


def sequences(cname, q, alphabet, depth, mode, h0):
    cfg = ctl.full_cfg(ALL[cname])
    conf = common.config(**ALL[cname])
    tr = core.tracker()
    for pre in itertools.product(alphabet, repeat=depth):
        ans = [ctl.answer(k, i, cfg, q, mode) for i, k in enumerate(pre)] + [ctl.answer("s2", 99, cfg, q, mode)] * 60
        m = ctl.model_step(h0, iter(ans), q, cfg)
        used = len(m["attempts"])
        if used < depth and pre[used:] != (alphabet[0],) * (depth - used):
            continue  # same path as its canonical continuation
        if near_switch(m, cfg) or m["end"] != "accept":
            continue
        sol = ctl.scripted(lambda k, x, h: tuple(v.copy() for v in ans[k]), q, conf)
        r = sol.step(np.ones(3), h0)
        tr.ev("%g/%s" % (h0, "/".join(pre[:used])))
        tr.transitions += used
        tr.traces += 1
        h = h0
        for i, a in enumerate(m["attempts"]):
            tr.state((cname, q, mode, i, "%.9e" % a, pre[i] if i < depth else "s2"))
        compare(sol, r, m, "answers %s from h=%g" % (pre[:used], h0))


def fine(cname, q):
    """Single decisions with factors on a fine logarithmic grid: every clamp and both sides of every switch."""
    cfg = ctl.full_cfg(ALL[cname])
    conf = common.config(**ALL[cname])
    tr = core.tracker()
    grid = [10 ** (k / 60.0) for k in range(-120, 121)]
    for x in (0.25, cfg["decr_f"], 1.0, cfg["incr_f"], 4.0):
        grid += [x * (1 + 1e-10), x * (1 - 1e-10), x * (1 + 1e-6), x * (1 - 1e-6), x * (1 + 1e-3), x * (1 - 1e-3)]
    u = np.array([3.0, -4.0, 0.0])
    for s in grid:
        for h0 in (1e-13, 1e-9, 0.37, 250.0, 1e7):
            en = cfg["epsilon"] * 5.0 * (cfg["safety_f"] / s) ** q
            first = (u, np.array([0.6 * en, 0.8j * en, 0.0]))
            ans = [first, ctl.answer("s2", 1, cfg, q)]
            m = ctl.model_step(h0, iter(ans), q, cfg)
            if near_switch(m, cfg) or m["end"] != "accept":
                continue
            sol = ctl.scripted(lambda k, x, h: tuple(v.copy() for v in ans[k]), q, conf)
            r = sol.step(np.ones(3), h0)
            tr.ev("%.6e/%g" % (s, h0))
            tr.transitions += len(m["attempts"])
            tr.traces += 1
            tr.state((cname, q, "%.6e" % s, h0))
            compare(sol, r, m, "factor %.9g with h=%g" % (s, h0))


def deep(cname, q, period, upto):
    """Every periodic sequence of rejections of every length, followed by each kind of acceptance."""
    cfg = ctl.full_cfg(dict(ALL[cname], minh=1e-300))
    conf = common.config(**dict(ALL[cname], minh=1e-300))
    tr = core.tracker()
    for seq in itertools.product(("s.05", "s.28", "s.6", "s.9", "s.99", "errnan", "uinf"), repeat=period):
        for n in range(1, upto + 1):
            for last in ("s1.01", "s1.3", "s2", "s3.9", "s9", "exact"):
                keys = [seq[i % period] for i in range(n)] + [last]
                ans = [ctl.answer(k, i % 7, cfg, q, "spread" if n % 2 else "one") for i, k in enumerate(keys)]
                ans += [ctl.answer("s2", i % 7, cfg, q) for i in range(60)]  # should the last one be rejected in this configuration
                m = ctl.model_step(0.4, iter(ans), q, cfg)
                if near_switch(m, cfg) or m["end"] != "accept" or len(m["attempts"]) != n + 1:
                    continue
                sol = ctl.scripted(lambda k, x, h: tuple(v.copy() for v in ans[k]), q, conf)
                r = sol.step(np.ones(3), 0.4)
                tr.ev("%s%d%s" % (seq, n, last))
                tr.transitions += n + 1
                tr.traces += 1
                tr.state((cname, q, seq, n, last))
                compare(sol, r, m, "%d rejections (%s) and then %s" % (n, "/".join(seq), last))


PATTERNS = {
    "big": ("s9",),
    "lin": ("exact",),
    "keep": ("s1.01",),
    "some": ("s1.3",),
    "rej": ("s.6", "s2"),
    "bad": ("errnan", "s.9", "s3.9"),
}


def chain(cname, q, depth, length):
    """Steps that are each given the previous suggestion: every sequence of step patterns, and long periodic ones."""
    cfg = ctl.full_cfg(dict(ALL[cname], minh=1e-300))
    conf = common.config(**dict(ALL[cname], minh=1e-300))
    tr = core.tracker()
    seqs = list(itertools.product(PATTERNS, repeat=depth))
    for a in itertools.product(PATTERNS, repeat=2):
        seqs.append((a * length)[:length])
    for p in PATTERNS:  # one pattern for long, then each other one
        for o in PATTERNS:
            seqs.append((p,) * length + (o,))
    for seq in seqs:
        sol = ctl.scripted(None, q, conf)
        h = 0.37
        for j, p in enumerate(seq):
            ans = [ctl.answer(k, (i + j) % 7, cfg, q, ("one", "spread")[j % 2]) for i, k in enumerate(PATTERNS[p])]
            ans += [ctl.answer("s2", i % 7, cfg, q) for i in range(60)]
            m = ctl.model_step(h, iter(ans), q, cfg)
            if near_switch(m, cfg) or m["end"] != "accept":
                break
            sol.attempts = []
            sol.script = lambda k, x, hh: tuple(v.copy() for v in ans[k])
            r = sol.step(np.ones(3), h)
            tr.transitions += len(m["attempts"])
            compare(sol, r, m, "step %d of %s" % (j, seq if len(seq) < 10 else "%s..., %s" % (seq[:3], seq[-2:])))
            tr.state((cname, q, seq[: j + 1] if len(seq) == depth else (seq[:2], seq[-1], j)))
            h = r[2]
            if not 1e-100 < h < 1e100:
                h = 0.37
        tr.ev("%s/%d" % (seq[:depth], len(seq)) + seq[-1])
        tr.traces += 1


SETTINGS = [
    dict(),
    dict(epsilon=1e-7),
    dict(incr_f=1.9),
    dict(decr_f=0.4),
    dict(safety_f=0.5),
    dict(adapt_cutoff=0.6),
    dict(epsilon=1e-2, incr_f=5.0, decr_f=0.3, safety_f=1.0, adapt_cutoff=0.0),
]


def change_history(depth, how):
    """The configuration is changed before each step (in place or by replacing it): it governs that step."""
    tr = core.tracker()
    q = 4
    u = np.array([3.0, 1.0, -0.5j])
    errs = [np.array([a, b, c]) for a, b, c in ((1e-3, 1e-3, 0), (2e-5, 1e-5, 3e-5), (0.3, 0, 0), (1e-9, 0, 2e-7))]
    for seq in itertools.product(range(len(SETTINGS)), repeat=depth):
        conf = common.config()
        sol = ctl.scripted(None, q, conf)
        h = 0.5
        for j, i in enumerate(seq):
            cfg = ctl.full_cfg(SETTINGS[i])
            if how == "set":
                for k, v in cfg.items():
                    setattr(sol.config, k, v)
            else:
                sol.config = common.config(**SETTINGS[i])
            ans = [(u, errs[(j + k) % 4]) for k in range(4)] + [(u, 0 * u)]
            m = ctl.model_step(h, iter(ans), q, cfg)
            sol.attempts = []
            sol.script = lambda k, x, hh, ans=ans: tuple(v.copy() for v in ans[k])
            r = sol.step(np.ones(3), h)
            tr.transitions += 1
            tr.state((how, seq[: j + 1]))
            compare(sol, r, m, "settings %s (%s), step %d" % ([SETTINGS[x] for x in seq[: j + 1]], how, j))
            h = 0.5
        tr.ev("%s/%s" % (how, seq))
        tr.traces += 1


def mid_change():
    """A change made while a step is being attempted governs the decisions after it."""
    tr = core.tracker()
    q = 4
    u = np.array([3.0, 1.0, -0.5j])
    for i, a in enumerate(SETTINGS):
        for j, b in enumerate(SETTINGS):
            conf = common.config(**a)
            ca, cb = ctl.full_cfg(a), ctl.full_cfg(b)
            e0, e1 = np.array([30.0, 0, 0]), np.array([1e-4, 1e-5, 0])
            sol = ctl.scripted(None, q, conf)

            def script(k, x, h):
                if k == 1:
                    for n, v in cb.items():
                        setattr(conf, n, v)
                return u.copy(), (e0, e1, 0 * u, 0 * u)[k].copy()

            sol.script = script
            s0 = ref.factor(u, e0, q, ca)
            h1 = 0.5 * ref.reject_factor(s0, ca)
            m = ctl.model_step(h1, iter([(u, e1), (u, 0 * u)]), q, cb)
            m["attempts"] = [0.5] + m["attempts"]
            m["factors"] = [s0] + m["factors"]
            r = sol.step(np.ones(3), 0.5)
            tr.ev("%d/%d" % (i, j))
            tr.transitions += len(m["attempts"])
            tr.traces += 1
            tr.state((i, j))
            compare(sol, r, m, "settings %s changed to %s during the step" % (a, b))


def real(variant, pname, cname, steps):
    """Recorded attempts and suggestions of the real solvers against the law, black box and recorded."""
    d, a, u0, nl = PROBLEMS[pname]
    name, rep = variant
    if rep == "diag":
        if d is None:
            d = np.diag(a).copy()
        L = d
    else:
        L = a if a is not None else np.diag(d)
    kw = EXTRA[cname]
    cfg = ctl.full_cfg(kw)
    q = ref.TABLEAUX[name]["q"]
    tr = core.tracker()
    for h0 in (3.0, 0.3, 0.01):
        cls = ctl.recorder(common.classes()[name])
        sol = common.make(variant, L.copy(), common.NL(nl), cls=cls, config=common.config(**kw))
        bare = common.make(variant, L.copy(), common.NL(nl), config=common.config(**kw))
        u, h = u0.astype(complex), h0
        for k in range(steps):
            sol.attempts = []
            r = common.attempt(lambda: sol.step(u, h))
            rb = common.attempt(lambda: bare.step(u, h))
            tr.ev("%g/%d" % (h0, k))
            ans = [(x[2], x[3]) for x in sol.attempts]
            tr.transitions += len(ans)
            tr.state((variant, pname, cname, h0, k))
            if not ans:
                break
            m = ctl.model_step(h, iter(ans + [(np.ones(3), np.zeros(3))] * 60), q, cfg)
            if near_switch(m, cfg):
                break
            if r[0] != "ok" or rb[0] != "ok":
                break
            compare(sol, r[1], m, "step %d from h=%g" % (k, h))
            if rb[1][1] != r[1][1] or rb[1][2] != r[1][2]:
                core.fail("observed and unobserved solver differ in step %d: %s / %s" % (k, r[1][1:], rb[1][1:]))
            # the error estimate itself is the published one
            w = ctl.ref_step(name, L, nl, u, h, cfg)
            if w["sharp"] and w["end"] == "accept":
                if not ctl.feq(r[1][1], w["h"], 1e-6) or not ctl.feq(r[1][2], w["suggest"], 1e-6):
                    core.fail(
                        "step %d from h=%g: accepted %r and suggested %r, reference scheme and law give %r and %r"
                        % (k, h, r[1][1], r[1][2], w["h"], w["suggest"])
                    )
            u, h = r[1][0], r[1][2]
        tr.traces += 1


def cases(tier):
    big = tier == "thorough"
    alpha = ["s2", "s.05", "s.28", "s.6", "s.9", "s.99", "errnan", "uinf"]
    acc = ["s1.01", "s1.3", "s3.9", "s9", "exact", "s.6", "s.9"]
    for cname in EXTRA:
        for q in (4, 5):
            yield "fine-%s-%d" % (cname, q), lambda c=cname, q=q: fine(c, q)
            for mode in ("one", "spread"):
                yield "rej-%s-%d-%s" % (cname, q, mode), lambda c=cname, q=q, m=mode: sequences(c, q, alpha, 5 if big else 3, m, 0.4)
                yield "acc-%s-%d-%s" % (cname, q, mode), lambda c=cname, q=q, m=mode: sequences(c, q, acc, 4 if big else 3, m, 17.0)
    for i, cname in enumerate(ctl.XCFGS):
        for q in (4, 5) if big else (4 + i % 2,):
            yield "fine-%s-%d" % (cname, q), lambda c=cname, q=q: fine(c, q)
            yield "rej-%s-%d" % (cname, q), lambda c=cname, q=q: sequences(c, q, alpha, 3 if big else 2, "one", 0.4)
            yield "acc-%s-%d" % (cname, q), lambda c=cname, q=q: sequences(c, q, acc, 3 if big else 2, "spread", 17.0)
    for cname in EXTRA if not big else ALL:
        for q in (4, 5):
            yield "chain-%s-%d" % (cname, q), lambda c=cname, q=q: chain(c, q, 4 if big and c in EXTRA else 3, 400 if big else 130)
    for cname in EXTRA if not big else ALL:
        for q in (4, 5):
            yield "deep-%s-%d-1" % (cname, q), lambda c=cname, q=q: deep(c, q, 1, 50)
            yield "deep-%s-%d-2" % (cname, q), lambda c=cname, q=q: deep(c, q, 2, 50 if big else 9)
    for pre in ctl.HISTORIES:
        for cname in EXTRA:
            yield "used-%s-%s" % (pre, cname), ctl.used(
                pre, lambda c=cname: (fine(c, 4), sequences(c, 5, alpha, 3 if big else 2, "one", 0.4), sequences(c, 4, acc, 3 if big else 2, "spread", 17.0), chain(c, 4, 2, 12)))
    for how in ("set", "replace"):
        yield "change-%s" % how, lambda h=how: change_history(4 if big else 3, h)
    yield "mid-change", mid_change
    for v in common.VAS:
        for p in PROBLEMS:
            for c in EXTRA:
                yield "real-%s-%s-%s" % (common.vname(v), p, c), lambda v=v, p=p, c=c: real(v, p, c, 12 if big else 5)
