"""C01: acceptance of adaptive steps."""
import itertools

import numpy as np

from .. import common, core, ctl, ref

LEVEL = "model_checking"
RULE = (
    "A case is a (configuration, order) with every sequence of answers (candidate, error estimate) up to the depth "
    "bound, or a real solver on one problem; non-trivial: the path contains at least one decision of the controller."
)
ASSUMPTIONS = [
    "scripted stages are plugged in through the documented subclass interface",
    "step factors within 1e-12 (scripted) or 1e-6 (real solvers) of 1 are not judged",
    "magnitudes whose squares overflow or underflow are not explored",
]


# -- candidates / errors at the level of single decisions -----------------------------
def candidates(cfg):
    cut = cfg["adapt_cutoff"]
    yield "real", np.array([1.0, -0.5, 0.3])
    yield "neglarge", np.array([0.001, -4.0, 2.0])
    yield "complex", np.array([1j, 3.0 + 4.0j, -2.0 + 1.0j])
    yield "zero", np.zeros(3)
    yield "onezero", np.array([0.0, 2.0, 0.0])
    if cut > 0:
        yield "aboveC", np.array([5.0, -5.0 * cut * 1.001, 5.0j * cut * 1.1])
        yield "belowC", np.array([5.0, -5.0 * cut * 0.999, 5.0j * cut * 0.9])
        yield "atC", np.array([4.0, 4.0 * cut * 1.5, 4.0 * cut / 1.5])
    yield "tiny", np.array([1e-30, -2e-30, 5e-31j])
    yield "huge", np.array([1e30, -2e30, 5e29j])
    yield "single", np.array([-3.0])
    yield "five", np.array([1.0, 2.0, -3.0, 4.0j, -5.0])
    yield "inf", np.array([np.inf, 1.0, 1.0])
    yield "cinf", np.array([1.0, 1.0, complex(0, -np.inf)])
    yield "nan", np.array([1.0, np.nan, 1.0])
    yield "cnan", np.array([1.0, 2.0, complex(1.0, np.nan)])


def errors(u, q, cfg):
    """Error vectors around the threshold on every subset of the modes."""
    n = len(u)
    mags = np.abs(u)
    top = np.max(mags)
    ok = np.isfinite(top) and top > 0
    sel = mags / top > cfg["adapt_cutoff"] if ok else np.ones(n, bool)
    un = float(np.linalg.norm(u[sel])) if ok else 1.0
    thr = cfg["epsilon"] * un * cfg["safety_f"] ** q
    for sub in range(2**n):
        idx = [i for i in range(n) if sub >> i & 1]
        if not idx:
            yield "none", np.zeros(n)
            continue
        for f in (1 / 1.001, 1.001, 0.3, 3.0, 1e-12, 1e12, 1 - 1e-10, 1 + 1e-10, 1 - 1e-7, 1 + 1e-7):
            e = np.zeros(n, complex)
            for m, i in enumerate(idx):
                e[i] = thr * f / np.sqrt(len(idx)) * (1, -1, 1j)[m % 3]
            yield "%s*%.12g" % (idx, f), e
    e = np.zeros(n)
    for i in range(n):
        for bad in (np.nan, np.inf, -np.inf):
            e2 = e.copy()
            e2[i] = bad
            yield "bad%d" % i, e2


ALL = dict(ctl.CFGS, **ctl.XCFGS)


def decisions(cname, q):
    cfg = ctl.full_cfg(ALL[cname])
    conf = common.config(**ALL[cname])
    tr = core.tracker()
    good = (np.array([1.0, 2.0, 3.0]), np.zeros(3))
    for uname, u in candidates(cfg):
        for ename, e in errors(u, q, cfg):
            s = ref.factor(u, e, q, cfg)
            if abs(s - 1) < 1e-12:
                continue
            accept = (not np.isnan(s)) and s >= 1
            sol = ctl.scripted(lambda n, x, h, u=u, e=e: (u.copy(), e.copy()) if n == 0 else good, q, conf)
            unew, h, hs = sol.step(np.ones(len(u)), 0.5)
            tr.ev("%s/%s" % (uname, ename))
            tr.transitions += 1
            tr.traces += 1
            tr.state((cname, q, uname, ename, accept))
            got = len(sol.attempts) == 1
            if got != accept:
                core.fail(
                    "candidate %s=%s, error %s=%s, step factor %.13g: %s although it should be %s"
                    % (uname, u, ename, e, s, *(("accepted", "rejected") if got else ("rejected", "accepted")))
                )
            if got and not common.same(unew, u):
                core.fail("accepted candidate %s but returned %s" % (u, unew))


def sequences(cname, q, depth, alphabet, mode, turn=0):
    """Every answer sequence; the returned state must be the first acceptable candidate.

    With ``turn`` the modes are renumbered from attempt to attempt: other modes are the large and the masked ones.
    """
    cfg = ctl.full_cfg(ctl.CFGS[cname])
    conf = common.config(**ctl.CFGS[cname])
    tr = core.tracker()
    for n in range(depth):
        for pre in itertools.product(alphabet, repeat=n + 1):
            ans = [tuple(np.roll(x, turn * i) for x in ctl.answer(k, i, cfg, q, mode)) for i, k in enumerate(pre)]
            dec = [ctl.decision(k, a[0], a[1], q, cfg)[0] for k, a in zip(pre, ans)]
            first = dec.index(True) if True in dec else None
            if first is not None and first != n:
                continue  # covered by the shorter path
            if first is None and n + 1 < depth:
                continue  # prefix of longer paths
            if first is None:
                ans.append(ctl.answer("s1.3", 77, cfg, q, mode))
                first = n + 1
            sol = ctl.scripted(lambda k, x, h: tuple(np.array(v) for v in ans[min(k, len(ans) - 1)]), q, conf)
            u0 = np.array([9.0, 8.0, 7.0])
            unew, h, hs = sol.step(u0, 0.25)
            tr.ev("/".join(pre))
            tr.transitions += first + 1
            tr.traces += 1
            for i in range(first + 1):
                tr.state((cname, q, mode, pre[: i + 1]))
            if len(sol.attempts) != first + 1:
                core.fail("answers %s: %d attempts made, %d expected" % (pre, len(sol.attempts), first + 1))
            if not common.same(unew, ans[first][0]):
                core.fail("answers %s: returned %s instead of the accepted candidate %s" % (pre, unew, ans[first][0]))
            if any(a[0] is not u0 and not common.same(a[0], u0) for a in sol.attempts):
                core.fail("answers %s: a retry did not start from the state of the step" % (pre,))
            if h != sol.attempts[first][1]:
                core.fail("answers %s: reports h=%r, the accepted attempt used %r" % (pre, h, sol.attempts[first][1]))


def patience(cname, q, kinds):
    """However many attempts (and steps) went before, the next candidate is judged by the same rule."""
    kw = dict(ALL[cname], minh=1e-300)
    cfg = ctl.full_cfg(kw)
    conf = common.config(**kw)
    tr = core.tracker()
    finals = [("s=%g" % s, s) for s in (0.25, 0.9, 0.99, 0.999, 0.9999, 1.0001, 1.001, 1.01, 2.0)] + [("exact", 0)]
    one = ctl.scripted(None, q, conf)  # lives through all of it
    for n in range(0, 50):
        for fname, s in finals:
            ans = [ctl.answer(kinds[i % len(kinds)], i % 7, cfg, q, ("one", "spread")[i % 2]) for i in range(n)]
            u = np.array([0.5, -3.0, 4.0j])
            e = np.zeros(3, complex)
            if s:
                e[1:] = cfg["epsilon"] * ref.masked_norm(u, cfg) * (cfg["safety_f"] / s) ** q * np.array([0.6, 0.8j])
            ans += [(u, e), ctl.answer("s2", 3, cfg, q), ctl.answer("s2", 4, cfg, q)]
            want = n if ref.factor(u, e, q, cfg) >= 1 else n + 1
            for sol in (one, ctl.scripted(None, q, conf)):
                sol.attempts = []
                sol.script = lambda k, x, h: tuple(np.array(v) for v in ans[k])
                r = sol.step(np.ones(3), 0.25)
                tr.ev("%d/%s/%s" % (n, fname, sol is one))
                tr.transitions += want + 1
                tr.traces += 1
                tr.state((cname, q, kinds, n, fname))
                if len(sol.attempts) != want + 1 or not common.same(r[0], ans[want][0]):
                    core.fail(
                        "%d rejections, then a candidate with factor %s: %d attempts instead of %d, returned %s"
                        % (n, fname, len(sol.attempts), want + 1, r[0])
                    )


def sizes(cname, q):
    """States with very many modes: the norms count every mode that is not masked and no other."""
    cfg = ctl.full_cfg(ALL[cname])
    conf = common.config(**ALL[cname])
    tr = core.tracker()
    cut = cfg["adapt_cutoff"]
    good = ctl.answer("s2", 0, cfg, q)
    for n in (1, 2, 5, 63, 64, 65, 1000, 4097, 70001):
        k = np.arange(n)
        states = {
            "flat": np.ones(n),
            "one": np.where(k == n // 2, 3.0, 0.0),
            "decay": np.maximum(np.exp(-k / 20.0), 1e-300),
            "edge": np.where(k % 2 == 0, 1.0, 1.01 * cut if cut > 0 else 0.5) * np.exp(1j * k),
            "under": np.where(k == n - 1, -1.0, 0.99 * cut if cut > 0 else 0.5) * np.exp(2j * k),
        }
        for uname, u in states.items():
            m = np.abs(u) / np.max(np.abs(u))
            if np.any(np.abs(m - cut) < 1e-6):
                continue
            sel = np.flatnonzero(m > cut)
            un = float(np.sqrt(np.sum(np.abs(u[sel]) ** 2)))
            for where in ("first", "last", "all", "alternating"):
                idx = {"first": sel[:1], "last": sel[-1:], "all": sel, "alternating": sel[::2]}[where]
                for s in (0.9, 0.9995, 1.0005, 1.2):
                    e = np.where(m > cut, 0.0, 1e8) * (1 if where == "all" else 0) + 0j
                    e[idx] = cfg["epsilon"] * un * (cfg["safety_f"] / s) ** q / np.sqrt(len(idx))
                    sol = ctl.scripted(lambda a, x, h: (u.copy(), e.copy()) if a == 0 else good, q, conf)
                    r = sol.step(np.ones(n), 0.5)
                    tr.ev("%d/%s/%s/%g" % (n, uname, where, s))
                    tr.transitions += 1
                    tr.traces += 1
                    tr.state((cname, q, n, uname, where, s))
                    if (len(sol.attempts) == 1) != (s >= 1):
                        core.fail(
                            "%d modes (%s), error on %s of them, step factor %g: %s"
                            % (n, uname, where, s, "accepted" if s < 1 else "rejected")
                        )


# -- real solvers ----------------------------------------------------------------------
PROBLEMS = {
    "osc": (np.array([-1.0, -6.0, 0.25 + 2.0j]), None, np.array([0.8, -0.5, 0.3]), common.nl3),
    "masked": (np.array([-1.0, -30.0, 2.0j]), None, np.array([1.0, 1e-3, -0.6]), lambda u: 0.9 * u * np.abs(u) ** 2 * np.array([1, 50, 1])),
    "single": (np.array([-3.0]), None, np.array([0.7]), lambda u: np.cos(2 * u)),
    "full": (None, common.A3, common.U3, common.nl3),
}


def real(variant, pname, cname, steps):
    d, a, u0, nl = PROBLEMS[pname]
    name, rep = variant
    if rep == "diag":
        if d is None:
            d = np.diag(a).copy()
        L = Lref = d
    else:
        L = Lref = a if a is not None else np.diag(d)
    kw = ctl.CFGS[cname]
    cfg = ctl.full_cfg(kw)
    q = ref.TABLEAUX[name]["q"]
    tr = core.tracker()
    for h0 in (2.0, 0.3, 0.02):
        # 1. public behaviour against the reference scheme and controller
        nlx = common.NL(nl)
        sol = common.make(variant, L.copy(), nlx, config=common.config(**kw))
        u, h = u0.astype(complex), h0
        for k in range(steps):
            want = ctl.ref_step(name, Lref, nl, u, h, cfg)
            r = common.attempt(lambda: sol.step(u, h))
            tr.ev("%g/%d" % (h0, k))
            tr.transitions += len(want["att"])
            tr.state((variant, pname, cname, h0, k))
            if want["end"] != "accept" or not want["sharp"]:
                break
            if r[0] != "ok":
                core.fail("step %d from h=%g: raised %s, reference accepts h=%g" % (k, h, r[1], want["h"]))
            if not ctl.feq(r[1][1], want["h"], 1e-6):
                core.fail(
                    "step %d proposed with h=%.17g: accepted h=%.17g, the tolerance test gives %.17g (factors %s)"
                    % (k, h, r[1][1], want["h"], want["att"])
                )
            common.close(r[1][0], want["state"], 1e-7, "accepted state of step %d" % k)
            u, h = r[1][0], r[1][2]
        tr.traces += 1
        # 2. recorded attempts against the rule
        cls = ctl.recorder(common.classes()[name])
        sol = common.make(variant, L.copy(), common.NL(nl), cls=cls, config=common.config(**kw))
        u, h = u0.astype(complex), h0
        for k in range(steps):
            sol.attempts = []
            r = common.attempt(lambda: sol.step(u, h))
            tr.ev("rec%g/%d" % (h0, k))
            dec = []
            for (_, ha, un, er) in sol.attempts:
                s = ref.factor(un, er, q, cfg)
                dec.append(None if abs(s - 1) < 1e-6 else ((not np.isnan(s)) and s >= 1))
            if r[0] != "ok":
                if True in dec:
                    core.fail("step %d raised %s although an attempt was acceptable: %s" % (k, r[1], dec))
                break
            if dec[-1] is False:
                core.fail("step %d returned a candidate that does not meet the tolerance" % k)
            if True in dec[:-1]:
                core.fail("step %d rejected a candidate that meets the tolerance: %s" % (k, dec))
            if not common.same(r[1][0], sol.attempts[-1][2]) or r[1][1] != sol.attempts[-1][1]:
                core.fail("step %d did not return its last candidate and step" % k)
            u, h = r[1][0], r[1][2]


def cases(tier):
    big = tier == "thorough"
    for cname in ctl.CFGS:
        for q in (4, 5) if not big else (1, 2, 3, 4, 5, 6):
            yield "decide-%s-q%d" % (cname, q), lambda c=cname, q=q: decisions(c, q)
    for i, cname in enumerate(ctl.XCFGS):
        for q in (4, 5) if big else (4 + i % 2,):
            yield "decide-%s-q%d" % (cname, q), lambda c=cname, q=q: decisions(c, q)
    alpha = ["s.6", "s.99", "s1.01", "s9", "exact", "errnan", "unan", "uinf"]
    rej = ["s.6", "s.99", "errnan", "errinf", "unan", "uinf", "s1.01"]
    for cname in ctl.CFGS:
        for q in (4, 5):
            for mode in ("one", "spread"):
                yield "seq-%s-q%d-%s" % (cname, q, mode), lambda c=cname, q=q, m=mode: sequences(c, q, 3, alpha, m)
                yield "deep-%s-q%d-%s" % (cname, q, mode), lambda c=cname, q=q, m=mode: sequences(c, q, 6 if big else 4, rej, m)
    for pre in ctl.HISTORIES:
        for cname in ctl.CFGS:
            yield "used-%s-%s" % (pre, cname), ctl.used(pre, lambda c=cname: (decisions(c, 4), sequences(c, 5, 3 if big else 2, alpha, "spread")))
    names = [("default", ("s.9",)), ("default", ("uinf", "s.6")), ("loose", ("s.99", "errnan")), ("tight", ("s.28", "unan")), ("grow", ("s.9", "errinf"))]
    for cname, kinds in names if not big else [(c, k) for c in ctl.CFGS for _, k in names]:
        for q in (4, 5):
            yield "patience-%s-%s-q%d" % (cname, "+".join(kinds), q), lambda c=cname, q=q, k=kinds: patience(c, q, k)
    for cname in list(ctl.CFGS) + (list(ctl.XCFGS) if big else []):
        for q in (4, 5):
            yield "sizes-%s-q%d" % (cname, q), lambda c=cname, q=q: sizes(c, q)
            for t in (1, 2):
                yield "turn%d-%s-q%d" % (t, cname, q), lambda c=cname, q=q, t=t: sequences(c, q, 4 if big else 3, alpha, "spread", t)
    for v in common.VAS:
        for p in PROBLEMS:
            for c in ("default", "tight", "loose", "grow"):
                yield "real-%s-%s-%s" % (common.vname(v), p, c), lambda v=v, p=p, c=c: real(v, p, c, 12 if big else 5)
