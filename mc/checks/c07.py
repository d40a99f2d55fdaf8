"""C07: evolve is independent of the history of the solver object."""
import itertools

import numpy as np

from .. import common, core

LEVEL = "fault_enumeration"
RULE = (
    "A case is a solver and operator form with all operation sequences up to the depth bound (or an exception at every "
    "evaluation) followed by every probe; non-trivial: the probe ran on a used object and on a new one."
)
ASSUMPTIONS = ["results of identical code on identical data are compared exactly"]

T = 0.6
H = 0.15


def problems(variant):
    L = common.op3(variant[1])
    return L, common.nl3


class Ctl:
    """Nonlinear function whose behaviour the driver switches between operations."""

    def __init__(self, fn):
        self.fn = fn
        self.calls = 0
        self.mode = None
        self.at = None
        self.args = []

    def arm(self, mode=None, at=None):
        self.calls, self.mode, self.at, self.args = 0, mode, at, []

    def __call__(self, u):
        k = self.calls
        self.calls += 1
        if k < 100:
            self.args.append(np.array(u))
        if k > 20000:
            raise core.Budget("evaluations")
        if self.mode == "raise" and k == self.at:
            raise common.Injected("evaluation %d" % k)
        if self.mode == "kbd" and k == self.at:
            raise KeyboardInterrupt()
        if self.mode == "nan" and k >= self.at:
            return self.fn(u) * np.nan
        if self.mode == "nan1" and k == self.at:
            return self.fn(u) * np.nan
        return self.fn(u)


def ev(sol, variant, u, t0, tf, h, **kw):
    if variant[0] in common.AS:
        return sol.evolve(u, t0, tf, h_init=h, **kw)
    return sol.evolve(u, t0, tf, h, **kw)


U1 = common.U3.astype(complex)
U2 = np.array([-1.5, 2.0 + 0.5j, 0.1])
U3r = np.array([0.3, 0.2, -0.9])


def operations(variant):
    adaptive = variant[0] in common.AS

    def stp(s, u, h):
        return s.step(u, h)[0] if adaptive else s.step(u, h)

    ops = {
        "evolve": lambda s, f: ev(s, variant, common.big(U1), 0.0, T, H),
        "evolve2": lambda s, f: ev(s, variant, common.big(U2), -1.0, -0.3, H / 2, store_freq=2),
        "evolve3": lambda s, f: ev(s, variant, common.big(U3r), 2.0, 2.0 + 2 * H, 2 * H, store_data=False),
        "step": lambda s, f: stp(s, common.big(U1), H),
        "stepbig": lambda s, f: stp(s, common.big(U2), 1.0),
        "chain": lambda s, f: stp(s, stp(s, common.big(U2), H), H),
        "reset": lambda s, f: s.reset(),
        "zero": lambda s, f: s.evolve(common.big(U2), 1.0, 1.0) if adaptive else stp(s, common.big(U2), 0.0),
    }
    if adaptive:
        def fail(s, f):
            f.arm("nan", 3)
            return ev(s, variant, common.big(U1), 0.0, T, H)

        def hiccup(s, f):
            f.arm("nan1", 4)
            return ev(s, variant, common.big(U1), 0.0, T, H)

        ops["fail"] = fail
        ops["hiccup"] = hiccup
    else:
        ops["refused"] = lambda s, f: ev(s, variant, common.big(U2), 0.0, H / 2, H)

    def exc(s, f):
        f.arm("raise", 2)
        return ev(s, variant, common.big(U2), 0.0, T, H)

    def badh(s, f):
        return stp(s, common.big(U1), np.nan)

    ops["exc"] = exc
    if variant[1] == "full" and not adaptive:
        ops["badh"] = badh
    return ops


PROBES = {
    "same": lambda s, v: ev(s, v, common.big(U1), 0.0, T, H),
    "other": lambda s, v: ev(s, v, common.big(U2), 0.0, 2 * H, 2 * H),
    "nosto": lambda s, v: ev(s, v, common.big(U3r), 0.5, 0.5 + T, H / 2, store_data=False),
}


def probe(sol, variant, name):
    r = PROBES[name](sol, variant)
    return np.array(r, copy=True), [float(x) for x in sol.t], [np.array(x, copy=True) for x in sol.u]


def step_probe(sol, variant):
    out = []
    u = common.big(U2)
    for h in (H, H, 2 * H):
        r = sol.step(u, h)
        if variant[0] in common.AS:
            out.append(np.array([r[1], r[2]]))
            r = r[0]
        out.append(np.array(r, copy=True))
        u = r
    return out


def fresh(variant, cfgs):
    L, fn = problems(variant)
    f = Ctl(fn)
    conf = common.config(epsilon=1e-5) if variant[0] in common.AS else None
    return common.make(variant, L, f, config=conf), f


def compare(got, want, what):
    common.expect_same(got[0], want[0], what)
    if got[1] != want[1]:
        core.fail("%s: times %s, a new solver gives %s" % (what, got[1], want[1]))
    if len(got[2]) != len(want[2]):
        core.fail("%s: %d snapshots, a new solver gives %d" % (what, len(got[2]), len(want[2])))
    for k, (a, b) in enumerate(zip(got[2], want[2])):
        common.expect_same(a, b, "%s: snapshot %d" % (what, k))


def do(ops, o, sol, f):
    f.arm()
    try:
        ops[o](sol, f)
    except core.Budget:
        raise
    except (Exception, KeyboardInterrupt):  # noqa: BLE001 - failing operations are part of the history
        pass
    f.arm()


def histories(variant, seqs):
    tr = core.tracker()
    ops = operations(variant)
    want, wstep = {}, None
    for p in PROBES:
        sol, f = fresh(variant, None)
        want[p] = probe(sol, variant, p)
    sol, f = fresh(variant, None)
    wstep = step_probe(sol, variant)
    for seq in seqs:
        for p in PROBES:
            sol, f = fresh(variant, None)
            for o in seq:
                do(ops, o, sol, f)
            tr.ev("%s/%s" % ("/".join(seq), p))
            compare(probe(sol, variant, p), want[p], "evolve (%s) after %s" % (p, list(seq)))
        sol, f = fresh(variant, None)
        for o in seq:
            do(ops, o, sol, f)
        sol.reset()
        if len(sol.t) or len(sol.u):
            core.fail("reset after %s left %d times and %d states" % (list(seq), len(sol.t), len(sol.u)))
        tr.ev("%s/step" % "/".join(seq))
        for k, (a, b) in enumerate(zip(step_probe(sol, variant), wstep)):
            common.expect_same(a, b, "step chain (item %d) after %s and reset" % (k, list(seq)))


def exceptions(variant, mode, target):
    """An exception at every evaluation of an operation, alone and followed by one more operation."""
    tr = core.tracker()
    ops = operations(variant)
    want = {}
    for p in PROBES:
        sol, f = fresh(variant, None)
        want[p] = probe(sol, variant, p)
    sol, f = fresh(variant, None)
    wstep = step_probe(sol, variant)
    sol, f = fresh(variant, None)
    f.arm()
    ops[target](sol, f)
    total = f.calls
    for k in range(total):
        for then in (None, "step", "reset", "evolve2"):
            for p in list(PROBES) + ["step"]:
                sol, f = fresh(variant, None)
                f.arm(mode, k)
                raised = False
                try:
                    ops[target](sol, f)
                except (common.Injected, KeyboardInterrupt):
                    raised = True
                except RuntimeError:
                    pass
                if not raised and mode in ("raise", "kbd"):
                    core.fail("an exception raised by the nonlinear function at evaluation %d was swallowed" % k)
                f.arm()
                if then:
                    do(ops, then, sol, f)
                tr.ev("%d/%s/%s" % (k, then, p))
                what = "%s interrupted at evaluation %d (%s), then %s, then " % (target, k, mode, then)
                if p == "step":
                    sol.reset()
                    for j, (a, b) in enumerate(zip(step_probe(sol, variant), wstep)):
                        common.expect_same(a, b, what + "reset and step chain (item %d)" % j)
                else:
                    compare(probe(sol, variant, p), want[p], what + p)


def reconfigured(variant):
    """Evolve after changes of the configuration object and back."""
    if variant[0] not in common.AS:
        return
    tr = core.tracker()
    want = None
    alts = [dict(epsilon=1e-2), dict(epsilon=1e-9), dict(incr_f=3.0, decr_f=0.5), dict(safety_f=0.3), dict(adapt_cutoff=0.5), dict(minh=1e-3)]
    for i, a in enumerate(alts):
        for b in alts:
            sol, f = fresh(variant, None)
            base = {k: getattr(sol.config, k) for k in ("epsilon", "incr_f", "decr_f", "safety_f", "adapt_cutoff", "minh")}
            for c in (a, b):
                for k, v in c.items():
                    setattr(sol.config, k, v)
                try:
                    ev(sol, variant, common.big(U1), 0.0, T, H)
                except RuntimeError:
                    pass
            for k, v in base.items():
                setattr(sol.config, k, v)
            tr.ev("%s/%s" % (a, b))
            got = probe(sol, variant, "same")
            if want is None:
                s2, _ = fresh(variant, None)
                want = probe(s2, variant, "same")
            compare(got, want, "evolve after runs with %s and %s and the settings restored" % (a, b))


def continued(variant, depth):
    """Runs started from stored or returned arrays of earlier runs of the object, from copies of them, and from an array
    the caller has overwritten in between; at the old end time and at other times."""
    tr = core.tracker()
    starts = ("u-1", "u0", "u1", "ret", "copy", "own")
    times = ("t-1", "t0", "far")

    def go(seq, make):
        """make(i): the solver for run i."""
        own = common.big(U1).copy()
        out = []
        sol = None
        r, t, u = own, [0.0], [own]
        for i, (freq, st, tm, reset) in enumerate(seq):
            sol = make(i)
            if i == 0:
                x, t0 = own, 0.0
            else:
                x = {"u-1": u[-1], "u0": u[0], "u1": u[min(1, len(u) - 1)], "ret": r, "copy": np.array(r, copy=True), "own": own}[st]
                t0 = {"t-1": t[-1], "t0": t[0], "far": 5.0}[tm]
                if st == "own":
                    own[:] = np.roll(own, 1) * 0.9 + 0.05
            if reset:
                sol.reset()
            r = ev(sol, variant, x, t0, t0 + T, H, store_data=freq > 0, store_freq=max(freq, 1))
            out.append((np.array(r, copy=True), [float(y) for y in sol.t], [np.array(y, copy=True) for y in sol.u]))
            if freq:
                t, u = list(sol.t), list(sol.u)
            # the caller may modify its own array; what was returned or stored stays as it is
        return out

    runs = [(f, s, t, 0) for f in (1, 3, 0) for s in starts for t in times]
    for first in ((1, "own", "t0", 0), (3, "own", "t0", 0), (0, "own", "t0", 0), (1000, "own", "t0", 0)):
        for tail in itertools.product(runs, repeat=depth) if depth == 1 else itertools.product(runs, runs[::5]):
            seq = (first,) + tail
            sol, f = fresh(variant, None)
            got = go(seq, lambda i: sol)
            want = go(seq, lambda i: fresh(variant, None)[0])
            for i, (a, b) in enumerate(zip(got, want)):
                compare(a, b, "run %d of %s (storage, start, time)" % (i, [x[:3] for x in seq]))
            tr.ev(str(seq), n=len(seq))


def cases(tier):
    big = tier == "thorough"
    for v in common.VARIANTS:
        names = list(operations(v))
        for first in names:
            seqs = [(first,)] + [(first, o) for o in names]
            if big:
                seqs += [(first, o, o2) for o in names for o2 in names]
            yield "hist-%s-%s" % (common.vname(v), first), lambda v=v, s=seqs: histories(v, s)
        for target in ("evolve", "stepbig", "chain"):
            for mode in ("raise",) + (("kbd",) if target == "stepbig" or big else ()) + (("nan1",) if v in common.VAS and (big or target == "stepbig") else ()):
                yield "exc-%s-%s-%s" % (common.vname(v), target, mode), lambda v=v, m=mode, t=target: exceptions(v, m, t)
        yield "continued-%s" % common.vname(v), lambda v=v: continued(v, 2 if big else 1)
        k = 100 if v[1] == "diag" else 12
        seqs = [(a, b) for a in ("evolve2", "chain", "exc", "fail") for b in ("evolve", "stepbig") if a in names]
        yield "large-%s" % common.vname(v), common.sized(k, lambda v=v, s=seqs: histories(v, s))
        if big:
            yield "large-continued-%s" % common.vname(v), common.sized(k, lambda v=v: continued(v, 1))
        yield "reconf-%s" % common.vname(v), lambda v=v: reconfigured(v)
