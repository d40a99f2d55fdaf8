"""C09: solver objects do not influence each other."""
import itertools
import os
import sys
import threading

import numpy as np

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is a pair (or triple) of solver forms with every interleaving of their programs: all merges of the operation "
    "sequences, a switch at every executed line, all thread schedules with at most two preemptions at evaluations of the "
    "nonlinear function, and one solver run inside every evaluation of the other; non-trivial: both programs ran and were "
    "compared with their results alone."
)
ASSUMPTIONS = ["threads are switched at evaluations of the nonlinear function and at lines of the package"]

TOL = 1e-12


def problem(variant, size, k):
    """Operator, nonlinear function and state number k of the given size."""
    i = np.arange(1, size + 1)
    d = -0.7 * i + 0.3j * i**2 * (-1) ** k - 0.1 * k
    if variant[1] == "diag":
        L = d
    else:
        L = np.diag(-0.5 * i - 0.2 * k) + 0.3 * np.tril(np.ones((size, size)), -1) + 0.1 * np.triu(np.ones((size, size)), 1)
    c = 0.3 + 0.2 * k

    def nl(u):
        return c * u * np.roll(u, 1) - 0.4 * u**3 + 0.1 * (k + 1)

    u = (0.8 - 0.3 * i + 0.1j * k).astype(complex) / np.sqrt(i)
    return L, nl, u


class Prog:
    """Construct, step, step, evolve on one solver; collects everything that is returned."""

    def __init__(self, variant, size=3, k=0, hook=None, config=None, etd_config=None, L=None):
        self.v, self.size, self.k = variant, size, k
        self.L, fn, self.u = problem(variant, size, k)
        if L is not None:
            self.L = L
        self.config, self.etd_config = config, etd_config
        self.hook = hook
        self.calls = 0
        self.out = []

        def nl(u):
            n = self.calls
            self.calls += 1
            if n > 20000:
                raise core.Budget("evaluations")
            if self.hook is not None:
                self.hook(n)
            return fn(u)

        self.nl = nl

    def construct(self):
        self.sol = common.make(self.v, self.L, self.nl, config=self.config, etd_config=self.etd_config)

    def _step(self, h):
        r = self.sol.step(self.u, h)
        if self.v[0] in common.AS:
            self.out.append(np.array([r[1], r[2]]))
            r = r[0]
        self.out.append(np.array(r))
        self.u = r

    def step1(self):
        self._step(0.1)

    def step2(self):
        self._step(0.2)

    def evolve(self):
        if self.v[0] in common.AS:
            r = self.sol.evolve(self.u, 0.0, 0.3, h_init=0.1)
        else:
            r = self.sol.evolve(self.u, 0.0, 0.2, 0.1)
        self.out.append(np.array(r))
        self.out.append(np.array(self.sol.t, dtype=float))
        self.out.append(np.array(self.sol.u))

    def ops(self):
        return [self.construct, self.step1, self.step2, self.evolve]

    def run(self, n=4):
        for op in self.ops()[:n]:
            op()
        return self


def pristine(fn):
    """Run fn on a freshly imported copy of the package: no state of earlier solvers can be in it."""
    old = {m: sys.modules.pop(m) for m in list(sys.modules) if m.split(".")[0] == "rkstiff"}
    try:
        return fn()
    finally:
        for m in [m for m in sys.modules if m.split(".")[0] == "rkstiff"]:
            del sys.modules[m]
        sys.modules.update(old)


_alone = {}


def alone(variant, size, k, n):
    key = (variant, size, k, n)
    if key not in _alone:
        _alone[key] = pristine(lambda: Prog(variant, size, k).run(n).out)
    return _alone[key]


def check(p, n, what):
    want = alone(p.v, p.size, p.k, n)
    if len(want) != len(p.out):
        core.fail("%s: %d results of %s instead of %d" % (what, len(p.out), common.vname(p.v), len(want)))
    for i, (a, b) in enumerate(zip(p.out, want)):
        common.close(a, b, TOL, "%s: result %d of %s differs from the solver alone" % (what, i, common.vname(p.v)))


def merges(n, m):
    for pos in itertools.combinations(range(n + m), n):
        yield "".join("A" if i in pos else "B" for i in range(n + m))


def interleave(va, vb, mode):
    """All merges of the two operation sequences."""
    tr = core.tracker()
    sb = 2 if mode == "sizes" else 3
    for word in merges(4, 4):
        kw = {}
        if mode == "shared":  # same arrays and configuration objects
            kw = dict(config=common.config(), etd_config=common.etd_config())
        a, b = Prog(va, 3, 0, **kw), Prog(vb, sb, 1 if mode != "shared" else 0, **kw)
        if mode == "shared" and np.ndim(a.L) == np.ndim(b.L):
            b.L = a.L
        ia, ib = iter(a.ops()), iter(b.ops())
        for c in word:
            next(ia if c == "A" else ib)()
        check(a, 4, "order %s" % word)
        check(b, 4, "order %s" % word)
        tr.ev(word, n=2)


def triple(va, vb, vc):
    """All merges of three programs of construct, step, step."""
    tr = core.tracker()
    for word in sorted(set(itertools.permutations("AABBCC"))):
        ps = {"A": Prog(va, 3, 0), "B": Prog(vb, 3, 1), "C": Prog(vc, 3, 2)}
        for p in ps.values():
            p.construct()
        its = {c: iter(p.ops()[1:3]) for c, p in ps.items()}
        for c in word:
            next(its[c])()
        for p in ps.values():
            check(p, 3, "order %s" % "".join(word))
        tr.ev("".join(word), n=3)


# -- a switch at every line -----------------------------------------------------
def trace_lines(fn, at, switch):
    """Run fn; before line event number ``at`` inside the package call switch. Returns the number of line events."""
    import rkstiff

    base = os.path.dirname(os.path.abspath(rkstiff.__file__))
    count = [0]

    def local(frame, event, arg):
        if event == "line":
            if count[0] == at:
                sys.settrace(None)
                switch()
                sys.settrace(glob)
            count[0] += 1
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(base):
            return local
        return None

    sys.settrace(glob)
    try:
        fn()
    finally:
        sys.settrace(None)
    return count[0]


def lines(va, vb, stride, kb):
    """B runs completely at every line of A's program."""
    tr = core.tracker()
    Prog(va, 3, 0).run(2), Prog(vb, 3, kb).run(2)  # loggers are set up once per process
    total = trace_lines(lambda: Prog(va, 3, 0).run(2), -1, lambda: None)
    core.tracker().count("lines", total)
    for at in range(0, total, stride):
        a, b = Prog(va, 3, 0), Prog(vb, 3, kb)
        if trace_lines(lambda: a.run(2), at, lambda: b.run(2)) <= at:
            break
        check(b, 2, "run inside at line event %d" % at)
        check(a, 2, "interrupted at line event %d" % at)
        tr.ev("%d" % at, n=2)


# -- threads ----------------------------------------------------------------------
class Threads:
    """Run programs in threads, one at a time; the token moves at the given evaluation counts."""

    def __init__(self, progs, nops, plan):
        self.plan = plan  # list of (thread, evaluations before it gives up the token or None)
        self.progs, self.nops = progs, nops
        self.sem = [threading.Semaphore(0) for _ in progs]
        self.back = threading.Semaphore(0)
        self.left = [None] * len(progs)
        self.done = [False] * len(progs)
        self.exc = [None] * len(progs)
        for i, p in enumerate(progs):
            p.hook = lambda n, i=i: self.point(i)

    def point(self, i):
        if self.left[i] is None:
            return
        if self.left[i] == 0:
            self.back.release()
            self.wait(self.sem[i])
        if self.left[i] is not None:
            self.left[i] -= 1

    @staticmethod
    def wait(s):
        if not s.acquire(timeout=60):
            raise core.Budget("thread was not resumed")

    def body(self, i):
        try:
            self.wait(self.sem[i])
            self.progs[i].run(self.nops)
        except BaseException as e:  # noqa: BLE001
            self.exc[i] = e
        finally:
            self.done[i] = True
            self.back.release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.progs))]
        for t in ts:
            t.start()
        for i, n in self.plan:
            if self.done[i]:
                continue
            self.left[i] = n
            self.sem[i].release()
            self.wait(self.back)
        for i, t in enumerate(ts):
            while not self.done[i]:
                self.left[i] = None
                self.sem[i].release()
                self.wait(self.back)
            t.join(10)
            if self.exc[i] is not None:
                raise self.exc[i]


def threads(va, vb, kb):
    tr = core.tracker()
    p = Prog(va, 3, 0).run(3)
    q = Prog(vb, 3, kb).run(3)
    na, nb = p.calls, q.calls
    plans = []
    for i in range(na + 1):
        plans.append([(0, i), (1, None), (0, None)])  # one preemption
        for j in range(nb + 1):
            plans.append([(0, i), (1, j), (0, None), (1, None)])  # two
    for j in range(nb + 1):
        plans.append([(1, j), (0, None), (1, None)])
        for i in range(na + 1):
            plans.append([(1, j), (0, i), (1, None), (0, None)])
    for plan in plans:
        a, b = Prog(va, 3, 0), Prog(vb, 3, kb)
        Threads([a, b], 3, plan).run()
        check(a, 3, "schedule %s" % plan)
        check(b, 3, "schedule %s" % plan)
        tr.ev(str(plan), n=2)


def nested(va, vb):
    """B constructed and run inside every evaluation of A; and continued in the next evaluations."""
    tr = core.tracker()
    n = Prog(va, 3, 0).run(3).calls
    for k in range(n):
        b = Prog(vb, 3, 1)
        a = Prog(va, 3, 0, hook=lambda m: b.run(3) if m == k else None)
        a.run(3)
        check(a, 3, "another solver run inside evaluation %d" % k)
        check(b, 3, "run inside evaluation %d" % k)
        tr.ev("%d" % k, n=2)
    b = Prog(vb, 3, 1)
    ops = iter(b.ops()[:3])

    def hook(m):
        op = next(ops, None)
        if op:
            op()

    a = Prog(va, 3, 0, hook=hook)
    a.run(3)
    check(a, 3, "another solver advanced in each evaluation")
    check(b, 3, "advanced in the evaluations of another solver")


# -- one aspect ---------------------------------------------------------------------
class Prog1(Prog):
    """Two steps with operators that have small modes; every ingredient can be replaced."""

    def __init__(self, v, aspect=None):
        super().__init__(v, 4 if aspect == "size" else 3, 0)
        d = np.array([0.02, -0.7 + 0.4j, -5.0, -2.0])[: self.size]
        if aspect == "small":
            d[0] = -0.03
        elif aspect == "zero":
            d[0] = 0.0 if v[1] != "eig" else 1e-9
        elif aspect == "small-imag":
            d[0] = 0.02j
        elif aspect == "large":
            d[2] = -6.0
        elif aspect == "negated":
            d = -d
        elif aspect == "conjugate":
            d = d.conj()
        elif aspect == "order":
            d = d[::-1].copy()
        elif aspect == "swapped":
            d = d[[0, 2, 1, 3][: self.size]].copy()
        elif aspect == "ulp":
            d[1] = d[1] * (1 + 1e-9)
        elif aspect == "last":
            d[-1] = d[-1] - 0.5
        if v[1] == "diag":
            self.L = d
        else:
            i = np.arange(self.size)
            S = np.eye(self.size) + 0.2 * np.cos(np.add.outer(2 * i, 3 * i * i + 1))
            if aspect == "basis":
                S = S.T.copy()
            self.L = S.dot(np.diag(d)).dot(np.linalg.inv(S))
            # operators that share size, trace, norm, diagonal, spectrum, ... with the original
            if aspect == "transposed":
                self.L = self.L.T.copy()
            elif aspect == "conj-transposed":
                self.L = self.L.conj().T.copy()
            elif aspect == "renumbered":
                self.L = self.L[::-1, ::-1].copy()
            elif aspect == "rescaled":
                w = np.array([1.0, 1.7, 0.6, 1.1])[: self.size]
                self.L = self.L * np.divide.outer(w, w)
            elif aspect == "signs":
                w = np.array([1.0, -1.0, 1.0, 1.0])[: self.size]
                self.L = self.L * np.multiply.outer(w, w)
            elif aspect == "diagonal":
                self.L = np.diag(np.diag(self.L)) + 0.1 * np.triu(self.L, 1)
        self.h = 0.15 if aspect == "h" else 0.1
        if aspect == "state":
            self.u = self.u * 1.5
        if aspect == "real":
            self.u = self.u.real.copy()
        fn = self.nl
        if aspect == "nl":
            self.nl = lambda u: 0.5 * fn(u)
        if aspect == "config" and v[0] in common.AS:
            self.config = common.config(**FIELDS)
        if aspect == "etd" and v[0] in common.ETD:
            self.etd_config = common.etd_config(modecutoff=0.9, contour_points=5, contour_radius=0.3)

    def run(self, n=4):
        self.construct()
        self._step(self.h)
        self._step(self.h)
        return self


ASPECTS = ("none", "small", "zero", "small-imag", "large", "negated", "conjugate", "order", "basis", "h", "state", "real", "nl", "config",
           "etd", "size", "swapped", "ulp", "last")
MATRIX_ASPECTS = ("transposed", "conj-transposed", "renumbered", "rescaled", "signs", "diagonal")


def aspect(va, vb):
    """A after a B that differs from it in a single aspect (B discarded or still alive)."""
    tr = core.tracker()
    want = {x: pristine(lambda x=x: Prog1(va, x).run().out) for x in ("none", "small")}
    for asp in ASPECTS + (MATRIX_ASPECTS if va[1] != "diag" and vb[1] != "diag" else ()):
        for x in want:
            for keep in (x == "small",):
                # the package is imported anew, so that the other solver really comes first
                def both():
                    b = Prog1(vb, asp).run()
                    if not keep:
                        del b
                    return Prog1(va, x).run().out

                for i, (p, q) in enumerate(zip(pristine(both), want[x])):
                    common.close(p, q, TOL, "result %d of %s after a %s that differs in: %s" % (i, common.vname(va), common.vname(vb), asp))
                tr.ev("%s/%s/%s" % (asp, x, keep), n=2)


FIELDS = dict(epsilon=1e-2, incr_f=3.0, decr_f=0.5, safety_f=0.3, adapt_cutoff=0.5, minh=1e-3)
EFIELDS = dict(modecutoff=0.9, contour_points=4, contour_radius=0.25)
EDEF = dict(modecutoff=0.01, contour_points=32, contour_radius=1.0)
DEF = dict(epsilon=1e-4, incr_f=1.25, decr_f=0.85, safety_f=0.8, adapt_cutoff=0.01, minh=1e-16)


def defaults(va, vb):
    """Changing the configuration of a solver built without one reaches no other solver, built before or after."""
    tr = core.tracker()
    for order in ("before", "after", "both"):
        b = [Prog(vb, 3, 1), Prog(vb, 3, 1)]
        a = Prog(va, 3, 0)
        if order != "after":
            b[0].construct()
        a.construct()
        if va[0] in common.AS:
            for k, v in FIELDS.items():
                setattr(a.sol.config, k, v)
        if va[0] in common.ETD:
            for k, v in EFIELDS.items():
                setattr(a.sol.etd_config, k, v)
        if order != "before":
            b[1].construct()
        for p in b:
            if not hasattr(p, "sol"):
                continue
            if vb[0] in common.AS:
                for k, v in DEF.items():
                    if getattr(p.sol.config, k) != v:
                        core.fail("config.%s of a solver built %s is %r" % (k, order, getattr(p.sol.config, k)))
            if vb[0] in common.ETD:
                for k, v in EDEF.items():
                    if getattr(p.sol.etd_config, k) != v:
                        core.fail("etd_config.%s of a solver built %s is %r" % (k, order, getattr(p.sol.etd_config, k)))
            for op in p.ops()[1:]:
                op()
            check(p, 4, "configuration of another solver changed (%s)" % order)
        tr.ev(order, n=2)
    # an explicitly passed configuration does not become the default of later solvers
    c = common.config(**FIELDS) if va[0] in common.AS else None
    e = common.etd_config(**EFIELDS) if va[0] in common.ETD else None
    Prog(va, 3, 0, config=c, etd_config=e).run(2)
    p = Prog(vb, 3, 1).run(4)
    check(p, 4, "another solver was built with its own configuration")
    tr.ev("explicit")


def related(va):
    """Forms a form is most likely to share state with."""
    same = [v for v in common.VARIANTS if v[0] == va[0]]
    i = common.VARIANTS.index(va)
    other = [common.VARIANTS[(i + d) % len(common.VARIANTS)] for d in (4, 9)]
    return same + [v for v in other if v not in same]


def cases(tier):
    big = tier == "thorough"
    V = common.VARIANTS
    for i, va in enumerate(V):
        for j, vb in enumerate(V):
            nm = "%s+%s" % (common.vname(va), common.vname(vb))
            rel = vb in related(va)
            if j >= i:
                for mode in ("values", "sizes", "shared") if big or rel else ("values",):
                    yield "merge-%s-%s" % (mode, nm), lambda a=va, b=vb, m=mode: interleave(a, b, m)
            if j >= i and (big or rel):
                yield "threads-%s" % nm, lambda a=va, b=vb: threads(a, b, 1)
            if big or rel:
                yield "lines-%s" % nm, lambda a=va, b=vb: lines(a, b, 1 if big or a[0] == b[0] else 3, 1)
            yield "nested-%s" % nm, lambda a=va, b=vb: nested(a, b)
            if big or rel or vb[1] == va[1]:
                yield "aspect-%s" % nm, lambda a=va, b=vb: aspect(a, b)
            yield "defaults-%s" % nm, lambda a=va, b=vb: defaults(a, b)
    for i in range(len(V)):
        if big or i % 4 == 0:
            yield "triple-%d" % i, lambda i=i: triple(V[i], V[(i + 1) % len(V)], V[(i + 7) % len(V)])
