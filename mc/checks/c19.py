"""C19: accepted operator shapes, diagonalization and the reported solver type."""
import itertools

import numpy as np

from .. import common, core, ref

LEVEL = "exploration"
RULE = (
    "A case is a solver class with an option set and all operator shapes (or operator contents) of the bound; constructed solvers "
    "are also used for one step and compared with a reference; non-trivial: the constructor was called."
)

OPTS = {"plain": {}, "eig": {"diagonalize": True}}


def opts(name):
    return OPTS if name in ("IF34", "ETD34", "ETD35") else {"plain": {}}


def kwargs(name):
    """Every combination of further constructor arguments."""
    out = [{}, {"loglevel": "ERROR"}, {"loglevel": 40}]
    if name in common.AS:
        out.append({"config": common.config(epsilon=1e-3)})
    if name in common.ETD:
        out.append({"etd_config": common.etd_config(contour_points=40)})
    return out


def good(name, shape, size):
    if len(shape) == 1:
        return shape[0] > 0
    if len(shape) == 2:
        return shape[0] == shape[1] and shape[0] > 0 and name != "IF45DP"
    return False


def content(shape, dtype):
    """A well-conditioned operator with distinct negative eigenvalues for square shapes."""
    n = int(np.prod(shape)) if shape else 1
    a = -(np.arange(n) % 7 + 1.0).reshape(shape)
    if len(shape) == 2 and shape[0] == shape[1]:
        k = shape[0]
        a = np.diag(-(np.arange(k) + 1.0)) + 0.1 * np.triu(np.ones((k, k)), 1)
    if dtype is complex:
        a = a * (1 + 0.5j)
    return a.astype(dtype)


def shapes(name, extent, axes):
    tr = core.tracker()
    for nd in range(axes + 1):
        for shape in itertools.product(range(extent + 1), repeat=nd):
            if 0 in shape and (nd <= 2 and (nd == 1 or shape[0] == shape[1])):
                continue  # empty operators are outside the property
            for (on, o), kw, dt in itertools.product(opts(name).items(), kwargs(name), (float, complex, int)):
                L = content(shape, dt)
                what = "%s(%s) with an operator of shape %s %s" % (name, ", ".join(list(o) + list(kw)), shape, L.dtype)
                mk = lambda: common.classes()[name](L, lambda u: 0.1 * u, **o, **kw)
                if not good(name, shape, None):
                    common.expect_raises(ValueError, mk, what)
                    tr.count("refused")
                else:
                    r = common.attempt(mk)
                    if r[0] != "ok":
                        core.fail("%s: raised %s (%s)" % (what, r[1], r[2]))
                    sol = r[1]
                    works(name, sol, L, what)
                    tr.count("constructed")
                tr.ev("%s%s%s%s" % (shape, on, sorted(kw), dt))


def works(name, sol, L, what):
    u = np.linspace(0.5, 1.0, L.shape[0]).astype(complex)
    want, _ = ref.step(name, L, lambda w: 0.1 * w, u, 1e-3)
    got = sol.step(u, 1e-3)
    if name in common.AS:
        if abs(got[1] - 1e-3) > 1e-12:
            core.fail("%s: step of 1e-3 took %g" % (what, got[1]))
        got = got[0]
    common.close(got, want, 1e-9, what + ", one step")


def sizes(name, big):
    """Larger operators: square ones and 1D ones are accepted and used right, the next shapes are refused."""
    tr = core.tracker()
    for n in (4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100) + ((128, 129, 200, 300) if big else ()):
        for shape in ((n,), (n, n), (n, n + 1), (n + 1, n), (n, 1), (1, n), (n, n, 1), (1, n, n), (n, 1, n), (n, 2), (2, n), (n, 2 * n)):
            for on, o in opts(name).items():
                if len(shape) == 3 and n > 64:
                    continue
                L = np.zeros(shape) if not good(name, shape, None) else content(shape, float) if len(shape) == 1 else spread(n)
                what = "%s(%s) with an operator of shape %s" % (name, on, shape)
                mk = lambda: common.classes()[name](L, lambda u: 0.1 * u, **o)
                if not good(name, shape, None):
                    common.expect_raises(ValueError, mk, what)
                    tr.count("refused")
                    # also when every entry is equal to or different from zero
                    for fill in (1.0, -1j):
                        common.expect_raises(ValueError, lambda: common.classes()[name](np.full(shape, fill), lambda u: u, **o), what)
                else:
                    r = common.attempt(mk)
                    if r[0] != "ok":
                        core.fail("%s: raised %s (%s)" % (what, r[1], r[2]))
                    if n <= 17:
                        works(name, r[1], L, what)
                    else:
                        u = np.linspace(0.5, 1.0, n).astype(complex)
                        got = r[1].step(u, 1e-3)
                        got = got[0] if name in common.AS else got
                        w = np.exp(1e-3 * (L + 0.1)) * u if L.ndim == 1 else expo(n).dot(u)
                        common.close(got, w, 1e-9, what + ", one step")
                    tr.count("constructed")
                tr.ev("%s%s" % (shape, on))


def spread(n):
    """Symmetric, with eigenvalues -1 .. -2."""
    k = np.arange(n)
    Q = np.sqrt(2.0 / n) * np.cos(np.pi * (k[:, None] + 0.5) * k[None, :] / n)
    Q[:, 0] /= np.sqrt(2)
    return (Q * (-1.0 - k / n)).dot(Q.T)


def expo(n):
    k = np.arange(n)
    Q = np.sqrt(2.0 / n) * np.cos(np.pi * (k[:, None] + 0.5) * k[None, :] / n)
    Q[:, 0] /= np.sqrt(2)
    return (Q * np.exp(1e-3 * (0.1 - 1.0 - k / n))).dot(Q.T)


def large_singular(name):
    """Rank deficient operators of any size are refused by diagonalize=True, those far from singular are not, whatever their scale."""
    tr = core.tracker()
    cls = common.classes()[name]
    for n in (2, 3, 4, 5, 8, 16, 33, 64):
        for scale in (1.0, 1e-4, 1e4, 1j) + ((1e-12, 1e12) if n < 6 else ()):
            for kind in ("regular", "zero", "row", "column", "block"):
                L = spread(n) * scale
                if kind == "zero":
                    L = L * 0
                elif kind == "row":
                    L[n // 2] = 0
                elif kind == "column":
                    L[:, n - 1] = 0
                elif kind == "block":
                    L = np.diag(-1.0 - np.arange(n)) * scale
                    L[0, 0] = 0
                what = "%s(diagonalize=True), %s operator of size %d times %s" % (name, kind, n, scale)
                r = common.attempt(lambda: cls(L, lambda u: 0.1 * abs(scale) * u, diagonalize=True))
                if kind == "regular":
                    if r[0] != "ok":
                        core.fail("%s: raised %s (%s)" % (what, r[1], r[2]))
                    # dt in units of the operator
                    h = 1e-3 / abs(scale)
                    u = np.linspace(0.5, 1.0, n).astype(complex)
                    k = np.arange(n)
                    Q = np.sqrt(2.0 / n) * np.cos(np.pi * (k[:, None] + 0.5) * k[None, :] / n)
                    Q[:, 0] /= np.sqrt(2)
                    w = (Q * np.exp(1e-3 * (0.1 - (1.0 + k / n) * scale / abs(scale)))).dot(Q.T.dot(u))
                    common.close(r[1].step(u, h)[0], w, 1e-9, what + ", one step")
                elif r[0] == "ok" or not isinstance(r[2], ValueError):
                    core.fail("%s, which is singular: %s" % (what, r[:2] if r[0] != "ok" else "accepted"))
                tr.ev("%d%s%s" % (n, scale, kind))


def far_spread(name):
    """Regular operators with eigenvalues of very different size (diagonal up to rounding) are not singular."""
    tr = core.tracker()
    cls = common.classes()[name]
    u2 = np.array([0.5, -0.7, 0.3], complex)
    for lo, hi in itertools.product((1.0, 1e-3, 1e3, -1.0, 1j), (1e3, 1e6, 1e9, 1e12, 1e14, 1e15)):
        for L in (np.diag([-hi * lo, -lo]), np.diag([-lo, -hi * lo, -2 * lo]), np.array([[-lo, 0, 0], [0, -lo * 2, lo * 0.5], [0, lo * 0.5, -lo * 2 * hi]])):
            n = len(L)
            if n == 3 and L[1, 2] != 0 and hi > 1e12:
                continue
            if hi >= 1e15 and n == 3:
                continue
            what = "%s(diagonalize=True) with eigenvalues between %s and %g times that" % (name, lo, hi)
            r = common.attempt(lambda: cls(L, lambda u: 0.0 * u, diagonalize=True))
            if r[0] != "ok":
                core.fail("%s: raised %s (%s)" % (what, r[1], r[2]))
            if np.count_nonzero(L - np.diag(np.diag(L))) == 0:
                h = 0.1 / abs(lo)
                u = u2[:n] if np.real(lo) > 0 else u2[:n] * (np.abs(np.diag(L)) < 2.5 * abs(lo))
                if np.real(lo) < 0:
                    h = 1e-3 / hi  # growing modes
                if isinstance(lo, complex):
                    h = 1e-3 / hi
                w = np.exp(h * np.diag(L)) * u
                got = r[1].step(u, h)
                common.close(got[0], w, 1e-9, what + ", one step")
            tr.ev("%s%g%d%s" % (lo, hi, n, L[1, -1]))


def order_of_use(name):
    """A refused construction does not disturb solvers made before or after it."""
    tr = core.tracker()
    L = np.array([-1.0, -2.0])
    bad = [np.zeros((2, 3)), np.zeros((1, 2)), np.zeros((2, 2, 2)), np.array(1.0), np.zeros((3, 2))]
    for seq in itertools.product(range(len(bad) + 1), repeat=3):
        alive = []
        for k in seq:
            if k == len(bad):
                alive.append(common.classes()[name](L, lambda u: 0.1 * u))
            else:
                common.expect_raises(ValueError, lambda: common.classes()[name](bad[k], lambda u: u), "%s with shape %s" % (name, bad[k].shape))
        for s in alive:
            works(name, s, L, "%s after %s" % (name, seq))
        tr.ev(str(seq))


def singular(name):
    """diagonalize=True: every 2x2 and 3x3 matrix over small integers; singular ones are refused, the rest diagonalized correctly."""
    tr = core.tracker()
    cls = common.classes()[name]
    u2, u3 = np.array([0.5, -0.7], complex), np.array([0.5, -0.7, 0.3], complex)
    mats = [np.array(m, float).reshape(2, 2) for m in itertools.product((-2, -1, 0, 1, 2), repeat=4)]
    mats += [np.array([[a, b, 0], [0, c, d], [e, 0, f]], float) for a, b, c, d, e, f in itertools.product((-1, 0, 2), repeat=6)]
    for M in mats:
        det = round(np.linalg.det(M))
        what = "%s(diagonalize=True) with %s" % (name, M.tolist())
        mk = lambda: cls(M, lambda u: 0.1 * u, diagonalize=True)
        r = common.attempt(mk)
        if det == 0:
            if r[0] == "ok" or not isinstance(r[2], ValueError):
                core.fail("%s, which is singular: %s" % (what, r[:2] if r[0] != "ok" else "accepted"))
            tr.count("singular")
        else:
            if r[0] != "ok":
                core.fail("%s: raised %s (%s)" % (what, r[1], r[2]))
            w, S = np.linalg.eig(M)
            if np.linalg.cond(S) < 1e4:
                u = u2 if M.shape[0] == 2 else u3
                want, _ = ref.step(name, M, lambda v: 0.1 * v, u, 0.01)
                got = r[1].step(u, 0.01)
                if abs(got[1] - 0.01) > 1e-12:
                    core.fail("%s: step of 0.01 took %g" % (what, got[1]))
                common.close(got[0], want, 1e-8, what + ", one step", floor=0.1)
                tr.count("diagonalized")
            else:
                tr.count("defective")
        # without the option every one of them is accepted
        sol = cls(M, lambda u: 0.1 * u)
        u = u2 if M.shape[0] == 2 else u3
        want, _ = ref.step(name, M, lambda v: 0.1 * v, u, 0.01)
        common.close(sol.step(u, 0.01)[0], want, 1e-9, "%s with %s, one step" % (name, M.tolist()), floor=0.1)
        tr.ev(str(M.tolist()))


def types():
    """Solver types of all classes, forms, subclasses and of things that are no solver."""
    from rkstiff.solver import BaseSolver
    from rkstiff.solveras import BaseSolverAS
    from rkstiff.solvercs import BaseSolverCS
    from rkstiff.util.solver_type import SolverType as T

    tr = core.tracker()
    if T.CS is not T.CONSTANT_STEP or T.AS is not T.ADAPTIVE_STEP or len(T) != 2 or T.CS is T.AS:
        core.fail("SolverType members: %r" % list(T.__members__.items()))
    if (str(T.CS), str(T.AS)) != ("Constant Step", "Adaptive Step"):
        core.fail("SolverType names: %s, %s" % (T.CS, T.AS))
    for v in common.VARIANTS:
        name, rep = v
        for sub in (False, True):
            cls = common.classes()[name]
            if sub:
                cls = type("Sub" + name, (cls,), {})
            sol = common.make(v, common.op3(rep), common.nl3, cls=cls)
            want = T.CONSTANT_STEP if name in common.CS else T.ADAPTIVE_STEP
            base, other = (BaseSolverCS, BaseSolverAS) if name in common.CS else (BaseSolverAS, BaseSolverCS)
            for stage in ("constructed", "used", "reset"):
                if sol.solver_type is not want or T.from_solver(sol) is not want:
                    core.fail("%s (%s): solver_type %r, from_solver %r" % (cls.__name__, stage, sol.solver_type, T.from_solver(sol)))
                if stage == "constructed":
                    sol.evolve(common.U3, 0.0, 0.1, 0.05)
                else:
                    sol.reset()
            if not isinstance(sol, base) or isinstance(sol, other) or not isinstance(sol, BaseSolver):
                core.fail("%s is not exactly a %s" % (name, base.__name__))
            tr.ev("%s%s%s" % (name, rep, sub))
            # classes, bound methods and parts of a solver are not solvers
            for x in (cls, sol.step, sol.logger, sol.t, cls.__name__):
                common.expect_raises(TypeError, lambda: T.from_solver(x), "from_solver(%r)" % (x,))

    class Fake:
        solver_type = T.CONSTANT_STEP

        def step(self, u, h):
            return u

        def evolve(self, *a):
            return a[0]

    for x in (None, 0, 1, 2.0, "IF4", "CONSTANT_STEP", object(), [], {}, (), T.CS, T.AS, T, Fake(), Fake, np.zeros(3), lambda u: u,
              common.config(), common.etd_config(), BaseSolver, BaseSolverAS, BaseSolverCS):
        common.expect_raises(TypeError, lambda: T.from_solver(x), "from_solver(%r)" % (x,))
        tr.ev(repr(type(x)) + str(x)[:30])
    for c in (BaseSolver, BaseSolverAS, BaseSolverCS):
        common.expect_raises(TypeError, lambda: c(np.array([-1.0]), lambda u: u), "instantiating the abstract %s" % c.__name__)


def cases(tier):
    big = tier == "thorough"
    for name in common.CS + common.AS:
        yield "shapes-" + name, lambda n=name: shapes(n, 4 if big else 3, 4)
        yield "sizes-" + name, lambda n=name: sizes(n, big)
        yield "refusals-" + name, lambda n=name: order_of_use(n)
    for name in ("IF34", "ETD34", "ETD35"):
        yield "diagonalize-" + name, lambda n=name: singular(n)
        yield "diagonalize-large-" + name, lambda n=name: large_singular(n)
        yield "diagonalize-spread-" + name, lambda n=name: far_spread(n)
    yield "types", types
