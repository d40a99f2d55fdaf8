"""C12: orders of accuracy, decided by all rooted trees, and kept with a linear part."""
import itertools
import math

import numpy as np

from .. import common, core, ref

LEVEL = "exploration"
RULE = (
    "A case is a solver form with every rooted tree up to the bound (each decides one Runge-Kutta order condition), or a "
    "problem with a linear part and a sequence of step sizes; non-trivial: a step was compared with the exact solution."
)
ASSUMPTIONS = ["one step on the polynomial system of a tree returns h^|t| times the elementary weight of the tree"]

ORDER = {"IF4": 4, "ETD4": 4, "IF34": 4, "ETD34": 4, "ETD5": 5, "ETD35": 5, "IF45DP": 5}
EST = {"IF34": 3, "ETD34": 3, "ETD35": 3, "IF45DP": 4}


def trees(n):
    """Rooted trees with n nodes as nested sorted tuples."""
    if n == 1:
        return [()]
    out = set()

    def forests(total, maxt):
        """Multisets of trees with the given total number of nodes, as sorted tuples."""
        if total == 0:
            yield ()
            return
        for k in range(min(total, maxt), 0, -1):
            for t in trees(k):
                for rest in forests(total - k, k):
                    yield tuple(sorted((t,) + rest))

    for f in forests(n - 1, n - 1):
        out.add(f)
    return sorted(out)


def size(t):
    return 1 + sum(size(c) for c in t)


def system(t):
    """Children lists of the nodes (root is 0) of the polynomial system y_i' = product of the children's y."""
    nodes = []

    def add(t):
        i = len(nodes)
        nodes.append(None)
        nodes[i] = [add(c) for c in t]
        return i

    add(t)
    return nodes


def rhs(nodes):
    def nl(u):
        u = np.asarray(u)
        return np.array([np.prod([u[c] for c in ch]) if ch else 1.0 for ch in nodes], dtype=complex)

    return nl


def gamma(t):
    g = size(t)
    for c in t:
        g *= gamma(c)
    return g


def exact(nodes, y0, t):
    """Exact solution of the system from y0 after time t (polynomial integration, leaves first)."""
    P = np.polynomial.polynomial
    pol = [None] * len(nodes)
    for i in range(len(nodes) - 1, -1, -1):
        p = np.array([1.0 + 0j])
        for c in nodes[i]:
            p = P.polymul(p, pol[c])
        pol[i] = P.polyint(p, k=[y0[i]])
    return np.array([P.polyval(t, p) for p in pol])


def zero_op(variant, n):
    if variant[1] == "diag":
        return np.zeros(n)
    if variant[1] == "full":
        return np.zeros((n, n))
    return np.diag(-1e-9 * np.arange(1, n + 1))  # singular operators can not be diagonalized


def weight(variant, t, conf=None):
    """(elementary weights of all subtrees, accepted h, suggestion) of one step of size 1 from 0."""
    nodes = system(t)
    n = len(nodes)
    sol = common.make(variant, zero_op(variant, n), rhs(nodes), config=conf)
    r = sol.step(np.zeros(n, complex), 1.0)
    return (r[0], r[1], r[2]) if variant[0] in common.AS else (r, 1.0, 1.0)


def conditions(variant):
    """Every order condition up to the order; and not all of the next."""
    tr = core.tracker()
    tol = 1e-7 if variant[1] == "eig" else 2e-12
    p = ORDER[variant[0]]
    conf = common.config(epsilon=1e6, adapt_cutoff=-1.0) if variant[0] in common.AS else None
    for n in range(1, p + 1):
        for t in trees(n):
            w, h, s = weight(variant, t, conf)
            if h != 1.0:
                core.fail("tree %s: step of size 1 not accepted with a huge tolerance" % (t,))
            d = abs(w[0] - 1 / gamma(t))
            if not d <= tol:
                core.fail("order condition of tree %s (order %d): weight %s, required 1/%d" % (t, n, w[0], gamma(t)))
            tr.ev(str(t))


def sharp(variant):
    """The stated order is not a coincidence of a weaker check: some condition of the next order fails."""
    tr = core.tracker()
    p = ORDER[variant[0]]
    conf = common.config(epsilon=1e6, adapt_cutoff=-1.0) if variant[0] in common.AS else None
    worst = max(abs(weight(variant, t, conf)[0][0] - 1 / gamma(t)) for t in trees(p + 1))
    core.tracker().count("conditions beyond the order", len(trees(p + 1)))
    tr.ev("sharp")
    if not worst > 1e-6:
        core.tracker().count("higher order than stated")


def estimate(variant):
    """The error estimate vanishes on all trees up to the embedded order and on none but few of the next."""
    tr = core.tracker()
    e = EST[variant[0]]
    eps = 1e-5 if variant[1] == "eig" else 1e-9
    for n in range(1, e + 1):
        for t in trees(n):
            w, h, s = weight(variant, t, common.config(epsilon=eps, adapt_cutoff=-1.0))
            if h != 1.0 or s < 3.999:
                core.fail("tree %s of order %d: the error estimate does not vanish (accepted %r, suggested %r)" % (t, n, h, s))
            tr.ev(str(t))
    seen = 0
    q = ref.TABLEAUX[variant[0]]["q"]
    for t in trees(e + 1):
        nodes = system(t)
        u, err = ref.step(variant[0], np.zeros(len(nodes)), rhs(nodes), np.zeros(len(nodes)), 1.0)
        if abs(err[0]) < 1e-12:
            continue
        seen += 1
        en, un = np.linalg.norm(err), np.linalg.norm(u)
        ep = (2.0 / 0.8) ** q * en / un
        w, h, s = weight(variant, t, common.config(epsilon=ep, adapt_cutoff=-1.0))
        if h != 1.0 or abs(s - 2.0) > 1e-6:
            core.fail("tree %s: error estimate does not have the published size (accepted %r, suggested %r instead of 2)" % (t, h, s))
        tr.ev("next%s" % (t,))
    if seen == 0:
        raise RuntimeError("reference estimate vanishes")


def chains(variant, depth):
    """Order conditions hold in every step of a chain: polynomial systems up to the order are solved exactly."""
    tr = core.tracker()
    p = ORDER[variant[0]]
    tol = 1e-7 if variant[1] == "eig" else 1e-11
    for n in range(2, p + 1):
        for t in trees(n):
            nodes = system(t)
            for hs in itertools.product((0.5, 1.0, 0.3), repeat=depth):
                for y0 in (np.zeros(n), np.array([0.5, -1.0, 0.8, 1.2, -0.7])[:n]):
                    conf = common.config(epsilon=1e6, adapt_cutoff=-1.0) if variant[0] in common.AS else None
                    sol = common.make(variant, zero_op(variant, n), rhs(nodes), config=conf)
                    u = y0.astype(complex)
                    for h in hs:
                        r = sol.step(u, h)
                        if variant[0] in common.AS:
                            if r[1] != h:
                                core.fail("tree %s: step %r of %s was not accepted" % (t, h, hs))
                            r = r[0]
                        u = r
                    common.close(u, exact(nodes, y0, sum(hs)), tol, "tree %s, steps %s from %s" % (t, hs, y0), floor=1.0)
                    tr.ev("%s%s%s" % (t, hs, y0[0]))


# -- with a linear part -----------------------------------------------------------
# A tree is ("u", m): L^m applied to the state, or ("N", m, children): L^m applied to a derivative of N.
def mixed_trees(n):
    out = [("u", n)]
    for m in range(n):
        for ch in mixed_forests(n - 1 - m, n - 1 - m):
            out.append(("N", m, ch))
    return out


def mixed_forests(total, maxn):
    if total == 0:
        return [()]
    res = set()
    for k in range(1, min(total, maxn) + 1):
        for t in mixed_trees(k):
            for r in mixed_forests(total - k, k):
                res.add(tuple(sorted(r + (t,), key=repr)))
    return sorted(res, key=repr)


def msize(t):
    return t[1] if t[0] == "u" else 1 + t[1] + sum(msize(c) for c in t[2])


def mexact(t):
    """Coefficient of h^size in the exact solution."""
    f = math.factorial
    if t[0] == "u":
        return 1.0 / f(t[1])
    p = sum(msize(c) for c in t[2])
    e = f(p) / f(p + t[1] + 1)
    for c in t[2]:
        e *= mexact(c)
    return e


def msystem(t):
    """(L, children of the N nodes, y0): nilpotent operator and polynomial nonlinearity whose first component is the tree."""
    links, prods, y0 = [], {}, []

    def node():
        y0.append(0.0)
        return len(y0) - 1

    def add(t):
        top = i = node()
        if t[0] == "u":
            for k in range(t[1]):
                j = node()
                links.append((i, j))
                i = j
            y0[i] = 1.0
            return top
        for k in range(t[1]):
            j = node()
            links.append((i, j))
            i = j
        prods[i] = None
        prods[i] = [add(c) for c in t[2]]
        return top

    add(t)
    n = len(y0)
    L = np.zeros((n, n))
    for i, j in links:
        L[i, j] = 1.0

    def nl(u):
        r = np.zeros(n, complex)
        for i, ch in prods.items():
            r[i] = np.prod([u[c] for c in ch]) if ch else 1.0
        return r

    return L, nl, np.array(y0, dtype=complex)


def mixed_weight(variant, t):
    L, nl, y0 = msystem(t)
    conf = common.config(epsilon=1e6, adapt_cutoff=-1.0) if variant[0] in common.AS else None
    sol = common.make(variant, L, nl, config=conf)
    r = sol.step(y0, 1.0)
    if variant[0] in common.AS:
        if r[1] != 1.0:
            core.fail("tree %s: step of size 1 not accepted with a huge tolerance" % (t,))
        r = r[0]
    return r[0]


def mixed_conditions(variant, n):
    """Every order condition whose elementary differential contains the linear operator."""
    tr = core.tracker()
    p = ORDER[variant[0]]
    tol = 1e-11
    noncommuting = {}
    for t in mixed_trees(n):
        d = mixed_weight(variant, t) - mexact(t)
        tr.ev(str(t))
        if abs(d) <= tol:
            continue
        if n == 5 and variant[0] in ("ETD5", "ETD35") and t[0] == "N" and len(t[2]) == 1 and t[2][0][0] == "N" and t[1] + t[2][0][1] == 1:
            # of order 5 for operators commuting with the Jacobian only: the two orders of L and N' are one condition
            noncommuting.setdefault(repr(t[2][0][2]), []).append((t, d))
            continue
        core.fail("order condition of %s (order %d): off by %s, weight required %r" % (t, n, d, mexact(t)))
    for ts in noncommuting.values():
        if len(ts) != 2 or abs(sum(d for _, d in ts)) > tol:
            core.fail("order conditions %s do not hold even for commuting operators" % (ts,))


def rk_exact(f, u, T, n=400):
    """Reference solution: 8th order extrapolated midpoint steps (Gragg-Bulirsch-Stoer)."""
    h = T / n

    def gbs(u, H):
        cols = []
        for k in (2, 4, 6, 8, 10):
            s = H / k
            a, b = u, u + s * f(u)
            for _ in range(k - 1):
                a, b = b, a + 2 * s * f(b)
            cols.append((k, 0.5 * (a + b + s * f(b))))
        tab = [c for _, c in cols]
        ks = [k for k, _ in cols]
        for j in range(1, len(tab)):
            for i in range(len(tab) - 1, j - 1, -1):
                tab[i] = tab[i] + (tab[i] - tab[i - 1]) / ((ks[i] / ks[i - j]) ** 2 - 1)
        return tab[-1]

    for _ in range(n):
        u = gbs(u, h)
    return u


OPS = {
    "mixed": np.array([-1.0, 0.4 + 0.8j, -2.0 + 0.5j]),
    "osc": np.array([1j, -1.7j, 0.6j]),
    "zeromode": np.array([0.0, -0.02, -1.5]),
    "grow": np.array([0.5, -1.0, 1.0]),
}
FS = {
    "commuting": lambda u: 0.5 * np.exp(-u) - 0.4 * u**2 + 0.3,
    "quad": lambda u: 0.8 * u * np.roll(u, 1) - 0.5 * u**2 + 0.3,
    "cubic": lambda u: -(u**3) + 0.7 * np.roll(u, 1),
    "exp": lambda u: np.exp(-u) * 0.5 + 0.2 * np.roll(u, 2) * u,
}


def slope(variant, opname, fname):
    """Local errors of one step for halved step sizes."""
    tr = core.tracker()
    name = variant[0]
    p = ORDER[name]
    if fname != "commuting" and name in ("ETD5", "ETD35"):
        p = 4  # their conditions of order 5 hold for operators that commute with the Jacobian
    d = OPS[opname]
    f = FS[fname]
    u0 = np.array([0.6, -0.4 + 0.2j, 0.9])
    if variant[1] == "diag":
        L = d
        rhs_ = lambda u: d * u + f(u)
    else:
        S = np.array([[1.0, 0.3, -0.2], [0.1, 1.0, 0.6], [-0.4, 0.2, 1.0]])
        L = (S * d).dot(np.linalg.inv(S))
        if variant[1] == "eig" and opname == "zeromode":
            L = L - 0.3 * np.eye(3)
        if fname == "commuting":
            Si, g = np.linalg.inv(S), f
            f = lambda u: S.dot(g(Si.dot(u)))
        rhs_ = lambda u: L.dot(u) + f(u)
    ec = common.etd_config(modecutoff=0.5)  # the direct formula is too noisy for small z here
    hs = [0.06, 0.03, 0.015]
    errs = []
    for h in hs:
        conf = common.config(epsilon=1e6) if name in common.AS else None
        sol = common.make(variant, L, f, config=conf, etd_config=ec)
        r = sol.step(u0, h)
        r = r[0] if name in common.AS else r
        errs.append(np.linalg.norm(r - rk_exact(rhs_, u0, h, 8)))
        tr.ev("%g" % h)
    rates = [np.log2(errs[i] / errs[i + 1]) for i in range(2)]
    if not (rates[-1] > p + 1 - 0.45 or errs[-1] < 2e-13):
        core.fail("local errors %s for h=%s decrease with order %s, required %d" % (errs, hs, rates, p + 1))
    # global error over a fixed interval
    gl = []
    T = 0.8
    want = rk_exact(rhs_, u0, T, 100)
    for n in (32, 64, 128):
        conf = common.config(epsilon=1e6) if name in common.AS else None
        sol = common.make(variant, L, f, config=conf, etd_config=ec)
        u = u0
        for _ in range(n):
            r = sol.step(u, T / n)
            u = r[0] if name in common.AS else r
        gl.append(np.linalg.norm(u - want))
        tr.ev("global%d" % n)
    rate = np.log2(gl[1] / gl[2])
    if not (rate > p - 0.45 or gl[2] < 1e-12):
        core.fail("global errors %s for 32, 64, 128 steps decrease with order %.2f, required %d" % (gl, rate, p))


def cases(tier):
    big = tier == "thorough"
    for v in common.VARIANTS:
        vn = common.vname(v)
        yield "conditions-%s" % vn, lambda v=v: conditions(v)
        yield "sharp-%s" % vn, lambda v=v: sharp(v)
        if v[0] in common.AS:
            yield "estimate-%s" % vn, lambda v=v: estimate(v)
        yield "chains-%s" % vn, lambda v=v: chains(v, 3 if big else 2)
        if v[1] == "full":
            for n in range(1, ORDER[v[0]] + 1):
                yield "mixed-%s-%d" % (vn, n), lambda v=v, n=n: mixed_conditions(v, n)
        for o in OPS:
            for f in FS:
                yield "slope-%s-%s-%s" % (vn, o, f), lambda v=v, o=o, f=f: slope(v, o, f)
