"""C13: the representation of the problem does not matter."""
import itertools

import numpy as np

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is a solver with a set of spectra and bases; every form of the operator that the solver supports (and every "
    "type and layout of operator and state) is run and compared; non-trivial: at least two representations were compared."
)
ASSUMPTIONS = ["operators diagonalized by the solver have distinct eigenvalues and a moderately conditioned eigenbasis"]

SPEC = [0.0, -1e-4, 0.02, -0.3, 1.0 + 0.5j, -2.0 + 1j, -6.0, 4j, -80.0, -1e4]
BASES = {
    1: {"id": np.eye(1)},
    2: {"id": np.eye(2), "rot": np.array([[0.6, -0.8], [0.8, 0.6]]), "unit": np.array([[0.6, 0.8j], [0.8j, 0.6]]), "skew": np.array([[1.0, 0.7], [0.2, -1.0]])},
    3: {"id": np.eye(3), "refl": np.eye(3) - 2 / 3 * np.ones((3, 3)), "skew": np.array([[1.0, 0.3, -0.2], [0.1, 1.0, 0.6], [-0.4, 0.2, 1.0]])},
}
UNITARY = ("id", "rot", "unit", "refl")


def nl(v):
    return 0.6 * v * np.roll(v, 1) / (1 + np.abs(v) ** 2) - 0.4 * v + 0.2


def trajectory(variant, L, f, u, plan, cutoff=0.01, epsilon=1e-4, unit=1.0):
    """Steps and states of chained steps and of an evolve."""
    name = variant[0]
    out, hs = [], []
    if name in common.AS:
        mk = lambda: common.make(variant, L, f, config=common.config(epsilon=epsilon, adapt_cutoff=cutoff))
        sol = mk()
        v = u
        for h in plan:
            v, h1, h2 = sol.step(v, h)
            out.append(np.array(v))
            hs += [h1, h2]
        sol = mk()
        v = sol.evolve(u, 0.0, 0.5 / unit, h_init=0.2 / unit)
        out.append(np.array(v))
        hs += [float(x) for x in sol.t]
    else:
        mk = lambda: common.make(variant, L, f)
        sol = mk()
        v = u
        for h in plan:
            v = sol.step(v, h)
            out.append(np.array(v))
        sol = mk()
        out.append(np.array(sol.evolve(u, 0.0, 0.6 / unit, 0.2 / unit)))
        hs = [float(x) for x in sol.t]
    return out, np.array(hs)


def compare(a, b, tol, what, back=None, htol=None):
    if len(a[1]) != len(b[1]) or not np.allclose(a[1], b[1], rtol=htol or max(1e-6, 100 * tol), atol=1e-13):
        core.fail("%s: steps differ\n got %s\n want %s" % (what, common.short(a[1]), common.short(b[1])))
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        x = np.asarray(x) if back is None else back.dot(x)
        common.close(x, np.asarray(y), tol, "%s: state %d" % (what, i), floor=1e-3)


def forms(name, n, zs, cutoff):
    """1D, 2D and diagonalized forms of one diagonal operator, and the operator in other bases."""
    tr = core.tracker()
    plan = (0.1, 0.3, 0.3, 0.05)
    u = np.array([0.8, -0.5 + 0.3j, 0.35])[:n]
    reps = common.REPS[name]
    for zz in itertools.combinations_with_replacement(zs, n):
        d = np.array(zz, dtype=complex)
        if np.all(np.imag(d) == 0):
            d = np.real(d)
        big = np.max(np.abs(d))
        # L is rebuilt from its eigendecomposition: rounding of order |L|
        base = 1e-9 + 1e-13 * big
        want = trajectory((name, "diag"), d, nl, u, plan, cutoff)
        regular = np.min(np.abs(d)) > 5e-3 and len(set(zz)) == n
        for bname, S in BASES[n].items():
            Si = np.linalg.inv(S)
            L = (S * d).dot(Si) if bname != "id" else np.diag(d)
            f = (lambda v, S=S, Si=Si: S.dot(nl(Si.dot(v)))) if bname != "id" else nl
            ref_ = want
            for rep in reps[1:]:
                if rep == "eig" and not regular:
                    continue
                w = "%s-%s with eigenvalues %s in basis %s" % (name, rep, zz, bname)
                got = trajectory((name, rep), L, f, S.dot(u), plan, cutoff if bname == "id" else -1.0)
                if bname == "id":
                    compare(got, want, base, w)
                elif bname in UNITARY or name in common.CS:
                    # norms are preserved: same steps as the diagonal problem if no modes are masked
                    if cutoff > 0 and name in common.AS:
                        continue
                    compare(got, want, base * 10, w, Si)
                else:
                    # another basis has another norm: compare the forms with each other
                    if rep == "full":
                        ref_ = got
                    else:
                        compare(got, ref_, base * 10, w)
                tr.ev("%s/%s/%s" % (zz, bname, rep))
        if len(reps) == 1:
            tr.ev("%s" % (zz,), nontrivial=False)
    if "full" not in reps:
        # only the diagonal form exists: renumbered problem
        pass


def large(name, n, cutoff):
    """The forms of large operators: diagonal, in an orthogonal and a unitary basis."""
    tr = core.tracker()
    k = np.arange(n)
    plan = (0.1, 0.3, 0.3, 0.05)
    u = (0.8 - 0.2j) * np.exp(1.3j * k) / (1.0 + k % 4)
    Q = np.sqrt(2.0 / n) * np.cos(np.pi * (k[:, None] + 0.5) * k[None, :] / n)
    Q[:, 0] /= np.sqrt(2)
    bases = {"id": None, "dct": Q, "dft": np.exp(2j * np.pi * np.outer(k, k) / n) / np.sqrt(n)}
    spectra = {
        "diffusion": -0.05 - 30.0 * (k / n) ** 2,
        "mixed": np.array([-1e-1, 0.3, 1.0 + 0.5j, -2.0 + 1j, -6.0, 4j, -80.0])[k % 7] * (1 + 0.01 * k),
        "dispersion": 1j * (k + 0.5 - n / 4) * 0.3,
    }
    for sname, d in spectra.items():
        want = trajectory((name, "diag"), d, nl, u, plan, cutoff)
        tol = 1e-9 + 1e-13 * np.max(np.abs(d))
        for bname, S in bases.items():
            L = np.diag(d) if S is None else (S * d).dot(S.conj().T)
            f = nl if S is None else (lambda v, S=S: S.dot(nl(S.conj().T.dot(v))))
            if S is not None and cutoff > 0 and name in common.AS:
                continue
            for rep in common.REPS[name][1:]:
                w = "%s-%s with %d modes (%s) in basis %s" % (name, rep, n, sname, bname)
                got = trajectory((name, rep), L, f, u if S is None else S.dot(u), plan, cutoff)
                compare(got, want, tol * (1 if S is None else 10), w, None if S is None else S.conj().T)
                tr.ev("%d/%s/%s/%s" % (n, sname, bname, rep))


def mixed_scales(name, cutoff):
    """Modes of O(1) rotated among each other beside modes of very different size: small couplings matter."""
    tr = core.tracker()
    plan = (0.1, 0.3, 0.3, 0.05)
    u = np.array([0.8, -0.5 + 0.3j, 0.35, 0.6])
    for stiff in (-1e5, -1e7, -1e9, -1e11, 1e5j):
        for slow in ((-0.3, -2.0), (0.7, -1.0 + 2j), (0.3 + 2j, 0.3 - 2j), (-1.0, -5.0)):
            for where in (0, 2):
                for bname, B in BASES[2].items():
                    d = np.array([slow[0], slow[1], stiff]) if where == 2 else np.array([stiff, slow[0], slow[1]])
                    idx = [0, 1] if where == 2 else [1, 2]
                    S = np.eye(3, dtype=complex)
                    S[np.ix_(idx, idx)] = B
                    Si = np.linalg.inv(S)
                    # the blocks are exactly decoupled
                    L = np.zeros((3, 3), complex)
                    L[np.ix_(idx, idx)] = (B * np.array(slow)).dot(np.linalg.inv(B))
                    L[where, where] = stiff
                    if np.all(np.imag(L) == 0):
                        L = np.real(L)
                    f = lambda v: S.dot(nl(Si.dot(v)))
                    x = S.dot(u[:3])
                    results = {}
                    if bname in UNITARY and not (cutoff > 0 and name in common.AS and bname != "id"):
                        results["diag"] = trajectory((name, "diag"), d, nl, u[:3], plan, cutoff, 1e6)
                        results["diag"] = ([S.dot(w) for w in results["diag"][0]], results["diag"][1])
                    for rep in common.REPS[name][1:]:
                        results[rep] = trajectory((name, rep), L, f, x, plan, cutoff, 1e6)
                    (k0, want), *rest = results.items()
                    for k, got in rest:
                        # contour and exponential of the full matrix: rounding relative to |hL|
                        tol = 1e-8 + 1e-14 * abs(stiff)
                        if tol > 1e-3:
                            tol = 1e-3
                        compare(got, want, tol, "%s: %s against %s, eigenvalues %s, basis %s" % (name, k, k0, d, bname), htol=max(1e-6, tol))
                        tr.ev("%s%s%d%s%s" % (stiff, slow, where, bname, k))


def nonnormal(name, cutoff, big):
    """Full and diagonalized forms of general matrices take the same steps."""
    tr = core.tracker()
    mats = {"A3": common.A3}
    for n in (2, 3, 4, 9, 17) if big else (2, 3, 4, 9):
        mats["lap%d" % n] = 5.0 * (np.diag(-2.0 * np.ones(n)) + np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1))
        mats["adv%d" % n] = mats["lap%d" % n] + 2.0 * (np.diag(np.ones(n - 1), 1) - np.diag(np.ones(n - 1), -1))
        mats["tri%d" % n] = np.triu(np.ones((n, n)), 1) * 0.7 - np.diag(np.arange(1.0, n + 1))
        mats["cplx%d" % n] = mats["tri%d" % n] + 0.5j * np.ones((n, n))
        g = np.sin(1.0 + np.add.outer(np.arange(n) * 1.7, np.arange(n) ** 2 * 0.9))
        c = np.cos(2.0 + np.add.outer(np.arange(n) * 0.6, np.arange(n) * 2.3))
        neg = -np.diag(1.0 + 2.0 * np.arange(n))
        mats["csym%d" % n] = neg + 0.4 * (g + g.T) + 0.5j * (c + c.T)
        mats["herm%d" % n] = neg + 0.4 * (g + g.T) + 0.5j * (c - c.T)
        mats["skew%d" % n] = 1j * (2 * neg + 0.4 * (g + g.T)) - 0.5 * (c - c.T)
        mats["asym%d" % n] = 0.1 * neg * 1j * np.arange(n) + 0.5 * (g - g.T) + neg
        mats["tril%d" % n] = neg + np.tril(g, -1)
        mats["gen%d" % n] = neg + 0.7 * g
        mats["cgen%d" % n] = neg + 0.7 * g + 0.4j * c
        mats["normal%d" % n] = neg[0, 0] * np.eye(n) * 3 + np.roll(np.eye(n), 1, axis=0) * (1 - 0.5j)
        mats["spiral%d" % n] = neg + 2j * np.diag(np.arange(n) ** 2.0 - 1) + 0.3 * g
        mats["circ%d" % n] = np.roll(np.eye(n), 1, axis=1) * 2 - 3 * np.eye(n)
    for mname, L in mats.items():
        n = L.shape[0]
        for uu in (np.tile([0.8, -0.5, 0.3, 0.6], 5)[:n], np.tile([1e-4, 1.0, -0.02, 0.5j], 5)[:n]):
            for eps in (1e-2, 1e-4, 1e-7) if big or mname[:3] in ("A3", "lap", "tri", "cpl") else (1e-4,):
                a = trajectory((name, "full"), L, nl, uu, (0.1, 0.4, 2.0, 0.1), cutoff, eps)
                b = trajectory((name, "eig"), L, nl, uu, (0.1, 0.4, 2.0, 0.1), cutoff, eps)
                compare(b, a, 1e-8, "%s diagonalized against full, %s eps=%g" % (name, mname, eps), htol=1e-4)
                tr.ev("%s%g%s" % (mname, eps, uu[0]))


def nearly(name):
    """Operators that a tolerance test would take for something simpler, and operators in other units of time."""
    tr = core.tracker()
    n = 4
    g = np.sin(1.0 + np.add.outer(np.arange(n) * 1.7, np.arange(n) ** 2 * 0.9))
    g = g - g.T
    sym = -np.diag([1.0, 2.0, 4.0, 7.0]) + 0.3 * (np.ones((n, n)) - np.eye(n))
    c = np.cos(2.0 + np.add.outer(np.arange(n) * 0.6, np.arange(n) * 2.3))
    u = np.array([0.8, -0.5 + 0.3j, 0.35, 0.6])
    mats = {}
    for d in (1e-3, 1e-4, 1e-5, 1e-6, 1e-7):
        mats["symmetric+%g" % d] = sym + d * g
        mats["hermitian+%g" % d] = sym + 0.4j * (c - c.T) + d * 1j * (c + c.T)
        mats["diagonal+%g" % d] = np.diag([-1.0, -2.0, -4.0, 0.5]) + d * g
        mats["triangular+%g" % d] = np.tril(sym) + d * np.triu(c, 1)
        mats["normal+%g" % d] = np.roll(np.eye(n), 1, axis=1) * 2 - 3 * np.eye(n) + d * g
        mats["real+%g" % d] = sym + 0.3 * g + 1j * d * c
        mats["imaginary+%g" % d] = 1j * (sym + 0.3 * g) + d * c
    for mname, L in mats.items():
        a = trajectory((name, "full"), L, nl, u, (0.1, 0.4, 2.0, 0.1), -1.0, 1e6)
        b = trajectory((name, "eig"), L, nl, u, (0.1, 0.4, 2.0, 0.1), -1.0, 1e6)
        compare(b, a, 1e-9, "%s diagonalized against full, %s" % (name, mname), htol=1e-6)
        tr.ev(mname)
    for unit in (1e-10, 1e-5, 1e6):
        for mname, L in list(mats.items())[:7]:
            plan = tuple(h / unit for h in (0.1, 0.4, 2.0, 0.1))
            f = lambda v: unit * nl(v)
            a = trajectory((name, "full"), L, nl, u, (0.1, 0.4, 2.0, 0.1), -1.0, 1e6)
            for rep in ("full", "eig"):
                b = trajectory((name, rep), unit * L, f, u, plan, -1.0, 1e6, unit)
                compare((b[0], [h * unit for h in b[1]]), a, 1e-9, "%s-%s, %s in units of %g" % (name, rep, mname, unit), htol=1e-6)
                tr.ev("%s%g%s" % (mname, unit, rep))


def variants_of(a):
    """The same values in different types and layouts."""
    a = np.asarray(a)
    yield "c128", np.array(a, dtype=complex)
    if np.all(np.imag(a) == 0):
        r = np.ascontiguousarray(np.real(a))
        yield "f64", r.astype(float)
        if np.all(r == np.round(r)):
            yield "i64", r.astype(np.int64)
            yield "i32", r.astype(np.int32)
    if a.ndim == 2:
        yield "fortran", np.array(a, dtype=complex, order="F")
        yield "transposed", np.ascontiguousarray(np.array(a, dtype=complex).T).T
    big = np.zeros(tuple(2 * s for s in a.shape), dtype=complex)
    v = big[tuple(slice(1, None, 2) for _ in a.shape)]
    v[...] = a
    yield "strided", v
    rev = np.array(a[::-1], dtype=complex)[::-1]
    yield "reversed", rev
    ro = np.array(a, dtype=complex)
    ro.flags.writeable = False
    yield "readonly", ro
    yield "bigendian", np.array(a, dtype=">c16")


def dtypes(variant):
    """All values are exactly representable in every type."""
    tr = core.tracker()
    if variant[1] == "diag":
        ops = [np.array([-1.0, -6.0, 2.0]), np.array([-1.0, -0.5 + 2j, 0.25]), np.array([0, 0, 0])]
    elif variant[1] == "eig":
        ops = [np.array([[-1.0, 2.0, 0.0], [0.0, -3.0, 1.0], [1.0, 0.0, -6.0]]), np.array([[-1.0, 0.5j, 0.0], [0.0, -0.5, 1.0], [0.25, 0.0, -6.0]])]
    else:
        ops = [np.array([[-1.0, 2.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, -6.0]]), np.array([[-1.0, 0.5j, 0.0], [0.0, 0.0, 1.0], [0.25, 0.0, -6.0]]), np.zeros((3, 3))]

    def f(v):
        v = np.asarray(v, dtype=complex)
        return 0.5 * v * np.roll(v, 1) - 0.25 * v**3 + 0.125

    for k, L0 in enumerate(ops):
        for j, u0 in enumerate((np.array([1, 0, 2]), np.array([0.5, -0.25, 0.75]), np.array([0.5, -0.25j, 0.75 + 1j]))):
            want = None
            for (ln, L), (un, u) in itertools.product(list(variants_of(L0)), list(variants_of(u0))):
                got = trajectory(variant, L, f, u, (0.125, 0.25, 0.25))
                if want is None:
                    want = got
                compare(got, want, 1e-11, "operator as %s, state as %s (operator %d, state %d)" % (ln, un, k, j), htol=1e-7)
                tr.ev("%d%d%s%s" % (k, j, ln, un))


def realfunction(variant):
    """A nonlinear function returning real, integer, contiguous or strided arrays of equal values."""
    tr = core.tracker()
    L = np.array([-1.0, -6.0, 2.0]) if variant[1] == "diag" else np.array([[-1.0, 2.0, 0.0], [0.0, -3.0, 1.0], [1.0, 0.0, -6.0]])
    base = lambda v: np.round(4 * np.real(v)) / 4 + 1.0
    convs = {
        "c128": lambda r: r.astype(complex),
        "f64": lambda r: r.astype(float),
        "strided": lambda r: np.repeat(r.astype(complex), 2)[::2],
        "readonly": lambda r: np.broadcast_to(r.astype(complex), r.shape),
    }
    ints = {"i64": lambda r: r.astype(np.int64)}
    u = np.array([0.5, -0.25, 0.75])
    for fname, fn, cs in (("quarter", base, convs), ("one", lambda v: np.ones(3), dict(convs, **ints))):
        want = None
        for cn, c in cs.items():
            got = trajectory(variant, L, lambda v: c(fn(v)), u, (0.125, 0.25, 0.25), epsilon=1e3)
            if want is None:
                want = got
            compare(got, want, 1e-11, "nonlinear function %s returning %s" % (fname, cn), htol=1e-7)
            tr.ev(fname + cn)


def cases(tier):
    big = tier == "thorough"
    for name in common.CS + common.AS:
        if len(common.REPS[name]) > 1:
            for n in (1, 2, 3):
                for cut in (0.01, -1.0):
                    for i, sp in enumerate([SPEC] if n < 3 else [SPEC[1:]] if big else [[-0.3, 1.0 + 0.5j, -6.0, 4j, -80.0]]):
                        yield "forms-%s-%d-%g" % (name, n, cut), lambda a=name, n=n, s=sp, c=cut: forms(a, n, s, c)
            for n in (7, 16, 40, 64, 81) + ((100, 128, 200) if big else ()):
                for cut in (0.01, -1.0):
                    yield "large-%s-%d-%g" % (name, n, cut), lambda a=name, n=n, c=cut: large(a, n, c)
            for cut in (0.01, -1.0):
                yield "scales-%s-%g" % (name, cut), lambda a=name, c=cut: mixed_scales(a, c)
        if "eig" in common.REPS[name]:
            for cut in (0.01, -1.0):
                yield "nonnormal-%s-%g" % (name, cut), lambda a=name, c=cut: nonnormal(a, c, big)
    for name, reps in common.REPS.items():
        if "eig" in reps:
            yield "nearly-%s" % name, lambda a=name: nearly(a)
    for v in common.VARIANTS:
        yield "dtypes-%s" % common.vname(v), lambda v=v: dtypes(v)
        yield "function-%s" % common.vname(v), lambda v=v: realfunction(v)
