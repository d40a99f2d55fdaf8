"""C10: data owned by the caller is never modified, nor are arrays the library returned."""
import itertools

import numpy as np

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is a solver form with an operand type and every operation sequence up to the depth bound, or a library "
    "function with every type and layout of its operands; non-trivial: all operands and results were compared bytewise."
)
ASSUMPTIONS = ["the nonlinear function of the caller does not modify its argument"]


class Watch:
    """Remembers arrays and compares them bytewise later."""

    def __init__(self):
        self.items = []

    def add(self, name, a):
        if isinstance(a, np.ndarray):
            self.items.append((name, a, a.tobytes(), a.dtype, a.shape, a.strides, a.flags.writeable))
        elif isinstance(a, (list, tuple)):
            for i, x in enumerate(a):
                self.add("%s[%d]" % (name, i), x)
        return a

    def check(self, when):
        for name, a, b, dt, sh, st, wr in self.items:
            if a.dtype != dt or a.shape != sh or a.strides != st or a.flags.writeable != wr:
                core.fail("%s changed its type, shape or flags %s" % (name, when))
            if a.tobytes() != b:
                core.fail(
                    "%s was modified %s\n before %s\n after %s"
                    % (name, when, common.short(np.frombuffer(b, dtype=dt).reshape(sh)), common.short(a))
                )


def layouts(a, kinds):
    """The same values in several types and memory layouts."""
    a = np.asarray(a)
    for k in kinds:
        if k == "real":
            yield k, np.ascontiguousarray(np.real(a)).copy()
        elif k == "complex":
            yield k, np.array(a, dtype=complex)
        elif k == "fortran":
            yield k, np.array(a, dtype=complex, order="F")
        elif k == "strided":
            big = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
            v = big[tuple(slice(None, None, 2) for _ in a.shape)]
            v[...] = a
            yield k, v
        elif k == "readonly":
            v = np.array(a, dtype=complex)
            v.flags.writeable = False
            yield k, v
        elif k == "int":
            yield k, np.array(np.round(np.real(a)), dtype=int)


KINDS = ("real", "complex", "fortran", "strided", "readonly", "int")
FORCINGS = ("const", "constro", "identity", "fresh", "table")


def forcing(kind, watch, n):
    """Nonlinear functions that keep and watch everything they see and return."""
    const = np.tile(np.array([0.3, -0.2, 0.1], dtype=complex)[:n], common.SIZE[0])
    if kind == "constro":
        const.flags.writeable = False
    watch.add("the array the nonlinear function returned", const)
    table = {}
    count = [0]

    def nl(u):
        count[0] += 1
        if count[0] < 400:
            watch.add("argument %d of the nonlinear function" % count[0], u)
        if kind in ("const", "constro"):
            return const
        if kind == "identity":
            return u
        if kind == "table":  # memoized results are handed out again
            key = u.tobytes()
            if key not in table:
                table[key] = common.nl3(u)
            r = table[key]
        else:
            r = common.nl3(u)
        if count[0] < 400:
            watch.add("result %d of the nonlinear function" % count[0], r)
        return r

    return nl


def snapshot_config(c):
    return {k: getattr(c, k) for k in dir(c) if not k.startswith("_") and not callable(getattr(c, k))}


def solver_ops(variant):
    adaptive = variant[0] in common.AS

    def step(sol, w, u, h=0.1):
        r = sol.step(u, h)
        return r[0] if adaptive else r

    def evolve(sol, w, u):
        r = sol.evolve(u, 0.0, 0.3, h_init=0.2) if adaptive else sol.evolve(u, 0.0, 0.3, 0.1)
        w.add("stored state", list(sol.u))
        for x in (sol.t, sol.u):
            w.add("stored list", list(x))
        return r

    def sparse(sol, w, u):
        return sol.evolve(u, 0.0, 0.3, h_init=0.1, store_freq=2) if adaptive else sol.evolve(u, 0.0, 0.3, 0.1, store_freq=2)

    def nostore(sol, w, u):
        return sol.evolve(u, 1.0, 1.2, h_init=0.1, store_data=False) if adaptive else sol.evolve(u, 1.0, 1.2, 0.1, store_data=False)

    def reset(sol, w, u):
        sol.reset()
        return u

    ops = dict(step=step, step2=lambda s, w, u: step(s, w, u, 0.2), evolve=evolve, sparse=sparse, nostore=nostore, reset=reset)
    if adaptive:
        ops["stepbig"] = lambda s, w, u: step(s, w, u, 3.0)
        ops["empty"] = lambda s, w, u: s.evolve(u, 1.0, 1.0)
    return ops


def operator(variant):
    return common.op3(variant[1])


def solver(variant, lk, force, depth):
    """All operation sequences, the state being fed on or started afresh from the caller's array."""
    tr = core.tracker()
    ops = solver_ops(variant)
    L0 = dict(layouts(operator(variant), (lk,)))[lk]
    if lk == "int" and variant[1] == "eig":
        L0 = L0 + np.diag(np.tile([-1, 2, -3], common.SIZE[0]))
    for uk in KINDS:
        for seq in itertools.product(ops, repeat=depth):
            w = Watch()
            L = w.add("the linear operator", L0.copy() if lk not in ("strided", "readonly") else L0)
            u0 = w.add("the initial state", dict(layouts(common.big(common.U3), (uk,)))[uk])
            conf = common.config(epsilon=1e-3) if variant[0] in common.AS else None
            ec = common.etd_config(contour_points=16) if variant[0] in common.ETD else None
            before = [snapshot_config(c) for c in (conf, ec) if c is not None]
            sol = common.make(variant, L, forcing(force, w, 3), config=conf, etd_config=ec)
            w.check("by the constructor")
            u = u0
            for i, name in enumerate(seq):
                r = ops[name](sol, w, u)
                w.check("by %s, operation %d of %s" % (name, i, seq))
                w.add("the result of operation %d (%s)" % (i, name), r)
                w.add("a stored state", list(getattr(sol, "u", [])))
                u = r if i % 2 == 0 else u0
            after = [snapshot_config(c) for c in (conf, ec) if c is not None]
            if before != after:
                core.fail("configuration modified by %s: %s became %s" % (seq, before, after))
            tr.ev("%s/%s" % (uk, seq))


def configs(variant):
    """Configuration objects stay as they are whatever is integrated with them, at the ends of their ranges and of time."""
    tr = core.tracker()
    adaptive = variant[0] in common.AS
    cfgs = [{}, dict(minh=1e-300), dict(minh=0.05), dict(epsilon=1e-15), dict(epsilon=1e3), dict(incr_f=1e9), dict(decr_f=0.01), dict(safety_f=0.01),
            dict(adapt_cutoff=-3.0), dict(adapt_cutoff=0.99)] if adaptive else [{}]
    ecfgs = [{}, dict(modecutoff=1e-8), dict(modecutoff=1.0), dict(contour_points=2), dict(contour_radius=1e-3), dict(contour_radius=7.0)] if variant[0] in common.ETD else [{}]
    windows = [(0.0, 1.0), (1e7, 1e7 + 1), (-1e12, -1e12 + 0.5), (1e16, 1e16 + 4), (0.0, 1e-14), (0.0, 40.0), (2.0, 1.0), (1.0, 1.0)]
    for kw in cfgs:
        for ekw in ecfgs:
            if kw and ekw:
                continue
            conf = common.config(**kw) if adaptive else None
            ec = common.etd_config(**ekw) if variant[0] in common.ETD else None
            before = [snapshot_config(c) for c in (conf, ec) if c is not None]
            ops = []
            for t0, tf in windows:
                for n in (None, 1, 3, 40):
                    if adaptive:
                        ops.append(("evolve(%g,%g,%s)" % (t0, tf, n), lambda s, a=t0, b=tf, n=n: s.evolve(common.U3, a, b, **({} if n is None else dict(h_init=abs(b - a) / n)))))
                    elif tf > t0 and n:
                        ops.append(("evolve(%g,%g,%s)" % (t0, tf, n), lambda s, a=t0, b=tf, n=n: s.evolve(common.U3, a, b, (b - a) / n)))
            for h in (1e-300, 1e-12, 0.1, 5.0, 0.0):
                ops.append(("step(%g)" % h, lambda s, h=h: s.step(common.U3.astype(complex), h)))
            for bad in (0, 7):
                for name, op in ops:
                    calls = [0]

                    def nl(u):
                        calls[0] += 1
                        if calls[0] > 3000:
                            raise core.Budget("evaluations") if calls[0] > 100000 else common.Injected("enough")
                        return common.nl3(u) * (np.nan if bad and calls[0] >= bad else 1.0)

                    sol = common.make(variant, operator(variant), nl, config=conf, etd_config=ec)
                    common.attempt(lambda: op(sol))
                    after = [snapshot_config(c) for c in (conf, ec) if c is not None]
                    if before != after:
                        core.fail("configuration modified by %s: %s became %s" % (name, before, after))
                    for c, d in ((getattr(sol, "config", None), conf), (getattr(sol, "etd_config", None), ec)):
                        if d is not None and c is not d:
                            core.fail("%s replaced the configuration object of the solver" % name)
                    tr.ev("%s/%s/%s/%d" % (kw, ekw, name, bad))


VALUES = {
    "denormal": np.array([5e-324, -1e-310, 1e-320j]),
    "tiny": np.array([1e-31 + 1e-40j, 0.5, -1e-18j]),
    "negzero": np.array([-0.0, 0.7, complex(-0.0, -0.0)]),
    "almostreal": np.array([1.0 + 1e-18j, -0.5 + 1e-300j, 0.2]),
    "huge": np.array([1e60, -1e45j, 1e-60]),
    "nonfinite": np.array([1.0, np.nan, complex(0.5, np.inf)]),
    "mixed": np.array([1e20, 1e-20, 1.0 + 1j]),
}


def values(variant, vk):
    """Unusual values in the operator, the state and in everything the nonlinear function returns."""
    tr = core.tracker()
    ops = solver_ops(variant)
    x = VALUES[vk]
    for where in ("forcing", "result", "state", "operator", "all"):
        for cast in ("complex", "real"):
            y = x if cast == "complex" else x.real.copy()
            for name, second in itertools.product(ops, ("step", "evolve")):
                w = Watch()
                L = operator(variant).copy()
                if where in ("operator", "all") and vk not in ("huge", "nonfinite", "mixed"):
                    L = L + (y if L.ndim == 1 else np.diag(y) + np.outer(y, y[::-1]))
                u0 = w.add("the initial state", y.copy() if where in ("state", "all") else common.U3.copy())
                c = y.copy()
                seen = [0]

                def nl(u):
                    seen[0] += 1
                    if seen[0] > 20000:
                        raise core.Budget("evaluations")
                    if seen[0] < 100:
                        w.add("argument %d of the nonlinear function" % seen[0], u)
                    if where in ("forcing", "all"):
                        r = c
                    elif where == "result":
                        r = 0.1 * u + y
                    else:
                        r = 0.1 * u
                    if seen[0] < 100:
                        w.add("result %d of the nonlinear function" % seen[0], r)
                    return r

                w.add("the linear operator", L)
                sol = common.make(variant, L, nl)
                for op in (name, second):
                    r = common.attempt(lambda: ops[op](sol, w, u0))
                    w.check("by %s in %s" % (op, (name, second)))
                    if r[0] == "ok":
                        w.add("the result of %s" % op, r[1])
                    elif not isinstance(r[2], RuntimeError):
                        core.fail("%s with %s values (%s) raised %r" % (op, vk, where, r[2]))
                    w.add("a stored state", list(sol.u))
                tr.ev("%s/%s/%s/%s" % (where, cast, name, second))


ORDERS = (0, 1, 2, 3, 4, 5, 8, 12)


# -- functions ------------------------------------------------------------------
def functions(m=1):
    """name -> (list of operand builders, call)."""
    from rkstiff import derivatives, grids, models, transforms

    xr, kr = grids.construct_x_kx_rfft(8 * m)
    xf, kf = grids.construct_x_kx_fft(8 * m)
    xc, D = grids.construct_x_dx_cheb(6 * m)
    ur = np.cos(xr) + 0.2 * np.sin(2 * xr)
    uf = np.fft.rfft(ur)
    H = transforms.HankelTransform(6 * m, 2.0)
    u2 = np.cos(np.arange(2.0 * (6 * m + 1))).reshape(-1, 2)
    out = {}
    sl, kl = grids.construct_x_kx_rfft(8 * m, 0.0, 1e5)
    sf, klf = grids.construct_x_kx_fft(8 * m, 0.0, 1e5)
    ss, ks_ = grids.construct_x_kx_rfft(8 * m, 0.0, 1e-5)
    for n in ORDERS:
        out["dx_rfft_long%d" % n] = ((kl, ur), lambda k, u, n=n: derivatives.dx_rfft(k, u, n), ("real", "strided"))
        out["dx_rfft_short%d" % n] = ((ks_, ur), lambda k, u, n=n: derivatives.dx_rfft(k, u, n), ("real", "strided"))
        out["dx_fft_long%d" % n] = ((klf, ur + 1j), lambda k, u, n=n: derivatives.dx_fft(k, u, n), None)
        out["dx_rfft%d" % n] = ((kr, ur), lambda k, u, n=n: derivatives.dx_rfft(k, u, n), ("real", "strided"))
        out["dx_fft%d" % n] = ((kf, ur + 1j), lambda k, u, n=n: derivatives.dx_fft(k, u, n), None)
        out["dx_cheb%d" % n] = ((D, np.sin(xc)), lambda d, u, n=n: derivatives.dx_cheb(d, u, n), None)
        out["dx_cheb2d%d" % n] = ((D, u2), lambda d, u, n=n: derivatives.dx_cheb(d, u, n), None)
    out["mirror"] = ((H.r, H.r**2), lambda r, u: grids.mirror_grid(r, u), None)
    out["mirror0"] = ((H.r, np.arange(12.0 * m).reshape(6 * m, 2)), lambda r, u: grids.mirror_grid(r, u, axis=0), None)
    out["mirror1"] = ((H.r, np.arange(12.0 * m).reshape(2, 6 * m)), lambda r, u: grids.mirror_grid(r, u, axis=1), None)
    out["mirror_none"] = ((H.r,), lambda r: grids.mirror_grid(r), None)
    out["ht"] = ((H.r**2,), lambda f: transforms.HankelTransform(6 * m, 2.0).ht(f), None)
    out["iht"] = ((H.r**2,), lambda f: transforms.HankelTransform(6 * m, 2.0).iht(f), None)
    out["ht_shared"] = ((H.r**2,), lambda f: (H.ht(f), H.iht(f), H.r, H.kr, H.hankel_matrix(), H.bessel_zeros()), None)
    out["soliton"] = ((xr,), lambda x: models.kdv_soliton(x, 0.7, 0.1, 0.3), ("real", "strided"))
    out["solitons"] = ((xr, np.array([0.5, 0.7]), np.array([-1.0, 2.0])), lambda x, a, x0: models.kdv_multi_soliton(x, a, x0, 0.3), ("real", "strided"))

    def ops(make):
        def call(k, u):
            L, nl = make(k)
            return L, nl(u), nl(u)

        return call

    out["kdv"] = ((kr, uf), ops(models.kdv_ops), None)
    out["burgers"] = ((kr, uf), ops(lambda k: models.burgers_ops(k, 0.1)), None)

    def ac(x, d, u):
        L, nl = models.allen_cahn_ops(x, d, 0.02)
        return L, nl(u), nl(u)

    out["allen_cahn"] = ((xc, D, 0.1 * xc[1:-1]), ac, None)
    return out


def function(name, m=1):
    """Every combination of layouts; then a second call with other operands leaves the first results alone."""
    tr = core.tracker()
    args, call, kinds = functions(m)[name]
    combos = 0
    ks = kinds or ("real", "complex", "fortran", "strided")
    for combo in itertools.product(ks, repeat=len(args)):
        for ro, vk in ((False, None), (True, None)) + tuple((False, k) for k in VALUES):
            w = Watch()
            ops = []
            for i, (a, k) in enumerate(zip(args, combo)):
                b = dict(layouts(a, (k,)))[k]
                if vk:  # unusual values in some entries
                    y = VALUES[vk] if np.iscomplexobj(b) else VALUES[vk].real
                    b[(Ellipsis, 1) if b.ndim > 1 else 1] = y[0]
                    b[(Ellipsis, -1) if b.ndim > 1 else -1] = y[1]
                if ro:
                    b.flags.writeable = False
                ops.append(w.add("operand %d" % i, b))
            r = call(*ops)
            w.check("by %s" % name)
            w.add("the result of the first call", r)
            other = [np.array(a) * 0.5 for a in args]
            call(*other)
            call(*ops)
            w.check("by a later call of %s" % name)
            combos += 1
            tr.ev("%s%s%s" % (combo, ro, vk))


def grids_twice():
    """Grids constructed again are new arrays with the same values, whatever happened to the first."""
    from rkstiff import grids, transforms

    tr = core.tracker()
    makers = {
        "rfft": lambda: grids.construct_x_kx_rfft(8, 0.0, 3.0),
        "fft": lambda: grids.construct_x_kx_fft(8, 0.0, 3.0),
        "cheb": lambda: (grids.construct_x_cheb(6, 0.0, 3.0),),
        "dxcheb": lambda: grids.construct_x_dx_cheb(6, 0.0, 3.0),
        "hankel": lambda: grids.construct_r_kr_hankel(6, 3.0)[:3],
        "transform": lambda: (lambda H: (H.r, H.kr, H.hankel_matrix(), H.bessel_zeros()))(transforms.HankelTransform(6, 3.0)),
    }
    for name, mk in makers.items():
        first = mk()
        keep = [a.copy() for a in first]
        w = Watch()
        w.add("first grid", list(first))
        for other in makers.values():
            other()
        w.check("by constructing another grid")
        for a in first:
            a *= 7.0
        for a, b in zip(mk(), keep):
            common.expect_same(a, b, "%s grid constructed again after the first one was changed" % name)
        tr.ev(name)


def hankel_reconfigure():
    """Arrays handed out stay as they are when the object is reconfigured."""
    from rkstiff.transforms import HankelTransform

    tr = core.tracker()
    for seq in itertools.product(("nr5", "nr8", "nr6", "rmax1", "rmax3"), repeat=3):
        H = HankelTransform(6, 2.0)
        w = Watch()
        for i, op in enumerate(seq):
            w.add("grid arrays", [H.r, H.kr, H.hankel_matrix(), H.bessel_zeros(), H.ht(H.r), H.iht(H.kr)])
            if op[:2] == "nr":
                H.nr = int(op[2:])
            else:
                H.rmax = float(op[4:])
            H.ht(H.r)
            w.check("by setting %s after %s" % (op, seq[:i]))
        tr.ev(str(seq))


def operators_kept():
    """Operator arrays of a model are not changed by solvers that use them, nor by its nonlinear function."""
    from rkstiff import grids, models

    tr = core.tracker()
    x, kx = grids.construct_x_kx_rfft(8)
    xc, D = grids.construct_x_dx_cheb(5)
    for v in common.VARIANTS:
        w = Watch()
        if v[1] == "diag":
            L, nl = models.burgers_ops(w.add("kx", kx), 0.1)
            u = np.fft.rfft(np.sin(x))
        else:
            L, nl = models.allen_cahn_ops(w.add("x", xc), w.add("D", D), 0.1)
            u = 0.1 * np.sin(np.pi * xc[1:-1])
        w.add("the operator", L)
        w.add("the state", u)
        sol = common.make(v, L, nl)
        for k in range(3):
            r = sol.step(u, 0.05)
            w.check("by step %d of %s" % (k, common.vname(v)))
        sol.evolve(u, 0.0, 0.1, 0.05)
        w.check("by evolve of %s" % common.vname(v))
        w.add("the result", r[0] if v[0] in common.AS else r)
        sol.evolve(u, 0.0, 0.2, 0.1)
        w.check("by a second evolve")
        tr.ev(common.vname(v))


def cases(tier):
    big = tier == "thorough"
    for v in common.VARIANTS:
        for lk in KINDS:
            for f in FORCINGS:
                d = 3 if big else 2
                yield "solver-%s-%s-%s" % (common.vname(v), lk, f), lambda v=v, l=lk, f=f, d=d: solver(v, l, f, d)
        k = 500 if v[1] == "diag" else 12
        for lk in KINDS if big else ("complex", "real"):
            for f in FORCINGS:
                yield "large-%s-%s-%s" % (common.vname(v), lk, f), common.sized(k, lambda v=v, l=lk, f=f: solver(v, l, f, 2 if big else 1))
        for vk in VALUES:
            yield "values-%s-%s" % (common.vname(v), vk), lambda v=v, k=vk: values(v, k)
    for name in (
        ["%s%d" % (f, n) for f in ("dx_rfft", "dx_rfft_long", "dx_rfft_short", "dx_fft", "dx_fft_long", "dx_cheb", "dx_cheb2d") for n in ORDERS]
        + ["mirror", "mirror0", "mirror1", "mirror_none", "ht", "iht", "ht_shared", "soliton", "solitons", "kdv", "burgers", "allen_cahn"]
    ):
        yield "function-%s" % name, lambda n=name: function(n)
        for m in (9,) if not big else (9, 70):
            yield "function-%s-times%d" % (name, m), lambda n=name, m=m: function(n, m)
    for v in common.VARIANTS:
        yield "configs-%s" % common.vname(v), lambda v=v: configs(v)
    yield "grids", grids_twice
    yield "reconfigure", hankel_reconfigure
    yield "operators", operators_kept
