"""C18: configuration objects against reference state machines, and the effect of every accepted value."""
import itertools
import math

import numpy as np

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is an attribute (or pair of attributes, or solver) with all sequences of assignments up to the depth bound; after "
    "every assignment all attributes are read back and compared with a reference state machine; effect cases compare the next step "
    "and evolve with a solver built from the final values; non-trivial: at least one assignment was made."
)

NAN, INF = float("nan"), float("inf")
UP1, DN1 = math.nextafter(1.0, 2.0), math.nextafter(1.0, 0.0)
TINY = 5e-324

S_OK = dict(
    epsilon=lambda v: v > 0,
    incr_f=lambda v: v > 1,
    decr_f=lambda v: v < 1,
    safety_f=lambda v: v <= 1,
    adapt_cutoff=lambda v: v < 1,
    minh=lambda v: v > 0,
)
S_DEF = dict(epsilon=1e-4, incr_f=1.25, decr_f=0.85, safety_f=0.8, adapt_cutoff=0.01, minh=1e-16)
S_VAL = dict(
    epsilon=(1e-4, TINY, 1.0, 1, INF, 0.0, -0.0, 0, -TINY, -1.0, NAN, np.float64(1e-9), np.float64(NAN)),
    incr_f=(1.25, UP1, 2, INF, 1.0, 1, DN1, 0.0, -2.0, NAN, np.float64(1.5), np.float64(1.0)),
    decr_f=(0.85, DN1, 0.0, 0, -1.0, 1.0, 1, UP1, 2.0, INF, NAN, np.float64(0.5), np.float64(1.0)),
    safety_f=(0.8, 1.0, 1, DN1, 0.0, -1.0, UP1, 2, INF, NAN, np.float64(0.9), np.float64(NAN)),
    adapt_cutoff=(0.01, DN1, 0.0, 0, -1.0, 1.0, 1, UP1, 5.0, INF, NAN, np.float64(0.1), np.float64(1.0)),
    minh=(1e-16, TINY, 1.0, 3, 0.0, -0.0, 0, -TINY, -1.0, NAN, np.float64(1e-9), np.float64(-1.0)),
)
E_DEF = dict(modecutoff=0.01, contour_points=32, contour_radius=1.0)
E_VAL = dict(
    modecutoff=(0.01, TINY, 1.0, 1, DN1, UP1, 0.0, 0, -TINY, -0.5, 2, INF, -INF, NAN, np.float64(0.3), np.float64(NAN)),
    contour_points=(32, 2, 3, 10**6, 1, 0, -1, -32, 2.0, 2.5, 1.0, 0.5, 64.0, 128.0, 1e4, 101.5, 2.0**40, NAN, INF, "16", "1", None, np.float64(8), np.float64(256), [32]),
    contour_radius=(1.0, TINY, 2, 1e10, INF, 0.0, -0.0, 0, -TINY, -1.0, -INF, NAN, np.float64(0.5), np.float64(NAN)),
)


def e_expect(attr, v):
    """Expected exception of an assignment, None if accepted."""
    if attr == "contour_points":
        if not isinstance(v, int):
            return TypeError
        return None if v > 1 else ValueError
    ok = 0 < v <= 1 if attr == "modecutoff" else v > 0
    return None if ok else ValueError


def s_expect(attr, v):
    return None if S_OK[attr](v) else ValueError


class Machine:
    """A configuration class with its reference model."""

    def __init__(self, kind):
        self.kind = kind
        self.defaults = S_DEF if kind == "S" else E_DEF
        self.values = S_VAL if kind == "S" else E_VAL
        self.expect = s_expect if kind == "S" else e_expect

    def new(self, **kw):
        return common.config(**kw) if self.kind == "S" else common.etd_config(**kw)

    def check(self, cfg, model, what):
        for k, v in model.items():
            got = getattr(cfg, k)
            if not (got == v and isinstance(got, (int, float)) and not isinstance(got, bool)):
                core.fail("%s: %s reads %r, expected %r" % (what, k, got, v))

    def assign(self, cfg, model, attr, v, what):
        want = self.expect(attr, v)
        try:
            setattr(cfg, attr, v)
        except (ValueError, TypeError) as e:
            if want is None or type(e) is not want:
                core.fail("%s: %s = %r raised %s, expected %s" % (what, attr, v, type(e).__name__, want and want.__name__))
            return False
        if want is not None:
            core.fail("%s: %s = %r was accepted (reads %r)" % (what, attr, v, getattr(cfg, attr)))
        model[attr] = v
        return True


def sequences(kind, first, depth):
    """All assignment sequences starting with attribute ``first``."""
    tr = core.tracker()
    m = Machine(kind)
    alpha = [(a, v) for a in m.values for v in m.values[a]]
    heads = [(first, v) for v in m.values[first]]
    for head in heads:
        for rest in itertools.product(alpha, repeat=depth - 1):
            cfg, model = m.new(), dict(m.defaults)
            other = m.new()
            for i, (a, v) in enumerate((head,) + rest):
                m.assign(cfg, model, a, v, "after %r" % ((head,) + rest[:i],))
                m.check(cfg, model, "after %r" % ((head,) + rest[:i],))
            m.check(other, m.defaults, "another object after %r" % ((head,) + rest,))
            tr.state((kind,) + tuple(sorted((k, repr(x)) for k, x in model.items())))
            tr.transitions += depth
        tr.ev(repr(head), n=len(alpha) ** (depth - 1))


def constructor(kind, positional):
    """All constructor calls with up to the given alphabet for every argument."""
    tr = core.tracker()
    m = Machine(kind)
    names = list(m.defaults)
    if kind == "S":
        pick = dict(
            epsilon=(None, TINY, 0.0, NAN), incr_f=(None, UP1, 1.0, NAN), decr_f=(None, DN1, 1.0, NAN),
            safety_f=(None, 1.0, UP1, NAN), adapt_cutoff=(None, DN1, 1.0, NAN), minh=(None, 1.0, -1.0, NAN),
        )
    else:
        pick = {k: (None,) + tuple(v) for k, v in E_VAL.items()}
    for vals in itertools.product(*[pick[k] for k in names]):
        given = {k: v for k, v in zip(names, vals) if v is not None}
        bad = [m.expect(k, v) for k, v in given.items() if m.expect(k, v)]
        try:
            if positional:
                cfg = common_class(kind)(*[m.defaults[k] if v is None else v for k, v in zip(names, vals)])
            else:
                cfg = m.new(**given)
        except (ValueError, TypeError) as e:
            if type(e) not in bad:
                core.fail("constructor with %r raised %s (%s)" % (given, type(e).__name__, e))
        else:
            if bad:
                core.fail("constructor accepted %r" % (given,))
            m.check(cfg, dict(m.defaults, **given), "constructor with %r" % (given,))
        tr.ev(repr(vals))


def common_class(kind):
    if kind == "S":
        from rkstiff.solveras import SolverConfig

        return SolverConfig
    from rkstiff.etd import ETDConfig

    return ETDConfig


# -- effect on solvers ---------------------------------------------------------------
S_EFF = dict(
    epsilon=(1e-2, 1e-8),
    incr_f=(1.0001, 3.9),
    decr_f=(0.3, 0.97),
    safety_f=(0.4, 1.0),
    adapt_cutoff=(-1.0, 0.9),
    minh=(1e-14, 0.35),
)
E_EFF = dict(modecutoff=(1e-4, 1.0), contour_points=(2, 16), contour_radius=(0.5, 3.0))
L3 = np.array([-1.0, -40.0, 0.02])
U3 = np.array([0.8, -0.5, 0.003])
BAD = dict(epsilon=0.0, incr_f=1.0, decr_f=1.0, safety_f=1.5, adapt_cutoff=NAN, minh=-1.0,
           modecutoff=0.0, contour_points=1, contour_radius=NAN)


def oper(rep):
    if rep == "diag":
        return L3
    S = np.array([[1.0, 0.3, 0.0], [-0.2, 1.0, 0.4], [0.1, -0.3, 1.0]])
    return (S * L3).dot(np.linalg.inv(S))


def outcome(fn):
    r = common.attempt(fn)
    return r if r[0] == "ok" else r[:2]


def compare(a, b, what):
    if a[0] != b[0] or (a[0] == "exc" and a[1] != b[1]):
        core.fail("%s: %r against %r for a solver built with these values" % (what, a[:2], b[:2]))
    if a[0] == "exc":
        return
    x, y = a[1], b[1]
    if isinstance(x, tuple):
        common.close(x[0], y[0], 1e-9, what + ", state")
        for p, q, nm in ((x[1], y[1], "accepted step"), (x[2], y[2], "suggested step")):
            if not abs(p - q) <= 1e-6 * abs(q):
                core.fail("%s: %s %r against %r for a solver built with these values" % (what, nm, p, q))
    else:
        common.close(x, y, 1e-9, what)


def trajectory(sol, u, h):
    """evolve's outcome with the stored data (exact comparison: same operations in the same order)."""
    r = outcome(lambda: sol.evolve(u, 0.0, 1.0, h) if h else sol.evolve(u, 0.0, 1.0))
    return r, list(sol.t), [np.array(x) for x in sol.u]


def same_traj(a, b, what):
    (r1, t1, u1), (r2, t2, u2) = a, b
    if r1[0] != r2[0] or (r1[0] == "exc" and r1[1] != r2[1]) or t1 != t2:
        core.fail("%s: evolve gives %r with times %s, a solver built with these values %r with times %s" % (
            what, r1[:2], common.short(t1), r2[:2], common.short(t2)))
    if r1[0] == "ok":
        common.expect_same(r1[1], r2[1], what + ": evolve")
    for x, y in zip(u1, u2):
        common.expect_same(x, y, what + ": stored state")


def effects(v, attr, kind, depth):
    """Assignments interleaved with steps; every assigned value governs the following step and evolve."""
    tr = core.tracker()
    name, rep = v
    L = oper(rep)
    nl = common.nl3
    adaptive = name in common.AS
    eff = S_EFF if kind == "S" else E_EFF
    ops = [("set", a, x) for a in eff for x in eff[a]] + [("bad", attr, BAD[attr]), ("step",)]
    if kind == "E":
        ops.append(("same",))  # a step of the size taken last
    h0 = 0.37
    for first in eff[attr]:
        for rest in itertools.product(ops, repeat=depth - 1):
            seq = (("set", attr, first),) + rest
            cfg = common.config() if kind == "S" else common.etd_config()
            model = dict(S_DEF if kind == "S" else E_DEF)
            kw = {"config": cfg} if kind == "S" else {"etd_config": cfg}
            sol = common.make(v, L, nl, **kw)
            held = sol.config if kind == "S" else sol.etd_config
            u, h = U3, h0
            last = h0
            dead = False
            for i, op in enumerate(seq + (("same",) if kind == "E" and any(o[0] in ("step", "same") for o in seq) else ("step",),)):
                what = "after %r" % (seq[:i],)
                if op[0] == "set":
                    setattr(cfg if i % 2 else held, op[1], op[2])
                    model[op[1]] = op[2]
                elif op[0] == "bad":
                    common.expect_raises(ValueError, lambda: setattr(held, op[1], op[2]), "%s: %s = %r" % (what, op[1], op[2]))
                else:
                    h = last = h * 0.93 if op[0] == "step" else last
                    ref = common.make(v, L, nl, **({"config": common.config(**model)} if kind == "S" else {"etd_config": common.etd_config(**model)}))
                    a = outcome(lambda: sol.step(u, h))
                    compare(a, outcome(lambda: ref.step(u, h)), "%s, step of h=%g" % (what, h))
                    if a[0] == "exc":
                        dead = True
                        break
                    u = a[1][0] if adaptive else a[1]
                    h = a[1][1] if adaptive else h
                tr.transitions += 1
            ref = common.make(v, L, nl, **({"config": common.config(**model)} if kind == "S" else {"etd_config": common.etd_config(**model)}))
            hh = 0.125 if not adaptive else None
            if not dead or adaptive:
                same_traj(trajectory(sol, U3, hh), trajectory(ref, U3, hh), "after %r" % (seq,))
            tr.ev(repr(seq))
            tr.state(tuple(sorted(model.items())))


def shared(kind, n1, n2):
    """One configuration object held by two solvers: an assignment through any handle governs both."""
    tr = core.tracker()
    eff = S_EFF if kind == "S" else E_EFF
    for handles in itertools.product(range(3), repeat=2):
        for (a1, a2) in itertools.product(eff, repeat=2):
            for x1, x2 in itertools.product(eff[a1], eff[a2]):
                mk = common.config if kind == "S" else common.etd_config
                key = "config" if kind == "S" else "etd_config"
                cfg = mk()
                sols = [common.make((n, "diag"), L3, common.nl3, **{key: cfg}) for n in (n1, n2)]
                hs = [cfg] + [getattr(s, key) for s in sols]
                setattr(hs[handles[0]], a1, x1)
                setattr(hs[handles[1]], a2, x2)
                model = {a1: x1}
                model[a2] = x2
                for n, s in zip((n1, n2), sols):
                    ref = common.make((n, "diag"), L3, common.nl3, **{key: mk(**model)})
                    compare(outcome(lambda: s.step(U3, 0.37)), outcome(lambda: ref.step(U3, 0.37)), "%s sharing a configuration, %s=%g then %s=%g" % (n, a1, x1, a2, x2))
                tr.ev("%s%s%s%s%s" % (handles, a1, x1, a2, x2))


def during(v, attr):
    """A value assigned by the nonlinear function while evolve runs governs the following steps of that run."""
    tr = core.tracker()
    name, rep = v
    L = oper(rep)
    adaptive = name in common.AS
    base = dict(contour_points=3) if attr == "contour_radius" else dict(contour_points=2) if attr == "modecutoff" else {}
    moved = 0
    # adaptive: with changing steps, and with equal ones (steps never grow if incr_f is large)
    sets = (dict(epsilon=1e-3), dict(epsilon=0.5, incr_f=100.0)) if adaptive else (None,)
    for (x, y), cset in itertools.product(itertools.permutations(E_EFF[attr], 2), sets):
        old, new = dict(base, **{attr: x}), dict(base, **{attr: y})
        for call in (1, 2, 3, 5, 8, 13, 21, 34):
            cfg = common.etd_config(**old)
            seen, args = [0], []

            def nl(u):
                seen[0] += 1
                if seen[0] <= call:
                    args.append(np.array(u))
                if seen[0] == call:
                    setattr(cfg, attr, y)
                return common.nl3(u)

            kw = dict(config=common.config(**cset)) if adaptive else {}
            sol = common.make(v, L, nl, etd_config=cfg, **kw)
            r = outcome(lambda: sol.evolve(U3, 0.0, 0.8, **(dict(h_init=0.05) if adaptive else dict(h=0.05))))
            if r[0] == "exc":
                core.fail("evolve raised %s with %s %r set to %r at evaluation %d" % (r[1], attr, x, y, call))
            t, u = [float(z) for z in sol.t], [np.array(z) for z in sol.u]
            hit = [i for i in range(len(u)) if any(np.max(np.abs(a - u[i])) <= 1e-13 * np.max(np.abs(u[i])) for a in args)]
            if seen[0] < call or not hit:
                continue
            k = max(hit)
            for i in range(len(u) - 1):
                refs = []
                for c in ([old] if i < k - 1 else [new] if i > k + 1 else [old, new]):
                    refs.append(common.make(v, L, common.nl3, etd_config=common.etd_config(**c), **dict(config=common.config(epsilon=1e10)) if adaptive else {}))
                h = t[i + 1] - t[i]
                w = [(q.step(u[i], h)[0] if adaptive else q.step(u[i], h)) for q in refs]
                d = [np.max(np.abs(z - u[i + 1])) / np.max(np.abs(z)) for z in w]
                if not min(d) <= 1e-9:
                    core.fail("%s = %r set to %r at evaluation %d (step %d): step %d (h=%.4g) is not the step under the value in force (off by %.2g)" % (attr, x, y, call, k, i, h, min(d)))
                if i > k + 1:
                    q = common.make(v, L, common.nl3, etd_config=common.etd_config(**old), **dict(config=common.config(epsilon=1e10)) if adaptive else {})
                    z = q.step(u[i], h)
                    moved += np.max(np.abs((z[0] if adaptive else z) - u[i + 1])) > 1e-8 * np.max(np.abs(u[i]))
            tr.ev("%g%g%d%s" % (x, y, call, cset))
            tr.transitions += len(u) - 1
    tr.count("steps_that_differ_under_the_old_value", int(moved))


def replaced(v):
    """Assigning another configuration object to a solver governs the following steps."""
    tr = core.tracker()
    L = oper(v[1])
    for a, b in itertools.product([(k, x) for k in S_EFF for x in S_EFF[k]], repeat=2):
        c1, c2 = common.config(**dict([a])), common.config(**dict([b]))
        sol = common.make(v, L, common.nl3, config=c1)
        outcome(lambda: sol.step(U3, 0.37))
        sol.reset()
        sol.config = c2
        ref = common.make(v, L, common.nl3, config=common.config(**dict([b])))
        compare(outcome(lambda: sol.step(U3, 0.37)), outcome(lambda: ref.step(U3, 0.37)), "configuration %r replaced by %r" % (a, b))
        tr.ev("%r%r" % (a, b))


def governs(v, late):
    """Exactly the modes below modecutoff depend on the contour, and on every value of contour_points and contour_radius,
    whether given at construction or assigned later (``late``: after a step with other values)."""
    tr = core.tracker()
    name, rep = v
    adaptive = name in common.AS
    f = lambda u: 0.3 + 0.1 * u

    def result(zs, h, **vals):
        L = np.array(zs) / h
        L = L if rep == "diag" else np.diag(L)
        kw = dict(config=common.config(epsilon=1e10)) if adaptive else {}
        u = np.linspace(0.5, 1.0, len(zs)).astype(complex)
        if late:
            cfg = common.etd_config(modecutoff=0.3, contour_points=9, contour_radius=1.5)
            sol = common.make(v, L, f, etd_config=cfg, **kw)
            sol.step(u, h)
            if late == "reset":
                sol.reset()
            for k, x in vals.items():
                setattr(cfg, k, x)
        else:
            sol = common.make(v, L, f, etd_config=common.etd_config(**vals), **kw)
        r = sol.step(u, h)
        return np.array(r[0] if adaptive else r)

    mags = (1e-5, 1e-3, 0.004, 0.0049, 0.0051, 0.02, 0.05 * 0.99, 0.05 * 1.01, 0.3, 0.49, 0.51, 0.9, 0.99)
    for ph in (-1.0, 1.0, 1j, np.exp(2.5j)):
        zs = [m * ph for m in mags]
        for h in (1.0, 0.02, 300.0):
            # every number of points and every radius has its own rounding-free result
            for attr, vals, fixed in (("contour_points", (2, 3, 4, 5, 6, 7, 8), dict(contour_radius=4.0)), ("contour_radius", (0.5, 0.7, 1.0, 1.2, 2.0, 3.0, 4.5), dict(contour_points=3))):
                rs = [result(zs, h, modecutoff=1.0, **dict(fixed, **{attr: x})) for x in vals]
                for (x, a), (y, b) in itertools.combinations(zip(vals, rs), 2):
                    same = np.abs(a - b) <= 1e-11 * np.abs(b) if rep != "full" else [np.max(np.abs(a - b)) <= 1e-14]
                    if rep == "full" and attr == "contour_points" and max(x, y) > 5:
                        continue
                    if np.any(same):
                        core.fail("%s %r and %r give the same step (z = %s, h=%g)" % (attr, x, y, [z for z, w in zip(zs, same) if w], h))
                    tr.ev("%s%s%s%s%s" % (attr, x, y, ph, h))
            if rep == "full":
                continue
            good = result(zs, h, modecutoff=1e-12 if rep == "diag" else 1e-12, contour_points=2, contour_radius=4.0)
            for cut in (2e-4, 0.003, 0.005, 0.01, 0.05, 0.1, 0.5, 0.95, 1.0):
                r = result(zs, h, modecutoff=cut, contour_points=2, contour_radius=4.0)
                for z, a, b in zip(zs, r, good):
                    below = abs(z) < cut
                    moved = abs(a - b) > 1e-14 * abs(b)
                    if abs(a - b) > 1e-5 * abs(b) if not below else not moved:
                        core.fail("modecutoff=%g: a mode with |z| = %g %s" % (cut, abs(z), "is not evaluated on the contour" if below else "is not evaluated directly"))
                tr.ev("cut%g%s%g" % (cut, ph, h))


def visible():
    """The effect alphabet is not vacuous: every attribute value pair leads to different behaviour of some solver."""
    tr = core.tracker()
    for kind, eff in (("S", S_EFF), ("E", E_EFF)):
        mk, key = (common.config, "config") if kind == "S" else (common.etd_config, "etd_config")
        for a, (x, y) in eff.items():
            diff = 0
            for n in ("ETD35", "ETD34"):
                for h in (0.37, 0.01):
                    r = []
                    for val in (x, y):
                        kw = {a: val}
                        if a == "modecutoff":
                            kw["contour_points"] = 2
                        if a == "contour_radius":
                            kw["contour_points"] = 3
                        s = common.make((n, "diag"), L3, common.nl3, **{key: mk(**kw)})
                        o = outcome(lambda: s.step(U3, h))
                        r.append(o if o[0] == "exc" else (tuple(o[1][0]), o[1][1], o[1][2]))
                    diff += r[0] != r[1]
            if diff:
                tr.count("effect_visible")
            else:
                core.fail("%s has no effect on any enumerated step (%r against %r)" % (a, x, y))
            tr.ev(a)


def cases(tier):
    big = tier == "thorough"
    for kind, vals in (("S", S_VAL), ("E", E_VAL)):
        for a in vals:
            yield "assign-%s" % a, lambda k=kind, a=a: sequences(k, a, 3 if big or k == "E" else 2)
        for pos in (False, True):
            yield "constructor-%s-%s" % (kind, pos), lambda k=kind, p=pos: constructor(k, p)
    for v in common.VAS:
        for a in S_EFF:
            yield "effect-%s-%s" % (common.vname(v), a), lambda v=v, a=a: effects(v, a, "S", 3 if big else 2)
        yield "replace-%s" % common.vname(v), lambda v=v: replaced(v)
    for v in common.VARIANTS:
        if v[0] in common.ETD:
            for a in E_EFF:
                yield "effect-%s-%s" % (common.vname(v), a), lambda v=v, a=a: effects(v, a, "E", 3)
                yield "governs-%s-%s" % (common.vname(v), a), lambda v=v, l={"modecutoff": "", "contour_points": "late", "contour_radius": "reset"}[a]: governs(v, l)
                yield "during-%s-%s" % (common.vname(v), a), lambda v=v, a=a: during(v, a)
    for n1, n2 in itertools.combinations_with_replacement(common.AS, 2):
        yield "shared-%s-%s" % (n1, n2), lambda a=n1, b=n2: shared("S", a, b)
    for n1, n2 in itertools.combinations_with_replacement(common.ETD, 2):
        yield "shared-etd-%s-%s" % (n1, n2), lambda a=n1, b=n2: shared("E", a, b)
    yield "visible", visible
