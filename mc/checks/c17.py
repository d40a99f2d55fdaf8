"""C17: adaptive and constant-step solvers of one scheme agree step for step."""
import itertools

import numpy as np

from .. import common, core
from . import c11, c16

LEVEL = "exploration"
RULE = (
    "A case is a pair of sibling solvers in one operator form with a problem or set of spectra; every accepted step of every "
    "chain and trajectory is repeated with the constant-step sibling; non-trivial: a step was compared."
)

SIB = {"ETD35": "ETD5", "ETD34": "ETD4", "IF34": "IF4"}


def cs_form(rep):
    return "diag" if rep == "diag" else "full"


def nl(u):
    return 0.6 * u * np.roll(u, 1) / (1 + np.abs(u) ** 2) - 0.4 * u + 0.2


def along(name, rep, pname):
    """Every accepted step of an adaptive trajectory against the sibling from the same state, and the whole trajectory."""
    tr = core.tracker()
    v = (name, rep)
    L, f, u = c16.setup(v, pname)
    for eps, h, (t0, tf) in itertools.product((1e-2, 1e-4, 1e-6), (None, 0.01, 1.0), ((0.0, 1.0), (-1.0, 0.5))):
        r, t, s = c16.integrate(v, L, f, u, t0, tf, h, dict(epsilon=eps))
        # accepted steps themselves, from a chain of steps
        sol = common.make(v, L, f, config=common.config(epsilon=eps))
        cs = common.make((SIB[name], cs_form(rep)), L, f)
        a, b, prop = u, u, h or 0.015
        for k in range(12):
            fresh = common.make((SIB[name], cs_form(rep)), L, f)
            a0 = a
            a, took, prop = sol.step(a, prop)
            one = fresh.step(a0, took)
            b = cs.step(b, took)
            common.close(a, one, 1e-9, "step %d (h=%r, epsilon=%g) against %s from the same state" % (k, took, eps, SIB[name]))
            common.close(a, b, 1e-8, "state after %d accepted steps against the chain of %s" % (k + 1, SIB[name]))
            tr.ev("%g%s%g%d" % (eps, h, t0, k))
        cs = common.make((SIB[name], cs_form(rep)), L, f)
        for k in range(1, len(t)):
            if len(t) > 400 and k % 5:
                continue
            w = common.make((SIB[name], cs_form(rep)), L, f).step(s[k - 1], t[k] - t[k - 1])
            common.close(s[k], w, 1e-8, "state %d of evolve (epsilon=%g, h_init=%s) against one step of %s" % (k, eps, h, SIB[name]))
            tr.ev("e%g%s%g%d" % (eps, h, t0, k))
        # one constant-step integration over one accepted step
        if len(t) > 2:
            hh = t[2] - t[1]
            w = common.make((SIB[name], cs_form(rep)), L, f).evolve(s[1], 0.0, hh, hh)
            common.close(s[2], w, 1e-8, "second accepted step against evolve of %s" % SIB[name])


def large(name, rep, n):
    """Chains of accepted steps with many modes."""
    tr = core.tracker()
    k = np.arange(n)
    u = (0.8 - 0.2j) * np.exp(1.3j * k) / (1.0 + k % 4)
    Q = np.sqrt(2.0 / n) * np.cos(np.pi * (k[:, None] + 0.5) * k[None, :] / n)
    Q[:, 0] /= np.sqrt(2)
    spectra = {
        "diffusion": -0.05 - 30.0 * (k / n) ** 2,
        "mixed": np.array([-1e-1, 0.3, 1.0 + 0.5j, -2.0 + 1j, -6.0, 4j, -80.0])[k % 7] * (1 + 0.01 * k / n),
        "dispersion": 1j * (k + 0.5 - n / 4) * 0.3,
        "small": -1e-3 - 1e-3j * k / n,
    }
    for sname, d in spectra.items():
        if rep == "diag":
            L, f = d, nl
        else:
            S = Q if sname != "mixed" else Q @ (np.eye(n) + 0.3 * np.diag(np.ones(n - 1), 1))
            Si = np.linalg.inv(S)
            L, f = (S * d).dot(Si), lambda v: S.dot(nl(Si.dot(v)))
        for eps in (1e-2, 1e-5):
            sol = common.make((name, rep), L, f, config=common.config(epsilon=eps))
            cs = common.make((SIB[name], cs_form(rep)), L, f)
            a, b, prop = u, u, 0.3
            for j in range(5):
                fresh = common.make((SIB[name], cs_form(rep)), L, f)
                a0 = a
                a, took, prop = sol.step(a, prop)
                common.close(a, fresh.step(a0, took), 1e-8, "%d modes (%s), step %d (h=%r, epsilon=%g) against %s" % (n, sname, j, took, eps, SIB[name]))
                b = cs.step(b, took)
                common.close(a, b, 1e-7, "%d modes (%s), state after %d steps (epsilon=%g) against the chain of %s" % (n, sname, j + 1, eps, SIB[name]))
                tr.ev("%d%s%g%d" % (n, sname, eps, j))


def spectra(name, h, nlname):
    """All pairs of spectrum values, one step."""
    tr = core.tracker()
    base = c11.NLS[nlname]
    u = next(c11.states(2))
    for a, b in itertools.product(c11.Z_ALL, repeat=2):
        L = np.array([a, b]) / h
        f = lambda v: base(v) / h
        sol = common.make((name, "diag"), L, f, config=common.config(epsilon=1e6, adapt_cutoff=-1.0))
        x, took, _ = sol.step(u, h)
        y = common.make((SIB[name], "diag"), L, f).step(u, took)
        tol = np.max(c11.tol_diag(h * L)) * 10
        # the weights of the stages cancel to a small part of the forcing at large z: rounding is relative to the forcing
        size = lambda v, k: np.max(np.abs(k * f(v)) / np.maximum(1, np.abs(k * L)))
        common.close(x, y, tol, "z=(%s, %s) h=%g" % (a, b, took), floor=size(u, took))
        x2, took2, _ = sol.step(x, took / 2)
        y2 = common.make((SIB[name], "diag"), L, f).step(y, took2)
        if np.all(np.isfinite(y2)) and np.max(np.abs(y2)) < 1e100:
            common.close(x2, y2, tol * 100, "second step, z=(%s, %s) h=%g" % (a, b, took2), floor=size(y, took2))
        tr.ev("%s/%s" % (a, b))


def matrices(name, rep, n, basis, h):
    tr = core.tracker()
    S = c11.BASES[n][basis]
    cond = np.linalg.cond(S)
    u = next(c11.states(n))
    for zz in itertools.combinations_with_replacement(c11.ZM, n):
        z = np.array(zz, dtype=complex)
        if rep == "eig" and (np.min(np.abs(z)) < 1e-3 or len(set(zz)) < n):
            continue
        L = (S * (z / h)).dot(np.linalg.inv(S))
        f = lambda v: nl(v) / h
        big = np.max(np.abs(z))
        zc = np.min(np.abs(z[np.abs(z) >= 0.01])) if np.any(np.abs(z) >= 0.01) else 1
        tol = (1e-10 + 1e-13 * big + (1e-12 / min(1, zc) ** 3 if rep == "eig" else 0)) * cond**2
        sol = common.make((name, rep), L, f, config=common.config(epsilon=1e6, adapt_cutoff=-1.0))
        x, took, _ = sol.step(u, h)
        y = common.make((SIB[name], "full"), L, f).step(u, took)
        common.close(x, y, tol, "eigenvalues of h*L %s, basis %s, h=%g" % (zz, basis, took))
        tr.ev(str(zz))


def cases(tier):
    big = tier == "thorough"
    for name in SIB:
        for rep in common.REPS[name]:
            for p in c16.PROBS:
                yield "along-%s-%s-%s" % (name, rep, p), lambda a=name, r=rep, p=p: along(a, r, p)
            for n in ((16, 100, 520, 1030) + ((5000,) if big else ())) if rep == "diag" else ((8, 33, 64) + ((110,) if big else ())):
                yield "large-%s-%s-%d" % (name, rep, n), lambda a=name, r=rep, n=n: large(a, r, n)
            if rep == "diag":
                for h in c11.HS if big else (1.0, 0.05):
                    for k in c11.NLS:
                        yield "spectra-%s-%g-%s" % (name, h, k), lambda a=name, h=h, k=k: spectra(a, h, k)
            else:
                for h in (1.0, 0.2):
                    for n in c11.BASES:
                        for b in c11.BASES[n]:
                            if n == 3 and not big and b == "id":
                                continue
                            yield "matrix-%s-%s-%d%s-%g" % (name, rep, n, b, h), lambda a=name, r=rep, n=n, b=b, h=h: matrices(a, r, n, b, h)
