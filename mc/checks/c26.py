"""C26: mirror_grid on uniquely labelled data of every shape."""
import numpy as np

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is one grid length with every data shape, type, layout and axis of the bound; all entries are distinct, so any wrong "
    "position shows; non-trivial: a grid was mirrored (or an axis refused)."
)

TYPES = (float, complex, int, np.float32, np.complex64, bool)


def label(shape, t):
    a = np.arange(1, int(np.prod(shape)) + 1).reshape(shape)
    if t is bool:
        return a % 3 == 1
    if t in (complex, np.complex64):
        return (a * (1 - 2j) + 0.5).astype(t)
    return a.astype(t)


def layouts(a):
    out = [a, np.asfortranarray(a)]
    big = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
    v = big[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    out.append(v)
    back = a[::-1].copy()[::-1]
    out.append(back)
    ro = a.copy()
    ro.flags.writeable = False
    out.append(ro)
    return out


def expect(u, axis):
    """Element by element from the definition."""
    if axis in (-1, 0):
        n = u.shape[0]
        out = np.zeros((2 * n,) + u.shape[1:], u.dtype)
        for i in range(n):
            out[n + i] = u[i]
            out[n - 1 - i] = u[i]
    else:
        n = u.shape[1]
        out = np.zeros((u.shape[0], 2 * n), u.dtype)
        for i in range(n):
            out[:, n + i] = u[:, i]
            out[:, n - 1 - i] = u[:, i]
    return out


def compare(got, want, what):
    got = np.asarray(got)
    if got.shape != want.shape or not np.array_equal(got, want):
        core.fail("%s: got %s of shape %s, expected %s of shape %s" % (what, common.short(got), got.shape, common.short(want), want.shape))


def grid(n):
    from rkstiff import grids
    from rkstiff.grids import mirror_grid

    tr = core.tracker()
    rs = {"labels": np.arange(1.0, n + 1) * 0.37, "origin": np.arange(n) * 1.0, "int": np.arange(1, n + 1)}
    if n >= 4:
        rs["hankel"] = grids.construct_r_kr_hankel(n, 2.0)[0]
    for rn, r0 in rs.items():
        want_r = np.array([-r0[n - 1 - i] for i in range(n)] + [r0[i] for i in range(n)])
        for r in layouts(r0):
            got = mirror_grid(r)
            if not isinstance(got, tuple) or len(got) != 2 or got[1] is not None:
                core.fail("mirror_grid without data returns %r" % (got,))
            compare(got[0], want_r, "mirrored grid %s of %d points" % (rn, n))
            tr.ev("%s" % rn)
        r = r0
        for t in TYPES:
            for u in layouts(label((n,), t)):
                for call in (lambda: mirror_grid(r, u), lambda: mirror_grid(r, u, -1), lambda: mirror_grid(r, u=u, axis=-1)):
                    g, w = call()
                    compare(g, want_r, "grid mirrored with 1D data")
                    compare(w, expect(u, -1), "%d values of type %s" % (n, t.__name__))
                    if w.dtype != u.dtype:
                        core.fail("data of type %s mirrored to type %s" % (u.dtype, w.dtype))
                tr.ev("%s-%s" % (rn, t.__name__))
            for m in range(1, 7):
                for axis, shape in ((0, (n, m)), (1, (m, n))):
                    for u in layouts(label(shape, t)):
                        g, w = mirror_grid(r, u, axis)
                        compare(g, want_r, "grid mirrored with 2D data")
                        compare(w, expect(u, axis), "%s values of type %s along axis %d" % (shape, t.__name__, axis))
                        if w.dtype != u.dtype:
                            core.fail("data of type %s mirrored to type %s" % (u.dtype, w.dtype))
                    tr.ev("%s-%s-%d-%d" % (rn, t.__name__, axis, m))
    # special values are moved, not computed with
    for bad in (np.nan, np.inf, -np.inf, -0.0):
        u = np.arange(1.0, n + 1)
        u[n // 2] = bad
        w = mirror_grid(rs["labels"], u)[1]
        if not np.array_equal(w, expect(u, -1), equal_nan=True) or not np.array_equal(np.signbit(w), np.signbit(expect(u, -1))):
            core.fail("data with %r mirrored to %s" % (bad, common.short(w)))
        tr.ev("special%r" % bad)
    for axis in list(range(-6, -1)) + list(range(2, 7)) + [0.5, -0.5, 1.5, None, "0", "rows"]:
        for u in (label((n,), float), label((n, n), float), label((n, 2), float)):
            common.expect_raises(ValueError, lambda: mirror_grid(rs["labels"], u, axis), "axis %r for data of shape %s" % (axis, u.shape))
            tr.ev("axis%r%s" % (axis, u.shape))


def long_grid(n):
    """Larger grids: every axis and both memory orders."""
    from rkstiff.grids import mirror_grid

    tr = core.tracker()
    r = (np.arange(n) + 0.5) * 0.37
    want_r = np.concatenate([-r[::-1], r])
    for t in (float, complex, int):
        u = label((n,), t)
        g, w = mirror_grid(r, u)
        compare(g, want_r, "mirrored grid of %d points" % n)
        compare(w, np.concatenate([u[::-1], u]), "%d values of type %s" % (n, t.__name__))
        tr.ev("%s1" % t.__name__)
        for m in (1, 2, 3, n - 1, n, n + 1, 2 * n) if n <= 300 else (1, 2, 3):
            for axis, shape in ((0, (n, m)), (1, (m, n))):
                if 0 in shape:
                    continue
                a = label(shape, t)
                for u in (a, np.asfortranarray(a), a[::-1, ::-1].copy()[::-1, ::-1]):
                    g, w = mirror_grid(r, u, axis)
                    compare(g, want_r, "mirrored grid of %d points" % n)
                    compare(w, np.concatenate([np.flip(a, axis), a], axis), "%s values of type %s along axis %d" % (shape, t.__name__, axis))
                tr.ev("%s%d%d" % (t.__name__, m, axis))
    # values of every magnitude, equal neighbours and symmetric data
    for nm, u in (("constant", np.ones(n)), ("zero", np.zeros(n)), ("tiny", 1e-300 * (1.0 + np.arange(n))), ("huge", 1e300 * np.cos(np.arange(n))),
                  ("alternating", (-1.0) ** np.arange(n)), ("palindrome", np.minimum(np.arange(n), n - 1 - np.arange(n)) * 1.0), ("steps", np.arange(n) // 3 * 1.0),
                  ("one", np.eye(1, n, n // 2)[0]), ("first", np.eye(1, n, 0)[0]), ("last", np.eye(1, n, n - 1)[0])):
        for scale in (1.0, 1e-12, 1e12):
            g, w = mirror_grid(r * scale, u)
            compare(g, want_r * scale, "mirrored grid of %d points times %g" % (n, scale))
            compare(w, np.concatenate([u[::-1], u]), "%s data of %d values" % (nm, n))
        tr.ev(nm)


def cases(tier):
    for n in (2, 3, 4, 5, 17, 31, 32, 33, 50, 64, 65, 100, 128, 129, 255, 256, 257, 1000, 1024, 4096) + ((2049, 20000) if tier == "thorough" else ()):
        yield "long-%d" % n, lambda n=n: long_grid(n)
    for n in range(1, 65 if tier == "thorough" else 17):
        yield "grid-%d" % n, lambda n=n: grid(n)
