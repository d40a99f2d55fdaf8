"""C25: every sequence of changes of a Hankel transform against a newly built one."""
import itertools

import numpy as np

from .. import common, core

LEVEL = "exploration"
RULE = (
    "A case is a starting transform and a first operation with all continuations up to the depth bound; after every operation the "
    "object is compared with one newly built from the parameters of the reference model; non-trivial: operations were carried out."
)

NAN = float("nan")
OPS = (
    [("nr", v) for v in (4, 5, 9, 32)]
    + [("rmax", v) for v in (0.5, 1.0, 7, 30.0)]
    + [("badnr", v) for v in (3, 0, -4, 4.5, 8.0, "8", None, NAN)]
    + [("badrmax", v) for v in (0.0, 0, -1.0, NAN, -7)]
    + [("use", v) for v in ("ht", "iht", "copies")]
)
_REF = {}


def reference(n, R):
    """What a newly built transform gives."""
    from rkstiff.transforms import HankelTransform

    if (n, R) not in _REF:
        _REF[n, R] = snapshot(HankelTransform(n, R), n)
    return _REF[n, R]


def snapshot(h, n):
    v = np.cos(1.0 + np.arange(n))
    w = v + 1j * np.sin(np.arange(n) * 0.7)
    return {
        "nr": h.nr, "rmax": h.rmax, "r": h.r.copy(), "kr": h.kr.copy(), "matrix": h.hankel_matrix(), "zeros": h.bessel_zeros(),
        "ht": h.ht(v), "iht": h.iht(v), "complex ht": h.ht(w), "complex iht": h.iht(w), "round trip": h.iht(h.ht(v)),
    }


def compare(h, n, R, what):
    if h.nr != n or h.rmax != R:
        core.fail("%s: nr=%r, rmax=%r, expected %r, %r" % (what, h.nr, h.rmax, n, R))
    try:
        got = snapshot(h, n)
    except ValueError as e:
        core.fail("%s: cannot be used: %s" % (what, e))
    for k, w in reference(n, R).items():
        if not common.same(np.asarray(got[k]), np.asarray(w)):
            common.close(got[k], w, 1e-12, "%s: %s differs from a newly built transform" % (what, k))


def apply(h, op, model, what):
    kind, v = op
    if kind in ("nr", "rmax"):
        setattr(h, kind, v)
        model[kind] = v
    elif kind.startswith("bad"):
        common.expect_raises(ValueError, lambda: setattr(h, kind[3:], v), "%s: %s = %r" % (what, kind[3:], v))
    elif v == "copies":
        for a in (h.hankel_matrix(), h.bessel_zeros()):
            a[...] = -1.0
    else:
        getattr(h, v)(np.ones(model["nr"]))


def sequences(start, first, depth):
    from rkstiff.transforms import HankelTransform

    tr = core.tracker()
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = (first,) + rest
        h = HankelTransform(*start)
        other = HankelTransform(6, 2.0)
        model = dict(nr=start[0], rmax=start[1])
        for i, op in enumerate(seq):
            what = "HankelTransform%r after %r" % (start, seq[: i + 1])
            apply(h, op, model, what)
            tr.transitions += 1
            if i == len(seq) - 1:
                compare(h, model["nr"], model["rmax"], what)
        compare(other, 6, 2.0, "another transform after %r" % (seq,))
        tr.state(tuple(model.items()))
        tr.ev(repr(rest))


def interleaved():
    """Two transforms changed in turn."""
    from rkstiff.transforms import HankelTransform

    tr = core.tracker()
    ops = [(w, k, v) for w in (0, 1) for k, v in (("nr", 4), ("nr", 9), ("rmax", 0.5), ("rmax", 7), ("badnr", 3), ("badrmax", 0.0), ("use", "copies"))]
    for seq in itertools.product(ops, repeat=3):
        hs = [HankelTransform(5, 2.0), HankelTransform(5, 2.0)]
        models = [dict(nr=5, rmax=2.0), dict(nr=5, rmax=2.0)]
        for w, k, v in seq:
            apply(hs[w], (k, v), models[w], "transform %d" % w)
        for i in (0, 1):
            compare(hs[i], models[i]["nr"], models[i]["rmax"], "transform %d after %r" % (i, seq))
        tr.ev(repr(seq))


def scribbled():
    """Whatever a caller does with the arrays of one transform, others are not affected, whenever they are built."""
    from rkstiff import grids
    from rkstiff.transforms import HankelTransform

    tr = core.tracker()
    for first, second in itertools.product(((4, 1.0), (8, 2.0), (8, 3.0), (33, 2.0)), repeat=2):
        want = snapshot(HankelTransform(*second), second[0])
        for late in (False, True):
            a = HankelTransform(*first)
            b = None if late else HankelTransform(*second)
            for z in (a.r, a.kr, a.bessel_zeros(), a.hankel_matrix(), a.ht(np.ones(first[0])), a.iht(np.ones(first[0]))):
                z[...] = -2.0
            for z in grids.construct_r_kr_hankel(*second)[:3]:
                z[...] = -3.0
            b = HankelTransform(*second) if late else b
            got = snapshot(b, second[0])
            for k, w in want.items():
                common.expect_same(np.asarray(got[k]), np.asarray(w), "%s of HankelTransform%r after the arrays of HankelTransform%r were overwritten" % (k, second, first))
            a.nr, a.rmax = second[0] + 1, second[1]
            a.nr = second[0]
            compare(a, *second, what="HankelTransform%r set to %r after its arrays were overwritten" % (first, second))
            tr.ev("%s%s%s" % (first, second, late))


def long_cycles():
    """Every size in turn, up and down, with radius changes in between."""
    from rkstiff.transforms import HankelTransform

    tr = core.tracker()
    h = HankelTransform(4, 1.0)
    R = 1.0
    for k, n in enumerate(list(range(4, 40)) + list(range(40, 3, -3)) + [4, 64, 5, 64, 4]):
        h.nr = n
        compare(h, n, R, "size %d in turn" % n)
        R = (1.0, 0.25, 3.0)[k % 3]
        h.rmax = R
        compare(h, n, R, "size %d, radius %g in turn" % (n, R))
        tr.ev("%d" % k)


def chain(seq):
    """One object taken through a list of changes, compared after every one of them."""
    from rkstiff.transforms import HankelTransform

    tr = core.tracker()
    first = seq[0]
    h = HankelTransform(*first)
    model = dict(nr=first[0], rmax=first[1])
    for i, (k, v) in enumerate(seq[1:]):
        setattr(h, k, v)
        model[k] = v
        compare(h, model["nr"], model["rmax"], "HankelTransform%r after %r" % (first, seq[1 : i + 2]))
        tr.ev("%d%s%r" % (i, k, v))
        tr.transitions += 1


def chains():
    up = lambda x: float(np.nextafter(x, 2 * x))
    out = {}
    for R in (1.0, 0.3, 7.0, 1e-6, 1e6):
        out["near-%g" % R] = [(8, R)] + [("rmax", R * (1 + s)) for s in (1e-15, 1e-12, 1e-9, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3)] + [("rmax", up(R)), ("rmax", R), ("rmax", R * (1 - 1e-9)), ("rmax", R)]
    out["far"] = [(6, 1.0)] + [("rmax", 10.0**k) for k in (12, -12, 100, -100, 0, 3, -3, 150, -150, 0)]
    out["types"] = [(6, 1)] + [("rmax", v) for v in (2, 2.0, np.float64(2.0), np.float64(3.0), 3, np.float32(0.5), 0.5, np.int64(4), 4.0, True, 1.0)]
    for sizes in ((100, 130, 100), (64, 65, 64, 63, 64), (128, 64, 129, 256, 4, 256), (200, 201), (255, 256, 257)):
        seq = [(sizes[0], 2.0)]
        for i, n in enumerate(sizes[1:]):
            seq += [("nr", n), ("rmax", 2.0 + i)]
        seq += [("nr", sizes[0]), ("rmax", 2.0)]
        out["large-" + "-".join(map(str, sizes))] = seq
    # every size after every other size, with and without a change of radius
    for R in (None, 3.5):
        for a in range(4, 13):
            seq = [(a, 1.5)]
            for b in range(4, 13):
                seq += [("nr", b)] + ([("rmax", R)] if R else []) + [("nr", a), ("rmax", 1.5)]
            out["all-%d-%s" % (a, R)] = seq
    out["same"] = [(9, 2.0)] + [("nr", 9), ("rmax", 2.0), ("nr", 9), ("rmax", 2)] * 10
    out["long"] = [(5, 1.0)] + [x for i in range(300) for x in (("nr", 4 + (i * i) % 11), ("rmax", 0.5 + (i * 7) % 13))]
    return out


def cases(tier):
    for nm, seq in chains().items():
        yield "chain-" + nm, lambda s=seq: chain(s)
    big = tier == "thorough"
    for start in ((4, 1.0), (9, 7), (32, 0.5)):
        for i, op in enumerate(OPS):
            yield "seq-%d-%g-%d-%s" % (start[0], start[1], i, op[0]), lambda s=start, o=op: sequences(s, o, 4 if big else 3)
    yield "interleaved", interleaved
    yield "scribbled", scribbled
    yield "cycles", long_cycles
