"""C20: logging operation sequences against a reference state machine, and the messages of real runs."""
import io
import itertools
import logging
import re
import sys

import numpy as np

from .. import common, core

LEVEL = "exploration"
QUIET_LOGS = False
RULE = (
    "A case is a first logging operation (or solver and interval) with all continuations up to the depth bound; levels, handlers "
    "and every emitted line are compared with a reference state machine; non-trivial: at least one operation was carried out."
)

LEVELS = ("DEBUG", "info", "Warning", "eRRoR", "CRITICAL", 15, 40)
NUM = {"DEBUG": 10, "info": 20, "Warning": 30, "eRRoR": 40, "CRITICAL": 50, 15: 15, 40: 40}
INVALID = ("VERBOSE", "", "INFO ", "20", " DEBUG", "\tinfo\n", "DEBUG INFO", "10", "Level 10", "rkstiff", "INFO\0", "debug,", "0x14", "3e1", "NOTSETX")
LINE = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d - (\S+) - (.+?) - (.*)$")


class Cap(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.recs = []

    def emit(self, r):
        self.recs.append((r.name, r.levelno, r.getMessage()))


class Console:
    """Captures both standard streams and everything reaching the root logger."""

    def __enter__(self):
        self.old = sys.stderr, sys.stdout
        self.buf = sys.stderr = sys.stdout = io.StringIO()
        self.root = Cap()
        logging.getLogger().addHandler(self.root)
        self.before = self.globals()
        self.pos = 0
        return self

    def __exit__(self, *a):
        sys.stderr, sys.stdout = self.old
        logging.getLogger().removeHandler(self.root)

    def globals(self):
        r, p = logging.getLogger(), logging.getLogger("rkstiff")
        return r.level, list(r.handlers), r.disabled, p.level, list(p.handlers), p.propagate, logging.root.manager.disable

    def lines(self):
        text = self.buf.getvalue()[self.pos:]
        self.pos = len(self.buf.getvalue())
        out = []
        for ln in text.splitlines():
            m = LINE.match(ln)
            if not m:
                core.fail("unexpected line on the console: %r" % ln)
            out.append((m.group(1), m.group(2), m.group(3)))
        return out

    def records(self):
        r, self.root.recs = self.root.recs, []
        return r

    def untouched(self, what):
        if self.globals() != self.before:
            core.fail("%s: the configuration of other loggers changed: %r, was %r" % (what, self.globals(), self.before))


SERIAL = itertools.count()


def level_name(n):
    return {10: "DEBUG", 20: "INFO", 30: "WARNING", 40: "ERROR", 50: "CRITICAL"}.get(n, "Level %d" % n)


def setup_ops():
    ops = []
    for who in (0, 1):
        for lv in LEVELS[:2] + LEVELS[4:6] + INVALID[:2]:
            ops.append(("setup", who, lv))
            ops.append(("set", who, lv))
        ops.append(("solverlogger", who, "info"))
        ops.append(("solverlogger", who, "nonsense"))
        ops.append(("default", who, None))
        ops.append(("handler", who, None))
    return ops


def apply_setup(op, names, model, users):
    """Apply one operation to the library and to the model; returns a description."""
    from rkstiff.util import loghelper as lh

    kind, who, lv = op
    name = names[who]
    m = model[who]
    what = "%s(%r, %r)" % (kind, name, lv)
    if kind == "handler":
        h = Cap()
        logging.getLogger(name).addHandler(h)
        users[who].append(h)
        m["handlers"] += 1
        return what
    if kind == "setup":
        call = lambda: lh.setup_logger(name, lv)
    elif kind == "default":
        call = lambda: lh.setup_logger(name)
        lv = "Warning"
    elif kind == "solverlogger":
        call = lambda: lh.get_solver_logger(type(name.split(".")[1], (), {}), lv)
    else:
        call = lambda: lh.set_log_level(logging.getLogger(name), lv)
    if lv in NUM:
        r = common.attempt(call)
        if r[0] != "ok":
            core.fail("%s raised %s (%s)" % (what, r[1], r[2]))
        if kind != "set" and (r[1] is not logging.getLogger(name)):
            core.fail("%s returned %r" % (what, r[1]))
        m["level"] = NUM[lv]
        if kind != "set" and m["handlers"] == 0:
            m["handlers"] = 1
            m["stream"] = True
    else:
        common.expect_raises(ValueError, call, what)
    return what


def inspect(names, model, what):
    for name, m in zip(names, model):
        lg = logging.getLogger(name)
        if lg.level != m["level"] or len(lg.handlers) != m["handlers"] or not lg.propagate or lg.disabled:
            core.fail("%s: logger %s has level %d and %d handlers (propagate %s), expected level %d and %d handlers" % (
                what, name, lg.level, len(lg.handlers), lg.propagate, m["level"], m["handlers"]))


def emit(con, names, model, users, what):
    """Messages of every level on every logger appear exactly once, at or above the level."""
    con.lines(), con.records()
    for i, (name, m) in enumerate(zip(names, model)):
        for h in users[i]:
            h.recs = []
        eff = m["level"] or logging.getLogger().level
        want_lines, want_recs = [], []
        for k, lv in enumerate((10, 14, 15, 20, 30, 40, 50)):
            logging.getLogger(name).log(lv, "message %d", k)
            if lv >= eff:
                want_recs.append((name, lv, "message %d" % k))
                if m["stream"]:
                    want_lines.append((name, logging.getLevelName(lv), "message %d" % k))
        lines, recs = con.lines(), con.records()
        if lines != want_lines:
            core.fail("%s: console shows %r, expected %r" % (what, lines, want_lines))
        if recs != want_recs or any(h.recs != want_recs for h in users[i]):
            core.fail("%s: application handlers received %r, expected %r" % (what, recs, want_recs))


NAMES = [("rkstiff.A%d", "rkstiff.B%d"), ("plain%d", "rkstiff.plain%d"), ("x%d.y.z.w.v", "rkstiff.a.b.c.d%d"), ("app-%d", "__main__%d")]


def machine(first, depth):
    """All sequences of logger operations starting with those of ``first``."""
    tr = core.tracker()
    ops = setup_ops()
    for rest in itertools.product(ops, repeat=depth - len(first)):
        k = next(SERIAL)
        names = ["rkstiff.A%d" % k, "rkstiff.B%d" % k]
        if all(o[0] != "solverlogger" for o in first + rest):
            # any name can be given
            names = [f % k for f in NAMES[(k // len(ops)) % len(NAMES)]]
        model = [dict(level=0, handlers=0, stream=False) for _ in names]
        users = [[], []]
        with Console() as con:
            seq = first + rest
            for i, op in enumerate(seq):
                what = apply_setup(op, names, model, users)
                inspect(names, model, "after %s, sequence %r" % (what, seq[: i + 1]))
                tr.transitions += 1
            emit(con, names, model, users, "sequence %r" % (seq,))
            con.untouched("sequence %r" % (seq,))
        for n in names:
            parts = n.split(".")
            for i in range(len(parts), 0, -1):
                if parts[:i] != ["rkstiff"]:
                    logging.Logger.manager.loggerDict.pop(".".join(parts[:i]), None)
        tr.state(tuple(tuple(sorted(m.items())) for m in model))
        tr.ev(repr(rest))


# -- through the solvers --------------------------------------------------------------
SOLVER_LEVELS = ("DEBUG", "info", 40, "quiet")


def solver_machine(v1, v2, first, depth):
    tr = core.tracker()
    ops = []
    for who in (0, 1):
        for lv in SOLVER_LEVELS:
            ops += [("make", who, lv), ("level", who, lv)]
        ops += [("evolve", who, None), ("makedefault", who, None)]
    for rest in itertools.product(ops, repeat=depth - 1):
        k = next(SERIAL)
        vs = (v1, v2)
        clss = [type("C%dx%d" % (k, i), (common.classes()[v[0]],), {}) for i, v in enumerate(vs)]
        names = ["rkstiff.%s" % c.__name__ for c in clss]
        model = [dict(level=0, handlers=0, stream=False) for _ in names]
        objs = [[], []]
        seq = (ops[first],) + rest
        with Console() as con:
            for i, (kind, who, lv) in enumerate(seq):
                what = "%s(%s, %r) after %r" % (kind, clss[who].__name__, lv, seq[:i])
                m = model[who]
                v = vs[who]
                must = None  # level at which some message has to appear
                if kind in ("make", "makedefault"):
                    kw = {} if kind == "makedefault" else {"loglevel": lv}
                    call = lambda: common.make(v, common.op3(v[1]), common.nl3, cls=clss[who], **kw)
                    num = 30 if kind == "makedefault" else NUM.get(lv)
                    if num is None:
                        common.expect_raises(ValueError, call, what)
                    else:
                        objs[who].append(call())
                        m.update(level=num, handlers=1, stream=True)
                        must = 20
                elif not objs[who]:
                    continue
                elif kind == "level":
                    sol = objs[who][0]
                    if lv in NUM:
                        sol.set_loglevel(lv)
                        m["level"] = NUM[lv]
                        must = 20
                    else:
                        common.expect_raises(ValueError, lambda: sol.set_loglevel(lv), what)
                else:
                    objs[who][-1].evolve(common.U3, 0.0, 0.25, 0.125)
                    must = 20
                inspect(names, model, what)
                lines, recs = con.lines(), con.records()
                if [(n, level_name(l), t) for n, l, t in recs] != lines:
                    core.fail("%s: console shows %r while the application's handler received %r" % (what, lines, recs))
                for n, l, t in recs:
                    if n != names[who] or l < m["level"]:
                        core.fail("%s: message %r of level %d on logger %s (level %d)" % (what, t, l, n, m["level"]))
                if must and m["level"] <= must and not any(l == must for _, l, _ in recs):
                    core.fail("%s: no INFO message at level %d" % (what, m["level"]))
                if must is None and recs:
                    core.fail("%s: a refused level produced messages %r" % (what, recs))
                if kind == "evolve" and len(set(recs)) < len(recs) and m["level"] >= 20:
                    core.fail("%s: repeated messages %r" % (what, recs))
                con.untouched(what)
                tr.transitions += 1
        for n in names:
            logging.Logger.manager.loggerDict.pop(n, None)
        tr.state(tuple(tuple(sorted(m.items())) for m in model))
        tr.ev(repr(rest))


# -- progress messages ---------------------------------------------------------------
class Watch(logging.Handler):
    """Notes how far the stored trajectory was when each message came."""

    def __init__(self):
        super().__init__(0)
        self.seen = []
        self.sol = None

    def emit(self, r):
        self.seen.append((r.levelno, r.name, r.getMessage(), len(self.sol.t) if self.sol else 0))


def progress(v, t0, span, n):
    """Percentages in the messages of a run of about n steps are those of the interval covered."""
    tr = core.tracker()
    name, rep = v
    tf = t0 + span
    k = next(SERIAL)
    cls = type("P%d" % k, (common.classes()[name],), {})
    w = Watch()
    lg = logging.getLogger("rkstiff.P%d" % k)
    lg.addHandler(w)
    L = common.op3(rep) / span
    f = lambda u: common.nl3(u) / span
    for lv in (20, 10, 15, 30):
        with Console() as con:
            if name in common.CS:
                sol = common.make(v, L, f, cls=cls, loglevel=lv)
                w.sol, w.seen = sol, []
                sol.evolve(common.U3, t0, tf, span / n)
            else:
                # growth is limited so that the run takes more than n steps with different sizes
                sol = common.make(v, L, f, cls=cls, loglevel=lv, config=common.config(epsilon=1e-3, incr_f=1e9))
                w.sol, w.seen = sol, []
                sol.evolve(common.U3, t0, tf, span / n)
            if con.lines():
                core.fail("%s writes to the console although the application has its own handler" % name)
            t = np.array(sol.t)
            pct = [(float(m.group(1)), text, pos) for l, nm, text, pos in w.seen for m in re.finditer(r"(-?\d+(?:\.\d+)?)\s*%", text)]
            for l, nm, text, pos in w.seen:
                if l < lv or nm != lg.name:
                    core.fail("message %r of level %d on %s although the level is %d" % (text, l, nm, lv))
            steps = len(t) - 1
            if lv <= 20 and steps >= 100 and not pct:
                core.fail("no progress message in %d steps" % steps)
            for p, text, pos in pct:
                near = [100 * (t[min(max(i, 0), steps)] - t0) / span for i in (pos - 1, pos)]
                if not any(abs(p - q) <= 0.0501 for q in near):
                    core.fail("message %r when the run from %g to %g had taken %d or %d steps, i.e. %.2f%% or %.2f%%" % (
                        text, t0, tf, pos - 1, pos, near[0], near[1]))
                tr.count("percentages")
            if lv > 20 and any(l <= 20 for l, *_ in w.seen):
                core.fail("INFO messages at level %d" % lv)
        tr.ev("%d" % lv)
    logging.Logger.manager.loggerDict.pop(lg.name, None)


def names_of_levels():
    from rkstiff.util import loghelper as lh

    tr = core.tracker()
    for n in range(0, 61):
        want = level_name(n)
        if lh.get_level_name(n) != want:
            core.fail("get_level_name(%d) is %r, expected %r" % (n, lh.get_level_name(n), want))
        tr.ev(str(n))
    # every spelling of every name
    for name, num in (("DEBUG", 10), ("INFO", 20), ("WARNING", 30), ("ERROR", 40), ("CRITICAL", 50), ("NOTSET", 0), ("WARN", 30), ("FATAL", 50)):
        for bits in itertools.product((0, 1), repeat=len(name)):
            s = "".join(c.upper() if b else c.lower() for c, b in zip(name, bits))
            lg = logging.getLogger("rkstiff.S%d" % next(SERIAL))
            lh.set_log_level(lg, s)
            if lg.level != num:
                core.fail("level %r set as %d" % (s, lg.level))
            tr.ev(s)
            logging.Logger.manager.loggerDict.pop(lg.name)
        if name in ("NOTSET", "WARN", "FATAL"):
            continue
        # every name with one character dropped or doubled is invalid and changes nothing
        for i in range(len(name)):
            for s in (name[:i] + name[i + 1:], name[:i] + name[i] + name[i:], name[:i] + "_" + name[i + 1:]):
                if s in ("WARN",):
                    continue
                lg = logging.getLogger("rkstiff.S%d" % next(SERIAL))
                lg.setLevel(33)
                common.expect_raises(ValueError, lambda: lh.set_log_level(lg, s), "set_log_level(%r)" % s)
                common.expect_raises(ValueError, lambda: lh.setup_logger(lg.name, s), "setup_logger(%r)" % s)
                if lg.level != 33 or lg.handlers:
                    core.fail("a refused level %r changed the logger" % s)
                tr.ev(s)
                logging.Logger.manager.loggerDict.pop(lg.name)
    # no other string is a level, whichever door it comes through
    v = common.VARIANTS[0]
    for s in INVALID:
        k = next(SERIAL)
        cls = type("S%d" % k, (common.classes()[v[0]],), {})
        lg = logging.getLogger("rkstiff.S%d" % k)
        lg.setLevel(33)
        doors = {
            "set_log_level": lambda: lh.set_log_level(lg, s),
            "setup_logger": lambda: lh.setup_logger(lg.name, s),
            "get_solver_logger": lambda: lh.get_solver_logger(cls, s),
            "constructor": lambda: common.make(v, common.op3(v[1]), common.nl3, cls=cls, loglevel=s),
        }
        for d, call in doors.items():
            common.expect_raises(ValueError, call, "%s with level %r" % (d, s))
            if lg.level != 33 or lg.handlers:
                core.fail("a level %r refused by %s changed the logger" % (s, d))
            tr.ev(d + s)
        sol = common.make(v, common.op3(v[1]), common.nl3, cls=cls, loglevel=33)
        common.expect_raises(ValueError, lambda: sol.set_loglevel(s), "set_loglevel(%r)" % s)
        if lg.level != 33 or len(lg.handlers) != 1:
            core.fail("a level %r refused by set_loglevel changed the logger" % s)
        logging.Logger.manager.loggerDict.pop(lg.name)
    # every integer from 0 to 60 is one, through every door
    for n in list(range(0, 61)) + [99, 1000, -1, -20]:
        for d in ("set_log_level", "setup_logger", "get_solver_logger", "constructor", "set_loglevel"):
            k = next(SERIAL)
            cls = type("S%d" % k, (common.classes()[v[0]],), {})
            lg = logging.getLogger("rkstiff.S%d" % k)
            lg.addHandler(Cap())
            if d == "set_log_level":
                lh.set_log_level(lg, n)
            elif d == "setup_logger":
                lh.setup_logger(lg.name, n)
            elif d == "get_solver_logger":
                lh.get_solver_logger(cls, n)
            elif d == "constructor":
                common.make(v, common.op3(v[1]), common.nl3, cls=cls, loglevel=n)
            else:
                common.make(v, common.op3(v[1]), common.nl3, cls=cls).set_loglevel(n)
            if lg.level != n or len(lg.handlers) != 1:
                core.fail("level %d given to %s: the logger has level %d and %d handlers" % (n, d, lg.level, len(lg.handlers)))
            tr.ev("%s%d" % (d, n))
            logging.Logger.manager.loggerDict.pop(lg.name)
    # every other attribute of the logging module is no level name
    for s in sorted(dir(logging)):
        if s.upper() in ("DEBUG", "INFO", "WARNING", "WARN", "ERROR", "CRITICAL", "FATAL", "NOTSET"):
            continue
        lg = logging.getLogger("rkstiff.S%d" % next(SERIAL))
        lg.setLevel(33)
        common.expect_raises(ValueError, lambda: lh.set_log_level(lg, s), "set_log_level(%r)" % s)
        tr.ev("attr" + s)
        logging.Logger.manager.loggerDict.pop(lg.name)


def cases(tier):
    big = tier == "thorough"
    for i, op in enumerate(setup_ops()):
        for j, op2 in enumerate(setup_ops() if big else [None]):
            first = (op,) if op2 is None else (op, op2)
            yield "loggers-%d-%s%d-%s" % ((i,) + op) + ("-%d" % j if big else ""), lambda first=first: machine(first, 4 if big else 3)
    pairs = [(("IF4", "diag"), ("ETD35", "diag")), (("ETD34", "full"), ("IF45DP", "diag")), (("ETD35", "eig"), ("ETD35", "diag"))]
    if big:
        pairs = [(v, common.VARIANTS[(i + 5) % len(common.VARIANTS)]) for i, v in enumerate(common.VARIANTS)]
    for p, (a, b) in enumerate(pairs):
        for first in range(20):
            yield "solvers-%d-%d" % (p, first), lambda a=a, b=b, f=first: solver_machine(a, b, f, 3)
    for v in common.VARIANTS:
        for t0, span in ((0.0, 1.0), (-3.0, 4.0), (100.0, 0.5), (2.0, 7.0)) + (((-1e3, 1.0), (5.0, 1e-3)) if big else ()):
            for n in (130, 420, 2300) if (t0, span) == (-3.0, 4.0) and v[1] == "diag" else (130, 420):
                yield "progress-%s-%g-%g-%d" % (common.vname(v), t0, span, n), lambda v=v, a=t0, s=span, n=n: progress(v, a, s, n)
    yield "names", names_of_levels
