"""C02: executing the compiled programs plays exactly the scheduled signal."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
from lib import ref, rigs, sigcheck  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of schedules; the programs the real compiler emits are executed "
             "by a Q1ASM interpreter and compared per nanosecond with a reference signal")
NOTE = ("Every schedule in the stated bounded spaces (operation sequences, amplitude/duration ladders, wait "
        "lengths, relative timings, nested loops) is compiled by the real code and its output programs executed; "
        "trusts the Q1 sequencer model in lib/q1.py and the reference semantics in lib/ref.py.")

rg = rigs.main_rig()

# one symbol per behaviour class; lines chosen so that symbols collide
A = [
    ("sq", "mw", 20, 0.3), ("sq", "mw", 40, 0.2 + 0.1j), ("sq", "fl", 20, -0.5),
    ("drag", "mw", 20, 0.4, 0.1, 45), ("ramp", "iq", 24, 0.5, 0.1),
    ("sq", "mw", 120, 0.25), ("sq", "fl", 400, 0.6), ("off", "fl", 0.3, 0),
    ("off", "mw", 0.2, -0.1), ("idle", 8), ("num", "iq", (0.1, 0.2, 0.3 + .2j, -0.4)),
    ("loop", 3, [("sq", "mw", 20, 0.3)]),
    ("loop", 2, [("sq", "fl", 20, 0.3), ("idle", 4)]), ("idle", 400000),
    ("loop", 2, [("off", "fl", 0.2, 0), ("idle", 8), ("off", "fl", 0, 0), ("idle", 4)]),
    ("sub", [("sq", "res", 20, .4), ("loop", 2, [("sq", "res", 20, .2)])]),
    ("lramp", "fl", 2400, .4, .1, 1000), ("lstair", "fl", 400, 0., .4, 5),
    ("sq", "iq", 8, 0.0), ("stair", "iq", 40, -0.2, 0.4, 4),
]
TINY = [0.0, 1e-5, -1e-5, 1.6e-5, 3.0e-5, 3.1e-5, 4.6e-5, 1e-3, 0.25, 0.5, -0.5, 0.999, 0.99999,
        1.0, -1.0, 1j, -1j, 0.6 + 0.8j, -0.3 + 1e-5j, 1e-5 + 0.3j]


def short(case):
    items, reps = case
    return sigcheck.check_signals(rg, list(items), reps)


def beside(case):
    """A pulse cut by another one is reported by a warning (C09); an operation at the end of a loop added before the loop may be refused."""
    items, reps, tie = case
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        try:
            return sigcheck.check_signals(rg, list(items), reps)
        except Violation as v:
            if v.args[0] == "rejects-valid" and tie:
                return R("refused:tie")
            if v.args[0] == "signal-differs" and any("is interrupting previous Pulse" in str(w.message) for w in log):
                return R("truncated with a warning")
            raise


def sequences(n, alpha, reps=(1, 2)):
    return [(w, r) for w in itertools.product(alpha, repeat=n) for r in reps]


def ladders():
    out = []
    durs = [1, 2, 3, 4, 5, 7, 8, 16, 99, 100, 101, 103, 104, 105, 250, 1000, 1999, 2000, 2001, 2004,
            4000, 4001, 6001]
    for line in ("mw", "fl", "iq", "bb", "res", "f2"):
        real = line in ("fl", "f2")
        for amp in TINY:
            if real and isinstance(amp, complex) and amp.imag:
                continue
            for d in (4, 20, 100, 104, 131):
                for kind in ("sq", "lsq"):
                    out.append((((kind, line, d, amp), ("idle", 8)), 1))
                    out.append((((kind, line, d, amp), (kind, line, d, -amp), ("idle", 4)), 2))
        for d in durs:
            for kind in ("sq", "lsq"):
                out.append((((kind, line, d, 0.4), ("sq", line, 20, 0.2), ("idle", 8)), 1))
            for amp, off in ((0.4, 0.0), (-0.4, 0.2), (0.3, -0.3), (0.0, 0.3), (0.0, 0.0), (0.25, 0.5),
                             (0.5, -0.25), (1.0, 0.0), (-1.0, 0.5), (1.5, -0.75)):
                out.append((((("ramp", line, d, amp, off)), ("idle", 8)), 1))
                out.append((((("ramp", line, d, amp, off)), ("sq", line, 20, 0.2), ("idle", 8)), 2))
                for p in (500, 1000):
                    if d >= 250:
                        out.append((((("lramp", line, d, amp, off, p)), ("sq", line, 20, 0.2),
                                     ("idle", 8)), 1))
        for d, k in ((20, 2), (40, 4), (400, 4), (400, 5), (1000, 8), (48, 3)):
            for a0, a1 in ((0.0, 0.4), (-0.5, 0.5), (0.5, 0.0), (0.3, 0.3), (1.0, -1.0), (0.2, -0.4)):
                out.append(((("stair", line, d, a0, a1, k), ("sq", line, 20, .2)), 1))
                if d // k >= 4:
                    out.append(((("lstair", line, d, a0, a1, k), ("sq", line, 20, .2)), 1))
        for d in (4, 8, 20, 21, 64):
            for G, D, ph in ((0.5, 0.0, 0), (0.5, 0.2, 0), (0.5, 0.2, 90), (-0.4, 0.5, 33), (1.0, 0, 180),
                             (0.0, 0.0, 0), (0.3, 0.1, 270)):
                if not real:
                    out.append(((("drag", line, d, G, D, ph), ("sq", line, 20, .2)), 1))
                    out.append(((("gauss", line, d, G, ph),), 2))
    return out


def waits():
    """Idle times around every way a wait is emitted, before/between/after pulses."""
    out = []
    M = 65532
    vals = sorted({v for v in list(range(0, 13)) + [99, 100, 65527, 65528, 65530, 65531, 65532, 65533,
                   65534, 65535, 65536, 65537, 65540] + [k * M + d for k in (2, 3, 4, 5, 6) for d in
                   (-5, -4, -1, 0, 1, 2, 3, 4, 5)]})
    for v in vals:
        for tail in ((), (("idle", v),)):
            for reps in (1, 2):
                out.append(((("sq", "mw", 20, .3), ("idle", v), ("sq", "mw", 16, .2), *tail), reps))
        out.append(((("idle", v), ("sq", "fl", 16, .2)), 1))
        out.append(((("loop", 2, [("sq", "fl", 16, .2), ("idle", v)]), ("sq", "fl", 16, .1)), 1))
        out.append(((("loop", 2, [("idle", v), ("sq", "fl", 16, .2)]), ("sq", "mw", 16, .1)), 2))
    return out


def timing():
    """Two or three operations at every relative position on a fine grid, on two lines."""
    out = []
    X = [("sq", "mw", 20, .3), ("drag", "mw", 20, .4, .1, 30), ("off", "mw", .2, .1), ("sq", "mw", 120, .2),
         ("lsq", "mw", 50, .3)]
    Y = [("sq", "fl", 20, .5), ("off", "fl", .4, 0), ("sq", "fl", 120, .3), ("sq", "mw", 20, .1),
         ("sq", "mw", 100, .25), ("off", "mw", 0.0, 0.0), ("ramp", "mw", 24, .2, 0.)]
    for x in X:
        for y in Y:
            for rel in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 96):
                for z in ((), (("off", "mw", 0., 0.), ("idle", 4)), (("sq", "mw", 4, .1),)):
                    out.append(((x, (y, {"rel": rel}), *z, ("idle", 8)), 1))
            if y[1] != x[1]:
                for rel in (-25, -24, -20, -4, -3, -1):
                    out.append(((("idle", 40), x, (y, {"rel": rel}), ("idle", 200)), 2))
                for pt, ptn in itertools.product(("start", "center", "end"), repeat=2):
                    out.append(((("idle", 40), x, (y, {"pt": pt, "pt_new": ptn}), ("idle", 200)), 1))
    for t0 in (0, 1, 3, 4, 8, 100):
        for x in X:
            for n in (1, 2):
                out.append(((("t0", t0, x), ("idle", 8), ("loop", n, [("t0", t0, x), ("idle", 8)]),
                             ("sq", "mw", 4, .1)), 2))
    return out


def nests(depth3):
    """Loops and sub-schedules in loops, with every body start/end kind."""
    leafs = [("sq", "mw", 20, .3), ("sq", "fl", 120, .2), ("idle", 12), ("off", "fl", .2, 0),
             ("sq", "res", 8, .1), ("lsq", "mw", 40, .25)]
    bodies = [list(w) for n in (1, 2) for w in itertools.product(leafs, repeat=n)]
    out = []
    for b in bodies:
        for n in (1, 2, 3):
            for inner in ([("loop", n, b)], [("sub", b)], [("loop", n, [("sub", b)])],
                          [("loop", n, b, "bare")] if len(b) == 1 else []):
                if not inner:
                    continue
                for outer in (lambda z: z, lambda z: [("loop", 2, z)],
                              lambda z: [("sub", z)],
                              lambda z: [("loop", 3, z + [("idle", 8)])],
                              lambda z: [("loop", 2, [("loop", 2, z), ("sq", "fl", 16, .1)])]):
                    for pre, post in (((), (("sq", "fl", 16, .1), ("idle", 4))),
                                      ((("sq", "mw", 16, .1),), (("idle", 8),)),
                                      ((("sq", "fl", 16, .1),), (("sq", "mw", 120, .1),))):
                        out.append(((*pre, *outer(inner), *post), 2))
    if depth3:
        for b in bodies:
            for n, m, k in itertools.product((1, 2, 3), repeat=3):
                out.append(((("loop", n, [("loop", m, [("sq", "mw", 16, .1), ("loop", k, b)]),
                                          ("idle", 4)]), ("sq", "mw", 8, .2)), 2))
    return out


def beside_loops():
    """Operations played while a loop runs, on the line of the loop and on others, added before or after it."""
    out = []
    bodies = [[("sq", "mw", 20, .3), ("idle", 20)], [("idle", 20), ("sq", "mw", 20, .3)], [("off", "mw", .2, 0), ("idle", 20), ("off", "mw", 0, 0), ("idle", 8)],
              [("sq", "mw", 20, .3), ("idle", 12), ("sq", "fl", 20, .4)]]
    ops = [("sq", "mw", 8, .1), ("sq", "fl", 8, .1), ("phase", "q.01", 40.0), ("off", "mw", .1, .1), ("off", "fl", .1, 0), ("reset", "q.01"),
           ("loop", 2, [("sq", "mw", 8, .1)]), ("loop", 3, [("sq", "fl", 8, .1), ("idle", 4)]), ("t0", 24, ("sq", "mw", 8, .1))]
    for b in bodies:
        for n in (1, 2, 3):
            for op in ops:
                for rel in (0, 4, 20, 24, 28, 32, 36, 40, 44, 60, 80, 88, 120, 160):
                    for order in (0, 1):
                        its = [(("loop", n, b), {"ref": 0, "pt": "start", "rel": 40}), (op, {"ref": 0, "pt": "start", "rel": 40 + rel})]
                        if order:
                            its.reverse()
                        out.append(((("idle", 240), *its, (("sq", "mw", 8, .2), {"ref": 0})), 1, (order or op[0] == "t0") and rel + 24 * (op[0] == "t0") == n * ref.layout(b)[1]))
    return out


def twins():
    """Pairs of almost equal pulses: neither may be played in place of the other."""
    out = []
    base = (.1, .5, .25, -.4, .3, .2, -.1, .05)
    for line in ("mw", "fl", "iq"):
        for i in range(len(base)):
            full = tuple(2 * x for x in base)        # of full amplitude, so that differences are not scaled up
            for d in (-1.8e-4, -2.5e-4, 4e-4):
                if not (full[i] == 1 and d > 0):
                    out.append(((("num", line, full), ("num", line, tuple(x + d * (j == i) for j, x in enumerate(full))), ("num", line, full)), 1))
            for d in (4e-4, -4e-4, 1e-3, 5e-3):
                other = tuple(x + d * (j == i) for j, x in enumerate(base))
                for p in itertools.permutations((base, other)):
                    out.append(((*[("num", line, x) for x in p], ("num", line, tuple(reversed(base)))), 1))
                out.append(((("num", line, tuple(2 * x for x in base)), ("num", line, tuple(-x for x in other)), ("num", line, base)), 1))
    for k in ("drag", "gauss"):
        for d in (.002, .01):
            a, b = [(k, "mw", 40, .5 * f, .2, 40) if k == "drag" else (k, "mw", 40, .5 * f, 40) for f in (1, 1 + d)]
            out += [((a, b), 1), ((b, a), 1), ((a, b, a), 2)]
    out += [((("ramp", l, 24, .5, o), ("ramp", l, 24, .5 + d, o), ("ramp", l, 25, .5, o)), 1) for l in ("mw", "fl") for d in (1e-3, .01) for o in (0., .2)]
    out += [((("sq", "mw", 20, .5 + x), ("sq", "mw", 20, .5 + y)), 1) for x in (0, 1e-3j, -1e-3j, .5j) for y in (0, 1e-3j, 1e-3, -.5j)]
    return out


def library():
    """The other pulses of the library, of every length, alone and next to each other."""
    out = []
    for line in ("mw", "iq", "res"):
        for n in (6, 7, 8, 21, 40, 63, 101):
            W = [("wf", line, "soft", n, a) for a in (.6, -.4)]
            W += [("wf", line, "chirp", n, .5, f0, f1) for f0, f1 in ((0., 50e6), (30e6, -20e6), (10e6, 10e6))]
            W += [("wf", line, "hermite", n, .5, sk, ph) for sk in (0., 2e-10) for ph in (0, 60, -90)]
            W += [("wf", line, "drag", n, .5, d, ph, s) for d in (0, .2) for ph in (0, 120) for s in (3, n / 3)]
            out += [((w, ("idle", 8)), r) for w in W for r in (1, 2)]
            out += [((a, b), 1) for a, b in zip(W, W[1:])]
    for line in ("mw", "fl"):
        W = [("wf", line, "snz", n1, nphi, nc, A, B, sc) for n1 in (4, 9) for nphi in (0, 5) for nc in (2, 7, 20) for A, B, sc in ((.4, .5, .9), (-.3, .2, 1.))]
        W += [("wf", line, "num", step, ys) for step in (1, 2, 5) for ys in ((0., .2, .5, -.3, .2), (.1, .5, -.5, .4, .3, .2, .1, .6))]
        if line == "mw":
            W += [("wf", line, "num", step, (.2 + .1j, -.4j, .5, .1, .2j)) for step in (1, 3)]
        W = [w for w in W if len(ref.wf(w)) >= 4]
        out += [((w, ("idle", 8)), r) for w in W for r in (1, 2)]
        out += [((a, b), 1) for a, b in zip(W, W[1:])]
        out += [((("loop", 2, [a, ("idle", 4)]), b), 1) for a, b in zip(W, W[3:])]
    return out


def together():
    """Operations that hold several pulses one after the other, long ones among them."""
    P = [("sq", "fl", 120, .3), ("sq", "fl", 20, .4), ("sq", "mw", 204, .25), ("sq", "fl", 400, .2), ("ramp", "iq", 2400, .3, .1), ("ramp", "fl", 40, .3, .1)]
    out = []
    for a, b in itertools.product(P, repeat=2):
        for g in (0, 4, 100):
            for order in (0, 1):
                w = [a, ("t0", a[2] + g, b)] if a[1] == b[1] else [a, ("t0", g, b)]
                if order:
                    w.reverse()
                for lead in (0, 40):
                    out.append(((*([("idle", lead)] if lead else []), ("multi", *w), ("idle", 8), ("sq", "fl", 20, .1)), 2))
                out.append(((("loop", 2, [("multi", *w), ("idle", 4)]), ("multi", *w)), 1))
    return out


def stitched():
    """Pulses put together from pulses and voltage offsets with the builder, in every order."""
    out = []
    for line in ("mw", "fl"):
        q = .1 if line == "mw" else 0
        S = [("p", ("sq", line, 20, .3), None), ("p", ("ramp", line, 24, .2, .1), None), ("p", ("sq", line, 12, -.2), 8),
             ("o", .2, -q, 12, 0, True), ("o", -.3, q, 20, 8, True), ("o", .25, q, 8, 0, False), ("o", .15, 0, 8, 28, False),
             ("o", .1, q, None, 0, True), ("o", -.15, 0, None, 4, True), ("o", .1, -q, None, 16, False), ("o", .2, 0, 16, 12, False), ("p", ("sq", line, 120, .25), None), ("p", ("ramp", line, 2400, .2, -.1), None), ("o", .1, 0, 200, 0, True), ("p", ("num", line, (.1, .2, -.1, .3, .2)), 44), ("o", .1, 0, 4, -4, True)]
        for n in (1, 2, 3) if not THOROUGH else (1, 2, 3, 4):
            for steps in itertools.product(S, repeat=n):
                verdict = stitch_ok(steps, line)
                if verdict is None:
                    continue
                op = ("st", line, 0, steps)
                out.append(((op, ("idle", 8)), 2, verdict))
                if verdict and n < 3:
                    for t0 in (4, 40):
                        out.append(((("st", line, t0, steps), ("idle", 8)), 1, verdict))
                    out.append(((("sq", line, 20, .2), op, ("sq", line, 20, .4)), 1, verdict))
                    out.append(((("loop", 2, [op, ("idle", 4)]), op, ("idle", 4)), 2, verdict))
                    out.append(((op, op, ("idle", 4)), 1, verdict))
    return out


def stitch_ok(steps, line):
    """Whether a builder has to accept the steps; None when its result is left open."""
    offs, ok = [], True
    for k in range(len(steps)):
        pulses, now, end = ref.stitch(("st", line, 0, steps[:k + 1]))
        if steps[k][0] == "o":
            new = [o for o in now if o not in offs]
            if not new:
                return None               # the same offset twice
            s, e, _ = new[0]
            for a, b, _ in offs:
                if a == s:
                    return None if e is None or b is None else False
                lo, hi = ((s, e), (a, b)) if s < a else ((a, b), (s, e))
                if lo[1] is not None and lo[1] > hi[0]:
                    ok = False
            offs = now
            if not ok:
                return False if k == len(steps) - 1 else None
    if any(a == end or a < 0 for a, b, _ in offs):
        return None                       # an offset set where the pulse ends
    spans = sorted((s, s + ref.dur_op(p)) for s, p in pulses)
    if any(a[1] > b[0] for a, b in zip(spans, spans[1:])):
        return None                       # pulses over each other (C09)
    if any(p[0] == "sq" and p[2] >= 100 or p[0] == "ramp" and p[2] >= 2000 for _, p in pulses) and any(
            s < b and (e is None or e > a) for (a, b) in spans for s, e, _ in offs):
        return None                       # a long pulse drops an offset (known finding)
    marks = sorted({t for s, e, _ in offs for t in (s, e) if t is not None} | {t for s, e in spans for t in (s, e)} | {end})
    if any(b - a < 4 for a, b in zip(marks, marks[1:])):
        return None
    return True


def builder(case):
    items, reps, valid = case
    if not valid:
        try:
            for it in items:
                ref.build_op(it)
        except RuntimeError:
            return R("refused")
        raise Violation("accepts-overlapping-offsets", f"{items} is built")
    return sigcheck.check_signals(rg, list(items), reps)


def main():
    c = Check("C02", rule="every schedule of the listed bounded spaces is compiled by the real compiler, "
              "executed on the Q1 model and compared per nanosecond with the reference signal; distinct = "
              "distinct event traces of the executed programs",
              assumptions=["Q1 model: lib/q1.py", "converter tolerance 1.5e-4 of full scale",
                           "voltage offsets persist over repetitions"])
    rg.config()
    c.explore(short, sequences(1, A, (1, 2, 3)) + sequences(2, A, (1, 2, 3)), label="sequences<=2")
    if THOROUGH:
        c.explore(short, sequences(3, A), label="sequences=3")
        small = [A[0], A[2], A[5], A[7], A[9], A[11], A[14], A[17]]
        c.explore(short, sequences(4, small, (2,)), label="sequences=4")
    else:
        c.explore(short, sequences(3, [a for a in A if a != ("idle", 400000)], (2,)), label="sequences=3")
    c.explore(short, ladders(), label="ladders")
    c.explore(short, waits(), label="waits")
    c.explore(short, timing(), label="timing")
    c.explore(short, nests(THOROUGH), label="nests")
    c.explore(short, twins(), label="twins")
    c.explore(short, together(), label="together")
    c.explore(short, library(), label="library")
    c.explore(builder, stitched(), label="stitched")
    c.explore(beside, beside_loops(), label="beside loops")
    c.finish(require_outcomes=("ok",))


if __name__ == "__main__":
    main()
