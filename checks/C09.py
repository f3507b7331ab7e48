"""C09: overlapping pulses on one output play their sum."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import numpy as np
from lib import ref, rigs, sigcheck  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of arrangements of overlapping pulses; the programs the real compiler emits are executed by "
             "a Q1ASM interpreter and compared per nanosecond with the sum of the pulses")
NOTE = ("All arrangements of two and three pulses (thorough: four) of every shape on one output at every relative start of a grid, in "
        "every order, next to pulses on other outputs, inside sub-schedules and loops, and overlapping across their borders. Trusts the "
        "Q1 model in lib/q1.py and the waveform formulas in lib/ref.py.")
RG = rigs.main_rig()


def at(node, t):
    """Place relative to the start of the schedule (item 0 is an anchor)."""
    return (node, {"ref": 0, "pt": "start", "pt_new": "start", "rel": t})


def run(case):
    items, reps, must = case
    items = list(items)
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        return run2(items, reps, must, log)


def run2(items, reps, must, log):
    try:
        return sigcheck.check_signals(RG, items, reps, allow_reject=not must)
    except Violation as v:
        if v.args[0] == "phase-differs":
            raise
        if v.args[0] == "long-pulse-drops-voltage-offset":
            return R("known C02 finding")
        if not must and any("is interrupting previous Pulse" in str(w.message) for w in log):
            return R("truncated with a warning")
        if "multi" in repr(items) and v.args[0] == "signal-differs":
            raise Violation("several-pulses-in-one-operation", v.args[1]) from None
        raise


def kinds(line):
    out = [("sq", line, 20, .2), ("sq", line, 12, -.15), ("ramp", line, 24, .3, .1), ("num", line, tuple([.1, -.2, .3, .05] * 4)),
           ("sq", line, 120, .25), ("stair", line, 40, 0., .2, 4),
           ("wf", line, "snz", 8, 4, 12, .3, .5, .9)]
    if line in ("mw", "iq"):
        out += [("drag", line, 20, .2, .1, 40), ("sq", line, 16, .1 + .2j), ("gauss", line, 24, .2, 90), ("wf", line, "chirp", 20, .2, 10e6, 60e6), ("wf", line, "hermite", 24, .2, 2e-10, 60)]
    return out


def ok(items, reps=1):
    """Every interval between borders of pulses of one line is at least 4 ns, sums in range."""
    eff = ref.flatten(items)
    T = ref.layout(items)[1]
    lines = {}
    for e in eff:
        if e[1] == "wave":
            lines.setdefault(e[2], []).append((e[0], e[0] + len(e[3]), e[3]))
    for ws in lines.values():
        edges = sorted({x for a, b, _ in ws for x in (a, b)} | {T})
        if any(b - a < 4 for a, b in zip(edges, edges[1:])):
            return False
        s = np.zeros(T, complex)
        for a, b, w in ws:
            s[a:b] += w
        if np.max(np.abs(s.real)) > 1 or np.max(np.abs(s.imag)) > 1:
            return False
    return True


def main():
    ck = Check("C09", rule=NOTE, assumptions=["an overlap leaving a piece shorter than 4 ns may be refused",
                                              "voltage offsets are not pulses and are not summed"])
    anchor = ("idle", 240)
    # two pulses
    c = []
    grid2 = sorted({0, 1, 2, 3, 4, 5, 8, 11, 12, 13, 16, 19, 20, 21, 24, 40, 60, 96, 100, 116, 120})
    for line in ("mw", "fl", "iq"):
        ks = kinds(line)
        for x in ks:
            for y in ks:
                for d in grid2:
                    for order in (0, 1):
                        p = [at(x, 4), at(y, 4 + d)]
                        if order:
                            p.reverse()
                        for extra in ((), (at(("sq", "res", 20, .3), 8),)):
                            if extra and (order or d % 4 and not THOROUGH):
                                continue
                            its = (anchor, *p, *extra)
                            c.append((its, 1, must(its)))
    ck.explore(run, c, label="two pulses")
    # three pulses
    c = []
    for line in ("mw", "fl"):
        ks = kinds(line)
        ks = [ks[0], ks[1], ks[2], ks[3]] + ks[6:7]
        for tri in itertools.product(ks, repeat=3):
            for d1 in (0, 4, 8, 12, 20, 24) if THOROUGH else (0, 8, 12):
                for d2 in (0, 4, 8, 16, 20, 28) if THOROUGH else (0, 4, 16, 20):
                    for perm in itertools.permutations(range(3)) if THOROUGH else ((0, 1, 2), (2, 0, 1)):
                        p = [at(tri[0], 0), at(tri[1], d1), at(tri[2], d2)]
                        its = (anchor, *[p[i] for i in perm], at(("sq", "res", 12, .2), 4))
                        c.append((its, 1, must(its)))
    ck.explore(run, c, label="three pulses")
    if THOROUGH:
        c = []
        ks = [("sq", "mw", 20, .2), ("sq", "mw", 12, -.1), ("ramp", "mw", 24, .2, .1), ("num", "mw", tuple([.1, -.2, .1, .05] * 4))]
        for q in itertools.product(ks, repeat=4):
            for ds in itertools.product((0, 4, 12), repeat=3):
                its = (anchor, at(q[0], 0), *[at(q[i + 1], ds[i]) for i in range(3)])
                c.append((its, 1, must(its)))
        ck.explore(run, c, label="four pulses")
    # structure
    c = []
    P = [("sq", "mw", 20, .2), ("ramp", "mw", 24, .2, .1), ("sq", "mw", 120, .1), ("drag", "mw", 20, .2, .1, 40)]
    for x in P:
        for y in P:
            for d in (0, 4, 8, 20, 24):
                pair = [("idle", 160), at(x, 0), at(y, d)]
                for w in (("sub", pair), ("loop", 2, pair), ("sub", [("sub", pair)]), ("loop", 2, [("sub", pair)]), ("sub", [("loop", 3, pair)])):
                    for pre in ((), (("sq", "mw", 20, .05),)):
                        for r in (1, 2):
                            its = (*pre, w, ("sq", "mw", 8, .05))
                            c.append((its, r, must(its)))
                # shared sub-schedule, repeated
                c.append(((("sub", pair), ("sub", pair), ("sq", "mw", 8, .05)), 2, must((("sub", pair), ("sub", pair)))))
                # overlap across a border: outer pulse with one inside
                for w in (("sub", [x, ("idle", 60)]), ("loop", 2, [x, ("idle", 60)])):
                    its = (("idle", 400), at(w, 0), at(y, d))
                    c.append((its, 1, False))
                    its = (("idle", 400), at(y, 0), at(w, d))
                    c.append((its, 1, False))
                its = (("idle", 400), at(("sub", [x, ("idle", 60)]), 0), at(("sub", [y, ("idle", 60)]), d))
                c.append((its, 1, False))
                # timing of others
                for line in ("fl", "res"):
                    its = (("idle", 20), *pair[1:], (("sq", line, 20, .3), {"ref": 2, "pt": "end"}), ("idle", 8))
                    c.append((its, 2, must(its)))
                its = (anchor, at(x, 0), at(y, d), at(("phase", "q.01", 30.0), 200), at(("sq", "mw", 20, .1), 208))
                c.append((its, 1, must(its)))
                its = (anchor, at(x, 0), at(y, d), at(("off", "mw", .1, .1), 160), at(("off", "mw", 0., 0.), 200))
                c.append((its, 1, must(its)))
                for t0 in (4, 8, 20):
                    its = (anchor, at(("t0", t0, x), 0), at(y, d))
                    c.append((its, 1, must(its)))
                    its = (anchor, at(("multi", x, ("t0", t0, ("sq", "mw", 8, .1))), 0), at(y, d))
                    c.append((its, 1, False))
    ck.explore(run, c, label="structure")
    ck.finish(("ok",))


def must(items):
    return ok(items) and all(x not in repr(items) for x in ("120",))


if __name__ == "__main__":
    main()
