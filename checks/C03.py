"""C03: all sequencers stay in lockstep, offset only by the latency corrections."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
from lib import q1, ref, rig, rigs  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of per-output activities and latency settings; all emitted sequencer "
             "programs executed by a Q1ASM interpreter for 1..3 repetitions and both conditional outcomes")
NOTE = ("For every pair of activities on any two outputs (all module types) and every listed latency table the "
        "real programs are executed and the instants of every repetition compared across sequencers; trusts the "
        "Q1 model (lib/q1.py) and the wait_sync alignment it assumes.")

COND = {"hardware_buffer_time": 4e-9}
ACT = {
    "iq": [("sq", "iq", 20, .3), ("loop", 3, [("sq", "iq", 20, .3), ("idle", 4)]), ("sq", "iq", 204, .2)],
    "fl": [("sq", "fl", 32, .3), ("off", "fl", .2, 0), ("loop", 2, [("loop", 2, [("sq", "fl", 24, .3)])])],
    "mw": [("sq", "mw", 20, .3), ("drag", "mw", 24, .3, .1, 20), ("idle", 70000),
           ("multi", ("sq", "mw", 40, .1), ("t0", 4, ("sq", "fl", 8, .2)))],
    "bb": [("acq", "ssb", "bb", 100, 3, None, "AVERAGE", None),
           ("loop", 3, [("acq", "ssb", "bb", 100, 0, None, "APPEND", None), ("idle", 300)])],
    "res": [("acq", "ssb", "res", 100, 1, None, "APPEND", None), ("sq", "res", 60, .2),
            ("loop", 2, [("sq", "res", 16, .1), ("acq", "ssb", "res", 100, 1, None, "APPEND", None), ("idle", 200)])],
    "mw2": [("loop", 2, [("phase", "q.01", 20), ("idle", 8), ("sq", "mw", 20, .1)]), ("sub", [("sq", "mw", 20, .1), ("lsq", "mw", 40, .1)])],
    "d0": [("mark", "d0", 40), ("loop", 3, [("mark", "d0", 16), ("idle", 4)])],
    "i4": [("acq", "trig", "i4", 100, 2, None, "APPEND", None), ("acq", "tt", "i4", 40, 4, None, "APPEND", None),
           ("loop", 2, [("acq", "trig", "i4", 60, 2, None, "APPEND", None), ("idle", 20)])],
    "m1": [("mark", "m1", 20)], "m3": [("mark", "m3", 32)],
    "cond": [("condmw", [("sq", "mw", 20, .1)]), ("condmw", [("sq", "mw", 16, .1), ("idle", 24), ("sq", "fl", 20, .2)]),
             ("condmw", [("mark", "d1", 16), ("sq", "mw", 20, .1), ("sq", "iq", 8, .1)]), ("condmw", [("idle", 48)])],
}
LAT = [None, {}, {"mw": 20}, {"mw": -20}, {"mw": 4, "fl": 9, "res": 100000, "d0": -3, "i4": 7},
       {"iq": -1, "bb": -65540, "m1": 33, "m3": 2, "d1": 6}, {"iq": 8, "fl": 8, "mw": 8, "bb": 8, "res": 8, "d0": 8,
                                                              "i4": 8, "m1": 8, "m3": 8, "d1": 8}]
RIGS = {}


def get_rig(i):
    if i not in RIGS:
        base = rigs.full_rig()
        o = {}
        if LAT[i] is not None:
            o["latency_corrections"] = {f"{base.lines[k][0]}-{base.lines[k][1]}": v * 1e-9 for k, v in LAT[i].items()}
        RIGS[i] = rigs.full_rig(options=o)
        RIGS[i].config()
    return RIGS[i]


def expand(item):
    if item[0] == "condmw":
        return [("idle", 200), ("acq", "thr", "res", 100, 7, None, "AVERAGE", {"feedback_trigger_label": "q0", "acq_threshold": .5}),
                ("idle", 400), ("cond", "q0", item[1], COND), ("idle", 8)]
    return [item]


def marks(run):
    """The instants at which this program does something visible, by kind."""
    out = {"play": [], "acq": [], "mark": []}
    prev = {"mrk": None, "dig": 0}
    for e in run.tr.events:
        if e[1] == "play":
            out["play"].append(e[0])
        elif e[1] in ("acq", "acqw", "ttl", "acqd"):
            out["acq"].append(e[0])
        elif e[1] == "timetags":
            if e[4] == 1:
                out["acq"].append(e[0])
        elif e[1] == "mrk":
            if prev["mrk"] is not None and e[2] & ~prev["mrk"]:
                out["mark"].append(e[0])
            prev["mrk"] = e[2]
        elif e[1] == "digital":
            for (v, _m, _f) in e[2]:
                if v and not prev["dig"]:
                    out["mark"].append(e[0])
                prev["dig"] = v
    return out


def run(case):
    items0, li = case
    rg = get_rig(li)
    rg.use()
    items = [x for it in items0 for x in expand(it)]
    T = ref.layout(items)[1]
    eff = ref.flatten(items)
    if T % 4:
        items = items + [("idle", 4 - T % 4)]
        T += 4 - T % 4
    comp = {}
    for reps in (1, 2, 3):
        try:
            comp[reps] = rg.sequencers(rg.compile(ref.build(items, repetitions=reps, clocks=rg.clocks)))
        except Exception as e:
            raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
    lat = LAT[li] or {}
    names = sorted(comp[1])
    low = min((lat.get(s, 0) for s in names), default=0)
    n_st = n_tr = n = 0
    sig = []
    for outcome in ((True, False) if any("cond" in str(i[0]) for i in items) else (True,)):
        cond = (lambda k, m, op, t: bool(op == 1) != outcome)
        runs = {}
        for reps in (1, 2, 3):
            if sorted(comp[reps]) != names:
                raise Violation("sequencer-set", f"{names} / {sorted(comp[reps])}")
            for s in names:
                if len(comp[reps][s]) != 1:
                    raise Violation("sequencer-count", s)
                try:
                    runs[s, reps] = rig.execute(comp[reps][s][0][2], cond=cond)
                except q1.Q1Error as e:
                    raise Violation("illegal-program", f"{s}: {e}") from None
                n += 1
                n_tr += runs[s, reps].tr.steps
                n_st += len(runs[s, reps].tr.events)
        for s in names:
            e1, e2, e3 = (runs[s, r].tr.end for r in (1, 2, 3))
            if e2 - e1 != e3 - e2:
                raise Violation("uneven-repetitions", f"{s}: ends at {e1},{e2},{e3}")
            period = e2 - e1
            if period != T + OVERHEAD:
                raise Violation("repetition-length", f"{s}: {period}, schedule {T} + {OVERHEAD}")
            head = e1 - period
            rel = lat.get(s, 0) - low
            if head != HEAD + rel:
                raise Violation("latency-offset", f"{s}: starts at {head}, want {HEAD} + {rel}")
            want = {"play": [], "acq": [], "mark": []}
            for t, kind, where, payload, ctx in eff:
                if where != s or (not outcome and any(c[0] == "cond" for c in ctx)):
                    continue
                k = {"wave": "play", "acq": "acq", "mark": "mark"}.get(kind)
                if k:
                    want[k].append(t)
            got = marks(runs[s, 3])
            for k in want:
                w = sorted(head + OVERHEAD + r * period + t for r in range(3) for t in want[k])
                if k == "play" and any(e[1] == "clear" and e[2] == s for e in eff):
                    # a long pulse starts with an offset; only its repetition pattern is comparable
                    g0 = [x for x in got[k] if x < head + period]
                    if sorted(x + r * period for x in g0 for r in range(3)) != sorted(got[k]):
                        raise Violation("repetitions-differ", f"{s} {k}: {got[k]}")
                    continue
                if sorted(got[k]) != w:
                    raise Violation("wrong-instants", f"{s} {k} (condition {outcome}): {sorted(got[k])[:8]} want {w[:8]}")
            sig.append((s, head, period, tuple(map(tuple, got.values()))))
    return R("ok" if names else "empty", states=n_st, transitions=n_tr, traces=n, distinct=tuple(sig))


def calibrate():
    """The fixed overheads, taken from the simplest program on a baseband module."""
    global OVERHEAD, HEAD
    rg = get_rig(0)
    rg.use()
    ends = []
    for reps in (1, 2):
        c = rg.compile(ref.build([("sq", "iq", 40, .3)], repetitions=reps, clocks=rg.clocks))
        r = rig.execute(rg.sequencers(c)["iq"][0][2])
        ends.append(r.tr.end)
    OVERHEAD = ends[1] - ends[0] - 40
    HEAD = ends[0] - (ends[1] - ends[0])
    assert OVERHEAD >= 0 and HEAD >= 0, (OVERHEAD, HEAD)


def cases(lats):
    flat = [a for v in ACT.values() for a in v]
    out = [((a, ("idle", 40)), i) for a in flat for i in range(len(LAT))]
    for a in flat:
        for b in flat:
            if "condmw" in (a[0], b[0]) and a[0] == b[0] and a is not b:
                continue
            for i in lats:
                out.append(((a, ("idle", 264), b, ("idle", 8)), i))
    return out


def parallel():
    """Three outputs at once, and one output with everything."""
    out = []
    trip = ["iq", "fl", "mw", "bb", "res", "d0", "i4", "m1", "m3", "cond"]
    for c3 in itertools.combinations(trip, 3):
        for ks in itertools.product((0, -1), repeat=3):
            items = tuple(ACT[t][k] for t, k in zip(c3, ks))
            if sum(i[0] == "condmw" for i in items) > 1:
                continue
            for i in (0, 4, 5):
                out.append(((*items, ("idle", 8)), i))
    return out


def main():
    c = Check("C03", rule="all programs of every schedule executed for 1, 2 and 3 repetitions; distinct = distinct "
              "tuples of per-sequencer start, period and instants",
              assumptions=["Q1 model: lib/q1.py", "latencies are whole nanoseconds",
                           "wait_sync releases all sequencers at one instant"])
    for i in range(len(LAT)):
        get_rig(i)
    calibrate()
    c.extra["overhead_ns"], c.extra["head_ns"] = OVERHEAD, HEAD
    c.explore(run, cases(range(len(LAT)) if THOROUGH else (0, 4, 5)), label="pairs")
    c.explore(run, parallel(), label="triples")
    c.finish(require_outcomes=("ok",))


if __name__ == "__main__":
    main()
