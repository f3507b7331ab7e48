"""C07: digital outputs and marker pulses switch at the scheduled times."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
from lib import q1, ref, rig, rigs  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of marker-pulse schedules; emitted programs executed by a Q1ASM "
             "interpreter and the marker state of every module compared with the scheduled windows at all times")
NOTE = ("Sequences of up to three marker/switch/ordinary operations over every digital output of every module "
        "type, relative offsets, loops, conditionals and fine delays; trusts the Q1 model and the marker bit "
        "assignment published for the modules.")

# which bit of the marker word drives which connector (hardware documentation)
BIT = {(1, f"digital_output_{i}"): 1 << i for i in range(4)}
BIT.update({(2, f"digital_output_{i}"): 1 << i for i in range(4)})
BIT.update({(3, "complex_output_0"): 1, (3, "complex_output_1"): 2, (3, "digital_output_1"): 4,
            (3, "digital_output_0"): 8, (4, "complex_output_0"): 2, (4, "digital_output_0"): 4,
            (4, "digital_output_1"): 8, (6, "digital_output_0"): 1})
ON, OFF = rigs.marker_rig(True), rigs.marker_rig(False)


def steps(run, ps=False):
    """[(t, state)] of one sequencer."""
    out, s = [], 0
    for e in run.tr.events:
        if e[1] == "mrk":
            out.append((e[0], e[2]))
        elif e[1] == "digital":
            v, m, f = e[2][-1]
            if m != 1:
                raise Violation("digital-mask", str(e))
            out.append((e[0] * 128 + f, v))
    return out


def at(st, t):
    s = 0
    for x, v in st:
        if x <= t:
            s = v
        else:
            break
    return s


def run(case):
    rf_on, items, reps = case
    rg = ON if rf_on else OFF
    rg.use()
    items = list(items)
    eff = ref.flatten(items)
    T = ref.layout(items)[1]
    viol = []
    try:
        comp = rg.sequencers(rg.compile(ref.build(items, repetitions=reps, clocks=rg.clocks)))
    except Exception as e:
        if acceptable(rf_on, items, eff, T, reps):
            raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
        return R("refused")
    has_cond = any(c[0] == "cond" for e in eff for c in e[4])
    n_st = n_tr = n = 0
    sig = []
    for outcome in ((True, False) if has_cond else (True,)):
        runs = {}
        for s, lst in comp.items():
            if len(lst) != 1:
                raise Violation("sequencer-count", s)
            try:
                runs[s] = rig.execute(lst[0][2], cond=lambda k, m, op, t: bool(op == 1) != outcome)
            except q1.Q1Error as e:
                raise Violation("illegal-program", f"{s}: {e}") from None
            n += 1
            n_st += len(runs[s].tr.events)
            n_tr += runs[s].tr.steps
        ends = {r.tr.end for r in runs.values()}
        if len(ends) > 1:
            raise Violation("unequal-total-time", str(ends))
        end = max(ends, default=0)
        period = T + 4
        t0 = 12
        if runs and end != 8 + reps * period:
            raise Violation("wrong-total-time", f"{end} for {reps} x {period}")
        if any(e[1] == "unlatched" and "mrk" in e[2] for r in runs.values() for e in r.tr.events):
            raise Violation("parameter-never-applied", "marker setting never latched")
        st = {s: steps(r) for s, r in runs.items()}
        for s, l in rg.lines.items():
            mod, chan = l[2], l[3]
            win = [(t, t + payload, t, payload, fine(items, s)) for t, kind, where, payload, ctx in eff
                   if kind in ("mark", "rfsw") and where == s and payload > 0
                   and (outcome or not any(c[0] == "cond" for c in ctx))]
            if win and s not in runs:
                raise Violation("line-missing", s)
            if mod == 5:
                if s not in runs:
                    continue
                fs, fe = win[0][4] if win else (0, 0)
                w = sorted((128 * (t0 + r * period + a) + fs, 128 * (t0 + r * period + b) + fe)
                           for r in range(reps) for a, b, *_ in win)
                pts = sorted({p + d for a, b in w for p in (a, b) for d in (-1, 0, 1)} | {0, 128 * end})
                for p in pts:
                    want = any(a <= p < b for a, b in w)
                    if bool(at(st[s], p)) != want:
                        key = overlap_key(w, st[s])
                        raise Violation(key, f"{s} at {p}/128 ns: {not want}, scheduled {want}")
                sig.append((s, tuple(st[s])))
                continue
            bit = BIT.get((mod, chan))
            if bit is None:
                continue
            mine = [x for x in runs if rg.lines[x][2] == mod]
            if not mine:
                continue
            w = sorted((t0 + r * period + a, t0 + r * period + b) for r in range(reps) for a, b, *_ in win)
            always = rf_on and chan.startswith("complex") and s in runs
            dont_care = rf_on and chan.startswith("complex") and s not in runs
            if dont_care:
                continue
            pts = sorted({p + d for a, b in w for p in (a, b) for d in (-1, 0, 1)} | {0, 1, end - 1, end}
                         | {x for m in mine for x, _ in st[m]})
            for p in pts:
                want = always or any(a <= p < b for a, b in w)
                got = any(at(st[m], p) & bit for m in mine)
                if got != want:
                    key = overlap_key(w, [(x, v & bit) for x, v in st.get(s, [])]) if s in runs else "other-output"
                    raise Violation(key, f"{s} (bit {bit}) at {p} ns: {got}, scheduled {want}; windows {w}")
            if s in runs:
                sig.append((s, tuple(st[s])))
    return R("ok" if runs else "empty", states=n_st, transitions=n_tr, traces=n, distinct=tuple(sig), viol=viol)


def overlap_key(w, st):
    """The recorded defect, exactly: the output goes low at the end of every pulse, also inside another one."""
    if any(a2 < b1 for (a1, b1), (a2, b2) in zip(w, w[1:])):
        ev = sorted([(b, 0, False) for a, b in w] + [(a, 1, True) for a, b in w])
        alt = []
        for t, _, v in ev:
            if alt and alt[-1][0] == t:
                alt[-1] = (t, v)
            else:
                alt.append((t, v))
        got = [(t, bool(v)) for t, v in st]
        if all(bool(at(got, t)) == bool(at(alt, t)) for t in {x for x, _ in alt} | {x for x, _ in got if x > 0}):
            return "overlapping-marker-pulses-cut"
    return "wrong-level"


def fine(items, s):
    for it in items:
        op = ref.split(it)[0]
        if op[0] == "mark" and op[1] == s and len(op) > 3:
            return (round(op[3].get("fine_start_delay", 0) * 128e9), round(op[3].get("fine_end_delay", 0) * 128e9))
    return (0, 0)


def acceptable(rf_on, items, eff, T, reps):
    """Sufficient condition: all edges and other events of an output at least 4 ns apart, none at a boundary."""
    if T < 4 or (reps > 1 and T % 4):
        return False
    bounds = sorted({e[0] for e in eff if e[1] == "bound"} | {T})
    by = {}
    for t, kind, where, payload, ctx in eff:
        if kind == "mark":
            l = (ON if rf_on else OFF).lines.get(where)
            if l is None or (l[2], l[3]) not in BIT and l[2] != 5 or l[3].startswith("complex"):
                return False
            if payload < 4:
                return False
            by.setdefault(where, []).extend([(t, 1), (t + payload, 0)])
        elif kind == "rfsw":
            if rf_on or where not in ("mw", "mx", "res") or payload < 4:
                return False
            by.setdefault(where, []).extend([(t, 1), (t + payload, 0)])
        elif kind == "wave":
            if len(payload) >= 100:
                return False
            by.setdefault(where, []).append((t, 2))
        elif kind not in ("bound",):
            return False
    if "'cond'" in repr(items) or "fine" in repr(items):
        return False
    for s, ev in by.items():
        ts = sorted(t for t, _ in ev)
        if any(b - a < 4 for a, b in zip(ts, ts[1:])):
            return False
        for t in ts:
            if any(0 <= b - t < 4 for b in bounds) and not t == 0:
                return False
    return True


LN = ["a0", "a3", "b1", "c0", "c1", "e0", "e1", "d0", "d7", "g0"]


def cases():
    out = []
    # every digital output alone, every duration and repetition
    for s in [x for x in ON.lines if x[0] in "abcdeg" and x not in ("bb",)]:
        for d in (0, 1, 3, 4, 5, 8, 20, 100, 1000, 70000):
            for reps in (1, 2, 3):
                out.append((True, (("mark", s, d), ("idle", 8)), reps))
                out.append((False, (("idle", 12), ("mark", s, d), ("idle", 8)), reps))
            out.append((True, (("mark", s, d),), 1))
            out.append((True, (("t0", 16, ("mark", s, d)), ("idle", 8)), 2))
            out.append((True, (("loop", 3, [("mark", s, d), ("idle", 4)]), ("idle", 4)), 2))
            out.append((True, (("loop", 2, [("idle", 4), ("mark", s, d)]), ("idle", 4)), 2))
            out.append((True, (("loop", 2, [("idle", 4), ("loop", 3, [("mark", s, d), ("idle", 8)])]), ("idle", 4)), 1))
            out.append((True, (("sub", [("idle", 4), ("mark", s, d), ("idle", 16), ("mark", s, d)]), ("idle", 4)), 2))
    # two and three operations at every relative position
    other = [("sq", "mw", 20, .3), ("sq", "mx", 20, .3), ("sq", "res", 20, .2), ("sq", "iq", 20, .1)]
    first = [("mark", s, 20) for s in LN] + other
    for x in first:
        for y in first:
            if x in other and y in other:
                continue
            for rel in (-20, -16, -12, -4, -3, 0, 1, 4, 8):
                for rf in (True, False):
                    out.append((rf, (("idle", 24), x, (y, {"rel": rel}), ("idle", 40)), 2))
    for x, y, z in itertools.product([("mark", s, 20) for s in ("a0", "c1", "d0", "e0")] + other[:3], repeat=3):
        for r1, r2 in ((0, 0), (-20, -20), (-12, -24), (4, -8), (-10, -10), (-20, 0)):
            out.append((True, (("idle", 24), x, (y, {"rel": r1}), (z, {"rel": r2}), ("idle", 60)), 2))
            out.append((False, (("idle", 24), x, (y, {"rel": r1}), (z, {"rel": r2}), ("idle", 60)), 2))
    # explicit RF switches
    for s in ("mw", "mx", "res"):
        for d in (4, 20, 100, 3000):
            for rf in (True, False):
                for rel in (-20, -10, -4, 0, 4, 20):
                    out.append((rf, (("idle", 40), ("sq", s, 20, .3), (("rfsw", s, d), {"rel": rel - 20}), ("idle", 60)), 2))
                    out.append((rf, (("idle", 40), ("rfsw", s, d), (("sq", s, 20, .3), {"rel": rel - d}), ("idle", 60)), 2))
                for m in ("c0", "c1", "e0", "e1", "a0"):
                    for rel in (0, -4, -12, 8):
                        out.append((rf, (("idle", 24), ("mark", m, 16), (("rfsw", s, d), {"rel": rel}), ("idle", 24)), 2))
                for t in ("mw", "mx", "res"):
                    out.append((rf, (("rfsw", s, d), (("rfsw", t, d), {"rel": -d}), ("idle", 8)), 2))
                    out.append((rf, (("rfsw", s, d), (("rfsw", t, 12), {"rel": 8}), ("idle", 8)), 2))
                out.append((rf, (("loop", 3, [("rfsw", s, d), ("idle", 8)]), ("idle", 8)), 2))
    # fine delays on the time-tagging module
    fd = [0, 4e-9 / 128, 1e-9 / 128, 1e-9, 2.5e-9, 15e-9]
    for a in fd:
        for b in fd:
            for d in (8, 20, 100):
                kw = {"fine_start_delay": a, "fine_end_delay": b}
                out.append((True, (("mark", "d0", d, kw), ("idle", 40)), 2))
                out.append((True, (("mark", "d0", d, kw), ("idle", 4), ("mark", "d0", d, kw), ("idle", 40)), 1))
                out.append((True, (("mark", "d7", d, kw), (("mark", "d0", 8), {"rel": -4}), ("idle", 40)), 1))
    # inside conditionals
    acq = ("acq", "thr", "res", 100, 0, None, "AVERAGE", {"feedback_trigger_label": "q0", "acq_threshold": .5})
    hb = {"hardware_buffer_time": 4e-9}
    for s in LN:
        for d in (4, 8, 20):
            for pre in ([], [("idle", 8)], [("sq", "mw", 20, .1)]):
                for tail in (4, 8):
                    out.append((True, (acq, ("idle", 400), ("cond", "q0", [*pre, ("mark", s, d), ("idle", tail)], hb),
                                       ("mark", s, 20), ("idle", 8)), 2))
    return out


def main():
    c = Check("C07", rule="all marker states of all modules compared at every edge (and 1 unit either side) of every "
              "window in every repetition; distinct = distinct marker step sequences",
              assumptions=["Q1 model: lib/q1.py", "a module's marker is the OR of its sequencers' marker words",
                           "fine delay unit 1/128 ns"])
    ON.config()
    OFF.config()
    c.explore(run, cases(), label="markers")
    if THOROUGH:
        ops = [("mark", s, d) for s in ("a0", "a3", "c0", "c1", "e1", "d0") for d in (4, 20)] + [
            ("sq", "mw", 20, .3), ("idle", 4), ("loop", 2, [("mark", "c0", 8), ("idle", 4)])]
        c.explore(run, [(rf, (*w, ("idle", 24)), 2) for rf in (True, False) for w in itertools.product(ops, repeat=4)],
                  label="sequences=4")
    c.finish(require_outcomes=("ok", "refused"))


if __name__ == "__main__":
    main()
