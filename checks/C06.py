"""C06: conditional operations run exactly when their measurement says so."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import numpy as np
from lib import q1, ref, rig, rigs, sigcheck  # noqa: E402

TECHNIQUE = ("explicit-state exploration: every emitted sequencer program is executed by a Q1ASM interpreter coupled to a model of the "
             "trigger network, for every assignment of outcomes to every executed measurement, over an exhaustive bounded "
             "enumeration of schedules")
NOTE = ("Every sequence of up to three (thorough: four) measure/condition blocks over five kinds of measurement and the listed bodies, "
        "loops, sub-schedules and repetitions, times all outcome assignments and the shortest and longest trigger delay. Trusts the "
        "Q1 model and the trigger-network model (trigger after the end of an acquisition; per count for the QRM).")

RG = rigs.acq_rig()
H = {"hardware_buffer_time": 4e-9}
THR = 3
LINES_ACQ = {"res", "bb", "rt", "i4", "i5"}


def M(label, kind="thr", ch=None):
    """A conditional measurement."""
    from quantify_scheduler.enums import TriggerCondition as TC
    line = {"thr": "res", "thb": "bb", "wthr": "bb", "ttlge": "rt", "ttllt": "rt", "qge": "i4", "qlt": "i4", "dual": "i4"}[kind]
    ch = {"thr": 0, "thb": 1, "wthr": 6, "ttlge": 2, "ttllt": 2, "qge": 3, "qlt": 3, "dual": 4}[kind] if ch is None else ch
    if kind == "wthr":
        w = [.5] * 50 + [.25] * 50
        return ("acq", "wthr", line, 100, ch, None, "APPEND", (w, w[::-1], {"feedback_trigger_label": label, "acq_threshold": 2.5}))
    if kind in ("thr", "thb"):
        return ("acq", "thr", line, 100, ch, None, "APPEND", {"feedback_trigger_label": label, "acq_threshold": .5, "acq_rotation": 0})
    if kind == "dual":
        return ("acq", "dtc", line, 100, ch, None, "APPEND", {"threshold_low": THR, "threshold_high": THR + 2, **label})
    return ("acq", "ttc", line, 100, ch, None, "APPEND", {
        "threshold": THR, "feedback_trigger_label": label,
        "feedback_trigger_condition": TC.LESS_THAN if kind.endswith("lt") else TC.GREATER_THAN_EQUAL_TO})


def C(label, body, buf=True):
    return ("cond", label, list(body)) + ((H,) if buf else ())


BODIES = {
    "sq": [("sq", "mw", 20, .3)],
    "two": [("sq", "mw", 16, .2), ("idle", 24), ("sq", "fl", 20, -.4)],
    "par": [("sq", "mw", 20, .2), (("sq", "fl", 12, .4), {"ref": 0, "pt": "start"}), ("sq", "iq", 8, .1)],
    "long": [("sq", "iq", 204, .5), ("idle", 8)],
    "idle": [("idle", 48)],
    "off": [("off", "fl", .3, 0), ("idle", 40), ("off", "fl", 0., 0), ("idle", 8)],
    "phase": [("phase", "q.01", 50.0), ("idle", 8), ("sq", "mw", 20, .2), ("idle", 4)],
    "loop": [("loop", 3, [("sq", "mw", 16, .2), ("idle", 4)]), ("idle", 4)],
    "sub": [("sub", [("sq", "res", 20, .1), ("sq", "mw", 20, .1)]), ("sq", "mw", 4, .3)],
    "wait": [("sq", "mw", 20, .1), ("idle", 5 * 65532 + 20), ("sq", "mw", 20, .2)],
    "wait2": [("sq", "mw", 20, .1), ("idle", 2 * 65532 + 20), ("sq", "mw", 20, .2)],
    "acq": [("acq", "ssb", "bb", 100, 7, None, "APPEND", None), ("idle", 510), ("sq", "mw", 8, .2)],
    "many": [x for i in range(6) for x in (("sq", "mw", 4 + i, .1), ("sq", "fl", 5, .2))],
    "tight": [("sq", "mw", 4, .1)],
}


def measured(items):
    """Executed measurements and conditionals of one repetition in time order.

    [(time, "M", op)] and [(time, "C", node, body start)].
    """
    out = []

    def walk(its, t):
        for st, node in ref.layout(its)[0]:
            node_walk(node, t + round(st))

    def node_walk(node, t):
        k = node[0]
        if k == "sub":
            walk(node[1], t)
        elif k == "loop":
            d = ref.layout(node[2])[1]
            for i in range(node[1]):
                walk(node[2], t + i * d)
        elif k == "cond":
            out.append((t, "C", node))
        elif k == "acq" and has_label(node):
            out.append((t, "M", node))
    walk(items, 0)
    out.sort(key=lambda e: e[0])
    return out


def extra(op):
    return op[7][2] if isinstance(op[7], tuple) else op[7] or {}


def has_label(op):
    return any(k.startswith(("feedback_trigger_label", "label_")) for k in extra(op))


def labels_met(op, o):
    """Labels whose condition holds for outcome o of this measurement."""
    ex = extra(op)
    if op[1] == "dtc":
        kind = ("low", "mid", "high")[o]
        return {v for k, v in ex.items() if k == f"label_{kind}"}
    lt = getattr(ex.get("feedback_trigger_condition"), "value", "") == "less_than"
    return {ex["feedback_trigger_label"]} if bool(o) != lt else set()


def all_labels(op):
    return {v for k, v in extra(op).items() if k.startswith(("feedback_trigger_label", "label_"))}


def plan(items, reps, T):
    """[(abs time, op)] of all measurements, [(abs time, node, index of measurement)] of conditionals; None if invalid."""
    ms, cs = [], []
    active = {}
    ok = True
    ev = measured(items)
    for r in range(reps):
        base = r * (T + 4)
        active = {}
        for e in ev:
            if e[1] == "M":
                if active:
                    ok = False
                ms.append((base + e[0], e[2]))
                active = {lab: len(ms) - 1 for lab in all_labels(e[2])}
            else:
                if e[2][1] not in active:
                    ok = False
                    continue
                cs.append((base + e[0], e[2], active.pop(e[2][1])))
    return (ms, cs) if ok else None


def effects(items, reps, T, decide):
    """Absolute effects with bodies of untaken conditionals removed. decide: {abs time of conditional: bool}"""
    out = []
    for r in range(reps):
        base = r * (T + 4)
        rep = []
        walk(items, base, rep, decide)
        out += rep
        for c, _ in RG.clocks:
            out.append((base - 4, "reset", c, None, ()))
    out.sort(key=lambda e: e[0])
    return out


def walk(its, t, out, decide):
    for st, node in ref.layout(its)[0]:
        node_walk(node, t + round(st), out, decide)


def node_walk(node, t, out, decide):
    k = node[0]
    if k == "sub":
        walk(node[1], t, out, decide)
    elif k == "loop":
        d = ref.layout(node[2])[1]
        for i in range(node[1]):
            walk(node[2], t + i * d, out, decide)
    elif k == "cond":
        if decide[t]:
            walk(node[2], t, out, decide)
    else:
        ref.effects_op(node, t, out, ())


def triggers_of(short, run, st, outcome_at, t0, delay):
    """(arrival, address) sent by one sequencer."""
    out = []
    if not getattr(st, "thresholded_acq_trigger_write_en", None):
        return out
    opened = None
    for e in run.tr.events:
        if e[1] in ("acq", "acqw"):
            o = outcome_at(e[0] - t0, short)
            if o:
                out.append((e[0] + st.integration_length_acq + delay, st.thresholded_acq_trigger_write_address))
        elif e[1] == "ttl":
            if e[4]:
                opened = e[0]
            else:
                n = count_of(outcome_at(opened - t0, short))
                for i in range(n):
                    out.append((opened + 12 + 4 * i + delay, st.thresholded_acq_trigger_write_address))
        elif e[1] == "timetags":
            if e[4]:
                opened = e[0]
            else:
                n = count_of(outcome_at(opened - t0, short))
                lo, hi = st.thresholded_acq_trigger_write_threshold_low, st.thresholded_acq_trigger_write_threshold_high
                a = (st.thresholded_acq_trigger_write_address_low if n < lo else
                     st.thresholded_acq_trigger_write_address_high if n >= hi else
                     st.thresholded_acq_trigger_write_address_mid)
                if a:
                    out.append((e[0] + delay, a))
    return out


def count_of(o):
    return {0: THR - 1, 1: THR, 2: THR + 2}[o]


def run(case):
    items, reps = case
    items = list(items)
    RG.use()
    T = ref.layout(items)[1]
    pl = plan(items, reps, T)
    nested = any(any(x[0] == "cond" for x in c[1][2]) for c in pl[1]) if pl else False
    try:
        comp = RG.compile(ref.build(items, repetitions=reps, clocks=RG.clocks))
    except Exception as e:
        if pl is not None and not nested and accept(items):
            raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
        return R("refused:" + type(e).__name__, distinct=str(e)[:60])
    if pl is None or nested:
        raise Violation("accepts-invalid", "a conditional that cannot work is accepted")
    ms, cs = pl
    seqs = RG.sequencers(comp)
    for s, lst in seqs.items():
        if len(lst) != 1:
            raise Violation("sequencer-count", s)
    origin = 12
    opts = [(0, 1, 2) if m[1][1] == "dtc" else (0, 1) for m in ms]
    n_st = n_tr = n = 0
    dist = set()
    for assign in itertools.product(*opts):
        at = {}
        for (t, op), o in zip(ms, assign):
            at[t, op[2]] = o
        for delay in (100, 364):
            def outcome_at(t, short):
                # acquisitions without a label always click
                return at.get((t, short), UNL)
            trig, runs = [], {}
            for _ in range(len(cs) + 2):
                runs = {}
                new = []
                for s, lst in seqs.items():
                    st = lst[0][2]
                    rs = {a: (1 if x.thresholded_acq_trigger_count is None else x.thresholded_acq_trigger_count,
                              bool(x.thresholded_acq_trigger_invert))
                          for a, x in st.thresholded_acq_trigger_read_settings.items()}
                    try:
                        runs[s] = rig.execute(st, triggers=trig, read_settings=rs)
                    except q1.Q1Error as e:
                        raise Violation("illegal-program", f"{s}: {e}") from None
                    new += triggers_of(s, runs[s], st, outcome_at, origin, delay)
                new.sort()
                if new == trig:
                    break
                trig = new
            else:
                raise Violation("no-fixpoint", str(assign))
            decide = {t: node[1] in labels_met(ms[i][1], assign[i]) for t, node, i in cs}
            try:
                compare(items, reps, T, runs, decide)
            except Violation as v:
                raise Violation(v.args[0], f"outcomes {assign}, trigger delay {delay}: {v.args[1]}") from None
            n_st += sum(len(r.tr.events) for r in runs.values())
            n_tr += sum(r.tr.steps for r in runs.values())
            n += 1
            dist.add(tuple((s, tuple(r.tr.events)) for s, r in sorted(runs.items())))
    return R("ok", states=n_st, transitions=n_tr, traces=n, distinct=frozenset(map(hash, dist)).__hash__() & 0xffffffffffff)


UNL = 1


def accept(items):
    """Schedules of this check that must compile."""
    return "'idle', 0)" not in repr(items)


def compare(items, reps, T, runs, decide):
    total = reps * (T + 4)
    eff = effects(items, reps, T, decide)
    ends = {s: r.tr.end for s, r in runs.items()}
    if set(ends.values()) != {8 + total}:
        raise Violation("outside-timing-changes", f"programs end at {ends}, expected {8 + total}")
    for s, r in sorted(runs.items()):
        line = RG.lines[s]
        want_acq = sorted(e[0] for e in eff if e[1] == "acq" and e[2] == s)
        got_acq = [e[0] - 12 for e in r.tr.events if e[1] in ("acq", "acqw") or e[1] in ("ttl", "timetags") and e[4] == 1]
        if got_acq != want_acq:
            raise Violation("acquisitions-differ", f"{s}: at {got_acq}, expected {want_acq}")
        if line[1] == "digital":
            continue
        want = rig.ref_signal(eff, s, T, 1, total)
        g0, g1 = r.render(12, 12 + total)
        ok = rig.close(g0, want.real, sigcheck.TOL) and (line[4] or rig.close(g1, want.imag, sigcheck.TOL))
        if not ok:
            raise Violation("signal-differs", f"{s}: {rig.first_diff(g0 + (0 if line[4] else 1j) * g1, want, sigcheck.TOL)}")
        if line[5]:
            act = np.abs(want) > 10 * sigcheck.TOL
            if act.any():
                w = rig.ref_nco(eff, line[1], line[5], 1, total, 4)
                g = r.nco(12, 12 + total, r.settings.modulation_freq)
                d = np.abs((g - w + 180) % 360 - 180)
                if (act & (d > 1e-3)).any():
                    i = int(np.argmax(act & (d > 1e-3)))
                    raise Violation("phase-differs", f"{s} at {i} ns: {g[i] % 360:.3f} instead of {w[i] % 360:.3f}")
    for s in {e[2] for e in eff if e[1] == "wave"}:
        if s not in runs:
            raise Violation("line-missing", s)


def gap(n=400):
    return ("idle", n)


def block(label, kind, body, g=400):
    if kind == "dual":
        return (M({f"label_{label}": label}, kind), gap(g), C(label, BODIES[body]), ("idle", 8))
    return (M(label, kind), gap(g), C(label, BODIES[body]), ("idle", 8))


def main():
    ck = Check("C06", rule=NOTE, assumptions=[
        "a conditional starts at least 364 ns after the end of its measurement (the delay documented for users)",
        "counts of a QRM trigger-count acquisition arrive during its window, later than the counter reset 4 ns after its start"])
    bodies = [b for b in BODIES]
    kinds = ["thr", "thb", "wthr", "ttlge", "ttllt", "qge", "qlt", "dual"]
    lab = {k: ("mid" if k == "dual" else "q" + str(i)) for i, k in enumerate(kinds)}
    # one block
    c = []
    for k in kinds:
        for b in bodies:
            for lb in ("low", "mid", "high") if k == "dual" else (lab[k],):
                for g in (364, 367, 400, 1000):
                    for pre in ((), (("sq", "mw", 20, .1),), (("idle", 4), ("sq", "fl", 120, .1))):
                        for post in ((), (("sq", "mw", 20, .15), ("idle", 4)), (("sq", "fl", 4, .15), ("sq", "res", 20, .1))):
                            for r in (1, 2) if g == 400 else (1,):
                                if not THOROUGH and (r == 2 and pre or k not in ("thr", "ttllt", "dual") and (len(pre) + len(post)) % 2
                                                         or b.startswith("wait") and (pre or post)):
                                    continue
                                c.append(((*pre, *block(lb, k, b, g), *post), r))
    ck.explore(run, c, label="one block")
    # two and three blocks: same or different labels and modules
    c = []
    b2 = ["sq", "two", "off", "phase", "acq"] if not THOROUGH else bodies
    for k1 in kinds:
        for k2 in kinds:
            if {k1, k2} in ({"thb", "wthr"}, {"ttlge", "ttllt"}, {"qge", "qlt"}, {"dual", "qge"}, {"dual", "qlt"}):
                continue
            for x in b2:
                for y in b2:
                    for r in (1, 2):
                        c.append(((*block(lab[k1], k1, x), *block(lab[k2], k2, y), ("sq", "mw", 20, .1), ("idle", 4)), r))
            c.append(((*block(lab[k1], k1, "sq"), *block(lab[k2], k2, "two"), *block(lab[k1], k1, "tight")), 1))
    three = ["thr", "thb", "ttllt", "qge"]
    for k3 in itertools.product(three, repeat=3):
        c.append((sum((block(lab[k], k, b) for k, b in zip(k3, ("sq", "two", "phase"))), ()), 1))
    ck.explore(run, c, label="several blocks")
    # loops, sub-schedules, shared blocks, reordered addition
    c = []
    for k in kinds:
        for b in ("sq", "two", "idle", "off", "loop", "acq"):
            bl = block(lab[k], k, b)
            for n in (1, 2, 3):
                for r in (1, 2) if n < 3 or THOROUGH else (1,):
                    c.append(((("loop", n, [*bl]), ("sq", "mw", 20, .1)), r))
                c.append(((("loop", n, [("sub", [*bl])]), ("sq", "mw", 20, .1)), 1))
                c.append(((("sub", [("loop", n, [*bl, ("sq", "mw", 8, .2)])]), ("idle", 8)), 1))
                c.append(((("loop", n, [*bl, ("loop", 2, [("sq", "mw", 20, .1)])]), ("idle", 8)), 1))
            c.append(((("loop", 2, [("loop", 2, [*bl]), ("sq", "fl", 8, .1), ("idle", 4)]), ("idle", 8)), 1))
            c.append(((("loop", 2, [*bl, *block("qz", "thr" if k != "thr" else "thb", "sq")]), ("idle", 8)), 1))
            c.append(((("sub", [*bl]), ("sub", [*bl]), ("idle", 8)), 2))
            c.append(((*bl, ("sub", [*bl]), ("loop", 2, [*bl]), ("idle", 8)), 1))
            # conditional added to the schedule before its measurement
            c.append(((("idle", 4), C(lab[k], BODIES[b]), (bl[0], {"ref": 0, "pt": "end", "rel": -504}), (("idle", 8), {"ref": 1})), 1))
    ck.explore(run, c, label="structure")
    # several labels from one measurement
    c = []
    for x, y in itertools.permutations(("low", "mid", "high"), 2):
        for bx in ("sq", "two", "off"):
            for by in ("sq", "two"):
                m = M({f"label_{x}": x, f"label_{y}": y}, "dual")
                for r in (1, 2):
                    c.append(((m, gap(), C(x, BODIES[bx]), ("idle", 8), C(y, BODIES[by]), ("idle", 8)), r))
    m = M({f"label_{x}": x for x in ("low", "mid", "high")}, "dual")
    for p in itertools.permutations(("low", "mid", "high")):
        c.append(((m, gap(), *[z for x in p for z in (C(x, BODIES["sq"]), ("idle", 8))]), 2))
    ck.explore(run, c, label="dual thresholds")
    # one label for several measurements
    c = []
    for k1 in kinds:
        for k2 in kinds:
            if "dual" not in (k1, k2):
                for b in ("sq", "two"):
                    c.append(((*block("q", k1, b), *block("q", k2, b), ("sq", "mw", 20, .1), ("idle", 4)), 1))
    ck.explore(run_shared, c, label="shared label")
    # invalid ones
    c = []
    m0, m1 = M("q0"), M("q1", "thb")
    c0, c1 = C("q0", BODIES["sq"]), C("q1", BODIES["sq"])
    toks = [m0, m1, c0, c1, ("loop", 2, [m0, gap()]), ("loop", 2, [c0, ("idle", 8)]), ("sub", [m1, gap()]), ("sub", [c1, ("idle", 8)]),
            ("cond", "q0", [c0, ("idle", 8)], H), ("cond", "q0", [c1, ("idle", 8)], H)]
    for n in (1, 2, 3, 4) if THOROUGH else (1, 2, 3):
        for w in itertools.product(toks, repeat=n):
            c.append((tuple(x for o in w for x in (o, gap(480))), 1))
    for n in (14, 15, 16, 20):
        c.append((tuple(x for i in range(n) for x in (M(f"l{i}", "thr", ch=0), gap(), C(f"l{i}", BODIES["tight"]), ("idle", 8))), 1))
    ck.explore(run_invalid, c, label="orders")
    ck.explore(run_many, [1, 2, 14, 15, 16, 17], label="addresses")
    ck.finish(("ok", "refused:RuntimeError"))


def run_shared(case):
    """One label whose measurements have different conditions may be refused, but not played wrong."""
    try:
        return run(case)
    except Violation as v:
        if v.args[0] != "rejects-valid":
            raise
        acqs = [x for x in case[0] if x[0] == "acq"]
        if acqs[0][2] == acqs[1][2] and (acqs[0][1], extra(acqs[0]).get("feedback_trigger_condition")) != (
                acqs[1][1], extra(acqs[1]).get("feedback_trigger_condition")):
            return R("refused:different conditions")
        if len({measurement_condition(x) for x in case[0] if x[0] == "acq"}) > 1:
            return R("refused:different conditions")
        raise


def measurement_condition(op):
    """What the trigger counter of the conditional sequencer is compared with."""
    if op[1] == "ttc" and op[2] == "rt":
        ex = extra(op)
        return str(ex["feedback_trigger_condition"]), ex["threshold"]
    return "1"


def run_invalid(case):
    items, reps = case
    if len(items) > 40:       # one sequencer cannot serve several addresses
        RG.use()
        try:
            RG.compile(ref.build(list(items), clocks=RG.clocks))
        except Exception as e:
            return R("refused:" + type(e).__name__)
        raise Violation("accepts-invalid", "one output stage sends triggers to several addresses")
    return run(case)


def run_many(n):
    """n labels on n sequencers (one QRM input each port-clock)."""
    from lib.rig import Rig
    mods = {i: "QRM_RF" for i in range(1, 6)}
    lines, graph, clocks = {}, [], []
    for i in range(n):
        slot = 1 + i // 6
        lines[f"r{i}"] = (f"q:r{slot}", f"c{i}", slot, "complex_output_0", False, 50e6 + i)
        clocks.append((f"c{i}", 5e9 + i))
        if i % 6 == 0:
            graph.append((f"cluster0.module{slot}.complex_output_0", f"q:r{slot}"))
    rg = Rig(mods, graph, lines, clocks=clocks)
    rg.use()
    items = []
    for i in range(n):
        items += [("acq", "thr", f"r{i}", 100, i, None, "APPEND", {"feedback_trigger_label": f"l{i}", "acq_threshold": .5, "acq_rotation": 0}),
                  gap(), C(f"l{i}", [("sq", "r0", 20, .1)]), ("idle", 8)]
    try:
        comp = rg.compile(ref.build(items, clocks=clocks))
    except Exception as e:
        if n <= 15:
            raise Violation("rejects-valid", f"{n} labels: {type(e).__name__}: {e}") from None
        return R("refused:" + type(e).__name__)
    if n > 15:
        raise Violation("accepts-invalid", f"{n} trigger addresses")
    addr = [lst[0][2].thresholded_acq_trigger_write_address for lst in rg.sequencers(comp).values()]
    if len(set(addr)) != n or not set(addr) <= set(range(1, 16)):
        raise Violation("addresses-shared", str(addr))
    return R("ok", distinct=n)


if __name__ == "__main__":
    main()
