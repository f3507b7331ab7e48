"""C25: time-tagging acquisitions open and close exactly over their window."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import math
import numpy as np
from checks import C04 as c04
from lib import icsim, q1, ref, rig, rigs  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of schedules on time-tagging inputs; the emitted programs are executed by "
             "a Q1ASM interpreter whose windows, scope enables and time references are compared with the schedule and "
             "fed back, with one deterministic stream of photons per window, through the real retrieval")
NOTE = ("Every sequence of up to three (thorough: four) time-tag, count, trace and time-tag-trace blocks over two inputs, "
        "with fine delays, loops, sub-schedules, conditionals and repetitions; every combination of time source, time "
        "reference and other channel; every pair of protocols and of settings on one input; fine delays at every limit. "
        "Trusts the Q1 model, the vendor documentation for windows (4 ns less than the duration) and scope data.")

CLK = rigs.CLOCKS


def tag_rig(inputs=("i4", "i5", "i6")):
    g, lines = [], {}

    def add(short, mod, chan, clock="digital", real=False, f=None):
        g.append((f"cluster0.module{mod}.{chan}", f"q:{short}"))
        lines[short] = (f"q:{short}", clock, mod, chan, real, f)
    add("mw", 3, "complex_output_0", "q.01", f=50e6)
    add("res", 4, "complex_output_0", "q.ro", f=100e6)
    add("d0", 5, "digital_output_0")
    for s in inputs:
        add(s, 5, f"digital_input_{s[1]}")
    add("j1", 6, "digital_input_1")
    return rig.Rig({3: "QCM_RF", 4: "QRM_RF", 5: "QTM", 6: "QTM"}, g, lines, clocks=CLK, options={
        "digitization_thresholds": {f"q:{s}-digital": {"analog_threshold": THR[s]} for s in (*inputs, "j1")}})


THR = {"i4": .5, "i5": .25, "i6": -.125, "j1": 1.0, "i0": .1}
RG = tag_rig()
MODES = {"tt": ("APPEND", "AVERAGE"), "trig": ("APPEND", "SUM"), "ttrace": ("APPEND",), "trace": ("FIRST",),
         "ttc": ("APPEND",), "dtc": ("APPEND",)}
FINE = ("tt", "trig", "ttrace")
SCOPED = ("trace", "ttrace")
BASE = 322053621179604992     # absolute time of the cluster, 1/2048 ns
MAXF = 2047
REC = {"scope": 16384}


def blk(proto, line, chan, mode, ex=None, dur=100, coords=None):
    x = dict(ex or {})
    if proto not in FINE:
        x = {k: v for k, v in x.items() if not k.startswith("fine")}
    if proto == "ttc":
        x = {"threshold": 2, "feedback_trigger_label": "f", "feedback_trigger_condition": "greater_than_equal_to", **x}
    if proto == "dtc":
        x = {"threshold_low": 1, "threshold_high": 3, "label_low": "l", **x}
    return ("acq", proto, line, dur, chan, coords, mode, c04.Fz(x))


def fd(op, which):
    return round(dict(op[7] or {}).get(f"fine_{which}_delay", 0) * 128e9) if op[1] != "trace" else 0


# ---------------------------------------------------------------- what a window records
def photons(t, line):
    """Arrival times after the opening, in 1/2048 ns, of the photons in the window opened at t."""
    h = (t * 40503 + int(line[1]) * 977) & 0xFFFFF
    return [((h >> 3) % 700 + 1) * (k + 1) + 17 * k for k in range((h >> 7) % 4)]


def level(t, line, k):
    """Scope sample k of a trace started at t."""
    return ((t * 31 + int(line[1]) * 7 + k * 2654435761) >> 9) & 1


# ---------------------------------------------------------------- windows
def windows(items, reps, T, pat):
    """line -> {(open, close) in 1/128 ns: (channel, slot, repetition, op, t)}"""
    want = c04.expected(items, reps, T, pat)
    out = {}
    for ch, w in want.items():
        for j, (_, line, runs, _, op) in enumerate(w["slots"]):
            for r, ts in enumerate(runs):
                for t in ts:
                    k = (128 * t + fd(op, "start"), 128 * (t + op[3] - 4) + fd(op, "end"))
                    if k in out.setdefault(line, {}):
                        raise AssertionError("two acquisitions at once")
                    out[line][k] = (ch, j, r, op, t)
    return want, out


def fold(op):
    return op[6] != "APPEND"


def spacing_ok(evs):
    """Instructions with fine delays: 7 ns apart or a whole number of ns apart (constants.MIN_FINE_DELAY_SPACING_NS)."""
    return all((b - a) % 128 == 0 or b - a >= 7 * 128 for a, b in zip(evs, evs[1:]))


def execute(rg, comp, pat, T):
    runs = {}
    for line, lst in rg.sequencers(comp).items():
        if len(lst) != 1:
            raise Violation("sequencer-count", line)
        mod, seq, st = lst[0]
        try:
            runs[line] = (mod, seq, st, rig.execute(
                st, cond=lambda k, m, op, t: c04.pattern(pat, round(t - 12) // (T + 4)) == (op == 0)))
        except q1.Q1Error as e:
            raise Violation("illegal-program", f"{line}: {e}") from None
    return runs


def observe(line, r):
    """[(open, close, idx, bin, scope)] of one executed sequencer, plus time references and the raw fine events."""
    out, refs, evs, scope, opened = [], [], [], 0, None
    for e in r.tr.events:
        if e[1] == "scope":
            scope = e[2]
        elif e[1] == "timeref":
            refs.append(e[0])
        elif e[1] == "timetags":
            x = 128 * e[0] + e[5]
            evs.append(x)
            if e[2] not in r.acqs or not 0 <= e[3] < r.acqs[e[2]][1]:
                raise Violation("bin-outside-allotment", f"{line} {e} of {r.acqs}")
            if not 0 <= e[5] <= MAXF:
                raise Violation("fine-delay-out-of-range", f"{line} {e}")
            if e[4]:
                if opened:
                    raise Violation("window-opened-twice", f"{line} {e}")
                opened = (x, e[2], e[3], scope)
            else:
                if not opened or opened[1:3] != (e[2], e[3]):
                    raise Violation("window-closed-elsewhere", f"{line} {e}, opened {opened}")
                if scope != opened[3]:
                    raise Violation("scope-toggled-in-window", f"{line} {e}")
                out.append((opened[0], x, e[2], e[3], scope))
                opened = None
        elif e[1] in ("ttl", "acq", "acqw"):
            raise Violation("foreign-instruction", f"{line} {e}")
    if opened:
        raise Violation("window-never-closed", f"{line} {opened}")
    return out, refs, evs


def run(case):
    items, reps, pat = case[:3]
    rg = RG
    items = list(items)
    rg.use()
    T = ref.layout(items)[1]
    want, win = windows(items, reps, T, pat)
    eff = ref.flatten(items)
    try:
        comp = rg.compile(ref.build(items, repetitions=reps, clocks=rg.clocks))
    except Exception as e:
        if acceptable(items, win, T, reps):
            raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
        return R("refused")
    runs = execute(rg, comp, pat, T)
    viol, sig, n_st, n_tr, data, traces = [], [], 0, 0, {}, {}
    if set(win) - set(runs):
        raise Violation("line-missing", str(set(win) - set(runs)))
    for line, (mod, seq, st, r) in runs.items():
        n_st += len(r.tr.events)
        n_tr += r.tr.steps
        if line == "res":
            b = icsim.Bins(r.acqs)
            for e in r.tr.events:
                if e[1] == "acq":
                    b.add(e[2], e[3], {"iq": 1j, "bit": 1})
            data.setdefault(mod, {})[int(seq[3:])] = b.as_instrument()
        if line[0] not in "ij":
            continue
        got, refs, evs = observe(line, r)
        w = win.get(line, {})
        g = {(a, b) for a, b, *_ in got}
        if g != set(w):
            raise Violation("wrong-window", f"{line}: only played {sorted(g - set(w))[:3]}, only scheduled "
                                            f"{sorted(set(w) - g)[:3]} (1/128 ns)")
        home, back = {}, {}
        b = icsim.Bins(r.acqs)
        for a, c, idx, bn, sc in got:
            ch, j, rep, op, t = w[a, c]
            key = (ch, j) if fold(op) else (ch, j, rep)
            if home.setdefault(key, (idx, bn)) != (idx, bn):
                raise Violation("bin-changes", f"{line} {key}: {home[key]} and {(idx, bn)}")
            if back.setdefault((idx, bn), key) != key:
                raise Violation("bin-shared", f"{line} {(idx, bn)}: {back[idx, bn]} and {key}")
            if bool(sc) != (op[1] in SCOPED):
                raise Violation("wrong-scope-enable", f"{line} {op[1]} with scope {sc}")
            ph = photons(t, line)
            b.add(idx, bn, {"iq": 0j, "count": len(ph), "td": float(ph[0]) if ph else 0.0})
            if sc:
                traces.setdefault(line, []).append((a * 16, ph, c * 16))
        if not spacing_ok(evs):
            # recorded finding: the compiler looks at one pass through the program only
            first = sorted((128 * ts[0] + fd(op, "start"), 128 * (ts[0] + op[3] - 4) + fd(op, "end"))
                           for op, ts, _, _ in c04.slots(items) if op[2] == line)
            key = "fine-delays-across-iterations" if spacing_ok([x for ab in first for x in ab]) else "fine-delay-spacing"
            viol.append((key, f"{line}: {evs[:8]} (1/128 ns) are less than 7 ns and not whole ns apart"))
        stamps = sorted(12 + k * (T + 4) + t for t, kind, where, _, _ in eff if kind == "stamp" and where == line
                        for k in range(reps))
        if sorted(refs) != stamps:
            raise Violation("wrong-time-reference", f"{line}: {refs} instead of {stamps}")
        settings(line, st, items, want)
        inst = b.as_instrument(analog=False)
        for idx, (name, nb) in r.acqs.items():
            cnt = inst[name]["acquisition"]["bins"]["count"]
            for bb in range(nb):
                v = b.data.get((idx, bb))
                if v:
                    cnt[bb] = sum(x["count"] for x in v) / len(v)
        data.setdefault(mod, {})[int(seq[3:])] = inst
        sig.append((line, tuple(got), tuple(refs)))
    if comp.compiled_instructions.get("cluster0"):
        viol += retrieve(rg, comp, runs, data, traces, want, reps, items)
    return R("ok", states=n_st, transitions=n_tr, traces=len(runs), distinct=tuple(sig), viol=viol)


def settings(line, st, items, want):
    """The compiled settings of an input against what its acquisitions ask for."""
    ops = [s[4] for w in want.values() for s in w["slots"] if s[1] == line]
    if st.analog_threshold != THR[line]:
        raise Violation("wrong-threshold", f"{line} {st.analog_threshold}")
    protos = {o[1] for o in ops}
    sc = st.scope_trace_type
    exp = "SCOPE" if "trace" in protos else "TIMETAG" if "ttrace" in protos else None
    if (sc.name if sc is not None else None) != exp:
        raise Violation("wrong-scope-mode", f"{line}: {sc} for {protos}")
    tags = [o for o in ops if o[1] in ("tt", "ttrace")]
    x = [dict(o[7] or {}) for o in tags]
    src = {d.get("time_source", "first") for d in x}
    rf = {d.get("time_ref", "start") for d in x}
    if tags and (len(src) > 1 or len(rf) > 1):
        raise Violation("conflict-accepted", f"{line}: {src} {rf}")
    if tags:
        if str(st.time_source) != min(src) or str(st.time_ref) != min(rf):
            raise Violation("wrong-time-settings", f"{line}: {st.time_source} {st.time_ref} for {src} {rf}")
        if rf == {"port"}:
            ports = {d["time_ref_port"] for d in x}
            if len(ports) > 1:
                raise Violation("conflict-accepted", f"{line}: {ports}")
            n = int(min(ports)[-1])
            if st.time_ref_channel != n:
                raise Violation("wrong-reference-channel", f"{line}: {st.time_ref_channel} for {ports}")
    cnt = protos & {"trig", "ttc", "dtc"}
    if len(cnt) > 1 or {"trace", "ttrace"} <= protos:
        raise Violation("conflict-accepted", f"{line}: {protos}")
    en = bool(st.thresholded_acq_trigger_write_en)
    T = [dict(o[7]) for o in ops if o[1] in ("ttc", "dtc")]
    lo, hi = (st.thresholded_acq_trigger_write_threshold_low, st.thresholded_acq_trigger_write_threshold_high)
    adr = [getattr(st, f"thresholded_acq_trigger_write_address_{k}") for k in ("low", "mid", "high", "invalid")]
    if "ttc" in protos:
        th = {(d["threshold"], d["feedback_trigger_condition"]) for d in T}
        if len(th) > 1:
            raise Violation("conflict-accepted", f"{line}: {th}")
        th, cond = min(th)
        labels = {d.get("feedback_trigger_label") for d in T} - {None}
        a = adr[2] if cond == "greater_than_equal_to" else adr[0]
        rest = sum(map(bool, adr))
        if (lo, hi) != (th, th) and en:
            raise Violation("wrong-trigger-threshold", f"{line}: {lo}, {hi} for {th}")
        if en != bool(labels) or rest != len(labels) or labels and not a:
            raise Violation("wrong-trigger-address", f"{line}: {en} {adr} for {cond} {labels}")
    elif "dtc" in protos:
        th = {(d["threshold_low"], d["threshold_high"]) for d in T}
        if len(th) > 1:
            raise Violation("conflict-accepted", f"{line}: {th}")
        lab = [d.get(f"label_{k}") for d in T for k in ("low", "mid", "high", "invalid")]
        lab = [{x for x in lab[i::4]} for i in range(4)]
        if any(len(x) > 1 for x in lab):
            raise Violation("conflict-accepted", f"{line}: {lab}")
        if [bool(a) for a in adr] != [x != {None} for x in lab]:
            raise Violation("wrong-trigger-address", f"{line}: {adr} for {lab}")
        if en != any(adr) or en and (lo, hi) != min(th):
            raise Violation("wrong-trigger-threshold", f"{line}: {en} {lo} {hi} for {th}")
    elif en:
        raise Violation("trigger-enabled", line)


# ---------------------------------------------------------------- retrieval
def retrieve(rg, comp, runs, data, traces, want, reps, items):
    cl, cc = icsim.cluster_component(rg.modules)
    cc.prepare(comp.compiled_instructions["cluster0"])
    for m in cl.modules:
        m.get_acquisitions = (lambda seq, d=data.get(m.name, {}): d.get(seq, {}))
    for line, (mod, seq, st, r) in runs.items():
        if line[0] not in "ij":
            continue
        m = next(x for x in cl.modules if x.name == mod)
        io = m.io_channels[int(seq[3:])]
        w = traces.get(line, [])
        if any(s[4][1] == "trace" and s[1] == line for x in want.values() for s in x["slots"]):
            t = w[0][0] if w else 0
            sc = [level(t, line, k) for k in range(REC["scope"])]
        else:
            sc = [x for a, ph, c in w for x in
                  [["OPEN", BASE + a], *[["RISE", BASE + a + p] for p in ph], ["CLOSE", BASE + c]]]
        io.get_scope_data = (lambda d=sc: d)
    cl.store_scope_acquisition = lambda *a: None
    try:
        ds = cc.retrieve_acquisition()
    except Exception as e:
        return [("retrieval-fails", f"{type(e).__name__}: {e}")]
    got = set(ds.data_vars) if ds is not None else set()
    if got != set(want):
        return [("wrong-channels", f"{got} instead of {set(want)}")]
    known = []
    for ch, w in want.items():
        if w["proto"] not in ("tt", "trace", "ttrace", "trig"):
            continue
        da, dim = ds[ch], f"acq_index_{ch}"
        for j, (co, line, rr, dur, op) in enumerate(w["slots"]):
            if j not in [int(x) for x in da[dim].values]:
                return [("missing-index", f"{ch}[{j}] of {da[dim].values}")]
            col = da.sel({dim: j})
            if w["proto"] == "trace":
                # the first window recorded on this input
                t = traces[line][0][0] if traces.get(line) else 0
                x = [level(t, line, k) for k in range(op[3])]
                if col.dims != (f"trace_index_{ch}",) or [int(v) for v in col.values] != x:
                    return [("wrong-trace", f"{ch}: {len(col.values)} samples for a trace of {op[3]}")]
                continue
            for r in range(reps) if w["mode"] == "APPEND" else (None,):
                c = col if r is None else col.sel(repetition=r)
                ts = rr[r] if r is not None else [t for x in rr for t in x]
                ph = [photons(t, line) for t in ts]
                if w["proto"] == "ttrace":
                    x = [p / 2048 for p in ph[0]] if ph else []
                    v = np.ravel(c.values)
                    v = v[~np.isnan(v)]
                    if len(v) != len(x) or not np.allclose(v, x, atol=1e-9):
                        key = "wrong-timetags" if in_order(w) else "windows-not-in-index-order"
                        # recorded finding: the absolute time is added to a float
                        o = BASE + 16 * (128 * ts[0] + fd(op, "start")) if ph else 0
                        y = [(float(ph[0][0]) + (o + p) - (o + ph[0][0])) / 2048 for p in ph[0]] if x else []
                        if len(v) == len(y) and np.allclose(v, y, atol=1e-9):
                            key = "timetag-trace-rounding"
                        if key not in {k for k, _ in known}:
                            known.append((key, f"{ch}[rep {r}, {j}]: {v} instead of {x}"))
                elif w["proto"] == "tt":
                    x = np.mean([p[0] if p else 0 for p in ph]) / 2048 if ph else math.nan
                    if not c04.same(c.values, x):
                        return [("wrong-timetag", f"{ch}[rep {r}, {j}]: {c.values} instead of {x}")]
                elif w["proto"] == "trig":
                    x = sum(map(len, ph)) if ph else -1
                    # loops with SUM: recorded finding of C04
                    if len(rr[0]) == 1 and int(c.values) != x:
                        return [("wrong-count", f"{ch}[rep {r}, {j}]: {c.values} instead of {x}")]
    return known


def in_order(w):
    """Whether the windows of a channel are recorded in the order of its acquisition indices."""
    for r in range(len(w["slots"][0][2])):
        ts = [t for sl in w["slots"] for t in sl[2][r]]
        if ts != sorted(ts):
            return False
    return True


def acceptable(items, win, T, reps):
    """Sufficient for a schedule to be executable."""
    if T < 8:
        return False
    s = repr(items)
    if "'cond'" in s or "'stamp'" in s:
        return "must" in s
    for line, w in win.items():
        ks = sorted(w)
        ops = [w[k][3] for k in ks]
        if any(o[3] < 8 or not 0 <= fd(o, x) <= MAXF for o in ops for x in ("start", "end")):
            return False
        starts = sorted(v[4] for v in w.values())
        if any(b - a < 300 for a, b in zip(starts, starts[1:])):
            return False
        ends = sorted(v[4] + v[3][3] for v in w.values())
        if any(0 < b - a < 4 for a in ends for b in starts) or any(a + v[3][3] > b for v in w.values() for a in [v[4]] for b in starts if b > a):
            return False
        for tail in (0, 4 * 128):
            if not spacing_ok([x for a, b in ks for x in (a, b + tail)]):
                return False
        protos = {o[1] for o in ops}
        if len(protos & {"trig", "ttc", "dtc"}) > 1 or {"trace", "ttrace"} <= protos:
            return False
        for p in SCOPED:
            if len({o for o in ops if o[1] == p}) > 1 or sum(s.count(f"'{p}', '{l}'") for l in win) > 1:
                return False
        for key in ("time_source", "time_ref", "time_ref_port"):
            dflt = {"time_source": "first", "time_ref": "start"}.get(key)
            if len({dict(o[7] or {}).get(key, dflt) for o in ops if o[1] in ("tt", "ttrace")}) > 1:
                return False
        for o in ops:
            p = dict(o[7] or {}).get("time_ref_port")
            if p is not None and not (p[2:] in win and p[2:] != "j1"):
                return False
        for p in ("ttc", "dtc"):
            # a label must be used before it is measured again
            if sum(o[1] == p and "label" in repr(o[7]) for o in ops) > reps:
                return False
            if len({repr(o[7]) for o in ops if o[1] == p}) > 1:
                return False
    chans = {}
    for w in win.values():
        for v in w.values():
            chans.setdefault(v[0], set()).add((v[3][1], v[3][6]))
    return all(len(x) == 1 for x in chans.values())


# ---------------------------------------------------------------- cases
def cases():
    out = []
    depth = 4 if THOROUGH else 3
    FD = [(0, 0), (1, 1), (64, 0), (0, 64), (128, 256), (MAXF, 5), (3, MAXF)]
    ex = lambda a, b: {"fine_start_delay": a / 128e9, "fine_end_delay": b / 128e9}  # noqa: E731
    # sequences of blocks: two acquisitions on one input, one on another
    for p1, p2 in [("tt", "tt"), ("tt", "trig"), ("trig", "tt"), ("ttrace", "tt"), ("tt", "ttrace"), ("ttrace", "trig"),
                   ("trace", "tt"), ("trig", "trace"), ("trace", "trig"), ("ttc", "ttc"), ("dtc", "dtc"),
                   ("ttc", "tt"), ("tt", "ttc"), ("dtc", "tt"), ("tt", "dtc"), ("ttc", "ttrace"), ("trace", "dtc"), ("ttc", "trace")]:
        for m1, m2 in itertools.product(MODES[p1], MODES[p2]):
            for f1, f2 in [(FD[0], FD[0]), (FD[1], FD[2]), (FD[4], FD[6])]:
                a, b = blk(p1, "i4", 0, m1, ex(*f1)), blk(p2, "i4", "b", m2, ex(*f2), dur=120)
                sh = c04.shapes(a, b, blk("tt", "i5", "c", "APPEND", ex(*f2), dur=80))
                full = (p1, p2) in (("tt", "tt"), ("ttrace", "tt"), ("tt", "trig"), ("trace", "tt"))
                for n in range(1, (depth if full and f1 == FD[1] else 2) + 1):
                    for w in itertools.product(sh, repeat=n):
                        for reps in (1, 2, 3) if n == 1 else (2,):
                            out.append((tuple(x for k in w for x in sh[k]), reps, "yes"))
    # one channel with several traces of time tags
    a, b = blk("ttrace", "i4", 0, "APPEND"), blk("ttrace", "i4", 0, "APPEND", dur=120)
    sh = c04.shapes(a, b, blk("tt", "i4", "c", "APPEND"))
    for n in (1, 2, 3):
        for w in itertools.product(sh, repeat=n):
            for reps in (1, 2, 3) if n < 3 else (2,):
                out.append((tuple(x for k in w for x in sh[k]), reps, "yes"))
    # durations and fine delays, back to back at every distance
    s = ("idle", 400)
    for p in ("tt", "trig", "ttrace"):
        for dur in (4, 5, 7, 8, 9, 11, 12, 13, 16, 100, 301, 1000, 65539, 70000, 300000):
            for f in FD + [(5, 0), (0, 5), (500, 0), (0, 127), (-1, 0), (0, MAXF + 1), (2048, 2048)]:
                for shape in ([0], [1], [2]):
                    a = blk(p, "i4", 0, "APPEND", ex(*f), dur=dur)
                    it = [(a, s), (("loop", 2, [a, s]),), (("sub", [s, a]), s)][shape[0]]
                    out.append((it, 2, "yes"))
    for d1, gap in itertools.product((296, 300, 304), (0, 4, 5, 6, 7, 8, 12)):
        for f1, f2 in itertools.product(FD[:5], repeat=2):
            a, b = blk("tt", "i4", 0, "APPEND", ex(*f1), dur=d1), blk("tt", "i4", 1, "APPEND", ex(*f2), dur=d1)
            g = [("idle", gap)] if gap else []
            out.append(((a, *g, b, s), 2, "yes"))
            out.append(((("loop", 3, [a, *g]), s), 1, "yes"))
            out.append(((("loop", 2, [a, *g, b, *g]), s), 1, "yes"))
            out.append(((("idle", 4), a, *g), 3, "yes"))
    # sources and references
    for src, rf, chan in itertools.product(("first", "second", "last"), ("start", "end", "first", "timestamp", "port"),
                                           ("q:i5", "q:i6", "q:j1", "q:d0")):
        if rf != "port" and chan != "q:i5":
            continue
        x = {"time_source": src, "time_ref": rf, **({"time_ref_port": chan} if rf == "port" else {})}
        a = blk("tt", "i4", 0, "APPEND", x)
        y = {k: v for k, v in x.items() if k != "time_source"}
        for other in ("i5", "i6", "j1"):
            o = blk("tt", other, "o", "APPEND")
            for it in [(o, a, s), ((("loop", 2, [o, s, a, s])),), (o, s, a, s, blk("ttrace", "i4", "t", "APPEND", y), s),
                       (o, s, blk("ttrace", "i4", "t", "APPEND", y), s), (a, s),
                       (o, s, a, s, blk("tt", "i4", 0, "APPEND"), s), (o, s, a, s, blk("trig", "i4", "n", "SUM"), s),
                       (o, s, a, s, blk("tt", "i4", 0, "APPEND", {**x, "time_source": "first"}), s),
                       (o, s, a, s, blk("tt", "i4", 0, "APPEND", {**x, "time_ref": "end"}), s),
                       (o, s, a, s, blk("tt", "i4", 0, "APPEND", {**x, "time_ref": "port", "time_ref_port": "q:i6"}), blk("tt", "i6", "p", "APPEND"), s)]:
                out.append((it, 2, "yes"))
    st = ("stamp", "i4")
    a = blk("tt", "i4", 0, "APPEND", {"time_ref": "timestamp"})
    for pre, post in itertools.product((0, 4, 8, 100), (0, 4, 8, 100)):
        i = lambda n: [("idle", n)] if n else []  # noqa: E731
        out.append(((*i(pre), st, *i(post), a, s), 2, "yes"))
        out.append(((("loop", 2, [*i(pre), st, *i(post), a, s]),), 2, "yes"))
        out.append(((st, *i(pre or 4), ("loop", 3, [*i(post), a, s])), 2, "yes"))
        out.append(((*i(pre), a, s, st, *i(post or 4)), 2, "yes"))
        out.append(((*i(pre), ("sub", [st, *i(post), a, s]), a, s), 2, "yes"))
        out.append(((("mark", "d0", 20), *i(pre), st, *i(post), a, s), 2, "yes"))
    # protocols and settings of two acquisitions on one input
    P = [blk("tt", "i4", 0, "APPEND"), blk("tt", "i4", 0, "APPEND", {"time_source": "last"}), blk("tt", "i4", "x", "AVERAGE", {"time_ref": "end"}),
         blk("trig", "i4", 1, "APPEND"), blk("trig", "i4", 1, "SUM"), blk("ttrace", "i4", 2, "APPEND"),
         blk("trace", "i4", 3, "FIRST"), blk("trace", "i4", 3, "FIRST", dur=60), blk("ttrace", "i4", 4, "APPEND", dur=48)]
    for th, c, l in itertools.product((1, 2), ("greater_than_equal_to", "less_than"), ("f", None)):
        P.append(blk("ttc", "i4", 5, "APPEND", {"threshold": th, "feedback_trigger_condition": c, "feedback_trigger_label": l}))
    for lo, hi, lab in itertools.product((0, 1), (1, 4), ({"label_low": "l"}, {"label_mid": "m"}, {"label_high": "h"}, {"label_invalid": "v"},
                                                          {"label_low": "l", "label_high": "h"}, {})):
        P.append(blk("dtc", "i4", 6, "APPEND", {"threshold_low": lo, "threshold_high": hi, "label_low": None, **lab}))
    for p in P:
        out.append(((p, s), 2, "yes"))
    for p, q in itertools.product(P, repeat=2):
        out.append(((p, s, q, s), 2, "yes"))
        if p is not q and THOROUGH:
            for z in P:
                out.append(((p, s, q, s, z, s), 1, "yes"))
    # conditionals
    m = ("acq", "thr", "res", 100, "m", None, "APPEND", c04.Fz(acq_threshold=.5, acq_rotation=0, feedback_trigger_label="q0"))
    hb = c04.Fz(hardware_buffer_time=4e-9)
    for p in ("tt", "trig", "ttrace"):
        for f in FD[:4]:
            a, b = blk(p, "i4", 0, "APPEND", ex(*f)), blk(p, "i4", 0, "APPEND", ex(*f), dur=60)
            for body in ([a, s], [("idle", 8), a, s], [("sub", [a, s])]):
                for post in [[], [blk("tt", "i5", 7, "APPEND"), s]] + ([[b, s], [("loop", 2, [b, s])]] if p != "ttrace" else []):
                    # what the hardware reports of skipped windows of a trace is not specified
                    for pat in ("yes", "no", "alt") if p != "ttrace" else ("yes",):
                        out.append(((m, s, ("cond", "q0", body, hb), *post, s), 3, pat))
    # with markers
    for f in FD:
        mk = ("mark", "d0", 20, c04.Fz(ex(*f)))
        a = blk("tt", "i4", 0, "APPEND", ex(*f))
        if abs(20 * 128 + f[1] - f[0]) < 7 * 128 or (f[0] - f[1]) % 128 and f[0] - f[1] < 3 * 128:
            continue
        for it in [(mk, a, s), (a, (mk, {"rel": -50}), s), (("loop", 2, [mk, a, mk, s]),), (("sub", [mk, ("idle", 4), mk]), a, s)]:
            out.append((it, 2, "yes"))
    return out


def main():
    c = Check("C25", rule=NOTE, assumptions=[
        "Q1 model: lib/q1.py", "vendor documentation: windows are 4 ns shorter than the duration; fine delay unit 1/128 ns, "
        "at most 2047 of them; scope data is the list of windows in order of opening"])
    RG.config()
    c.explore(run, cases(), label="windows")
    c.finish(("windows:ok", "windows:refused"))


if __name__ == "__main__":
    main()
