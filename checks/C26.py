"""C26: each acquisition integrates exactly the requested window with its weights."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import math
import numpy as np
from lib import icsim, q1, ref, rig  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of combinations of acquisitions; the emitted programs are executed by a "
             "Q1ASM interpreter and windows, weights, thresholds and scope selection compared with the request")
NOTE = ("Every sequence of up to three acquisitions over protocols, durations, weights, thresholds and rotations on up "
        "to three port-clocks (same port, same module, other modules), also in loops, sub-schedules and at the same "
        "time, plus ladders of durations, thresholds, sampling rates and gaps. Acquisitions of one port-clock that "
        "overlap in time are outside the space. Trusts the Q1 model and the simulated scope memory.")

MIN_GAP, MAX_LEN, MAX_THR, SCOPE = 300, 16777212, 16777212.0, 16384


def rig26():
    from lib import rigs
    r = rigs.main_rig()
    r.hw["hardware_description"]["cluster0"]["modules"]["6"] = {"instrument_type": "QRC"}
    r.modules[6] = "QRC"
    mf = r.hw["hardware_options"]["modulation_frequencies"]
    for ch, s, clock, f in (("complex_output_0", "g0", "q.ro", 1e8), ("complex_input_1", "gi", "q.ro", 1e8)):
        r.hw["connectivity"]["graph"].append([f"cluster0.module6.{ch}", f"q:{s}"])
        r.lines[s] = (f"q:{s}", clock, 6, ch, False, f)
        mf[f"q:{s}-{clock}"] = {"interm_freq": f}
    r.lines["rs"] = ("q:res", "q.r2", 4, "complex_output_0", False, 2e8)      # same port as res
    mf["q:res-q.r2"] = {"interm_freq": 2e8}
    r.clocks = r.clocks + [("q.r2", 7.1e9)]
    return r


RG = rig26()
MODULE = {k: v[2] for k, v in RG.lines.items()}
N = 100
WA = [round(math.sin(.1 * i), 6) for i in range(N)]
WB = [round(math.cos(.07 * i), 6) for i in range(N)]
WH = [round(1 - i / 25, 6) for i in range(N // 2)]          # 50 samples
WC = [.5] * 96 + [-1, 1, -.25, 0]

def fn(name, n):
    if name == "ramp":
        return -.4 + .8 * np.arange(n) / n
    return np.full(n, {"half": .5, "neg": -1.0, "big": 1.25, "cplx": .5j}[name])


def resample(w, rate, n):
    """Linear interpolation of samples taken at ``rate`` (GHz); the last interval is extrapolated."""
    w = np.asarray(w)
    if len(w) < 2:
        return None
    t = np.arange(n) * rate
    i = np.minimum(t.astype(int), len(w) - 2)
    return w[i] + (w[i + 1] - w[i]) * (t - i)


# symbol: (protocol, duration ns, parameters)
def weights_of(sym):
    """The two weight arrays at 1 GHz, or None for an unweighted protocol."""
    proto, dur, ex = sym
    if proto in ("wsep", "num", "numc", "wthr"):
        return [np.asarray(ex[0]), np.asarray(ex[1])]
    if proto == "wfn":
        return [fn(x, dur) for x in ex]
    if proto.startswith("numr"):
        return [resample(w, ex[2], dur) for w in ex[:2]]
    return None


def threshold_of(sym):
    proto, _, ex = sym
    return {"thr": lambda: (ex["acq_threshold"], ex["acq_rotation"]), "numrt": lambda: (0, 315),
            "wthr": lambda: (ex[2]["acq_threshold"], 315)}.get(proto, lambda: None)()


def sym(proto, dur=N, ex=None):
    return (proto, dur, ex)


def thr(t, r, dur=N):
    return sym("thr", dur, {"acq_threshold": t, "acq_rotation": r})


def wthr(a, b, t):
    return sym("wthr", len(a), (a, b, {"acq_threshold": t}))


SYMS = {
    "ssb": sym("ssb"), "ssb200": sym("ssb", 200), "ssb102": sym("ssb", 102),
    "thr": thr(.5, 20), "thrR": thr(.5, 30), "thrT": thr(.25, 20), "thr200": thr(.5, 20, 200), "thr0": thr(0, 0),
    "thrW": thr(.5, 315), "thrX": thr(.5, 361), "thrN": thr(-.1, 360),
    "wthr": wthr(WA, WB, .5), "wthrT": wthr(WA, WB, .25), "wthr0": wthr(WB, WB, 0),
    "wsep": sym("wsep", N, (WA, WB)), "wswap": sym("wsep", N, (WB, WA)), "wsame": sym("wsep", N, (WA, WA)),
    "num": sym("num", N, (WC, WA)), "numc": sym("numc", N, (WB, WC)),
    "half": sym("numr", N, (WH, WH[::-1], .5)), "quarter": sym("numr", 200, (WH, WH[::-1], .25)),
    "wfn": sym("wfn", N, ("half", "ramp")), "wfn200": sym("wfn", 200, ("ramp", "neg")), "big": sym("wfn", N, ("half", "big")),
    "cplx": sym("wfn", N, ("cplx", "half")),
    "trace": sym("trace"), "trace200": sym("trace", 200),
}


def op_of(s, line, mode, chan=None):
    proto, dur, ex = s
    m = "AVERAGE" if proto == "trace" else mode
    return ("acq", proto, line, dur, chan or f"{line}_{proto}", None, m, ex)


# ------------------------------------------------------------------ oracle

def walk(items, t0=0):
    """[(start, op)] of every executed acquisition, in time order."""
    out = []
    lay, _ = ref.layout(items)
    for st, node in lay:
        if node[0] == "acq":
            out.append((t0 + st, node))
        elif node[0] == "sub":
            out += walk(node[1], t0 + st)
        elif node[0] == "loop":
            d = ref.layout(node[2])[1]
            for i in range(node[1]):
                out += walk(node[2], t0 + st + i * d)
    return sorted(out, key=lambda x: x[0])


def traces(items):
    """The channel of every trace operation (not of every execution)."""
    out = []
    for it in items:
        node = ref.split(it)[0]
        if node[0] == "acq" and node[1] == "trace":
            out.append(node[4])
        elif node[0] in ("sub", "loop"):
            out += traces(node[-1])
    return out


def conflicts(acqs, items=()):
    """Why the hardware cannot do this, or None."""
    tr = traces(items)
    if len(tr) != len(set(tr)):
        return "traces on one channel"
    by_line = {}
    for t, op in acqs:
        by_line.setdefault(op[2], []).append((t, (op[1], op[3], op[7]), op[4]))
    scopes = {}
    for line, lst in by_line.items():
        lens = {s[1] for _, s, _ in lst}
        if len(lens) > 1:
            return "different integration lengths"
        d = lens.pop()
        if not 4 <= d <= MAX_LEN or (d % 4 and any(s[0] in ("ssb", "thr") for _, s, _ in lst)):
            return "integration length"
        for (t, _, _), (u, _, _) in zip(lst, lst[1:]):
            if u - t < MIN_GAP:
                return "interval"
        th = {threshold_of(s) for _, s, _ in lst} - {None}
        if len(th) > 1:
            return "different thresholds"
        if th:
            v, rot = th.pop()
            if not 0 <= rot <= 360 or abs(v) > MAX_THR or abs(v * d) > MAX_THR:
                return "threshold range"
        for _, s, _ in lst:
            w = weights_of(s)
            if w is None:
                continue
            if s[0].startswith("numr") and s[2][2] > 1 + 1e-9:
                return "sampling rate"
            if any(x is None for x in w):
                return "too few samples"
            if any(np.iscomplexobj(x) or not np.max(np.abs(x)) <= 1 for x in w):
                return "weights"
        tr = {c for _, s, c in lst if s[0] == "trace"}
        if len(tr) > 1:
            return "scope channels"
        if tr:
            if MODULE[line] in scopes:
                return "scope owner"
            scopes[MODULE[line]] = line
        arrays = {tuple(np.round(x, 12)) for _, s, _ in lst for x in (weights_of(s) or [])}
        if len(arrays) > 64:
            return "too many weights"
    return None


def check_line(line, sr, want, T, reps):
    events = [e for e in sr.tr.events if e[1] in ("acq", "acqw", "ttl", "timetags")]
    exp = [(12 + r * (T + 4) + t, op) for r in range(reps) for t, op in want]
    if [e[0] for e in events] != [t for t, _ in exp]:
        raise Violation("acquisition-times", f"{line}: triggered at {[e[0] for e in events][:8]}, "
                                             f"scheduled {[t for t, _ in exp][:8]}")
    for e, (t, op) in zip(events, exp):
        s = (op[1], op[3], op[7])
        w = weights_of(s)
        if (e[1] == "acqw") != (w is not None):
            raise Violation("weighting", f"{line} at {t} ns: {e[1]} for {op[1]}")
        if w is None:
            continue
        for path in (0, 1):
            i = e[4 + path]
            if i not in sr.weights:
                raise Violation("missing-weights", f"{line} at {t} ns: no weights with index {i}")
            g = sr.weights[i]
            if len(g) != len(w[path]) or not np.allclose(g, w[path], rtol=0, atol=1e-9):
                k = int(np.argmax(np.abs(g[:len(w[path])] - w[path][:len(g)])))
                raise Violation("weights-differ", f"{line} at {t} ns path {path}: {len(g)} samples, [{k}]={g[k]}; "
                                                  f"requested {len(w[path])} samples, [{k}]={w[path][k]}")
    st = sr.settings
    d = want[0][1][3]
    if st.integration_length_acq != d:
        raise Violation("integration-length", f"{line}: {st.integration_length_acq}, requested {d}")
    th = {threshold_of((op[1], op[3], op[7])) for _, op in want} - {None}
    if th:
        v, rot = th.pop()
        if st.thresholded_acq_threshold is None or abs(st.thresholded_acq_threshold - v * d) > 1e-6 * max(1, abs(v * d)):
            raise Violation("threshold", f"{line}: {st.thresholded_acq_threshold}, requested {v} over {d} ns")
        if st.thresholded_acq_rotation != rot:
            raise Violation("rotation", f"{line}: {st.thresholded_acq_rotation}, requested {rot}")
    return len(events)


def run(case):
    items, reps = case
    items = list(items)
    RG.use()
    T = ref.layout(items)[1]
    acqs = walk(items)
    why = conflicts(acqs, items)
    try:
        comp = RG.compile(ref.build(items, repetitions=reps, clocks=RG.clocks))
    except Exception as e:
        if why is None:
            raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
        return R(f"refused:{why}")
    if why is not None:
        raise Violation("conflict-accepted", why)
    return verify(comp, acqs, T, reps)


def verify(comp, acqs, T, reps):
    want = {}
    for t, op in acqs:
        want.setdefault(op[2], []).append((t, op))
    n_st = n_tr = n = 0
    seen = {}
    seqs = RG.sequencers(comp)
    for line in want:
        if len(seqs.get(line, ())) != 1:
            raise Violation("sequencer-count", f"{line}: {seqs.get(line)}")
    for line, lst in seqs.items():
        mod, seq, st = lst[0]
        try:
            sr = rig.execute(st)
        except q1.Q1Error as e:
            raise Violation("illegal-program", f"{line}: {e}") from None
        if line in want:
            n_st += check_line(line, sr, want[line], T, reps)
            seen[line] = (mod, seq, sr)
        elif any(e[1].startswith("acq") for e in sr.tr.events):
            raise Violation("extra-acquisition", line)
        n_tr += sr.tr.steps
        n += 1
    out = "ok"
    if any(op[1] == "trace" for _, op in acqs):
        n_tr += scope(comp, want, seen)
        out = "ok:scope"
    return R(out, states=n_st, transitions=n_tr, traces=n,
             distinct=tuple(sorted((k, v[2].seq["program"]) for k, v in seen.items())))


def scope(comp, want, seen):
    """Retrieve the traces through the real component, with a scope memory that follows the hardware's rules."""
    from quantify_scheduler.schedules.schedule import CompiledSchedule
    n = 0
    for trip in (False, True)[:1 + all(op[1] == "trace" for w in want.values() for _, op in w)]:
        # C17 has a finding about binned acquisitions after JSON
        c = CompiledSchedule.from_json(comp.to_json()) if trip else comp
        cl, cc = icsim.cluster_component(RG.modules)
        cc.prepare(c.compiled_instructions["cluster0"])
        mods = {m.name: m for m in cl.modules}
        stored, expect = {}, {}
        for line, lst in want.items():
            mod, seq, sr = seen[line]
            m = mods[mod]
            par = m.sequencers[int(seq[3:])].parameters
            for name, val in (("integration_length_acq", sr.settings.integration_length_acq),):
                if par[name].get() != val:
                    raise Violation("instrument-setting", f"{line}: {name} = {par[name].get()}, compiled {val}")
            tr = [op for _, op in lst if op[1] == "trace"]
            if tr:
                if m.scope_acq_sequencer_select() != int(seq[3:]):
                    raise Violation("scope-owner", f"{mod}: {m.scope_acq_sequencer_select()} instead of {seq}")
                expect[tr[0][4]] = (mod, int(seq[3:]), tr[0], line)

        def path(mod, p):
            k = int(mod.rsplit("module", 1)[1])
            return [k * 1e5 + p * 2e4 + i for i in range(SCOPE)]

        def store(slot, seq, name):
            mod = f"cluster0_module{slot}"
            if mods[mod].scope_acq_sequencer_select() == seq:
                stored[mod, seq, name] = True
        cl.store_scope_acquisition = store
        for m in cl.modules:
            def get(seq, m=m):
                line = next((x for x, v in seen.items() if v[0] == m.name and int(v[1][3:]) == seq), None)
                if line is None:
                    return {}
                b = icsim.Bins(seen[line][2].acqs)
                for e in seen[line][2].tr.events:
                    if e[1] in ("acq", "acqw"):
                        b.add(e[2], e[3], {"iq": 1j, "bit": 1})
                inst = b.as_instrument()
                for name, entry in inst.items():
                    on = (m.name, seq, name) in stored
                    entry["acquisition"]["scope"] = {
                        f"path{p}": {"data": path(m.name, p) if on else [], "out-of-range": False, "avg_cnt": 1}
                        for p in range(4)}
                return inst
            m.get_acquisitions = get
        too_long = any(v[2][3] > SCOPE for v in expect.values())
        try:
            ds = cc.retrieve_acquisition()
        except Exception as e:
            if too_long and isinstance(e, ValueError):
                return n
            raise Violation("retrieval-fails", f"{type(e).__name__}: {e}") from None
        if too_long:
            raise Violation("trace-too-long", f"{ds}")
        for ch, (mod, seq, op, line) in expect.items():
            p = 2 if line == "gi" else 0
            ex = np.array(path(mod, p)[:op[3]]) + 1j * np.array(path(mod, p + 1)[:op[3]])
            v = np.ravel(ds[ch].values)
            if v.shape != ex.shape or not np.array_equal(v, ex):
                raise Violation("trace-differs", f"{ch}{' after JSON' if trip else ''}: {len(v)} samples {v[:3]}, scope memory {ex[:3]} ({len(ex)})")
            n += len(v)
    return n


# ------------------------------------------------------------------ spaces
GAP = ("idle", 400)


def pairs():
    out = []
    for (a, sa), (b, sb) in itertools.product(SYMS.items(), repeat=2):
        for l1, l2 in (("res", "res"), ("res", "rs"), ("rs", "bb"), ("bb", "bb"), ("g0", "gi")):
            for mode in ("APPEND", "AVERAGE"):
                x, y = op_of(sa, l1, mode), op_of(sb, l2, mode)
                out.append(((x, GAP, y, GAP), 2))
                if mode == "AVERAGE" and l1 != "bb":
                    if l1 != l2:
                        out.append(((x, (y, {"ref": 0, "pt": "start", "pt_new": "start"}), GAP, GAP), 1))
                    out.append(((("loop", 2, [x, GAP]), ("sub", [GAP, y, GAP])), 1))
                if mode == "APPEND" and l1 == "res":
                    out.append(((("loop", 3, [x, GAP, y, GAP]),), 2))
                    out.append(((("sub", [("loop", 2, [y, GAP])]), x, GAP), 1))
    return out


def triples():
    k = list(SYMS) if THOROUGH else ["ssb", "thr", "thrR", "thrW", "wthr", "wsep", "wswap", "num", "half", "trace", "ssb200"]
    out = []
    for w in itertools.product(k, repeat=3):
        for lines in (("res", "res", "res"), ("res", "rs", "res"), ("bb", "res", "rs")):
            ops = [op_of(SYMS[s], ln, "APPEND") for s, ln in zip(w, lines)]
            out.append((tuple(x for o in ops for x in (o, GAP)), 1))
    return out


def ladder():
    out = []
    lines = ("res", "bb", "g0", "gi")
    for line in lines:
        for d in (1, 2, 3, 4, 5, 6, 7, 8, 12, 99, 100, 101, 296, 300, 304, 1000, 4096, 16380, 16384, 16388, 20000, 65532,
                  65536, 65540, 131068, 1000000, MAX_LEN - 4, MAX_LEN, MAX_LEN + 4):
            for mode in ("APPEND", "AVERAGE"):
                for s in (sym("ssb", d), thr(.5, 20, d), sym("trace", d)) + (
                        (sym("wfn", d, ("half", "ramp")), sym("wfn", d, ("neg", "half"))) if 1 < d <= 65540 else ()):
                    o = op_of(s, line, mode)
                    if s[0] == "wfn" and d > 8192 and line != "res":
                        continue
                    out.append(((o, GAP), 2))
                    if d < 100000 and mode == "APPEND":
                        out.append(((("sq", line, d, .5), (o, {"ref": 0, "pt": "start", "pt_new": "start", "rel": 120}), GAP, o, GAP), 1)
                                   if line != "gi" else ((o, GAP, o, GAP), 1))
        # the interval between acquisitions, the same and another channel
        for d in (4, 100, 200, 296, 300):
            for g in (0, 4, 8, 92, 96, 100, 104, 196, 200, 204, 292, 296, 300):
                if g == 0 and d % 4:
                    continue
                for x, y in (("ssb", "ssb"), ("ssb", "thr"), ("thr", "ssb")):
                    a, b = ((op_of(sym("ssb", d) if k == "ssb" else thr(.5, 20, d), line, "APPEND")) for k in (x, y))
                    out.append(((a, ("idle", g), b, GAP) if g else (a, b, GAP), 1))
                    out.append(((("loop", 1, [a, ("idle", g), b, GAP]),) if g else (("sub", [a, b, GAP]),), 2))
        # thresholds and rotations
        for t, r in itertools.product((-1e9, -200000.0, -1.0, -1e-3, 0, 1e-6, .123456, 1, 167772.2, MAX_THR, 2 * MAX_THR),
                                      (-1, 0, .5, 90, 180, 315, 359.9, 360, 360.1, 720)):
            out.append(((op_of(thr(t, r), line, "APPEND"), GAP), 1))
        for t in (-1e9, -1.0, 0, .5, 167772.2, MAX_THR):
            out.append(((op_of(wthr(WA, WB, t), line, "AVERAGE"), GAP), 1))
        # sampling rates
        for rate in (.01, .04, .1, .2, .25, .4, .5, .8, .96, 1, 1.0000000001, 1.01, 2):
            for cnt in (1, 2, 3, 4, 10, 40, 96, 100):
                for cls in ("numr", "numrc", "numrt"):
                    n = round(cnt / rate)
                    if abs(n - cnt / rate) > 1e-6 or n > 12000:
                        continue
                    w = [round(math.sin(i), 3) for i in range(cnt)], [round(math.cos(2 * i), 3) for i in range(cnt)]
                    out.append(((op_of(sym(cls, n, (*w, rate)), line, "APPEND"), GAP), 1))
        # weights at and beyond the limits
        for v in (0, 1, -1, 1.0000001, -1.1, 1e-9, float("nan")):
            w = [v] + [.5] * 7
            for cls in ("wsep", "num", "numc"):
                out.append(((op_of(sym(cls, 8, (w, w[::-1])), line, "APPEND"), GAP), 1))
    return out


def many():
    """Many different weights and repeats on one sequencer."""
    out = []
    for n, reps in ((8, 1), (16, 2), (31, 1), (32, 1)):
        for mode in ("APPEND", "AVERAGE"):
            for cls in ("wsep", "num", "numc"):
                for k in (1, 2, 5, n):
                    ws = [[round(math.sin((1 + i % k) * j), 5) for j in range(40)] for i in range(n)]
                    its = []
                    for i in range(n):
                        its += [op_of(sym(cls, 40, (ws[i], ws[(i * 3 + 1) % n])), "res", mode), GAP]
                    out.append((tuple(its), reps))
                    out.append(((("loop", 2, its[:8]), ("loop", 3, its[8:])), reps))
    for d in (1e-3, 1e-5, 1e-8):        # nearly equal weights
        for k in (0, 17, 39):
            for cls in ("wsep", "num", "numc"):
                for mode in ("APPEND", "AVERAGE"):
                    a = [round(math.sin(j), 5) * .9 for j in range(40)]
                    b = [x + d * (j == k) for j, x in enumerate(a)]
                    its = []
                    for x in (a, b):
                        for y in (b, a):
                            its += [op_of(sym(cls, 40, (x, y)), "res", mode), GAP]
                    out.append((tuple(its), 2))
    for n in (100, 163, 164, 170):
        for d in (100, 200):
            its = []
            for i in range(n if d == 100 else n // 2):
                its += [op_of(sym("num", d, ([round(i / 999, 6)] * d, [round(-i / 999, 6)] * (d - 1) + [1.0 if i % 2 else -.5])), "res", "APPEND"), GAP]
            out.append((tuple(its), 1))
    return out


def main():
    ck = Check("C26", rule=NOTE, assumptions=[
        "acquisitions of one port-clock do not overlap in time",
        "WeightedThresholdedAcquisition has a fixed rotation of 315 degrees, as documented",
        "a trace longer than the scope memory is refused when the data are retrieved"])
    ck.explore(run, ladder(), label="ladder")
    ck.explore(run, pairs(), label="pairs")
    ck.explore(run, triples(), label="triples")
    ck.explore(run, many(), label="many")
    ck.finish(("ladder:ok", "ladder:ok:scope", "ladder:refused:interval", "ladder:refused:integration length",
               "ladder:refused:threshold range", "ladder:refused:sampling rate", "ladder:refused:weights", "pairs:ok", "pairs:ok:scope",
               "pairs:refused:different thresholds", "pairs:refused:scope owner", "pairs:refused:different integration lengths",
               "triples:ok", "many:ok", "many:refused:too many weights"))


if __name__ == "__main__":
    main()
