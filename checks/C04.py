"""C04: every acquisition result ends up under its own channel, index and repetition."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import math
import numpy as np
from lib import icsim, q1, ref, rig, rigs  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of acquisition schedules; the emitted programs are executed by a Q1ASM "
             "interpreter whose bins are fed back through the real instrument-coordinator component and the dataset "
             "compared with the schedule")
NOTE = ("Every sequence of up to three (thorough: four) acquisition blocks over channels, modules, protocols, bin "
        "modes, loops, sub-schedules, conditionals and repetitions; each execution returns a value unique to its "
        "instant, so any misplaced, missing or doubled result shows. Trusts the Q1 model and the bin semantics of "
        "the instruments (mean per bin; sum of counts on QRM, mean on QTM).")

RG = rigs.acq_rig()
LINES = ["res", "bb", "rt", "ru", "i4", "i5"]
ANALOG = LINES[:4]
W = ([0.1, 0.5, 1.0, -0.3] * 10, [0.0, -1.0, 0.25, 0.3] * 10)
EX = {"thr": {"acq_threshold": .5, "acq_rotation": 20}, "wthr": (*W, {"acq_threshold": .5, "acq_rotation": 0}), "wsep": W, "num": W, "numc": W,
      "trig": None, "ttc": {"threshold": 2}, "tt": None, "ssb": None}
MODES = {("ssb", "res"): ("APPEND", "AVERAGE"), ("thr", "res"): ("APPEND", "AVERAGE"), ("wthr", "res"): ("APPEND", "AVERAGE"),
         ("wsep", "res"): ("APPEND", "AVERAGE"), ("num", "res"): ("APPEND", "AVERAGE"), ("numc", "res"): ("APPEND", "AVERAGE"),
         ("trig", "rt"): ("APPEND", "SUM", "DISTRIBUTION"), ("ttc", "rt"): ("APPEND",),
         ("tt", "i4"): ("APPEND", "AVERAGE"), ("trig", "i4"): ("APPEND", "SUM")}


def value(t, line):
    h = (t * 40503 + LINES.index(line) * 977) & 0xFFFFF
    return {"iq": complex(t, 1000 * LINES.index(line) - t / 3), "bit": (h >> 7) & 1, "count": (h >> 5) % 5,
            "td": t * 2048.0}


def pattern(name, k):
    return {"yes": True, "no": False, "alt": k % 2 == 0}[name]


def slots(items, path=()):
    """Acquisition slots in time order: (op, [loop iterations], start offsets per iteration, cond index)."""
    out = []
    lay, _ = ref.layout(items)
    for st, node in sorted(lay, key=lambda x: x[0]):
        out += slots_node(node, st)
    return out


def slots_node(node, st):
    k = node[0]
    if k == "acq":
        return [(node, [st], False, 0)]
    if k == "multi":
        return [s for o in node[1:] for s in slots_node(o, st)]
    if k == "t0":
        return [(n, [t + node[1] for t in ts], c, d) for n, ts, c, d in slots_node(node[2], st)]
    if k == "sub":
        return [(n, [t + st for t in ts], c, d) for n, ts, c, d in slots(node[1])]
    if k == "cond":
        return [(n, [t + st for t in ts], True, d) for n, ts, c, d in slots(node[2])]
    if k == "loop":
        d = ref.layout(node[2])[1]
        return [(n, [st + i * d + t for i in range(node[1]) for t in ts], c, dd + 1) for n, ts, c, dd in slots(node[2])]
    return []


def fixed_coords(op):
    return dict(op[5]) if op[5] is not None and not isinstance(op[5], int) else {}


def expected(items, reps, T, pat):
    """channel -> list of slots (coords, [[times per rep]]) in index order, with protocol and mode."""
    sl = slots(items)
    sl = [s for s in sl if isinstance(s[0][5], int)] + [s for s in sl if not isinstance(s[0][5], int)]
    ch = {}
    for op, ts, cond, depth in sl:
        proto, line, chan, mode = op[1], op[2], op[4], op[6]
        c = ch.setdefault(chan, {"proto": proto, "mode": mode, "slots": []})
        for i in range(len(ts) if mode == "APPEND" else 1):
            co = fixed_coords(op)
            if mode == "APPEND":
                if depth:
                    co[f"loop_repetition_{chan}"] = i
                if isinstance(op[5], int):
                    co[f"acq_index_legacy_{chan}"] = op[5]
            runs = []
            for r in range(reps):
                mine = [ts[i]] if mode == "APPEND" else ts
                runs.append([12 + r * (T + 4) + t for t in mine] if not cond or pattern(pat, r) else [])
            c["slots"].append((co, line, runs, op[3] if op[1] in ("ssb", "thr", "trig", "ttc", "tt") else len(W[0]), op))
    return ch


def cell(proto, line, vals, dur, mode, reps, n_loop):
    """What the dataset must show for these executions."""
    analog = line in ANALOG
    if proto in ("ssb", "wsep", "num", "numc"):
        if not vals:
            return math.nan
        z = np.mean([v["iq"] for v in vals])
        return z / dur if proto == "ssb" else z if proto != "numc" else z.real + z.imag
    if proto in ("thr", "wthr"):
        return np.mean([v["bit"] for v in vals]) if vals else -1
    if proto == "ttc":
        return (int(sum(v["count"] for v in vals) >= 2)) if vals else -1
    if proto == "tt":
        return np.mean([v["td"] for v in vals]) / 2048
    if proto == "trig":
        return sum(v["count"] for v in vals)
    raise AssertionError(proto)


def simulate(rg, comp, pat, T):
    """Execute everything, return {module name: {sequencer index: instrument data}} and counters."""
    data, n_st, n_tr, n = {}, 0, 0, 0
    for line, lst in rg.sequencers(comp).items():
        if len(lst) != 1:
            raise Violation("sequencer-count", line)
        mod, seq, st = lst[0]
        try:
            r = rig.execute(st, cond=lambda k, m, op, t: pattern(pat, round(t - 12) // (T + 4)) == (op == 0))
        except q1.Q1Error as e:
            raise Violation("illegal-program", f"{line}: {e}") from None
        n += 1
        n_tr += r.tr.steps
        n_st += len(r.tr.events)
        if line not in LINES:
            continue
        b = icsim.Bins(r.acqs)
        dist = {}
        for e in r.tr.events:
            if e[1] in ("acq", "acqw"):
                w = [(e[2], e[3])]
            elif e[1] == "ttl" and e[4] == 1 or e[1] == "timetags" and e[4] == 1:
                w = [(e[2], e[3])]
            else:
                continue
            for idx, bin_ in w:
                if idx not in r.acqs:
                    raise Violation("undeclared-acquisition", f"{line} {e}")
                if not 0 <= bin_ < r.acqs[idx][1]:
                    raise Violation("bin-outside-allotment", f"{line} {e} of {r.acqs[idx]}")
                v = value(e[0], line)
                if e[1] == "ttl" and r.acqs[idx][1] > 50000:
                    for c in range(v["count"]):
                        dist[idx, bin_ + c] = dist.get((idx, bin_ + c), 0) + 1
                else:
                    b.add(idx, bin_, v)
        inst = b.as_instrument(analog=line in ANALOG)
        for (idx, bb), c in dist.items():
            inst[r.acqs[idx][0]]["acquisition"]["bins"]["avg_cnt"][bb] = float(c)
        if line not in ANALOG:
            # the time-tagging module returns the mean count per bin
            for idx, (name, nb) in r.acqs.items():
                cnt = inst[name]["acquisition"]["bins"]["count"]
                for bb in range(nb):
                    v = b.data.get((idx, bb))
                    if v:
                        cnt[bb] = sum(x["count"] for x in v) / len(v)
        data.setdefault(mod, {})[int(seq[3:])] = inst
    return data, n_st, n_tr, n


def run(case):
    items, reps, pat = case
    items = list(items)
    RG.use()
    T = ref.layout(items)[1]
    want = expected(items, reps, T, pat)
    try:
        comp = RG.compile(ref.build(items, repetitions=reps, clocks=RG.clocks))
    except Exception as e:
        raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
    data, n_st, n_tr, n = simulate(RG, comp, pat, T)
    cl, cc = icsim.cluster_component(RG.modules)
    cc.prepare(comp.compiled_instructions["cluster0"])
    for m in cl.modules:
        m.get_acquisitions = (lambda seq, d=data.get(m.name, {}): d[seq])
    cl.store_scope_acquisition = lambda *a: None
    try:
        ds = cc.retrieve_acquisition()
    except Exception as e:
        own = [{k for sl in w["slots"] for k in fixed_coords(sl[4])} for w in want.values()]
        key = "coords-shared-by-channels" if type(e).__name__ == "MergeError" and any(x & y for x, y in itertools.combinations(own, 2)) else "retrieval-fails"
        raise Violation(key, f"{type(e).__name__}: {e}") from None
    compare(ds, want, reps)
    return R("ok", states=n_st, transitions=n_tr, traces=n,
             distinct=tuple((str(k), v.dims, tuple(map(str, np.ravel(v.values)))) for k, v in ds.data_vars.items()))


def same(a, b):
    a, b = complex(a), complex(b)
    if math.isnan(b.real) or math.isnan(a.real):
        return math.isnan(a.real) and math.isnan(b.real)
    return abs(a - b) <= 1e-6 * max(1, abs(b))


def compare(ds, want, reps):
    got = set(ds.data_vars) if ds is not None else set()
    if got != set(want):
        raise Violation("wrong-channels", f"{got} instead of {set(want)}")
    for ch, w in want.items():
        da = ds[ch]
        dim = f"acq_index_{ch}"
        if w["mode"] == "DISTRIBUTION":
            hist = {}
            for _, line, runs, _, _ in w["slots"]:
                for ts in runs:
                    for t in ts:
                        c = value(t, line)["count"]
                        if c:
                            hist[c] = hist.get(c, 0) + 1
            g = dict(zip((int(x) for x in da[f"counts_{ch}"].values), (int(x) for x in da.values)))
            if g != hist:
                raise Violation("wrong-distribution", f"{ch}: {g} instead of {hist}")
            continue
        append = w["mode"] == "APPEND"
        dims = ("repetition", dim) if append else (dim,)
        if da.dims != dims:
            raise Violation("wrong-dimensions", f"{ch}: {da.dims}")
        n = len(w["slots"])
        if sorted(int(x) for x in da[dim].values) != list(range(n)):
            raise Violation("wrong-indices", f"{ch}: {da[dim].values} for {n} acquisitions")
        keys = {k for s in w["slots"] for k in s[0]}
        have = set(da.coords) - {dim, "repetition"}
        own = {k for k in have if k in keys}
        if own != keys:
            others = {k for c2, w2 in want.items() if c2 != ch for sl in w2["slots"] for k in fixed_coords(sl[4])}
            key = "coords-shared-by-channels" if keys - own <= others else "missing-coords"
            raise Violation(key, f"{ch}: {have} instead of {keys}")
        for j, (co, line, runs, dur, op) in enumerate(w["slots"]):
            col = da.sel({dim: j})
            for k in keys:
                v = col.coords[k].item() if col.coords[k].ndim == 0 else None
                if k in co:
                    if v != co[k]:
                        raise Violation("wrong-coord", f"{ch}[{j}] {k} = {v}, scheduled {co[k]}")
                elif not (isinstance(v, float) and math.isnan(v)):
                    raise Violation("wrong-coord", f"{ch}[{j}] {k} = {v}, not scheduled")
            if append:
                if [int(x) for x in da["repetition"].values] != list(range(reps)):
                    raise Violation("wrong-repetitions", str(da["repetition"].values))
                for r in range(reps):
                    x = cell(w["proto"], line, [value(t, line) for t in runs[r]], dur, "APPEND", reps, 1)
                    if not same(col.values[r], x):
                        raise Violation("wrong-value", f"{ch}[rep {r}, {j}] = {col.values[r]}, hardware reported {x} "
                                                       f"for this acquisition")
            else:
                vals = [value(t, line) for ts in runs for t in ts]
                x = cell(w["proto"], line, vals, dur, w["mode"], reps, len(runs[0]))
                if not same(col.values, x):
                    key = "wrong-value"
                    n_exec = sum(map(len, runs))
                    if w["proto"] == "trig" and line in ("i4", "i5") and len(runs[0]) > 1 and same(
                            col.values, round(reps * (x / n_exec))):
                        key = "qtm-sum-ignores-loop"
                    raise Violation(key, f"{ch}[{j}] = {col.values}, mean/sum over its executions is {x}")


def block(proto, line, chan, mode, coords=None, dur=100):
    return ("acq", proto, line, dur, chan, coords, mode, EX[proto])


def shapes(a, b, c):
    """Blocks: every one leaves at least 300 ns to the next acquisition."""
    s = ("idle", 400)
    return {"a": [a, s], "b": [b, s], "c": [c, s], "La": [("loop", 2, [a, s])], "Lab": [("loop", 3, [a, s, b, s])],
            "LLa": [("loop", 2, [("loop", 3, [a, s]), s])], "LaLb": [("loop", 2, [a, s, ("loop", 2, [b, s])])],
            "Sa": [("sub", [s, a, s, a, s])], "LSa": [("loop", 2, [("sub", [a, s]), c, s])],
            "L1a": [("loop", 1, [a, s])], "-": [s]}


def freeze(x):
    return tuple(map(freeze, x)) if isinstance(x, (list, tuple)) else x if not isinstance(x, dict) else Fz(x)


class Fz(dict):
    """A dict that can be compared for de-duplication."""

    def __hash__(self):
        return hash(repr(sorted(self.items(), key=repr)))


def cases():
    out = []
    depth = 4 if THOROUGH else 3
    # channel a twice in different shapes, b another channel on the same line, c the same channel on another line
    for mode in ("APPEND", "AVERAGE"):
        sh = shapes(block("ssb", "res", 0, mode), block("ssb", "res", "b", mode, (("x", 1.5),)),
                    block("ssb", "bb", "c", mode))
        for n in range(1, depth + 1):
            for w in itertools.product(sh, repeat=n):
                for reps in ((1, 2, 3) if n < 3 else (2,)):
                    out.append((tuple(x for k in w for x in sh[k]), reps, "yes"))
        # one channel shared by two modules
        sh = shapes(block("ssb", "res", 0, mode), block("ssb", "bb", 0, mode), block("ssb", "bb", 7, mode))
        for n in (1, 2):
            for w in itertools.product(sh, repeat=n):
                out.append((tuple(x for k in w for x in sh[k]), 2, "yes"))
        # coordinates
        for c1, c2 in itertools.product([None, (("x", 1),), (("x", 2), ("y", 5)), (("y", 3),)], repeat=2):
            sh = shapes(block("ssb", "res", 0, mode, c1), block("ssb", "res", 0, mode, c2), block("ssb", "res", 0, mode))
            for n in (1, 2):
                for w in itertools.product(sh, repeat=n):
                    out.append((tuple(x for k in w for x in sh[k]), 2, "yes"))
        # coordinates of two channels, with different and with the same names
        for c1, c2 in itertools.product([None, (("x", 1),), (("y", 2), ("z", 5)), (("y", 3),)], repeat=2):
            for l2 in ("res", "bb", "rt"):
                sh = shapes(block("ssb", "res", 0, mode, c1), block("ssb", l2, "b", mode, c2), block("ssb", "res", 0, mode))
                for w in ("a", "b", "La", "Lab", "Sa"), ("b", "a"), ("a", "c", "b"), ("Lab",), ("LaLb",):
                    out.append((tuple(x for k in w for x in sh[k]), 2, "yes"))
    # explicit indices
    A = lambda i, mode: block("ssb", "res", 0, mode, i)  # noqa: E731
    B = lambda i, mode: block("ssb", "res", "b", mode, i)  # noqa: E731
    s = ("idle", 400)
    for mode in ("APPEND", "AVERAGE"):
        for idx in [(0,), (0, 1), (0, 1, 2), (None, 0), (0, None), (0, None, 1), (None, 0, 1), (0, 1, None)]:
            for reps in (1, 2, 3):
                out.append((tuple(x for i in idx for x in (A(i, mode), s)), reps, "yes"))
                out.append((tuple(x for i in idx for x in (A(i, mode), s, B(i, mode), s)), reps, "yes"))
                out.append((tuple(x for i in idx for x in (("sub", [A(i, mode), s]), s)), reps, "yes"))
                out.append((tuple(x for i in idx for x in (("loop", 2, [A(i, mode), s]), B(i, mode), s)), reps, "yes"))
    # every protocol and bin mode
    for (proto, line), modes in MODES.items():
        for mode in modes:
            l2 = {"res": "bb", "rt": "ru", "i4": "i5"}[line]
            if mode == "DISTRIBUTION":
                sh = shapes(block(proto, line, 0, mode), block(proto, line, "b", mode), block(proto, l2, "c", mode))
            else:
                sh = shapes(block(proto, line, 0, mode), block(proto, line, "b", mode, (("x", 2),)), block(proto, l2, "c", mode))
            for n in (1, 2) + ((3,) if THOROUGH else ()):
                for w in itertools.product(sh, repeat=n):
                    if mode == "DISTRIBUTION" and any(k[0] in "a" for k in ()):
                        continue
                    for reps in (1, 2, 3):
                        out.append((tuple(x for k in w for x in sh[k]), reps, "yes"))
    # both module families in one schedule
    for mode in ("APPEND", "AVERAGE"):
        a, b, c, d = (block("ssb", "res", 0, mode), block("thr", "bb", 1, mode), block("trig", "i4", 2, "APPEND"),
                      block("tt", "i5", "t", mode))
        for w in itertools.permutations([a, b, c, d]):
            out.append((tuple(x for k in w for x in (k, s)), 2, "yes"))
            out.append((tuple(x for k in w for x in (("loop", 2, [k, s]),)), 2, "yes"))
            out.append((tuple(x for k in w for x in ((k, {"pt": "start"}),)) + (("idle", 600),), 2, "yes"))
    # acquisitions inside conditionals
    fb = ("acq", "thr", "bb", 100, "f", None, "APPEND", {"feedback_trigger_label": "q0", "acq_threshold": .5})
    hb = {"hardware_buffer_time": 4e-9}
    for proto in ("ssb", "thr", "wsep", "numc"):
        for mode in ("APPEND", "AVERAGE"):
            x, y = block(proto, "res", 0, mode), block(proto, "res", "b", mode)
            for body in ([x, s], [x, s, y, s], [y, s, x, s]):
                for pre in ([], [x, s], [y, s]):
                    for post in ([], [x, s], [y, s]):
                        for pat in ("yes", "no", "alt"):
                            for reps in (1, 2, 3):
                                if proto != "ssb" and reps == 3:
                                    continue
                                out.append(((*pre, fb, s, ("cond", "q0", body, hb), s, *post), reps, pat))
    return [c for c in dict.fromkeys(map(freeze, out)) if slots(c[0])]


def refuse_cases():
    s = ("idle", 400)
    out = []
    for l2 in ("res", "bb"):
        for m1, m2 in (("APPEND", "AVERAGE"), ("AVERAGE", "APPEND")):
            out.append(("mixed bin modes", (block("ssb", "res", 0, m1), s, block("ssb", l2, 0, m2), s), 1))
        for p1, p2 in (("ssb", "thr"), ("thr", "ssb"), ("wsep", "num"), ("ssb", "wsep")):
            for m in ("APPEND", "AVERAGE"):
                out.append(("mixed protocols", (block(p1, "res", 0, m), s, block(p2, l2, 0, m), s), 1))
                out.append(("mixed protocols", (("loop", 2, [block(p1, "res", 0, m), s]), s, block(p2, l2, 0, m), s), 1))
    for idx in ((1,), (0, 0), (0, 2), (1, 0), (0, 1, 1), (0, 1, 3), (-1,)):
        out.append(("indices", tuple(x for i in idx for x in (block("ssb", "res", 0, "AVERAGE", i), s)), 1))
    tr = lambda ch, line, m: ("acq", "trace", line, 100, ch, None, m, None)  # noqa: E731
    out += [("two traces", (tr(0, "res", "AVERAGE"), s, tr(1, "res", "AVERAGE"), s), 1),
            ("trace twice", (tr(0, "res", "AVERAGE"), s, tr(0, "res", "AVERAGE"), s), 1),
            ("trace and ssb", (tr(0, "res", "AVERAGE"), s, block("ssb", "res", 0, "AVERAGE"), s), 1)]
    for p in ("ssb", "thr", "wsep"):
        for m in ("SUM", "DISTRIBUTION", "FIRST"):
            out.append(("bin mode", (block(p, "res", 0, m), s), 1))
    # more channels than acquisition entries, more bins than memory
    for m in ("APPEND", "AVERAGE"):
        out.append(("33 channels", tuple(x for i in range(33) for x in (block("ssb", "res", i, m), s)), 1))
    out.append(("loop bins", (("loop", 100001, [block("ssb", "res", 0, "APPEND"), s]),), 1))
    out.append(("loop x repetitions bins", (("loop", 1001, [block("ssb", "res", 0, "APPEND"), s]),), 100))
    out.append(("repetitions bins", (block("ssb", "res", 0, "APPEND"), s), 100001))
    out.append(("2 x repetitions bins", (block("ssb", "res", 0, "APPEND"), s, block("ssb", "res", 0, "APPEND"), s), 50001))
    out.append(("two shapes bins", (block("ssb", "res", 0, "APPEND"), s, ("loop", 50, [block("ssb", "res", 0, "APPEND"), s])), 1961))
    return out


def refuse(case):
    what, items, reps = case
    RG.use()
    try:
        comp = RG.compile(ref.build(list(items), repetitions=reps, clocks=RG.clocks))
    except Exception as e:
        return R("refused", distinct=(what, type(e).__name__))
    raise Violation("accepted-" + what.replace(" ", "-"), f"compiled: {what}")


def fits(case):
    """Just inside the limits: 32 channels, 100000 bins."""
    what, items, reps = case
    RG.use()
    try:
        comp = RG.compile(ref.build(list(items), repetitions=reps, clocks=RG.clocks))
    except Exception as e:
        raise Violation("rejects-valid", f"{what}: {type(e).__name__}: {e}") from None
    for line, lst in RG.sequencers(comp).items():
        for _, _, st in lst:
            for a in st.sequence["acquisitions"].values():
                if a["num_bins"] > 100000:
                    raise Violation("too-many-bins", str(a))
    return R("ok", distinct=what)


def main():
    c = Check("C04", rule="every execution of every acquisition returns a value unique to its instant and output; the "
              "dataset obtained through ClusterComponent.prepare/retrieve_acquisition must hold exactly that value at "
              "the acquisition's channel, index, coordinates and repetition (or the mean over its own executions); "
              "distinct = distinct datasets",
              assumptions=["Q1 model: lib/q1.py", "instrument bins: mean per bin (thresholds and integrations), sum of "
                           "counts (QRM), mean count (QTM), NaN when never written"])
    RG.config()
    c.explore(run, cases(), label="datasets")
    c.explore(refuse, refuse_cases(), label="indistinguishable")
    s = ("idle", 400)
    c.explore(fits, [("32 channels", tuple(x for i in range(32) for x in (block("ssb", "res", i, "APPEND"), s)), 1),
                     ("100000 repetitions", (block("ssb", "res", 0, "APPEND"), s), 100000),
                     ("loop 100000", (("loop", 100000, [block("ssb", "res", 0, "APPEND"), s]),), 1),
                     ("loop 1000 x 100", (("loop", 1000, [block("ssb", "res", 0, "APPEND"), s]),), 100)], label="limits")
    c.finish(require_outcomes=("ok", "refused"))


if __name__ == "__main__":
    main()
