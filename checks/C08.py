"""C08: a compiled program is always executable within the hardware limits."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import numpy as np
from lib import icsim, q1, ref, rig, rigs  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of schedules and of values at every hardware limit; every emitted program is "
             "assembled by the vendor's Q1 assembler, loaded through the real instrument-coordinator component into the "
             "vendor's dummy cluster, and executed to its end by a Q1ASM interpreter checking every index it uses")
NOTE = ("Every sequence of up to two (partly three) items of a broad alphabet over all module types, and every listed limit "
        "at, just below and just above its value, alone and nested. Trusts the assembler and dummy driver shipped with "
        "qblox-instruments as the definition of what the hardware accepts, plus the memory sizes published for it.")

RG = rigs.acq_rig()
W1 = ([0.1, 0.5, 1.0, -0.3] * 10, [0.0, -1.0, 0.25, 0.3] * 10)
W2 = ([0.1, -0.3] * 20, [0.25, 0.3] * 20)
COND = {"hardware_buffer_time": 4e-9}


def A(proto, line, dur, chan, mode="APPEND", ex=None, coords=None):
    return ("acq", proto, line, dur, chan, coords, mode, ex)


THR = {"acq_threshold": .5, "acq_rotation": 20}
FB = {"feedback_trigger_label": "q0", "acq_threshold": .5}

OPS = {
    "sq": ("sq", "mw", 20, .3), "sqbb": ("sq", "bb", 24, -.9), "flux": ("sq", "fl", 5, 1.0), "drag": ("drag", "mw", 24, .5, .2, 30),
    "ramp": ("ramp", "iq", 33, .4, .1), "long": ("sq", "iq", 204, .7), "longfl": ("ramp", "fl", 4500, .6, -.2),
    "stair": ("stair", "fl", 60, -.5, .5, 5), "num": ("num", "iq", [.1, .2, -.3, .4, .5, .2, .1, 0]), "res": ("sq", "res", 60, 1.0),
    "off": ("off", "iq", .3, -.4), "offres": ("off", "res", -1.0, 1.0), "phase": ("phase", "q.01", 270.5), "phase360": ("phase", "q.ro", -360.0),
    "reset": ("reset", "q.01"), "freq": ("freq", "q.01", 5.1e9),
    "m1": ("mark", "m1", 20), "m3": ("mark", "m3", 9), "d0": ("mark", "d0", 32), "rfsw": ("rfsw", "mw", 40),
    "ssb": A("ssb", "res", 100, 0), "ssbavg": A("ssb", "res", 100, 1, "AVERAGE"), "thr": A("thr", "bb", 80, 2, ex=THR),
    "wsep": A("wsep", "res", 40, 3, ex=W1), "numc": A("num", "res", 40, 4, "AVERAGE", W2), "numa": A("num", "bb", 40, 5, ex=W1),
    "trace": A("trace", "res", 200, 6, "AVERAGE"), "trig": A("trig", "rt", 60, 7), "dist": A("trig", "rt", 60, 8, "DISTRIBUTION"),
    "ttc": A("ttc", "ru", 60, 9, ex={"threshold": 2}), "qtrig": A("trig", "i4", 60, 10), "qtt": A("tt", "i5", 60, 11),
    "i1": ("idle", 1), "i2": ("idle", 2), "i3": ("idle", 3), "i5": ("idle", 5), "i400": ("idle", 400), "i70": ("idle", 70001),
}
OPS["lsq"] = ("loop", 3, [OPS["sq"], ("idle", 4)])
OPS["lacq"] = ("loop", 4, [OPS["ssb"], ("idle", 300)])
OPS["lwacq"] = ("loop", 2, [OPS["wsep"], ("idle", 300), OPS["thr"], ("idle", 4)])
OPS["lwait"] = ("loop", 2, [("idle", 400000), OPS["flux"], ("idle", 7)])
OPS["lnest"] = ("loop", 2, [("loop", 3, [OPS["qtrig"], ("idle", 20)]), OPS["d0"], ("idle", 4)])
OPS["lmark"] = ("loop", 2, [OPS["m1"], ("idle", 9), OPS["off"], ("idle", 4)])
OPS["cnd"] = ("sub", [A("thr", "res", 100, 12, "AVERAGE", FB), ("idle", 400), ("cond", "q0", [OPS["sq"], OPS["flux"], ("idle", 3)], COND), ("idle", 8)])
OPS["lcnd"] = ("loop", 2, [OPS["cnd"], ("idle", 12)])
OPS["cndl"] = ("sub", [A("thr", "bb", 80, 13, "AVERAGE", dict(FB, feedback_trigger_label="q1")), ("idle", 400),
                       ("cond", "q1", [OPS["long"], ("idle", 8), OPS["phase"], ("idle", 8)], COND), ("idle", 8)])
OPS["sub"] = ("sub", [OPS["d0"], OPS["m3"], OPS["ramp"]])
SMALL = ["sq", "long", "off", "phase", "m3", "ssb", "wsep", "qtrig", "i1", "i3", "i400", "lsq", "lacq", "cnd"]

MEM = {"QCM": 16384, "QRM": 16384, "QCM_RF": 16384, "QRM_RF": 16384, "QRC": 16384}
INSTR = {"QCM": 16384, "QRM": 12288, "QCM_RF": 16384, "QRM_RF": 12288, "QRC": 12288, "QTM": 16384}
BINS = 100000   # per acquisition index, as declared by the backend
# The dummy cluster resets between calls; one component per rig and worker.


def check_program(line, mod, typ, st, warned, gap_known=None):
    """All properties of one sequencer's program; returns (SeqRun, bytes used)."""
    seq = st.sequence if isinstance(st.sequence, dict) else None
    if seq is None:
        raise Violation("no-sequence", f"{line}: {st}")
    err = icsim.assemble(seq["program"])
    if err and not warned:
        raise Violation("assembler-refuses", f"{line}: {err}")
    n_ins = sum(1 for ln in seq["program"].split("\n") if ln.split("#")[0].strip())
    if n_ins > INSTR[typ] and not warned:
        raise Violation("too-many-instructions-unnoticed", f"{line}: {n_ins}")
    try:
        r = rig.execute(st, cond=lambda k, m, op, t: op == 0)
    except q1.Q1Error as e:
        raise Violation("illegal-program", f"{line}: {e}") from None
    samples = sum(len(w) for w in r.waves.values())
    if samples > MEM.get(typ, 0) or any(i not in range(1024) for i in r.waves):
        raise Violation("waveform-memory", f"{line}: {samples} samples, indices up to {max(r.waves)}")
    for i, w in list(r.waves.items()) + list(r.weights.items()):
        if len(w) == 0 or not np.all(np.isfinite(w)) or np.max(np.abs(w)) > 1:
            raise Violation("sample-outside-range", f"{line}: waveform or weight {i}")
    if any(i not in range(32) for i in r.acqs) or any(n > BINS for _, n in r.acqs.values()):
        raise Violation("acquisition-memory", f"{line}: {r.acqs}")
    for e in r.tr.events:
        if e[1] == "play" and not {e[2], e[3]} <= set(r.waves):
            raise Violation("missing-waveform", f"{line}: {e}")
        if e[1] in ("acq", "acqw", "ttl", "timetags"):
            if e[2] not in r.acqs or not 0 <= e[3] < r.acqs[e[2]][1]:
                raise Violation("missing-bin", f"{line}: {e} of {r.acqs}")
        if e[1] == "acqw" and not {e[4], e[5]} <= set(r.weights):
            raise Violation("missing-weight", f"{line}: {e}")
        if e[1] == "unlatched" and (e[3] or set(e[2]) - {"gain", "mrk", "digital"}):
            raise Violation("parameter-never-applied", f"{line}: {e}")
    return r


def examine(rg, sched, must=None):
    """Compile; a refusal must be a deliberate error, an accepted program must be executable.

    must: True when it has to be accepted, False when it has to be refused.
    """
    import warnings
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            comp = rg.compile(sched)
        except Exception as e:
            if must is True:
                raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
            if isinstance(e, (KeyError, AttributeError, AssertionError, UnboundLocalError)):
                raise Violation("crash-instead-of-error", f"{type(e).__name__}: {e}") from None
            return R("refused:" + type(e).__name__, distinct=str(e)[:40])
    warned = any("instructions" in str(w.message) for w in ws)
    if must is False:
        if warned:
            return R("warned")
        raise Violation("accepts-invalid", "compiled without complaint")
    n_st = n_tr = n = 0
    dist = []
    clm = comp.compiled_instructions.get("cluster0")
    if clm is None:
        return R("empty")
    runs = {}
    for mod, m in clm.items():
        if not isinstance(m, dict) or "sequencers" not in m:
            continue
        typ = rg.modules[int(mod.rsplit("module", 1)[1])]
        if len(m["sequencers"]) > (8 if typ == "QTM" else 12 if typ == "QRC" else 6):
            raise Violation("too-many-sequencers", mod)
        for s, st in m["sequencers"].items():
            r = check_program(f"{mod}/{s}", mod, typ, st, warned)
            runs[mod, s] = r
            n_st += len(r.tr.events)
            n_tr += r.tr.steps
            n += 1
            dist.append(tuple(r.tr.events))
    if len({r.tr.end for r in runs.values()}) > 1:
        raise Violation("programs-end-apart", str({k: r.tr.end for k, r in runs.items()}))
    cl, cc = icsim.cluster_component({k: v for k, v in rg.modules.items()})
    try:
        cc.prepare(clm)
    except Exception as e:
        if "lo_freq" in str(e) and "is not a multiple of 100000000" in str(e):
            raise Violation("qrc-lo-grid", f"{e}") from None
        raise Violation("driver-refuses", f"{type(e).__name__}: {e}") from None
    # spacing of acquisitions on one input
    for k, r in runs.items():
        ts = [e[0] for e in r.tr.events if e[1] in ("acq", "acqw")]
        if any(b - a < 300 for a, b in zip(ts, ts[1:])):
            raise Violation(SPACING, f"{k}: acquisitions at {ts[:8]}")
    return R("ok", states=n_st, transitions=n_tr, traces=n, distinct=tuple(dist))


SPACING = "acquisition-interval-in-loop"


def run_mix(case):
    names, reps = case
    items = [OPS[n] for n in names]
    RG.use()
    r = None
    try:
        r = examine(RG, ref.build(items, repetitions=reps, clocks=RG.clocks))
    except Violation as v:
        if v.args[0] == SPACING and not static_spacing_ok(items):
            raise Violation("acquisitions-too-close", v.args[1]) from None
        raise
    return r


def static_spacing_ok(items):
    """No two acquisitions of one straight-line stretch of the schedule are too close on any input."""
    def walk(its):
        segs = [[]]
        for st, node in ref.layout(its)[0]:
            pass
        for st, node in sorted(ref.layout(its)[0], key=lambda x: x[0]):
            if node[0] in ("loop", "cond"):
                if not walk(node[2]):
                    return False
                segs.append([])
            elif node[0] == "sub":
                segs += [[(st + t, l) for t, l in s] for s in flat(node[1])]
            else:
                for e in eff(node):
                    segs[-1].append((st + e[0], e[2]))
        for s in segs:
            last = {}
            for t, l in sorted(s):
                if l in last and t - last[l] < 300:
                    return False
                last[l] = t
        return True

    def eff(node):
        out = []
        ref.effects_op(node, 0, out, ())
        return [e for e in out if e[1] == "acq" and e[2] in ("res", "bb")]

    def flat(its):
        segs = [[]]
        for st, node in sorted(ref.layout(its)[0], key=lambda x: x[0]):
            if node[0] in ("loop", "cond"):
                segs.append([])
            elif node[0] == "sub":
                segs += [[(st + t, l) for t, l in s] for s in flat(node[1])]
            else:
                segs[-1] += [(st + e[0], e[2]) for e in eff(node)]
        return segs
    return walk(items)


# ------------------------------------------------------------------ limits
def two_waves(n, extra):
    """n different one-sample-distinct waveforms on fl."""
    return [("num", "fl", [.001 * ((i >> (5 * k)) & 31) for k in range(4)] + [.9]) for i in range(1, n + 1)]


def limit_cases():
    """(label, items, kwargs, must)"""
    c = []

    def add(label, items, must, reps=1, **kw):
        c.append((label, tuple(items), reps, must, tuple(kw.items())))
    # waveform count and memory
    for n, m in ((1023, True), (1024, True), (1025, False)):
        add(f"waves{n}", two_waves(n, 0), m)
    for n, m in ((8192, True), (16380, True), (16384, True), (16385, False), (16388, False)):
        add(f"samples{n}", [("num", "fl", n)], m)
    add("samples2x8192", [("num", "fl", 8192), ("num", "fl", -8192)], True)
    add("samples2x8193", [("num", "fl", 8193), ("num", "fl", -8193)], False)
    add("samplesIQ8192", [("numiq", "iq", 8192)], True)
    add("samplesIQ8193", [("numiq", "iq", 8193)], False)
    # amplitude
    for a in (1.0, -1.0, .99999):
        for line in ("iq", "fl", "mw"):
            add(f"amp{a}", [("sq", line, 20, a)], True)
            add(f"off{a}", [("off", line, a, 0), ("idle", 20)], True)
            add(f"long{a}", [("sq", line, 200, a)], True)
    for a in (1.0001, -1.0001, 1.5, 40000., float("nan"), float("inf")):
        for line in ("iq", "fl", "mw"):
            add(f"amp{a}", [("sq", line, 20, a)], False)
            add(f"ramp{a}", [("ramp", line, 20, a)], None)
            add(f"long{a}", [("sq", line, 200, a)], False)
            add(f"off{a}", [("off", line, a, 0), ("idle", 20)], False)
            add(f"off{a}", [("off", line, 0, a), ("idle", 20)], None if line == "fl" else False)
            add(f"longramp{a}", [("ramp", line, 5000, .5, a)], False)
    add("sum>1", [("sq", "fl", 20, .8), (("sq", "fl", 20, .8), {"ref": 0, "pt": "start"})], False)
    add("sum=1", [("sq", "fl", 20, .5), (("sq", "fl", 20, .5), {"ref": 0, "pt": "start"})], True)
    # integration
    for n, m in ((3, False), (4, True), (300, True), (16777212, True), (16777213, False), (16777216, False), (2 ** 26, False)):
        add(f"integr{n}", [A("ssb", "res", n, 0), ("idle", 400)], m)
        add(f"trig{n}", [A("trig", "rt", n, 0), ("idle", 400)], None)
    for n, m in ((1024, True), (16384, None), (16385, None)):
        add(f"trace{n}", [A("trace", "res", n, 0, "AVERAGE"), ("idle", 400)], m)
    for th, dur, m in ((1.0, 1000, True), (-1.0, 16777212, True), (1.0, 16777212, True), (1.1, 16777212, False), (-1.1, 16777212, False),
                       (17000., 1000, False), (16777., 1000, True), (-17000., 1000, False), (float("nan"), 1000, None)):
        add(f"thr{th}x{dur}", [A("thr", "res", dur, 0, ex={"acq_threshold": th, "acq_rotation": 0}), ("idle", 400)], m)
    for rot, m in ((0, True), (359.9, True), (360, None), (361, None), (-1, None), (-360, None), (720, None)):
        add(f"rot{rot}", [A("thr", "res", 100, 0, ex={"acq_threshold": .1, "acq_rotation": rot}), ("idle", 400)], m)
    # grid
    for d in (20.5, 3.999, 20.0004):
        add(f"grid{d}", [("sq", "iq", d, .1), ("idle", 8)], None)
        add(f"gridloop{d}", [("loop", 3, [("sqf", "iq", d, .1), ("idle", 8)])], None)
    # repetitions
    for n, m in ((-5, False), (-1, False), (0, None), (1, True), (2, True), (3000, True)):
        add(f"loop{n}", [("loop", n, [("sq", "mw", 20, .1)])], m)
        add(f"loopinner{n}", [("loop", 2, [("loop", n, [("sq", "mw", 20, .1)]), ("idle", 8)])], m)
    for n, m in ((-1, False), (0, False), (1, True), (1000, True), (2 ** 32 - 1, None), (2 ** 32, False), (2 ** 32 + 1, False), (2 ** 33, False)):
        add(f"reps{n}", [("sq", "mw", 20, .1)], m if n < 10000 or m is False else "compile", reps=n)
    # channels and bins
    for n, m in ((32, True), (33, False), (40, False)):
        add(f"channels{n}", [x for i in range(n) for x in (A("ssb", "res", 100, i), ("idle", 300))], m)
        add(f"channelsavg{n}", [x for i in range(n) for x in (A("ssb", "res", 100, i, "AVERAGE"), ("idle", 300))], m)
        add(f"timetag{n}", [x for i in range(n) for x in (A("tt", "i4", 100, i), ("idle", 300))], m)
    for n, m in ((1000, True), (100000, "compile"), (100001, False), (200000, False)):
        add(f"bins{n}", [("loop", n, [A("ssb", "res", 100, 0), ("idle", 300)])], m)
        add(f"binsavg{n}", [("loop", n, [A("ssb", "res", 100, 0, "AVERAGE"), ("idle", 300)])], True if n < 2000 else "compile")
    for n, reps, m in ((2, 50000, "compile"), (2, 50001, False), (1, 100000, "compile"), (1, 100001, False)):
        add(f"bins{n}x{reps}", [x for i in range(n) for x in (A("ssb", "res", 100, 0, coords=None), ("idle", 300))], m, reps=reps)
    # NCO range
    for f in (5e9, 4.5e9 + 5e7, 5.45e9, 5.4500001e9, 5.5e9, 4.45e9, 4.4499999e9, 4.4e9, 0, -5e9, float("nan")):
        inside = 4.45e9 <= f <= 5.45e9
        add(f"nco{f}", [("freq", "q.01", f), ("idle", 8), ("sq", "mw", 20, .1), ("idle", 8)], inside)
    for p, m in ((0, True), (360, True), (-360, True), (1e7, True), (359.99999999999, True), (1e-12, True), (-1e-12, True),
                 (float("nan"), None), (float("inf"), None)):
        add(f"phase{p}", [("phase", "q.01", p), ("idle", 8), ("sq", "mw", 20, .1)], m)
    # weights
    for n, m in ((4, True), (1024, True), (8191, True), (8192, True), (8193, True)):
        add(f"weight{n}", [A("num", "res", n, 0, ex=("ramp", n)), ("idle", 400)], m)
    for w, m in ((1.0, True), (-1.0, True), (1.01, False), (-1.01, False), (float("nan"), None)):
        add(f"weightamp{w}", [A("num", "res", 40, 0, ex=([w] + [0.] * 39, [0.] * 40)), ("idle", 400)], m)
        add(f"weightampb{w}", [A("num", "res", 40, 0, ex=([0.] * 40, [w] + [0.] * 39)), ("idle", 400)], m)
    # spacing
    for g, m in ((299, False), (300, True), (100, False)):
        add(f"spacing{g}", [A("ssb", "res", 100, 0), (A("ssb", "res", 100, 0), {"ref": 0, "pt": "start", "rel": g}), ("idle", 400)], m)
    add("twoinputs", [A("ssb", "res", 100, 0), (A("ssb", "bb", 100, 1), {"ref": 0, "pt": "start", "rel": 8}), ("idle", 400)], True)
    add("twolen", [A("ssb", "res", 100, 0), ("idle", 400), A("ssb", "res", 200, 1), ("idle", 400)], False)
    # markers
    for d in (1, 2, 3, 4, 5):
        add(f"marker{d}", [("mark", "m1", d), ("idle", 20)], None)
        add(f"markerq{d}", [("mark", "d0", d), ("idle", 20)], None)
    return c


def expand(op):
    if op[0] == "num" and isinstance(op[2], int):
        n = abs(op[2])
        # not a scaled copy of each other for the two signs
        x = np.linspace(-.5, .5, n) if op[2] > 0 else .3 * np.linspace(0, 1, n) ** 2
        return ("num", op[1], list(x))
    if op[0] == "numiq":
        return ("num", op[1], list(np.linspace(0, .5, op[2]) + 1j * np.linspace(.5, 0, op[2]) ** 2))
    if op[0] == "sqf":
        return ("sq",) + op[1:]
    if op[0] == "acq" and isinstance(op[7], tuple) and op[7][0] == "ramp":
        n = op[7][1]
        return op[:7] + ((list(np.linspace(0, 1, n)), list(np.linspace(-1, 0, n))),)
    if op[0] == "loop":
        return ("loop", op[1], [expand(o) for o in op[2]])
    return op


def run_limit(case):
    label, items, reps, must, _ = case
    RG.use()
    its = [(expand(i[0]), i[1]) if len(i) == 2 and isinstance(i[1], dict) else expand(i) for i in items]
    try:
        s = ref.build(its, repetitions=reps, clocks=RG.clocks)
    except Exception as e:
        if must is True or must == "compile":
            raise Violation("rejects-valid", f"{label}: {type(e).__name__}: {e}") from None
        return R("refused:build", distinct=label)
    if must == "compile":
        try:
            comp = RG.compile(s)
        except Exception as e:
            raise Violation("rejects-valid", f"{label}: {type(e).__name__}: {e}") from None
        for mod, m in comp.compiled_instructions["cluster0"].items():
            for st in (m.get("sequencers", {}) if isinstance(m, dict) else {}).values():
                err = icsim.assemble(st.sequence["program"])
                if err:
                    raise Violation("assembler-refuses", f"{label}: {err}")
                nb = max((a["num_bins"] for a in (st.sequence.get("acquisitions") or {}).values()), default=0)
                if nb > BINS:
                    raise Violation("acquisition-memory", f"{label}: {nb} bins")
        return R("ok", distinct=label)
    r = examine(RG, s, must)
    r.distinct = (label, r.distinct)
    return r


# ------------------------------------------------------------------ registers
def reg_case(k, m, kind):
    """k nested loops around m appended acquisitions on different channels."""
    body = []
    for i in range(m):
        if kind == "w":
            body += [A("num", "res", 40, i, ex=W1), ("idle", 300)]
        elif kind == "wait":
            body += [A("ssb", "res", 40, i), ("idle", 330000)]
        elif kind == "q":
            body += [A("trig", "i4", 40, i), ("idle", 300)]
        else:
            body += [A("ssb", "res", 40, i), ("idle", 300)]
    node = body
    for _ in range(k):
        node = [("loop", 2 if k < 5 else 1, node), ("idle", 8)]
    return node


def run_reg(case):
    k, m, kind, reps = case
    RG.use()
    items = reg_case(k, m, kind)
    # each loop level and each appended channel needs a register, a few more are temporary
    need = 64 - (k + m + (2 if k < 5 else 0))
    r = examine(RG, ref.build(items, repetitions=reps, clocks=RG.clocks), True if need > 16 and m <= 32 else None)
    if r.outcome != "ok":
        return r
    return r


def run_instr(case):
    """Programs around the size of the instruction memory are reported."""
    line, n, mod = case
    RG.use()
    items = []
    for i in range(n):
        items += [("sq", line, 8, .1 + .0001 * (i % 2))]
    return examine(RG, ref.build(items, clocks=RG.clocks), None)


def run_seqs(case):
    typ, n = case
    from lib.rig import Rig
    rf = typ in ("QCM_RF", "QRM_RF", "QRC")
    lines = {f"l{i}": ("q:0", f"c{i}", 1, "complex_output_0", False, 50e6 if rf else None) for i in range(n)}
    rg = Rig({1: typ}, [["cluster0.module1.complex_output_0", "q:0"]], lines,
             clocks=[(f"c{i}", 5e9 if rf else 50e6) for i in range(n)])
    rg.use()
    s = ref.build([("sq", x, 20, .1) for x in lines], clocks=rg.clocks)
    return examine(rg, s, True if n <= 6 else False if n > (12 if typ == "QRC" else 6) else None)


def main():
    ck = Check("C08", rule=NOTE, assumptions=[
        "the assembler and dummy cluster bundled with qblox-instruments define what the hardware accepts",
        "two weighted-integration memories of unpublished size are not bounded",
        "a program larger than the instruction memory may be compiled with a warning"])
    names = list(OPS)
    cases = [((a,), r) for a in names for r in (1, 2)]
    cases += [((a, b), 1) for a in names for b in names]
    cases += [((a, b), 2) for a in SMALL for b in SMALL]
    tri = SMALL if THOROUGH else ["sq", "off", "phase", "wsep", "i1", "i400", "lacq", "cnd"]
    cases += [((a, b, c), 1) for a in tri for b in tri for c in tri]
    if THOROUGH:
        cases += [((a, b), r) for a in names for b in names for r in (2, 3)]
        cases += [((a, b, c), 2) for a in tri for b in tri for c in tri]
    ck.explore(run_mix, sorted(set(cases)), label="mix")
    ck.explore(run_limit, limit_cases(), chunk=1, label="limits")
    ks, ms = (range(1, 9), range(1, 33)) if THOROUGH else ((1, 2, 4, 6), (1, 8, 16, 20, 24, 26, 28, 30, 32))
    ck.explore(run_reg, [(k, m, kind, r) for k in ks for m in ms for kind in ("ssb", "w", "wait", "q")
                         for r in ((1, 2) if THOROUGH else (1,))] +
               [(k, 1, kind, 1) for k in range(10, 64, 4 if not THOROUGH else 1) for kind in ("ssb", "w", "q")], chunk=1, label="registers")
    ck.explore(run_instr, [(l, n, None) for l in ("iq", "res") for n in (100, 4000, 6000, 9000)], chunk=1, label="instructions")
    ck.explore(run_seqs, [(t, n) for t in ("QCM", "QRM", "QCM_RF", "QRM_RF", "QRC") for n in (1, 5, 6, 7, 12, 13)], chunk=1, label="sequencers")
    ck.finish(("ok", "refused:ValueError"))


if __name__ == "__main__":
    main()
