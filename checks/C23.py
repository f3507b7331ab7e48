"""C23: diagrams and sampled waveforms show the schedule as it will be played."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import copy
import math
import numpy as np
from lib import ref, rigs  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of pulse shapes with durations and of programs; every sample of every waveform, diagram "
             "and timing table is compared with formulas and a flattening of the program written separately")
NOTE = ("Waveforms: every pulse class, every duration 1..64 ns (thorough: 1..400), several amplitudes, phases, sampling rates, every "
        "start of the sample times of numerical pulses. Diagrams: every program of up to two (thorough: three) operations out of "
        "pulses, offsets, stitched pulses, acquisitions, loops, sub-schedules, conditionals and operations placed out of order, "
        "sampled at two rates, combined or not, with and without modulation, for every window edge; the same for fully compiled "
        "schedules with piecewise pulses. The curves drawn by both plotting libraries, in one plot and in one per port, are read back. ")
PORT = {"a": ("p:a", "cl0.baseband"), "b": ("p:b", "clk"), "c": ("p:a", "clk")}
FREQ = {"cl0.baseband": 0.0, "clk": 50e6}


# ------------------------------------------------------------------ formulas
def formula_cases(T):
    for n in range(1, T + 1):
        for amp in (1.0, -.3, .2j, 0.0):
            yield ("square", n, amp)
        for amp, off in ((1.0, 0), (-.5, .25), (0.0, .5)):
            yield ("ramp", n, amp, off)
        for k in (2, 3, 5, 8):
            for a0, a1 in ((0.0, 1.0), (.5, -.5)):
                yield ("stair", n, a0, a1, k)
        for phase in (0, 30, 90, -137.5):
            for g, d in ((1.0, .5), (-.4, 0.0)):
                yield ("drag", n, g, d, phase)
            yield ("gauss", n, .7, phase)
            for sigma in (1, 7.5, n / 3):
                yield ("drag", n, .6, .3, phase, 4, sigma)
                yield ("gauss", n, .6, phase, sigma)
        for sk in (0.0, 2e-9):
            for ph in (0, 60):
                yield ("hermite", n, .8, sk, ph)
        if n not in (4, 5):
            for amp in (1.0, -.6):
                yield ("soft", n, amp)
        for f0, f1 in ((0.0, 50e6), (30e6, -20e6), (10e6, 10e6)):
            yield ("chirp", n, .5, f0, f1)
    for n in (4, 5):
        yield ("soft", n, .5)
    S = min(T, 200)
    for n1 in range(1, S // 2):
        for nphi in (0, 1, n1):
            for nc in (1, 2, 5, n1):
                yield ("snz", n1, nphi, nc, .8, .5, .9)
    for n1 in range(1, 12):
        for nphi in range(0, 20):
            for nc in range(1, 12):
                yield ("snz", n1, nphi, nc, -.5, .3, 1.0)
    for step in (1, 2, 3, 10):
        for start in (0, 1, 2, 7, 100):
            for ys in ((0.0, 1.0), (.1, .5, -.3, .2), (.2 + .1j, -.4j, .5)):
                yield ("num", step, start, ys)


def formula(case):
    from quantify_scheduler.helpers.waveforms import get_waveform
    from quantify_scheduler.operations import pulse_library as pl
    k = case[0]
    pc = dict(port="p", clock="c")
    n = case[1]
    fs = 1e9
    if k == "square":
        op, want = pl.SquarePulse(amp=case[2], duration=n * 1e-9, **pc), ref.w_square(n, case[2])
    elif k == "ramp":
        op, want = pl.RampPulse(amp=case[2], offset=case[3], duration=n * 1e-9, **pc), ref.w_ramp(n, case[2], case[3])
    elif k == "stair":
        op = pl.StaircasePulse(start_amp=case[2], final_amp=case[3], num_steps=case[4], duration=n * 1e-9, **pc)
        want = ref.w_stair(n, *case[2:])
    elif k == "drag":
        op = pl.DRAGPulse(G_amp=case[2], D_amp=case[3], phase=case[4], duration=n * 1e-9, sigma=case[6] * 1e-9 if len(case) > 6 else None, **pc)
        want = ref.w_drag(n, *case[2:])
    elif k == "gauss":
        op = pl.GaussPulse(G_amp=case[2], phase=case[3], duration=n * 1e-9, sigma=case[4] * 1e-9 if len(case) > 4 else None, **pc)
        want = ref.w_drag(n, case[2], 0.0, case[3], 4, *case[4:])
    elif k == "hermite":
        op = pl.SkewedHermitePulse(duration=n * 1e-9, amplitude=case[2], skewness=case[3], phase=case[4], **pc)
        want = ref.hermite(n, case[2], case[3], case[4], n * 1e-9)
    elif k == "soft":
        op, want = pl.SoftSquarePulse(amp=case[2], duration=n * 1e-9, **pc), None
        if n not in (4, 5):
            want = ref.soft(n, case[2])
    elif k == "chirp":
        op = pl.ChirpPulse(amp=case[2], duration=n * 1e-9, start_freq=case[3], end_freq=case[4], **pc)
        want = ref.chirp(n, *case[2:])
    elif k == "snz":
        _, n1, nphi, nc, A, B, sc = case
        op = pl.SuddenNetZeroPulse(amp_A=A, amp_B=B, net_zero_A_scale=sc, t_pulse=2 * n1 * 1e-9, t_phi=nphi * 1e-9,
                                   t_integral_correction=nc * 1e-9, **pc)
        want = ref.snz(n1, nphi, nc, A, B, sc, 0)
    else:
        _, step, start, ys = case
        ts = [(start + i * step) * 1e-9 for i in range(len(ys))]
        op = pl.NumericalPulse(samples=list(ys), t_samples=ts, **pc)
        n = (len(ys) - 1) * step
        want = np.array([ref.interp([i * step for i in range(len(ys))], ys, x) for x in range(n)], dtype=complex)
    if abs(op.duration - n * 1e-9) > 1e-15 and k not in ("snz", "num"):
        raise Violation("duration", f"{case}: {op.duration}")
    info = copy.deepcopy(op["pulse_info"][0])
    try:
        got = np.asarray(get_waveform(info, fs), dtype=complex)
    except Exception as e:
        raise Violation("waveform-fails", f"{case}: {type(e).__name__} {e}") from None
    if repr(info) != repr(op["pulse_info"][0]):
        raise Violation("waveform-alters", f"{case}")
    if want is None:
        if not np.all(np.isfinite(got)):
            raise Violation("not-finite", f"{case}: {got}")
        return R(k, states=n, transitions=n, distinct=case)
    if len(got) != len(want):
        raise Violation("samples", f"{case}: {len(got)} samples, {len(want)} expected")
    d = np.abs(got - want)
    if not d.max() < 1e-9 * max(1, np.abs(want).max()):
        i = int(np.nanargmax(d)) if not np.all(np.isnan(d)) else 0
        raise Violation("formula", f"{case}: sample {i}: {got[i]} instead of {want[i]}")
    return R(k, states=n, transitions=n, distinct=case)


# ------------------------------------------------------------------ diagrams
A = [("sq", "a", 8, .5), ("ramp", "a", 6, .5, -.25), ("drag", "b", 12, .4, .3, 90), ("stair", "c", 9, -.4, .4, 3),
     ("soft", "a", 10, .5), ("chirp", "b", 8, .25), ("npulse", "a", 3, (.1, .5, -.3))]
OFF = [("off", "a", .25, 0.0), ("off", "a", 0.0, 0.0), ("off", "b", .1, -.2), ("off", "b", 0.0, 0.0)]
MISC = [("idle", 5), ("phase", "clk", 90), ("acq", "ssb", "b", 10, 0, None, "AVERAGE", None),
        ("multi", ("sq", "a", 4, .2), ("t0", 6, ("sq", "b", 4, .3)), ("t0", 2, ("off", "a", .1, .1))),
        ("sub", [("sq", "a", 4, .3), (("sq", "b", 4, .2), {"rel": 2})]),
        ("loop", 3, [("sq", "a", 4, .3), ("idle", 3)]),
        ("loop", 2, [("off", "a", .3, 0), ("idle", 4), ("off", "a", 0, 0), ("idle", 2)]),
        ("loop", 2, [("loop", 2, [("sq", "a", 5, .3)]), ("ramp", "b", 4, .4)]),
        ("loop", 3, [("sq", "b", 6, -.3)], "bare"),
        ("cond", "q0", [("sq", "a", 7, .6)]),
        ("lsq", "a", 16, .3), ("lstair", "c", 24, .1, .4, 3)]


def install():
    """soft, chirp and general numerical pulses for the program language."""
    if getattr(ref, "_c23", False):
        return
    ref._c23 = True
    ref.HBT = 0
    ob, od, oe = ref.build_op, ref.dur_op, ref.effects_op

    def build_op(op, t0=0):
        from quantify_scheduler.operations import pulse_library as pl
        kw = {"t0": t0 * 1e-9} if t0 else {}
        if op[0] in ("soft", "chirp", "npulse"):
            p, c = ref.pc(op[1])
        if op[0] == "soft":
            return pl.SoftSquarePulse(amp=op[3], duration=op[2] * 1e-9, port=p, clock=c, **kw)
        if op[0] == "chirp":
            return pl.ChirpPulse(amp=op[3], duration=op[2] * 1e-9, start_freq=10e6, end_freq=60e6, port=p, clock=c, **kw)
        if op[0] == "npulse":
            return pl.NumericalPulse(samples=list(op[3]), t_samples=[(7 + i * op[2]) * 1e-9 for i in range(len(op[3]))],
                                     port=p, clock=c, **kw)
        return ob(op, t0)

    def dur_op(op):
        if op[0] in ("soft", "chirp"):
            return op[2]
        return op[2] * (len(op[3]) - 1) if op[0] == "npulse" else od(op)

    def effects_op(op, t, out, ctx, t0=0):
        if op[0] in ("soft", "chirp", "npulse"):
            out.append((t, "wave", op[1], op, ctx))
            return None
        if op[0] in ("lsq", "sq", "ramp", "stair", "drag", "lstair", "lramp"):
            out.append((t, "wave", op[1], op, ctx))
            return None
        return oe(op, t, out, ctx)

    ref.build_op, ref.dur_op, ref.effects_op = build_op, dur_op, effects_op


def samples(op, rate):
    """The waveform of a pulse at rate samples per ns."""
    k, n = op[0], ref.dur_op(op) * rate
    if k in ("sq", "lsq"):
        return ref.w_square(n, op[3])
    if k in ("ramp", "lramp"):
        return ref.w_ramp(n, op[3], *op[4:5])
    if k in ("stair", "lstair"):
        return ref.w_stair(n, op[3], op[4], op[5])
    if k == "drag":
        return ref.w_drag(n, op[3], op[4], op[5])
    if k == "soft":
        return ref.soft(n, op[3])
    if k == "chirp":
        return ref.chirp(n, op[3], 10e6, 60e6, rate * 1e9)
    return np.array([ref.interp([i * op[2] for i in range(len(op[3]))], op[3], x / rate) for x in range(n)], dtype=complex)


def picture(items, rate, clocks):
    """{port: signal at every sample}, {port: [(start, duration)] acquisitions}, [table rows]"""
    eff = ref.flatten(items)
    N = math.ceil(ref.layout(items)[1]) * rate
    sig, acq, offs, rows = {}, {}, {}, []
    for t, k, line, p, _ in sorted(eff, key=lambda e: e[0]):
        if k == "wave":
            port, clock = ref.PC[line]
            w = samples(p, rate)
            s = sig.setdefault(port, np.zeros(N + 1, complex))
            ts = np.arange(t * rate, t * rate + len(w))
            s[ts] += w * np.exp(2j * np.pi * clocks(clock) * ts / rate * 1e-9)
        elif k == "off":
            offs.setdefault(line, []).append((t, p))
        elif k == "acq":
            acq.setdefault(ref.PC[line][0], []).append((t, ref.dur_op(p)))
    for line, ch in offs.items():
        port, clock = ref.PC[line]
        s = sig.setdefault(port, np.zeros(N + 1, complex))
        for i, (t, v) in enumerate(ch):
            e = ch[i + 1][0] * rate if i + 1 < len(ch) else N
            ts = np.arange(t * rate, e)
            s[ts] += v * np.exp(2j * np.pi * clocks(clock) * ts / rate * 1e-9)
    return {p: s[:N] for p, s in sig.items()}, acq, N


def timed(items):
    from quantify_scheduler.compilation import _determine_absolute_timing
    install()
    ref.PC.clear()
    ref.PC.update(PORT)
    s = ref.build(items, clocks=[("clk", 50e6)], repetitions=3)
    return _determine_absolute_timing(s, "physical")


def at(pulses, ts):
    """The value shown at the given times: the sum of all curves, each interpolated."""
    v = np.zeros(len(ts), complex)
    for p in pulses:
        order = np.argsort(p.time, kind="stable")
        if np.any(np.diff(p.time) < -1e-15):
            raise Violation("time-not-sorted", f"{p.label}: {p.time}")
        v += np.interp(ts, p.time[order], np.asarray(p.signal, complex)[order], left=0, right=0)
    return v


def show(s, items, rate, mod, comb, rng):
    from quantify_scheduler.schedules._visualization.pulse_diagram import sample_schedule
    kw = {}
    if rng:
        kw["x_range"] = (rng[0] * 1e-9, rng[1] * 1e-9)
    if mod == "if":
        kw["modulation_if"] = 20e6
    got = sample_schedule(s, sampling_rate=rate * 1e9, modulation=mod, combine_waveforms_on_same_port=comb, **kw)
    clocks = {"off": lambda c: 0, "if": lambda c: 20e6, "clock": FREQ.__getitem__}[mod]
    want, acq, N = picture(items, rate, clocks)
    lo, hi = (0, N) if not rng else (max(0, math.ceil(rng[0] * rate)), min(N, math.ceil(rng[1] * rate)))
    for port in set(want) | set(got):
        w = want.get(port, np.zeros(N, complex))
        p, a = got.get(port, ([], []))
        idx = np.arange(lo, hi)
        v = at(p, idx / rate * 1e-9 + 1e-15)
        d = np.abs(v - w[lo:hi]) if len(idx) else np.zeros(1)
        if d.max() > 2e-3:
            i = int(d.argmax())
            raise Violation("diagram", f"{port} at {(i + lo) / rate} ns: {v[i]:.4f} shown, {w[i + lo]:.4f} scheduled "
                                       f"(rate {rate}, modulation {mod}, combined {comb}, range {rng})")
        ga = sorted((round(x.t0 * 1e9, 6), round(x.duration * 1e9, 6)) for x in a)
        if ga != sorted(acq.get(port, [])):
            raise Violation("acquisitions", f"{port}: {ga} shown, {acq.get(port)} scheduled")
        if comb and len(p) > 1:
            raise Violation("not-combined", f"{port}: {len(p)} curves")
    return N


def views(items):
    yield 1, "off", False, None
    yield 1, "off", True, None
    yield 2, "off", True, None
    yield 1, "clock", False, None
    yield 1, "if", True, None


def diagram(items):
    try:
        s = timed(items)
    except ref.RefError:
        return R("off-grid", traces=0)
    before = repr(s.data)
    n = 0
    try:
        for v in views(items):
            show(s, items, *v)
            n += 1
        N = ref.layout(items)[1]
        for rng in WINDOWS:
            if rng[0] <= N:
                show(s, items, 1, "off", False, rng)
                n += 1
        table(s, items)
    except Violation:
        raise
    except Exception as e:
        import traceback
        raise Violation("diagram-fails", f"{type(e).__name__}: {e} {traceback.format_exc()[-300:]}") from None
    if repr(s.data) != before:
        raise Violation("schedule-altered", "")
    return R("ok", states=n * len(items), transitions=n, distinct=repr(items))


WINDOWS = [(0, 3), (2, 9), (5, 11), (6.5, 7.5), (-4, 100), (10, 60), (20, 21)]


def leaves(items, t=0):
    for st, node in ref.layout(items)[0]:
        st += t
        if node[0] == "sub":
            yield from leaves(node[1], st)
        elif node[0] == "loop":
            d = ref.layout(node[2])[1]
            for i in range(node[1]):
                yield from leaves(node[2], st + i * d)
        elif node[0] == "cond":
            yield from leaves(node[2], st)
        else:
            yield st, node


def rows_of(op, t=0):
    k = op[0]
    if k == "t0":
        yield from rows_of(op[2], t + op[1])
    elif k == "multi":
        for o in op[1:]:
            yield from rows_of(o, t)
    elif k in ("lsq", "lstair"):
        yield None
    elif k == "idle":
        yield (None, t, op[1], False)
    elif k in ("phase",):
        yield (None, t, 0, False)
    elif k == "acq":
        yield (ref.PC[op[2]], t, op[3], True)
    else:
        yield (ref.PC[op[1]], t, ref.dur_op(op), False)


def table(s, items):
    """The timing table lists every pulse and acquisition, at its time."""
    want, skip = [], set()
    for t, op in leaves(items):
        for r in rows_of(op):
            if r is None:
                return
            if r[0]:
                want.append((r[0][0], r[0][1], t + r[1], r[2], r[3]))
    df = s.timing_table.data
    got = [(r.port, r.clock, round(r.abs_time * 1e9, 6), round(r.duration * 1e9, 6), bool(r.is_acquisition))
           for r in df.itertuples() if isinstance(r.port, str)]
    if sorted(got) != sorted(want):
        raise Violation("timing-table", f"listed {sorted(set(got) - set(want))[:3]} ({len(got)}), scheduled "
                                        f"{sorted(set(want) - set(got))[:3]} ({len(want)})")


def programs():
    palette = A + OFF + MISC
    for x in palette:
        yield [x, ("idle", 6)]
        yield [("idle", 3), x]
    for x in palette:
        for y in palette:
            yield [x, y, ("idle", 4)]
            yield [x, (y, {"pt": "start"}), ("idle", 4)]
            yield [("idle", 30), (x, {"rel": -8}), (y, {"ref": 0, "pt": "start", "rel": 2})]
    if THOROUGH:
        for x in palette:
            for y in palette:
                for z in palette:
                    yield [x, (y, {"pt": "start", "rel": 2}), z, ("idle", 4)]
    else:
        small = OFF[:2] + [A[0], ("lsq", "a", 16, .3), ("idle", 5)]
        for x in small:
            for y in small:
                for z in small:
                    yield [x, y, z, ("idle", 4)]


# ------------------------------------------------------------------ compiled schedules and converted pulses
_RIG = []


def compiled_rig():
    if not _RIG:
        _RIG.append(rigs.main_rig())
    return _RIG[0]


HW = [("sq", "iq", 8, .5), ("sq", "iq", 120, -.3), ("ramp", "fl", 40, .5, -.25), ("ramp", "fl", 4100, .4), ("drag", "mw", 20, .4, .3, 90),
      ("stair", "fl", 24, -.4, .4, 3), ("off", "iq", .25, 0.0), ("off", "iq", 0.0, 0.0), ("lsq", "mw", 40, .3),
      ("sub", [("sq", "iq", 104, .3), (("sq", "mw", 8, .2), {"rel": 4})]), ("loop", 3, [("sq", "iq", 116, .3), ("idle", 8)]),
      ("loop", 2, [("drag", "mw", 12, .2, .1, 0), ("ramp", "fl", 20, .3), ("idle", 4)])]


def hw_programs():
    for x in HW:
        yield [x, ("idle", 8)]
        for y in HW:
            yield [x, y, ("idle", 8)]
            yield [x, (y, {"pt": "start", "rel": 4}), ("idle", 200)]


def compiled(items):
    install()
    r = compiled_rig()
    r.use()
    ref.HBT = 0
    s = ref.build(items, clocks=[(c, f) for c, f in r.clocks], repetitions=2)
    try:
        c = r.compile(s)
    except Exception as e:
        return R(f"refused:{type(e).__name__}", traces=0)
    try:
        show(c, items, 1, "off", False, None)
        N = show(c, items, 1, "off", True, None)
    except Violation:
        raise
    except Exception as e:
        import traceback
        raise Violation("diagram-fails", f"{type(e).__name__}: {e} {traceback.format_exc()[-300:]}") from None
    return R("ok", states=N, transitions=N, distinct=repr(items))


def converted(op):
    """A pulse sampled into a numerical pulse looks and lasts the same."""
    from quantify_scheduler import ClockResource, Schedule
    from quantify_scheduler.backends.qblox.operations.stitched_pulse import convert_to_numerical_pulse
    from quantify_scheduler.compilation import _determine_absolute_timing
    install()
    ref.PC.clear()
    ref.PC.update(PORT)
    orig = ref.build_op(op)
    before = repr(orig.data)
    num = convert_to_numerical_pulse(orig)
    if repr(orig.data) != before:
        raise Violation("operation-altered", repr(op))
    n = ref.dur_op(op)
    if abs(num.duration - n * 1e-9) > 1e-13:
        raise Violation("converted-duration", f"{op}: {num.duration}")
    s = Schedule("s")
    s.add_resource(ClockResource("clk", 50e6))
    s.add(num)
    show(_determine_absolute_timing(s, "physical"), [op], 1, "off", False, None)
    return R("ok", states=n, transitions=n, distinct=op)


def decomposed(case):
    """The parts of a long square pulse are that pulse, with as few parts as possible."""
    from quantify_scheduler.operations.pulse_library import decompose_long_square_pulse
    unit, longest, last = case
    n = 0
    for m in range(1, longest + 1):
        for single in (False, True):
            d, dm = unit * last, unit * m
            try:
                parts = decompose_long_square_pulse(duration=d, duration_max=dm, single_duration=single, amp=.25, port="p:a", clock="clk")
            except ValueError as e:
                if m <= last:
                    raise Violation("decompose-fails", f"{d} s in parts of {dm} s: {e}") from None
                continue
            if m > last:
                raise Violation("decompose-too-long", f"{d} s in parts of {dm} s")
            k = -(-last // m)
            want = [dm] * k
            if not single and last % m:
                want[-1] = d - (k - 1) * dm
            got = [p.duration for p in parts]
            if len(got) != k or max(abs(a - b) for a, b in zip(got, want)) > 1e-6 * unit:
                raise Violation("decomposed", f"{d} s in parts of {dm} s, single {single}: {len(got)} parts, the last of {got[-1]} s, "
                                              f"instead of {k}, the last of {want[-1]} s")
            for p in parts:
                i = p["pulse_info"]
                if len(i) != 1 or (i[0]["amp"], i[0]["port"], i[0]["clock"], i[0]["t0"]) != (.25, "p:a", "clk", 0) or not i[0]["wf_func"].endswith("square"):
                    raise Violation("decomposed-part", str(i))
            n += k
    return R("ok", states=n, transitions=2 * longest, distinct=case)


def to_convert():
    ops = A + [("lsq", "a", 16, .3), ("lstair", "c", 24, .1, .4, 3), ("lramp", "b", 40, .3, .1, 12), ("lramp", "b", 37, -.6, .3, 8)]
    yield from ops
    for d in (1, 4):
        for op in ops:
            yield ("t0", d, op)
    for x in ops:
        for y in ops:
            if x[1] == y[1]:
                for d in (0, 3, x[2] if x[0] != "npulse" else 6):
                    if not d or x[0] not in ("lsq", "lstair", "lramp") or y[0] not in ("lsq", "lstair", "lramp"):
                        if not (x[0][0] == y[0][0] == "l"):
                            yield ("multi", x, ("t0", d, y)) if d else ("multi", x, y)


def legal(items, rig=None):
    """Offsets of one output have a defined outcome: not two at one instant, and none meeting a stitched pulse, which sets them."""
    install()
    ref.PC.clear()
    ref.PC.update(PORT)
    if rig:
        rig.use()
    seen, stitched, plain = {}, {}, set()
    for t, k, line, p, ctx in ref.flatten(items):
        if k == "off":
            plain.add(line)
            if seen.setdefault((line, t), p) != p:
                return False
        elif k == "wave" and (p[0] in ("lsq", "lstair") or rig and p[0] in ("sq", "ramp") and p[2] >= 100):
            new = set(range(t, t + p[2]))
            if new & stitched.setdefault(line, set()):
                return False
            stitched[line] |= new
    return not plain & set(stitched)


# ------------------------------------------------------------------ the pictures drawn
def curves(s, items, how, comb):
    """{port: [(time, value)]}, {port: [acquisitions] or None} as drawn."""
    import matplotlib
    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    out, acq = {}, None
    if how == "plotly":
        fig = s.plot_pulse_diagram(plot_backend="plotly", combine_waveforms_on_same_port=comb)
        lay = fig.to_dict()
        names = {k.replace("yaxis", "y"): v["title"]["text"] for k, v in lay["layout"].items() if k.startswith("yaxis")}
        for d in fig.data:
            if d.mode == "lines":
                im = d.name.endswith("(imag)")
                out.setdefault(names[d.yaxis or "y"], []).append((np.array(d.x, float), np.array(d.y, float) * (1j if im else 1)))
        acq = {}
        for x in lay["layout"].get("shapes", ()):
            acq.setdefault(names[x["yref"].split()[0]], []).append((round(x["x0"] * 1e9, 6), round((x["x1"] - x["x0"]) * 1e9, 6)))
        marks = {}
        for d in fig.data:
            if d.mode == "markers":
                marks.setdefault(names[d.yaxis or "y"], []).append((round(d.x[0] * 1e9, 6), round((d.x[1] - d.x[0]) * 1e9, 6)))
        if {k: sorted(v) for k, v in marks.items()} != {k: sorted(v) for k, v in acq.items()}:
            raise Violation("plot-acquisitions", f"arrows at {marks}, shades at {acq}")
        return out, acq
    fig, ax = s.plot_pulse_diagram(combine_waveforms_on_same_port=comb, multiple_subplots=how == "multi")
    try:
        for a in ax if isinstance(ax, np.ndarray) else [ax]:
            for ln in a.lines:
                port = ln.get_label()[5:] if not isinstance(ax, np.ndarray) else a.get_ylabel().split("\n")[0][5:]
                out.setdefault(port, []).append((np.array(ln.get_xdata(), float),
                                                 np.array(ln.get_ydata(), float) * (1j if ln.get_linestyle() == "--" else 1)))
    finally:
        plt.close(fig)
    return out, acq


def drawn(items):
    install()
    ref.PC.clear()
    ref.PC.update(PORT)
    try:
        s = timed(items)
    except ref.RefError:
        return R("off-grid", traces=0)
    want, acq, N = picture(items, 1, lambda c: 0)
    if not want and not acq:
        return R("empty", traces=0)
    effects = ref.flatten(items)
    flat = all(e[1] != "wave" or e[3][0] in ("sq", "lsq") for e in effects)
    n = 0
    for how in ("single", "multi", "plotly"):
        for comb in (False, True):
            try:
                got, a = curves(s, items, how, comb)
            except Violation:
                raise
            except Exception as e:
                raise Violation("plot-fails", f"{how}, combined {comb}: {type(e).__name__}: {e}") from None
            n += 1
            for port in set(want) | set(got):
                w = want.get(port, np.zeros(N, complex))
                for d in (1e-15, .5e-9) if flat else (1e-15,):
                    ts = np.arange(N) * 1e-9 + d
                    v = np.zeros(N, complex)
                    for x, y in got.get(port, ()):
                        o = np.argsort(x, kind="stable")
                        if len(x):
                            v += np.interp(ts, x[o], y[o], left=0, right=0)
                    dv = np.abs(v - w)
                    if N and dv.max() > 4e-3:
                        i = int(dv.argmax())
                        raise Violation("plot", f"{how}, combined {comb}: {port} at {ts[i] * 1e9:.1f} ns: {v[i]:.4f} drawn, {w[i]:.4f} scheduled")
            if a is not None and {k: sorted(x) for k, x in a.items()} != {k: sorted(x) for k, x in acq.items()}:
                raise Violation("plot-acquisitions", f"{a} drawn, {acq} scheduled")
    return R("ok", states=n * len(items), transitions=n, distinct=repr(items))


WIN = [("win", "w1", 20, 0), ("win", "w2", 8, 12), ("win", "w3", 4, 0), ("acq", 40, 0), ("acq", 24, 8), ("sq", 20), ("idle", 12)]


def windows(case):
    """The window operations and the acquisitions of a schedule, and the spans drawn for them."""
    import matplotlib
    matplotlib.use("agg")
    import matplotlib.pyplot as plt
    from quantify_scheduler import Schedule
    from quantify_scheduler.compilation import _determine_absolute_timing
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.acquisition_library import SSBIntegrationComplex
    from quantify_scheduler.schedules._visualization import pulse_diagram as pd
    s, t, ends, wins, acqs = Schedule("s"), 0, [], [], []
    for op, rt, rel in case:
        if op[0] == "win":
            o, d = pl.WindowOperation(op[1], op[2] * 1e-9, t0=op[3] * 1e-9), op[2] + op[3]
        elif op[0] == "acq":
            o, d = SSBIntegrationComplex(port="p:a", clock="cl0.baseband", duration=op[1] * 1e-9, t0=op[2] * 1e-9), op[1] + op[2]
        elif op[0] == "sq":
            o, d = pl.SquarePulse(amp=.5, duration=op[1] * 1e-9, port="p:a", clock="cl0.baseband"), op[1]
        else:
            o, d = pl.IdlePulse(op[1] * 1e-9), op[1]
        s.add(o, rel_time=rel * 1e-9, ref_pt=rt)
        b = (ends[-1][0 if rt == "start" else 1] if ends else 0) + rel
        ends.append((b, b + d))
        if op[0] == "win":
            wins.append((b + op[3], b + op[3] + op[2], op[1]))
        elif op[0] == "acq":
            acqs.append((b + op[2], b + op[2] + op[1]))
    s = _determine_absolute_timing(s)
    lo = min(b for b, _ in ends)  # a schedule starts at 0
    wins, acqs = [(a - lo, b - lo, w) for a, b, w in wins], [(a - lo, b - lo) for a, b in acqs]
    r = lambda x: round(x * 1e9, 6)  # noqa: E731
    got = [(r(a), r(b), o.window_name) for a, b, o in pd.get_window_operations(s)]
    if sorted(got) != sorted(wins):
        raise Violation("windows", f"{got} listed, {wins} scheduled")
    fig, ax = plt.subplots()

    def spans(n=0):
        return [tuple(sorted({round(float(v), 6) for v in p.get_path().vertices[:, 0]} if not hasattr(p, "get_x") else
                             {round(p.get_x(), 6), round(p.get_x() + p.get_width(), 6)})) for p in ax.patches[n:]]
    try:
        pd.plot_window_operations(s, ax=ax, time_scale_factor=1e9)
        d = spans()
        if sorted(d) != sorted(w[:2] for w in wins) or [p.get_label() for p in ax.patches] != [w[2] for w in wins]:
            raise Violation("windows-drawn", f"{d} drawn, {wins} scheduled")
        for p in list(ax.patches):
            p.remove()
        hs = pd.plot_acquisition_operations(s, ax=ax)
        d = [(r(p.get_x()), r(p.get_x() + p.get_width())) for p in ax.patches]
        if sorted(d) != sorted(acqs) or len(hs) != len(acqs):
            raise Violation("acquisitions-drawn", f"{d} drawn, {acqs} scheduled")
    finally:
        plt.close(fig)
    return R("ok", len(case), len(case), 1, repr(case))


def main():
    ck = Check("C23", rule=NOTE, assumptions=[
        "the signal of a conditional block is shown as if it is executed",
        "two different offsets set on one output at one instant have no defined outcome and are left out",
        "between samples a curve is read by linear interpolation"])
    ck.explore(formula, list(formula_cases(400 if THOROUGH else 64)), label="formula")
    ck.explore(diagram, [p for p in programs() if legal(p)], label="diagram")
    ck.explore(drawn, [p for p in programs() if legal(p)], label="drawn")
    steps = [(o, p, t) for o in WIN for p, t in (("end", 0), ("end", 4), ("start", 8))]
    ck.explore(windows, [tuple(w) for n in (1, 2) for w in itertools.product(steps, repeat=n)]
               + [tuple(w) for w in itertools.product(steps[::1 if THOROUGH else 2], repeat=3)], label="windows")
    ck.explore(compiled, [p for p in hw_programs() if legal(p, compiled_rig())], label="compiled")
    ck.explore(converted, list(to_convert()), label="converted")
    ck.explore(decomposed, [(u, n + 1, n) for u in (1e-9, 4e-9, 1e-6) for n in range(1, 600 if THOROUGH else 150)], label="decomposed")
    ck.finish(("decomposed:ok", "compiled:ok", "converted:ok", "formula:snz", "formula:num", "diagram:ok", "drawn:ok"))


if __name__ == "__main__":
    main()
