"""Schedule DSL with two independent readings.

``build(node)`` makes the real schedule through the public API;
``flatten(node)`` gives the reference meaning: a list of timed effects, in ns.
The reference never looks at the compiler's data structures.

node := op tuple | ("sub", items) | ("loop", n, items) | ("cond", qubit, items, hbt)
        | ("comp", ((line, max amp), ...), grid, items[, "bare"])
items := list of node or (node, kw) where kw: rel (ns), ref (index), pt, pt_new
"""
from __future__ import annotations

import cmath
import math

import numpy as np

PC = {}      # short name -> (port, clock); filled by the rigs


def pc(name):
    return PC[name]


NS = 1e-9


class RefError(Exception):
    """The reference says this schedule has no defined meaning."""


# ---------------------------------------------------------------- waveforms
def w_square(n, amp):
    return np.full(n, amp, dtype=complex)


def w_ramp(n, amp, off=0.0):
    # linear from off (first sample) towards off+amp, reaching it at t = n
    return (off + amp * np.arange(n) / n).astype(complex)


def w_stair(n, a0, a1, k):
    steps = [a0 + (a1 - a0) * i / (k - 1) for i in range(k)]
    return np.array([steps[min(i * k // n, k - 1)] for i in range(n)], dtype=complex)


def w_drag(n, G, D, phase_deg, nsig=4, sigma=None):
    sigma = sigma or n / (2 * nsig)
    mu = n / 2
    t = np.arange(n)
    g = G * np.exp(-0.5 * ((t - mu) / sigma) ** 2)
    d = -D * (t - mu) / sigma * g      # derivative part as documented
    g = g - (g[0] + g[-1]) / 2
    d = d - (d[0] + d[-1]) / 2
    return (g + 1j * d) * cmath.exp(1j * math.radians(phase_deg))


def hann(m):
    return [0.5 - 0.5 * math.cos(2 * math.pi * i / (m - 1)) for i in range(m)] if m > 1 else [1.0]


def soft(n, amp):
    """Square convolved with a Hann window of half its length, centred, unit gain."""
    w = hann(n // 2)
    if n == 1:
        return np.array([amp], dtype=complex)
    out = []
    for k in range(n):
        i = k + (len(w) - 1) // 2
        out.append(sum(w[j] for j in range(len(w)) if 0 <= i - j < n) * amp / sum(w))
    return np.array(out, dtype=complex)


def chirp(n, amp, f0, f1, fs=1e9):
    T = n / fs
    return np.array([amp * cmath.exp(2j * math.pi * (f0 * k / fs + (f1 - f0) / (2 * T) * (k / fs) ** 2)) for k in range(n)])


def snz(n1, nphi, ncorr, A, B, scale, pad):
    w = [A] * (n1 - 1) + [A * B] + [0.0] * nphi + [-A * scale * B] + [-A * scale] * (n1 - 1)
    w += [-sum(w) / ncorr] * ncorr
    return np.array(w + [0.0] * pad, dtype=complex)


def hermite(n, amp, skew, phase, dur, fs=1e9):
    out = []
    for k in range(n):
        th = dur / 6
        x = (k / fs - dur / 2) / th
        g = math.exp(-x * x)
        i = amp * (1 - .956 * x * x) * g
        q = amp * skew / math.pi * x / th * (.956 + 1 - .956 * x * x) * g
        out.append((i + 1j * q) * cmath.exp(1j * math.radians(phase)))
    return np.array(out)


def interp(ts, ys, t):
    """Piecewise linear, extrapolated by the outermost pieces."""
    i = 0
    while i < len(ts) - 2 and t >= ts[i + 1] - 1e-13:
        i += 1
    return ys[i] + (ys[i + 1] - ys[i]) * (t - ts[i]) / (ts[i + 1] - ts[i])


def wf(op):
    """The samples of a pulse of the library given as ("wf", line, kind, ...)."""
    k, a = op[2], op[3:]
    if k == "drag":
        return w_drag(a[0], *a[1:4], sigma=a[4])
    if k == "num":
        step, ys = a
        return np.array([interp([i * step for i in range(len(ys))], ys, x) for x in range((len(ys) - 1) * step)], dtype=complex)
    if k == "hermite":
        return hermite(*a, a[0] * 1e-9)
    if k == "snz":
        return snz(*a, 0)
    return {"soft": soft, "chirp": chirp}[k](*a)


def build_wf(op, kw):
    from quantify_scheduler.operations import pulse_library as pl
    port, clock = pc(op[1])
    kw = dict(kw, port=port, clock=clock)
    k, a = op[2], op[3:]
    if k == "drag":
        if a[2] == 0:
            return pl.GaussPulse(G_amp=a[1], phase=a[3], duration=a[0] * NS, sigma=a[4] * NS, **kw)
        return pl.DRAGPulse(G_amp=a[1], D_amp=a[2], phase=a[3], duration=a[0] * NS, sigma=a[4] * NS, **kw)
    if k == "num":
        return pl.NumericalPulse(samples=list(a[1]), t_samples=[(3 + i * a[0]) * NS for i in range(len(a[1]))], **kw)
    if k == "hermite":
        return pl.SkewedHermitePulse(duration=a[0] * NS, amplitude=a[1], skewness=a[2], phase=a[3], **kw)
    if k == "snz":
        return pl.SuddenNetZeroPulse(t_pulse=2 * a[0] * NS, t_phi=a[1] * NS, t_integral_correction=a[2] * NS,
                                     amp_A=a[3], amp_B=a[4], net_zero_A_scale=a[5], **kw)
    if k == "soft":
        return pl.SoftSquarePulse(amp=a[1], duration=a[0] * NS, **kw)
    return pl.ChirpPulse(amp=a[1], duration=a[0] * NS, start_freq=a[2], end_freq=a[3], **kw)


# ---------------------------------------------------------------- building
GATES = None     # a gates.GateRef when schedules contain gates
BLOCKS = {}      # name -> inline assembly: program, dur, waveforms, effects
MEMO = None      # a dict to build equal gates and sub-schedules as one shared object


def build_op(op, t0=0):
    from quantify_scheduler.operations import pulse_library as pl
    k = op[0]
    if k == "gate":
        from lib import gates
        if MEMO is not None:
            if op not in MEMO:
                MEMO[op] = gates.make_gate(*op[1:])
            return MEMO[op]
        return gates.make_gate(*op[1:])
    kw = {"t0": t0 * NS} if t0 else {}
    if k == "t0":
        return build_op(op[2], op[1])
    if k == "wf":
        return build_wf(op, kw)
    if k == "st":
        return build_st(op, t0)
    if k in ("sq", "ramp", "stair", "num", "drag", "gauss", "soft", "lsq", "lramp", "lstair", "off"):
        port, clock = pc(op[1])
    if k == "sq":
        return pl.SquarePulse(amp=op[3], duration=op[2] * NS, port=port, clock=clock, **kw)
    if k == "ramp":
        return pl.RampPulse(amp=op[3], duration=op[2] * NS, offset=op[4] if len(op) > 4 else 0,
                            port=port, clock=clock, **kw)
    if k == "stair":
        return pl.StaircasePulse(start_amp=op[3], final_amp=op[4], num_steps=op[5],
                                 duration=op[2] * NS, port=port, clock=clock, **kw)
    if k == "num":
        from quantify_scheduler.backends.qblox.operations.pulse_library import SimpleNumericalPulse
        return SimpleNumericalPulse(samples=np.array(op[2]), port=port, clock=clock, **kw)
    if k == "drag":
        return pl.DRAGPulse(G_amp=op[3], D_amp=op[4], phase=op[5], duration=op[2] * NS,
                            port=port, clock=clock, **kw)
    if k == "gauss":
        return pl.GaussPulse(G_amp=op[3], phase=op[4], duration=op[2] * NS,
                             port=port, clock=clock, **kw)
    if k == "lsq":
        from quantify_scheduler.backends.qblox.operations import pulse_factories as qpf
        return qpf.long_square_pulse(amp=op[3], duration=op[2] * NS, port=port, clock=clock, **kw)
    if k == "lramp":
        from quantify_scheduler.backends.qblox.operations import pulse_factories as qpf
        return qpf.long_ramp_pulse(amp=op[3], duration=op[2] * NS, offset=op[4], port=port,
                                   clock=clock, part_duration_ns=op[5], **kw)
    if k == "lstair":
        from quantify_scheduler.backends.qblox.operations import pulse_factories as qpf
        return qpf.staircase_pulse(start_amp=op[3], final_amp=op[4], num_steps=op[5],
                                   duration=op[2] * NS, port=port, clock=clock, **kw)
    if k == "off":
        return pl.VoltageOffset(offset_path_I=op[2], offset_path_Q=op[3], port=port,
                                clock=clock, **kw)
    if k == "idle":
        return pl.IdlePulse(duration=op[1] * NS)
    if k == "phase":
        return pl.ShiftClockPhase(phase_shift=op[2], clock=op[1], **kw)
    if k == "reset":
        return pl.ResetClockPhase(clock=op[1], **kw)
    if k == "freq":
        return pl.SetClockFrequency(clock=op[1], clock_freq_new=op[2], **kw)
    if k == "mark":
        return pl.MarkerPulse(duration=op[2] * NS, port=PC.get(op[1], (op[1],))[0],
                              **(op[3] if len(op) > 3 else {}), **kw)
    if k == "rfsw":
        from quantify_scheduler.backends.qblox.operations.rf_switch_toggle import RFSwitchToggle
        port, clock = pc(op[1])
        return RFSwitchToggle(duration=op[2] * NS, port=port, clock=clock)
    if k == "asm":
        from quantify_scheduler.backends.qblox.operations.inline_q1asm import InlineQ1ASM
        port, clock = pc(op[1])
        b = BLOCKS[op[2]]
        return InlineQ1ASM(program=b["program"], duration=b["dur"] * NS, port=port, clock=clock,
                           waveforms={k: dict(v) for k, v in b.get("waveforms", {}).items()}, **(op[3] if len(op) > 3 else {}))
    if k == "acq":
        return build_acq(op, kw)
    if k == "stamp":
        port, clock = pc(op[1])
        return pl.Timestamp(port=port, clock=clock, **kw)
    if k == "multi":      # several primitives in one operation, each with its own t0
        ops = [build_op(o) for o in op[1:]]
        first = ops[0]
        for o in ops[1:]:
            first.add_pulse(o)
        return first
    raise AssertionError(op)


WF = "quantify_scheduler.waveforms."
WEIGHT_FN = {"half": {"wf_func": WF + "square", "amp": .5}, "ramp": {"wf_func": WF + "ramp", "amp": .8, "offset": -.4},
             "neg": {"wf_func": WF + "square", "amp": -1.0}, "big": {"wf_func": WF + "square", "amp": 1.25},
             "cplx": {"wf_func": WF + "square", "amp": .5j}}


def build_acq(op, kw):
    """("acq", proto, pc, dur, channel, coords, bin_mode, extra)"""
    from quantify_scheduler import enums
    from quantify_scheduler.operations import acquisition_library as al
    _, proto, pcn, dur, chan, coords, bm, ex = op
    port, clock = pc(pcn)
    bin_mode = getattr(enums.BinMode, bm)
    kw = dict(kw)
    if isinstance(coords, int):
        kw["acq_index"] = coords
    elif coords is not None:
        kw["coords"] = dict(coords)
    kw["acq_channel"] = chan
    kw["bin_mode"] = bin_mode
    if proto == "ssb":
        return al.SSBIntegrationComplex(port=port, clock=clock, duration=dur * NS, **kw)
    if proto == "thr":
        return al.ThresholdedAcquisition(port=port, clock=clock, duration=dur * NS, **(ex or {}), **kw)
    if proto == "wthr":
        return al.WeightedThresholdedAcquisition(
            port=port, clock=clock, weights_a=np.array(ex[0]), weights_b=np.array(ex[1]), **ex[2], **kw)
    if proto == "ttc":
        return al.ThresholdedTriggerCount(port=port, clock=clock, duration=dur * NS, **(ex or {}), **kw)
    if proto == "dtc":
        return al.DualThresholdedTriggerCount(port=port, clock=clock, duration=dur * NS, **(ex or {}), **kw)
    if proto == "trace":
        return al.Trace(duration=dur * NS, port=port, clock=clock, **kw)
    if proto == "trig":
        return al.TriggerCount(port=port, clock=clock, duration=dur * NS, **(ex or {}), **kw)
    if proto == "wsep":
        wf = [{"wf_func": "quantify_scheduler.waveforms.interpolated_complex_waveform", "samples": np.array(w),
               "t_samples": np.arange(len(w)) * 1e-9, "interpolation": "linear"} for w in ex[:2]]
        return al.WeightedIntegratedSeparated(wf[0], wf[1], port=port, clock=clock, duration=len(ex[0]) * NS, **kw)
    if proto == "num":
        return al.NumericalSeparatedWeightedIntegration(
            port=port, clock=clock, weights_a=np.array(ex[0]), weights_b=np.array(ex[1]),
            weights_sampling_rate=1e9, **kw)
    if proto == "numc":
        return al.NumericalWeightedIntegration(
            port=port, clock=clock, weights_a=np.array(ex[0]), weights_b=np.array(ex[1]),
            weights_sampling_rate=1e9, **kw)
    if proto == "wfn":
        # weights given by waveform functions
        wf = [{**WEIGHT_FN[x], "duration": dur * NS} for x in ex]
        return al.WeightedIntegratedSeparated(wf[0], wf[1], port=port, clock=clock, duration=dur * NS, **kw)
    if proto in ("numr", "numrc", "numrt"):
        # weights sampled at ex[2] GHz
        cls = {"numr": al.NumericalSeparatedWeightedIntegration, "numrc": al.NumericalWeightedIntegration,
               "numrt": al.WeightedThresholdedAcquisition}[proto]
        return cls(port=port, clock=clock, weights_a=list(ex[0]), weights_b=list(ex[1]), weights_sampling_rate=ex[2] * 1e9, **kw)
    if proto == "tt":
        return al.Timetag(duration=dur * NS, port=port, clock=clock, **(ex or {}), **kw)
    if proto == "ttrace":
        return al.TimetagTrace(duration=dur * NS, port=port, clock=clock, **(ex or {}), **kw)
    raise AssertionError(op)


def split(item):
    if isinstance(item, tuple) and len(item) == 2 and isinstance(item[1], dict):
        return item
    return item, {}


def build(items, name="s", repetitions=1, clocks=(), top=True):
    from quantify_scheduler import ClockResource, Schedule
    s = Schedule(name, repetitions=repetitions)
    for c, f in clocks:
        s.add_resource(ClockResource(c, f))
    labels = []
    for it in items:
        node, kw = split(it)
        args = {}
        if "rel" in kw:
            args["rel_time"] = kw["rel"] * NS
        if "ref" in kw and kw["ref"] is not None:
            args["ref_op"] = labels[kw["ref"]]
        if "pt" in kw:
            args["ref_pt"] = kw["pt"]
        if "pt_new" in kw:
            args["ref_pt_new"] = kw["pt_new"]
        labels.append(s.add(build_node(node), **args))
    return s


_cnt = [0]


def build_node(node):
    from quantify_scheduler.operations.control_flow_library import (
        ConditionalOperation,
        LoopOperation,
    )
    k = node[0]
    if k == "sub":
        if MEMO is not None:
            key = repr(node)
            if key not in MEMO:
                MEMO[key] = build(node[1], name="sub")
            return MEMO[key]
        return build(node[1], name="sub")
    if k == "loop":
        body = node[2]
        b = build_node(body[0]) if len(body) == 1 and len(node) > 3 and node[3] == "bare" \
            else build(body, name="body")
        return LoopOperation(body=b, repetitions=node[1])
    if k == "cond":
        return ConditionalOperation(body=build(node[2], name="cbody"), qubit_name=node[1],
                                    **(node[3] if len(node) > 3 else {}))
    if k == "comp":
        from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
        body = node[3]
        b = build_node(body[0]) if len(body) == 1 and len(node) > 4 and node[4] == "bare" \
            else build(body, name="compbody")
        return PulseCompensation(b, max_compensation_amp={pc(ln)[0]: a for ln, a in node[1]},
                                 time_grid=node[2] * NS, sampling_rate=1e9)
    return build_op(node)


# ---------------------------------------------------------------- meaning
def comp_pulses(node):
    """[(line, start, duration, amp)] a compensated block ends with."""
    eff = flatten(node[3])
    out = []
    for line, mx in node[1]:
        ws = [e for e in eff if e[1] == "wave" and e[2] == line]
        if not ws:
            continue
        area = complex(sum(e[3].sum() for e in ws))
        area = area.real if area.imag == 0 else area
        if abs(area) < 1e-9:
            continue
        n = math.ceil(abs(area) / (mx * node[2]) - 1e-9)
        d = max(n, 1) * node[2]
        out.append((line, max(e[0] + len(e[3]) for e in ws), d, -area / d))
    return out


def stitch(op):
    """("st", line, t0, steps): the parts of a stitched pulse (start, pulse), its offsets (start, end or None, value), its end.

    A step is ("p", pulse, t0 or None to append) or ("o", I, Q, duration or None, rel, append).
    """
    pulses, offs, end = [], [], 0
    for s in op[3]:
        if s[0] == "p":
            st = end if s[2] is None else s[2]
            pulses.append((st, s[1]))
            end = max(end, st + dur_op(s[1]))
        else:
            st = s[4] + (end if s[5] else 0)
            offs.append((st, None if s[3] is None else st + s[3], complex(s[1], s[2])))
            end = max(end, st + (s[3] or 0))
    return pulses, sorted(offs, key=lambda o: o[0]), end


def w_stitch(op):
    pulses, offs, end = stitch(op)
    w = np.zeros(end, dtype=complex)
    for st, stop, v in offs:          # an offset without a duration holds until the end, under the timed ones
        if stop is None:
            w[st:] = v
    for st, stop, v in offs:
        if stop is not None:
            w[st:stop] = v
    for st, p in pulses:
        out = []
        effects_op(p, 0, out, ())
        for t, kind, _, samples, _ in out:
            if kind == "wave":
                w[st + t:st + t + len(samples)] += samples
    return w


def build_st(op, t0=0):
    from quantify_scheduler.backends.qblox.operations.stitched_pulse import StitchedPulseBuilder
    port, clock = pc(op[1])
    b = StitchedPulseBuilder()
    b.set_port(port).set_clock(clock).set_t0((t0 + op[2]) * NS)
    for s in op[3]:
        if s[0] == "p":
            b.add_pulse(build_op(s[1], s[2] or 0), append=s[2] is None)
        else:
            b.add_voltage_offset(s[1], s[2], duration=None if s[3] is None else s[3] * NS, rel_time=s[4] * NS, append=s[5])
    return b.build()


def dur_op(op):
    k = op[0]
    if k == "st":
        return op[2] + stitch(op)[2]
    if k == "gate":
        return GATES.expand(*op[1:])[0]
    if k == "t0":
        return op[1] + dur_op(op[2])
    if k in ("sq", "ramp", "stair", "drag", "gauss", "lsq", "lramp", "lstair", "mark", "rfsw"):
        return op[2]
    if k == "num":
        return len(op[2])
    if k == "wf":
        return len(wf(op))
    if k == "idle":
        return op[1]
    if k in ("phase", "reset", "freq", "off", "stamp"):
        return 0
    if k == "asm":
        return BLOCKS[op[2]]["dur"]
    if k == "acq":
        if op[1] in ("num", "numc", "wsep", "wthr"):
            return len(op[7][0])
        return op[3]
    if k == "multi":
        return max(dur_op(o) for o in op[1:])
    raise AssertionError(op)


def clears_at(op):
    """When a piecewise long pulse drops a voltage offset set earlier (known finding only)."""
    k, d = op[0], op[2]
    if k == "sq":
        return 0 if d >= 100 else None
    if k in ("lsq", "lstair"):
        return 0
    p = op[5] if k == "lramp" else 2000
    off = op[4] if len(op) > 4 else 0.0
    n = (d - 1) // p
    if (k == "ramp" and d < 2000) or n == 0:
        return None
    if off:
        return 0
    return p if n >= 2 else None


HBT = 4  # buffer the control-flow operation reserves after a conditional body


def duration(node):
    k = node[0]
    if k == "sub":
        return layout(node[1])[1]
    if k == "loop":
        body = node[2]
        d = layout(body)[1]
        return node[1] * d
    if k == "cond":
        return layout(node[2])[1] + HBT
    if k == "comp":
        return max([layout(node[3])[1]] + [c[1] + c[2] for c in comp_pulses(node)])
    return dur_op(node)


def layout(items):
    """[(start, node)], total duration. ASAP, chain semantics, min start = 0."""
    starts, durs, nodes = [], [], []
    for i, it in enumerate(items):
        node, kw = split(it)
        d = duration(node)
        if i == 0:
            st = 0
        else:
            ref = kw.get("ref")
            r = ref if ref is not None else i - 1
            pt = kw.get("pt") or "end"
            ptn = kw.get("pt_new") or "start"
            frac = {"start": 0, "center": 0.5, "end": 1}
            st = starts[r] + durs[r] * frac[pt] - d * frac[ptn] + kw.get("rel", 0)
        starts.append(st)
        durs.append(d)
        nodes.append(node)
    m = min(starts) if starts else 0
    starts = [s - m for s in starts]
    total = max([s + d for s, d in zip(starts, durs)] + [0])
    return list(zip(starts, nodes)), total


def effects_op(op, t, out, ctx, t0=0):
    k = op[0]
    if k == "gate":
        out.append((t, "gate", None, op, ctx))
        return None
    if k == "t0":
        return effects_op(op[2], t + op[1], out, ctx)
    if k in ("sq", "ramp", "lsq", "lramp", "lstair"):
        tc = clears_at(op)
        if tc is not None:
            out.append((t + tc, "clear", op[1], op, ctx))
    if k in ("sq", "lsq"):
        out.append((t, "wave", op[1], w_square(op[2], op[3]), ctx))
    elif k in ("ramp", "lramp"):
        out.append((t, "wave", op[1], w_ramp(op[2], op[3], op[4] if len(op) > 4 else 0.0), ctx))
    elif k in ("stair", "lstair"):
        out.append((t, "wave", op[1], w_stair(op[2], op[3], op[4], op[5]), ctx))
    elif k == "num":
        out.append((t, "wave", op[1], np.array(op[2], dtype=complex), ctx))
    elif k == "drag":
        out.append((t, "wave", op[1], w_drag(op[2], op[3], op[4], op[5]), ctx))
    elif k == "gauss":
        out.append((t, "wave", op[1], w_drag(op[2], op[3], 0.0, op[4]), ctx))
    elif k == "wf":
        out.append((t, "wave", op[1], wf(op), ctx))
    elif k == "st":
        out.append((t + op[2], "wave", op[1], w_stitch(op), ctx))
    elif k == "off":
        out.append((t, "off", op[1], complex(op[2], op[3]), ctx))
    elif k == "phase":
        out.append((t, "phase", op[1], op[2], ctx))
    elif k == "reset":
        out.append((t, "reset", op[1], None, ctx))
    elif k == "stamp":
        out.append((t, "stamp", op[1], None, ctx))
    elif k == "freq":
        out.append((t, "freq", op[1], op[2], ctx))
    elif k == "mark":
        out.append((t, "mark", op[1], op[2], ctx))
    elif k == "rfsw":
        out.append((t, "rfsw", op[1], op[2], ctx))
    elif k == "asm":
        for dt, kind, payload in BLOCKS[op[2]]["effects"]:
            out.append((t + dt, kind, pc(op[1])[1] if kind == "phase" else op[1], payload, ctx))
    elif k == "acq":
        out.append((t, "acq", op[2], op, ctx))
    elif k == "multi":
        for o in op[1:]:
            effects_op(o, t, out, ctx)
    elif k != "idle":
        raise AssertionError(op)


def flatten(items, t=0, out=None, ctx=()):
    """Timed effects; ctx is a tuple of ("loop", path, i, n) / ("cond", path, qubit)."""
    if out is None:
        out = []
    lay, _ = layout(items)
    for idx, (st, node) in enumerate(lay):
        if abs(st - round(st)) > 1e-9:
            raise RefError("off grid")
        flatten_node(node, t + round(st), out, ctx, idx)
    return out


def flatten_node(node, t, out, ctx, idx):
    k = node[0]
    if k == "sub":
        flatten(node[1], t, out, ctx + (("sub", idx),))
    elif k == "loop":
        d = layout(node[2])[1]
        out.append((t, "bound", None, None, ctx))
        for i in range(node[1]):
            flatten(node[2], t + i * d, out, ctx + (("loop", idx, i, node[1]),))
            out.append((t + (i + 1) * d, "bound", None, None, ctx))
    elif k == "cond":
        out.append((t, "bound", None, None, ctx))
        flatten(node[2], t, out, ctx + (("cond", idx, node[1]),))
        out.append((t + layout(node[2])[1], "bound", None, None, ctx))
    elif k == "comp":
        flatten(node[3], t, out, ctx + (("comp", idx),))
        for line, st, d, a in comp_pulses(node):
            out.append((t + st, "wave", line, w_square(d, a), ctx + (("comp+", idx),)))
    else:
        effects_op(node, t, out, ctx + (("op", idx),))
