"""C24: distortion corrections filter each pulse as configured and nothing else."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import warnings
import numpy as np
from lib import q1, ref, rig, rigs, sigcheck  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of programs and correction settings; the emitted programs are executed by a Q1ASM "
             "interpreter and compared per nanosecond with the scheduled pulses filtered one by one with plain loops")
NOTE = ("Software corrections: every sequence of up to two (thorough: three) operations from a set of pulse shapes, lengths, multi-pulse "
        "operations, acquisitions, loops, sub-schedules, conditionals and shared operations, for eight filters with clipping on a "
        "real, a complex, a modulated or several outputs; every pulse duration 1..99 ns. Hardware corrections: every combination "
        "of channel kinds, corrected outputs, delay compensation and marker options of a QCM, boundary coefficients. Pulses that "
        "overlap on a corrected output are not included.")

F = "scipy.signal.lfilter"
FIR = [1.2, -.3, .15]


def lfilter(x, b, a):
    """Direct form of the difference equation, in plain loops."""
    y = []
    for n in range(len(x)):
        v = sum(b[k] * x[n - k] for k in range(len(b)) if n >= k)
        v -= sum(a[k] * y[n - k] for k in range(1, len(a)) if n >= k)
        y.append(v / a[0])
    return np.array(y, dtype=complex)


def lf(b, a=(1,), clip=None, arrays=False):
    kw = {"b": np.array(b) if arrays else list(b), "a": np.array(a) if arrays else list(a)}
    cfg = {"filter_func": F, "input_var_name": "x", "kwargs": kw}
    if clip:
        cfg["clipping_values"] = list(clip)
    return cfg, lambda x: lfilter(x, b, a), clip


FILTERS = {
    "same": lf([1.0]), "fir": lf(FIR), "delay": lf([0, 0, 1.0]), "iir": lf([1.0, .2], [1.0, -.4]),
    "clip": lf([2.0], clip=(-.3, .45)), "arrays": lf(FIR, arrays=True, clip=(-.5, .5)),
    "sum": ({"filter_func": "numpy.cumsum", "input_var_name": "a", "kwargs": {}, "clipping_values": [-.75, .75]},
            lambda x: np.array([sum(x[:i + 1]) for i in range(len(x))], dtype=complex), (-.75, .75)),
    "flip": ({"filter_func": "numpy.flip", "input_var_name": "m", "kwargs": {}}, lambda x: np.array(list(x)[::-1], dtype=complex), None),
}


def corrected(x, name):
    _, fn, clip = FILTERS[name]
    y = fn(x)
    if clip:
        y = np.array([min(max(v.real, clip[0]), clip[1]) + 1j * min(max(v.imag, clip[0]), clip[1]) if np.iscomplexobj(x) and
                      np.any(np.imag(x)) else min(max(v.real, clip[0]), clip[1]) for v in y], dtype=complex)
    return y


_RIGS = {}


def rig_of(conf):
    """conf: ((line, filter), ...)"""
    if conf not in _RIGS:
        r = rigs.acq_rig(options={"distortion_corrections": {}})
        r.hw["hardware_options"]["distortion_corrections"] = {
            f"{r.lines[line][0]}-{r.lines[line][1]}": FILTERS[f][0] for line, f in conf}
        _RIGS[conf] = r
    return _RIGS[conf]


def shared_build(items, **kw):
    """Equal operations are one object everywhere."""
    memo = {}
    orig = ref.build_op
    depth = [0]

    def build_op(op, t0=0):
        if op[0] == "multi":  # changes its parts
            depth[0] += 1
            r = orig(op, t0) if depth[0] > 1 or (repr(op), t0) not in memo else memo[repr(op), t0]
            depth[0] -= 1
            if not depth[0]:
                memo[repr(op), t0] = r
            return r
        if depth[0]:
            return orig(op, t0)
        k = (repr(op), t0)
        if k not in memo:
            memo[k] = orig(op, t0)
        return memo[k]
    ref.build_op, ref.MEMO = build_op, {}
    try:
        return ref.build(items, **kw)
    finally:
        ref.build_op, ref.MEMO = orig, None


def acqs(settings):
    return [(e[0],) + tuple(e[1:]) for e in rig.execute(settings, cond=lambda k, m, op, t: op == 0).tr.events if e[1].startswith("acq")]


def code(seq):
    return [ln.split("#")[0].split() for ln in seq["program"].splitlines()]


def long_(e):
    """Pulses the compiler realises with voltage offsets are not corrected (documented, with a warning)."""
    return len(e[3]) >= 100 and np.all(e[3] == e[3][0])


def run(case):
    conf, items, reps, share = case
    items = list(items)
    rg = rig_of(conf)
    rg.use()
    cm = dict(conf)
    eff, warn = [], False
    # operations with voltage offsets
    has_off = {e[4] for e in ref.flatten(items) if e[1] == "off" or e[1] == "wave" and long_(e)}
    for e in ref.flatten(items):
        if e[1] == "wave" and e[2] in cm and np.any(e[3] != 0):
            if e[4] in has_off:
                warn = True
            else:
                e = (*e[:3], corrected(e[3], cm[e[2]]), *e[4:])
        elif e[1] == "off" and e[2] in cm:
            warn = True
        eff.append(e)
    T = ref.layout(items)[1]
    build = shared_build if share else ref.build
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        try:
            comp = rg.compile(build(items, repetitions=reps, clocks=rg.clocks))
        except Exception as e:
            plain = rig_of(())
            plain.use()
            try:
                plain.compile(build(items, repetitions=reps, clocks=rg.clocks))
            except Exception:
                return R("refused:also without correction")
            raise Violation("correction-refused", f"{type(e).__name__}: {e}") from None
    warned = any(issubclass(w.category, RuntimeWarning) and "distortion" in str(w.message) for w in log)
    if warned != warn:
        raise Violation("warning", f"warned: {warned}, expected: {warn}")
    try:
        r = sigcheck.compare(rg, comp, eff, T, reps, cond=lambda k, m, op, t: op == 0)
    except Violation as v:
        if v.args[0] == "long-pulse-drops-voltage-offset":  # C02's finding
            return R("refused:long pulse after an offset")
        raise
    # acquisitions are those of the schedule without corrections
    plain = rig_of(())
    other = plain.compile(build(items, repetitions=reps, clocks=rg.clocks))
    a, b = rg.sequencers(comp), plain.sequencers(other)
    if set(a) != set(b):
        raise Violation("other-outputs", f"{sorted(a)} instead of {sorted(b)}")
    for line in a:
        x, y = acqs(a[line][0][2]), acqs(b[line][0][2])
        if x != y:
            raise Violation("acquisitions-differ", f"{line}: {x} instead of {y}")
        sa, sb = a[line][0][2].sequence, b[line][0][2].sequence
        if any(sa.get(k) != sb.get(k) for k in ("acquisitions", "weights")):
            raise Violation("acquisitions-differ", f"{line}: declarations")
        if line not in cm and [code(sa), sa["waveforms"]] != [code(sb), sb["waveforms"]]:
            raise Violation("other-output-changed", line)
    return r


# ------------------------------------------------------------------ spaces

def shapes(line):
    z = line != "fl"
    out = [("sq", line, 20, .3), ("ramp", line, 16, .4, -.1), ("num", line, (.1, -.2, .3, .2, .05, .4)), ("stair", line, 24, -.2, .4, 4)]
    if z:
        out += [("drag", line, 20, .3, .1, 30.0)]
    else:
        out += [("gauss", line, 20, .3, 0.0)]
    return out


def atoms(line):
    s = shapes(line)
    other = "f2" if False else ("iq" if line == "fl" else "fl")
    acq = ("acq", "ssb", "res", 100, 0, None, "APPEND", None)
    i4 = ("idle", 4)
    out = s + [
        ("sq", line, 120, .3), ("off", line, .2, 0.0), ("sq", other, 20, -.4),
        ("multi", s[1], ("t0", 20, s[2])), ("multi", ("sq", other, 20, .1), s[1]), ("multi", s[1], ("sq", other, 40, .1)),
        ("multi", s[1], ("t0", 24, ("sq", line, 120, .25))),
        ("multi", acq, s[1]), ("loop", 3, [s[1], i4]), ("loop", 2, [s[1]]), ("sub", [s[1], i4, s[0]]), ("sub", [s[1]]),
        ("loop", 2, [("sub", [s[1], s[2]]), ("loop", 2, [s[3], i4])]), ("phase", "q.01", 30.0), ("loop", 2, [("multi", s[1], ("sq", other, 40, .1)), i4])]
    return out


def long_end(seq):
    return tuple(seq) + (("idle", 320),)


def cases():
    out = []
    for line in ("fl", "iq", "mw", "bb"):
        at = atoms(line)
        for f in FILTERS:
            conf = ((line, f),)
            for a in at:
                for reps in (1, 2):
                    out.append((conf, long_end((a,)), reps, False))
            if f in ("fir", "clip", "same") or THOROUGH:
                for a, b in itertools.product(at, repeat=2):
                    if f != "fir" and not THOROUGH and at.index(a) > 5 and at.index(b) > 5:
                        continue
                    if repr(a).count("'acq'") + repr(b).count("'acq'") > 1:
                        out.append((conf, long_end((a, ("idle", 400), b)), 1, False))
                    else:
                        out.append((conf, long_end((a, b)), 1, False))
                    out.append((conf, long_end((a, ("idle", 300), b, ("idle", 300), a)), 2, True)) if f == "fir" else None
        if THOROUGH:
            for t in itertools.product(at[:3] + at[6:], repeat=3):
                out.append((((line, "fir"),), tuple(y for x in t for y in (x, ("idle", 300))), 1, True))
    # several corrected outputs, each its own filter
    for f1, f2, f3 in itertools.product(("fir", "clip", "flip", "iir"), repeat=3):
        conf = (("fl", f1), ("iq", f2), ("mw", f3))
        s = [("ramp", l, 16, .4, -.1) for l in ("fl", "iq", "mw", "bb")]
        out.append((conf, long_end(s), 2, False))
        out.append((conf, long_end(s[:1] + [(x, {"ref": 0, "pt": "start"}) for x in s[1:]]), 1, False))
        out.append((conf, long_end([("multi", *s)]), 1, False))
        out.append((conf, long_end([("multi", *s[::-1])]), 1, False))
        out.append((conf, long_end([("sub", s), ("loop", 2, s[::-1])]), 1, True))
    # shared operations
    for line, f in itertools.product(("fl", "iq"), ("fir", "sum", "clip")):
        for x in shapes(line) + [("multi", ("sq", "mw", 20, .1), shapes(line)[1]), ("multi", shapes(line)[1], ("sq", "mw", 20, .1))]:
            i4 = ("idle", 8)
            for its in ([("sub", [x, i4]), ("sub", [x])], [x, ("sub", [x])], [("sub", [x]), x], [("loop", 2, [x]), x], [x, ("loop", 2, [x, i4])],
                        [("loop", 2, [x]), ("loop", 3, [x])], [("sub", [x, i4]), ("loop", 2, [("sub", [x, i4])])],
                        [("sub", [("sub", [x, i4]), i4]), ("sub", [x, i4])], [("sub", [x, i4]), ("loop", 2, [("sub", [x])]), x], [x, i4, x, x]):
                out.append((((line, f),), long_end(its), 1, True))
                out.append((((line, f),), long_end(its), 2, False))
    # every duration
    for d in range(1, 100):
        for line in ("fl", "iq"):
            for f in ("same", "fir", "flip") if not THOROUGH else FILTERS:
                for x in (("ramp", line, d, .4, -.1), ("sq", line, d, .3)):
                    out.append((((line, f),), long_end([x]), 1, False))
                    out.append((((line, f),), long_end([("t0", 4, x), x]), 1, False))
    # inside a conditional
    H = {"hardware_buffer_time": 4e-9}
    m = ("acq", "thr", "res", 100, 0, None, "APPEND", {"feedback_trigger_label": "q", "acq_threshold": .5, "acq_rotation": 0})
    for line in ("fl", "iq", "mw"):
        for x in shapes(line):
            for f in FILTERS:
                out.append((((line, f),), (m, ("idle", 400), ("cond", "q", [x, ("idle", 8)], H), x, ("idle", 100)), 1, f in ("fir", "sum")))
    return out


# ------------------------------------------------------------------ hardware corrections

A = {"exp0_coeffs": [2000, -.1], "fir_coeffs": [1.025] + [.03, .02] * 15 + [0]}
B = {"exp1_coeffs": [6, -1], "exp2_coeffs": [1e6, .5], "exp3_coeffs": [100, .999]}
C = {"exp0_coeffs": [50, .1], "exp1_coeffs": [60, .2], "exp2_coeffs": [70, .3], "exp3_coeffs": [80, .4], "fir_coeffs": [-2.0] * 32}
HW = {"A": A, "B": B, "C": C, "E": {}}


def pair_options():
    out = [None, ("c", None)]
    out += [("c", (x, y)) for x, y in itertools.product("ABE", repeat=2)]
    out += [("r", (x, y)) for x, y in itertools.product((None, "", "A", "C"), repeat=2) if (x, y) != (None, None)]
    return out


def hw_config(p0, p1, flags, corr=True):
    """None: not connected; "": connected without correction."""
    graph, dcs, desc, want = [], {}, {"instrument_type": "QCM"}, {}
    for i, p in enumerate((p0, p1)):
        if p is None:
            continue
        kind, c = p
        if kind == "c":
            ch = f"complex_output_{i}"
            graph.append([f"cluster0.module1.{ch}", f"q{i}:c"])
            if c is not None:
                dcs[f"q{i}:c-cl0.baseband"] = [HW[x] for x in c]
                want.update({2 * i + k: HW[x] for k, x in enumerate(c)})
            desc[ch] = dict(flags[i])
            chans = [(ch, (2 * i, 2 * i + 1))]
        else:
            for k, x in enumerate(c):
                if x is None:
                    continue
                ch = f"real_output_{2 * i + k}"
                graph.append([f"cluster0.module1.{ch}", f"q{i}:r{k}"])
                if x:
                    dcs[f"q{i}:r{k}-cl0.baseband"] = HW[x]
                    want[2 * i + k] = HW[x]
                desc[ch] = dict(flags[i])
    hw = {"config_type": rig.CT,
          "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {"1": desc}}},
          "hardware_options": {"distortion_corrections": dcs} if dcs and corr else {}, "connectivity": {"graph": graph}}
    return hw, want


def ports_of(hw):
    return [g[1] for g in hw["connectivity"]["graph"]]


def compile_hw(hw, ports, order=0):
    from quantify_scheduler import Schedule
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
    from quantify_scheduler.operations.pulse_library import SquarePulse
    QuantumDevice.close_all()
    qd = QuantumDevice("dut")
    qd.hardware_config(hw)
    s = Schedule("s")
    for p in ports:
        s.add(SquarePulse(amp=.3, duration=20e-9, port=p, clock="cl0.baseband"))
    c = SerialCompiler("c").compile(s, qd.generate_compilation_config())
    qd.close()
    return c.compiled_instructions["cluster0"]["cluster0_module1"]


def hardware(case):
    p0, p1, flags = case
    hw, want = hw_config(p0, p1, flags)
    ports = ports_of(hw)
    try:
        m = compile_hw(hw, ports)
    except Exception as e:
        raise Violation("correction-refused", f"{type(e).__name__}: {e}") from None
    plain = compile_hw(hw_config(p0, p1, flags, corr=False)[0], ports)
    if {k: s.sequence for k, s in m["sequencers"].items()} != {k: s.sequence for k, s in plain["sequencers"].items()}:
        raise Violation("programs-changed", "by a hardware correction")
    got = m["settings"].distortion_corrections
    comp = {}
    for i, p in enumerate((p0, p1)):
        if p is None:
            continue
        outs = [2 * i + k for k in (0, 1) if p[0] == "c" or p[1][k] is not None]
        comp.update({o: flags[i] for o in outs})
    n = 0
    for o in range(4):
        fl = comp.get(o, {})
        mask = fl.get("distortion_correction_latency_compensation", 0)
        for j, name in enumerate(("exp0", "exp1", "exp2", "exp3", "fir")):
            f = getattr(got[o], name)
            c = want.get(o, {}).get(f"{name}_coeffs")
            delay = bool(mask & (2 << j))
            exp = "enabled" if c is not None else "delay_comp" if delay else "bypassed"
            n += 1
            if f.config.value != exp:
                raise Violation("filter-config", f"output {o} {name}: {f.config.value} instead of {exp}")
            if (None if f.coeffs is None else list(f.coeffs)) != (None if c is None else list(c)):
                raise Violation("filter-coefficients", f"output {o} {name}: {f.coeffs} instead of {c}")
            md = "bypassed"
            if fl.get("marker_debug_mode_enable") and (delay or c is not None):
                md = "delay_comp"
            if f.marker_delay.value != md:
                raise Violation("marker-delay", f"output {o} {name}: {f.marker_delay.value} instead of {md}")
    return R("ok", n, n, 1, distinct=str(case))


def hw_cases():
    FL = [{}, {"distortion_correction_latency_compensation": 2}, {"distortion_correction_latency_compensation": 62},
          {"distortion_correction_latency_compensation": 32 + 8, "marker_debug_mode_enable": True}, {"marker_debug_mode_enable": True}]
    out = []
    po = pair_options()
    for p0, p1 in itertools.product(po, repeat=2):
        if p0 is None and p1 is None:
            continue
        for f0, f1 in ([(FL[0], FL[0]), (FL[3], FL[1]), (FL[2], FL[4])] if not THOROUGH else itertools.product(FL, repeat=2)):
            out.append((p0, p1, (f0, f1)))
    return out


def latency(case):
    """The latency compensation of every channel of every module reaches exactly its own filters."""
    from quantify_scheduler import ClockResource, Schedule
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
    from quantify_scheduler.operations.pulse_library import IdlePulse, MarkerPulse, SquarePulse
    mod, chans, rev = case
    desc, graph = {"instrument_type": mod}, []
    s = Schedule("s")
    s.add_resource(ClockResource("c", 5e9))
    want, mark = {}, {}
    mf = {}
    for ch, mask in (reversed(chans) if rev else chans):
        port = "q:" + ch
        graph.append([f"cluster0.module1.{ch}", port])
        desc[ch] = {} if mask is None else {"distortion_correction_latency_compensation": mask}
        i = int(ch[-1])
        if ch.startswith("digital"):
            s.add(MarkerPulse(duration=40e-9, port=port))
            mark[i + (2 if mod.endswith("RF") else 0)] = mask or 0
        else:
            rf = mod.endswith("RF")
            s.add(SquarePulse(amp=.3, duration=20e-9, port=port, clock="c" if rf else "cl0.baseband"))
            if rf:
                mf[port + "-c"] = {"interm_freq": 50e6}
            for o in ((2 * i, 2 * i + 1) if ch.startswith("complex") else (i,)):
                want[o] = mask or 0
    s.add(IdlePulse(20e-9))
    QuantumDevice.close_all()
    qd = QuantumDevice("dut")
    qd.hardware_config({
        "config_type": rig.CT, "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {"1": desc}}},
        "hardware_options": {"modulation_frequencies": mf} if mf else {}, "connectivity": {"graph": graph}})
    try:
        m = SerialCompiler("c").compile(s, qd.generate_compilation_config()).compiled_instructions["cluster0"]["cluster0_module1"]
    except Exception as e:
        raise Violation("correction-refused", f"{type(e).__name__}: {e}") from None
    qd.close()
    got = m["settings"].distortion_corrections
    for o in range(4):
        for j, name in enumerate(("exp0", "exp1", "exp2", "exp3", "fir")):
            f = getattr(got[o], name)
            for what, value, masks in (("config", f.config.value, want), ("marker delay", f.marker_delay.value, mark)):
                exp = "delay_comp" if masks.get(o, 0) & (2 << j) else "bypassed"
                if value != exp:
                    raise Violation("latency-compensation", f"{mod} {chans}: {what} of output {o} {name}: {value} instead of {exp}")
    return R("ok", 20, 20, 1, distinct=str((mod, sorted(chans))))


def latency_cases():
    ch = {"QCM": ["complex_output_0", "complex_output_1", *(f"real_output_{i}" for i in range(4)), *(f"digital_output_{i}" for i in range(4))],
          "QRM": ["complex_output_0", "real_output_0", "real_output_1", *(f"digital_output_{i}" for i in range(4))],
          "QCM_RF": ["complex_output_0", "complex_output_1", "digital_output_0", "digital_output_1"],
          "QRM_RF": ["complex_output_0", "digital_output_0", "digital_output_1"]}
    out = []
    masks = (None, 2, 16, 32, 62, 40)
    for mod, names in ch.items():
        for a in names:
            out += [(mod, ((a, m),), False) for m in range(0, 64, 2)]
        for a, b in itertools.combinations(names, 2):
            ka, kb = ({(2 * int(x[-1]), 2 * int(x[-1]) + 1) if x[0] == "c" else (int(x[-1]),) for x in (y,)}.pop() for y in (a, b))
            if a[0] != "d" and b[0] != "d" and set(ka) & set(kb):
                continue        # the same physical output
            out += [(mod, ((a, x), (b, y)), r) for x in masks for y in masks for r in (False, True) if (x, y) != (None, None)]
    return out


def coefficients(case):
    key, value, ok = case
    hw, _ = hw_config(("r", ("A", None)), None, ({}, {}))
    hw["hardware_options"]["distortion_corrections"] = {"q0:r0-cl0.baseband": {key: value}}
    try:
        m = compile_hw(hw, ["q0:r0"])
    except Exception as e:
        if ok:
            raise Violation("correction-refused", f"{key}={value}: {type(e).__name__}: {e}") from None
        return R("refused:" + type(e).__name__)
    if not ok:
        raise Violation("bad-coefficients-accepted", f"{key}={value}")
    f = getattr(m["settings"].distortion_corrections[0], key[:-7])
    if list(f.coeffs) != list(value):
        raise Violation("filter-coefficients", f"{key}: {f.coeffs}")
    return R("ok")


def coeff_cases():
    out = []
    for i in range(4):
        k = f"exp{i}_coeffs"
        for t, a in itertools.product((-1, 0, 5.99, 6, 6.5, 1e9), (-1.01, -1, -.5, 0, .5, .999, 1, 1.5)):
            out.append((k, [t, a], t >= 6 and -1 <= a < 1))
        out += [(k, v, False) for v in ([], [6], [6, 0, 0], [10, .1, .2])]
    for n in (0, 1, 31, 32, 33):
        out.append(("fir_coeffs", [.5] * n, n == 32))
    for pos in (0, 1, 15, 31):
        for v in (-3, -2.001, -2, -1.5, 0, 1.5, 1.999, 2, 2.5):
            w = [.5] * 32
            w[pos] = v
            out.append(("fir_coeffs", w, -2 <= v < 2))
    return out


def clash(case):
    """Two port-clocks may not set corrections of one output; a channel needs as many as it has outputs."""
    kind, ch, dcs = case
    hw = {"config_type": rig.CT,
          "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {"1": {"instrument_type": "QCM"}}}},
          "hardware_options": {"distortion_corrections": dict(dcs)},
          "connectivity": {"graph": [[f"cluster0.module1.{ch}", "q0:c"], [f"cluster0.module1.{ch}", "q1:c"]]}}
    try:
        compile_hw(hw, ["q0:c", "q1:c"])
    except Exception as e:
        return R("refused:" + type(e).__name__)
    raise Violation("clash-accepted", str(case))


def clash_cases():
    out = []
    for i in (0, 1):
        ch = f"complex_output_{i}"
        out += [("two", ch, (("q0:c-cl0.baseband", [A, B]), ("q1:c-cl0.baseband", [x, y]))) for x, y in itertools.product((A, B), repeat=2)]
        out += [("one", ch, (("q0:c-cl0.baseband", A),))]
    for i in range(4):
        ch = f"real_output_{i}"
        out += [("two", ch, (("q0:c-cl0.baseband", A), ("q1:c-cl0.baseband", x))) for x in (A, B)]
        out += [("one", ch, (("q0:c-cl0.baseband", [A, B]),))]
    return out


def main():
    ck = Check("C24", rule=NOTE, assumptions=[
        "operations with voltage offsets, and square pulses of at least 100 ns which the compiler realises with them, are not corrected, with a warning",
        "the filter function returns as many samples as it is given"])
    ck.explore(run, cases(), label="software")
    ck.explore(hardware, hw_cases(), label="hardware")
    ck.explore(latency, latency_cases(), label="latency")
    ck.explore(coefficients, coeff_cases(), label="coefficients")
    ck.explore(clash, clash_cases(), label="clash")
    ck.finish(("software:ok", "hardware:ok", "latency:ok", "coefficients:ok"))


if __name__ == "__main__":
    main()
