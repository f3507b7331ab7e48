"""C29: the library schedules are the experiments their documentation describes."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import numpy as np
from checks import C14  # noqa: E402
from lib import gates  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of the arguments of every library schedule; each schedule is compiled to the device level and compared, event "
             "by event, with a timeline written from the documentation of the experiment")
NOTE = ("Every generator of schedules/ and verification.py, with all setpoint sequences up to length 3 (thorough 4) over small alphabets (scalars, duplicates, "
        "unsorted, integers), all options and number of repetitions; invalid arguments must be refused. Reference: timelines below, lib/gates.py for gates.")
CFG = {}


def cfg(kind="transmon"):
    if kind not in CFG:
        if kind == "nv":
            CFG[kind] = C14.other_device("nv").generate_compilation_config()
        else:
            CFG[kind] = gates.make_device().generate_compilation_config()
    return CFG[kind]


class TL:
    """A timeline in nanoseconds: every item follows the previous one unless placed with ``at``."""

    def __init__(self, G):
        self.G, self.t, self.ev, self.n = G, 0, [], {}
        self.last = 0

    def put(self, dur, events, at=None):
        s = self.t if at is None else at
        for e in events:
            if e[1] == "acq":
                d = dict(e[5])
                if d["acq_index"] is None:
                    d["acq_index"] = self.n.get(d["acq_channel"], 0)
                self.n[d["acq_channel"]] = d["acq_index"] + 1
                e = (*e[:5], d)
            self.ev.append((gates.r(s + e[0]), *e[1:]))
        self.last, self.t = s, gates.r(s + dur)
        return s

    def gate(self, name, *args, at=None, **kw):
        return self.put(*self.G.expand(name, args, tuple(sorted(kw.items()))), at=at)

    def square(self, port, clock, dur, amp, at=None):
        return self.put(dur, [(0, "square", port, clock, gates.r(dur), {"amp": amp})] if dur else [], at)

    def idle(self, d, at=None):
        return self.put(d, [], at)

    def acq(self, port, clock, dur, ch=0, at=None, proto="SSBIntegrationComplex", bm="average"):
        return self.put(dur, [(0, "acq", port, clock, gates.r(dur), dict(protocol=proto, acq_channel=ch, acq_index=None, coords=(),
                                                                         bin_mode=None if proto == "Trace" else bm))], at)

    def freq(self, clock, f):
        return self.put(0, [(0, "freq", clock, f)])


def numbered(events):
    """Implicit acquisition indices become the running number of the channel."""
    n, out = {}, []
    for e in events:
        if e[1] == "acq":
            d = dict(e[5])
            if d["acq_index"] is None:
                d["acq_index"] = n.get(d["acq_channel"], 0)
            n[d["acq_channel"]] = d["acq_index"] + 1
            e = (*e[:5], d)
        out.append(e)
    return out


def arr(x):
    return np.atleast_1d(np.asarray(x, dtype=float)).tolist()


ns = 1e-9


# --------------------------------------------------------------- the experiments
def rabi(T, a):
    q, amps, durs = a["qubit"], arr(a["pulse_amp"]), arr(a["pulse_duration"])
    n = max(len(amps), len(durs)) if len(amps) and len(durs) else 0
    amps, durs = (x * n if len(x) == 1 else x for x in (amps, durs))
    port, clock = a.get("port") or f"{q}:mw", a.get("clock") or f"{q}.01"
    for A, d in zip(amps, durs):
        T.gate("Reset", q)
        T.put(d / ns, [(0, "drag", port, clock, gates.r(d / ns), {"G_amp": A, "D_amp": 0, "phase": 0})])
        T.gate("Measure", q)
    return {clock: a["frequency"]}


def t1(T, a):
    for tau in arr(a["times"]):
        T.gate("Reset", a["qubit"])
        s = T.gate("X", a["qubit"])
        T.gate("Measure", a["qubit"], at=s + tau / ns)


def ramsey(T, a):
    for tau in arr(a["times"]):
        T.gate("Reset", a["qubit"])
        s = T.gate("X90", a["qubit"])
        T.gate("Rxy", 90, 360 * a.get("artificial_detuning", 0) * tau, a["qubit"], at=s + tau / ns)
        T.gate("Measure", a["qubit"])


def echo(T, a):
    for tau in arr(a["times"]):
        T.gate("Reset", a["qubit"])
        s = T.gate("X90", a["qubit"])
        s = T.gate("X", a["qubit"], at=s + tau / ns / 2)
        T.gate("X90", a["qubit"], at=s + tau / ns / 2)
        T.gate("Measure", a["qubit"])


def cpmg(T, a):
    n, q, v = a["n_gates"], a["qubit"], a.get("variant", "X")
    for tau in arr(a["times"]):
        T.gate("Reset", q)
        s = T.gate("X90", q)
        s += 4           # the loop starts 4 ns after the start of the first pulse
        for i in range(n):
            T.gate("Y" if v == "Y" or (v == "XY" and i % 2) else "X", q, at=s + (2 * i + 1) * tau / ns / (2 * n))
        T.gate("Rxy", 90, 360 * a.get("artificial_detuning", 0) * tau, q, at=s + tau / ns)
        T.gate("Measure", q)


ALLXY = ["II", "XX", "YY", "XY", "YX", "xI", "yI", "xy", "yx", "xY", "yX", "Xy", "Yx", "xX", "Xx", "yY", "Yy", "XI", "YI", "xx", "yy"]


def allxy(T, a):
    sel = a.get("element_select_idx", range(21))
    for i in [sel] if isinstance(sel, int) else sel:
        T.gate("Reset", a["qubit"])
        for k in ALLXY[i]:
            th, ph = {"I": (0, 0), "X": (180, 0), "x": (90, 0), "Y": (180, 90), "y": (90, 90)}[k]
            T.gate("Rxy", th, ph, a["qubit"])
        T.gate("Measure", a["qubit"])


def ro_cal(T, a):
    for p in a["prepared_states"]:
        T.gate("Reset", a["qubit"])
        if p:
            T.gate("Rxy", 180, 0, a["qubit"])
        T.gate("Measure", a["qubit"], bin_mode="append", acq_protocol=a.get("acq_protocol", "SSBIntegrationComplex"))


def rabi_pulse(T, a):
    T.idle(a["init_duration"] / ns)
    d = a["mw_pulse_duration"] / ns
    T.put(d, [(0, "drag", a["mw_port"], a["mw_clock"], gates.r(d), {"G_amp": a["mw_G_amp"], "D_amp": a["mw_D_amp"], "phase": 0})])
    readout(T, a)
    return {a["mw_clock"]: a["mw_frequency"], a["ro_pulse_clock"]: a["ro_pulse_frequency"]}


def readout(T, a, proto="SSBIntegrationComplex"):
    s = T.square(a["ro_pulse_port"], a["ro_pulse_clock"], a["ro_pulse_duration"] / ns, a["ro_pulse_amp"], at=T.t + a["ro_pulse_delay"] / ns)
    T.acq(a["ro_pulse_port"], a["ro_pulse_clock"], a["ro_integration_time"] / ns, at=s + a["ro_acquisition_delay"] / ns, proto=proto)


def heterodyne(T, a):
    fs = a["frequencies"] if "frequencies" in a else [a["frequency"]]
    for f in fs:
        T.idle(a.get("init_duration", 10e-6) / ns)
        if "frequencies" in a:
            T.freq(a["clock"], f)
        s = T.square(a.get("port_out") or a["port"], a["clock"], a["pulse_duration"] / ns, a["pulse_amp"])
        T.acq(a["port"], a["clock"], a["integration_time"] / ns, at=s + a["acquisition_delay"] / ns)
    return {a["clock"]: fs[0]}


def two_tone(T, a, pre="spec_pulse", proto="SSBIntegrationComplex"):
    many = f"{pre}_frequencies" in a
    fs = a[f"{pre}_frequencies"] if many else [a[f"{pre}_frequency"]]
    for f in fs:
        T.idle(a.get("init_duration", 10e-6 if proto[0] == "S" else 200e-6) / ns)
        if many:
            T.freq(a[f"{pre}_clock"], f)
        T.square(a[f"{pre}_port"], a[f"{pre}_clock"], a[f"{pre}_duration"] / ns, a[f"{pre}_amp"])
        readout(T, a, proto)
    return {a[f"{pre}_clock"]: fs[0], a["ro_pulse_clock"]: a["ro_pulse_frequency"]}


def two_tone_trace(T, a):
    return two_tone(T, a, "qubit_pulse", "Trace")


def trace(T, a):
    T.idle(a.get("init_duration", 200e-6) / ns)
    s = T.square(a["port"], a["clock"], a["pulse_duration"] / ns, a["pulse_amp"], at=T.t + a["pulse_delay"] / ns)
    T.acq(a["port"], a["clock"], a["integration_time"] / ns, at=s + a["acquisition_delay"] / ns, proto="Trace")
    return {a["clock"]: a["frequency"]}


def trace_circuit(T, a):
    T.gate("Measure", a["qubit_name"], acq_protocol="Trace")


def long_trace(T, a):
    A = complex(a["pulse_amp"])
    off = lambda x: (0, "offset", a["port"], a["clock"], 0, {"offset_path_I": x.real, "offset_path_Q": x.imag})  # noqa: E731
    s = T.put(0, [off(A)])
    s += a["acquisition_delay"] / ns
    step = (a["integration_time"] + a.get("pulse_delay", 0)) / ns
    for i in range(a["num_points"]):
        at = s + i * step + a.get("pulse_delay", 0) / ns
        T.put(0, [(0, "acq", a["port"], a["clock"], gates.r(a["integration_time"] / ns), dict(
            protocol="SSBIntegrationComplex", acq_channel=0, acq_index=a.get("acq_index", 0), coords=(), bin_mode="append"))], at)
    T.put(4, [off(0j)], at=s + a["num_points"] * step + 4)
    return {a["clock"]: a["frequency"]}


def acq_stairs(T, a):
    for A in arr(a["readout_pulse_amps"]):
        T.idle(a.get("init_duration", 1e-6) / ns)
        s = T.square(a["port"], a["clock"], a["readout_pulse_duration"] / ns, A)
        T.acq(a["port"], a["clock"], a["integration_time"] / ns, a.get("acq_channel", 0), at=s + a["acquisition_delay"] / ns)
    return {a["clock"]: a["readout_frequency"]}


def awg_stairs(T, a):
    for A in arr(a["pulse_amps"]):
        T.idle(a.get("init_duration", 1e-6) / ns)
        s = T.square(a["mw_port"], a["mw_clock"], a["pulse_duration"] / ns, A)
        T.acq(a["ro_port"], a["ro_clock"], a["integration_time"] / ns, a.get("acq_channel", 0), at=s + a["acquisition_delay"] / ns)
    return {a["mw_clock"]: a["readout_frequency"], a["ro_clock"]: a["readout_frequency"]}


def mux_stairs(T, a):
    T.idle(a.get("init_duration", 1e-6) / ns)
    amps = arr(a["pulse_amps"])
    for i, A in enumerate(amps):
        ref = T.t
        for ch, (B, clock) in enumerate(((A, a["ro_clock0"]), (amps[-1 - i], a["ro_clock1"]))):
            T.square(a["ro_port"], clock, a["pulse_duration"] / ns, B, at=ref)
            T.acq(a["ro_port"], clock, a["integration_time"] / ns, ch, at=ref + a["acquisition_delay"] / ns)
        T.t = gates.r(ref + a["pulse_duration"] / ns)
    return {a["ro_clock0"]: a["readout_frequency0"], a["ro_clock1"]: a["readout_frequency1"]}


def chevron(T, a):
    lo, hi = a["lf_qubit"], a["hf_qubit"]
    for A in arr(a["amplitudes"]):
        T.gate("Reset", lo, hi)
        s = T.gate("X", lo)
        T.gate("X", hi, at=s)
        T.square(a.get("flux_port") or f"{hi}:fl", "cl0.baseband", a["duration"] / ns, A)
        T.gate("Measure", lo, hi)


def esr(T, a):
    q = a["qubit"]
    T.gate("ChargeReset", q)
    T.gate("CRCount", q)
    for f in a.get("spec_frequencies", [None]):
        if f is not None:
            T.freq(a["spec_clock"], f)
        T.gate("Reset", q)
        T.gate("SpectroscopyOperation", q)
        T.gate("Measure", q)
        T.gate("CRCount", q)


EXP = {"rabi_sched": rabi, "t1_sched": t1, "ramsey_sched": ramsey, "echo_sched": echo, "cpmg_sched": cpmg, "allxy_sched": allxy,
       "readout_calibration_sched": ro_cal, "rabi_pulse_sched": rabi_pulse, "heterodyne_spec_sched": heterodyne,
       "heterodyne_spec_sched_nco": heterodyne, "two_tone_spec_sched": two_tone, "two_tone_spec_sched_nco": two_tone,
       "two_tone_trace_schedule": two_tone_trace, "trace_schedule": trace, "trace_schedule_circuit_layer": trace_circuit, "long_time_trace": long_trace,
       "acquisition_staircase_sched": acq_stairs, "awg_staircase_sched": awg_stairs, "multiplexing_staircase_sched": mux_stairs,
       "chevron_cz_sched": chevron, "nv_dark_esr_sched": esr, "nv_dark_esr_sched_nco": esr}


def function(name):
    from quantify_scheduler.schedules import spectroscopy_schedules as a, timedomain_schedules as b, trace_schedules as c, two_qubit_transmon_schedules as d, verification as e
    for m in (a, b, c, d, e):
        if hasattr(m, name):
            return getattr(m, name)
    raise AssertionError(name)


def thaw(x):
    if isinstance(x, tuple) and x and x[0] == "arr":
        return np.array(x[1], dtype=x[2] if len(x) > 2 else float)
    return x


def call(name, args):
    return function(name)(**{k: thaw(v) for k, v in args})


def run(case):
    from quantify_scheduler.backends import SerialCompiler
    name, args = case
    kind = "nv" if name.startswith("nv_") else "transmon"
    G = C14.NVRef() if kind == "nv" else gates.GateRef()
    a = {k: (v[1] if isinstance(v, tuple) and v and v[0] == "arr" else v) for k, v in args}
    T = TL(G)
    clocks = EXP[name](T, a) or {}
    try:
        s = call(name, args)
        comp = SerialCompiler("c").compile(s, cfg(kind))
    except Exception as e:
        raise Violation("rejects-valid", f"{name}({dict(args)}): {type(e).__name__}: {e}") from None
    got = C14.nv_tree(comp) if kind == "nv" else gates.tree(comp)
    got, gph = gates.resolve(numbered(got))
    want, wph = gates.resolve(T.ev)
    d = gates.diff(got, want)
    if d:
        raise Violation("different-experiment", f"{name}({dict(args)}): {d}")
    if s.repetitions != a.get("repetitions", 1) or comp.repetitions != s.repetitions:
        raise Violation("repetitions", f"{name}({dict(args)}): {s.repetitions}, {comp.repetitions}")
    for c, f in clocks.items():
        x = comp.resources.get(c)
        if x is None or abs(x["freq"] - f) > 1e-6:
            raise Violation("frequency", f"{name}({dict(args)}): {c} at {x and x['freq']} instead of {f}")
    return R("ok", len(got) + 1, len(want) + 1, 1, (name, tuple(map(str, got))))


def run_bad(case):
    name, args, errors = case
    try:
        s = call(name, args)
    except Exception as e:
        if type(e).__name__ in errors:
            return R("refused", distinct=str(case))
        raise Violation("wrong-error", f"{name}({dict(args)}): {type(e).__name__}: {e}") from None
    raise Violation("accepts-invalid", f"{name}({dict(args)}): {len(s.schedulables)} operations")


def D(**kw):
    return tuple(kw.items())


def seqs(al, n):
    return [s for k in range(1, n + 1) for s in itertools.product(al, repeat=k)]


def cases():
    n = 4 if THOROUGH else 3
    c = []
    reps = (1, 2, 1000)
    A = lambda s, *t: ("arr", tuple(s), *t)  # noqa: E731
    taus = [200e-9, 1000e-9, 204e-9, 40e-9]
    sets = [A(s) for s in seqs(taus, n)] + [200e-9, np.float64(1e-6)]
    for q in ("q0", "q1", "q2"):
        for s in sets:
            c.append(("t1_sched", D(times=s, qubit=q)))
            for det in (0, 1e6, -3.3e5) if q != "q2" else (0.25e9,):
                c.append(("ramsey_sched", D(times=s, qubit=q, artificial_detuning=det)))
            c.append(("echo_sched", D(times=s, qubit=q)))
        c.append(("ramsey_sched", D(times=A(taus), qubit=q)))
        for r in reps:
            for f in ("t1_sched", "echo_sched", "ramsey_sched"):
                c.append((f, D(times=A((400e-9, 200e-9)), qubit=q, repetitions=r)))
            for s in seqs(range(21), 2 if q == "q0" else 1):
                c.append(("allxy_sched", D(qubit=q, element_select_idx=s, repetitions=r)))
            for i in range(21):
                c.append(("allxy_sched", D(qubit=q, element_select_idx=i, repetitions=r)))
            c.append(("allxy_sched", D(qubit=q, repetitions=r)))
            for s in seqs((0, 1), n + 1):
                for p in (None, "SSBIntegrationComplex", "ThresholdedAcquisition"):
                    c.append(("readout_calibration_sched", D(qubit=q, prepared_states=list(s), repetitions=r, **({"acq_protocol": p} if p else {}))))
    # cpmg: every interval must be longer than the pulses (28 ns) and on the grid
    for q in ("q0", "q2"):
        for ng in (1, 2, 4, 8, 16):
            for v in ("X", "Y", "XY", None):
                if v == "XY" and ng == 1:
                    continue
                for s in seqs((32e-9 * ng * 2, 40e-9 * ng * 2, 100e-9 * ng * 2), 2 if ng > 4 else 3):
                    for det in (0, 1e6) if len(s) < 3 else (-4e5,):
                        c.append(("cpmg_sched", D(n_gates=ng, times=A(s), qubit=q, artificial_detuning=det, **({"variant": v} if v else {}))))
                c.append(("cpmg_sched", D(n_gates=ng, times=80e-9 * ng, qubit=q, repetitions=7, **({"variant": v} if v else {}))))
    # rabi
    amps, durs = (.1, -.2, .3, 0.), (20e-9, 40e-9, 400e-9)
    pc = [{}, {"port": "q0:fl", "clock": "q0.12"}, {"clock": "my.clock"}, {"port": "elsewhere"}]
    for q in ("q0", "q1"):
        for o in pc:
            for s in seqs(amps, n - 1):
                c.append(("rabi_sched", D(pulse_amp=A(s), pulse_duration=20e-9, frequency=4.5e9, qubit=q, **o)))
                c.append(("rabi_sched", D(pulse_amp=A(s), pulse_duration=A((40e-9,)), frequency=4.5e9, qubit=q, **o)))
                for t in itertools.product(durs, repeat=len(s)):
                    c.append(("rabi_sched", D(pulse_amp=A(s), pulse_duration=A(t), frequency=4.6e9, qubit=q, repetitions=len(s), **o)))
            for t in seqs(durs, n):
                c.append(("rabi_sched", D(pulse_amp=.25, pulse_duration=A(t), frequency=4.5e9, qubit=q, **o)))
            c.append(("rabi_sched", D(pulse_amp=.25, pulse_duration=20e-9, frequency=4.5e9, qubit=q, **o)))
    # pulse level; every parameter differs from every other, then every combination of two values
    two = lambda **kw: [dict(zip(kw, v)) for v in itertools.product(*kw.values())]  # noqa: E731
    ro = two(ro_pulse_amp=(.31, -.3), ro_pulse_duration=(300e-9, 1e-6), ro_pulse_delay=(0, 40e-9), ro_pulse_port=("q0:res",), ro_pulse_clock=("q0.ro", "x.ro"),
             ro_pulse_frequency=(7.1e9,), ro_acquisition_delay=(0, 120e-9), ro_integration_time=(1e-6,), init_duration=(0, 10e-6, None), repetitions=(1, 3))
    tone = dict(spec_pulse_amp=.2, spec_pulse_duration=60e-9, spec_pulse_port="q0:mw", spec_pulse_clock="q0.01")
    for o in ro:
        o1 = {k: v for k, v in o.items() if v is not None}
        for m in two(mw_G_amp=(.2,), mw_D_amp=(.05, 0), mw_frequency=(5.2e9,), mw_clock=("q0.01", "x.mw"), mw_port=("q0:mw",), mw_pulse_duration=(20e-9, 400e-9)):
            if o["init_duration"] is not None:
                c.append(("rabi_pulse_sched", D(**m, **o1)))
        for pre, f in (("spec_pulse", "two_tone_spec_sched"), ("qubit_pulse", "two_tone_trace_schedule")):
            for m in two(**{f"{pre}_amp": (.2,), f"{pre}_duration": (60e-9, 8e-6), f"{pre}_port": ("q0:mw", "q0:fl"), f"{pre}_clock": ("q0.01",), f"{pre}_frequency": (5.2e9, 4.9e9)}):
                c.append((f, D(**m, **o1)))
        if o["init_duration"] is not None:
            for fs in seqs((5e9, 5.1e9, 4.9e9 + .5), 2):
                c.append(("two_tone_spec_sched_nco", D(**tone, **o1, spec_pulse_frequencies=A(fs))))
    for fs in seqs((5e9, 5.1e9, 4.9e9 + .5, 5e9 + 1), n):
        c.append(("two_tone_spec_sched_nco", D(**tone, **o1 | {"init_duration": 1e-6}, spec_pulse_frequencies=A(fs))))
    het = two(pulse_amp=(.31,), pulse_duration=(300e-9, 1e-6), acquisition_delay=(0, 120e-9), integration_time=(1e-6, 1.2e-6), port=("q0:res",), clock=("q0.ro", "x.ro"),
              init_duration=(0, 1e-6, None), repetitions=(1, 5), port_out=(None, "q0:fl"))
    for o in het:
        o = {k: v for k, v in o.items() if v is not None}
        for f in (7e9, 6.9e9):
            c.append(("heterodyne_spec_sched", D(**o, frequency=f)))
        for fs in seqs((7e9, 7.1e9, 6.9e9 + .5), 2):
            c.append(("heterodyne_spec_sched_nco", D(**o, frequencies=A(fs))))
        o2 = {k: v for k, v in o.items() if k != "port_out"}
        for pd in (0, 200e-9):
            c.append(("trace_schedule", D(**o2, pulse_delay=pd, frequency=7.2e9)))
        for ch in (None, 0, 3, "ch"):
            b = dict(readout_pulse_duration=o["pulse_duration"], readout_frequency=7.2e9, **{k: v for k, v in o2.items() if k not in ("pulse_duration", "pulse_amp")})
            b.update({"acq_channel": ch} if ch is not None else {})
            for s in seqs((.1, .2, -.3), 2) + [.4]:
                c.append(("acquisition_staircase_sched", D(**b, readout_pulse_amps=s if isinstance(s, float) else A(s))))
            b = {k: v for k, v in b.items() if k not in ("port", "clock", "readout_pulse_duration")}
            for s in seqs((.1, .2, -.3), 2) + [.4]:
                c.append(("awg_staircase_sched", D(**b, pulse_duration=o["pulse_duration"], mw_port="q0:mw", ro_port="q0:res", mw_clock="q0.01", ro_clock="q0.ro",
                                                   pulse_amps=s if isinstance(s, float) else A(s))))
    for fs in seqs((7e9, 7.1e9, 6.9e9 + .5, 7e9 + 1), n):
        c.append(("heterodyne_spec_sched_nco", D(**o | {"init_duration": 1e-6}, frequencies=A(fs))))
    for s in seqs((.1, .2, -.3), n) + [.4]:
        for d, ad, it, r in itertools.product((300e-9, 1e-6), (0, 120e-9), (200e-9, 1e-6), (1, 4)):
            c.append(("multiplexing_staircase_sched", D(pulse_amps=s if isinstance(s, float) else A(s), pulse_duration=d, acquisition_delay=ad, integration_time=it,
                                                        ro_port="q0:res", ro_clock0="q0.ro", ro_clock1="q1.ro", readout_frequency0=7.3e9, readout_frequency1=7.4e9, repetitions=r)))
    for q in ("q0", "q1", "q2"):
        for r in reps:
            c.append(("trace_schedule_circuit_layer", D(qubit_name=q, repetitions=r)))
    for p, ad, it, k, pd, i, r in itertools.product((.2, .1 + .2j), (0, 4e-9, 200e-9), (300e-9, 1e-6), (1, 2, 5), (0, 20e-9), (0, 3), (1, 2)):
        c.append(("long_time_trace", D(pulse_amp=p, frequency=7.2e9, acquisition_delay=ad, integration_time=it, port="q0:res", clock="q0.ro", num_points=k,
                                       pulse_delay=pd, acq_index=i, repetitions=r)))
    for lo, hi in itertools.permutations(("q0", "q1", "q2"), 2):
        for s in seqs((.1, .2, -.3), n) + [.4]:
            for d, fp, r in itertools.product((20e-9, 300e-9), (None, "other"), (1, 6)):
                c.append(("chevron_cz_sched", D(lf_qubit=lo, hf_qubit=hi, amplitudes=s if isinstance(s, float) else A(s), duration=d, flux_port=fp, repetitions=r)))
    for q in ("n0", "n1"):
        for r in reps:
            c.append(("nv_dark_esr_sched", D(qubit=q, repetitions=r)))
        for fs in seqs((2.87e9, 2.88e9, 2.87e9 + 10), n):
            c.append(("nv_dark_esr_sched_nco", D(qubit=q, spec_clock=f"{q}.spec", spec_frequencies=A(fs), repetitions=len(fs))))
    return c


def bad_cases():
    A = lambda s, *t: ("arr", tuple(s), *t)  # noqa: E731
    c = []
    for i in (-1, 21, 22, 100, (0, 21), (-1,), (3, 40)):
        c.append(("allxy_sched", D(qubit="q0", element_select_idx=i), ("ValueError",)))
    for s in ([2], [0, 2]):
        c.append(("readout_calibration_sched", D(qubit="q0", prepared_states=s), ("NotImplementedError",)))
    for s in ([3], [-1], [0, 5]):
        c.append(("readout_calibration_sched", D(qubit="q0", prepared_states=s), ("ValueError",)))
    for k in (3, 5, 6, 7, 12):
        c.append(("cpmg_sched", D(n_gates=k, times=1e-6, qubit="q0"), ("ValueError",)))
    for v in ("Z", "YX", "", "x"):
        c.append(("cpmg_sched", D(n_gates=2, times=1e-6, qubit="q0", variant=v), ("ValueError",)))
    c.append(("cpmg_sched", D(n_gates=1, times=1e-6, qubit="q0", variant="XY"), ("ValueError",)))
    for x, y in itertools.permutations((2, 3, 4), 2):
        c.append(("rabi_sched", D(pulse_amp=A([.1] * x), pulse_duration=A([20e-9] * y), frequency=5e9, qubit="q0"), ("ValueError",)))
    return c


def main():
    ck = Check("C29", rule=NOTE, assumptions=["the acquisition of a point ends after its readout pulse", "intervals of CPMG longer than the pulses",
                                              "CPMG: 4 ns between the start of the first pulse and the start of the loop, as its code documents"])
    ck.explore(run, cases(), label="experiments")
    ck.explore(run_bad, bad_cases(), label="invalid")
    ck.finish(("experiments:ok", "invalid:refused"))


if __name__ == "__main__":
    main()
