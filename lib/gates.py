"""Gate-level reference: what the parameters of the device prescribe for every gate.

``GateRef(params).expand(gate)`` gives (duration ns, events); events are tuples
(t ns, kind, ...) normalised the same way as the pulses of a compiled schedule
(``tree``). Nothing here calls the pulse or measurement factories.
"""
from __future__ import annotations

import copy

import numpy as np

# element -> parameters; all values differ, so a mix-up shows
ELEMENTS = {
    "q0": dict(amp180=.31, motzoi=.11, rxy_dur=20, f01=5.0e9, f12=4.7e9, ro=7.0e9, reset=200, pulse_amp=.21, pulse_dur=100,
               acq_delay=40, integ=300, chan=0, reset_phase=True, rot=10., thr=.1, mw="q0:mw", fl="q0:fl", res="q0:res"),
    "q1": dict(amp180=.42, motzoi=-.12, rxy_dur=24, f01=5.1e9, f12=4.8e9, ro=7.1e9, reset=240, pulse_amp=.22, pulse_dur=480,
               acq_delay=60, integ=400, chan=1, reset_phase=False, rot=20., thr=.2, mw="q1:mw", fl="q1:fl", res="q1:res"),
    "q2": dict(amp180=.53, motzoi=.13, rxy_dur=28, f01=5.2e9, f12=4.9e9, ro=7.2e9, reset=160, pulse_amp=.23, pulse_dur=200,
               acq_delay=0, integ=100, chan=2, reset_phase=True, rot=30., thr=.3, mw="drive2", fl="flux2", res="feed"),
}
EDGES = {
    ("q0", "q1"): dict(amp=.5, dur=40, ph={"q0": 44., "q1": 63.}),
    ("q2", "q1"): dict(amp=.6, dur=48, ph={"q2": -31., "q1": 27.}),
}


def make_device(elements=None, edges=None, name="qd", strategy=None):
    from quantify_scheduler.device_under_test.composite_square_edge import CompositeSquareEdge
    from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
    from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
    from qcodes.instrument import Instrument
    Instrument.close_all()
    qd = QuantumDevice(name)
    for n, p in (elements or ELEMENTS).items():
        e = BasicTransmonElement(n)
        set_params(e, p)
        qd.add_element(e)
    for (a, b), p in (EDGES if edges is None else edges).items():
        ed = CompositeSquareEdge(parent_element_name=a, child_element_name=b)
        set_edge(ed, a, b, p)
        qd.add_edge(ed)
    if strategy:
        qd.scheduling_strategy(strategy)
    return qd


def set_params(e, p):
    e.rxy.amp180(p["amp180"])
    e.rxy.motzoi(p["motzoi"])
    e.rxy.duration(p["rxy_dur"] * 1e-9)
    e.clock_freqs.f01(p["f01"])
    e.clock_freqs.f12(p["f12"])
    e.clock_freqs.readout(p["ro"])
    e.reset.duration(p["reset"] * 1e-9)
    e.measure.pulse_amp(p["pulse_amp"])
    e.measure.pulse_duration(p["pulse_dur"] * 1e-9)
    e.measure.acq_delay(p["acq_delay"] * 1e-9)
    e.measure.integration_time(p["integ"] * 1e-9)
    e.measure.acq_channel(p["chan"])
    e.measure.reset_clock_phase(p["reset_phase"])
    e.measure.acq_rotation(p["rot"])
    e.measure.acq_threshold(p["thr"])
    e.ports.microwave(p["mw"])
    e.ports.flux(p["fl"])
    e.ports.readout(p["res"])


def set_edge(ed, a, b, p):
    ed.cz.square_amp(p["amp"])
    ed.cz.square_duration(p["dur"] * 1e-9)
    getattr(ed.cz, f"{a}_phase_correction")(p["ph"][a])
    getattr(ed.cz, f"{b}_phase_correction")(p["ph"][b])


def wrap(theta):
    """Angles are taken into ]-180, 180]."""
    t = (theta + 180) % 360 - 180
    return 180. if t == -180 else t


ANGLES = {"X": (180, 0), "X90": (90, 0), "Y": (180, 90), "Y90": (90, 90)}
ZS = {"Z": 180, "Z90": 90, "S": 90, "SDagger": -90, "T": 45, "TDagger": -45}
MAXLEN = 100000


class GateRef:
    """elements/edges: current parameters; overrides are looked up under the factory's names."""

    def __init__(self, elements=None, edges=None):
        self.el = copy.deepcopy(elements or ELEMENTS)
        self.ed = copy.deepcopy(EDGES if edges is None else edges)

    def ck(self, q):
        return f"{q}.01"

    def rxy(self, q, theta, phi, ov):
        p = self.el[q]
        dur = ov.get("duration", p["rxy_dur"] * 1e-9)
        theta, phi = ov.get("theta", theta), ov.get("phi", phi)
        return round(dur * 1e9, 6), [(0, "drag", ov.get("port", p["mw"]), ov.get("clock", self.ck(q)), r(dur * 1e9), {
            "G_amp": ov.get("amp180", p["amp180"]) * theta / 180, "D_amp": ov.get("motzoi", p["motzoi"]), "phase": phi})]

    def measure(self, q, kw, idx, ov):
        p = self.el[q]
        port, clock = ov.get("port", p["res"]), ov.get("clock", f"{q}.ro")
        dur, pd, delay = (r(ov.get(k, p[n] * 1e-9) * 1e9) for k, n in (("acq_duration", "integ"), ("pulse_duration", "pulse_dur"), ("acq_delay", "acq_delay")))
        out = []
        if ov.get("reset_clock_phase", p["reset_phase"]):
            out.append((0, "phase-reset", clock))
        out.append((0, "square", port, clock, pd, {"amp": ov.get("pulse_amp", p["pulse_amp"])}))
        ch = kw.get("acq_channel")
        ch = ov.get("acq_channel", p["chan"]) if ch is None else ch
        proto = kw.get("acq_protocol") or "SSBIntegrationComplex"
        bm = kw.get("bin_mode") or "average"
        acq = dict(protocol=proto, acq_channel=ch, acq_index=idx, coords=tuple(sorted(dict(kw.get("coords") or {}).items())),
                   bin_mode=bm if proto != "Trace" else None)
        if proto == "ThresholdedAcquisition":
            acq["rot"], acq["thr"] = ov.get("acq_rotation", p["rot"]), ov.get("acq_threshold", p["thr"])
            acq["label"] = kw.get("feedback_trigger_label")
        out.append((delay, "acq", port, clock, dur, acq))
        if "freq" in ov:
            out = [(0, "freq", clock, ov["freq"]), *out, (max(pd, delay + dur), "freq", clock, None)]
        return max(pd, delay + dur), out

    def expand(self, name, args, kw=()):
        """(duration, events) of one gate; kw are Measure's arguments and overrides."""
        kw = dict(kw)
        if name == "Rxy":
            return self.rxy(args[2], wrap(args[0]), wrap(args[1]) if args[1] % 360 else 0., kw)
        if name in ANGLES:
            return self.rxy(args[0], *ANGLES[name], kw)
        if name == "Rz" or name in ZS:
            th, q = (args[0], args[1]) if name == "Rz" else (ZS[name], args[0])
            th = kw.get("theta", wrap(th))
            return 0, [(0, "phase", kw.get("clock", self.ck(q)), th)]
        if name == "H":
            ds, ev = [], []
            for q in args:
                ev += self.expand("Z", (q,), kw)[1]
                d, e = self.expand("Y90", (q,), kw)
                ds.append(d)
                ev += e
            return max(ds), ev
        if name == "CZ":
            a, b = args if tuple(args) in self.ed else args[::-1]
            p = self.ed[a, b]
            d = kw.get("square_duration", p["dur"] * 1e-9)
            return r(d * 1e9), [
                (0, "square", kw.get("square_port", p.get("port") or self.el[a]["fl"]), kw.get("square_clock", "cl0.baseband"), r(d * 1e9), {"amp": kw.get("square_amp", p["amp"])}),
                (0, "phase", kw.get("virt_z_parent_qubit_clock", self.ck(a)), kw.get("virt_z_parent_qubit_phase", p["ph"][a])),
                (0, "phase", kw.get("virt_z_child_qubit_clock", self.ck(b)), kw.get("virt_z_child_qubit_phase", p["ph"][b]))]
        if name == "Reset":
            return r(max(kw.get("duration", self.el[q]["reset"] * 1e-9) for q in args) * 1e9), []
        if name == "Measure":
            mk = {k: kw.pop(k) for k in ("acq_channel", "coords", "acq_index", "acq_protocol", "bin_mode", "feedback_trigger_label",
                                         "apply_acquisition_delay") if k in kw}
            ds, ev = [], []
            for i, q in enumerate(args):
                idx = mk.get("acq_index")
                idx = idx[i] if isinstance(idx, tuple) else idx
                m2 = dict(mk)
                if isinstance(m2.get("acq_channel"), (tuple, list)):
                    m2["acq_channel"] = m2["acq_channel"][i]
                d, e = self.measure(q, m2, idx, kw)
                ds.append(d)
                ev += e
            return max(ds), ev
        if name == "Idle":
            return args[0], []
        raise AssertionError(name)


def r(x):
    x = round(x, 6)
    return int(x) if x == int(x) else x


def make_gate(name, args, kw=()):
    from quantify_scheduler.operations import gate_library as gl
    from quantify_scheduler.operations.pulse_library import IdlePulse
    kw = dict(kw)
    if name == "Idle":
        return IdlePulse(args[0] * 1e-9)
    if "coords" in kw:
        kw["coords"] = dict(kw["coords"])
    if not hasattr(gl, name):
        from quantify_scheduler.operations import nv_native_library as nv, shared_native_library as sh
        return getattr(nv if hasattr(nv, name) else sh, name)(*args, **kw)
    return getattr(gl, name)(*args, **kw)


# ------------------------------------------------------------ compiled trees
def tree(op, t=0., out=None, conds=()):
    """Normalised events of a compiled schedule, loops unrolled, in order of time (stable)."""
    top = out is None
    out = [] if top else out
    if hasattr(op, "schedulables"):
        for sb in op.schedulables.values():
            tree(op.operations[sb["operation_id"]], t + sb["abs_time"], out, conds)
    elif op.data.get("control_flow_info") is not None:
        info = op.data["control_flow_info"]
        for i in range(info.get("repetitions") or 1):
            tree(op.body, t + i * op.body.duration, out, conds + ((info.get("qubit_name"),) if "qubit_name" in info else ()))
    else:
        for p in op.data["pulse_info"]:
            s = r((t + p["t0"]) * 1e9)
            if p.get("phase_shift") is not None:
                out.append((s, "phase", p["clock"], p["phase_shift"]))
            elif p.get("reset_clock_phase"):
                out.append((s, "phase-reset", p["clock"]))
            elif "clock_freq_new" in p:
                out.append((s, "freq", p["clock"], p["clock_freq_new"]))
            elif p.get("port") is not None:
                k = (p.get("wf_func") or "offset").rsplit(".", 1)[-1]
                skip = ("wf_func", "t0", "duration", "clock", "port", "reference_magnitude", "nr_sigma", "sigma", "subtract")
                out.append((s, k, p["port"], p["clock"], r(p["duration"] * 1e9), {a: b for a, b in p.items() if a not in skip}))
        for a in op.data["acquisition_info"]:
            s = r((t + a["t0"]) * 1e9)
            d = dict(protocol=a["protocol"], acq_channel=a["acq_channel"], acq_index=a["acq_index"],
                     coords=tuple(sorted((a.get("coords") or {}).items())),
                     bin_mode=getattr(a["bin_mode"], "value", a["bin_mode"]) if a["protocol"] != "Trace" else None)
            if a["protocol"] == "ThresholdedAcquisition":
                d["rot"], d["thr"], d["label"] = a["acq_rotation"], a["acq_threshold"], a.get("feedback_trigger_label")
            if a["protocol"] in ("Timetag", "TimetagTrace"):
                d["time_ref"] = getattr(a["time_ref"], "value", a["time_ref"])
                if a["protocol"] == "Timetag":
                    d["time_source"] = getattr(a["time_source"], "value", a["time_source"])
            out.append((s, "acq", a["port"], a["clock"], r(a["duration"] * 1e9), d))
    return sorted(out, key=lambda e: e[0]) if top else out


def resolve(events, reset_zero=True):
    """Replace phase shifts by the phase every pulse and acquisition sees; final phases."""
    ph, res = {}, []
    evs = sorted(events, key=lambda e: e[0])
    i = 0
    while i < len(evs):
        j = i
        while j < len(evs) and evs[j][0] == evs[i][0]:
            j += 1
        now = evs[i:j]
        for e in now:
            if e[1] == "phase-reset":
                ph[e[2]] = 0.
        # at equal times the order of a reset and a shift is the order in the schedule
        for c in {e[2] for e in now if e[1] == "phase-reset"}:
            ph[c] = 0.
            after = False
            for e in now:
                if e[1] == "phase-reset" and e[2] == c:
                    ph[c], after = 0., True
                elif e[1] == "phase" and e[2] == c and after:
                    ph[c] = ph.get(c, 0.) + e[3]
        done = {e[2] for e in now if e[1] == "phase-reset"}
        for e in now:
            if e[1] == "phase" and e[2] not in done:
                ph[e[2]] = ph.get(e[2], 0.) + e[3]
        for e in now:
            if e[1] in ("phase", "phase-reset"):
                continue
            if e[1] == "freq":
                res.append((e[0], "freq", e[2], e[3]))
                continue
            res.append((*e[:5], {**e[5], "_frame": ph.get(e[3], 0.) % 360}))
        i = j
    return res, {c: p % 360 for c, p in ph.items()}


def near(a, b):
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)) and not isinstance(a, bool):
        return abs(a - b) < 1e-7 or abs(abs(a - b) - 360) < 1e-6
    return a == b


def diff(got, want):
    """First difference between two event lists (order among simultaneous events is free)."""
    key = lambda e: (e[0], e[1], e[2], str(e[3:4]), e[4] if len(e) > 4 else 0)  # noqa: E731
    rest = sorted(want, key=key)
    if len(got) != len(want):
        return f"{len(got)} events instead of {len(want)}: {short(got)} vs {short(want)}"
    for g in sorted(got, key=key):
        for w in rest:
            if len(g) == len(w) and all(near(x, y) for x, y in zip(g[:5], w[:5])):
                if len(g) < 6 or (set(g[5]) == set(w[5]) and all(near(g[5][k], w[5][k]) for k in g[5])):
                    rest.remove(w)
                    break
        else:
            return f"{g} not expected; left {short(rest)}"
    return None


def short(ev):
    return str(ev)[:700]
