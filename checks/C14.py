"""C14: gates compile to the calibrated pulses of exactly the addressed elements."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import copy
from lib import gates, ref  # noqa: E402
from lib.gates import r  # noqa: E402

TECHNIQUE = ("bounded exhaustive exploration of device parameter histories, gate sequences with overrides and measurement requests; every "
             "compiled schedule is compared event by event with a reference that reads the pulses off the current parameters")
NOTE = ("All single parameter changes (and all pairs, thorough) of transmon, spin, charge sensor and NV elements and edges between compilations; "
        "every override of every gate before, after, inside sub-schedules and loops, alone and in pairs; all pairs and triples of measurement "
        "requests; element orders, unknown elements, edges and operations; clock resources of user and device; early next operations. "
        "Reference: lib/gates.py and the tables in this file; no pulse or measurement factory is called.")
ref.HBT = 0
TUNED = {}


# ------------------------------------------------------------ transmon device
def ZZ(x):
    return tuple(sorted(x.items()))


def g(name, *args, **kw):
    return ("gate", name, tuple(args), ZZ(kw))


def device():
    if "qd" not in TUNED:
        TUNED["qd"] = gates.make_device()
    return TUNED["qd"]


def compile_(items, config):
    from quantify_scheduler.backends import SerialCompiler
    return SerialCompiler("c").compile(ref.build(list(items)), config)


def expected(items, G):
    ref.GATES = G
    out = []
    for e in ref.flatten(list(items)):
        if e[1] == "gate":
            for x in G.expand(*e[3][1:])[1]:
                out.append((e[0] + x[0], *x[1:]))
    return out


def check(items, G, config, what=""):
    want, wph = gates.resolve(expected(items, G))
    T = ref.layout(list(items))[1]
    try:
        comp = compile_(items, config)
    except Exception as e:
        raise Violation("rejects-valid", f"{what} {type(e).__name__}: {e}") from None
    got, gph = gates.resolve(gates.tree(comp))
    d = gates.diff(got, want)
    if d:
        raise Violation("pulses-differ", f"{what} {d}")
    for c in set(gph) | set(wph):
        if not gates.near(gph.get(c, 0.), wph.get(c, 0.)):
            raise Violation("phase", f"{what} {c}: {gph.get(c, 0.)} instead of {wph.get(c, 0.)}")
    if abs(comp.duration * 1e9 - T) > 1e-6:
        raise Violation("duration", f"{what} {comp.duration} instead of {T} ns")
    return comp, got, gph


ALLGATES = ([g("Reset", "q0", "q1", "q2"), g("H", "q0", "q2")]
            + [g(n, q) for q in ("q0", "q1", "q2") for n in ("X", "Reset")]
            + [g("Rxy", 40., 75., "q0"), g("Y90", "q1"), g("Rxy", -60., 10., "q2"), g("Rz", 33., "q1"), g("X90", "q0", clock="q0.12"), g("H", "q1"),
               g("CZ", "q0", "q1"), g("CZ", "q1", "q2"), g("X", "q1"), g("X", "q2"), g("Measure", "q0"), g("Measure", "q2"),
               g("Measure", "q0", "q1", acq_protocol="ThresholdedAcquisition"), g("Measure", "q1", "q2", "q0")])
NEW = {"amp180": (.77, -.4), "motzoi": (.66, 0.), "rxy_dur": (36, 200), "f01": (5.5e9, 4.1e9), "f12": (4.5e9, 4.2e9), "ro": (6.5e9, 7.7e9), "reset": (300, 20),
       "pulse_amp": (.09, 1.), "pulse_dur": (60, 1000), "acq_delay": (20, 100), "integ": (80, 2000), "chan": (9, "left"), "reset_phase": (None, None), "rot": (77., 0.),
       "thr": (.9, -.5), "mw": ("x:mw", "y:mw"), "fl": ("x:fl", "y:fl"), "res": ("x:res", "y:res"), "dur": (64, 20), "amp": (.8, .2)}


def setters():
    out = []
    for q, p in gates.ELEMENTS.items():
        for k in p:
            for v in ((not p[k],) if k == "reset_phase" else NEW[k]):
                out.append((q, k, v))
    for e, p in gates.EDGES.items():
        out += [(e, k, v) for k in ("amp", "dur") for v in NEW[k]]
        out += [(e, ("ph", x), v) for x in p["ph"] for v in (15., -90.)]
    return out


def apply(G, s):
    t, k, v = s
    d = G.ed[t] if isinstance(t, tuple) else G.el[t]
    if isinstance(k, tuple):
        d[k[0]][k[1]] = v
    else:
        d[k] = v


def tune(qd, G, names=None):
    for n, p in G.el.items():
        if names is None or n in names:
            gates.set_params(qd.get_element(n), p)
    for (a, b), p in G.ed.items():
        if names is None or (a, b) in names:
            gates.set_edge(qd.get_edge(f"{a}_{b}"), a, b, p)


def run_history(hist):
    """hist: parameter changes; compile after each; None compiles again without change."""
    qd = device()
    G = gates.GateRef()
    touched = set()
    try:
        old = None
        sig = []
        for s in hist:
            before = copy.deepcopy(G)
            if s is not None:
                apply(G, s)
                touched.add(s[0])
                if old is not None:
                    # a configuration generated earlier keeps its values
                    tune(qd, G, {s[0]})
                    check(ALLGATES, before, old, "(stale config)")
                tune(qd, G, {s[0]})
            cfg = qd.generate_compilation_config()
            comp, got, ph = check(ALLGATES, G, cfg, f"after {s}")
            for q, p in G.el.items():
                for c, k in ((".01", "f01"), (".12", "f12"), (".ro", "ro")):
                    res = [f for f in clocks(comp, q + c)]
                    if any(f != p[k] for f in res) or (not res and (c != ".12" or q == "q0")):
                        raise Violation("clock-frequency", f"after {s}: {q + c} has {res} instead of {p[k]}")
            old = cfg
            sig.append(str(got))
        return R("ok", len(got), len(ALLGATES) * len(hist), len(hist), str(sig))
    finally:
        tune(qd, gates.GateRef(), touched)


def clocks(op, name):
    if hasattr(op, "schedulables"):
        if name in op.resources:
            yield op.resources[name]["freq"]
        for o in op.operations.values():
            yield from clocks(o, name)
    elif op.data.get("control_flow_info") is not None:
        yield from clocks(op.body, name)


def config(strategy="asap"):
    if "cfg" not in TUNED:
        TUNED["cfg"] = {}
        for st in ("alap", "asap"):
            device().scheduling_strategy(st)
            c = device().generate_compilation_config()
            TUNED["cfg"][st] = (c, repr(c))
    return TUNED["cfg"][strategy]


def run_seq(items):
    """Compile a sequence; the device and its configuration stay as they are."""
    strategy, items = items if isinstance(items, tuple) and items[0] == "alap" else ("asap", items)
    cfg, dump = config(strategy)
    _, got, ph = check(items, gates.GateRef(), cfg, strategy)
    if repr(cfg) != dump:
        TUNED.pop("cfg")
        raise Violation("config-changed", "the configuration is altered by compiling")
    return R("ok", len(got) + 1, len(items), 1, (str(got), str(sorted(ph.items()))))


# ------------------------------------------------------------ early next operation
def run_early(case):
    """Measurements that do not delay the next operation by the acquisition delay."""
    G = gates.GateRef()
    items, again, strategy = case
    from quantify_scheduler.backends import SerialCompiler
    ref.GATES = G
    s = ref.build([i[0] if isinstance(i, tuple) and isinstance(i[0], tuple) else i for i in items])
    t, want, end, end_prev = 0, [], 0, 0
    for it in items:
        dur, ev = G.expand(*it[1:])
        want += [(t + e[0], *e[1:]) for e in ev]
        end = max(end, t + dur)
        kw = dict(it[3])
        early = 0
        if it[1] == "Measure" and not kw.get("apply_acquisition_delay", True):
            early = max(kw["acq_delay"] * 1e9 if "acq_delay" in kw else G.el[q]["acq_delay"] for q in it[2])
        t = t + dur - early
    for _ in range(2 if again else 1):
        comp = SerialCompiler("c").compile(s, config(strategy)[0])
    got, gph = gates.resolve(gates.tree(comp))
    exp, _ = gates.resolve(want)
    d = gates.diff(got, exp)
    if d:
        raise Violation("early-operation", d)
    return R("ok", len(got), len(items), 1, str(got))


# ------------------------------------------------------------ edges, unknown names
def run_edges(case):
    """case: (pairs of edges present, operation)."""
    edges, op = case
    from quantify_scheduler.backends import SerialCompiler
    key = ("edges", edges)
    if TUNED.get("key") != key:
        TUNED.clear()
        TUNED["key"] = key
        TUNED["G"] = gates.GateRef(edges={e: dict(amp=.1 + .1 * i, dur=20 + 4 * i, ph={e[0]: 10. + i, e[1]: 20. + i}) for i, e in enumerate(edges)})
        TUNED["qd"] = gates.make_device(edges=TUNED["G"].ed)
        TUNED["c"] = TUNED["qd"].generate_compilation_config()
    G, cfg = TUNED["G"], TUNED["c"]
    name, args = op[1], op[2]
    known = all(a in gates.ELEMENTS for a in args)
    if name in ("CZ", "CNOT"):
        exact, swapped = tuple(args) in G.ed, tuple(args[::-1]) in G.ed
        ok = known and name == "CZ" and (exact or swapped)
    else:
        ok = known and name not in ("ChargeReset", "SpectroscopyOperation", "CRCount", "SpinInit")
    if ok:
        check([op], G, cfg, f"edges {edges}")
        return R("ok", 1, 1, 1, str((edges, op)))
    from quantify_scheduler.operations import gate_library as gl, nv_native_library as nv, shared_native_library as sh, spin_library as sp
    from quantify_scheduler.schedules.schedule import Schedule
    cls = next(getattr(m, name) for m in (gl, nv, sh, sp) if hasattr(m, name))
    s = Schedule("s")
    s.add(cls(*args))
    try:
        SerialCompiler("c").compile(s, cfg)
    except Exception as e:
        return R("refused", 0, 1, 1, str((edges, op, type(e).__name__)))
    raise Violation("accepts-unknown", f"{op} with edges {edges} compiles")


# ------------------------------------------------------------ clocks
def run_clock(case):
    """Clock resources: which frequency the clock has in the compiled schedule."""
    user, dev, op, where = case
    import math
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.operations.pulse_library import SquarePulse
    from quantify_scheduler.resources import ClockResource
    from quantify_scheduler.schedules.schedule import Schedule
    qd = device()
    G = gates.GateRef()
    try:
        if dev is not None:
            qd.get_element("q0").clock_freqs.f01(dev)
        cfg = qd.generate_compilation_config()
        clock = "q0.01" if op != "other" else "my.clock"
        mk = (lambda: gates.make_gate("X", ("q0",))) if op == "gate" else (lambda: SquarePulse(.1, 2e-8, "q0:mw", clock))
        s = Schedule("s")
        inner = s
        if where == "sub":
            inner = Schedule("i")
        inner.add(mk())
        for i, f in enumerate(user):
            (inner if where != "outer" and i == 0 else s).add_resource(ClockResource(clock, f)) if i == 0 or where == "sub" else None
        if where in ("sub", "outer") and inner is not s:
            s.add(inner)
        freq = user[0] if user else (dev if dev is not None else G.el["q0"]["f01"])
        if clock == "my.clock" and not user:
            freq = None
        bad = freq is None or (not user and math.isnan(freq)) or (where == "sub" and len(set(user)) > 1)
        try:
            comp = SerialCompiler("c").compile(s, cfg)
        except Exception as e:
            if not bad:
                raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
            return R("refused", 0, 1, 1, str(case))
        if bad:
            raise Violation("accepts-undefined-clock", f"{case} compiles")
        got = set(clocks(comp, clock))
        if got != {freq}:
            raise Violation("clock-frequency", f"{clock} has {got} instead of {freq}")
        return R("ok", 1, 1, 1, str((case, got)))
    finally:
        gates.set_params(qd.get_element("q0"), gates.ELEMENTS["q0"])


# ------------------------------------------------------------ spin and NV elements
SPIN = {"s0": dict(amp180=.31, rxy_dur=20, f01=1e8, ro=2e8, reset=200, pulse_amp=.21, gate_amp=.15, pulse_dur=100, acq_delay=40, integ=300, chan=0,
                   reset_phase=True, rot=10., thr=.1, mw="s0:mw", gate="s0:g", res="s0:res"),
        "s1": dict(amp180=.41, rxy_dur=24, f01=1.1e8, ro=2.1e8, reset=240, pulse_amp=.22, gate_amp=.16, pulse_dur=480, acq_delay=60, integ=400, chan=1,
                   reset_phase=False, rot=20., thr=.2, mw="s1:mw", gate="s1:g", res="s1:res"),
        "c0": dict(sensor=True, ro=2.2e8, pulse_amp=.23, gate_amp=.17, pulse_dur=200, acq_delay=20, integ=100, chan=2, reset_phase=True, rot=30., thr=.3,
                   gate="c0:g", res="c0:res")}
SEDGE = {("s0", "s1"): dict(amp=.5, dur=40, ph={"s0": 44., "s1": 63.}, port="barrier")}
NV = {"n0": dict(spec_amp=.1, spec_dur=100, spec_shape="SquarePulse", reset_amp=.2, reset=200, cr_amp=.3, cr_dur=300, m_amp=.4, m_dur=240, m_acq=260, m_delay=20, chan=0,
                 src="first", tref="start", c_ro=.5, c_sp=.6, c_rod=80, c_spd=120, c_acq=160, c_delay=40, c_chan=5, amp180=.7, skew=.1, rxy_dur=40, shape="SkewedHermitePulse",
                 mw="n0:mw", oc="n0:oc", orr="n0:or", spec=2.8e9, ge0=4.7e14, ge1=4.8e14, ion=5e14),
      "n1": dict(spec_amp=.15, spec_dur=140, spec_shape="GaussPulse", reset_amp=.25, reset=220, cr_amp=.35, cr_dur=320, m_amp=.45, m_dur=280, m_acq=300, m_delay=-24, chan=1,
                 src="last", tref="end", c_ro=.55, c_sp=.65, c_rod=84, c_spd=60, c_acq=164, c_delay=44, c_chan=6, amp180=.75, skew=.15, rxy_dur=44, shape="GaussPulse",
                 mw="n1:mw", oc="n1:oc", orr="n1:or", spec=2.9e9, ge0=4.71e14, ge1=4.81e14, ion=5.1e14)}


def spin_set(e, p):
    if not p.get("sensor"):
        e.rxy.amp180(p["amp180"])
        e.rxy.duration(p["rxy_dur"] * 1e-9)
        e.clock_freqs.f_larmor(p["f01"])
        e.reset.duration(p["reset"] * 1e-9)
        e.ports.microwave(p["mw"])
    e.clock_freqs.readout(p["ro"])
    m = e.measure
    m.pulse_amp(p["pulse_amp"])
    m.gate_pulse_amp(p["gate_amp"])
    m.pulse_duration(p["pulse_dur"] * 1e-9)
    m.acq_delay(p["acq_delay"] * 1e-9)
    m.integration_time(p["integ"] * 1e-9)
    m.acq_channel(p["chan"])
    m.reset_clock_phase(p["reset_phase"])
    m.acq_rotation(p["rot"])
    m.acq_threshold(p["thr"])
    e.ports.gate(p["gate"])
    e.ports.readout(p["res"])


def nv_set(e, p):
    e.spectroscopy_operation.amplitude(p["spec_amp"])
    e.spectroscopy_operation.duration(p["spec_dur"] * 1e-9)
    e.spectroscopy_operation.pulse_shape(p["spec_shape"])
    e.reset.amplitude(p["reset_amp"])
    e.reset.duration(p["reset"] * 1e-9)
    e.charge_reset.amplitude(p["cr_amp"])
    e.charge_reset.duration(p["cr_dur"] * 1e-9)
    e.measure.pulse_amplitude(p["m_amp"])
    e.measure.pulse_duration(p["m_dur"] * 1e-9)
    e.measure.acq_duration(p["m_acq"] * 1e-9)
    e.measure.acq_delay(p["m_delay"] * 1e-9)
    e.measure.acq_channel(p["chan"])
    e.measure.time_source(p["src"])
    e.measure.time_ref(p["tref"])
    c = e.cr_count
    c.readout_pulse_amplitude(p["c_ro"])
    c.spinpump_pulse_amplitude(p["c_sp"])
    c.readout_pulse_duration(p["c_rod"] * 1e-9)
    c.spinpump_pulse_duration(p["c_spd"] * 1e-9)
    c.acq_duration(p["c_acq"] * 1e-9)
    c.acq_delay(p["c_delay"] * 1e-9)
    c.acq_channel(p["c_chan"])
    e.rxy.amp180(p["amp180"])
    e.rxy.skewness(p["skew"])
    e.rxy.duration(p["rxy_dur"] * 1e-9)
    e.rxy.pulse_shape(p["shape"])
    e.ports.microwave(p["mw"])
    e.ports.optical_control(p["oc"])
    e.ports.optical_readout(p["orr"])
    e.clock_freqs.spec(p["spec"])
    e.clock_freqs.ge0(p["ge0"])
    e.clock_freqs.ge1(p["ge1"])
    e.clock_freqs.ionization(p["ion"])


class SpinRef(gates.GateRef):
    def __init__(self):
        super().__init__(SPIN, SEDGE)

    def ck(self, q):
        return f"{q}.f_larmor"

    def rxy(self, q, theta, phi, ov):
        p = self.el[q]
        dur = ov.get("duration", p["rxy_dur"] * 1e-9)
        return r(dur * 1e9), [(0, "drag", ov.get("port", p["mw"]), ov.get("clock", self.ck(q)), r(dur * 1e9),
                               {"G_amp": ov.get("amp180", p["amp180"]) * theta / 180, "D_amp": 0, "phase": phi})]

    def measure(self, q, kw, idx, ov):
        p = self.el[q]
        d, ev = super().measure(q, kw, idx, ov)
        pd = r(ov.get("pulse_duration", p["pulse_dur"] * 1e-9) * 1e9)
        return d, ev + [(0, "square", ov.get("gate_port", p["gate"]), "cl0.baseband", pd, {"amp": ov.get("gate_pulse_amp", p["gate_amp"])})]


class NVRef:
    def __init__(self):
        self.el = copy.deepcopy(NV)
        self.ed = {}

    def shape(self, kind, port, clock, dur, amp, phase, skew):
        if kind == "SquarePulse":
            return (0, "square", port, clock, dur, {"amp": amp})
        if kind == "GaussPulse":
            return (0, "drag", port, clock, dur, {"G_amp": amp, "D_amp": 0, "phase": phase})
        return (0, "skewed_hermite", port, clock, dur, {"amplitude": amp, "skewness": skew, "phase": phase})

    def optical(self, q, pulses, dur, delay, ch, kw):
        p = self.el[q]
        t0, ta = max(0, -delay), max(0, delay)
        ev = [(t0, "square", p["oc"], f"{q}.{c}", d, {"amp": a}) for a, d, c in pulses]
        bm = kw.get("bin_mode") or "append"
        proto = kw.get("acq_protocol") or "TriggerCount"
        acq = dict(protocol=proto, acq_channel=ch if kw.get("acq_channel") is None else kw["acq_channel"], acq_index=kw.get("acq_index"), coords=kw.get("coords", ()),
                   bin_mode=bm if proto != "Trace" else None)
        if proto in ("Timetag", "TimetagTrace"):
            acq["time_ref"] = p["tref"]
            if proto == "Timetag":
                acq["time_source"] = p["src"]
        return max([t0 + x[1] for x in pulses] + [ta + dur]), ev + [(ta, "acq", p["orr"], f"{q}.ge0", dur, acq)]

    def one(self, name, q, args, kw):
        p = self.el[q]
        if name == "SpectroscopyOperation":
            d = r(kw.get("duration", p["spec_dur"] * 1e-9) * 1e9)
            return d, [self.shape(p["spec_shape"], p["mw"], f"{q}.spec", d, kw.get("amplitude", p["spec_amp"]), 0, 0)]
        if name == "Reset":
            return p["reset"], [(0, "square", p["oc"], f"{q}.ge1", p["reset"], {"amp": p["reset_amp"]})]
        if name == "ChargeReset":
            return p["cr_dur"], [(0, "square", p["oc"], f"{q}.ionization", p["cr_dur"], {"amp": p["cr_amp"]})]
        if name == "Measure":
            return self.optical(q, [(p["m_amp"], p["m_dur"], "ge0")], p["m_acq"], p["m_delay"], p["chan"], kw)
        if name == "CRCount":
            return self.optical(q, [(p["c_ro"], p["c_rod"], "ge0"), (p["c_sp"], p["c_spd"], "ge1")], p["c_acq"], p["c_delay"], p["c_chan"], kw)
        th, ph = args[:2] if name == "Rxy" else gates.ANGLES[name]
        return p["rxy_dur"], [self.shape(p["shape"], p["mw"], f"{q}.spec", p["rxy_dur"], p["amp180"] * th / 180, ph, p["skew"])]

    def expand(self, name, args, kw=()):
        kw = dict(kw)
        if name == "Idle":
            return args[0], []
        qs = args[2:] if name == "Rxy" else args
        res = []
        for i, q in enumerate(qs):
            k = {a: (b[i] if isinstance(b, tuple) and a != "coords" else b) for a, b in kw.items()}
            res.append(self.one(name, q, args, k))
        return max(d for d, _ in res), [e for _, ev in res for e in ev]


def nv_tree(comp):
    """gates.tree with the time-tagging settings of acquisitions."""
    return gates.tree(comp)


def other_device(kind):
    if TUNED.get("other") != kind:
        TUNED.clear()
        TUNED["other"] = kind
        from qcodes.instrument import Instrument
        from quantify_scheduler.device_under_test.nv_element import BasicElectronicNVElement
        from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
        from quantify_scheduler.device_under_test.spin_edge import SpinEdge
        from quantify_scheduler.device_under_test.spin_element import BasicSpinElement, ChargeSensor
        Instrument.close_all()
        qd = TUNED["qd2"] = QuantumDevice("qd")
        if kind == "spin":
            for n, p in SPIN.items():
                e = (ChargeSensor if p.get("sensor") else BasicSpinElement)(n)
                spin_set(e, p)
                qd.add_element(e)
            for (a, b), p in SEDGE.items():
                ed = SpinEdge(a, b)
                gates.set_edge(ed, a, b, p)
                ed.ports.gate(p["port"])
                qd.add_edge(ed)
        else:
            for n, p in NV.items():
                e = BasicElectronicNVElement(n)
                nv_set(e, p)
                qd.add_element(e)
    return TUNED["qd2"]


def run_other(case):
    kind, items, hist = case
    qd = other_device(kind)
    G = SpinRef() if kind == "spin" else NVRef()
    try:
        if hist:
            apply(G, hist)
            other_set(qd, kind, G, hist[0])
        cfg = qd.generate_compilation_config()
        comp, got, ph = check(items, G, cfg, f"{kind} {hist}")
        for q, p in G.el.items():
            for c, k in ((f"{q}.f_larmor", "f01"), (f"{q}.ro", "ro")) if kind == "spin" else ((f"{q}.spec", "spec"), (f"{q}.ge0", "ge0"), (f"{q}.ge1", "ge1"), (f"{q}.ionization", "ion")):
                if any(f != p[k] for f in clocks(comp, c)):
                    raise Violation("clock-frequency", f"after {hist}: {c} has {list(clocks(comp, c))} instead of {p[k]}")
        return R("ok", len(got), len(items), 1, (str(got), str(sorted(ph.items()))))
    finally:
        if hist:
            other_set(qd, kind, SpinRef() if kind == "spin" else NVRef(), hist[0])


def other_set(qd, kind, G, t):
    if isinstance(t, tuple):
        ed = qd.get_edge(f"{t[0]}_{t[1]}")
        gates.set_edge(ed, *t, G.ed[t])
        ed.ports.gate(G.ed[t]["port"])
    else:
        (spin_set if kind == "spin" else nv_set)(qd.get_element(t), G.el[t])


def run_unsupported(case):
    kind, items = case
    cfg = other_device(kind).generate_compilation_config()
    try:
        compile_(items, cfg)
    except Exception as e:
        return R("refused", 0, 1, 1, str((case, type(e).__name__)))
    raise Violation("accepts-unknown", f"{items} compiles on {kind}")


# ------------------------------------------------------------ special measurements
def run_special(case):
    """Weighted integration, scope of many points, readout frequency and reference magnitudes."""
    what, q, ch, idx, bm, delay = case
    import numpy as np
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.enums import BinMode
    from quantify_scheduler.operations.gate_library import Measure, X
    from quantify_scheduler.schedules.schedule import Schedule
    qd = device()
    p = gates.ELEMENTS[q]
    e = qd.get_element(q)
    try:
        e.measure.acq_delay(delay * 1e-9)
        kw = dict(acq_channel=ch, acq_index=idx, bin_mode=bm)
        ch = p["chan"] if ch is None else ch
        D, P, A, ro = p["integ"], p["pulse_dur"], p["pulse_amp"], f"{q}.ro"
        rst = [(0, "phase-reset", ro)] if p["reset_phase"] else []
        acq = dict(acq_channel=ch, acq_index=idx, coords=(), bin_mode=bm or "average")
        sq = (0, "square", p["res"], ro, P, {"amp": A})
        wants = None
        if what == "freq":
            kw["freq"] = 7.5e9
            wants = [(0, "freq", ro, 7.5e9), *rst, sq, (delay, "acq", p["res"], ro, D, {**acq, "protocol": "SSBIntegrationComplex"}),
                     (max(P, delay + D), "freq", ro, None)]
            T = max(P, delay + D)
        elif what == "long":
            kw.update(acq_protocol="LongTimeTrace", bin_mode=BinMode.APPEND)
            e.measure.num_points(5)
            acq["bin_mode"] = "append"
            wants = [(0, "offset", p["res"], ro, 0, {"offset_path_I": A, "offset_path_Q": 0.})]
            for i in range(5):
                wants += [(delay + i * D, "phase-reset", ro), (delay + i * D, "acq", p["res"], ro, D, {**acq, "protocol": "SSBIntegrationComplex"})]
            wants += [(delay + 5 * D, "offset", p["res"], ro, 0, {"offset_path_I": 0, "offset_path_Q": 0})]
            T = delay + 5 * D + 4
        elif what == "magnitude":
            e.rxy.reference_magnitude.dBm(-10.)
            e.measure.reference_magnitude.V(.3)
            wants = [*rst, sq, (delay, "acq", p["res"], ro, D, {**acq, "protocol": "SSBIntegrationComplex"})]
            T = max(P, delay + D)
        else:
            wa, wb = np.array([.1, .2, .3, .4] * 10), np.array([.5, -.5] * 20)
            e.measure.acq_weights_a(wa)
            e.measure.acq_weights_b(wb)
            e.measure.acq_weights_sampling_rate(1e9)
            e.measure.integration_time(40e-9)
            kw["acq_protocol"] = what
            a = {**acq, "protocol": what}
            wants = [*rst, sq, (delay, "acq", p["res"], ro, 40, a)]
            T = max(P, delay + 40)
        s = Schedule("s")
        s.add(Measure(q, **kw))
        s.add(X(q))
        comp = SerialCompiler("c").compile(s, qd.generate_compilation_config())
        evs = gates.tree(comp)
        xs = [x for x in evs if x[1] == "drag"]
        if len(xs) != 1 or abs(xs[0][0] - T) > 1e-6:
            raise Violation("measurement-duration", f"next gate at {[x[0] for x in xs]} instead of {T}")
        got, _ = gates.resolve([x for x in evs if x[1] != "drag"])
        exp, _ = gates.resolve(wants)
        d = gates.diff([tuple(x[:5]) + ({k: v for k, v in x[5].items() if k not in ("rot", "thr", "label")},) if len(x) > 5 else x for x in got], exp)
        if d:
            raise Violation("pulses-differ", d)
        infos = leaves(comp)
        if what == "magnitude":
            for o in infos:
                for i in o["pulse_info"]:
                    if i.get("wf_func"):
                        m = i["reference_magnitude"]
                        w = ("dBm", -10.) if "drag" in i["wf_func"] else ("V", .3)
                        if m is None or (m.unit, m.value) != w:
                            raise Violation("reference-magnitude", f"{i['wf_func']}: {m} instead of {w}")
        if what in ("NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration", "WeightedThresholdedAcquisition"):
            ws = [i for o in infos for i in o["acquisition_info"]][0]
            for w, v in zip(ws["waveforms"], (wa, wb)):
                if not np.array_equal(w["samples"], v):
                    raise Violation("weights", f"{w['samples']} instead of {v}")
            if what == "WeightedThresholdedAcquisition" and ws["acq_threshold"] != p["thr"]:
                raise Violation("threshold", f"{ws['acq_threshold']}")
        return R("ok", len(got), 2, 1, str((case, got)))
    finally:
        gates.set_params(e, p)
        if what == "magnitude":
            TUNED.pop("qd")   # units cannot be unset


def run_spin_long(case):
    """A long trace of a spin element: the readout tone and the gate pulse over all points."""
    q, points, delay, ch, idx, ov = case
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.enums import BinMode
    from quantify_scheduler.operations.gate_library import Measure, Reset
    from quantify_scheduler.schedules.schedule import Schedule
    qd = other_device("spin")
    p, e = SPIN[q], qd.get_element(q)
    try:
        e.measure.acq_delay(delay * 1e-9)
        e.measure.num_points(points)
        s = Schedule("s")
        s.add(Measure(q, acq_protocol="LongTimeTrace", bin_mode=BinMode.APPEND, acq_channel=ch, acq_index=idx, **dict(ov)))
        s.add(Reset("s0"))
        s.add(Measure("s0"))
        comp = SerialCompiler("c").compile(s, qd.generate_compilation_config())
        D, ro, ov = p["integ"], f"{q}.ro", dict(ov)
        acq = dict(acq_channel=p["chan"] if ch is None else ch, acq_index=idx, coords=(), bin_mode="append", protocol="SSBIntegrationComplex")
        T = delay + points * D
        want = [(0, "offset", p["res"], ro, 0, {"offset_path_I": ov.get("pulse_amp", p["pulse_amp"]), "offset_path_Q": 0.}),
                (0, "square", ov.get("gate_port", p["gate"]), "cl0.baseband", points * D, {"amp": ov.get("gate_pulse_amp", p["gate_amp"])})]
        for i in range(points):
            want += [(delay + i * D, "phase-reset", ro), (delay + i * D, "acq", p["res"], ro, D, acq)]
        want += [(T, "offset", p["res"], ro, 0, {"offset_path_I": 0, "offset_path_Q": 0})]
        ref.GATES = G = SpinRef()
        G.el[q]["acq_delay"] = delay
        T += 4 + SPIN["s0"]["reset"]
        want += [(T + x[0], *x[1:]) for x in G.expand("Measure", ("s0",))[1]]
        got, _ = gates.resolve(gates.tree(comp))
        exp, _ = gates.resolve(want)
        d = gates.diff(got, exp)
        if d:
            raise Violation("pulses-differ", d)
        return R("ok", len(got), points, 1, str((case, got)))
    finally:
        spin_set(e, p)


def run_spin_init(case):
    """The pulse of a spin initialisation, for an edge that is calibrated for it."""
    D, diff, amps, rates, lead = case
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.backends.graph_compilation import OperationCompilationConfig
    from quantify_scheduler.operations.gate_library import Reset
    from quantify_scheduler.operations.pulse_factories import spin_init_pulse
    from quantify_scheduler.operations.spin_library import SpinInit
    from quantify_scheduler.schedules.schedule import Schedule
    cfg = other_device("spin").generate_compilation_config().model_copy(deep=True)
    cfg.device_compilation_config.edges["s0_s1"]["SpinInit"] = OperationCompilationConfig(factory_func=spin_init_pulse, factory_kwargs=dict(
        square_duration=D * 1e-9, ramp_diff=diff * 1e-9, parent_port="s0:g", parent_clock="cl0.baseband", child_port="s1:g", child_clock="cl0.baseband",
        parent_square_amp=amps[0], parent_ramp_amp=amps[1], parent_ramp_rate=rates[0] * 1e9, child_square_amp=amps[2], child_ramp_amp=amps[3], child_ramp_rate=rates[1] * 1e9))
    s = Schedule("s")
    if lead:
        s.add(Reset("s1"))
    s.add(SpinInit("s0", "s1"))
    s.add(Reset("s0"))
    t = SPIN["s1"]["reset"] if lead else 0
    dp, dc = r(amps[1] / rates[0]), r(amps[3] / rates[1])
    tp, tc = t + D + max(0, -diff), t + D + max(0, diff)
    want = [(t, "square", "s0:g", "cl0.baseband", D, {"amp": amps[0]}), (t, "square", "s1:g", "cl0.baseband", D, {"amp": amps[2]}),
            (tp, "ramp", "s0:g", "cl0.baseband", dp, {"amp": amps[1], "offset": 0}), (tc, "ramp", "s1:g", "cl0.baseband", dc, {"amp": amps[3], "offset": 0})]
    try:
        comp = SerialCompiler("c").compile(s, cfg)
    except Exception as e:
        raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
    got, _ = gates.resolve(gates.tree(comp))
    exp, _ = gates.resolve(want)
    d = gates.diff(got, exp)
    if d:
        raise Violation("pulses-differ", d)
    T = max(tp + dp, tc + dc) + SPIN["s0"]["reset"]
    if abs(comp.duration * 1e9 - T) > 1e-6:
        raise Violation("duration", f"{comp.duration} instead of {T} ns")
    return R("ok", len(got), 3, 1, str((case, got)))


def leaves(op):
    if hasattr(op, "schedulables"):
        return [x for o in op.operations.values() for x in leaves(o)]
    if op.data.get("control_flow_info") is not None:
        return leaves(op.body)
    return [op.data]


def main():
    ck = Check("C14", rule=NOTE, assumptions=["waveform formulas and hardware lowering belong to C02 and C23", "phase shifts act before pulses at the same instant"])
    S = setters()
    h = [(None,)] + [(s,) for s in S] + [(s, None) for s in S[::7]]
    base = {(t, k): (gates.EDGES[t][k[0]][k[1]] if isinstance(k, tuple) else (gates.EDGES if isinstance(t, tuple) else gates.ELEMENTS)[t][k]) for t, k, _ in S}
    h += [(s, (s[0], s[1], base[s[0], s[1]])) for s in S]
    pairs = list(itertools.permutations(S, 2))
    h += pairs if THOROUGH else pairs[::41]
    ck.explore(run_history, h, label="parameter histories")
    # overrides
    OV = [(("X",), {"amp180": .9, "motzoi": .5, "duration": 60e-9, "port": "alt:mw", "clock": "q1.12"}),
          (("Rxy", 30., 40.), {"amp180": .9, "motzoi": .5, "duration": 60e-9, "port": "alt:mw"}),
          (("Z90",), {"clock": "q1.12"}), (("Rz", 20.), {"clock": "q1.12"}),
          (("H",), {"amp180": .9, "motzoi": .5, "duration": 60e-9, "port": "alt:mw"}),
          (("Reset",), {"duration": 500e-9}),
          (("Measure",), {"pulse_amp": .8, "pulse_duration": 700e-9, "acq_delay": 200e-9, "acq_duration": 900e-9, "acq_rotation": 99., "acq_threshold": .8,
                          "reset_clock_phase": False, "port": "alt:res", "clock": "q1.ro"})]
    c = []
    for (name, *pre), keys in OV:
        qs = [("q0",), ("q2",)] + ([("q0", "q2"), ("q2", "q1", "q0")] if name in ("Measure", "Reset", "H") else [])
        sets = [dict([x]) for x in keys.items()] + [dict(p) for p in itertools.combinations(keys.items(), 2)] + [keys, {"unknown_parameter": 3}]
        for q in qs:
            for ov in sets:
                ex = {"acq_protocol": "ThresholdedAcquisition"} if name == "Measure" else {}
                o, n, m = g(name, *pre, *q, **ov, **ex), g(name, *pre, *q, **ex), g(name, *pre, "q1", **ex)
                for its in ([o], [n, o, n], [o, n, o], [("sub", [o, n]), n], [n, ("sub", [n]), ("sub", [o])], [("loop", 2, [o]), n], [("loop", 2, [n, o]), m], [("loop", 2, [o], "bare"), n]):
                    c.append(its)
    for args in (("q0", "q1"), ("q1", "q0"), ("q1", "q2")):
        keys = {"square_amp": .9, "square_duration": 100e-9, "square_port": "alt:fl", "square_clock": "q0.12", "virt_z_parent_qubit_phase": 5., "virt_z_child_qubit_phase": 6.,
                "virt_z_parent_qubit_clock": "q0.12", "virt_z_child_qubit_clock": "q1.12"}
        for ov in [dict([x]) for x in keys.items()] + [dict(p) for p in itertools.combinations(keys.items(), 2)] + [keys]:
            o, n, x, y = g("CZ", *args, **ov), g("CZ", *args), g("X", "q0"), g("Y", "q1")
            for its in ([o], [n, x, o, y, n, x], [("sub", [o]), x, y, n], [("loop", 2, [n, x, o]), y]):
                c.append(its)
    ck.explore(run_seq, c, label="overrides")
    # measurement requests
    ms = [g("Measure", q, **kw) for q in ("q0", "q1") for kw in (
        {}, {"acq_channel": 5}, {"acq_channel": "ch_a"}, {"coords": (("a", 1),)}, {"coords": (("a", 1), ("b", 2.5))}, {"acq_index": 3}, {"bin_mode": "append"}, {"bin_mode": "average"},
        {"acq_protocol": "ThresholdedAcquisition", "feedback_trigger_label": "lab"}, {"acq_protocol": "ThresholdedAcquisition"}, {"acq_protocol": "Trace"},
        {"acq_protocol": "SSBIntegrationComplex", "bin_mode": "append", "acq_index": 0}, {"pulse_amp": .77, "coords": (("a", 2),)})]
    ms += [g("Measure", "q0", "q1"), g("Measure", "q1", "q0", acq_index=(4, 5)), g("Measure", "q0", "q1", acq_channel=("a", "b")), g("Measure", "q2", "q0", coords=(("x", 3),)),
           g("Measure", "q0", "q1", "q2", acq_protocol="ThresholdedAcquisition", bin_mode="append"), g("Measure", "q1", "q2", acq_index=2), g("Measure", "q1", "q2", acq_delay=300e-9)]
    gs = ms + [g("X", "q0"), g("Y90", "q1"), g("CZ", "q1", "q0"), g("Reset", "q0"), g("H", "q0", "q1"), g("Rz", 30., "q0"), g("Idle", 12)]
    c = [list(s) for n in (1, 2) for s in itertools.product(gs, repeat=n)]
    t3 = [list(s) for s in itertools.product(gs, repeat=3)]
    c += t3 if THOROUGH else t3[::17]
    kws = [{"rel": 20}, {"pt": "start"}, {"pt": "start", "rel": 100}, {"pt": "center", "pt_new": "center"}, {"pt_new": "end"}]
    c += [[a, (b, k)] for a in ms for b in gs for k in kws]
    c += [[("loop", 2, [a, b])] for a in ms for b in gs] + [[a, ("sub", [b, a])] for a in ms for b in gs]
    for q in ("q0", "q1", "q2"):
        for th in (-540., -180., -90., 0., 1e-3, 90., 179., 180., 181., 270., 360., 450., 720.):
            for ph in (-90., 0., 45., 360., 400.):
                c.append([g("Rxy", th, ph, q), g("Rz", th, q), g("Rxy", ph, th, q)])
    c += [("alap", list(s)) for n in (1, 2) for s in itertools.product(gs, repeat=n)]
    c += [("alap", [("loop", 2, [a, ("sub", [b, a])])]) for a in ms for b in gs]
    ck.explore(run_seq, c, label="measurements and gates")
    # early operations
    ea = [g("Measure", *q, apply_acquisition_delay=b, **kw) for q in (("q0",), ("q1",), ("q0", "q1"), ("q1", "q2", "q0"), ("q2",)) for b in (True, False)
          for kw in ({}, {"acq_delay": 120e-9}, {"acq_duration": 800e-9}, {"freq": 6.8e9})] + [g("X", "q0"), g("Reset", "q1"), g("Y90", "q1")]
    c = [(list(s), again, st) for n in (1, 2, 3) for s in itertools.product(ea, repeat=n) for again, st in (((False, "asap"), (True, "asap"), (True, "alap")) if n < 3 else ((True, "asap"), (True, "alap")))]
    ck.explore(run_early, c if THOROUGH else c[:3000] + c[3000::29], label="early next operation")
    # edges
    ops = [g("CZ", *p) for p in itertools.permutations(("q0", "q1", "q2", "zz"), 2)] + [g("CNOT", "q0", "q1"), g("X", "zz"), g("Measure", "q0", "zz"), g("Measure", "zz", "q0"),
           g("Measure", "zz"), g("Reset", "zz", "q0"), g("H", "zz"), g("H", "q0", "zz"), g("Rz", 3., "zz"), g("ChargeReset", "q0"), g("CRCount", "q0"), g("SpectroscopyOperation", "q0"),
           g("SpinInit", "q0", "q1"), g("X", "q0"), g("Measure", "q0")]
    E = [("q0", "q1"), ("q1", "q0"), ("q1", "q2"), ("q2", "q0")]
    c = [(es, o) for n in range(5) for es in itertools.combinations(E, n) for o in ops]
    ck.explore(run_edges, c, label="edges and unknown names")
    # clocks
    nan = float("nan")
    c = [(u, d, o, w) for u in ((), (5e9,), (4e9,), (5.5e9, 5.6e9), (5.5e9, 5.5e9)) for d in (None, 5.5e9, nan) for o in ("gate", "pulse", "other") for w in ("top", "sub")]
    ck.explore(run_clock, c, label="clocks")
    # spin and NV
    sp = [g("X", "s0"), g("Rxy", 40., 30., "s1"), g("H", "s0"), g("H", "s0", "s1"), g("Rz", 20., "s1"), g("Z", "s0"), g("CZ", "s0", "s1"), g("CZ", "s1", "s0"), g("Reset", "s0", "s1"),
          g("Measure", "s0"), g("Measure", "c0"), g("Measure", "s1", "c0", "s0"), g("Measure", "s0", acq_protocol="ThresholdedAcquisition"), g("Measure", "c0", acq_channel=7),
          g("Measure", "s0", gate_pulse_amp=.9), g("Measure", "s0", gate_port="alt"), g("X", "s0", amp180=.9), g("Measure", "s1", pulse_duration=64e-9)]
    c = [("spin", list(s), None) for n in (1, 2, 3) for s in itertools.product(sp, repeat=n)]
    alls = sp[:2] + sp[3:5] + sp[6:13]
    for q, p in SPIN.items():
        c += [("spin", alls, (q, k, (not v) if isinstance(v, bool) else v + 20 if isinstance(v, (int, float)) and v > 1 else v * .5 + .01 if isinstance(v, float) else v + "x" if isinstance(v, str) else v + 4))
              for k, v in p.items() if k != "sensor"]
    c += [("spin", alls, (("s0", "s1"), k, v)) for k, v in (("amp", .8), ("dur", 80), (("ph", "s0"), 7.), (("ph", "s1"), 8.), ("port", "other"))]
    nv = [g("X", "n0"), g("Rxy", 40., 30., "n1"), g("Y90", "n1"), g("Reset", "n0"), g("Reset", "n1", "n0"), g("SpectroscopyOperation", "n0"), g("SpectroscopyOperation", "n1"),
          g("SpectroscopyOperation", "n0", amplitude=.9, duration=80e-9),
          g("ChargeReset", "n0"), g("ChargeReset", "n0", "n1"), g("CRCount", "n0"), g("CRCount", "n1", "n0"), g("CRCount", "n0", acq_channel=9), g("Measure", "n0"), g("Measure", "n1", "n0"),
          g("Measure", "n1"), g("Measure", "n0", acq_protocol="Trace"), g("Measure", "n1", acq_index=3, coords=(("a", 1),)), g("Measure", "n0", "n1", acq_index=(2, 4)),
          g("Measure", "n0", acq_protocol="Timetag"), g("Measure", "n1", acq_protocol="Timetag"), g("Measure", "n1", acq_protocol="TimetagTrace")]
    c += [("nv", list(s), None) for n in (1, 2, 3) for s in itertools.product(nv, repeat=n)]
    alln = nv[:6] + nv[8:16] + nv[19:]
    for q, p in NV.items():
        for k, v in p.items():
            w = {"SquarePulse": "SkewedHermitePulse", "SkewedHermitePulse": "GaussPulse", "GaussPulse": "SkewedHermitePulse", "first": "second", "last": "first", "start": "first", "end": "start"}.get(v)
            c.append(("nv", alln, (q, k, w or (v + "x" if isinstance(v, str) else v * .5 if abs(v) < 1 and v else v + 4))))
    o3 = [x for x in c if len(x[1]) != 3]
    ck.explore(run_other, o3 + [x for x in c if len(x[1]) == 3][::1 if THOROUGH else 5], label="spin and NV elements")
    c = [("spin", [x]) for x in (g("X", "c0"), g("Reset", "c0"), g("H", "c0"), g("CZ", "s0", "c0"), g("X", "zz"), g("CNOT", "s0", "s1"))]
    c += [("nv", [x]) for x in (g("Rz", 3., "n0"), g("H", "n0"), g("CZ", "n0", "n1"), g("X", "zz"))]
    ck.explore(run_unsupported, c, label="unsupported gates")
    c = [(w, q, ch, i, bm, d) for w in ("freq", "long", "magnitude", "NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration", "WeightedThresholdedAcquisition")
         for q in gates.ELEMENTS for ch in (None, 7) for i in (None, 2) for bm in (None, "append", "average") for d in (0, 20, 500)]
    ck.explore(run_special, c, label="special measurements")
    c = [(q, n, d, ch, i, ov) for q in ("s0", "s1", "c0") for n in (1, 2, 7) for d in (0, 20, 100) for ch in (None, 7) for i in (None, 2)
         for ov in ((), (("gate_pulse_amp", .9),), (("gate_port", "alt"), ("pulse_amp", .05)))]
    ck.explore(run_spin_long, c, label="long traces of spins")
    c = [(D, f, a, rt, l) for D in (20, 100) for f in (-40, -8, 0, 4, 100) for a in itertools.product((.2, -.3), (.4,), (.1, -.1), (.2, .5)) for rt in itertools.product((.01, .1), repeat=2) for l in (0, 1)]
    ck.explore(run_spin_init, c, label="spin initialisation")
    ck.finish(("ok", "refused"))


if __name__ == "__main__":
    main()
