"""C21: schedule gettables, from the Parameter to the returned arrays.

1. All histories of user actions (parameters, schedule arguments, repetitions,
   hardware configuration, initialize, compile, get, failures of the
   instruments) up to the depth on a real gettable, coordinator and cluster
   component; the simulated cluster executes the program and settings it
   actually holds, so stale programs, settings, data or repetitions show.
2. All gettable options times numbers of setpoints, repetitions, bin modes and
   channel names, on the same stack.
3. All small shapes of datasets an instrument may return.
4. Diagnostics reports for a failure at every stage.
"""
import itertools
import math
import os
import re
import sys
import warnings

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from lib.common import THOROUGH, Check, R, Violation, scratch  # noqa: E402

TECHNIQUE = ("Exhaustive enumeration of all histories of user actions and instrument failures up to the depth, and of all bounded "
             "dataset shapes, on the real gettable, compiler, coordinator and cluster component; the uploaded programs are executed "
             "by a Q1ASM interpreter whose results carry the settings, the run and the instant they come from")
LEVEL = "model_checking"
NOTE = ("Histories of depth 3 (thorough 4) over parameter, argument, repetition, configuration, initialize, compile, get and fault "
        "actions, with plain and profiling gettables; every option combination; datasets up to two channels by two indices by two repetitions with missing values")

LINES = {"bb": ("q:bb", "cl0.baseband", "cluster0.module1.complex_output_0"),
         "res": ("q:res", "q.ro", "cluster0.module2.complex_output_0")}
DUR = 100
SIM = None


class Boom(RuntimeError):
    pass


class BoomAttr(AttributeError):
    pass


def schedule(amp, taus, repetitions, chans=(0, 1), mode="AVERAGE", freq=7.0e9, bad=False):
    """Per tau: a pulse, an idle of tau ns and an acquisition on each line."""
    from quantify_scheduler import Schedule
    from quantify_scheduler.enums import BinMode
    from quantify_scheduler.operations.acquisition_library import SSBIntegrationComplex
    from quantify_scheduler.operations.pulse_library import IdlePulse, SquarePulse
    from quantify_scheduler.resources import ClockResource
    s = Schedule("s", repetitions)
    s.add_resource(ClockResource("q.ro", freq))
    if bad:
        s.add(SquarePulse(amp=amp, duration=40e-9, port="nowhere", clock="cl0.baseband"))
    for i, tau in enumerate(taus):
        for (port, clock, _), ch in zip(LINES.values(), chans):
            if ch is None:
                continue
            s.add(SquarePulse(amp=amp, duration=40e-9, port=port, clock=clock))
            s.add(IdlePulse(tau * 1e-9))
            s.add(SSBIntegrationComplex(port=port, clock=clock, duration=DUR * 1e-9, acq_channel=ch, acq_index=i,
                                        bin_mode=getattr(BinMode, mode)))
            s.add(IdlePulse(400e-9))
    return s


def truth(w, run):
    """{channel: array[repetition][index]} for the world w = {amp, taus, reps, freq} at the run-th start."""
    t = 0
    at = []
    chans = [c for c in w.get("chans", (0, 1))]
    for i, tau in enumerate(w["taus"]):
        for line, ch in zip(LINES, chans):
            if ch is None:
                continue
            at.append((line, ch, i, t + 40 + tau, 40 + tau))
            t += 40 + tau + DUR + 400
    out = {}
    for line, ch, i, ta, delta in at:
        for r in range(w["reps"]):
            out.setdefault(ch, {})[r, i] = value(run, w["amp"], delta, w["freq"] if line == "res" else 0, 12 + r * (t + 4) + ta) / DUR
    return {ch: np.array([[d[r, i] for i in range(len(w["taus"]))] for r in range(w["reps"])]) for ch, d in out.items()}


def value(run, amp, delta, nco, t):
    return complex(100 * run + 10 * amp, delta / 10 + nco / 1e6 + t / 100)


def hw(freq):
    mod = {"1": {"instrument_type": "QRM"}, "2": {"instrument_type": "QRM_RF"}}
    return {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
            "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": mod}},
            "hardware_options": {"modulation_frequencies": {"q:res-q.ro": {"interm_freq": freq}}},
            "connectivity": {"graph": [[p, port] for port, _, p in LINES.values()]}}


class Sim:
    """The cluster behind the real component; it runs what it was armed with."""

    def __init__(self):
        from qcodes.instrument import Instrument
        from quantify_core.data.handling import set_datadir
        from lib import icsim
        Instrument.close_all()
        d = os.path.join(scratch(), f"data{os.getpid()}")
        os.makedirs(d, exist_ok=True)
        set_datadir(d)
        self.datadir = d
        self.cl, self.cc = icsim.cluster_component({1: "QRM", 2: "QRM_RF"})
        self.run, self.held, self.armed, self.n_ev, self.n_step = 0, {}, [], 0, 0
        self.fault, self.calls, self.done = None, {}, {}
        put = object.__setattr__
        for i, m in enumerate(self.cl.modules[:2]):
            put(m, "arm_sequencer", lambda *a, i=i, **k: self.armed.append((i, k.get("sequencer", a[0] if a else None))))
            put(m, "get_acquisitions", lambda seq, i=i: self.data(i, seq))
            put(m, "delete_acquisition_data", lambda *a, **k: None)
            put(m, "start_sequencer", lambda *a, **k: None)
            put(m, "stop_sequencer", lambda *a, **k: None)
        put(self.cl, "start_sequencer", lambda *a, **k: self.start())
        put(self.cl, "stop_sequencer", lambda *a, **k: self.stop())
        put(self.cl, "store_scope_acquisition", lambda *a, **k: None)
        for n in ("prepare", "start", "stop", "retrieve_acquisition", "get_hardware_log"):
            self.hook(n)

    def hook(self, n):
        real = getattr(self.cc, n)

        def f(*a, **k):
            self.calls[n] = self.calls.get(n, 0) + 1
            if self.fault and self.fault[0] == n and self.calls[n] == self.fault[1]:
                x = self.fault[2]
                self.done[n] = self.done.get(n, 0) + (x is BoomAttr)        # the coordinator only warns about these
                raise x("injected")
            if n == "get_hardware_log":
                return {"cluster0_cluster": {"log": "text"}}
            y = real(*a, **k)
            self.done[n] = self.done.get(n, 0) + 1
            return y
        object.__setattr__(self.cc, n, f)

    def arm_fault(self, f):
        self.fault, self.calls = f, {}

    def start(self):
        self.run += 1
        # one program per armed sequencer, as it is now
        self.held = {}
        for m, q in self.armed:
            s = self.cl.modules[m].sequencers[q]
            self.held[m, q] = (self.run, s.sequence.cache(), s.nco_freq() if s.mod_en_awg() else 0)
        self.armed = []

    def stop(self):
        self.armed = []

    def data(self, m, q):
        from lib import icsim, q1, rig
        if (m, q) not in self.held:
            raise RuntimeError(f"sequencer {q} of module {m} was not started")
        run, seq, nco = self.held[m, q]

        class S:
            sequence = seq
        try:
            r = rig.execute(S)
        except q1.Q1Error as e:
            raise Violation("illegal-program", str(e)) from None
        self.n_step += r.tr.steps
        self.n_ev += len(r.tr.events)
        b = icsim.Bins(r.acqs)
        gain, last = 0, None
        for e in r.tr.events:
            if e[1] == "gain":
                gain = e[2][0] / 32768
            elif e[1] == "play":
                last = (e[0], gain * float(np.max(np.abs(r.waves[e[2]]))))
            elif e[1] == "acq":
                b.add(e[2], e[3], {"iq": value(run, round(last[1], 3), e[0] - last[0], nco, e[0])})
        return b.as_instrument()


def sim():
    global SIM
    if SIM is None:
        SIM = Sim()
    return SIM


class World:
    """A fresh device, coordinator and gettable on the cluster."""

    def __init__(self, gettable=True, profiled=False, **options):
        from qcodes.instrument import Instrument
        from qcodes.parameters import Parameter
        from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
        from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
        from quantify_scheduler.gettables import ScheduleGettable
        from quantify_scheduler.gettables_profiled import ProfiledScheduleGettable
        from quantify_scheduler.instrument_coordinator import InstrumentCoordinator
        s = self.sim = sim()
        for n in ("dut", "ic", "e0", "profiled_ic"):
            try:
                Instrument.find_instrument(n).close()
            except KeyError:
                pass
        s.arm_fault(None)
        s.run, s.held, s.armed, s.done = 0, {}, [], {}
        self.ic = InstrumentCoordinator("ic", add_default_generic_icc=False)
        self.ic.add_component(s.cc)
        self.qd = QuantumDevice("dut")
        self.qd.instr_instrument_coordinator("ic")
        self.qd.hardware_config(hw(100e6))
        self.qd.cfg_sched_repetitions(2)
        self.qd.add_element(BasicTransmonElement("e0"))
        self.amp_value = .1
        self.amp = Parameter("amp", get_cmd=lambda: self.amp_value, set_cmd=False)
        self.kw = {"amp": self.amp, "taus": [20], **options.pop("kwargs", {})}
        if gettable:
            self.g = (ProfiledScheduleGettable if profiled else ScheduleGettable)(self.qd, schedule, self.kw, **options)


# ---------------------------------------------------------------- 1. histories
FAULTS = {"prepare": ("prepare", 1, Boom), "start": ("start", 1, Boom), "retrieve": ("retrieve_acquisition", 1, Boom),
          "stop": ("stop", 1, Boom), "stopattr": ("stop", 1, BoomAttr), "stop2": ("stop", 2, Boom)}


def actions():
    return ([("get", None), ("init", None), ("compile", None), ("amp", .2), ("amp", None), ("taus", (60,)), ("taus", (20, 80)),
             ("bad", None), ("reps", 3), ("hw", 60e6), ("always", False)] + [("fault", f) for f in FAULTS])


class Model:
    def __init__(self, always):
        self.now = {"amp": .1, "taus": (20,), "reps": 2, "freq": 100e6}
        self.always, self.inited, self.loaded, self.compiled, self.run, self.fault = always, False, None, None, 0, None
        self.durations, self.compiles = [], 0

    def compile(self):
        """The compiled world, or what must be raised."""
        if self.now["amp"] is None:
            return TypeError
        if self.now["taus"] == "bad":
            return Exception
        self.compiled = dict(self.now)
        self.compiles += 1
        return None

    def init(self):
        self.inited = False
        x = self.compile()
        if x is None:
            self.durations.append(self.now["reps"] * sum(40 + t + DUR + 400 for t in self.now["taus"] for _ in LINES) * 1e-9)
        if x is None and self.fault == "prepare":
            x = Boom
        if x is None:
            self.inited, self.loaded = True, self.compiled
        return x

    def get(self):
        """-> (exception class or None, expected dataset)"""
        f = self.fault
        if f == "stop":
            return Boom, None
        if not self.inited or self.always:
            x = self.init()
            if x is not None:
                return x, None
        if f == "start":
            return Boom, None
        self.run += 1
        if f in ("retrieve", "stop2"):
            return Boom, None
        return None, truth(self.loaded, self.run)


def run_history(case):
    always, hist, profiled = case
    w = World(batched=True, always_initialize=always, profiled=profiled)
    m = Model(always)
    s = w.sim
    n0, e0 = s.n_step, s.n_ev
    seen = []
    for k, (a, x) in enumerate((*hist, ("get", None))):
        text = f"{hist[:k + 1]} always_initialize={always}{' profiled' if profiled else ''}"
        want_exc = want = got = got_exc = None
        if a == "fault":
            m.fault = x
            s.arm_fault(FAULTS[x])
            continue
        if a == "amp":
            w.amp_value = x
            m.now["amp"] = x
        elif a == "taus":
            w.kw["taus"] = list(x)
            w.kw.pop("bad", None)
            m.now["taus"] = x
        elif a == "bad":
            w.kw["bad"] = True
            m.now["taus"] = "bad"
        elif a == "reps":
            w.qd.cfg_sched_repetitions(x)
            m.now["reps"] = x
        elif a == "hw":
            w.qd.hardware_config(hw(x))
            m.now["freq"] = x
        elif a == "always":
            w.g.always_initialize = not w.g.always_initialize
            m.always = not m.always
        elif a in ("init", "compile", "get"):
            f = {"init": w.g.initialize, "compile": w.g.compile, "get": w.g.get}[a]
            if a == "get":
                want_exc, want = m.get()
            else:
                want_exc = m.init() if a == "init" else m.compile()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = f()
            except Violation:
                raise
            except Exception as e:
                got_exc = e
            if a != "compile" or m.fault is None:
                m.fault = None
                s.arm_fault(None)
            if want_exc is None and got_exc is not None:
                raise Violation("history/fails", f"{text}: {a} raised {type(got_exc).__name__}: {got_exc}")
            if want_exc is not None and (got_exc is None or not isinstance(got_exc, want_exc)):
                raise Violation("history/error-lost", f"{text}: {a} gave {got_exc or got!r}, {want_exc.__name__} is due")
            if a == "compile" and want_exc is None:
                check_compiled(got, m.compiled, text)
                if w.g.compiled_schedule is not got:
                    raise Violation("history/compiled-schedule", text)
            if want is not None:
                compare(got, flat(want, True), text)
                seen.append(tuple(map(str, np.concatenate(got))))
    if profiled:
        check_profile(w, m, str(hist))
    return R("get" if seen else "refused", states=s.n_ev - e0, transitions=s.n_step - n0, traces=len(seen), distinct=tuple(seen) or None)


def check_profile(w, m, text):
    """The profile has one entry per completed step and per prepared schedule; closing restores the coordinator."""
    import json
    w.g.close()
    if w.qd.instr_instrument_coordinator() != "ic":
        raise Violation("profile/coordinator", text)
    want = {n: w.sim.done.get(n, 0) for n in ("prepare", "start", "stop", "retrieve_acquisition")} | {"compile": m.compiles}
    got = {n: len(w.g.profile.get(n, ())) for n in want}
    if got != want:
        raise Violation("profile/entries", f"{text}: {got} entries instead of {want}")
    d = w.g.profile["schedule"]
    if len(d) != len(m.durations) or not np.allclose(d, m.durations, atol=1e-12):
        raise Violation("profile/durations", f"{text}: {d} instead of {m.durations}")
    if any(not 0 <= t < 60 for n in want for t in w.g.profile.get(n, ())):
        raise Violation("profile/times", f"{text}: {w.g.profile}")
    w.g.log_profile(path=w.sim.datadir, filename="profile.json")
    with open(os.path.join(w.sim.datadir, "profile.json")) as f:
        if json.load(f) != w.g.profile:
            raise Violation("profile/file", text)


def check_compiled(comp, want, text):
    got = {"reps": comp.repetitions, "amp": set(), "taus": []}
    for sc in comp.schedulables.values():
        op = comp.operations[sc["operation_id"]]
        for p in op["pulse_info"]:
            if p.get("amp") is not None:
                got["amp"].add(float(p["amp"]))
            elif p.get("duration") and not op["acquisition_info"] and abs(p["duration"] - 400e-9) > 1e-12:
                got["taus"].append(round(p["duration"] * 1e9))
    taus = got["taus"][::2]
    if got["reps"] != want["reps"] or got["amp"] != {want["amp"]} or tuple(taus) != want["taus"]:
        raise Violation("history/compile", f"{text}: compiled {got['reps'], got['amp'], taus} instead of {want}")
    f = [q.modulation_freq for m in comp.compiled_instructions["cluster0"].values() if isinstance(m, dict) and "sequencers" in m
         for q in m["sequencers"].values() if q.modulation_freq]
    if f != [want["freq"]]:
        raise Violation("history/compile", f"{text}: compiled for {f} instead of {want['freq']}")


def flat(want, real_imag, mode="AVERAGE"):
    """The expected tuple: channels sorted, C order (repetition, index)."""
    out = []
    for ch in sorted(want):
        v = want[ch]
        v = np.mean(v, axis=0) if mode == "AVERAGE" else v.reshape(-1)
        out += [v.real, v.imag] if real_imag else [np.abs(v), np.degrees(np.arctan2(v.imag, v.real))]
    return out


def compare(got, want, text, key="history/wrong-value"):
    if not isinstance(got, tuple) or len(got) != len(want):
        raise Violation(key, f"{text}: {got!r} has not {len(want)} entries")
    for i, (a, b) in enumerate(zip(got, want)):
        a = np.asarray(a)
        if a.shape != np.shape(b) or not np.allclose(np.asarray(a, float), b, rtol=1e-6, atol=1e-6, equal_nan=True):
            raise Violation(key, f"{text}: entry {i} is {a.tolist()}, the hardware reported {np.asarray(b).tolist()}")


def histories():
    acts = actions()
    out = []
    for n in range(0, 5 if THOROUGH else 4):
        for h in itertools.product(acts, repeat=n):
            if n and h[-1][0] == "fault" and h[-1][1] == "stop2" and n > 2:
                pass
            # a fault only matters when a call follows; two in a row replace each other
            if any(a[0] == "fault" and b[0] == "fault" for a, b in zip(h, h[1:])):
                continue
            if n >= 3 and len(set(h)) < n - 1:
                continue
            if n >= 4 and not {"get", "init"} & {a[0] for a in h}:
                continue        # only settings: their order cannot matter more than at depth 3
            for always in (True, False):
                out.append((always, h, False))
                if n < 3 or THOROUGH and n < 4:
                    out.append((always, h, True))
    return out


# ---------------------------------------------------------------- 2. options
def options():
    out = []
    for taus, reps, mode in itertools.product([(20,), (20, 60), (60, 20, 100)], (1, 2, 3), ("AVERAGE", "APPEND")):
        for chans in [(0, 1), (1, 0), (0, 0), ("b", "a"), (10, 9), (0, None), (None, 3), ("ch_1", "ch_0")]:
            if chans == (0, 0):
                continue
            for batched, ri, xr in itertools.product((True, False), (True, False), (True, False)):
                out.append((taus, reps, mode, chans, batched, ri, xr))
    return out


def run_options(case):
    taus, reps, mode, chans, batched, ri, xr = case
    w = World(batched=batched, real_imag=ri, return_xarray=xr, num_channels=sum(c is not None for c in chans),
              kwargs={"taus": list(taus), "chans": chans, "mode": mode})
    w.qd.cfg_sched_repetitions(reps)
    n0, e0 = w.sim.n_step, w.sim.n_ev
    want = truth({"amp": .1, "taus": taus, "reps": reps, "freq": 100e6, "chans": chans}, 1)
    try:
        got = w.g.get()
    except Violation:
        raise
    except Exception as e:
        n = len(taus) * (reps if mode == "APPEND" else 1)
        if not xr and not batched and n > 1:
            if not isinstance(e, ValueError):
                raise Violation("options/wrong-error", f"{type(e).__name__}: {e}") from None
            return R("refused", distinct=("refused", n))
        raise Violation("options/fails", f"{type(e).__name__}: {e}") from None
    nch = len(want)
    k = ["I", "Q"] if ri else ["magn", "phase"]
    unit = ["V", "V"] if ri else ["V", "deg"]
    if w.g.name != k * nch or w.g.unit != unit * nch or len(w.g.label) != 2 * nch or w.g.batched is not batched:
        raise Violation("options/labels", f"{w.g.name} {w.g.unit} {w.g.label}")
    if xr:
        if set(got.data_vars) != set(want):
            raise Violation("options/channels", f"{set(got.data_vars)} instead of {set(want)}")
        for ch, v in want.items():
            da = got[ch]
            dims = ("repetition", f"acq_index_{ch}") if mode == "APPEND" else (f"acq_index_{ch}",)
            x = v if mode == "APPEND" else np.mean(v, axis=0)
            if da.dims != dims or da.shape != x.shape or not np.allclose(da.values, x, rtol=1e-6):
                raise Violation("options/wrong-value", f"{ch}: {da!r} instead of {x}")
    else:
        n = len(taus) * (reps if mode == "APPEND" else 1)
        if not batched and n > 1:
            raise Violation("options/accepted", f"{n} values in iterative mode: {got}")
        compare(got, flat(want, ri, mode), str(case), "options/wrong-value")
    return R("ok", states=w.sim.n_ev - e0, transitions=w.sim.n_step - n0, distinct=case)


# ---------------------------------------------------------------- 3. datasets
CPLX = ("SSBIntegrationComplex", "WeightedIntegratedSeparated", "NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration",
        "WeightedThresholdedAcquisition")
REAL = ("TriggerCount", "Timetag", "ThresholdedAcquisition")
OTHER = ("LongTimeTrace", "DualThresholdedTriggerCount", "ThresholdedTriggerCount", "TimetagTrace", "nonsense")


def shapes():
    one = []
    for n, reps in itertools.product((1, 2, 3), (None, 1, 2)):
        one.append((n, reps))
    out = []
    for proto in (*CPLX, *REAL, "Trace", *OTHER):
        for shape in one:
            for mask in range(1 << (shape[0] * (shape[1] or 1))) if proto in (CPLX[0], CPLX[1], REAL[1], REAL[2]) else (0,):
                for batched, ri in itertools.product((True, False), repeat=2):
                    out.append((((0, proto, shape, mask),), batched, ri))
    # several channels in every order of creation
    for chans in itertools.permutations((0, 2, 11), 2):
        for p1, p2 in itertools.product((CPLX[0], "TriggerCount", "ThresholdedAcquisition", "Trace"), repeat=2):
            for s1, s2 in itertools.product(((1, None), (2, None), (2, 2)), repeat=2):
                for batched, ri in itertools.product((True, False), repeat=2):
                    out.append((((chans[0], p1, s1, 0), (chans[1], p2, s2, 1)), batched, ri))
    for chans in itertools.permutations(("a", "b", "c")):
        out.append((tuple((c, CPLX[0], (2, None), i) for i, c in enumerate(chans)), True, True))
    out.append(((), True, True))
    out.append(((), False, False))
    return out


def array(ch, proto, shape, mask):
    n, reps = shape
    k = n * (reps or 1)
    base = 1 + 100 * (hash(str(ch)) % 1 + (ord(str(ch)[0]) + len(str(ch))))
    if proto == "TriggerCount":
        return np.array([base + i for i in range(k)], dtype=int).reshape((n,) if reps is None else (reps, n))
    v = np.array([base + i + (1j * (i * 7 - base / 3) if proto not in REAL else 0) for i in range(k)], complex)
    if proto in REAL:
        v = v.real
    for i in range(k):
        if mask >> i & 1:
            v[i] = math.nan if proto in REAL else complex(math.nan, math.nan)
    return v.reshape((n,) if reps is None else (reps, n))


def run_shape(case):
    chans, batched, ri = case
    from xarray import DataArray, Dataset
    g, box = shape_gettable()
    g.batched, g.real_imag = batched, ri
    ds, want, bad = {}, [], None
    for ch, proto, shape, mask in chans:
        a = array(ch, proto, shape, mask)
        dims = (f"acq_index_{ch}",) if shape[1] is None else (f"repetition" if proto != "Trace" else f"acq_index_{ch}",
                                                             f"acq_index_{ch}" if proto != "Trace" else f"trace_index_{ch}")
        ds[ch] = DataArray(a, dims=dims, attrs={"acq_protocol": proto})
    reps = {s[1] for _, p, s, _ in chans if s[1] and p != "Trace"}
    box["result"] = Dataset(ds) if chans else None
    for ch, proto, shape, mask in sorted(chans):
        a = ds[ch].values
        if proto in OTHER:
            bad = (ValueError, NotImplementedError)
        elif proto == "Trace" and (shape[1] is None or shape[1] != 1):
            bad = ValueError
        elif not batched and a.size != 1:
            bad = ValueError
        if bad:
            break
        v = a.reshape(-1)
        if proto in REAL:
            want.append(v.real)
        else:
            want += [v.real, v.imag] if ri else [np.abs(v), np.degrees(np.angle(v))]
    if not chans:
        bad = RuntimeError
    try:
        got = g.get()
    except Exception as e:
        if bad and isinstance(e, bad):
            return R("refused", distinct=str(e)[:60])
        raise Violation("shape/fails", f"{type(e).__name__}: {e}") from None
    if bad:
        raise Violation("shape/accepted", f"{got} for malformed data")
    compare(got, want, str(case), "shape/wrong-value")
    return R("ok", distinct=case)


SHAPE = None


def instructions(schedule, config):
    schedule["compiled_instructions"] = {"fk": {}}
    return schedule


def shape_gettable():
    """A gettable on a coordinator whose only component returns box['result']."""
    global SHAPE
    if SHAPE is None:
        from qcodes.instrument import Instrument
        from quantify_scheduler import Schedule
        from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
        from quantify_scheduler.gettables import ScheduleGettable
        from quantify_scheduler.instrument_coordinator import InstrumentCoordinator
        from quantify_scheduler.instrument_coordinator.components.base import InstrumentCoordinatorComponentBase
        from quantify_scheduler.operations.pulse_library import IdlePulse
        Instrument.close_all()
        box = {}

        class Fake(InstrumentCoordinatorComponentBase):
            is_running = False

            def start(self):
                pass
            stop = start

            def prepare(self, program):
                pass

            def retrieve_acquisition(self):
                return box["result"]

            def wait_done(self, timeout_sec=10):
                pass

            def get_hardware_log(self, cs):
                return None
        ic = InstrumentCoordinator("ic", add_default_generic_icc=False)
        ic.add_component(Fake(Instrument("fk")))

        class Device(QuantumDevice):
            def generate_compilation_config(self):
                from quantify_scheduler.backends.graph_compilation import SimpleNodeConfig
                c = super().generate_compilation_config()
                d = c.device_compilation_config
                d.compilation_passes = [*d.compilation_passes, SimpleNodeConfig(name="x", compilation_func=instructions)]
                return c
        qd = Device("dut")
        qd.instr_instrument_coordinator("ic")

        def f(repetitions):
            s = Schedule("s", repetitions)
            s.add(IdlePulse(1e-6))
            return s
        SHAPE = ScheduleGettable(qd, f, {}, always_initialize=False), box, ic, qd
    return SHAPE[:2]


# ---------------------------------------------------------------- 4. reports
STAGES = {"none": ("completed_exp", None), "param": ("failed_initialization", "TypeError"), "compile": ("failed_initialization", "Error"),
          "prepare": ("failed_initialization", "Boom"), "start": ("failed_exp", "Boom"), "retrieve": ("failed_exp", "Boom"),
          "stop2": ("failed_exp", "Boom"), "log": ("failed_hw_log_retrieval", "Boom"), "start+log": ("failed_connection_to_hw", "Boom")}


def reports():
    out = []
    for stage, batched, ri, xr, always, before in itertools.product(STAGES, (True,), (True, False), (False, True), (True, False), (False, True)):
        out.append((stage, batched, ri, xr, always, before))
    return out


def run_report(case):
    import json
    import zipfile
    stage, batched, ri, xr, always, before = case
    w = World(batched=batched, real_imag=ri, return_xarray=xr, always_initialize=always)
    s = w.sim
    n_before = 0
    if before:
        w.g.get()
        n_before = 1
    flag, err = STAGES[stage]
    if stage == "param":
        w.amp_value = None
    w.kw["taus"] = [60]
    if stage == "compile":
        w.kw["bad"] = True
    parts = stage.split("+")
    f = FAULTS.get(parts[0])
    if "stop2" in parts:
        f = ("stop", 2, Boom)
    s.arm_fault(f)
    if "log" in parts:
        old = s.cc.get_hardware_log

        def boom(*a, **k):
            raise Boom("log")
        object.__setattr__(s.cc, "get_hardware_log", boom)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            path = w.g.initialize_and_get_with_report()
    except TypeError as e:
        if stage != "param":
            raise Violation("report/fails", f"{type(e).__name__}: {e}") from None
        path = None
    except Exception as e:
        raise Violation("report/fails", f"{type(e).__name__}: {e}") from None
    finally:
        if "log" in parts:
            object.__setattr__(s.cc, "get_hardware_log", old)
        s.arm_fault(None)
    if path is not None:
        if os.path.dirname(os.path.abspath(path)) != os.path.abspath(s.datadir) or not os.path.basename(path).startswith(f"diagnostics_report_{flag}_"):
            raise Violation("report/flag", f"{path}: {flag} is due")
        z = zipfile.ZipFile(path)
        names = set(z.namelist())
        must = {"timestamp.txt", "dependency_versions.json", "gettable.json", "quantum_device.json", "hardware_cfg.json", "schedule.json"}
        if flag == "failed_initialization":
            must |= {"compiled_schedule.json"} if stage == "prepare" else set()
        else:
            must |= {"compiled_schedule.json", "snapshot.json"}
        if flag in ("completed_exp", "failed_hw_log_retrieval"):
            must.add("acquisition_data.txt")
        logs = {n for n in names if n.startswith("cluster0")}
        if "log" not in parts and flag != "failed_initialization" and not logs:
            raise Violation("report/no-logs", str(names))
        if err and flag != "failed_hw_log_retrieval":
            must.add("error_trace.txt")
        if flag == "failed_hw_log_retrieval":
            must.add("connection_error_trace.txt")
        if names - logs != must:
            raise Violation("report/contents", f"{sorted(names - logs)} instead of {sorted(must)}")
        if "error_trace.txt" in names and err not in z.read("error_trace.txt").decode():
            raise Violation("report/trace", z.read("error_trace.txt").decode()[-300:])
        gc = json.loads(z.read("gettable.json"))
        if gc["repetitions"] != 2 or stage != "param" and gc["evaluated_schedule_kwargs"] != {**w.kw, "amp": .1}:
            raise Violation("report/gettable", str(gc))
        if json.loads(z.read("hardware_cfg.json"))["hardware_options"] != hw(100e6)["hardware_options"]:
            raise Violation("report/hardware-config", "")
        from quantify_scheduler.schedules.schedule import CompiledSchedule, Schedule
        sc = Schedule.from_json(z.read("schedule.json").decode())
        if sc.repetitions != 2 or len(sc.schedulables) != 8 + (stage == "compile"):
            raise Violation("report/schedule", "")
        if "compiled_schedule.json" in names:
            cs = CompiledSchedule.from_json(z.read("compiled_schedule.json").decode())
            if set(cs.compiled_instructions) != {"cluster0"}:
                raise Violation("report/compiled-schedule", str(set(cs.compiled_instructions)))
        if "acquisition_data.txt" in names:
            txt = z.read("acquisition_data.txt").decode()
            v = truth({"amp": .1, "taus": (60,), "reps": 2, "freq": 100e6}, n_before + 1)
            for ch in v:
                x = np.mean(v[ch], axis=0)[0]
                for y in ((x.real, x.imag) if ri or xr else (abs(x),)):
                    if not any(abs(float(z) - y) < 1e-3 * max(1, abs(y)) for z in re.findall(r"-?\d+\.?\d*(?:e[-+]\d+)?", txt)):
                        raise Violation("report/data", f"{y} not in {txt}")
        z.close()
        os.unlink(path)
    # afterwards the gettable works as before
    w.amp_value = .2
    w.kw["taus"] = [20]
    w.kw.pop("bad", None)
    run = s.run
    w.g.return_xarray = False
    w.g._return_xarray = False
    try:
        got = w.g.get()
    except Exception as e:
        raise Violation("report/get-after", f"{type(e).__name__}: {e}") from None
    fresh = always or flag == "failed_initialization"
    compare(got, flat(truth({"amp": .2 if fresh else .1, "taus": (20,) if fresh else (60,), "reps": 2, "freq": 100e6}, run + 1), ri),
            str(case), "report/get-after")
    return R(flag, distinct=case)


def main():
    ck = Check("C21", rule=NOTE, level=LEVEL, assumptions=[
        "the simulated cluster holds whatever the real component uploaded and set; its acquisition memory follows lib/icsim",
        "one gettable per coordinator when always_initialize is False (documented)"])
    only = os.environ.get("C21_ONLY", "").split(",") if os.environ.get("C21_ONLY") else None
    parts = [("shape", run_shape, shapes), ("report", run_report, reports), ("options", run_options, options), ("history", run_history, histories)]
    for name, fn, cases in parts:
        if only is None or name in only:
            ck.explore(fn, cases(), label=name)
    ck.finish(() if only else ("shape:ok", "shape:refused", "options:ok", "options:refused", "history:get", "history:refused",
                               *(f"report:{f}" for f, _ in STAGES.values())))


if __name__ == "__main__":
    main()
