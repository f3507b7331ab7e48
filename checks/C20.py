"""C20: the instrument coordinator under histories of commands and failures.

1. All histories of coordinator commands up to the depth over three components
   that log every call, against a model of what each command must reach, and
   the same histories again with a failure injected at every single call a
   component receives; afterwards the coordinator must work normally.
2. All pairs and triples of results that components can return: the coordinator
   must return exactly their union, and report every conflict.
3. All walks over compiled programs through the real cluster component with a
   dummy cluster: after every ``prepare`` the instrument has the settings that
   the program asks for, whatever ran before, and ``start`` arms and starts
   exactly the sequencers of the program.
4. All histories of settings through the generic component.
"""
from __future__ import annotations

import itertools
import os
import sys
import warnings

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from lib.common import THOROUGH, Check, R, Violation  # noqa: E402

TECHNIQUE = "Exhaustive enumeration of all command histories up to the depth, with a failure injected at every component call, on the real coordinator and cluster component, compared with a reference model"
LEVEL = "model_checking"
NOTE = "three logging components, depth 3 (thorough 4) histories with one failure at every call; a dummy cluster with every module type for the settings"

NAMES = ("A", "B", "C")
LOG = []
FAULT = None          # (n, exception class): the n-th call from now fails
CALLS = 0


class Boom(RuntimeError):
    pass


def fake_class():
    from quantify_scheduler.instrument_coordinator.components.base import InstrumentCoordinatorComponentBase

    class Fake(InstrumentCoordinatorComponentBase):
        result = None
        running = False

        def _log(self, what, *args):
            global CALLS
            LOG.append((self.name[3:], what, *args))
            CALLS += 1
            if FAULT is not None and CALLS == FAULT[0]:
                raise FAULT[1]("injected")

        @property
        def is_running(self):
            return self.running

        def start(self):
            self._log("start")

        def stop(self):
            self._log("stop")

        def prepare(self, program):
            self._log("prepare", program)

        def retrieve_acquisition(self):
            self._log("retrieve")
            return self.result

        def wait_done(self, timeout_sec=10):
            self._log("wait", timeout_sec)

        def get_hardware_log(self, compiled_schedule):
            self._log("hwlog")
            return {"of": self.name} if self.name[3:] in compiled_schedule["compiled_instructions"] else None

    return Fake


WORLD = None


def world():
    """The coordinator (emptied) and the components; created once per process."""
    global WORLD, FAULT, CALLS
    if WORLD is None:
        from qcodes.instrument import Instrument

        from quantify_scheduler.instrument_coordinator import InstrumentCoordinator
        Instrument.close_all()
        F = fake_class()
        ic = InstrumentCoordinator("ic", add_default_generic_icc=False)
        WORLD = ic, {n: F(Instrument(n)) for n in NAMES}, Instrument("plain")
    ic, comps, plain = WORLD
    FAULT, CALLS = None, 0
    LOG.clear()
    from quantify_scheduler.instrument_coordinator import InstrumentCoordinator
    ic.close()
    ic = InstrumentCoordinator("ic", add_default_generic_icc=False)
    WORLD = ic, comps, plain
    for i, n in enumerate(NAMES):
        comps[n].result = ds({i: [i + .5]}) if n != "C" else None
        comps[n].running = False
    return ic, comps, plain


def ds(channels, dims=("acq_index_{}",), attrs=True):
    """{channel: [values]} or {channel: {index: value}} -> Dataset"""
    from xarray import DataArray, Dataset
    out = {}
    for ch, v in channels.items():
        if not isinstance(v, dict):
            v = dict(enumerate(v))
        d = f"acq_index_{ch}"
        out[ch] = DataArray(np.array(list(v.values())), dims=[d], coords={d: list(v)}, attrs={"acq_protocol": f"p{ch}"} if attrs else {})
    return Dataset(out)


def compiled(names):
    from quantify_scheduler.schedules.schedule import CompiledSchedule, Schedule
    cs = CompiledSchedule(Schedule("s" + "".join(names)))
    cs["compiled_instructions"] = {n: {"program": (n, i)} for i, n in enumerate(names)}
    return cs


SCHEDS = {"A": ("A",), "AB": ("A", "B"), "BA": ("B", "A"), "C": ("C",), "-": ()}


def actions():
    a = [("add", n) for n in NAMES] + [("rem", n) for n in NAMES[:2]] + [("prep", s) for s in SCHEDS]
    a += [("start", None), ("stop", False), ("stop", True), ("wait", 3), ("get", None), ("hwlog", None)]
    a += [("add", "plain"), ("rem", "zz"), ("prep", "invalid"), ("prep", "noninstr")]
    return a


class Model:
    def __init__(self):
        self.reg = []
        self.cs = None            # tuple of instrument names, "?" after a failed prepare
        self.last = None


ANY = object()


def expected(m, kind, arg, fault, scheds, comps):
    """(calls, refusal classes or None, result): the calls a command makes, up to an injected failure.

    A failure of the n-th call is raised to the user (an AttributeError is only
    a warning when stopping with allow_failure).
    """
    def upto(calls):
        if fault is not None and len(calls) >= fault[0]:
            return calls[:fault[0]], (fault[1],)
        return calls, None
    if kind == "add":
        if arg == "plain":
            return [], (TypeError,), None
        if arg in m.reg:
            return [], (ValueError,), None
        m.reg.append(arg)
        return [], None, None
    if kind == "rem":
        if arg not in m.reg:
            return [], (ValueError, KeyError), None
        m.reg.remove(arg)
        return [], None, None
    if kind == "prep":
        if arg in ("invalid", "noninstr"):
            return [], (TypeError, KeyError, AttributeError), None
        calls, err = [], None
        for i, n in enumerate(SCHEDS[arg]):
            if n not in m.reg:
                err = (KeyError,)
                break
            calls.append((n, "prepare", {"program": (n, i)}))
        calls2, err2 = upto(calls)
        err = err2 or err
        m.cs = "?" if err else SCHEDS[arg]
        m.last = arg
        return calls2, err, None
    if kind == "start":
        if m.cs is None:
            return [], (ValueError,), None
        if m.cs == "?":
            return ANY, ANY, None
        return *upto([(n, "start") for n in m.reg if n in m.cs]), None
    if kind == "stop":
        calls = [(n, "stop") for n in m.reg]
        if arg and fault is not None and fault[1] is AttributeError:
            return calls, None, None
        return *upto(calls), None
    if kind == "wait":
        return *upto([(n, "wait", arg) for n in m.reg]), None
    if kind == "get":
        if m.cs is None:
            return [], (ValueError,), None
        if m.cs == "?":
            return ANY, ANY, None
        calls = [(n, "wait", 60) for n in m.reg]
        err = None
        for n in m.cs:
            if n not in m.reg:          # removed since
                err = (KeyError,)
                break
            calls.append((n, "retrieve"))
        calls2, err2 = upto(calls)
        return calls2, err2 or err, {NAMES.index(n): [NAMES.index(n) + .5] for n in m.cs if n != "C"}
    if kind == "hwlog":
        if m.cs is None:
            return [], (RuntimeError,), None
        if m.cs == "?":
            return ANY, ANY, None
        calls2, err = upto([(n, "hwlog") for n in m.reg])
        return calls2, err, {n: {"of": f"ic_{n}"} for n in m.reg if n in m.cs}
    raise AssertionError(kind)


def perform(ic, comps, plain, kind, arg, scheds):
    if kind == "add":
        return ic.add_component(plain if arg == "plain" else comps[arg])
    if kind == "rem":
        return ic.remove_component(f"ic_{arg}")
    if kind == "prep":
        return ic.prepare(scheds[arg])
    if kind == "start":
        return ic.start()
    if kind == "stop":
        return ic.stop(allow_failure=arg)
    if kind == "wait":
        return ic.wait_done(timeout_sec=arg)
    if kind == "get":
        return ic.retrieve_acquisition()
    if kind == "hwlog":
        return ic.retrieve_hardware_logs()
    raise AssertionError(kind)


def schedules():
    from quantify_scheduler.schedules.schedule import Schedule
    out = {k: compiled(v) for k, v in SCHEDS.items()}
    out["invalid"] = Schedule("plain")
    out["noninstr"] = {"compiled_instructions": {"A": {}}}
    return out


def step(ic, comps, plain, m, scheds, kind, arg, fault, text, key):
    """One command on the coordinator and the model; returns whether it succeeded."""
    global FAULT, CALLS
    before = list(m.reg)
    LOG.clear()
    FAULT, CALLS = fault, 0
    err = out = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = perform(ic, comps, plain, kind, arg, scheds)
    except Exception as e:   # noqa: BLE001
        err = e
    FAULT = None
    got = list(LOG)
    want, refusals, result = expected(m, kind, arg, fault, scheds, comps)
    if want is ANY:
        bad = [c for c in got if c[0] not in before]
        if bad:
            raise Violation(key, f"{text}: {kind} {arg} calls a component that is not registered: {bad}")
    else:
        if got != want:
            raise Violation(key, f"{text}: {kind} {arg} makes the calls {got}, expected {want}")
        if refusals is None and err is not None:
            raise Violation(key, f"{text}: {kind} {arg} fails with {err!r}")
        if refusals is not None and err is None:
            raise Violation(key, f"{text}: {kind} {arg} is accepted, expected {[r.__name__ for r in refusals]}")
        if refusals is not None and not isinstance(err, refusals):
            raise Violation(key, f"{text}: {kind} {arg} fails with {err!r}, expected {[r.__name__ for r in refusals]}")
        if err is None and kind == "get":
            compare_result(out, [ds(result)] if result else [], key, f"{text}: get")
        if err is None and kind == "hwlog" and out != result:
            raise Violation(key, f"{text}: hardware logs {out}, expected {result}")
    # what can be observed at any time
    if ic.components() != [f"ic_{n}" for n in m.reg]:
        raise Violation(key, f"{text}: after {kind} {arg} the components are {ic.components()}, expected {m.reg}")
    for n in (*NAMES, "zz"):
        for full in (f"ic_{n}", n):
            try:
                c = ic.get_component(full)
            except KeyError:
                c = None
            except Exception as e:   # noqa: BLE001
                raise Violation(key, f"{text}: get_component({full!r}) fails with {e!r}, documented KeyError") from e
            if c is not (comps[n] if full[:3] == "ic_" and n in m.reg else None):
                raise Violation(key, f"{text}: get_component({full!r}) gives {c}")
    try:
        last = ic.last_schedule
    except ValueError:
        last = None
    if m.last is None and last is not None or m.last is not None and m.cs != "?" and last is not scheds[m.last]:
        raise Violation(key, f"{text}: last_schedule is {last}, expected {m.last}")
    for n in NAMES:
        comps[n].running = True
        if ic.is_running is not (n in m.reg):
            raise Violation(key, f"{text}: is_running is {ic.is_running} when only {n} runs, registered {m.reg}")
        comps[n].running = False
    return err is None


TAIL = [("prep", "AB"), ("start", None), ("get", None), ("stop", False)]


def run(case):
    """One history; every single component call of it fails once, in turn."""
    start, hist = case
    scheds = schedules()
    n_states = 0
    key = "history/" + "/".join(k for k, _ in hist)
    text0 = f"registered {list(start)}; " + ", ".join(f"{k} {a}" for k, a in hist)

    def play(fault_at, exc):
        """fault_at: index of the call (over the whole history) that fails; returns the number of calls"""
        nonlocal n_states
        ic, comps, plain = world()
        m = Model()
        for n in start:
            step(ic, comps, plain, m, scheds, "add", n, None, text0, key)
        total = 0
        text = text0 + (f" (call {fault_at} fails with {exc.__name__})" if fault_at else "")
        for kind, arg in hist:
            fault = (fault_at - total, exc) if fault_at and fault_at > total else None
            step(ic, comps, plain, m, scheds, kind, arg, fault, text, key)
            total += CALLS
            n_states += 1
        for n in "AB":
            if n not in m.reg:
                step(ic, comps, plain, m, scheds, "add", n, None, text, key)
        for kind, arg in TAIL:
            if not step(ic, comps, plain, m, scheds, kind, arg, None, text + " then", key):
                raise Violation(key, f"{text}: {kind} {arg} fails afterwards")
            n_states += 1
        return total
    total = play(0, None)
    plays = 1
    for i in range(1, total + 1):
        # AttributeErrors are special only to stop(allow_failure=True)
        for exc in (Boom, AttributeError) if THOROUGH or ("stop", True) in hist else (Boom,):
            play(i, exc)
            plays += 1
    return R("history", n_states, n_states, plays, plays)


# ------------------------------------------------------------------ results

def compare_result(got, parts, key, text):
    """The union of the parts: {channel: {coordinates: value}} with NaN meaning nothing."""
    want = {}
    for p in parts:
        for ch, da in p.items():
            d = want.setdefault(ch, {})
            for idx in np.ndindex(*da.shape):
                c = tuple((dim, da.coords[dim].values[i].item()) for dim, i in zip(da.dims, idx))
                v = da.values[idx]
                if not np.isnan(v):
                    d[tuple(sorted(c))] = v
    have = {}
    for ch, da in got.items():
        d = have.setdefault(ch, {})
        for idx in np.ndindex(*da.shape):
            c = tuple((dim, da.coords[dim].values[i].item()) for dim, i in zip(da.dims, idx))
            v = da.values[idx]
            if not np.isnan(v):
                d[tuple(sorted(c))] = v
    if have != want:
        raise Violation(key, f"{text}: the result is {have}, expected {want}")
    for p in parts:
        for ch, da in p.items():
            if sum(ch in q for q in parts) == 1 and dict(got[ch].attrs) != dict(da.attrs):
                raise Violation(key, f"{text}: the attributes of channel {ch} are {got[ch].attrs}, expected {da.attrs}")


nan = float("nan")


def shapes():
    from xarray import DataArray, Dataset

    def two(ch, rep, idx, v):
        dims = ["repetition", f"acq_index_{ch}"]
        return Dataset({ch: DataArray(np.array(v), dims=dims, coords={dims[0]: rep, dims[1]: idx})})
    return {
        "none": None, "empty": Dataset(),
        "0:[0,1]": ds({0: [1., 2.]}), "0:{1}": ds({0: {1: 5.}}), "0:{2,3}": ds({0: {2: 3., 3: 4.}}),
        "0:[1,nan]": ds({0: [1., nan]}), "0:[nan,7]": ds({0: [nan, 7.]}), "0:[nan,nan]": ds({0: [nan, nan]}),
        "0:[0,1] zero": ds({0: [0., 0.]}), "0:ints": ds({0: [1, 2]}), "0:complex": ds({0: [1 + 1j, nan]}),
        "1:[0]": ds({1: [9.]}), "0,1": ds({0: {4: 4.}, 1: {1: 8.}}), "str": ds({"q0": [1., 2.]}),
        "0:nanj": ds({0: [complex(nan, nan), 2j]}),
        "rep01x0": two(2, [0, 1], [0], [[1.], [2.]]), "rep01x1": two(2, [0, 1], [1], [[3.], [4.]]),
        "rep01x01nan": two(2, [0, 1], [0, 1], [[nan, 3.], [nan, 4.]]), "rep2x0": two(2, [2], [0], [[5.]]),
    }


def run_results(case):
    """Components that return the given datasets: their union or a reported conflict."""
    names, order = case
    ic, comps, plain = world()
    sh = shapes()
    parts = [sh[n] for n in names]
    insts = NAMES[:len(names)]
    for n, p in zip(insts, parts):
        ic.add_component(comps[n])
        comps[n].result = None if p is None else p.copy(deep=True)
    ic.prepare(compiled([insts[i] for i in order]))
    ic.start()
    key = "results/" + ("pair" if len(names) == 2 else "triple")
    text = f"components return {names}, addressed in the order {[insts[i] for i in order]}"
    seen, conflict = {}, False
    for p in parts:
        if p is None:
            continue
        for ch, da in p.items():
            for idx in np.ndindex(*da.shape):
                c = (ch, *((dim, da.coords[dim].values[i].item()) for dim, i in zip(da.dims, idx)))
                if not np.isnan(da.values[idx]):
                    conflict = conflict or c in seen
                    seen[c] = 1
    try:
        got = ic.retrieve_acquisition()
    except RuntimeError as e:
        if not conflict:
            raise Violation(key, f"{text}: no two components return the same index, but retrieving fails: {e}") from e
        return R("conflict", 1, 1, 1)
    except Exception as e:   # noqa: BLE001
        raise Violation(key, f"{text}: retrieving fails with {e!r}") from e
    if conflict:
        raise Violation(key, f"{text}: two components return the same index, but this is not reported")
    compare_result(got, [p for p in parts if p is not None], key, text)
    for n, p in zip(insts, parts):
        if p is not None and not comps[n].result.identical(p):
            raise Violation(key, f"{text}: retrieving changes the data of a component")
    return R("merged", 1, 1, 1)


# ------------------------------------------------------------------ cluster

def rig20(options=None, lo=None):
    from lib import rigs
    r = rigs.acq_rig(options=options)
    m = r.hw["hardware_description"]["cluster0"]["modules"]
    m["6"] = {"instrument_type": "QRC"}
    r.modules[6] = "QRC"
    for ch, s, clock in (("complex_output_0", "g0", "q.ro"), ("complex_output_2", "g2", "q.12"), ("complex_input_1", "gi", "q.ro"), ("complex_output_5", "g5", "q.01")):
        r.hw["connectivity"]["graph"].append([f"cluster0.module6.{ch}", f"q:{s}"])
        r.lines[s] = (f"q:{s}", clock, 6, ch, False, None)
        r.hw["hardware_options"]["modulation_frequencies"].setdefault(f"q:{s}-{clock}", {"interm_freq": 1e8})
    r.hw["connectivity"]["graph"].append(["cluster0.module3.complex_output_1", "q:mx"])
    r.lines["mx"] = ("q:mx", "q.12", 3, "complex_output_1", False, 60e6)
    r.hw["hardware_options"]["modulation_frequencies"].setdefault("q:mx-q.12", {"lo_freq": 4.8e9})
    return r


def programs():
    """name -> the compiled instructions of the cluster"""
    from lib import ref
    s = ("idle", 400)
    thr = {"acq_threshold": .5, "acq_rotation": 20}
    fb = {"feedback_trigger_label": "q0", "acq_threshold": .25, "acq_rotation": 10}
    hb = {"hardware_buffer_time": 4e-9}
    acq = lambda p, line, mode="APPEND", ch=0, ex=None: ("acq", p, line, 100, ch, None, mode, ex)  # noqa: E731
    plain = rig20()
    rich = rig20({
        "modulation_frequencies": {"q:mw-q.01": {"interm_freq": 60e6}, "q:res-q.ro": {"lo_freq": 6.95e9}, "q:iq-cl0.baseband": {"interm_freq": 0}},
        "mixer_corrections": {"q:mw-q.01": {"dc_offset_i": .01, "dc_offset_q": -.02, "amp_ratio": .95, "phase_error": 3},
                              "q:iq-cl0.baseband": {"dc_offset_i": .1, "dc_offset_q": .2, "amp_ratio": 1.05, "phase_error": -3}},
        "output_att": {"q:mw-q.01": 10, "q:res-q.ro": 12, "q:g0-q.ro": 20, "q:g2-q.12": 6},
        "input_att": {"q:res-q.ro": 4, "q:gi-q.ro": 8},
        "input_gain": {"q:bb-cl0.baseband": {"gain_I": 2, "gain_Q": 3}},
        "distortion_corrections": {"q:fl-cl0.baseband": {"exp0_coeffs": [2000, -0.1], "fir_coeffs": [1.0] + [0.0] * 31}},
    })
    sync = rig20()
    sync.hw["hardware_description"]["cluster0"].update({"ref": "external", "sync_on_external_trigger": {"slot": 5, "channel": 5, "input_threshold": .75, "trigger_timestamp": 1e-6}})
    cal = rig20({"mixer_corrections": {
        "q:mw-q.01": {"auto_lo_cal": "on_lo_interm_freq_change", "auto_sideband_cal": "on_interm_freq_change"},
        "q:res-q.ro": {"auto_lo_cal": "on_lo_freq_change"}}})
    cal2 = rig20({"modulation_frequencies": {"q:mw-q.01": {"interm_freq": 60e6}, "q:res-q.ro": {"lo_freq": 6.85e9}}, "mixer_corrections": {
        "q:mw-q.01": {"auto_lo_cal": "on_lo_interm_freq_change", "auto_sideband_cal": "on_interm_freq_change"},
        "q:res-q.ro": {"auto_lo_cal": "on_lo_freq_change"}}})
    mx = {"mixer_corrections": {
        "q:mx-q.12": {"auto_lo_cal": "on_lo_interm_freq_change", "auto_sideband_cal": "on_interm_freq_change"},
        "q:mw-q.01": {"auto_lo_cal": "on_lo_freq_change"}}}
    calx, calx2 = rig20({"modulation_frequencies": {"q:mw-q.01": {"lo_freq": 4.95e9}, "q:mx-q.12": {"lo_freq": 4.8e9}}, **mx}), rig20(
        {"modulation_frequencies": {"q:mw-q.01": {"lo_freq": 4.95e9}, "q:mx-q.12": {"lo_freq": 4.8e9}}, **mx})
    calx2.clocks = [(c, f + (20e6 if c == "q.12" else 0)) for c, f in calx2.clocks]
    zero = rig20({"output_att": {"q:mw-q.01": 0, "q:mx-q.12": 0, "q:res-q.ro": 0, "q:g0-q.ro": 0, "q:g2-q.12": 0, "q:g5-q.01": 0},
                  "input_att": {"q:res-q.ro": 0, "q:gi-q.ro": 0},
                  "input_gain": {"q:bb-cl0.baseband": {"gain_I": 0, "gain_Q": 0}},
                  "mixer_corrections": {"q:mw-q.01": {"dc_offset_i": 0, "dc_offset_q": 0, "amp_ratio": 1, "phase_error": 0}}})
    pw = ("sq", "mw", 40, .3)
    px = ("sq", "mx", 40, .2)
    t0 = {"threshold": 0, "feedback_trigger_label": "q1"}
    tt = {"threshold": 2, "feedback_trigger_label": "q1"}
    P = {
        "play": (plain, [("sq", "iq", 40, .5), ("sq", "fl", 100, .25), ("sq", "bb", 40, .5), pw, ("sq", "res", 40, .2), ("sq", "g2", 40, .2), ("mark", "d0", 40), ("mark", "m1", 40)]),
        "rich": (rich, [("sq", "iq", 40, .5), ("sq", "fl", 100, .25), pw, ("sq", "res", 40, .2), acq("ssb", "bb", "AVERAGE"), s, acq("ssb", "res", "AVERAGE", 1), ("sq", "g0", 40, .1), ("sq", "g2", 40, .1), acq("ssb", "gi", "AVERAGE", 2)]),
        "flux": (plain, [("sq", "fl", 100, .5)]),
        "ssb": (plain, [acq("ssb", "res"), s, acq("ssb", "bb", "APPEND", 1), s]),
        "thr": (plain, [acq("thr", "res", "APPEND", 0, thr), s, acq("thr", "bb", "AVERAGE", 1, thr)]),
        "fb": (plain, [acq("thr", "res", "APPEND", 0, fb), s, ("cond", "q0", [pw], hb), s]),
        "fbqtm": (plain, [acq("ttc", "i4", "APPEND", 0, tt), ("idle", 800), ("cond", "q1", [pw], hb), s]),
        "dual": (plain, [acq("dtc", "i4", "APPEND", 0, {"threshold_low": 1, "threshold_high": 3, "label_low": "l", "label_mid": "m"}), ("idle", 800), ("cond", "m", [pw], hb), s]),
        "count": (plain, [acq("trig", "rt", "APPEND"), s, acq("trig", "i4", "APPEND", 1), s]),
        "dist": (plain, [acq("trig", "rt", "DISTRIBUTION"), s]),
        "trace": (plain, [acq("trace", "bb", "AVERAGE")]),
        "trace4": (plain, [acq("trace", "res", "AVERAGE"), s, acq("trace", "i5", "FIRST", 3)]),
        "tags": (plain, [acq("ttrace", "i4", "APPEND", 0), s, acq("tt", "i5", "APPEND", 1)]),
        "sync": (sync, [pw, ("mark", "d1", 40)]),
        "cal": (cal, [pw, ("sq", "res", 40, .2)]),
        "cal2": (cal2, [pw, ("sq", "res", 40, .2)]),
        "calx": (calx, [pw, px]),
        "calx2": (calx2, [pw, px]),
        "zero": (zero, [("sq", "iq", 40, .5), pw, px, ("sq", "res", 40, .2), ("sq", "g0", 40, .1), ("sq", "g2", 40, .1), ("sq", "g5", 40, .1),
                        acq("ssb", "gi", "AVERAGE", 2), acq("ssb", "res", "AVERAGE", 1), s, acq("ssb", "bb", "AVERAGE")]),
        "fb0": (plain, [acq("ttc", "i4", "APPEND", 0, t0), ("idle", 800), ("cond", "q1", [pw], hb), s]),
    }
    out = {}
    for name, (rig, items) in P.items():
        rig.use()
        out[name] = rig.compile(ref.build([*items, s], repetitions=2, clocks=rig.clocks))
    return out


MODULES = {1: "QCM", 2: "QRM", 3: "QCM_RF", 4: "QRM_RF", 5: "QTM", 6: "QRC"}
NOUT = {"QCM": 4, "QRM": 2, "QCM_RF": 2, "QRM_RF": 1, "QRC": 6, "QTM": 8}
READOUT = ("QRM", "QRM_RF", "QRC")


def settings_of(ins):
    """{(module slot, sequencer index or io channel or None, parameter): value} that a program asks for."""
    w = {}
    for slot, typ in MODULES.items():
        prog = ins.get(f"cluster0_module{slot}")
        nseq = 12 if typ == "QRC" else 8 if typ == "QTM" else 6
        used = {int(n[3:]): s for n, s in prog["sequencers"].items()} if prog else {}
        for i in range(nseq):
            w[slot, i, "sync_en"] = i in used
        if not prog:
            continue
        st = prog["settings"]
        for i, s in used.items():
            q = lambda k, v, i=i: w.__setitem__((slot, i, k), v)  # noqa: E731
            q("sequence", s.sequence)
            for a, t in s.thresholded_acq_trigger_read_settings.items():
                q(f"trigger{a}_threshold_invert", t.thresholded_acq_trigger_invert)
                if t.thresholded_acq_trigger_count is not None:
                    q(f"trigger{a}_count_threshold", t.thresholded_acq_trigger_count)
            if typ == "QTM":
                io = lambda k, v, i=i: w.__setitem__((slot, f"io{i}", k), v)  # noqa: E731
                io("mode", "input" if s.connected_input_indices else "output")
                if s.analog_threshold is not None:
                    io("analog_threshold", s.analog_threshold)
                io("forward_trigger_en", False)
                io("binned_acq_on_invalid_time_delta", "record_0")
                if s.scope_trace_type is not None:
                    io("scope_trigger_mode", "sequencer")
                    io("scope_mode", {"SCOPE": "scope", "TIMETAG": "timetags-windowed"}[s.scope_trace_type.name])
                if s.time_source is not None:
                    io("binned_acq_time_source", str(s.time_source.value))
                if s.time_ref is not None:
                    io("binned_acq_time_ref", {"START": "start", "END": "end", "FIRST": "first", "TIMESTAMP": "sequencer"}.get(s.time_ref.name, f"first{s.time_ref_channel}"))
                io("thresholded_acq_trigger_en", bool(s.thresholded_acq_trigger_write_en))
                if s.thresholded_acq_trigger_write_en:
                    for k in ("low", "mid", "high", "invalid"):
                        io(f"thresholded_acq_trigger_address_{k}", getattr(s, f"thresholded_acq_trigger_write_address_{k}"))
                continue
            if s.nco_en:
                q("nco_freq", s.modulation_freq)
            if typ != "QRC":
                q("mod_en_awg", s.nco_en)
                for k in ("mixer_corr_phase_offset_degree", "mixer_corr_gain_ratio"):
                    if getattr(s, k) is not None and s.auto_sideband_cal.value == "off":
                        q(k, getattr(s, k))
            for p, iq in ((0, "I"), (1, "Q")):
                q(f"offset_awg_path{p}", getattr(s, f"init_offset_awg_path_{iq}"))
                q(f"gain_awg_path{p}", getattr(s, f"init_gain_awg_path_{iq}"))
            rf = typ in ("QCM_RF", "QRM_RF", "QRC")
            outs, ins_ = s.connected_output_indices, s.connected_input_indices
            for o in range(NOUT[typ]):
                if rf:
                    q(f"connect_out{o}", "IQ" if tuple(outs) == (2 * o, 2 * o + 1) and "digital" not in s.channel_name else "off")
                else:
                    q(f"connect_out{o}", "off" if o not in outs or "digital" in s.channel_name else "I" if "real" in s.channel_name or o % 2 == 0 else "Q")
            if rf:
                q("marker_ovr_en", False)
            if typ in READOUT:
                if rf:
                    q("connect_acq", f"in{ins_[0] // 2}" if ins_ else "off")
                else:
                    q("connect_acq_I", "in0" if 0 in ins_ else "off")
                    q("connect_acq_Q", "in1" if 1 in ins_ else "off")
                if typ != "QRC":
                    q("demod_en_acq", s.nco_en)
                for k in ("integration_length_acq", "ttl_acq_auto_bin_incr_en", "ttl_acq_threshold", "ttl_acq_input_select", "thresholded_acq_rotation", "thresholded_acq_threshold"):
                    if getattr(s, k) is not None:
                        q(k, getattr(s, k))
                q("thresholded_acq_trigger_en", bool(s.thresholded_acq_trigger_write_en))
                if s.thresholded_acq_trigger_write_en:
                    q("thresholded_acq_trigger_address", s.thresholded_acq_trigger_write_address)
                    q("thresholded_acq_trigger_invert", s.thresholded_acq_trigger_write_invert)
        g = lambda k, v: w.__setitem__((slot, None, k), v) if v is not None else None  # noqa: E731
        if typ in ("QCM", "QRM"):
            for o, k in enumerate(("ch0_path_I", "ch0_path_Q", "ch1_path_I", "ch1_path_Q")):
                g(f"out{o}_offset", getattr(st, f"offset_{k}"))
        if typ in ("QCM_RF", "QRM_RF"):
            for ch in (0, 1):
                for p, iq in ((0, "I"), (1, "Q")):
                    g(f"out{ch}_offset_path{p}", getattr(st, f"offset_ch{ch}_path_{iq}"))
        if typ == "QRM":
            g("in0_gain", st.in0_gain)
            g("in1_gain", st.in1_gain)
        if typ in ("QCM_RF", "QRM_RF", "QRC"):
            for o in range(6):
                lo = {"QCM_RF": f"out{o}_lo_freq", "QRM_RF": "out0_in0_lo_freq", "QRC": f"out{o}_in{o}_lo_freq" if o < 2 else f"out{o}_lo_freq"}[typ]
                g(lo, getattr(st, f"lo{o}_freq"))
                g(f"out{o}_att", getattr(st, f"out{o}_att"))
                if o < 2:
                    g(f"in{o}_att", getattr(st, f"in{o}_att"))
        if typ == "QCM":
            for o, dc in enumerate(st.distortion_corrections):
                for f in ("exp0", "exp1", "exp2", "exp3", "fir"):
                    x = getattr(dc, f)
                    g(f"out{o}_{f}_config", x.config.value)
                    g(f"marker{o}_{f}_config", x.marker_delay.value)
                    if x.coeffs is not None:
                        if f == "fir":
                            g(f"out{o}_fir_coeffs", x.coeffs)
                        else:
                            g(f"out{o}_{f}_time_constant", x.coeffs[0])
                            g(f"out{o}_{f}_amplitude", x.coeffs[1])
        if typ in READOUT:
            for p in range(4 if typ == "QRC" else 2):
                g(f"scope_acq_trigger_mode_path{p}", "sequencer")
                g(f"scope_acq_avg_mode_en_path{p}", True)
            traced = [int(n[3:]) for n, m in (prog.get("acq_hardware_mapping") or {}).items() for ch in m if ins["acq_channels_data"][ch].protocol == "Trace"]
            if traced:
                g("scope_acq_sequencer_select", traced[0])
    cs = ins["settings"]
    w[None, None, "reference_source"] = cs.reference_source
    return w


class Instrument:
    """The dummy cluster with its commands recorded."""

    def __init__(self):
        from lib import icsim
        self.cl, self.cc = icsim.cluster_component(MODULES)
        self.log = []
        if not hasattr(self.cl, "_verif_log"):
            self.cl._verif_log = self.log
            self.wrap()
        self.log = self.cl._verif_log
        self.log.clear()

    def wrap(self):
        log = self.cl._verif_log

        def rec(obj, name, *tag, ret=None):
            object.__setattr__(obj, name, lambda *a, **k: log.append((*tag, name, a, tuple(sorted(k.items())))) or ret)
        rec(self.cl, "start_sequencer", None)
        rec(self.cl, "stop_sequencer", None)
        rec(self.cl.time, "sync_ext_trigger", None)
        for slot in MODULES:
            m = self.module(slot)
            for n in ("arm_sequencer", "start_sequencer", "stop_sequencer", "delete_acquisition_data"):
                rec(m, n, slot)
            for n in ("out0_lo_cal", "out1_lo_cal", "out0_in0_lo_cal"):
                if hasattr(m, n):
                    self.cal(m, n, slot)
            for i, s in enumerate(m.sequencers):
                if hasattr(s, "sideband_cal"):
                    self.cal(s, "sideband_cal", slot, i)

    def cal(self, obj, name, slot, i=None):
        log = self.cl._verif_log
        object.__setattr__(obj, name, lambda *a, **k: log.append((slot, "cal", name, i)))

    def module(self, slot):
        return self.cl.modules[slot - 1]

    def get(self, key):
        slot, ch, par = key
        if slot is None:
            return self.cl.parameters[par].cache()
        m = self.module(slot)
        o = m if ch is None else m.sequencers[ch] if isinstance(ch, int) else m.io_channels[int(ch[2:])]
        p = o.parameters.get(par)
        if p is None:
            raise KeyError(par)
        return p.cache() if p.cache.valid else ("never set",)

    def disturb(self):
        """The user changes settings directly."""
        for slot, typ in MODULES.items():
            m = self.module(slot)
            for i, s in enumerate(m.sequencers):
                s.sync_en(True)
                if typ == "QTM":
                    io = m.io_channels[i]
                    io.mode("output" if i > 2 else "input")
                    io.thresholded_acq_trigger_en(True)
                    io.forward_trigger_en(True)
                    continue
                s.nco_freq(1e6)
                s.gain_awg_path0(.5)
                s.offset_awg_path1(.5)
                s.marker_ovr_en(True)
                if typ in READOUT:
                    s.thresholded_acq_trigger_en(True)
                    s.thresholded_acq_trigger_address(3)
                    s.integration_length_acq(400)
                for o in range(NOUT[typ] if typ != "QRC" else 0):
                    getattr(s, f"connect_out{o}")("off" if i % 2 else "IQ" if typ in ("QCM_RF", "QRM_RF", "QRC") else "I")


def same_value(a, b):
    if isinstance(b, dict) or isinstance(a, dict):
        return a == b
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        return list(a) == list(b)
    return type(a) is not tuple and a == b and (isinstance(a, bool) == isinstance(b, bool))


PROGRAMS = None
JSON = {}


def cluster_world():
    global PROGRAMS
    if PROGRAMS is None:
        from quantify_scheduler.schedules.schedule import CompiledSchedule
        PROGRAMS = programs()
        for n, c in PROGRAMS.items():
            if "acq_channels_data" in c.compiled_instructions["cluster0"] and c.compiled_instructions["cluster0"]["acq_channels_data"]:
                continue      # known finding C17 acquisition-mapping-in-json
            JSON[n + "/json"] = CompiledSchedule.from_json(c.to_json())
    return Instrument()


def run_cluster(case):
    """prepare/start/stop of programs, in this order, on one instrument."""
    hist, force = case
    x = cluster_world()
    x.cc.force_set_parameters(force)
    for c in x.cc._cluster_modules.values():
        c.force_set_parameters(force)
    n = 0
    text = f"prepare {', '.join(hist)}" + (" (forced)" if force else "")
    for name in hist:
        if name == "user":
            x.disturb()
            continue
        if name == "stop":
            x.log.clear()
            x.cc.stop()
            if [e[:2] for e in x.log] != [(None, "stop_sequencer")] and not all(e[1] == "stop_sequencer" for e in x.log):
                raise Violation("cluster/stop", f"{text}: stop does {x.log}")
            for slot in MODULES:
                for i, s in enumerate(x.module(slot).sequencers):
                    if s.sync_en.cache() is not False:
                        raise Violation("cluster/stop", f"{text}: sequencer {i} of module {slot} still synchronises after stop")
            continue
        comp = JSON[name] if name.endswith("/json") else PROGRAMS[name]
        ref = PROGRAMS[name.split("/")[0]]
        want = settings_of(ref.compiled_instructions["cluster0"])
        before = {k: x.get(k) for k in want if k[2].endswith("lo_freq") or k[2] == "nco_freq"}
        x.log.clear()
        try:
            x.cc.prepare(comp.compiled_instructions["cluster0"])
        except Exception as e:   # noqa: BLE001
            raise Violation(f"cluster/prepare-fails/{name}", f"{text}: preparing {name} fails with {e!r}") from e
        cals = sorted(e for e in x.log if e[1] == "cal")
        if any(e[1] in ("arm_sequencer", "start_sequencer") for e in x.log):
            raise Violation("cluster/prepare", f"{text}: prepare of {name} does {x.log}")
        for k, v in want.items():
            n += 1
            try:
                got = x.get(k)
            except KeyError:
                raise Violation(f"cluster/settings/{k[2]}", f"{text}: {k} does not exist") from None
            if got == ("never set",) and k[2] in ("sync_en", "thresholded_acq_trigger_en") and v is False:
                continue          # as it is after a reset
            if not same_value(got, v):
                raise Violation(f"cluster/settings/{MODULES.get(k[0])}/{k[2]}", f"{text}: after preparing {name} the setting {k} is {got!r:.200}, expected {v!r:.200}")
        # automatic mixer calibration: exactly when a frequency it depends on has changed
        exp = []
        if name.startswith("cal"):
            for slot, los in ((3, ("out0_lo_freq", "out1_lo_freq")), (4, ("out0_in0_lo_freq",))):
                prog = ref.compiled_instructions["cluster0"].get(f"cluster0_module{slot}")
                for o, par in enumerate(los if prog else ()):
                    k = (slot, None, par)
                    lo = k in want and before[k] != want[k]
                    seqs = {int(q[3:]): v for q, v in prog["sequencers"].items() if tuple(v.connected_output_indices) == (2 * o, 2 * o + 1)}
                    nco = [i for i in seqs if before[slot, i, "nco_freq"] != want[slot, i, "nco_freq"]]
                    exp += [(slot, "cal", "sideband_cal", i) for i in nco if seqs[i].auto_sideband_cal.value == "on_interm_freq_change"]
                    when = getattr(prog["settings"], f"out{o}_lo_freq_cal_type_default").value
                    if when == "on_lo_freq_change" and lo or when == "on_lo_interm_freq_change" and (lo or nco):
                        exp.append((slot, "cal", f"{par.removesuffix('_freq')}_cal", None))
        if cals != sorted(exp, key=str) and sorted(cals, key=str) != sorted(exp, key=str):
            raise Violation("cluster/calibration", f"{text}: preparing {name} calibrates {cals}, expected {exp}")
        for _ in range(2):        # started twice
            x.log.clear()
            try:
                x.cc.start()
            except Exception as e:   # noqa: BLE001
                raise Violation(f"cluster/start-fails/{name}", f"{text}: starting {name} fails with {e!r}") from e
            ins = ref.compiled_instructions["cluster0"]
            arms = sorted((int(m[-1]), int(q[3:])) for m, p in ins.items() if "module" in m for q in p["sequencers"])
            got = sorted((e[0], dict(e[3]).get("sequencer", e[2][0] if e[2] else None)) for e in x.log if e[1] == "arm_sequencer")
            if got != arms:
                raise Violation("cluster/armed", f"{text}: start of {name} arms {got}, the program has {arms}")
            pos = lambda what: [i for i, e in enumerate(x.log) if e[1] == what]  # noqa: E731
            starts, stops, syncs = pos("start_sequencer"), pos("stop_sequencer"), pos("sync_ext_trigger")
            if not starts or min(starts) < max(pos("arm_sequencer"), default=-1) or not stops or max(stops) > min(pos("arm_sequencer"), default=1 << 30):
                raise Violation("cluster/start-order", f"{text}: start of {name} does {[e[:2] for e in x.log]}")
            deleted = {(e[0], dict(e[3]).get("sequencer")) for e in x.log[:min(starts)] if e[1] == "delete_acquisition_data"}
            acq = {(int(m[-1]), int(q[3:])) for m, p in ins.items() if "module" in m for q in (p.get("acq_hardware_mapping") or {})}
            if not acq <= deleted:
                raise Violation("cluster/old-data", f"{text}: start of {name} leaves the acquisition data of {sorted(acq - deleted)}")
            if bool(syncs) != (ins["settings"].sync_on_external_trigger is not None) or syncs and syncs[-1] > starts[0]:
                raise Violation("cluster/external-trigger", f"{text}: start of {name} does {[e[:2] for e in x.log]}")
            if syncs:
                kw = dict(x.log[syncs[0]][3])
                e = ins["settings"].sync_on_external_trigger
                if (kw["slot"], kw["channel"], kw["trigger_timestamp"]) != (e.slot, e.channel, e.trigger_timestamp) or x.get((5, "io4", "mode")) != "input" or x.get((5, "io4", "analog_threshold")) != .75:
                    raise Violation("cluster/external-trigger", f"{text}: {kw}, {x.get((5, 'io4', 'mode'))}")
    return R("cluster", n, len(hist), 1, 1)


def cluster_cases():
    cluster_world()
    p = [*PROGRAMS, *JSON, "user", "stop"]
    base = [*PROGRAMS]
    out = [((a, b, c), False) for a in p for b in p for c in p if c not in ("user", "stop") and a != "stop"] if THOROUGH else []
    if not THOROUGH:
        out = [((a, b, c), False) for a in base for b in ("user", "stop", *base) for c in base]
        out += [((a, b), f) for a in p for b in p for f in (False, True) if b not in ("user", "stop")]
    return list(dict.fromkeys(out))


# ------------------------------------------------------------------ generic

def generic_cases():
    acts = [("prep", (("loA.frequency", 1.0),)), ("prep", (("loA.frequency", 2.0), ("loB.power", 3.0))), ("prep", (("loA.sub.level", 4.0),)),
            ("prep", (("loA.go", 5.0),)), ("prep", (("loB.power", 0.0),)), ("prep", (("loA.level", 1.0), ("loA.frequency", 7.0))),
            ("prep", ()), ("prep", (("zz.frequency", 1.0),)), ("prep", (("nodot", 1.0),)), ("prep", (("loA.zz", 1.0),)),
            ("user", ("loA.frequency", 9.0)), ("user", ("loB.power", 9.0)), ("force", True), ("force", False)]
    return [h for d in (1, 2, 3) for h in itertools.product(acts, repeat=d)]


GEN = None


def run_generic(hist):
    global GEN
    from qcodes.instrument import Instrument, InstrumentChannel, ManualParameter

    from quantify_scheduler.instrument_coordinator.components.generic import GenericInstrumentCoordinatorComponent
    if GEN is None:
        class Lo(Instrument):
            calls = ()

            def __init__(self, name):
                super().__init__(name)
                for p in ("frequency", "power", "level"):
                    self.add_parameter(p, parameter_class=ManualParameter, initial_value=.5)
                sub = InstrumentChannel(self, "sub")
                sub.add_parameter("level", parameter_class=ManualParameter, initial_value=.5)
                self.add_submodule("sub", sub)

            def go(self, v):
                self.calls = (*self.calls, v)
        GEN = {n: Lo(n) for n in ("loA", "loB")}, GenericInstrumentCoordinatorComponent("generic_verif")
    los, comp = GEN
    want = {}
    for n, lo in los.items():
        for p in ("frequency", "power", "level"):
            lo.parameters[p](.5)
            want[n, p] = .5
        lo.sub.level(.5)
        want[n, "sub.level"] = .5
        lo.calls = ()
        want[n, "go"] = ()
    comp.force_set_parameters(False)
    text = f"{list(hist)}"
    for kind, arg in hist:
        if kind == "force":
            comp.force_set_parameters(arg)
        elif kind == "user":
            n, p = arg[0].split(".")
            los[n].parameters[p](arg[1])
            want[n, p] = arg[1]
        else:
            err = None
            bad = any(k.split(".")[0] not in los or k == "loA.zz" for k, _ in arg)
            try:
                comp.prepare(dict(arg))
            except Exception as e:   # noqa: BLE001
                err = e
            if (err is not None) != bad:
                raise Violation("generic/refusal", f"{text}: prepare {arg} gives {err!r}")
            if not bad:
                for k, v in arg:
                    n, p = k.split(".", 1)
                    want[n, p] = (*want[n, p], v) if p == "go" else v
        got = {(n, p): lo.calls if p == "go" else lo.sub.level() if p == "sub.level" else lo.parameters[p]() for n, lo in los.items() for p in ("frequency", "power", "level", "sub.level", "go")}
        if got != want:
            raise Violation("generic/values", f"{text}: after {kind} {arg} the instruments have {got}, expected {want}")
    return R("generic", len(hist), len(hist), 1)


# ------------------------------------------------------------------ main

def main():
    ck = Check("C20", rule=NOTE, assumptions=[
        "a dummy cluster of qblox-instruments with parameter caches as the state of the instrument; its sequencer program upload is not simulated",
        "settings the compiled program leaves unspecified (None) keep the value the instrument has: offsets, attenuations, gains and mixer corrections",
        "after a failed prepare, start and retrieve are unspecified until the next prepare",
    ])
    acts = actions()
    depth = 4 if THOROUGH else 3
    cases = [(("A", "B"), h) for d in range(1, depth + 1) for h in itertools.product(acts, repeat=d)]
    cases += [((), h) for d in range(1, 3) for h in itertools.product(acts, repeat=d)]
    core = [("add", "C"), ("rem", "A"), ("add", "A"), ("prep", "AB"), ("prep", "C"), ("start", None), ("stop", True), ("get", None)]
    cases += [(("B", "A"), h) for h in itertools.product(core, repeat=depth + 1)]
    ck.explore(run, cases, label="histories")
    names = list(shapes())
    res = [((a, b), o) for a in names for b in names for o in ((0, 1), (1, 0))]
    res += [((a, b, c), (0, 1, 2)) for a in names for b in names for c in names]
    ck.explore(run_results, res, label="results")
    ck.explore(run_cluster, cluster_cases(), label="cluster")
    ck.explore(run_generic, generic_cases(), label="generic")
    ck.finish(("histories:history", "results:merged", "results:conflict", "cluster:cluster", "generic:generic"))


if __name__ == "__main__":
    main()
