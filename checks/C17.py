"""C17: serialisation.

Three spaces, each explored completely.

1. every serialisable operation and resource class, built from a base
   argument set with every pair of arguments replaced by every combination of
   boundary values (Python and numpy scalars, arrays, None, enums, strings,
   coordinates, magnitudes), through every channel (JSON text, dictionary, file,
   pickle, copy, deepcopy) and through two channels in a row.  The oracle: the
   same class, the same content, equality, the same textual form and duration,
   and a source that did not change.
2. all nested bodies up to depth three (schedule, loop, conditional,
   compensation) over leaves that cover the payload kinds, through every
   channel; the schedule read back must compile to the same programs as the
   original, and a compiled schedule must survive as well.
3. devices: all combinations of element and edge kinds with parameters set,
   through JSON, YAML, files; the restored device generates the same device
   configuration; hardware configurations through model, dictionary, file.

Text that does not describe a known object must be refused.
"""
from __future__ import annotations

import copy
import dataclasses
import enum
import itertools
import json
import os
import pathlib
import pickle
import sys
import tempfile
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import numpy as np  # noqa: E402

from lib import gates, ref, rigs  # noqa: E402
from lib.common import THOROUGH, Check, R, Violation  # noqa: E402

TECHNIQUE = ("Exhaustive enumeration on the real code: every class times every pair of boundary arguments times every (pair of) serialisation channels, "
             "all nested bodies to depth three, all small devices; the state read back is compared with the state written, and compiled")
LEVEL = "model_checking"
NOTE = "argument values are a boundary set per kind (numpy kinds included); at most two arguments deviate from the base at once; depth of nesting 3"


# ------------------------------------------------------------ comparison
def norm(o):
    """Content with the differences JSON cannot express removed (tuple/list, numpy/python numbers)."""
    from quantify_scheduler.backends.qblox.operations.inline_q1asm import InlineQ1ASM
    if o is None or isinstance(o, bool):
        return o
    if isinstance(o, str):
        return str(o.value) if isinstance(o, enum.Enum) else str(o)
    if isinstance(o, enum.Enum) and not isinstance(o, int):
        return ("enum", type(o).__name__, o.name)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (int, np.integer)):
        return float(o)
    if isinstance(o, (float, np.floating)):
        return float(o) if o == o else "nan"
    if isinstance(o, (complex, np.complexfloating)):
        o = complex(o)
        return o.real if o.imag == 0 else o
    if isinstance(o, np.ndarray):
        return [norm(x) for x in o.tolist()]
    if isinstance(o, (list, tuple)):
        return [norm(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return ("set", sorted(map(repr, map(norm, o))))
    if isinstance(o, type):
        return ("type", o.__module__, o.__qualname__)
    if isinstance(o, InlineQ1ASM):
        return ("InlineQ1ASM", o.program, norm(o.duration), o.port, o.clock, norm(o.waveforms), o.safe_labels)
    if hasattr(o, "data") and hasattr(o, "keys"):
        return (type(o).__module__ + "." + type(o).__qualname__, norm(dict(o.data)))
    if hasattr(o, "keys"):
        return {str(k): norm(o[k]) for k in o.keys()}
    if dataclasses.is_dataclass(o):
        return (type(o).__name__, {f.name: norm(getattr(o, f.name)) for f in dataclasses.fields(o)})
    if hasattr(o, "model_dump"):
        return (type(o).__name__, norm(o.model_dump()))
    if hasattr(o, "__dict__"):
        return (type(o).__name__, {k: norm(v) for k, v in vars(o).items() if not k.startswith("_")})
    return ("?", repr(o))


def where(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {a!r:.80} became {b!r:.80}"
    if isinstance(a, dict):
        if list(a) != list(b) and set(a) != set(b):
            return f"{path}: keys {list(a)} became {list(b)}"
        for k in a:
            w = where(a[k], b[k], f"{path}.{k}")
            if w:
                return w
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} items became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            w = where(x, y, f"{path}[{i}]")
            if w:
                return w
        return None
    if isinstance(a, float) and abs(a - b) <= 1e-13 * abs(a):
        return None
    return None if a == b else f"{path}: {a!r:.80} became {b!r:.80}"


# ------------------------------------------------------------ channels
def dumps(o):
    from quantify_scheduler.json_utils import SchedulerJSONEncoder
    return o.to_json() if hasattr(o, "to_json") else json.dumps(o, cls=SchedulerJSONEncoder)


def loads(t, o):
    from quantify_scheduler.json_utils import SchedulerJSONDecoder
    return type(o).from_json(t) if hasattr(type(o), "from_json") else json.loads(t, cls=SchedulerJSONDecoder)


def via(ch, o):
    from quantify_scheduler.json_utils import SchedulerJSONDecoder, SchedulerJSONEncoder
    if ch == "json":
        return loads(dumps(o), o)
    if ch == "dict":
        if hasattr(o, "to_dict"):
            return type(o).from_dict(o.to_dict())
        return json.loads(json.dumps(json.loads(dumps(o))), cls=SchedulerJSONDecoder)
    if ch == "list":     # as a member of a larger structure
        return json.loads(json.dumps({"a": [1, o, {"b": o}]}, cls=SchedulerJSONEncoder), cls=SchedulerJSONDecoder)["a"][2]["b"]
    if ch == "file":
        with tempfile.TemporaryDirectory() as d:
            return type(o).from_json_file(o.to_json_file(d))
    if ch == "file-plain":
        with tempfile.TemporaryDirectory() as d:
            f = o.to_json_file(d, add_timestamp=False)
            if os.path.basename(f) != o.name + ".json":
                raise Violation("file-name", f"to_json_file wrote {f}")
            return type(o).from_json_file(f)
    if ch == "pickle":
        return pickle.loads(pickle.dumps(o))
    if ch == "copy":
        return copy.copy(o)
    if ch == "deepcopy":
        return copy.deepcopy(o)
    raise KeyError(ch)


CH_OP = ("json", "dict", "list", "pickle", "copy", "deepcopy")
CH_SCHED = ("json", "dict", "list", "file", "file-plain", "pickle", "copy", "deepcopy")


def same(o, before, n, what):
    if type(n) is not type(o):
        raise Violation("class", f"{what}: {type(o).__name__} became {type(n).__name__}: {n!r:.100}")
    w = where(before, norm(n))
    if w:
        raise Violation("content", f"{what}: {w}")
    if not (n == o) or not (o == n):
        raise Violation("not-equal", f"{what}: the object read back is not equal to the one written")
    w = where(before, norm(o))
    if w:
        raise Violation("source-changed", f"{what}: the source changed: {w}")


def dur(o):
    """None while a schedule inside has no duration yet."""
    try:
        return o.duration
    except (AttributeError, TypeError):
        return None


def safe_str(o):
    try:
        return str(o)
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}"


# ------------------------------------------------------------ 1: classes
NUM = [0, 1, .1, -2.5e-9, np.float64(.3), np.float32(.25), np.int64(3), np.int32(4), np.uint32(5), np.int8(6), np.uint8(7), np.float16(.5), True, np.bool_(True)]
POS = [20e-9, 4e-9, np.float64(2e-8), np.int64(1), np.float32(.5), np.uint32(2), 1]
AMP = NUM + [.1 + .2j, np.complex128(.3 - .1j), np.complex64(.5 + .25j)]
CH = [0, 3, "ch", np.int64(2), None]
IDX = [None, 0, np.int64(1), 2]
CO = [None, {}, {"amp": .1}, {"amp": np.float64(.2), "n": np.int64(3)}, {"s": "text"}]
COUNT = [1, np.int64(3), np.uint32(2)]
LAB = [None, "q0", ""]
WTS = [[.1, .2, .3, .4], (.1, .2, .3, .4), np.array([.1, .2, .3, .4]), np.array([1, 2, 3, 4]), np.array([.5, .25, .5, 1], dtype=np.float32), np.array([.1, .2 + .1j, .3, .4]), np.zeros(8)[::2], []]


def values(cls, name):
    from quantify_scheduler.enums import BinMode, TimeRef, TimeSource, TriggerCondition
    from quantify_scheduler.operations.pulse_library import ReferenceMagnitude
    v = {
        "duration": POS, "t_pulse": POS, "t_phi": [0] + POS, "t_integral_correction": [0] + POS, "t0": [0, 4e-9, np.float64(8e-9), np.int64(0)], "num_steps": COUNT,
        "amp": AMP, "port": ["q:mw", None, "ü:1"], "clock": ["q.01", "cl0.baseband"], "acq_channel": CH, "coords": CO, "acq_index": IDX,
        "bin_mode": [BinMode.APPEND, BinMode.AVERAGE, "append", "average"],
        "feedback_trigger_label": LAB, "label_low": LAB, "label_mid": LAB, "label_high": LAB, "label_invalid": LAB,
        "feedback_trigger_condition": [TriggerCondition.LESS_THAN, TriggerCondition.GREATER_THAN_EQUAL_TO, "less_than"],
        "time_ref": [TimeRef.START, TimeRef.END, "first", TimeRef.TIMESTAMP], "time_source": [TimeSource.LAST, "first", TimeSource.SECOND], "time_ref_port": [None, "q:tr"],
        "threshold": COUNT, "threshold_low": COUNT, "threshold_high": COUNT,
        "weights_a": WTS, "weights_b": WTS, "samples": WTS, "t_samples": [[0, 1e-9, 2e-9, 3e-9], np.arange(4) * 1e-9, np.arange(4)],
        "weights_sampling_rate": [1e9, 250000000, np.int64(1e9)], "interpolation": ["linear", "nearest"],
        "reference_magnitude": [None] + [ReferenceMagnitude(x, u) for x in (1.5, np.float64(-20), 0, np.float32(.5)) for u in ("V", "dBm")],
        "sigma": [None, 3e-9, np.float64(4e-9)], "clock_freq_new": [None, 5e9, np.float64(5.1e9), 6000000000, np.int64(6e9)],
        "window_name": ["w", ""], "qubit": ["q0", "ä"], "qubits": ["q0"], "qC": ["q0"], "qT": ["q1"], "name": ["n", ""],
        "waveform_a": [{"port": "q:res", "clock": "q.ro", "t0": 0, "duration": 1e-7, "wf_func": "quantify_scheduler.waveforms.square", "amp": a} for a in (1, 0, 1j, np.complex64(1j))],
        "program": ["set_awg_gain 1,2", "# c\nl: jmp @l\n\twait 4"], "safe_labels": [True, False],
        "waveforms": [None, {}, {"w": {"data": [.1, .2], "index": 0}}, {"w": {"data": np.array([.1, .2]), "index": np.int64(1)}}],
        "repetitions": COUNT, "qubit_name": ["q0"], "hardware_buffer_time": [0., 4e-9], "acq_protocol": [None, "Trace", "TriggerCount", "SSBIntegrationComplex"],
        "apply_acquisition_delay": [True, False], "time_grid": [1e-9, 4e-9, np.float64(1e-9)], "sampling_rate": [1e9, 1000000000], "max_compensation_amp": [{"p": .5}, {"p": np.float64(.5), "r": 1}],
        "device_overrides": [{}, {"amp180": .3}, {"reset_clock_phase": False, "amp180": np.float32(.5)}, {"duration": np.int64(1)}],
        "amp_A": NUM, "body": ["X", "sub", "loop"], "pulse_info": [None, "list"],
    }
    v["waveform_b"] = v["waveform_a"]
    if name == "acq_index" and cls in ("Measure", "CRCount"):
        return [None, 0, 3, (1,)]
    if name == "acq_channel" and cls in ("Measure", "CRCount"):
        return [None, 0, "ch"]
    if cls in ("Measure", "CRCount") and name == "bin_mode":
        return [None, BinMode.APPEND] + (["average"] if cls == "Measure" else [])
    return v.get(name, NUM)


def classes():
    import inspect
    from quantify_scheduler import resources
    from quantify_scheduler.backends.qblox.operations import control_flow_library as qc, gate_library as qg, inline_q1asm as iq, rf_switch_toggle as rf, stitched_pulse as st
    from quantify_scheduler.operations import acquisition_library as a, control_flow_library as c, gate_library as g, nv_native_library as n, operation as op
    from quantify_scheduler.operations import pulse_compensation_library as pc, pulse_library as p, shared_native_library as s, spin_library as sp
    from quantify_scheduler.operations.operation import Operation
    from quantify_scheduler.resources import Resource
    from quantify_scheduler.schedules.schedule import Schedule
    out = {}
    for m in (a, g, p, n, s, sp, c, pc, qc, qg, iq, rf, st, op, resources):
        for k, v in vars(m).items():
            if inspect.isclass(v) and v.__module__ == m.__name__ and issubclass(v, (Operation, Resource, Schedule)) and not inspect.isabstract(v):
                out[f"{m.__name__.rsplit('.', 1)[1]}.{k}"] = v
    return out


def params(cls):
    import inspect
    if cls.__name__ == "ConditionalReset":
        return ["qubit_name", "name"]
    r = []
    for x in list(inspect.signature(cls.__init__).parameters.values())[1:]:
        if x.kind is not x.VAR_POSITIONAL:
            r.append(x.name if x.kind is not x.VAR_KEYWORD else "device_overrides")
        else:
            r.append(x.name)
    return r


def make(cls, deviations):
    """cls with its base arguments, some replaced."""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    from quantify_scheduler.operations.gate_library import X
    from quantify_scheduler.operations.pulse_library import SquarePulse
    kw = {}
    for n in params(cls):
        vals = values(cls.__name__, n)
        kw[n] = vals[deviations.get(n, 0)]
    if "body" in kw:
        if kw["body"] == "X":
            kw["body"] = X("q0")
        else:
            s = Schedule("b")
            s.add(SquarePulse(.1, 20e-9, "p", "cl0.baseband"))
            s.add(X("q1"))
            kw["body"] = s if kw["body"] == "sub" else LoopOperation(s, 2)
    if "pulse_info" in kw and kw["pulse_info"]:
        kw["pulse_info"] = SquarePulse(.1, 20e-9, "p", "cl0.baseband")["pulse_info"]
    ov = kw.pop("device_overrides", {})
    if cls.__name__ in ("Measure", "Reset", "ChargeReset", "CRCount"):
        return cls(kw.pop("qubits"), **kw, **(ov if cls.__name__ in ("Measure", "Reset") else {}))
    if cls.__name__ == "H":
        return cls(kw.pop("qubits"), **ov)
    return cls(**kw, **ov)


def class_case(case):
    key, dev = case
    cls = classes()[key]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            o = make(cls, dict(dev))
        except (TypeError, ValueError, NotImplementedError, AssertionError) as e:
            return R("refused")
        before, d0, txt = norm(o), dur(o), safe_str(o)
        r1 = {}
        for ch in CH_OP:
            what = f"{key}{[(k, values(cls.__name__, k)[i]) for k, i in dev]} through {ch}"
            try:
                n = via(ch, o)
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                raise Violation("channel-fails", f"{what}: {type(e).__name__}: {e}") from None
            same(o, before, n, what)
            if norm(dur(n)) != norm(d0) and not (isinstance(d0, (float, np.floating)) and abs(dur(n) - d0) <= 1e-6 * abs(d0)):
                raise Violation("duration", f"{what}: duration {d0} became {dur(n)}")
            r1[ch] = n
        if len(dev) < 2:
            for c1, c2 in itertools.product(CH_OP, repeat=2):
                what = f"{key}{[(k, values(cls.__name__, k)[i]) for k, i in dev]} through {c1}, {c2}"
                n = via(c2, via(c1, o))
                same(o, before, n, what)
            if safe_str(r1["copy"]) != txt or safe_str(r1["deepcopy"]) != txt:
                raise Violation("str", f"{key}: {txt} reads {safe_str(r1['deepcopy'])} after copying")
    return R("ok", distinct=repr(before))


def class_cases(_):
    out = []
    for key, cls in classes().items():
        ps = [(n, len(values(cls.__name__, n))) for n in params(cls) if n not in ("args", "kwargs")]
        out.append((key, ()))
        for n, k in ps:
            out += [(key, ((n, i),)) for i in range(1, k)]
        for (n, k), (m, j) in itertools.combinations(ps, 2):
            out += [(key, ((n, i), (m, l))) for i in range(1, k) for l in range(1, j)]
    return out


# ------------------------------------------------------------ unknown text
def refuse_case(text):
    from quantify_scheduler import Schedule
    from quantify_scheduler.json_utils import SchedulerJSONDecoder, UnknownDeserializationTypeError
    for fn in (lambda: json.loads(text, cls=SchedulerJSONDecoder), lambda: Schedule.from_json(text)):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o = fn()
        except UnknownDeserializationTypeError:
            continue
        raise Violation("not-refused", f"{text} was read as {o!r}")
    return R("refused-text")


NAMES = ["Unknown", "quantify_scheduler.Nothing", "quantify_scheduler.nomodule.Schedule", "nomodule.X", "", "a.b.c", "quantify_scheduler.schedules.schedule.Missing", "ScheduleX", "gate_library.X"]


def refuse_cases(_):
    out = []
    for n in NAMES:
        d = {"deserialization_type": n, "data": {"name": "x"}}
        for mode in (None, "__init__", "type"):
            e = dict(d, **({"mode": mode} if mode else {}))
            out += [json.dumps(e), json.dumps({"a": [e]}), json.dumps({"deserialization_type": "quantify_scheduler.operations.gate_library.X", "data": {"gate_info": e, "pulse_info": [], "acquisition_info": []}})]
    return out


# ------------------------------------------------------------ 2: schedules
def plain(o):
    """Instructions as the components read them; settings objects may come back as dictionaries."""
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        return {repr(f.name): plain(getattr(o, f.name)) for f in dataclasses.fields(o)}
    if hasattr(o, "model_dump"):
        return plain(o.model_dump())
    if hasattr(o, "keys") and not hasattr(o, "body"):
        return {repr(norm(k)): plain(o[k]) for k in o.keys()}
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    return norm(o)


def split_mapping(ins):
    """The instructions without, and only, the acquisition hardware mappings."""
    rest, maps = {}, {}
    for c, v in ins.items():
        rest[c] = {}
        for m, x in v.items():
            if isinstance(x, dict) and "'acq_hardware_mapping'" in x:
                maps[c + m] = x["'acq_hardware_mapping'"]
                x = {k: y for k, y in x.items() if k != "'acq_hardware_mapping'"}
            rest[c][m] = x
    return rest, maps


def settings_of(o, path=()):
    """All settings objects in compiled instructions."""
    if dataclasses.is_dataclass(o) and hasattr(type(o), "from_dict"):
        yield path, o
    elif hasattr(o, "keys"):
        for k in o.keys():
            yield from settings_of(o[k], path + (k,))


def pick(o, path):
    for k in path:
        o = o[k]
    return o


def leaves():
    num = tuple([.1, -.2, .3, .05] * 4)
    return {
        "sq": ("sq", "mw", 20, .3), "csq": ("sq", "iq", 20, .2 + .1j), "drag": ("drag", "mw", 20, .2, .5, 40), "num": ("num", "fl", num), "lsq": ("sq", "iq", 400, .25), "stair": ("stair", "fl", 40, .1, .4, 4),
        "off": ("par", [("off", "iq", .2, -.1), ("idle", 40)]), "phase": ("phase", "q.01", 40.), "freq": ("freq", "q.01", 5.01e9), "lramp": ("lramp", "fl", 4000, .3, 0., 2000),
        "acq": ("acq", "ssb", "res", 100, 0, None, "AVERAGE", None), "acq-coords": ("acq", "ssb", "res", 100, "ch", (("amp", .1),), "APPEND", None),
        "numacq": ("acq", "num", "res", None, 2, None, "APPEND", (np.linspace(.1, 1, 40), np.linspace(1, .1, 40))), "thr": ("acq", "thr", "res", 100, 1, None, "APPEND", {"acq_threshold": .2, "acq_rotation": 40.}),
        "inline": ("inline",), "comp": ("comp", (("fl", .5),), 4, [("sq", "fl", 20, .3)]), "refmag": ("refmag",),
    }


def gate_leaves():
    def g(name, *args, **kw):
        return ("gate", name, tuple(args), tuple(sorted(kw.items())))
    return {n: g(*a) for n, a in {"X": ("X", "q0"), "X90": ("X90", "q0"), "Rxy": ("Rxy", 45., 30., "q1"), "Rz": ("Rz", 30., "q0"), "H": ("H", "q0"), "CZ": ("CZ", "q0", "q1"), "T": ("T", "q1"),
                                  "Reset": ("Reset", "q0", "q1"), "M": ("Measure", "q0"), "MM": ("Measure", "q0", "q1"), "S": ("S", "q0")}.items()} | {
        "Xov": g("X", "q0", amp180=.3), "Mkw": g("Measure", "q1", acq_channel=5, bin_mode="append"), "cond": ("cond", "q0", [g("X", "q1"), g("Rz", 20., "q1")])}


WRAP = ("sub", "loop", "par")


def build_leaf(l):
    from quantify_scheduler import Schedule
    if l[0] == "inline":
        from quantify_scheduler.backends.qblox.operations.inline_q1asm import InlineQ1ASM
        return InlineQ1ASM("play 0,0,20\nlab: wait 20", 40e-9, *ref.pc("fl"), waveforms={"w": {"data": [.1] * 20, "index": 0}})
    if l[0] == "refmag":
        from quantify_scheduler.operations.pulse_library import ReferenceMagnitude, SquarePulse
        return SquarePulse(.3, 20e-9, *ref.pc("mw"), reference_magnitude=ReferenceMagnitude(.5, "V"))
    if l[0] == "par":
        s = Schedule("par")
        for x in l[1]:
            s.add(ref.build_node(x))
        return s
    return ref.build_node(l)


def build_nested(a, wraps, b, clocks, reps):
    """a; then b inside the wrappers; then a again (the same object)."""
    from quantify_scheduler import ClockResource, Schedule
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    x, y = build_leaf(a), build_leaf(b)
    for w in wraps:
        s = Schedule(f"w{w}")
        s.add(y, label=f"in {w}")
        if w == "par":
            s.add(copy.copy(y) if not isinstance(y, Schedule) else y, rel_time=8e-9)
        y = LoopOperation(s, 2) if w == "loop" else s
    top = Schedule("top schedule", repetitions=reps)
    for c, f in clocks:
        top.add_resource(ClockResource(c, f))
    top.add(x, label="first")
    top.add(y, rel_time=40e-9)
    top.add(x, ref_op="first", ref_pt="end", rel_time=100e-6, label="ünïcode \"label\"")
    return top


def sched_case(case):
    kind, na, wraps, nb = case
    from checks import C16  # noqa: PLC0415
    from quantify_scheduler.backends import SerialCompiler
    world, lv, clocks = get_world(kind)
    world.use() if hasattr(world, "use") else None
    cfg = world.config() if hasattr(world, "config") else world
    s = build_nested(lv[na], wraps, lv[nb], clocks, 3)
    before = norm(s)
    order = list(s.schedulables)
    try:
        comp = SerialCompiler("c").compile(s, cfg)
        want = C16.programs(comp)
    except Exception as e:  # noqa: BLE001
        comp, want = None, f"{type(e).__name__}: {str(e)[:60]}"
    for ch in CH_SCHED:
        what = f"{na} then {'('.join(reversed(wraps))}({nb}) through {ch}"
        n = via(ch, s)
        same(s, before, n, what)
        if list(n.schedulables) != order or list(n.operations) != list(s.operations):
            raise Violation("order", f"{what}: the order of the operations changed")
        if n.repetitions != s.repetitions or n.name != s.name:
            raise Violation("attributes", f"{what}: name or repetitions changed")
        if ch in ("json", "pickle", "deepcopy", "file"):
            try:
                got = C16.programs(SerialCompiler("c").compile(n, cfg))
            except Exception as e:  # noqa: BLE001
                got = f"{type(e).__name__}: {str(e)[:60]}"
            if got != want:
                raise Violation("programs", f"{what}: compiles to different programs ({got if isinstance(got, str) and ':' in got else ''})")
            w = where(before, norm(s))
            if w:
                raise Violation("alias", f"{what}: compiling the copy changed the source: {w}")
    if comp is None:
        return R("refused")
    # the compiled schedule
    a = {k: plain(v) for k, v in comp.compiled_instructions.items()}
    viol = []
    cb = norm({k: v for k, v in comp.data.items() if k != "compiled_instructions"})
    for ch in CH_SCHED:
        what = f"compiled {na} then {'('.join(reversed(wraps))}({nb}) through {ch}"
        n = via(ch, comp)
        if type(n) is not type(comp):
            raise Violation("compiled-class", f"{what}: became {type(n).__name__}")
        (ra, ma), (rn, mn) = split_mapping(a), split_mapping({k: plain(v) for k, v in n.compiled_instructions.items()})
        w = where(ma, mn)
        if w and ch in ("pickle", "copy", "deepcopy"):
            raise Violation("compiled-mapping", f"{what}: {w}")
        if w:
            viol.append(("acquisition-mapping-in-json", f"{what}: {w}"))
        w = where(ra, rn) or where(cb, norm({k: v for k, v in n.data.items() if k != "compiled_instructions"}))
        if w:
            raise Violation("compiled-content", f"{what}: {w}")
        for path, st in settings_of(comp.compiled_instructions):
            r = pick(n.compiled_instructions, path)
            if isinstance(r, dict):
                r = type(st).from_dict(r)
            if r != st:
                raise Violation("compiled-settings", f"{what}: {path} are read as {r} instead of {st}")
        if n.duration != comp.duration:
            raise Violation("compiled-duration", f"{what}: {comp.duration} became {n.duration}")
        w = where(a, {k: plain(v) for k, v in comp.compiled_instructions.items()})
        if w:
            raise Violation("compiled-source-changed", f"{what}: {w}")
    return R("ok", distinct=(want, repr(before)[:2000]), viol=viol)


_W = {}


def get_world(kind):
    if kind not in _W:
        if kind == "pulses":
            r = rigs.main_rig()
            _W[kind] = (r, leaves(), r.clocks)
        else:
            _W[kind] = (gates.make_device(strategy="asap").generate_compilation_config(), gate_leaves(), ())
    return _W[kind]


def wrap_paths(depth):
    return [p for n in range(depth + 1) for p in itertools.product(WRAP, repeat=n)]


def sched_cases(_):
    out = []
    for kind, lv in (("pulses", leaves()), ("gates", gate_leaves())):
        for b in lv:
            for a in lv if THOROUGH else list(lv)[:2]:
                for p in wrap_paths(3 if THOROUGH or a == list(lv)[0] else 1):
                    out.append((kind, a, p, b))
    return out


# ------------------------------------------------------------ 3: devices
def element_classes():
    from quantify_scheduler.device_under_test.nv_element import BasicElectronicNVElement
    from quantify_scheduler.device_under_test.spin_element import BasicSpinElement, ChargeSensor
    from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
    return {"transmon": BasicTransmonElement, "nv": BasicElectronicNVElement, "spin": BasicSpinElement, "sensor": ChargeSensor}


def edge_classes():
    from quantify_scheduler.device_under_test.composite_square_edge import CompositeSquareEdge
    from quantify_scheduler.device_under_test.spin_edge import SpinEdge
    return {"composite": (CompositeSquareEdge, "transmon"), "spin": (SpinEdge, "spin")}


CAND = [.25, 4e-9, 5.5e9, -3.5, 0, 1, 7, 360, float("nan"), True, False, None, "text", "ünï: \"x\"", "SSB", "Numerical", "Trace", "SSBIntegrationComplex", "ThresholdedAcquisition", "append", "average",
        np.array([.1, .2, .3]), np.array([.5, .25], dtype=np.float32), np.array([1, 2]), np.array([1 + 2j, .5]), [.1, .2], [], ["a"], {"a": 1.}, np.float64(.125), np.float32(.5), np.int64(2), 1 + 1j]


def all_params(inst):
    for sn, sm in inst.submodules.items():
        for pn, p in sm.parameters.items():
            yield sn, pn, p


def accepted(p):
    """Indices of candidate values this parameter takes."""
    out = []
    free = True          # takes anything: a port or clock name
    try:
        p.validate(object())
    except Exception:  # noqa: BLE001
        free = False
    for i, v in enumerate(CAND):
        if free and not (isinstance(v, str) and v):
            continue
        try:
            p.validate(v)
            p.set(v)
            out.append(i)
        except Exception:  # noqa: BLE001
            pass
    return out


def read_params(inst):
    return {f"{s}.{p}": norm(o()) for s, p, o in all_params(inst)}


def close_all():
    from qcodes.instrument import Instrument
    Instrument.close_all()


def new_device(elements, edges):
    """elements: {name: kind}; edges: [(kind, parent, child)]"""
    from quantify_scheduler import QuantumDevice
    close_all()
    qd = QuantumDevice("qd")
    keep = []
    for n, k in elements.items():
        e = element_classes()[k](n)
        keep.append(e)
        qd.add_element(e)
    for k, a, b in edges:
        e = edge_classes()[k][0](a, b)
        keep.append(e)
        qd.add_edge(e)
    return qd, keep


DEV_CH = ("json", "dict", "json-file", "yaml-file", "json-file-plain", "yaml-file-plain")


def dev_via(ch, o, cls):
    """Write o, close everything, read back."""
    with tempfile.TemporaryDirectory() as d:
        if ch == "json":
            t = o.to_json()
            close_all()
            return cls.from_json(t)
        if ch == "dict":
            t = o.to_dict()
            close_all()
            return cls.from_dict(t)
        kind, rest = ch.split("-", 1)
        f = getattr(o, f"to_{kind}_file")(d, add_timestamp=not rest.endswith("plain"))
        if rest.endswith("plain") and f != os.path.join(d, f"{o.name}.{kind}"):
            raise Violation("file-name", f"{ch} wrote {f}")
        close_all()
        return getattr(cls, f"from_{kind}_file")(f)


def param_case(case):
    what, name, sub, par, i, ch = case
    if what == "element":
        cls = element_classes()[name]
        close_all()
        o = cls("q0")
    else:
        cls, ek = edge_classes()[name]
        _, keep = new_device({"q0": ek, "q1": ek}, [(name, "q0", "q1")])
        o = keep[-1]
    for s, p, obj in all_params(o):
        if par is None:
            a = accepted(obj)
            obj.set(CAND[a[i % len(a)]]) if a else None
        elif (s, p) == (sub, par):
            obj.set(CAND[i])
    before = read_params(o)
    n = dev_via(ch, o, cls)
    if type(n) is not cls or n.name != ("q0" if what == "element" else "q0_q1"):
        raise Violation("device-class", f"{case}: read back {n!r}")
    w = where(before, read_params(n))
    close_all()
    if w:
        raise Violation("parameter", f"{name} {sub}.{par}={CAND[i]!r} through {ch}: {w}")
    return R("ok", distinct=(name, sub, par, i))


def param_cases(_):
    out = []
    for name, cls in element_classes().items():
        close_all()
        o = cls("q0")
        for s, p, obj in all_params(o):
            out += [("element", name, s, p, i, ch) for i in accepted(obj) for ch in ("json", "yaml-file")]
        out += [("element", name, None, None, i, ch) for i in range(8) for ch in DEV_CH]
    for name, (cls, ek) in edge_classes().items():
        _, keep = new_device({"q0": ek, "q1": ek}, [(name, "q0", "q1")])
        for s, p, obj in all_params(keep[-1]):
            out += [("edge", name, s, p, i, ch) for i in accepted(obj) for ch in ("json", "yaml-file")]
        out += [("edge", name, None, None, i, ch) for i in range(8) for ch in DEV_CH]
    close_all()
    return out


def device_case(case):
    from quantify_scheduler import QuantumDevice
    elements, edges, reps, c1, c2 = case
    qd, keep = new_device(dict(elements), edges)
    for j, inst in enumerate(keep):     # different values in every element
        for n, (s, p, obj) in enumerate(all_params(inst)):
            v = obj()
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                x = (n + 1) * 1e-9 * (j + 1)
                for cand in (x, n + 1, n % 3 + 1):
                    try:
                        obj.validate(cand)
                    except Exception:  # noqa: BLE001
                        continue
                    obj.set(cand)
                    break
    qd.cfg_sched_repetitions(reps)

    def state(q):
        d = q.generate_device_config()
        return [q.name, list(q.elements()), list(q.edges()), q.cfg_sched_repetitions(), norm(d.model_dump()), {n: read_params(q.get_element(n)) for n in q.elements()}, {n: read_params(q.get_edge(n)) for n in q.edges()},
                {n: [q.get_edge(n).parent_device_element.name, q.get_edge(n).child_device_element.name] for n in q.edges()}]
    before = state(qd)
    n = dev_via(c1, qd, QuantumDevice)
    w = where(before, state(n))
    if w:
        raise Violation("device", f"{case}: through {c1}: {w}")
    if c2:
        n = dev_via(c2, n, QuantumDevice)
        w = where(before, state(n))
        if w:
            raise Violation("device", f"{case}: through {c1}, {c2}: {w}")
    close_all()
    return R("ok", distinct=before)


def device_cases(_):
    out = []
    for kinds in itertools.chain(*(itertools.product(element_classes(), repeat=k) for k in (1, 2, 3) if k < 3 or THOROUGH)):
        names = [f"q{i}" for i in (2, 0, 1)][:len(kinds)]
        els = tuple(zip(names, kinds))
        pairs = [(k, a, b) for k, (_, ek) in edge_classes().items() for a, ka in els for b, kb in els if a != b and ka == kb == ek]
        for r in range(min(2, len(pairs)) + 1):
            for ed in itertools.combinations(pairs, r):
                for c1 in DEV_CH:
                    out.append((els, ed, 17, c1, None))
                    if r == len(pairs) and len(kinds) > 1:
                        out += [(els, ed, 1, c1, c2) for c2 in DEV_CH]
    return out


CT = "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig"


def hwcfg_case(case):
    """A hardware configuration gives the same compiled programs however it is passed."""
    name, how = case
    from quantify_scheduler import QuantumDevice
    from quantify_scheduler.backends.qblox_backend import QbloxHardwareCompilationConfig
    from quantify_scheduler.schemas.examples import utils
    hw = utils.load_json_example_scheme(name)
    close_all()

    def gen(x=None, f=None):
        close_all()
        qd = QuantumDevice("qd")
        if f:
            qd.hardware_config.load_from_json_file(f)
        else:
            qd.hardware_config(x)
        return qd, qd.generate_hardware_compilation_config()
    want = norm(gen(copy.deepcopy(hw))[1].model_dump())
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "hw.json")
        if how == "file":
            json.dump(hw, open(f, "w"))
            got = gen(f=f)[1]
        elif how == "write":
            qd, _ = gen(copy.deepcopy(hw))
            qd.hardware_config.write_to_json_file(f)
            got = gen(f=f)[1]
        elif how == "model":
            got = gen(QbloxHardwareCompilationConfig.model_validate(copy.deepcopy(hw)))[1]
        elif how == "model_dump":
            got = gen({"config_type": CT, **QbloxHardwareCompilationConfig.model_validate(copy.deepcopy(hw)).model_dump()})[1]
        elif how == "model_dump_json":
            got = gen({"config_type": CT, **json.loads(QbloxHardwareCompilationConfig.model_validate(copy.deepcopy(hw)).model_dump_json())})[1]
        elif how == "validate_json":
            got = QbloxHardwareCompilationConfig.model_validate_json(QbloxHardwareCompilationConfig.model_validate(copy.deepcopy(hw)).model_dump_json())
        elif how == "copies":
            m = QbloxHardwareCompilationConfig.model_validate(copy.deepcopy(hw))
            got = pickle.loads(pickle.dumps(copy.deepcopy(m)))
    w = where(want, norm(got.model_dump()))
    if w:
        raise Violation("hardware-config", f"{name} as {how}: {w}")
    close_all()
    return R("ok", distinct=want)


HOWS = ("file", "write", "model", "model_dump", "model_dump_json", "validate_json", "copies")


def hwcfg_cases(_):
    from quantify_scheduler import schemas
    d = pathlib.Path(schemas.__file__).parent / "examples"
    out = []
    for f in sorted(os.listdir(d)):
        if f.startswith("qblox_hardware") and f.endswith(".json"):
            out += [(f, h) for h in HOWS]
    return out


def main():
    ck = Check("C17", rule=NOTE, assumptions=["a tuple may come back as a list and a numpy number as the equal python number: JSON has no such types",
                                              "a quantum device stores its elements, edges and repetitions (documented); its hardware configuration is stored separately"])
    ck.explore(class_case, class_cases(None), label="classes")
    ck.explore(refuse_case, refuse_cases(None), label="unknown")
    ck.explore(sched_case, sched_cases(None), label="schedules")
    ck.explore(param_case, param_cases(None), label="parameters")
    ck.explore(device_case, device_cases(None), label="devices")
    ck.explore(hwcfg_case, hwcfg_cases(None), label="hardware")
    ck.finish(("classes:ok", "unknown:refused-text", "schedules:ok", "parameters:ok", "devices:ok", "hardware:ok"))


if __name__ == "__main__":
    main()
