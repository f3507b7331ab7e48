PROPERTY = 'C12'
NEEDS = 'compensated pulses of one port that overlap, the last scheduled one ending first'
BREAKS = 'the compensation pulse starts while an earlier pulse still plays'
EDITS = [('pulse_compensation.py', 'max(self.end, other.end),', 'other.end,')]
DEMO = r'''
import re
from quantify_scheduler import ClockResource, Schedule
from quantify_scheduler.backends import SerialCompiler
from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
from quantify_scheduler.operations.acquisition_library import *  # noqa: F403
from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
from quantify_scheduler.operations.pulse_library import *  # noqa: F403


def config(modules, graph, **options):
    """Compilation config of a cluster with these modules and connections."""
    hw = {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
          "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {
              k: v if isinstance(v, dict) else {"instrument_type": v} for k, v in modules.items()}}},
          "hardware_options": options, "connectivity": {"graph": [["cluster0." + a, b] for a, b in graph]}}
    qd = QuantumDevice("dev")
    qd.hardware_config(hw)
    return qd.generate_compilation_config()


def compile_(sched, cfg):
    return SerialCompiler("c").compile(sched, cfg)


def sequencers(comp):
    """{port: sequencer settings} of everything compiled."""
    out = {}
    for k, m in comp.compiled_instructions["cluster0"].items():
        if isinstance(m, dict) and "sequencers" in m:
            for s in m["sequencers"].values():
                out[s.port if hasattr(s, "port") else len(out)] = s
    return out


def only(comp):
    s = [s for m in comp.compiled_instructions["cluster0"].values() if isinstance(m, dict) and "sequencers" in m
         for s in m["sequencers"].values()]
    return s[0] if len(s) == 1 else s


def timeline(seq):
    """[(time after the start, opcode, arguments)] of a program without loops."""
    out, t = [], 0
    for line in seq.sequence["program"].splitlines():
        w = re.sub(r"^\s*\w+:", "", line.split("#")[0]).split(None, 1)
        if not w:
            continue
        a = [x.strip() for x in w[1].split(",")] if len(w) > 1 else []
        out.append((t, w[0], a))
        if w[0] in ("wait", "wait_sync", "upd_param", "play", "acquire", "acquire_weighed", "acquire_ttl",
                    "acquire_timetags", "set_cond") and a[-1].isdigit():
            t += int(a[-1])
    return out

cfg = config({"1": "QCM"}, [("module1.real_output_0", "q0:fl"), ("module1.real_output_1", "q1:fl")])
body = Schedule("body")
a = body.add(SquarePulse(amp=.4, duration=80e-9, port="q0:fl", clock="cl0.baseband"))
body.add(SquarePulse(amp=.2, duration=20e-9, port="q0:fl", clock="cl0.baseband"), ref_op=a, ref_pt="start", rel_time=20e-9)
s = Schedule("s")
s.add(PulseCompensation(body=body, max_compensation_amp={"q0:fl": .5}, time_grid=4e-9, sampling_rate=1e9))
s.add(IdlePulse(100e-9))
pulses = []
def walk(op, t):
    if hasattr(op, "schedulables"):
        for x in op.schedulables.values():
            walk(op.operations[x["operation_id"]], t + x["abs_time"])
    elif getattr(op, "body", None) is not None:
        walk(op.body, t)
    else:
        for p in op.data["pulse_info"]:
            if p.get("port") == "q0:fl" and p["duration"]:
                pulses.append((round((t + p["t0"]) * 1e9), round(p["duration"] * 1e9), p.get("amp")))
from quantify_scheduler.pulse_compensation import process_compensation_pulses
from quantify_scheduler.compilation import _determine_absolute_timing
c = _determine_absolute_timing(process_compensation_pulses(s, cfg), config=cfg)
walk(c, 0)
neg = [p for p in pulses if p[2] < 0]
assert len(neg) == 1 and neg[0][0] >= 80, pulses
'''
