PROPERTY = 'C06'
NEEDS = 'a loop that measures for the same feedback label twice without a conditional between'
BREAKS = 'the second measurement of a label overwrites the first although no conditional consumed it, without an error'
EDITS = [('backends/qblox_backend.py', 'for i in range(operation.data["control_flow_info"]["repetitions"]):\n            _all_cond', 'for i in range(1):\n            _all_cond')]
DEMO = r'''
import re
from quantify_scheduler import ClockResource, Schedule
from quantify_scheduler.backends import SerialCompiler
from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
from quantify_scheduler.operations.acquisition_library import *  # noqa: F403
from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
from quantify_scheduler.operations.pulse_library import *  # noqa: F403


def config(modules, graph, **options):
    """Compilation config of a cluster with these modules and connections."""
    hw = {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
          "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {
              k: v if isinstance(v, dict) else {"instrument_type": v} for k, v in modules.items()}}},
          "hardware_options": options, "connectivity": {"graph": [["cluster0." + a, b] for a, b in graph]}}
    qd = QuantumDevice("dev")
    qd.hardware_config(hw)
    return qd.generate_compilation_config()


def compile_(sched, cfg):
    return SerialCompiler("c").compile(sched, cfg)


def sequencers(comp):
    """{port: sequencer settings} of everything compiled."""
    out = {}
    for k, m in comp.compiled_instructions["cluster0"].items():
        if isinstance(m, dict) and "sequencers" in m:
            for s in m["sequencers"].values():
                out[s.port if hasattr(s, "port") else len(out)] = s
    return out


def only(comp):
    s = [s for m in comp.compiled_instructions["cluster0"].values() if isinstance(m, dict) and "sequencers" in m
         for s in m["sequencers"].values()]
    return s[0] if len(s) == 1 else s


def timeline(seq):
    """[(time after the start, opcode, arguments)] of a program without loops."""
    out, t = [], 0
    for line in seq.sequence["program"].splitlines():
        w = re.sub(r"^\s*\w+:", "", line.split("#")[0]).split(None, 1)
        if not w:
            continue
        a = [x.strip() for x in w[1].split(",")] if len(w) > 1 else []
        out.append((t, w[0], a))
        if w[0] in ("wait", "wait_sync", "upd_param", "play", "acquire", "acquire_weighed", "acquire_ttl",
                    "acquire_timetags", "set_cond") and a[-1].isdigit():
            t += int(a[-1])
    return out

cfg = config({"1": "QCM", "2": "QRM"}, [("module1.complex_output_0", "q0:mw"), ("module2.complex_output_0", "q0:res")])
def sched(n):
    s = Schedule("s")
    s.add_resources([ClockResource("q0.ro", 1e8), ClockResource("q0.01", 1.5e8)])
    body = Schedule("body")
    body.add(ThresholdedAcquisition(port="q0:res", clock="q0.ro", duration=200e-9, feedback_trigger_label="q0",
                                    acq_rotation=0, acq_threshold=.1))
    body.add(IdlePulse(1e-6))
    s.add(LoopOperation(body, repetitions=n))
    c = Schedule("c")
    c.add(SquarePulse(amp=.2, duration=20e-9, port="q0:mw", clock="q0.01"))
    c.add(IdlePulse(20e-9))
    s.add(ConditionalOperation(c, qubit_name="q0", hardware_buffer_time=4e-9), rel_time=400e-9)
    s.add(IdlePulse(1e-6))
    return s
compile_(sched(1), cfg)
try:
    compile_(sched(2), cfg)
except Exception as e:
    print(type(e).__name__, e)
else:
    raise SystemExit("two measurements for one conditional are accepted")
'''
