PROPERTY = 'C24'
NEEDS = 'a pulse that starts later than its operation, on a port with software distortion correction'
BREAKS = 'the corrected pulse is played at the start of the operation'
EDITS = [('backends/corrections.py', '        t0=pulse_data["t0"],\n    )', '        t0=0,\n    )')]
DEMO = r'''
import re
from quantify_scheduler import ClockResource, Schedule
from quantify_scheduler.backends import SerialCompiler
from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
from quantify_scheduler.operations.acquisition_library import *  # noqa: F403
from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
from quantify_scheduler.operations.pulse_library import *  # noqa: F403


def config(modules, graph, **options):
    """Compilation config of a cluster with these modules and connections."""
    hw = {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
          "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {
              k: v if isinstance(v, dict) else {"instrument_type": v} for k, v in modules.items()}}},
          "hardware_options": options, "connectivity": {"graph": [["cluster0." + a, b] for a, b in graph]}}
    qd = QuantumDevice("dev")
    qd.hardware_config(hw)
    return qd.generate_compilation_config()


def compile_(sched, cfg):
    return SerialCompiler("c").compile(sched, cfg)


def sequencers(comp):
    """{port: sequencer settings} of everything compiled."""
    out = {}
    for k, m in comp.compiled_instructions["cluster0"].items():
        if isinstance(m, dict) and "sequencers" in m:
            for s in m["sequencers"].values():
                out[s.port if hasattr(s, "port") else len(out)] = s
    return out


def only(comp):
    s = [s for m in comp.compiled_instructions["cluster0"].values() if isinstance(m, dict) and "sequencers" in m
         for s in m["sequencers"].values()]
    return s[0] if len(s) == 1 else s


def timeline(seq):
    """[(time after the start, opcode, arguments)] of a program without loops."""
    out, t = [], 0
    for line in seq.sequence["program"].splitlines():
        w = re.sub(r"^\s*\w+:", "", line.split("#")[0]).split(None, 1)
        if not w:
            continue
        a = [x.strip() for x in w[1].split(",")] if len(w) > 1 else []
        out.append((t, w[0], a))
        if w[0] in ("wait", "wait_sync", "upd_param", "play", "acquire", "acquire_weighed", "acquire_ttl",
                    "acquire_timetags", "set_cond") and a[-1].isdigit():
            t += int(a[-1])
    return out

cfg = config({"1": "QCM"}, [("module1.real_output_0", "q0:fl")], distortion_corrections={"q0:fl-cl0.baseband": {
    "filter_func": "scipy.signal.lfilter", "input_var_name": "x", "kwargs": {"b": [0, .25, .5], "a": [1]},
    "clipping_values": [-2.5, 2.5], "sampling_rate": 1e9}})
def start(t0):
    s = Schedule("s")
    s.add(SquarePulse(amp=.2, duration=40e-9, port="q0:fl", clock="cl0.baseband", t0=t0 * 1e-9))
    s.add(IdlePulse(200e-9))
    return [t for t, op, a in timeline(only(compile_(s, cfg))) if op == "play"][0]
assert start(60) - start(0) == 60, (start(0), start(60))
'''
