PROPERTY = 'C11'
NEEDS = 'two overlapping drive pulses on one port, the later one ending first'
BREAKS = 'the RF output is switched off while the longer pulse still plays'
EDITS = [('backends/qblox/auto_rf_switch.py', 'current_end = max(current_end, pulse.end_time)', 'current_end = pulse.end_time')]
DEMO = r'''
import re
from quantify_scheduler import ClockResource, Schedule
from quantify_scheduler.backends import SerialCompiler
from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
from quantify_scheduler.operations.acquisition_library import *  # noqa: F403
from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
from quantify_scheduler.operations.pulse_library import *  # noqa: F403


def config(modules, graph, **options):
    """Compilation config of a cluster with these modules and connections."""
    hw = {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
          "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {
              k: v if isinstance(v, dict) else {"instrument_type": v} for k, v in modules.items()}}},
          "hardware_options": options, "connectivity": {"graph": [["cluster0." + a, b] for a, b in graph]}}
    qd = QuantumDevice("dev")
    qd.hardware_config(hw)
    return qd.generate_compilation_config()


def compile_(sched, cfg):
    return SerialCompiler("c").compile(sched, cfg)


def sequencers(comp):
    """{port: sequencer settings} of everything compiled."""
    out = {}
    for k, m in comp.compiled_instructions["cluster0"].items():
        if isinstance(m, dict) and "sequencers" in m:
            for s in m["sequencers"].values():
                out[s.port if hasattr(s, "port") else len(out)] = s
    return out


def only(comp):
    s = [s for m in comp.compiled_instructions["cluster0"].values() if isinstance(m, dict) and "sequencers" in m
         for s in m["sequencers"].values()]
    return s[0] if len(s) == 1 else s


def timeline(seq):
    """[(time after the start, opcode, arguments)] of a program without loops."""
    out, t = [], 0
    for line in seq.sequence["program"].splitlines():
        w = re.sub(r"^\s*\w+:", "", line.split("#")[0]).split(None, 1)
        if not w:
            continue
        a = [x.strip() for x in w[1].split(",")] if len(w) > 1 else []
        out.append((t, w[0], a))
        if w[0] in ("wait", "wait_sync", "upd_param", "play", "acquire", "acquire_weighed", "acquire_ttl",
                    "acquire_timetags", "set_cond") and a[-1].isdigit():
            t += int(a[-1])
    return out

qd = QuantumDevice("dev2")
hc = {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
      "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {
          "1": {"instrument_type": "QCM_RF", "rf_output_on": False}}}}, "compiler_options": {"auto_rf_switch": True},
      "hardware_options": {"modulation_frequencies": {"q0:mw-q0.01": {"interm_freq": 50e6}}},
      "connectivity": {"graph": [["cluster0.module1.complex_output_0", "q0:mw"]]}}
qd.hardware_config(hc)
d = qd.generate_compilation_config()
s = Schedule("s")
s.add_resource(ClockResource("q0.01", 5e9))
s.add(IdlePulse(200e-9))
a = s.add(SquarePulse(amp=.2, duration=80e-9, port="q0:mw", clock="q0.01"))
s.add(SquarePulse(amp=.1, duration=20e-9, port="q0:mw", clock="q0.01"), ref_op=a, ref_pt="start", rel_time=20e-9)
s.add(IdlePulse(200e-9), ref_op=a)
m = [(t, int(a[0])) for t, op, a in timeline(only(compile_(s, d))) if op == "set_mrk"]
on, off = [t for t, v in m if v and t > 100][0], m[-1][0]
assert m[-1][1] == 0 and off - on >= 120, m
'''
