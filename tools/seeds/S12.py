PROPERTY = 'C27'
NEEDS = 'a mixer whose name begins with the name of the cluster'
BREAKS = 'the mixer is taken for a place on the cluster and the configuration is refused'
EDITS = [('backends/qblox_backend.py', 'return any(cluster_name == possible_cluster_name for', 'return any(possible_cluster_name.startswith(cluster_name) for')]
DEMO = r'''
import re
from quantify_scheduler import ClockResource, Schedule
from quantify_scheduler.backends import SerialCompiler
from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
from quantify_scheduler.operations.acquisition_library import *  # noqa: F403
from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
from quantify_scheduler.operations.pulse_library import *  # noqa: F403


def config(modules, graph, **options):
    """Compilation config of a cluster with these modules and connections."""
    hw = {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
          "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {
              k: v if isinstance(v, dict) else {"instrument_type": v} for k, v in modules.items()}}},
          "hardware_options": options, "connectivity": {"graph": [["cluster0." + a, b] for a, b in graph]}}
    qd = QuantumDevice("dev")
    qd.hardware_config(hw)
    return qd.generate_compilation_config()


def compile_(sched, cfg):
    return SerialCompiler("c").compile(sched, cfg)


def sequencers(comp):
    """{port: sequencer settings} of everything compiled."""
    out = {}
    for k, m in comp.compiled_instructions["cluster0"].items():
        if isinstance(m, dict) and "sequencers" in m:
            for s in m["sequencers"].values():
                out[s.port if hasattr(s, "port") else len(out)] = s
    return out


def only(comp):
    s = [s for m in comp.compiled_instructions["cluster0"].values() if isinstance(m, dict) and "sequencers" in m
         for s in m["sequencers"].values()]
    return s[0] if len(s) == 1 else s


def timeline(seq):
    """[(time after the start, opcode, arguments)] of a program without loops."""
    out, t = [], 0
    for line in seq.sequence["program"].splitlines():
        w = re.sub(r"^\s*\w+:", "", line.split("#")[0]).split(None, 1)
        if not w:
            continue
        a = [x.strip() for x in w[1].split(",")] if len(w) > 1 else []
        out.append((t, w[0], a))
        if w[0] in ("wait", "wait_sync", "upd_param", "play", "acquire", "acquire_weighed", "acquire_ttl",
                    "acquire_timetags", "set_cond") and a[-1].isdigit():
            t += int(a[-1])
    return out

def lo(mixer, n=0):
    hw = {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
          "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {"1": {"instrument_type": "QCM"}}},
                                   mixer: {"instrument_type": "IQMixer"}, "lo0": {"instrument_type": "LocalOscillator", "power": 1}},
          "hardware_options": {"modulation_frequencies": {"q0:mw-q0.01": {"interm_freq": 50e6}}},
          "connectivity": {"graph": [["cluster0.module1.complex_output_0", f"{mixer}.if"], ["lo0.output", f"{mixer}.lo"],
                                     [f"{mixer}.rf", "q0:mw"]]}}
    qd = QuantumDevice("dev" + mixer)
    qd.hardware_config(hw)
    s = Schedule("s")
    s.add_resource(ClockResource("q0.01", 5e9))
    s.add(SquarePulse(amp=.4, duration=40e-9, port="q0:mw", clock="q0.01"))
    s.add(IdlePulse(40e-9))
    c = compile_(s, qd.generate_compilation_config())
    return c.compiled_instructions["generic"]["lo0.frequency"], only(c).modulation_freq
assert lo("mixer0") == (4.95e9, 50e6)
assert lo("cluster0mix") == (4.95e9, 50e6)
'''
