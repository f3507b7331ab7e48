PROPERTY = 'C05'
NEEDS = 'a clock phase reset within 4 ns after a phase shift of the same clock'
BREAKS = 'the reset and the shift are issued closer than the hardware can update its oscillator'
EDITS = [('backends/qblox/analog.py', '            if isinstance(op, (NcoPhaseShiftStrategy, NcoResetClockPhaseStrategy)):', '            if isinstance(op, NcoPhaseShiftStrategy):')]
DEMO = r'''
import re
from quantify_scheduler import ClockResource, Schedule
from quantify_scheduler.backends import SerialCompiler
from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
from quantify_scheduler.operations.acquisition_library import *  # noqa: F403
from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
from quantify_scheduler.operations.pulse_library import *  # noqa: F403


def config(modules, graph, **options):
    """Compilation config of a cluster with these modules and connections."""
    hw = {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
          "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {
              k: v if isinstance(v, dict) else {"instrument_type": v} for k, v in modules.items()}}},
          "hardware_options": options, "connectivity": {"graph": [["cluster0." + a, b] for a, b in graph]}}
    qd = QuantumDevice("dev")
    qd.hardware_config(hw)
    return qd.generate_compilation_config()


def compile_(sched, cfg):
    return SerialCompiler("c").compile(sched, cfg)


def sequencers(comp):
    """{port: sequencer settings} of everything compiled."""
    out = {}
    for k, m in comp.compiled_instructions["cluster0"].items():
        if isinstance(m, dict) and "sequencers" in m:
            for s in m["sequencers"].values():
                out[s.port if hasattr(s, "port") else len(out)] = s
    return out


def only(comp):
    s = [s for m in comp.compiled_instructions["cluster0"].values() if isinstance(m, dict) and "sequencers" in m
         for s in m["sequencers"].values()]
    return s[0] if len(s) == 1 else s


def timeline(seq):
    """[(time after the start, opcode, arguments)] of a program without loops."""
    out, t = [], 0
    for line in seq.sequence["program"].splitlines():
        w = re.sub(r"^\s*\w+:", "", line.split("#")[0]).split(None, 1)
        if not w:
            continue
        a = [x.strip() for x in w[1].split(",")] if len(w) > 1 else []
        out.append((t, w[0], a))
        if w[0] in ("wait", "wait_sync", "upd_param", "play", "acquire", "acquire_weighed", "acquire_ttl",
                    "acquire_timetags", "set_cond") and a[-1].isdigit():
            t += int(a[-1])
    return out

cfg = config({"1": "QCM"}, [("module1.complex_output_0", "q0:mw")])
def sched(gap, back):
    s = Schedule("s")
    s.add_resource(ClockResource("q0.01", 1e8))
    s.add(IdlePulse(100e-9))
    ops = [ResetClockPhase(clock="q0.01"), ShiftClockPhase(phase_shift=90, clock="q0.01")]
    a = s.add(ops[back])
    s.add(ops[1 - back], ref_op=a, ref_pt="start", rel_time=gap * 1e-9)
    s.add(IdlePulse(20e-9))
    s.add(SquarePulse(amp=.2, duration=20e-9, port="q0:mw", clock="q0.01"))
    return s
for gap in (0, 1, 2, 3):
    for back in (0, 1):
        try:
            c = compile_(sched(gap, back), cfg)
        except Exception as e:
            print(gap, back, type(e).__name__, str(e)[:60])
        else:
            raise SystemExit(f"accepted {gap} ns between two phase updates")
compile_(sched(4, 0), cfg)
'''
