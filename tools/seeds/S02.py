PROPERTY = "C01"
NEEDS = "a zero-duration operation scheduled before the first operation with a duration (negative rel_time)"
BREAKS = "the earliest operation no longer starts at zero: a virtual operation keeps a negative time"
EDITS = [("compilation.py",
"""    min_time = min(schedulable["abs_time"] for schedulable in schedule.schedulables.values())
""",
"""    # only operations that take up time can extend the schedule
    min_time = min(
        (
            schedulable["abs_time"]
            for schedulable in schedule.schedulables.values()
            if getattr(schedule.operations[schedulable["operation_id"]], "duration", None) != 0
        ),
        default=0,
    )
""")]
DEMO = r'''
from quantify_scheduler import Schedule
from quantify_scheduler.backends import SerialCompiler
from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
from quantify_scheduler.operations.pulse_library import ShiftClockPhase, SquarePulse
from quantify_scheduler.resources import ClockResource

s = Schedule("s")
s.add_resource(ClockResource("q.01", 5e9))
s.add(SquarePulse(amp=.1, duration=100e-9, port="q:mw", clock="q.01"))
s.add(ShiftClockPhase(phase_shift=90, clock="q.01"), rel_time=-40e-9, ref_pt="start")
qd = QuantumDevice("dev")
c = SerialCompiler("c").compile(s, qd.generate_compilation_config())
t = [x["abs_time"] for x in c.schedulables.values()]
assert abs(min(t)) < 1e-12, t
assert abs(t[0] - t[1] - 40e-9) < 1e-12, t
'''
