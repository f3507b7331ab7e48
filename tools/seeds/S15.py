PROPERTY = 'C12'
NEEDS = 'a compensation over several device elements with different time grids, the coarser named first'
BREAKS = 'elements whose grids do not fit together are accepted and the grid of the last one is used for all'
EDITS = [('backends/circuit_to_device.py', '                if (time_grid != current_time_grid) and (time_grid is not None):', '                if (time_grid is not None) and (time_grid < current_time_grid):')]
DEMO = r'''
from quantify_scheduler import Schedule
from quantify_scheduler.backends import SerialCompiler
from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
from quantify_scheduler.operations.pulse_library import SquarePulse

qd = QuantumDevice("dev")
els = []
for name, grid in (("q0", 4e-9), ("q1", 1e-9)):
    e = BasicTransmonElement(name)
    els.append(e)
    e.clock_freqs.f01(5e9)
    e.clock_freqs.readout(7e9)
    e.pulse_compensation.max_compensation_amp(.5)
    e.pulse_compensation.time_grid(grid)
    e.pulse_compensation.sampling_rate(1e9)
    qd.add_element(e)


def refused(names):
    body = Schedule("b")
    for n in ("q0", "q1"):
        body.add(SquarePulse(amp=.2, duration=20e-9, port=f"{n}:mw", clock="cl0.baseband"))
    s = Schedule("s")
    s.add(PulseCompensation(body=body, qubits=names))
    try:
        SerialCompiler("c").compile(s, qd.generate_compilation_config())
    except ValueError:
        return True
    return False


assert not refused(["q0"]) and not refused(["q1"])
assert refused(["q1", "q0"])
assert refused(["q0", "q1"])
'''
