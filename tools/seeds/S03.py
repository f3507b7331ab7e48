PROPERTY = "C07"
NEEDS = "a marker pulse on a time-tagging module with a fine start delay and no fine end delay"
BREAKS = "the output is switched off late by the fine start delay"
EDITS = [("backends/qblox/operation_handling/pulses.py",
"""                self.operation_info.data.get("fine_end_delay", 0)
            )""",
"""                self.operation_info.data.get("fine_end_delay")
                or self.operation_info.data.get("fine_start_delay", 0)
            )""")]
DEMO = r'''
import re
from quantify_scheduler import Schedule
from quantify_scheduler.backends import SerialCompiler
from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
from quantify_scheduler.operations.pulse_library import IdlePulse, MarkerPulse

hw = {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
      "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal",
       "modules": {"1": {"instrument_type": "QTM"}}}},
      "hardware_options": {}, "connectivity": {"graph": [["cluster0.module1.digital_output_1", "q:m"]]}}
s = Schedule("s")
s.add(MarkerPulse(duration=20e-9, port="q:m", fine_start_delay=1e-9))
s.add(IdlePulse(20e-9))
qd = QuantumDevice("dev")
qd.hardware_config(hw)
c = SerialCompiler("c").compile(s, qd.generate_compilation_config())
seq = c.compiled_instructions["cluster0"]["cluster0_module1"]["sequencers"]
p = next(iter(seq.values())).sequence["program"]
m = [tuple(map(int, x)) for x in re.findall(r"set_digital\s+(\d+), *(\d+), *(\d+)", p)]
assert m == [(1, 1, 128), (0, 1, 0)], m
'''
