PROPERTY = 'C30'
NEEDS = 'a conditional whose feedback trigger label is measured twice before it'
BREAKS = 'the arrow of the conditional in the circuit diagram starts at the first measurement instead of the one that decides'
EDITS = [('schedules/_visualization/circuit_diagram.py', '''            ) is not None:
                feedback_label, device_element_idx''', '''            ) is not None and feedback_label_and_device_element_idx[0] not in feedback_acq_map:
                feedback_label, device_element_idx''')]
DEMO = r'''
import matplotlib
matplotlib.use("agg")
from matplotlib.text import Annotation
from quantify_scheduler import Schedule
from quantify_scheduler.operations.control_flow_library import ConditionalOperation
from quantify_scheduler.operations.gate_library import Measure, X


def arrow(n):
    """Where the arrows of a conditional after n measurements start and end."""
    s = Schedule("s")
    for _ in range(n):
        s.add(Measure("q0", acq_protocol="ThresholdedAcquisition", feedback_trigger_label="a"))
    c = Schedule("c")
    c.add(X("q1"))
    s.add(ConditionalOperation(body=c, qubit_name="a"))
    fig, ax = s.plot_circuit_diagram()
    return sorted([round(v, 6) for p in (t.xy, t.xyann) for v in p] for t in ax.texts if isinstance(t, Annotation))


one, two, three = arrow(1), arrow(2), arrow(3)
assert one, "no arrow"
for later, d in ((two, 1), (three, 2)):
    want = [[a + d, b, c + d, e] for a, b, c, e in one]
    assert later == want, (one, later)
'''
