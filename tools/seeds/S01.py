PROPERTY = "C02"
NEEDS = "two pulses on one sequencer whose normalised samples differ by less than the tolerance (e.g. DRAG pulses with slightly different sigma), the second of which then plays the samples of the first"
BREAKS = "waveforms that are nearly but not exactly equal share one waveform memory entry although the output resolves the difference"
EDITS = [("backends/qblox/helpers.py",
"""    uuid = generate_uuid_from_wf_data(waveform)
    if uuid in wf_dict:
        index: int = wf_dict[uuid]["index"]
    else:
""",
"""    uuid = generate_uuid_from_wf_data(waveform)
    # Equal up to rounding errors, e.g. of the normalization.
    equal_waveforms = [
        entry["index"]
        for entry in wf_dict.values()
        if len(entry["data"]) == len(waveform) and np.allclose(entry["data"], waveform, atol=1e-3)
    ]
    if equal_waveforms:
        index: int = equal_waveforms[0]
    else:
""")]
DEMO = r'''
import numpy as np
from quantify_scheduler.backends.qblox.helpers import add_to_wf_dict_if_unique

wfs = {}
a = np.linspace(0, 1, 20)
b = a + 4e-4 * np.sin(np.arange(20))
i = add_to_wf_dict_if_unique(wfs, a)
j = add_to_wf_dict_if_unique(wfs, b)
assert i == add_to_wf_dict_if_unique(wfs, a.copy())
by_index = {e["index"]: e["data"] for e in wfs.values()}
assert np.abs(np.array(by_index[j]) - b).max() < 1e-4
assert np.abs(np.array(by_index[i]) - a).max() < 1e-4
'''
