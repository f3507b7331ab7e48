"""The concrete hardware configurations used by the checks."""
from lib.rig import Rig

CLOCKS = [("q.01", 5.0e9), ("q.ro", 7.0e9), ("q.12", 4.9e9)]


def main_rig(**kw):
    return Rig(
        {1: "QCM", 2: "QRM", 3: "QCM_RF", 4: "QRM_RF"},
        [("cluster0.module1.complex_output_0", "q:iq"),
         ("cluster0.module1.real_output_2", "q:fl"),
         ("cluster0.module1.real_output_3", "q:f2"),
         ("cluster0.module2.complex_output_0", "q:bb"),
         ("cluster0.module3.complex_output_0", "q:mw"),
         ("cluster0.module4.complex_output_0", "q:res")],
        {"iq": ("q:iq", "cl0.baseband", 1, "complex_output_0", False, None),
         "fl": ("q:fl", "cl0.baseband", 1, "real_output_2", True, None),
         "f2": ("q:f2", "cl0.baseband", 1, "real_output_3", True, None),
         "bb": ("q:bb", "cl0.baseband", 2, "complex_output_0", False, None),
         "mw": ("q:mw", "q.01", 3, "complex_output_0", False, 50e6),
         "res": ("q:res", "q.ro", 4, "complex_output_0", False, 100e6)},
        clocks=CLOCKS, **kw)


def full_rig(**kw):
    """Every module type: main_rig plus markers and a time-tagging module."""
    o = kw["options"] = dict(kw.get("options") or {})
    o.setdefault("digitization_thresholds", {
        "q:i4-digital": {"analog_threshold": 0.5}, "q:i5-digital": {"analog_threshold": 0.25}})
    return Rig(
        {1: "QCM", 2: "QRM", 3: "QCM_RF", 4: "QRM_RF", 5: "QTM"},
        [("cluster0.module1.complex_output_0", "q:iq"),
         ("cluster0.module1.real_output_2", "q:fl"),
         ("cluster0.module1.digital_output_0", "q:m1"),
         ("cluster0.module2.complex_output_0", "q:bb"),
         ("cluster0.module2.digital_output_1", "q:m2"),
         ("cluster0.module3.complex_output_0", "q:mw"),
         ("cluster0.module3.digital_output_1", "q:m3"),
         ("cluster0.module4.complex_output_0", "q:res"),
         ("cluster0.module5.digital_output_0", "q:d0"),
         ("cluster0.module5.digital_output_1", "q:d1"),
         ("cluster0.module5.digital_input_4", "q:i4"),
         ("cluster0.module5.digital_input_5", "q:i5")],
        {"iq": ("q:iq", "cl0.baseband", 1, "complex_output_0", False, None),
         "fl": ("q:fl", "cl0.baseband", 1, "real_output_2", True, None),
         "m1": ("q:m1", "digital", 1, "digital_output_0", False, None),
         "bb": ("q:bb", "cl0.baseband", 2, "complex_output_0", False, None),
         "m2": ("q:m2", "digital", 2, "digital_output_1", False, None),
         "mw": ("q:mw", "q.01", 3, "complex_output_0", False, 50e6),
         "m3": ("q:m3", "digital", 3, "digital_output_1", False, None),
         "res": ("q:res", "q.ro", 4, "complex_output_0", False, 100e6),
         "d0": ("q:d0", "digital", 5, "digital_output_0", False, None),
         "d1": ("q:d1", "digital", 5, "digital_output_1", False, None),
         "i4": ("q:i4", "digital", 5, "digital_input_4", False, None),
         "i5": ("q:i5", "digital", 5, "digital_input_5", False, None)},
        clocks=CLOCKS, **kw)


def marker_rig(rf_on=True):
    g, lines = [], {}

    def add(short, mod, chan, clock="digital", real=False, f=None):
        g.append((f"cluster0.module{mod}.{chan}", f"q:{short}"))
        lines[short] = (f"q:{short}", clock, mod, chan, real, f)
    add("iq", 1, "complex_output_0", "cl0.baseband")
    add("bb", 2, "complex_output_0", "cl0.baseband")
    add("mw", 3, "complex_output_0", "q.01", f=50e6)
    add("mx", 3, "complex_output_1", "q.12", f=60e6)
    add("res", 4, "complex_output_0", "q.ro", f=100e6)
    for i in range(4):
        add(f"a{i}", 1, f"digital_output_{i}")
        add(f"b{i}", 2, f"digital_output_{i}")
    for i in range(2):
        add(f"c{i}", 3, f"digital_output_{i}")
        add(f"e{i}", 4, f"digital_output_{i}")
    add("d0", 5, "digital_output_0")
    add("d7", 5, "digital_output_7")
    add("g0", 6, "digital_output_0")
    rf = {} if rf_on else {"rf_output_on": False}
    return Rig({1: "QCM", 2: "QRM", 3: {"instrument_type": "QCM_RF", **rf},
                4: {"instrument_type": "QRM_RF", **rf}, 5: "QTM", 6: "QRC"}, g, lines, clocks=CLOCKS)


def acq_rig(**kw):
    """full_rig plus two single real inputs on the QRM, for trigger counting."""
    r = full_rig(**kw)
    for short, ch in (("rt", "real_input_0"), ("ru", "real_input_1")):
        r.hw["connectivity"]["graph"].append([f"cluster0.module2.{ch}", f"q:{short}"])
        r.lines[short] = (f"q:{short}", "cl0.baseband", 2, ch, True, None)
    r.hw["hardware_options"]["sequencer_options"] = {
        f"q:{s}-cl0.baseband": {"ttl_acq_threshold": .5} for s in ("rt", "ru")}
    return r
