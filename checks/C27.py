"""C27: the meaning of a hardware configuration does not depend on how it is written."""
from __future__ import annotations

import copy
import itertools
import json
import os
import tempfile

import numpy as np

from lib import rig as rigmod
from lib.common import *

TECHNIQUE = ("Exhaustive enumeration of configurations: every re-spelling from a list of "
             "meaning-preserving transformations and every pair (thorough: triple) of them, every "
             "option on every port-clock and every pair of options, every assignment of ports to "
             "channels, each compiled by the real backend and compared through the executed "
             "programs and settings")
NOTE = ("three worlds (two clusters, all baseband/RF/timetag modules, external oscillators; optical "
        "modulators; one module with all assignments of three ports to its channels). Observation: "
        "per physical channel the executed programs, sequencer, module, oscillator and cluster "
        "settings, with names and slots translated back. Re-spellings: renaming clusters, "
        "oscillators and mixers (also to names that are prefixes of one another), renumbering "
        "slots, reordering every dictionary and the edge list, swapping and grouping edges, tuples, "
        "integer or string keys, explicit defaults, extra unused entries, model object, JSON text, "
        "JSON file, repeated use, version 0.2 spelling, old configuration style with reordered keys")
LEVEL = "model_checking"
CT = "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig"
OLD = "quantify_scheduler.backends.qblox_backend.hardware_compile"


# ------------------------------------------------------------------ worlds
def world_main():
    hw = {
        "config_type": CT,
        "hardware_description": {
            "cl": {"instrument_type": "Cluster", "ref": "internal", "modules": {
                "2": {"instrument_type": "QCM"}, "4": {"instrument_type": "QRM"},
                "6": {"instrument_type": "QCM_RF"}, "8": {"instrument_type": "QRM_RF"},
                "10": {"instrument_type": "QTM"}}},
            "cl2": {"instrument_type": "Cluster", "ref": "external", "modules": {
                "2": {"instrument_type": "QCM"}}},
            "lo": {"instrument_type": "LocalOscillator", "power": 3},
            "lo2": {"instrument_type": "LocalOscillator", "power": 5},
            "iq": {"instrument_type": "IQMixer"}, "iq2": {"instrument_type": "IQMixer"}},
        "hardware_options": {
            "modulation_frequencies": {
                "q1:mw-q1.01": {"interm_freq": 50e6},
                "q1:res-q1.ro": {"lo_freq": 6.9e9}, "q2:mw-q2.01": {"lo_freq": 5.1e9},
                "q3:mw-q3.01": {"interm_freq": -80e6}, "q2:res-q2.ro": {"interm_freq": 120e6},
                "q4:mw-q4.01": {"interm_freq": 33e6}},
            "mixer_corrections": {
                "q1:mw-q1.01": {"dc_offset_i": 0.01, "dc_offset_q": -.02, "amp_ratio": 0.95},
                "q3:mw-q3.01": {"phase_error": 3.0}},
            "output_att": {"q2:mw-q2.01": 10, "q2:res-q2.ro": 20},
            "latency_corrections": {"q4:mw-q4.01": 20e-9}},
        "connectivity": {"graph": [
            ["cl.module2.complex_output_0", "iq.if"], ["lo.output", "iq.lo"], ["iq.rf", "q1:mw"],
            ["cl.module2.real_output_2", "q1:fl"], ["cl.module2.real_output_3", "q2:fl"],
            ["cl.module4.complex_output_0", "iq2.if"], ["lo2.output", "iq2.lo"],
            ["iq2.rf", "q1:res"],
            ["cl.module6.complex_output_0", "q2:mw"], ["cl.module6.complex_output_1", "q3:mw"],
            ["cl.module8.complex_output_0", "q2:res"],
            ["cl2.module2.complex_output_1", "q4:mw"],
            ["cl.module10.digital_output_0", "q5:sw"],
            ["cl.module10.digital_input_1", "q5:cnt"]]}}
    freqs = {"q1.01": 4.95e9, "q1.12": 4.7e9, "q1.ro": 7e9, "q2.01": 5e9, "q3.01": 5.5e9,
             "q2.ro": 7.5e9, "q4.01": 33e6}
    pulses = [("q1:mw", "q1.01"), ("q1:mw", "q1.12"), ("q1:fl", "cl0.baseband"),
              ("q2:fl", "cl0.baseband"), ("q1:res", "q1.ro"), ("q2:mw", "q2.01"),
              ("q3:mw", "q3.01"), ("q2:res", "q2.ro"), ("q4:mw", "q4.01")]
    where = {"q1:mw": ("cl", 2, (0, 1), ()), "q1:fl": ("cl", 2, (2,), ()),
             "q2:fl": ("cl", 2, (3,), ()), "q1:res": ("cl", 4, (0, 1), (0, 1)),
             "q2:mw": ("cl", 6, (0, 1), ()), "q3:mw": ("cl", 6, (2, 3), ()),
             "q2:res": ("cl", 8, (0, 1), (0, 1)), "q4:mw": ("cl2", 2, (2, 3), ())}
    acqs = [("ssb", "q1:res", "q1.ro", 200), ("ssb", "q2:res", "q2.ro", 300),
            ("count", "q5:cnt", "digital", 100)]
    return hw, freqs, pulses, acqs, ["q5:sw"], where


def world_optical():
    """Lasers behind optical modulators on real outputs, one photon counter."""
    hw = {
        "config_type": CT,
        "hardware_description": {
            "cl": {"instrument_type": "Cluster", "ref": "internal", "modules": {
                "1": {"instrument_type": "QCM"}, "2": {"instrument_type": "QRM"},
                "3": {"instrument_type": "QCM_RF"}}},
            "red_laser": {"instrument_type": "LocalOscillator", "power": 1},
            "green_laser": {"instrument_type": "LocalOscillator", "power": 1},
            "optical_mod_red_laser": {"instrument_type": "OpticalModulator"},
            "optical_mod_green_laser": {"instrument_type": "OpticalModulator"}},
        "hardware_options": {
            "modulation_frequencies": {
                "qe0:optical_control-qe0.ge0": {"interm_freq": 200e6, "lo_freq": None},
                "qe1:optical_control-qe1.ionization": {"interm_freq": 0.0, "lo_freq": None},
                "qe0:mw-qe0.spec": {"interm_freq": 50e6}},
            "sequencer_options": {"qe0:optical_readout-qe0.ge0": {"ttl_acq_threshold": 0.25}}},
        "connectivity": {"graph": [
            ["cl.module1.real_output_0", "optical_mod_red_laser.if"],
            ["red_laser.output", "optical_mod_red_laser.lo"],
            ["optical_mod_red_laser.out", "qe0:optical_control"],
            ["cl.module1.real_output_1", "optical_mod_green_laser.if"],
            ["green_laser.output", "optical_mod_green_laser.lo"],
            ["optical_mod_green_laser.out", "qe1:optical_control"],
            ["cl.module2.real_input_0", "qe0:optical_readout"],
            ["cl.module3.complex_output_0", "qe0:mw"]]}}
    freqs = {"qe0.ge0": 470.4e12, "qe1.ionization": 564e12, "qe0.spec": 2.9e9}
    pulses = [("qe0:optical_control", "qe0.ge0"), ("qe1:optical_control", "qe1.ionization"),
              ("qe0:mw", "qe0.spec")]
    where = {"qe0:optical_control": ("cl", 1, (0,), ()), "qe1:optical_control": ("cl", 1, (1,), ()),
             "qe0:mw": ("cl", 3, (0, 1), ())}
    return hw, freqs, pulses, [("count", "qe0:optical_readout", "qe0.ge0", 200)], [], where


WORLDS = {"main": world_main, "optical": world_optical}
_W = {}


def world(name):
    if name not in _W:
        _W[name] = WORLDS[name]()
    return _W[name]


def amplitude(i):
    return round(.1 + .07 * i, 3)


def schedule(name):
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import (IdlePulse, MarkerPulse, SquarePulse,
                                               SSBIntegrationComplex, TriggerCount)
    from quantify_scheduler.resources import ClockResource
    _hw, freqs, pulses, acqs, marks, _where = world(name)
    s = Schedule("s", 2)
    for c, f in freqs.items():
        s.add_resource(ClockResource(c, f))
    r = s.add(IdlePulse(20e-9))
    kw = {"ref_op": r, "ref_pt": "end"}
    for i, (p, c) in enumerate(pulses):
        s.add(SquarePulse(amp=amplitude(i), duration=20e-9, port=p, clock=c), **kw)
    for ch, (proto, p, c, d) in enumerate(acqs):
        op = (SSBIntegrationComplex if proto == "ssb" else TriggerCount)
        s.add(op(port=p, clock=c, duration=d * 1e-9, acq_channel=ch), rel_time=40e-9, **kw)
    for p in marks:
        s.add(MarkerPulse(duration=52e-9, port=p), **kw)
    s.add(IdlePulse(400e-9), **kw)
    return s


def compile_with(hw, sched, via=None):
    """Compile a schedule with a configuration handed over in one of the supported ways."""
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.backends.qblox_backend import QbloxHardwareCompilationConfig as Q
    from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
    QuantumDevice.close_all()
    qd = QuantumDevice("d")
    if via in (None, "dict", "twice"):
        qd.hardware_config(hw)
    elif via == "model":
        qd.hardware_config(Q.model_validate(hw))
    elif via == "json":
        qd.hardware_config(json.loads(json.dumps(hw)))
    elif via == "model-json":
        qd.hardware_config(Q.model_validate_json(Q.model_validate(hw).model_dump_json()))
    elif via == "model-json-unset":
        qd.hardware_config(Q.model_validate_json(
            Q.model_validate(hw).model_dump_json(exclude_unset=True)))
    elif via == "model-dump":
        qd.hardware_config(Q.model_validate(Q.model_validate(hw).model_dump()))
    elif via == "model-copy":
        qd.hardware_config(Q.model_validate(hw).model_copy(deep=True))
    elif via in ("file", "file-write"):
        with tempfile.TemporaryDirectory(dir=scratch()) as d:
            f = os.path.join(d, "hw.json")
            if via == "file":
                with open(f, "w") as fh:
                    json.dump(hw, fh)
            else:
                qd.hardware_config(hw)
                qd.hardware_config.write_to_json_file(f)
                qd.hardware_config(None)
            qd.hardware_config.load_from_json_file(f)
    else:
        raise AssertionError(via)
    before = json.dumps(hw, sort_keys=True, default=str)
    cfg = qd.generate_compilation_config()
    if via == "twice":
        SerialCompiler("c").compile(sched, cfg)
        cfg = qd.generate_compilation_config()
        SerialCompiler("c").compile(sched, cfg)
    out = SerialCompiler("c").compile(sched, cfg)
    qd.close()
    if json.dumps(hw, sort_keys=True, default=str) != before:
        raise Violation("configuration-changed", "compilation changed the configuration given")
    return out


VIAS = ("dict", "model", "json", "model-json", "model-json-unset", "model-dump", "model-copy",
        "file", "file-write", "twice")


# ------------------------------------------------------------------ observation
def plain(x):
    if hasattr(x, "__dataclass_fields__"):
        x = {k: getattr(x, k) for k in x.__dataclass_fields__}
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (bool, str, type(None))):
        return x
    if isinstance(x, (int, float, np.integer, np.floating)):
        return round(float(x), 9)
    return str(x)


def executed(settings):
    """What a sequencer does: every event, waveforms and weights by content."""
    run = rigmod.execute(settings)
    ev = []
    for e in run.tr.events:
        e = list(e)
        if e[1] == "play":
            e = [e[0], "play"] + [np.round(run.waves[w], 6).tolist() for w in e[2:4]]
        ev.append(json.dumps(plain(e)))
    return ev


def must_compile(what, *args):
    """compile_with for configurations that have to be accepted."""
    try:
        return compile_with(*args)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"refused:{what}", f"{what}: refused with {e!r}"[:400]) from e


_SEQ = {}


def sequence_view(settings):
    key = json.dumps(settings.sequence, sort_keys=True)
    if key not in _SEQ:
        if len(_SEQ) > 3000:
            _SEQ.clear()
        from lib import q1
        run = rigmod.execute(settings)
        top = 0.0
        gain = [1, 1]
        for e in run.tr.events:
            if e[1] == "gain":
                gain = [g / 32767 for g in e[2]]
            elif e[1] == "play":
                for g, w in zip(gain, e[2:4]):
                    top = max(top, float(np.max(np.abs(run.waves[w] * g), initial=0)))
        _SEQ[key] = (round(top, 2), executed(settings))
    return _SEQ[key]


def observe(compiled, phys):
    """{key: plain value}; keys name physical channels in canonical names."""
    out = {}
    for name, ins in compiled.compiled_instructions.items():
        if name == "generic":
            for k, v in ins.items():
                lo, par = k.rsplit(".", 1)
                out["lo", phys["lo"].get(lo, lo), par] = plain(v)
            continue
        cl = phys["cluster"].get(name, name)
        for k, v in ins.items():
            if k in ("settings", "repetitions", "acq_channels_data"):
                out["cluster", cl, k] = plain(v)
                continue
            pre, slot = k.rsplit("_module", 1)
            if pre != name:
                raise Violation("module-name", f"{k} in {name}")
            slot = phys["slot"].get((cl, int(slot)), int(slot))
            for kk, vv in plain(v["settings"]).items():
                out["module", cl, slot, kk] = vv
            out["module", cl, slot, "repetitions"] = plain(v["repetitions"])
            for sname, s in v["sequencers"].items():
                top, ev = sequence_view(s)
                key = ("seq", cl, slot, tuple(s.connected_output_indices),
                       tuple(s.connected_input_indices), top)
                if key in out:
                    raise Violation("two-sequencers", f"two sequencers for {key}")
                d = plain(s)
                for drop in ("sequence", "channel_name", "channel_name_measure"):
                    d.pop(drop, None)
                out[key] = {**d, "events": ev,
                            "acq": plain((v.get("acq_hardware_mapping") or {}).get(sname))}
    return out


def diff(a, b):
    """Keys (with the entry) that differ between two observations."""
    bad = []
    for k in sorted(set(a) | set(b), key=str):
        if k not in a or k not in b:
            bad.append((k, "missing" if k not in b else "extra"))
        elif a[k] != b[k]:
            if isinstance(a[k], dict) and isinstance(b[k], dict):
                for kk in sorted(set(a[k]) | set(b[k])):
                    if a[k].get(kk) != b[k].get(kk):
                        bad.append((k, kk))
            else:
                bad.append((k, ""))
    return bad


def short(a, b, d):
    k, kk = d[0]
    x, y = a.get(k), b.get(k)
    if kk not in ("missing", "extra", ""):
        x, y = x.get(kk), y.get(kk)
    return f"{len(d)} differences, first {k} {kk}: {str(x)[:120]} became {str(y)[:120]}"


_BASE = {}


def base(name):
    if name not in _BASE:
        hw = copy.deepcopy(world(name)[0])
        obs = observe(must_compile(f"world {name}", hw, schedule(name)), {"cluster": {}, "slot": {}, "lo": {}})
        # every port-clock is driven by exactly the channel it is connected to
        want = set()
        for i, p in enumerate(world(name)[2]):
            cl, slot, outs, ins = world(name)[5][p[0]]
            want.add(("seq", cl, slot, outs, ins, round(amplitude(i), 2)))
        got = {k for k in obs if k[0] == "seq" and k[3] and k[-1] > 0}
        if got != want:
            raise Violation("wrong-output", f"{name}: driven {sorted(got ^ want)}")
        _BASE[name] = obs
    return _BASE[name]


# ------------------------------------------------------------------ transformations
def new_state(name):
    return {"hw": copy.deepcopy(world(name)[0]),
            "phys": {"cluster": {}, "slot": {}, "lo": {}}, "via": None}


def rename_instr(st, table):
    """Rename instruments; table old -> new (a simultaneous renaming)."""
    hw = st["hw"]
    hw["hardware_description"] = {table.get(k, k): v
                                  for k, v in hw["hardware_description"].items()}

    def node(n):
        if isinstance(n, (list, tuple)):
            return type(n)(node(x) for x in n)
        if "." in n:
            head, tail = n.split(".", 1)
            return f"{table.get(head, head)}.{tail}"
        return n
    hw["connectivity"]["graph"] = [type(e)(node(x) for x in e)
                                   for e in hw["connectivity"]["graph"]]
    for kind in ("cluster", "lo"):
        m = st["phys"][kind]
        names = set(hw["hardware_description"])
        new = {}
        for old, nw in table.items():
            new[nw] = m.get(old, old)
        for k, v in m.items():
            if k not in table and k in names:
                new[k] = v
        st["phys"][kind] = new


def t_rename(*pairs):
    return lambda st: rename_instr(st, {a: b for a, b in pairs
                                        if a in st["hw"]["hardware_description"]})


def t_slots(fn):
    """Renumber the slots of every cluster (fn injective on 1..20)."""
    def go(st):
        hw = st["hw"]
        table = {}
        for cl, d in hw["hardware_description"].items():
            if d["instrument_type"] != "Cluster":
                continue
            canon = st["phys"]["cluster"].get(cl, cl)
            table[cl] = {int(s): fn(int(s)) for s in d["modules"]}
            mods = {}
            for s, m in d["modules"].items():
                n = fn(int(s))
                mods[type(s)(n)] = m
            d["modules"] = mods
            old = {k: v for k, v in st["phys"]["slot"].items() if k[0] == canon}
            for k in old:
                del st["phys"]["slot"][k]
            for a, b in table[cl].items():
                st["phys"]["slot"][canon, b] = old.get((canon, a), a)

        def node(n):
            if isinstance(n, (list, tuple)):
                return type(n)(node(x) for x in n)
            parts = n.split(".")
            if len(parts) == 3 and parts[0] in table:
                a = int(parts[1][6:])
                parts[1] = f"module{table[parts[0]].get(a, a)}"
            return ".".join(parts)
        hw["connectivity"]["graph"] = [type(e)(node(x) for x in e)
                                       for e in hw["connectivity"]["graph"]]
    return go


def reorder(d, how):
    if isinstance(d, dict):
        ks = list(d)
    else:
        ks = list(range(len(d)))
    if how == "reverse":
        ks = ks[::-1]
    elif how == "rotate":
        ks = ks[1:] + ks[:1]
    elif how == "sort":
        ks = sorted(ks, key=lambda k: str(d[k]) if not isinstance(d, dict) else str(k))
    elif how == "swap":
        ks = [k for i in range(0, len(ks), 2) for k in ks[i:i + 2][::-1]]
    if isinstance(d, dict):
        return {k: d[k] for k in ks}
    return type(d)(d[k] for k in ks)


def t_order(path, how):
    """Reorder one dictionary or list of the configuration ('*': every entry there)."""
    def go(st):
        def rec(d, p):
            if not p:
                return reorder(d, how)
            if p[0] == "*":
                return {k: (rec(v, p[1:]) if isinstance(v, dict) else v) for k, v in d.items()}
            if p[0] not in d:
                return d
            return {**{k: v for k, v in d.items()}, p[0]: rec(d[p[0]], p[1:])}
        st["hw"] = rec(st["hw"], path)
    return go


def t_edges(kind):
    def go(st):
        g = st["hw"]["connectivity"]["graph"]
        if kind == "swap":
            g = [type(e)(list(e)[::-1]) for e in g]
        elif kind == "swap-odd":
            g = [type(e)(list(e)[::-1]) if i % 2 else e for i, e in enumerate(g)]
        elif kind == "tuple":
            g = [tuple(e) for e in g]
        elif kind == "list-of-one":
            g = [[[x] if isinstance(x, str) else x for x in e] for e in g]
        elif kind == "tuple-of-one":
            g = [[(x,) if isinstance(x, str) else x for x in e] for e in g]
        elif kind == "list-target":
            g = [[e[0], [e[1]] if isinstance(e[1], str) else e[1]] for e in g]
        elif kind == "duplicate":
            g = [x for e in g for x in (e, e)]
        elif kind == "tuple-graph":
            g = tuple(tuple(e) for e in g)
        st["hw"]["connectivity"]["graph"] = g
    return go


def t_keys(kind):
    def go(st):
        for d in st["hw"]["hardware_description"].values():
            if d["instrument_type"] == "Cluster":
                d["modules"] = {kind(k): v for k, v in d["modules"].items()}
    return go


def t_extra(kind):
    def go(st):
        hw = st["hw"]
        des, g = hw["hardware_description"], list(hw["connectivity"]["graph"])
        cl = next(k for k, d in des.items() if d["instrument_type"] == "Cluster")
        used = {int(k) for k in des[cl]["modules"]}
        typ = type(next(iter(des[cl]["modules"])))
        free = next(s for s in (1, 3, 5, 7, 9, 11, 13, 15, 17, 19) if s not in used)
        if kind == "module":
            des[cl]["modules"][typ(free)] = {"instrument_type": "QRM"}
        elif kind == "module-connected":
            des[cl]["modules"] = {typ(free): {"instrument_type": "QRM_RF"}, **des[cl]["modules"]}
            g = [[f"{cl}.module{free}.complex_output_0", "unused:res"]] + g
            hw["hardware_options"].setdefault("output_att", {})["unused:res-unused.ro"] = 30
            hw["hardware_options"].setdefault("latency_corrections", {})
        elif kind == "cluster":
            des["aa_extra"] = {"instrument_type": "Cluster", "ref": "internal",
                               "modules": {"2": {"instrument_type": "QCM"}}}
            g = g + [["aa_extra.module2.complex_output_0", "unused2:mw"]]
        elif kind == "lo":
            hw["hardware_description"] = {
                "extra_lo": {"instrument_type": "LocalOscillator", "power": 9},
                "extra_iq": {"instrument_type": "IQMixer"}, **des}
        elif kind == "options":
            o = hw["hardware_options"]
            for opt, v in (("mixer_corrections", {"dc_offset_i": .5}), ("output_att", 60),
                           ("modulation_frequencies", {"lo_freq": 1e9}),
                           ("input_att", 30),
                           ("sequencer_options", {"init_gain_awg_path_I": .3})):
                o[opt] = {"nowhere:mw-nowhere.01": v, **o.get(opt, {}), "q1:mw-other.clock": v}
        elif kind == "empty-options":
            o = hw["hardware_options"]
            for opt in ("input_gain", "input_att", "digitization_thresholds", "sequencer_options",
                        "distortion_corrections", "latency_corrections"):
                o.setdefault(opt, {})
        elif kind == "zero-latency":
            hw["hardware_options"].setdefault("latency_corrections", {}).setdefault(
                "q1:fl-cl0.baseband", 0)
        elif kind == "empty-channels":
            for d in des.values():
                if d["instrument_type"] == "Cluster":
                    for m in d["modules"].values():
                        for ch in {"QCM": ["complex_output_0", "real_output_1"],
                                   "QRM": ["complex_output_0"], "QCM_RF": ["complex_output_1"],
                                   "QRM_RF": ["complex_output_0", "complex_input_0"],
                                   "QTM": ["digital_output_0"]}.get(m["instrument_type"], []):
                            m.setdefault(ch, {})
        elif kind == "default-channels":
            for d in des.values():
                if d["instrument_type"] == "Cluster":
                    d.setdefault("sequence_to_file", False)
                    for m in d["modules"].values():
                        m.setdefault("sequence_to_file", False)
                        for ch in {"QCM": ["complex_output_0", "complex_output_1"],
                                   "QCM_RF": ["complex_output_0"]}.get(m["instrument_type"], []):
                            m.setdefault(ch, {}).setdefault("mix_lo", True)
                            m[ch].setdefault("marker_debug_mode_enable", False)
        elif kind == "version":
            hw["version"] = "0.1"
        elif kind == "version-0.2":
            hw["version"] = "0.2"
            # from this version on, the inputs of measuring ports are named in the graph
            for e in list(g):
                e = list(e)
                for a, b in (e, e[::-1]):
                    if isinstance(a, (list, tuple)) and len(a) == 1:
                        a = a[0]
                    if not isinstance(a, str):
                        continue
                    parts = a.split(".")
                    if len(parts) == 3 and parts[0] in des and parts[2] == "complex_output_0":
                        mods = {int(k): m for k, m in des[parts[0]]["modules"].items()}
                        t = mods[int(parts[1][6:])]["instrument_type"]
                        if t in ("QRM", "QRM_RF"):
                            x = b[0] if isinstance(b, (list, tuple)) else b
                            if x.endswith(".if"):
                                st["skip"] = "mixer on measuring output"
                            g.append([f"{parts[0]}.{parts[1]}.complex_input_0", b])
        elif kind == "no-config-type":
            hw.pop("config_type", None)
            st["skip"] = "config type needed"
        hw["connectivity"]["graph"] = g if not isinstance(
            hw["connectivity"]["graph"], tuple) else tuple(g)
    return go


def t_via(v):
    def go(st):
        st["via"] = v
    return go


def transformations():
    t = {}
    t["rename-zzz"] = t_rename(("cl", "zzz"), ("cl2", "aaa"))
    t["rename-swap"] = t_rename(("cl", "cl2"), ("cl2", "cl"))
    t["rename-prefix"] = t_rename(("cl", "cl22"), ("cl2", "cl222"))
    t["rename-module-like"] = t_rename(("cl", "module2"), ("cl2", "q1"))
    t["rename-lo"] = t_rename(("lo", "zlo"), ("lo2", "alo"), ("red_laser", "zz_red_laser"),
                              ("green_laser", "aa_green_laser"))
    t["rename-lo-swap"] = t_rename(("lo", "lo2"), ("lo2", "lo"))
    t["rename-lo-prefix"] = t_rename(("lo", "cl"), ("cl", "lo"))
    t["rename-mixer"] = t_rename(("iq", "iq2"), ("iq2", "iq"),
                                 ("optical_mod_red_laser", "m_red_laser"),
                                 ("optical_mod_green_laser", "m_green_laser"))
    t["rename-mixer-prefix"] = t_rename(("iq", "lox"), ("iq2", "lo2x"))
    t["rename-iq-prefix"] = t_rename(("iq", "iq22"), ("iq2", "iq2"))
    t["slots-reverse"] = t_slots(lambda s: 21 - s)
    t["slots-shift"] = t_slots(lambda s: s % 20 + 1)
    t["slots-double"] = t_slots(lambda s: (s * 2 - 1) % 21 + 1 if s <= 10 else (s * 2) % 21 or 21)
    for path in ((), ("hardware_description",), ("hardware_description", "*"),
                 ("hardware_description", "*", "modules"), ("hardware_options",),
                 ("hardware_options", "*"), ("hardware_options", "*", "*"),
                 ("connectivity", "graph")):
        for how in ("reverse", "rotate", "sort", "swap"):
            if how in ("sort", "swap") and path not in (("connectivity", "graph"),
                                                        ("hardware_options", "*")):
                continue
            t[f"order-{'/'.join(path)}-{how}"] = t_order(path, how)
    for k in ("swap", "swap-odd", "tuple", "list-of-one", "list-target", "duplicate"):
        t[f"edges-{k}"] = t_edges(k)
    t["keys-int"] = t_keys(int)
    t["keys-str"] = t_keys(str)
    for k in ("module", "module-connected", "cluster", "lo", "options", "empty-options",
              "zero-latency", "empty-channels", "default-channels", "version", "version-0.2"):
        t[f"extra-{k}"] = t_extra(k)
    for v in VIAS:
        t[f"via-{v}"] = t_via(v)
    return t


T = transformations()


def respelled(case):
    name, steps = case
    st = new_state(name)
    for s in steps:
        T[s](st)
    if st.get("skip"):
        return R("not-applicable", states=1)
    a = base(name)
    b = observe(must_compile(f"respelling {steps[:1]}", st["hw"], schedule(name), st["via"]),
                st["phys"])
    d = diff(a, b)
    if d:
        return R("differs", states=1, transitions=len(steps), viol=[(
            f"respelling:{steps[0]}", f"{name} {steps}: {short(a, b, d)}")])
    return R("same", states=1, transitions=len(steps), traces=sum(k[0] == "seq" for k in b),
             distinct=[hash(json.dumps(sorted((str(k), str(v)) for k, v in b.items())))])


# ------------------------------------------------------------------ old style
OLD_CH = {"complex": ("dc_mixer_offset_I", "dc_mixer_offset_Q")}


def to_old(hw):
    """The old-style dictionary of a configuration (written from its documentation)."""
    out = {"backend": OLD}
    des, opt = hw["hardware_description"], hw["hardware_options"]
    edges = [tuple(e) for e in hw["connectivity"]["graph"]]
    for k in ("latency_corrections", "distortion_corrections"):
        if k in opt:
            out[k] = copy.deepcopy(opt[k])
    mixer = {}
    for a, b in edges:
        m, pin = b.rsplit(".", 1) if "." in b and "module" not in b else ("", "")
        if pin == "if":
            mixer.setdefault(m, {})["ch"] = a
        elif pin == "lo":
            mixer.setdefault(m, {})["lo"] = a.rsplit(".", 1)[0]
        elif "." in a and "module" not in a.split(".")[1]:
            mixer.setdefault(a.rsplit(".", 1)[0], {}).setdefault("ports", []).append(b)
    chan = {}
    for a, b in edges:
        if len(a.split(".")) == 3 and ":" in b:
            chan.setdefault(a, [None, []])[1].append(b)
    for m in mixer.values():
        chan[m["ch"]] = [m["lo"], m["ports"]]
    clocks = {}
    for p, c in hw["_pcs"]:
        clocks.setdefault(p, []).append(c)
    for name, d in des.items():
        if d["instrument_type"] == "LocalOscillator":
            out[name] = {"instrument_type": "LocalOscillator", "power": d["power"],
                         "frequency": None}
            ports = next((m["ports"] for m in mixer.values() if m["lo"] == name), [])
            for p in ports:
                for c in clocks.get(p, []):
                    f = opt.get("modulation_frequencies", {}).get(f"{p}-{c}", {}).get("lo_freq")
                    if f is not None:
                        out[name]["frequency"] = f
        elif d["instrument_type"] == "Cluster":
            o = out[name] = {"instrument_type": "Cluster", "ref": d["ref"]}
            for slot, m in d["modules"].items():
                om = o[f"{name}_module{slot}"] = {"instrument_type": m["instrument_type"]}
                for path, (lo, ports) in chan.items():
                    cl, mod, ch = path.split(".")
                    if cl != name or mod != f"module{slot}":
                        continue
                    oc = om[ch] = dict(m.get(ch, {}))
                    if lo:
                        oc["lo_name"] = lo
                    pcs = []
                    for p in ports:
                        for c in clocks.get(p, []):
                            pc = f"{p}-{c}"
                            e = {"port": p, "clock": c}
                            mf = opt.get("modulation_frequencies", {}).get(pc, {})
                            if mf.get("interm_freq") is not None:
                                e["interm_freq"] = mf["interm_freq"]
                            if mf.get("lo_freq") is not None and not lo:
                                oc["lo_freq"] = mf["lo_freq"]
                            mc = opt.get("mixer_corrections", {}).get(pc, {})
                            for a, b in (("dc_offset_i", "dc_mixer_offset_I"),
                                         ("dc_offset_q", "dc_mixer_offset_Q"),
                                         ("auto_lo_cal", "auto_lo_cal")):
                                if a in mc:
                                    oc[b] = mc[a]
                            for a, b in (("amp_ratio", "mixer_amp_ratio"),
                                         ("phase_error", "mixer_phase_error_deg"),
                                         ("auto_sideband_cal", "auto_sideband_cal")):
                                if a in mc:
                                    e[b] = mc[a]
                            for a in ("output_att", "input_att"):
                                if pc in opt.get(a, {}):
                                    oc[a] = opt[a][pc]
                            ig = opt.get("input_gain", {}).get(pc)
                            if isinstance(ig, dict):
                                oc["input_gain_I"], oc["input_gain_Q"] = ig["gain_I"], ig["gain_Q"]
                            elif ig is not None:
                                oc[f"input_gain_{ch[-1]}"] = ig
                            e.update(copy.deepcopy(opt.get("sequencer_options", {}).get(pc, {})))
                            dt = opt.get("digitization_thresholds", {}).get(pc)
                            if dt:
                                e.update(dt)
                            pcs.append(e)
                    oc["portclock_configs"] = pcs
    return out


def pcs_of(name):
    _hw, _f, pulses, acqs, marks, _w = world(name)
    out = list(pulses)
    for _p, p, c, _d in acqs:
        if (p, c) not in out:
            out.append((p, c))
    return out + [(p, "digital") for p in marks]


# options that can be added to the worlds: (option, port-clock, value, extra description)
EXTRA = {
    "main": [
        ("sequencer_options", "q1:mw-q1.01", {"init_gain_awg_path_I": .5,
                                              "init_gain_awg_path_Q": .25}),
        ("sequencer_options", "q1:mw-q1.01", {"init_offset_awg_path_I": .125}),
        ("sequencer_options", "q1:mw-q1.12", {"init_gain_awg_path_I": .5,
                                              "init_offset_awg_path_I": .125}),
        ("sequencer_options", "q1:fl-cl0.baseband", {"init_gain_awg_path_I": .5}),
        ("sequencer_options", "q1:fl-cl0.baseband", {"init_gain_awg_path_I": .5,
                                                     "init_offset_awg_path_I": .125}),
        ("sequencer_options", "q2:fl-cl0.baseband", {"init_gain_awg_path_Q": .75,
                                                     "init_offset_awg_path_Q": .125}),
        ("sequencer_options", "q2:fl-cl0.baseband", {"init_offset_awg_path_I": .5,
                                                     "init_offset_awg_path_Q": .125}),
        ("mixer_corrections", "q2:mw-q2.01", {"dc_offset_i": .01, "amp_ratio": .9}),
        ("mixer_corrections", "q2:res-q2.ro", {"auto_lo_cal": "on_lo_interm_freq_change"}),
        ("mixer_corrections", "q2:res-q2.ro", {"auto_sideband_cal": "on_interm_freq_change"}),
        ("mixer_corrections", "q1:mw-q1.12", {"phase_error": -4.0}),
        ("input_gain", "q1:res-q1.ro", {"gain_I": 2, "gain_Q": 3}),
        ("input_att", "q2:res-q2.ro", 12),
        ("output_att", "q3:mw-q3.01", 14),
        ("latency_corrections", "q1:mw-q1.01", 8e-9),
        ("latency_corrections", "q5:sw-digital", 8e-9),
        ("modulation_frequencies", "q2:fl-cl0.baseband", {"interm_freq": 0}),
        ("digitization_thresholds", "q5:cnt-digital", {"analog_threshold": .5}),
        ("distortion_corrections", "q1:fl-cl0.baseband", {
            "filter_func": "scipy.signal.lfilter", "input_var_name": "x",
            "kwargs": {"b": [1, -.25], "a": [1]}, "clipping_values": [-2.5, 2.5]}),
    ],
    "optical": [
        ("sequencer_options", "qe0:optical_control-qe0.ge0", {"init_gain_awg_path_I": .5}),
        ("sequencer_options", "qe0:optical_control-qe0.ge0", {
            "init_gain_awg_path_I": .5, "init_offset_awg_path_I": .25}),
        ("input_gain", "qe0:optical_readout-qe0.ge0", 4),
        ("modulation_frequencies", "qe0:optical_control-qe0.ge0", {
            "interm_freq": None, "lo_freq": 470.3e12}),
        ("modulation_frequencies", "qe0:optical_control-qe0.ge0", {
            "interm_freq": 100e6, "lo_freq": None}),
        ("output_att", "qe0:mw-qe0.spec", 22),
    ],
}


def with_option(hw, opt, pc, val):
    o = hw["hardware_options"].setdefault(opt, {})
    if isinstance(val, dict) and isinstance(o.get(pc), dict):
        o[pc] = {**o[pc], **val}
    else:
        o[pc] = val


def old_orders(old, how):
    """Reorder one kind of dictionary in an old-style configuration."""
    lvl, way = how

    def rec(d, depth):
        new = {}
        for k, v in d.items():
            if isinstance(v, dict):
                v = rec(v, depth + 1)
            if k == "portclock_configs":
                if lvl == "pc":
                    v = [reorder(e, way) for e in v]
                elif lvl == "pcs":
                    v = reorder(v, way)
            new[k] = v
        if lvl == depth:
            new = reorder(new, way)
        return new
    return rec(old, 0)


OLD_ORDERS = [(lvl, way) for lvl in (0, 1, 2, 3, "pc", "pcs") for way in ("reverse", "rotate",
                                                                          "swap", "sort")]


def old_style(case):
    name, extras, orders, via = case
    hw = copy.deepcopy(world(name)[0])
    for i in extras:
        with_option(hw, *EXTRA[name][i])
    hw["_pcs"] = pcs_of(name)
    # in the old style these belong to the channel, and so to all its port-clocks
    mix = hw["hardware_options"].get("mixer_corrections", {})
    for pc in list(mix):
        for p, c in hw["_pcs"]:
            if p == pc.split("-")[0] and f"{p}-{c}" != pc:
                for k in ("dc_offset_i", "dc_offset_q", "auto_lo_cal"):
                    if k in mix[pc]:
                        mix.setdefault(f"{p}-{c}", {})[k] = mix[pc][k]
    old = to_old(hw)
    del hw["_pcs"]
    phys = {"cluster": {}, "slot": {}, "lo": {}}
    a = observe(must_compile("options", hw, schedule(name)), phys)
    for o in orders:
        old = old_orders(old, o)
    b = observe(must_compile("old style", old, schedule(name), via), phys)
    d = diff(a, b)
    if d:
        tag = EXTRA[name][extras[0]][:2] if extras else (orders[0] if orders else "plain")
        return R("differs", states=1, viol=[(
            f"old-style:{tag}", f"{name} {[EXTRA[name][i] for i in extras]} {orders}: "
            f"{short(a, b, d)}")])
    return R("same", states=1, transitions=1 + len(orders),
             traces=sum(k[0] == "seq" for k in b),
             distinct=[hash(json.dumps(sorted((str(k), str(v)) for k, v in b.items())))])


# ------------------------------------------------------------------ options
SEQ_LEVEL = {"sequencer_options", "latency_corrections", "distortion_corrections",
             "digitization_thresholds"}


def allowed(name, pc, opt, obs):
    """The entries that an option on a port-clock may influence."""
    p = pc.split("-")[0]
    where = world(name)[5]
    pulses = [f"{a}-{b}" for a, b in world(name)[2]]
    acq = {f"{a}-{b}" for _x, a, b, _d in world(name)[3]}
    ok = set()
    if p in where:
        cl, slot, outs, ins = where[p]
        own = ("seq", cl, slot, outs, ins, round(amplitude(pulses.index(pc)), 2))
        same = {k for k in obs if k[0] == "seq" and k[1:4] == (cl, slot, outs)}
    else:
        own = next(k for k in obs if k[0] == "seq" and (
            (bool(k[4]) and not k[3]) if pc in acq else (k[3] and not k[4] and k[-1] == 0)))
        cl, slot, outs, ins = own[1:5]
        same = {own}
    ok.add((own, None))
    if opt in SEQ_LEVEL:
        return ok
    if opt in ("output_att",):
        ok = {(("module", cl, slot, f"out{outs[0] // 2}_att"), None)}
    elif opt == "input_att":
        ok = {(("module", cl, slot, f"in{ins[0] // 2}_att"), None)}
    elif opt == "input_gain":
        ok = {(("module", cl, slot, f"in{i}_gain"), None) for i in ins}
    elif opt == "mixer_corrections":
        n = outs[0] // 2
        for x in ("I", "Q"):
            ok.add((("module", cl, slot, f"offset_ch{n}_path_{x}"), None))
        ok.add((("module", cl, slot, f"out{n}_lo_freq_cal_type_default"), None))
    elif opt == "modulation_frequencies":
        ok |= {(k, "modulation_freq") for k in same}
        ok |= {(("module", cl, slot, f"lo{outs[0] // 2}_freq"), None)}
        lo = {"q1:mw": "lo", "q1:res": "lo2", "qe0:optical_control": "red_laser",
              "qe1:optical_control": "green_laser"}.get(p)
        if lo:
            ok.add((("lo", lo, "frequency"), None))
    return ok


def options(case):
    """One or two options: only what they may influence changes, and they do not interact."""
    name, which = case
    hw = copy.deepcopy(world(name)[0])
    for i in which:
        with_option(hw, *OPTS[name][i])
    phys = {"cluster": {}, "slot": {}, "lo": {}}
    a = base(name)
    try:
        b = observe(compile_with(hw, schedule(name)), phys)
    except Violation:
        raise
    except Exception as e:
        if len(which) == 1:
            return R("refused", states=1, viol=[("option-refused",
                                                 f"{OPTS[name][which[0]]}: {e!r}"[:300])])
        return R("pair refused", states=1)
    ok = set()
    for i in which:
        opt, pc, val = OPTS[name][i]
        ok |= allowed(name, pc, opt, a)
    d = diff(a, b)
    bad = [x for x in d if x not in ok and (x[0], None) not in ok]
    viol = []
    what = [OPTS[name][i] for i in which]
    if bad:
        viol.append((f"option-reaches-others:{what[0][0]}", f"{what}: {short(a, b, bad)}"))
    if len(which) == 1:
        if not d:
            viol.append((f"option-ignored:{what[0][0]}", f"{what}: nothing changed"))
    else:
        single = [options_obs(name, i) for i in which]
        if all(s is not None for s in single):
            # each entry is as with the option alone that changes it
            for k in set(b) | set(a):
                base_v, v = a.get(k), b.get(k)
                s = [x.get(k) for x in single]
                ch = [x for x in s if x != base_v]
                if len(ch) == 1 and v != ch[0] or not ch and v != base_v:
                    viol.append((f"options-interact:{what[0][0]}+{what[1][0]}",
                                 f"{what}: {k}: {str(v)[:150]}"))
                    break
    return R(("one" if len(which) == 1 else "two"), states=1, transitions=len(d), viol=viol,
             traces=sum(k[0] == "seq" for k in b),
             distinct=[hash(json.dumps(sorted((str(k), str(v)) for k, v in b.items())))])


_ONE = {}


def options_obs(name, i):
    if (name, i) not in _ONE:
        hw = copy.deepcopy(world(name)[0])
        with_option(hw, *OPTS[name][i])
        try:
            _ONE[name, i] = observe(compile_with(hw, schedule(name)),
                                    {"cluster": {}, "slot": {}, "lo": {}})
        except Exception:
            _ONE[name, i] = None
    return _ONE[name, i]


def make_opts():
    out = {"main": [], "optical": []}
    for name in out:
        o = out[name]
        hw, _f, pulses, acqs, marks, where = WORLDS[name]()
        analog = [f"{p}-{c}" for p, c in pulses]
        cl = hw["hardware_description"]["cl"]["modules"]
        for i, pc in enumerate(analog):
            p = pc.split("-")[0]
            c, slot, outs, ins = where[p]
            mod = hw["hardware_description"][c]["modules"][str(slot)]["instrument_type"]
            o.append(("sequencer_options", pc, {"init_gain_awg_path_I": .5}))
            o.append(("sequencer_options", pc, {"init_gain_awg_path_Q": .25,
                                                "init_offset_awg_path_I": .125}))
            o.append(("sequencer_options", pc, {"init_offset_awg_path_Q": -.125}))
            o.append(("latency_corrections", pc, (40 + 8 * i) * 1e-9))
            o.append(("distortion_corrections", pc, {
                "filter_func": "scipy.signal.lfilter", "input_var_name": "x",
                "kwargs": {"b": [1, -.25], "a": [1]}}))
            if len(outs) == 2:
                o.append(("mixer_corrections", pc, {"amp_ratio": .8, "phase_error": 1.0 + i}))
                if not any(q.split("-")[0] == p for q in analog if q != pc):
                    o.append(("mixer_corrections", pc, {"dc_offset_i": .03, "dc_offset_q": .04}))
            if mod.endswith("RF"):
                o.append(("output_att", pc, 30 + 2 * i))
                o.append(("mixer_corrections", pc, {"auto_lo_cal": "on_lo_interm_freq_change"}))
                o.append(("mixer_corrections", pc, {"auto_sideband_cal": "on_interm_freq_change"}))
            if mod == "QRM_RF":
                o.append(("input_att", pc, 10))
            if mod == "QRM" and ins:
                o.append(("input_gain", pc, {"gain_I": 3, "gain_Q": 5}))
            if hw["hardware_options"].get("modulation_frequencies", {}).get(pc, {}) and \
                    pc != "q4:mw-q4.01":
                mf = hw["hardware_options"]["modulation_frequencies"][pc]
                for k, v in mf.items():
                    if v is not None and not (k == "lo_freq" and v is None):
                        o.append(("modulation_frequencies", pc, {k: v + 10e6}))
        for _x, p, c, _d in acqs:
            pc = f"{p}-{c}"
            if pc in analog:
                continue
            o.append(("latency_corrections", pc, 48e-9))
            if c == "digital":
                o.append(("digitization_thresholds", pc, {"analog_threshold": .3}))
            else:
                o.append(("sequencer_options", pc, {"ttl_acq_threshold": .7}))
                o.append(("input_gain", pc, 7))
        for p in marks:
            o.append(("latency_corrections", f"{p}-digital", 44e-9))
    return out


OPTS = make_opts()


# ------------------------------------------------------------------ assignments
MODULES = {
    "QCM": (["complex_output_0", "complex_output_1"] + [f"real_output_{i}" for i in range(4)], []),
    "QRM": (["complex_output_0", "real_output_0", "real_output_1"],
            ["complex_input_0", "real_input_0", "real_input_1"]),
    "QCM_RF": (["complex_output_0", "complex_output_1"], []),
    "QRM_RF": (["complex_output_0"], ["complex_input_0"]),
    "QRC": ([f"complex_output_{i}" for i in range(6)], ["complex_input_0", "complex_input_1"]),
    "QTM": ([f"digital_output_{i}" for i in range(3)], [f"digital_input_{i}" for i in range(3)]),
}


def indices(ch):
    i = int(ch[-1])
    return (2 * i, 2 * i + 1) if ch.startswith("complex") else (i,)


def assign(case):
    """All assignments of up to three ports to outputs: each drives exactly its own."""
    mod, chans, slot, order = case
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import IdlePulse, MarkerPulse, SquarePulse
    from quantify_scheduler.resources import ClockResource
    graph = [[f"c.module{slot}.{ch}", f"p{i}:x"] for i, ch in enumerate(chans)]
    rf = mod in ("QCM_RF", "QRM_RF", "QRC")
    mf = {f"p{i}:x-p{i}.k": {"interm_freq": (50 + 10 * i) * 1e6} for i in range(len(chans))}
    if rf:
        mf = {f"p{i}:x-p{i}.k": {"lo_freq": (5 + .1 * int(ch[-1])) * 1e9}
              for i, ch in enumerate(chans)}
    hw = {"config_type": CT, "version": "0.2", "hardware_description": {"c": {
        "instrument_type": "Cluster", "ref": "internal",
        "modules": {slot: {"instrument_type": mod}}}},
        "hardware_options": {} if mod == "QTM" else {"modulation_frequencies": mf},
        "connectivity": {"graph": [graph[i] for i in order]}}
    s = Schedule("s", 1)
    r = s.add(IdlePulse(20e-9))
    for i, ch in enumerate(chans):
        if mod == "QTM":
            s.add(MarkerPulse(duration=(40 + 4 * i) * 1e-9, port=f"p{i}:x"), ref_op=r)
        else:
            f = (5.05e9 + .1e9 * int(ch[-1]) + i * 1e7) if rf else (50 + 10 * i) * 1e6
            s.add_resource(ClockResource(f"p{i}.k", f))
            s.add(SquarePulse(amp=amplitude(i), duration=20e-9, port=f"p{i}:x",
                              clock=f"p{i}.k"), ref_op=r)
    s.add(IdlePulse(200e-9), ref_op=r)
    comp = must_compile(f"assignment {mod}", hw, s)
    got, want = [], []
    m = comp.compiled_instructions["c"][f"c_module{slot}"]
    for name, q in m["sequencers"].items():
        if mod == "QTM":
            # switched on for its own duration only
            run = rigmod.execute(q)
            got.append((tuple(q.connected_output_indices), tuple(q.connected_input_indices),
                        name, digital_length(run)))
        else:
            got.append((tuple(q.connected_output_indices), tuple(q.connected_input_indices),
                        round(q.modulation_freq), sequence_view(q)[0]))
    for i, ch in enumerate(chans):
        if mod == "QTM":
            want.append((indices(ch), (), f"seq{ch[-1]}", 40 + 4 * i))
        else:
            fm = round(50e6 + i * 1e7)
            want.append((indices(ch), (), fm, round(amplitude(i), 2)))
    if sorted(got) != sorted(want):
        raise Violation(f"assignment:{mod}", f"{mod} {chans}: {sorted(got)} instead of "
                                             f"{sorted(want)}")
    if rf:
        st = plain(m["settings"])
        for j in range(6):
            w = (5 + .1 * j) * 1e9 if any(ch.endswith(f"_{j}") for ch in chans) else None
            g = st.get(f"lo{j}_freq")
            if (g is None) != (w is None) or (w is not None and abs(g - w) > 1):
                raise Violation(f"assignment-lo:{mod}", f"{mod} {chans}: lo{j} {g} want {w}")
    return R(mod, states=1, transitions=len(chans), traces=len(got))


def digital_length(run):
    """Time a digital output is on."""
    levels = sorted((e[0], e[2][-1][0]) for e in run.tr.events if e[1] == "digital")
    on, off = [x for x, v in levels if v], [x for x, v in levels if not v]
    if len(on) != 1 or len(off) != 1:
        return tuple(levels)
    return off[0] - on[0]


def assign_cases():
    for mod, (outs, _ins) in MODULES.items():
        for n in (1, 2, 3):
            for chans in itertools.product(outs, repeat=n):
                if mod == "QTM" and len(set(chans)) < n:
                    continue
                if len(outs) > 4 and n == 3 and not THOROUGH and chans != tuple(sorted(chans)):
                    continue
                orders = itertools.permutations(range(n)) if THOROUGH or n < 3 else [
                    (0, 1, 2), (2, 0, 1)]
                for order in orders:
                    yield (mod, chans, 3 if mod != "QRM" else 13, tuple(order))


# ------------------------------------------------------------------ options of channels
def chan_options(case):
    """Options given per port-clock arrive at the module settings of their own channel, and nowhere else."""
    mod, chans, order, deep = case
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import IdlePulse, SquarePulse, SSBIntegrationComplex
    from quantify_scheduler.resources import ClockResource
    rf = mod in ("QCM_RF", "QRM_RF", "QRC")
    s = Schedule("s", 1)
    s.add(IdlePulse(20e-9))
    graph, mf, opts, want = [], {}, {}, {}
    for i, ch in enumerate(chans):
        pc, port, clock = f"p{i}:x-p{i}.k", f"p{i}:x", f"p{i}.k"
        graph.append([f"c.module3.{ch}", port])
        j = int(ch[-1])
        f = 5.1e9 + .1e9 * j if rf else 100e6
        s.add_resource(ClockResource(clock, f))
        mf[pc] = {"lo_freq": f - 100e6} if rf else {"interm_freq": f}
        if "input" in ch:
            s.add(SSBIntegrationComplex(port=port, clock=clock, duration=400e-9, acq_channel=i, acq_index=0))
            s.add(IdlePulse(400e-9))
        else:
            s.add(SquarePulse(amp=.1 * (i + 1), duration=20e-9, port=port, clock=clock))
        v = 2 * j + ("input" in ch) + deep
        if ch.startswith("complex_output"):
            if rf:
                opts.setdefault("output_att", {})[pc] = 4 + 2 * v
                want[f"out{j}_att"] = 4 + 2 * v
                if mod == "QRM_RF" and "complex_input_0" not in chans:
                    opts.setdefault("input_att", {})[pc] = 6
                    want["in0_att"] = 6
            if mod != "QRC":
                k = 1 if not rf else 1e-3 * 10
                a, b = (.01 * (v + 1) * k, -.02 * (v + 1) * k)
                opts.setdefault("mixer_corrections", {})[pc] = {"dc_offset_i": a, "dc_offset_q": b, "auto_lo_cal": ("off", "on_lo_interm_freq_change")[j] if rf and deep else "off"}
                opts["mixer_corrections"][pc] = {**opts["mixer_corrections"][pc], **({"dc_offset_i": None, "dc_offset_q": None} if rf and deep and j else {})}
                if opts["mixer_corrections"][pc]["dc_offset_i"] is None:
                    del opts["mixer_corrections"][pc]["dc_offset_i"], opts["mixer_corrections"][pc]["dc_offset_q"]
                    want[f"out{j}_lo_freq_cal_type_default"] = "on_lo_interm_freq_change"
                else:
                    u = 1e3 if rf else 1
                    want[f"offset_ch{j}_path_I"], want[f"offset_ch{j}_path_Q"] = a * u, b * u
        elif ch.startswith("complex_input"):
            if mod == "QRM":
                opts.setdefault("input_gain", {})[pc] = {"gain_I": 3 + v, "gain_Q": -2 - v}
                want["in0_gain"], want["in1_gain"] = 3 + v, -2 - v
            else:
                opts.setdefault("input_att", {})[pc] = 2 + 2 * v
                want[f"in{j}_att"] = 2 + 2 * v
        elif ch.startswith("real_input"):
            opts.setdefault("input_gain", {})[pc] = 5 + v
            want[f"in{j}_gain"] = 5 + v
    opts = {k: {a: v[a] for a in sorted(v, reverse=deep)} for k, v in opts.items()}
    hw = {"config_type": CT, "version": "0.2", "hardware_description": {"c": {
        "instrument_type": "Cluster", "ref": "internal", "modules": {3: {"instrument_type": mod}}}},
        "hardware_options": {"modulation_frequencies": mf, **opts},
        "connectivity": {"graph": [graph[i] for i in order]}}
    st = plain(must_compile(f"channel options {mod}", hw, s).compiled_instructions["c"]["c_module3"]["settings"])
    names = ([f"out{j}_att" for j in range(6)] + [f"in{j}_att" for j in range(2)] + [f"in{j}_gain" for j in range(2)]
             + [f"offset_ch{j}_path_{x}" for j in range(2) for x in "IQ"] + [f"out{j}_lo_freq_cal_type_default" for j in range(2)])
    for k in names:
        g, w = st.get(k), want.get(k, "off" if "cal_type" in k else None)
        g = getattr(g, "value", g)
        if (g is None) != (w is None) or (w is not None and (g != w if isinstance(w, str) else abs(g - w) > 1e-9)):
            raise Violation(f"channel-option:{mod}", f"{mod} {chans} order {order}: {k} is {g} instead of {w}; options {opts}")
    return R(mod, states=len(names), transitions=len(chans), traces=1, distinct=[hash(str(sorted(want.items())))])


def chan_option_cases():
    for mod, (outs, ins) in MODULES.items():
        if mod == "QTM":
            continue
        for n in (1, 2, 3):
            for chans in itertools.combinations(outs + ins, n):
                used = [(c.split("_")[1], i) for c in chans for i in ((2 * int(c[-1]), 2 * int(c[-1]) + 1) if c[0] == "c" else (int(c[-1]),))]
                if len(set(used)) < len(used):
                    continue
                if mod == "QRC" and n == 3 and not THOROUGH and "complex_output_5" not in chans:
                    continue
                for order in itertools.permutations(range(n)):
                    for deep in (False, True):
                        yield (mod, chans, order, deep)


def measure(case):
    """Outputs and inputs of one port in either order of the graph, in version 0.2 spelling."""
    mod, o, ins, order, proto, nclk, mix = case
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import IdlePulse, SquarePulse, SSBIntegrationComplex, Trace
    from quantify_scheduler.resources import ClockResource
    chans = ([o] if o else []) + list(ins)
    des = {}
    graph = []
    for i in order:
        if (i == 0 and o and mix) or mix == "all":
            des["lo"] = {"instrument_type": "LocalOscillator", "power": 1}
            des[f"iq{i}"] = {"instrument_type": "IQMixer"}
            graph += [[f"c.module5.{chans[i]}", f"iq{i}.if"], ["lo.output", f"iq{i}.lo"],
                      [f"iq{i}.rf", "r:x"]]
        else:
            graph.append([f"c.module5.{chans[i]}", "r:x"])
    rf = mod != "QRM" or mix
    clocks = ["r.k", "r.l"][:nclk]
    hw = {"config_type": CT, "version": "0.2", "hardware_description": {"c": {
        "instrument_type": "Cluster", "ref": "internal",
        "modules": {5: {"instrument_type": mod}}}, **des},
        "hardware_options": {"modulation_frequencies": {f"r:x-{c}": (
            {"lo_freq": 5e9} if rf else {"interm_freq": 50e6 + 1e7 * i})
            for i, c in enumerate(clocks)}},
        "connectivity": {"graph": graph}}
    s = Schedule("s", 1)
    r = s.add(IdlePulse(20e-9))
    for i, c in enumerate(clocks):
        s.add_resource(ClockResource(c, (5e9 if rf else 0) + 50e6 + 1e7 * i))
        if o:
            s.add(SquarePulse(amp=.3, duration=20e-9, port="r:x", clock=c), ref_op=r)
        if proto == "ssb":
            s.add(SSBIntegrationComplex(port="r:x", clock=c, duration=100e-9, acq_channel=i),
                  ref_op=r, rel_time=40e-9)
        elif proto == "trace" and not i:
            s.add(Trace(port="r:x", clock=c, duration=100e-9, acq_channel=i), ref_op=r,
                  rel_time=40e-9)
        elif proto == "trace" and not o:
            s.add(SSBIntegrationComplex(port="r:x", clock=c, duration=100e-9, acq_channel=i),
                  ref_op=r, rel_time=40e-9)
    s.add(IdlePulse(200e-9), ref_op=r)
    try:
        comp = compile_with(hw, s)
    except Violation:
        raise
    except Exception as e:
        pair = not (o and ins) or (len(ins) == 1 and o.split("_")[0] == ins[0].split("_")[0] and (
            o[-1] == ins[0][-1] or o.startswith("real")))
        if len(ins) <= 1 and pair and not (mix and "real" in "".join(chans)):
            raise Violation("refused:measure", f"{case}: {e!r}"[:300]) from e
        return R(f"refused {type(e).__name__}", states=1)
    seqs = comp.compiled_instructions["c"]["c_module5"]["sequencers"]
    if len(seqs) != nclk:
        raise Violation("measure-sequencers", f"{case}: {len(seqs)} sequencers")
    wo = indices(o) if o else ()
    wi = tuple(sorted({i for ch in ins for i in indices(ch)}))
    for q in seqs.values():
        if tuple(sorted(q.connected_output_indices)) != wo:
            raise Violation("measure-output",
                            f"{case}: outputs {q.connected_output_indices} for {wo}")
        if tuple(sorted(q.connected_input_indices)) != wi:
            raise Violation("measure-input",
                            f"{case}: inputs {q.connected_input_indices} for {wi}")
    if o and sorted(round(q.modulation_freq or 0) for q in seqs.values()) != [50000000, 60000000][:nclk]:
        raise Violation("measure-frequency", f"{case}: {[q.modulation_freq for q in seqs.values()]}")
    gen = dict(comp.compiled_instructions.get("generic", {}))
    if des and (gen.get("lo.frequency") is None or abs(gen["lo.frequency"] - 5e9) > 1):
        raise Violation("measure-lo", f"{case}: external oscillator {gen}")
    return R("connected", states=1, transitions=1, traces=1)


def old_measure(case):
    """Version 0.1: acquiring on the port of an output uses the inputs that no other port has."""
    mod, outs, ins, order, both = case
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import IdlePulse, SquarePulse, SSBIntegrationComplex
    from quantify_scheduler.resources import ClockResource
    rf = mod == "QRM_RF"
    graph = [[f"c.module5.{c}", f"r{i}:x"] for i, c in enumerate(outs)] + [[f"c.module5.{c}", f"m{i}:x"] for i, c in enumerate(ins)]
    graph = [graph[i] for i in order]
    ports = [f"r{i}:x" for i in range(len(outs))] + ([f"m{i}:x" for i in range(len(ins))] if both else [])
    hw = {"config_type": CT, "version": "0.1", "hardware_description": {"c": {"instrument_type": "Cluster", "ref": "internal", "modules": {5: {"instrument_type": mod}}}},
          "hardware_options": {"modulation_frequencies": {f"{p}-r.k": {"lo_freq": 5e9} if rf else {"interm_freq": 50e6} for p in ports}},
          "connectivity": {"graph": graph}}
    s = Schedule("s", 1)
    s.add_resource(ClockResource("r.k", (5e9 if rf else 0) + 50e6))
    r = s.add(IdlePulse(20e-9))
    for i, p in enumerate(ports):
        if p[0] == "r":
            s.add(SquarePulse(amp=.3, duration=20e-9, port=p, clock="r.k"), ref_op=r)
        s.add(SSBIntegrationComplex(port=p, clock="r.k", duration=100e-9, acq_channel=i), ref_op=r, rel_time=40e-9)
    s.add(IdlePulse(200e-9), ref_op=r)
    try:
        comp = compile_with(hw, s)
    except Violation:
        raise
    except Exception as e:
        raise Violation("refused:old-measure", f"{case}: {e!r}"[:300]) from e
    taken = {i for c in ins for i in indices(c)} if both else set()     # only ports that are used count
    want = {}
    for i, c in enumerate(outs):
        want[f"r{i}:x"] = (indices(c), tuple(sorted({0, 1} - taken)))
    for i, c in enumerate(ins):
        if both:
            want[f"m{i}:x"] = ((), tuple(sorted(indices(c))))
    got = {}
    for q in comp.compiled_instructions["c"]["c_module5"]["sequencers"].values():
        got[tuple(sorted(q.connected_output_indices)), tuple(sorted(q.connected_input_indices))] = 1
    if sorted(got) != sorted((tuple(sorted(a)), b) for a, b in want.values()):
        raise Violation("old-measure", f"{case}: outputs and inputs {sorted(got)}, wanted {sorted(want.values())}")
    return R("connected", states=len(got), transitions=1, traces=1, distinct=[hash(str(sorted(got)) + mod)])


def old_measure_cases():
    for mod, outs, ins in [("QRM", ("complex_output_0",), ()), ("QRM_RF", ("complex_output_0",), ()), ("QRM", ("real_output_0",), ()), ("QRM", ("real_output_1",), ()),
                           ("QRM", ("real_output_0", "real_output_1"), ())] + [
            ("QRM", o, (f"real_input_{i}",)) for o in (("real_output_0",), ("real_output_1",), ("real_output_0", "real_output_1")) for i in (0, 1)]:
        for order in itertools.permutations(range(len(outs) + len(ins))):
            for both in (False, True):
                yield (mod, outs, ins, order, both)


LASERS = {"spinpump_laser": "ge1", "green_laser": "ionization", "red_laser": "ge0"}


def lasers(case):
    """Lasers on one port: each clock is played by its own laser, whichever are used."""
    order, used, extra = case
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import IdlePulse, SquarePulse
    from quantify_scheduler.resources import ClockResource
    names = list(LASERS)
    freq = {"ge1": 471e12, "ionization": 564e12, "ge0": 470e12, "other": 480e12}
    graph, des = [], {"c": {"instrument_type": "Cluster", "ref": "internal", "modules": {
        1: {"instrument_type": "QCM"}, 2: {"instrument_type": "QRM"}}}}
    for i in order:
        n = names[i]
        des[n] = {"instrument_type": "LocalOscillator", "power": 1}
        des[f"om_{n}"] = {"instrument_type": "OpticalModulator"}
        graph += [[f"c.module1.real_output_{i}", f"om_{n}.if"], [f"{n}.output", f"om_{n}.lo"],
                  [f"om_{n}.out", "q:optical_control"]]
    if extra:
        # the same laser used for another port, and as usual a direct output
        graph.insert(0, ["c.module2.real_output_0", "q:mw"])
        graph.append(["om_red_laser.out", "r:optical_control"])
    pcs = [("q:optical_control", c) for c in used]
    if extra:
        pcs += [("r:optical_control", "ge0"), ("q:mw", "k")]
    hw = {"config_type": CT, "hardware_description": des, "hardware_options": {
        "modulation_frequencies": {f"{p}-q.{c}": {"interm_freq": 50e6} for p, c in pcs}},
        "connectivity": {"graph": graph}}
    s = Schedule("s", 1)
    s.add(IdlePulse(20e-9))
    want = []
    for i, (p, c) in enumerate(pcs):
        if f"q.{c}" not in s.resources:
            s.add_resource(ClockResource(f"q.{c}", 50e6 if c == "k" else freq[c]))
        s.add(SquarePulse(amp=amplitude(i), duration=20e-9, port=p, clock=f"q.{c}"))
        out = next((j for j, n in enumerate(names) if LASERS[n] == c), None)
        want.append((1, (out,), round(amplitude(i), 2)) if c != "k" else
                    (2, (0,), round(amplitude(i), 2)))
    s.add(IdlePulse(20e-9))
    if "other" in used:
        # belongs to no laser: only a single laser without a clock of its own can play it
        try:
            compile_with(hw, s)
        except Violation:
            raise
        except Exception as e:
            return R(f"refused {type(e).__name__}", states=1)
        if sum(LASERS[names[i]] not in used for i in order) != 1:
            raise Violation("laser-for-unknown-clock", f"{case}: accepted")
        return R("single laser", states=1)
    comp = must_compile("lasers", hw, s)
    got = []
    for k, m in comp.compiled_instructions["c"].items():
        if isinstance(m, dict) and "sequencers" in m:
            for q in m["sequencers"].values():
                got.append((int(k[-1]), tuple(q.connected_output_indices), sequence_view(q)[0]))
    if sorted(got) != sorted(want):
        raise Violation("wrong-laser", f"{case}: {sorted(got)} instead of {sorted(want)}")
    gen = dict(comp.compiled_instructions.get("generic", {}))
    for n, c in LASERS.items():
        f = gen.get(f"{n}.frequency")
        w = freq[c] - 50e6 if c in used or (extra and c == "ge0") else None
        if (f is None) != (w is None) or (f is not None and abs(f - w) > 1e3):
            raise Violation("laser-frequency", f"{case}: {n} {f} instead of {w}")
    return R("played", states=1, transitions=len(pcs), traces=len(got))


def lasers_cases():
    for n in (1, 2, 3):
        for order in itertools.permutations(range(3), n):
            own = [list(LASERS.values())[i] for i in order]
            for k in range(1, len(own) + 2):
                for used in itertools.permutations(own + ["other"], k):
                    for extra in (False, True):
                        if not extra or (2 in order and "other" not in used):
                            yield (order, used, extra)


def two_outputs(case):
    """A port connected to two outputs is refused: no output can be the one that plays it."""
    a, b, order = case
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import IdlePulse, SquarePulse
    from quantify_scheduler.resources import ClockResource
    des = {"c": {"instrument_type": "Cluster", "ref": "internal", "modules": {
        1: {"instrument_type": "QCM"}, 2: {"instrument_type": "QCM"},
        3: {"instrument_type": "QCM_RF"}, 4: {"instrument_type": "QRM"},
        5: {"instrument_type": "QRM_RF"}}},
        "e": {"instrument_type": "Cluster", "ref": "internal", "modules": {
            1: {"instrument_type": "QCM"}}}}
    graph = []
    for i, (ch, mixer) in enumerate((a, b)):
        if mixer:
            des[f"lo{i}"] = {"instrument_type": "LocalOscillator", "power": 1}
            des[f"iq{i}"] = {"instrument_type": "IQMixer"}
            graph += [[ch, f"iq{i}.if"], [f"lo{i}.output", f"iq{i}.lo"], [f"iq{i}.rf", "p:mw"]]
        else:
            graph.append([ch, "p:mw"])
    if order:
        graph = graph[::-1]
    hw = {"config_type": CT, "hardware_description": des,
          "hardware_options": {"modulation_frequencies": {"p:mw-k": {"interm_freq": 50e6}}},
          "connectivity": {"graph": graph}}
    s = Schedule("s", 1)
    mixed = a[1] or b[1] or "module3" in a[0] or "module3" in b[0]
    s.add_resource(ClockResource("k", 5e9 if mixed else 50e6))
    s.add(IdlePulse(20e-9))
    s.add(SquarePulse(amp=.3, duration=20e-9, port="p:mw", clock="k"))
    s.add(IdlePulse(20e-9))
    try:
        compile_with(hw, s)
    except Violation:
        raise
    except Exception as e:
        return R(f"refused {type(e).__name__}", states=1)
    raise Violation("two-outputs", f"{case}: a port connected to two outputs is accepted")


def two_outputs_cases():
    ends = [(f"c.module1.complex_output_{i}", m) for i in (0, 1) for m in (False, True)] + [
        ("c.module1.real_output_2", False), ("c.module2.complex_output_0", False),
        ("c.module2.complex_output_0", True), ("c.module3.complex_output_0", False),
        ("c.module3.complex_output_1", False), ("e.module1.complex_output_1", False),
        ("e.module1.complex_output_1", True), ("c.module4.complex_output_0", False),
        ("c.module4.complex_output_0", True), ("c.module4.real_output_1", False),
        ("c.module5.complex_output_0", False)]
    for a, b in itertools.combinations(ends, 2):
        for order in (0, 1):
            yield (a, b, order)


def measure_cases():
    for mod in ("QRM", "QRM_RF", "QRC"):
        outs, ins = MODULES[mod]
        for o in [None] + outs:
            for k in (0, 1, 2):
                for i in itertools.combinations(ins, k):
                    n = k + (o is not None)
                    if not n:
                        continue
                    for order in itertools.permutations(range(n)):
                        for proto in (("ssb", "trace") if i else ("none",)):
                            for nclk in (1, 2):
                                for mix in ((None, "out", "all") if mod == "QRM" else (None,)):
                                    if mix == "out" and not o:
                                        continue
                                    yield (mod, o, i, order, proto, nclk, mix)


# ------------------------------------------------------------------ main
def main():
    ck = Check("C27", rule=NOTE, level=LEVEL, assumptions=[
        "names of optical modulators keep the laser's name in them (the backend recognises them)",
        "sequencer numbers are not part of the meaning of a program (except on timetag modules)"])
    names = list(T)
    cases = [(w, ()) for w in WORLDS]
    for w in WORLDS:
        cases += [(w, (a,)) for a in names]
        pairs = [(a, b) for a in names for b in names
                 if a != b and not (a.startswith("via") and b.startswith("via"))
                 and not a.startswith("via")]
        cases += [(w, p) for p in pairs if w == "main" or THOROUGH]
        if THOROUGH:
            core = [n for n in names if n.startswith(("rename", "slots", "extra"))
                    or "graph" in n or n.startswith("edges")]
            cases += [(w, p) for p in itertools.combinations(core, 3)]
    ck.explore(respelled, cases, label="respelled")
    old = []
    for w in WORLDS:
        n = range(len(EXTRA[w]))
        ex = [()] + [(i,) for i in n]
        two = [(i, j) for i in n for j in n if i < j]
        old += [(w, e, o, v) for e in ex for o in [()] + [(x,) for x in OLD_ORDERS]
                for v in (("dict", "json", "file", "model", "model-json") if not o or THOROUGH
                          else ("dict",))]
        old += [(w, e, o, "dict") for e in two for o in (
            [(), ((3, "reverse"),), (("pc", "reverse"),)] if not THOROUGH
            else [()] + [(x,) for x in OLD_ORDERS])]
        old += [(w, (), o, "dict") for o in itertools.combinations(OLD_ORDERS, 2)]
    ck.explore(old_style, old, label="old-style")
    op = []
    for w in WORLDS:
        n = range(len(OPTS[w]))
        op += [(w, (i,)) for i in n]
        op += [(w, p) for p in itertools.combinations(n, 2)
               if OPTS[w][p[0]][:2] != OPTS[w][p[1]][:2]]
    ck.explore(options, op, label="options")
    ck.explore(assign, list(assign_cases()), label="assignment")
    ck.explore(chan_options, list(chan_option_cases()), label="channel-options")
    ck.explore(measure, list(measure_cases()), label="measure")
    ck.explore(old_measure, list(old_measure_cases()), label="old-measure")
    ck.explore(lasers, list(lasers_cases()), label="lasers")
    ck.explore(two_outputs, list(two_outputs_cases()), label="two-outputs")
    ck.finish(("respelled:same", "old-style:same", "options:one", "options:two",
               "assignment:QTM", "channel-options:QRM", "channel-options:QRC", "measure:connected", "old-measure:connected", "lasers:played"))


if __name__ == "__main__":
    main()
