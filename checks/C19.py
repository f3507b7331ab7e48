"""C19: the quantum device under histories of changes.

All histories of adding, removing, configuring, closing and recreating, saving
and reloading elements and edges up to the depth, against a model that knows
which names are listed (in order) and the value of every parameter changed.
After every step the device lists exactly what the model lists, returns exactly
those instruments, refuses everything else, and its device configuration is
made of exactly the configurations that single elements with these parameter
values have on their own.  At the end gates compile exactly for what is listed.
"""
from __future__ import annotations

import itertools
import os
import sys
import tempfile
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from checks.C17 import close_all, norm, where  # noqa: E402
from lib.common import THOROUGH, Check, R, Violation  # noqa: E402

TECHNIQUE = "Exhaustive enumeration of all histories of device operations up to the depth on the real QuantumDevice, every state compared with a reference model"
LEVEL = "model_checking"
NOTE = "three elements, two edges, one parameter per instrument; depth 3 over all actions, 4 (thorough 5) over the structural ones"

KIND = {"q0": "transmon", "q1": "transmon", "n2": "nv"}
VALS = (.25, .375, .125)


def make(n):
    from quantify_scheduler.device_under_test.composite_square_edge import CompositeSquareEdge
    from quantify_scheduler.device_under_test.nv_element import BasicElectronicNVElement
    from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
    if "_" in n:
        return CompositeSquareEdge(*n.split("_"))
    if KIND[n] == "nv":
        return BasicElectronicNVElement(n)
    e = BasicTransmonElement(n)
    i = int(n[1])
    e.clock_freqs.f01(5e9 + i * 1e8)
    e.clock_freqs.f12(4.8e9 + i * 1e8)
    e.clock_freqs.readout(7e9 + i * 1e8)
    e.rxy.amp180(.75)
    return e


def par(inst):
    if "_" in inst.name:
        return inst.cz.square_amp
    return inst.rxy.amp180 if KIND[inst.name] == "transmon" else inst.spectroscopy_operation.duration


def default(n):
    return .5 if "_" in n else .75 if KIND[n] == "transmon" else 8e-6


def value(n, i):
    return VALS[i % 3] if n != "n2" else (20e-9, 40e-9, 60e-9)[i % 3]


def actions():
    a = [("add", n) for n in KIND] + [("rem", n) for n in KIND] + [("rem", "zz"), ("get", "zz")]
    a += [("add", e) for e in ("q0_q1", "q1_q0")] + [("rem", e) for e in ("q0_q1", "q1_q0")]
    a += [("set", n) for n in ("q0", "q1", "n2", "q0_q1")] + [("renew", "q0"), ("renew", "q0_q1"), ("reps", 0), ("strategy", 0), ("hw", 0)]
    a += [("bad", k) for k in ("edge-as-element", "element-as-edge", "instrument", "closed-save", "reps0", "strategyx")] + [("reload", ch) for ch in ("json", "yaml", "json-file", "dict")]
    return a


STRUCT = [("add", "q0"), ("add", "q1"), ("rem", "q0"), ("rem", "q1"), ("add", "q0_q1"), ("rem", "q0_q1"), ("set", "q0"), ("set", "q0_q1"), ("renew", "q0"), ("reload", "json"), ("reload", "yaml")]


class World:
    def __init__(self):
        from quantify_scheduler import QuantumDevice
        close_all()
        self.qd = QuantumDevice("qd")
        self.live = {}      # name -> instrument
        self.val = {}       # name -> value of its parameter
        self.elements, self.edges = [], []
        self.reps, self.strategy, self.hw = 1024, "asap", None
        self.n = 0

    def inst(self, n):
        if n not in self.live:
            self.live[n] = make(n)
            self.val[n] = default(n)
        return self.live[n]

    def listed(self, n):
        return self.edges if "_" in n else self.elements


def refused(fn, exc, what):
    try:
        fn()
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation("refused-differently", f"{what}: {type(e).__name__}: {e}") from None
    raise Violation("not-refused", what)


def step(w, act, what):
    kind, n = act
    qd = w.qd
    if kind == "add":
        inst = w.inst(n)
        f = qd.add_edge if "_" in n else qd.add_element
        if n in w.listed(n):
            refused(lambda: f(inst), ValueError, f"{what}: adding {n} again")
        else:
            f(inst)
            w.listed(n).append(n)
    elif kind == "rem":
        f = qd.remove_edge if "_" in n else qd.remove_element
        if n in w.listed(n):
            f(n)
            w.listed(n).remove(n)
        else:
            refused(lambda: f(n), (ValueError, KeyError), f"{what}: removing {n}")
    elif kind == "get":
        refused(lambda: qd.get_element(n), KeyError, what)
        refused(lambda: qd.get_edge(n), KeyError, what)
    elif kind == "set":
        if n in w.live:
            w.n += 1
            v = value(n, w.n)
            par(w.live[n])(v)
            w.val[n] = v
    elif kind == "renew":
        if n in w.live:
            w.live[n].close()
            w.live[n] = make(n)
            w.val[n] = default(n)
    elif kind == "reps":
        w.n += 1
        w.reps = 10 + w.n
        qd.cfg_sched_repetitions(w.reps)
    elif kind == "strategy":
        w.strategy = "alap" if w.strategy == "asap" else "asap"
        qd.scheduling_strategy(w.strategy)
    elif kind == "hw":
        w.n += 1
        w.hw = {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig", "hardware_description": {f"cl{w.n}": {"instrument_type": "Cluster", "ref": "internal", "modules": {}}}, "hardware_options": {}, "connectivity": {"graph": []}}
        qd.hardware_config(w.hw)
    elif kind == "bad":
        if n == "edge-as-element":
            refused(lambda: qd.add_element(w.inst("q1_q0")), (TypeError, ValueError), what)
        elif n == "element-as-edge":
            refused(lambda: qd.add_edge(w.inst("q0")), (TypeError, ValueError), what)
        elif n == "instrument":
            refused(lambda: qd.add_element(qd), (TypeError, ValueError), what)
            refused(lambda: qd.add_edge(qd), (TypeError, ValueError), what)
        elif n == "reps0":
            refused(lambda: qd.cfg_sched_repetitions(0), ValueError, what)
        elif n == "strategyx":
            refused(lambda: qd.scheduling_strategy("x"), ValueError, what)
        elif n == "closed-save":
            names = w.elements + w.edges
            if names:
                c = names[-1]
                w.live[c].close()
                refused(qd.to_json, RuntimeError, f"{what}: saving with {c} closed")
                w.live[c] = make(c)
                w.val[c] = default(c)
    elif kind == "reload":
        return reload(w, n, what)
    return None


def reload(w, ch, what):
    from quantify_scheduler import QuantumDevice
    qd = w.qd
    if not w.elements and not w.edges and not ch.startswith("yaml"):
        refused(qd.to_json, RuntimeError, f"{what}: saving an empty device")
        return
    with tempfile.TemporaryDirectory() as d:
        if ch == "json":
            t = qd.to_json()
            close_all()
            w.qd = QuantumDevice.from_json(t)
        elif ch == "dict":
            t = qd.to_dict()
            close_all()
            w.qd = QuantumDevice.from_dict(t)
        else:
            kind = ch.split("-")[0]
            f = getattr(qd, f"to_{kind}_file")(d)
            close_all()
            w.qd = getattr(QuantumDevice, f"from_{kind}_file")(f)
    names = w.elements + w.edges
    from qcodes.instrument import Instrument
    w.live = {n: Instrument.find_instrument(n) for n in names}
    w.val = {n: w.val[n] for n in names}
    w.strategy, w.hw = "asap", None     # not part of what is saved (documented)


_REF = {}


def reference(n, v):
    """(elements, clocks, edges) a single instrument with this value has, made in a device of its own."""
    if (n, v) not in _REF:
        from quantify_scheduler import QuantumDevice
        close_all()
        qd = QuantumDevice("ref")
        i = make(n)
        par(i)(v)
        if "_" in n:
            for m in n.split("_"):
                qd.add_element(make(m))
            qd.add_edge(i)
        else:
            qd.add_element(i)
        c = qd.generate_device_config()
        close_all()
        _REF[n, v] = (norm(c.model_dump()["elements"]), norm(c.clocks), norm({k: {a: b.model_dump() for a, b in e.items()} for k, e in c.edges.items()}))
    return _REF[n, v]


def check(w, what):
    qd = w.qd
    if list(qd.elements()) != w.elements or list(qd.edges()) != w.edges:
        raise Violation("listed", f"{what}: the device lists {qd.elements()} {qd.edges()} instead of {w.elements} {w.edges}")
    for n in KIND:
        if n in w.elements:
            if qd.get_element(n) is not w.live[n] or qd.get_element(n).name != n:
                raise Violation("element", f"{what}: {n} is {qd.get_element(n)!r}")
            if par(qd.get_element(n))() != w.val[n]:
                raise Violation("parameter", f"{what}: {n} has {par(qd.get_element(n))()} instead of {w.val[n]}")
        else:
            refused(lambda n=n: qd.get_element(n), KeyError, f"{what}: getting {n}")
    for n in ("q0_q1", "q1_q0"):
        if n in w.edges:
            if qd.get_edge(n) is not w.live[n]:
                raise Violation("edge", f"{what}: {n} is {qd.get_edge(n)!r}")
            if par(qd.get_edge(n))() != w.val[n]:
                raise Violation("parameter", f"{what}: {n} has {par(qd.get_edge(n))()} instead of {w.val[n]}")
        else:
            refused(lambda n=n: qd.get_edge(n), KeyError, f"{what}: getting {n}")
    if qd.cfg_sched_repetitions() != w.reps:
        raise Violation("repetitions", f"{what}: {qd.cfg_sched_repetitions()} instead of {w.reps}")
    complete = all(m in w.live for e in w.edges for m in e.split("_"))
    try:
        conf = qd.generate_device_config()
    except KeyError as e:
        if complete:
            raise Violation("configuration-fails", f"{what}: {e}") from None
        return None
    dump = conf.model_dump()
    el, cl, ed = {}, {}, {}
    for n in w.elements:
        a, b, _ = W_REF[n, w.val[n]]
        el.update(a)
        cl.update(b)
    for n in w.edges:
        ed.update(W_REF[n, w.val[n]][2])
    got = norm({k: {a: b.model_dump() for a, b in e.items()} for k, e in conf.edges.items()})
    for name, x, y in (("elements", el, norm(dump["elements"])), ("clocks", cl, norm(conf.clocks)), ("edges", ed, got)):
        wh = where(x, y)
        if wh or list(x) != list(y):
            raise Violation("configuration", f"{what}: {name}: {wh or (list(x), list(y))}")
    if str(getattr(conf.scheduling_strategy, "value", conf.scheduling_strategy)) != w.strategy:
        raise Violation("strategy", f"{what}: {conf.scheduling_strategy} instead of {w.strategy}")
    cc = qd.generate_compilation_config()
    if norm(cc.device_compilation_config.model_dump()) != norm(dump):
        raise Violation("compilation-config", what)
    h = cc.hardware_compilation_config
    if (h is None) != (w.hw is None) or h is not None and list(h.hardware_description) != list(w.hw["hardware_description"]):
        raise Violation("hardware-config", f"{what}: {h}")
    return conf


W_REF = _REF


def compile_check(w, conf, what):
    from quantify_scheduler import Schedule
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.operations.gate_library import CZ, X
    w.qd.hardware_config(None)
    cfg = w.qd.generate_compilation_config()
    for gate, name in ((X("q0"), "q0"), (X("q1"), "q1"), (CZ("q0", "q1"), "q0_q1")):
        s = Schedule("s")
        s.add(gate)
        ok = name in w.elements if "_" not in name else any(e in w.edges for e in ("q0_q1", "q1_q0")) and {"q0", "q1"} <= set(w.elements)
        try:
            c = SerialCompiler("c").compile(s, cfg)
        except Exception as e:  # noqa: BLE001
            if ok:
                raise Violation("gate-refused", f"{what}: {name}: {type(e).__name__}: {e}") from None
            continue
        if not ok:
            if "_" in name and any(e in w.edges for e in ("q0_q1", "q1_q0")):
                continue        # the edge is there, one of its elements is not listed
            raise Violation("gate-accepted", f"{what}: {name} is not in the device")
        op = next(iter(c.operations.values()))
        p = [x for x in op["pulse_info"] if x.get("wf_func")][0]
        if "_" in name:
            edge = "q0_q1" if "q0_q1" in w.edges else "q1_q0"
            if p["amp"] != w.val[edge]:
                raise Violation("gate-amplitude", f"{what}: {name} plays {p['amp']} instead of {w.val[edge]}")
        elif p["G_amp"] != w.val[name]:
            raise Violation("gate-amplitude", f"{what}: {name} plays {p['G_amp']} instead of {w.val[name]}")


def history(case):
    warnings.simplefilter("ignore")
    w = World()
    try:
        conf = None
        for i, act in enumerate(case):
            what = f"{case[:i + 1]}"
            step(w, act, what)
            conf = check(w, what)
        if conf is not None:
            compile_check(w, conf, f"{case}")
        sig = (tuple(w.elements), tuple(w.edges), tuple(sorted(w.val.items())), w.reps, w.strategy)
        return R("ok" if conf is not None else "incomplete", distinct=sig, transitions=len(case))
    finally:
        close_all()


def cases(_):
    acts = actions()
    out = [h for d in (1, 2) for h in itertools.product(acts, repeat=d)]
    # histories of length three that start with something that changes the device
    first = [a for a in acts if a[0] in ("add",)]
    out += [(a, b, c) for a in first for b in acts for c in acts]
    d = 5 if THOROUGH else 4
    out += [h for h in itertools.product(STRUCT, repeat=d) if h[0][0] == "add"]
    out += [(("add", "q0"), ("add", "q1"), ("add", "q0_q1"), a, b) for a in acts for b in acts]
    if THOROUGH:
        out += [(("add", "q0"), ("add", "q1"), a, b, c) for a in acts for b in acts for c in acts]
    return out


def main():
    ck = Check("C19", rule=NOTE, assumptions=["a saved device holds its elements, edges and repetitions (documented); its strategy and hardware configuration are not part of the file",
                                              "a name refers to the live instrument of that name"])
    for n in (*KIND, "q0_q1", "q1_q0"):
        for v in {default(n), *(value(n, i) for i in range(3))}:
            reference(n, v)
    ck.explore(history, cases(None), label="histories")
    ck.finish(("histories:ok", "histories:incomplete"))


if __name__ == "__main__":
    main()
