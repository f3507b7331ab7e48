"""C18: what a schedule stores.

1. all pairs of operations of a class that differ in one argument (boundary
   values of every kind, numpy kinds included), and all pairs of base operations
   of different classes: equal, with equal hashes, exactly if their content is
   equal; a schedule that gets both, in both orders, contains both.
2. all histories of adding (similar, equal, shared operations, sub-schedules,
   loops, conditionals; labels, references by name and by object, unknown
   references, duplicates, things that are not operations, resources) up to the
   depth, against a list.  After every step the schedule lists exactly what was
   added, and nothing else changed.  At the end the schedule compiles at the
   device level to what the list says, or is refused when it refers to something
   unknown.
"""
from __future__ import annotations

import copy
import itertools
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import numpy as np  # noqa: E402

from checks import C17  # noqa: E402
from checks.C17 import where  # noqa: E402
from lib.common import THOROUGH, Check, R, Violation  # noqa: E402

TECHNIQUE = ("Exhaustive enumeration of add-histories on the real Schedule, every state compared with a reference list model; all pairs of operations "
             "differing in one argument for the content hash")
LEVEL = "model_checking"
NOTE = "histories of up to three (thorough four) additions from a menu of similar operations; objects are not modified by the caller after adding"


# ------------------------------------------------------------ 1: pairs
def norm(o):
    """Content; True counts as 1, and plain containers of pulse and acquisition information are alike."""
    return plain(C17.norm(o))


CONTAINERS = ("StitchedPulse", "Operation", "Acquisition", "AcquisitionOperation")


def plain(n):
    if isinstance(n, bool):
        return float(n)
    if isinstance(n, tuple) and len(n) == 2 and isinstance(n[0], str):
        return ("container" if n[0].rsplit(".", 1)[-1] in CONTAINERS else n[0], plain(n[1]))
    if isinstance(n, dict):
        return {k: plain(v) for k, v in n.items()}
    if isinstance(n, (list, tuple)):
        return type(n)(plain(x) for x in n)
    return n


EXTRA = [-1, -2, -1., -2., 0, -0., 1e-9, 0.1, 0.1 + 1e-16 * 2, 2**61 - 1, -1j, -2j]


def variants(key):
    """All single-argument deviations of a class."""
    cls = C17.classes()[key]
    out = [()]
    for n in C17.params(cls):
        if n in ("args", "kwargs"):
            continue
        out += [((n, i),) for i in range(1, len(C17.values(cls.__name__, n)))]
    return out


NUMERIC = ("amp", "theta", "phi", "phase_shift", "phase", "offset", "duration", "t0", "clock_freq_new", "offset_path_I", "offset_path_Q", "amp_A",
           "D_amp", "G_amp", "start_amp", "final_amp", "threshold", "acq_rotation", "acq_threshold", "repetitions", "num_steps", "freq", "rel_time")


def build(key, dev):
    cls = C17.classes()[key]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if dev and dev[0][0] == "=":        # base arguments with one replaced by a value
                _, name, v = dev[0]
                old = C17.values
                try:
                    C17.values = lambda c, n: [EXTRA[v]] if n == name else old(c, n)
                    return C17.make(cls, {})
                finally:
                    C17.values = old
            return C17.make(cls, dict(dev))
        except (TypeError, ValueError, NotImplementedError, AssertionError, KeyError, ZeroDivisionError):
            return None


def numeric_params(cls):
    return [n for n in C17.params(cls) if n not in ("args", "kwargs") and n not in ("port", "clock", "qubit", "name", "body") and
            any(isinstance(v, (int, float, np.number)) and not isinstance(v, bool) for v in C17.values(cls.__name__, n))]


def pair_case(case):
    from quantify_scheduler import Schedule
    from quantify_scheduler.resources import Resource
    (k1, d1), (k2, d2) = case
    a, b = build(k1, d1), build(k2, d2)
    if a is None or b is None:
        return R("not-constructible")
    na, nb = norm(a), norm(b)
    same = where(na, nb) is None
    what = f"{k1}{d1} and {k2}{d2}"
    eq = bool(a == b)
    if eq != bool(b == a):
        raise Violation("asymmetric", what)
    if eq and not same:
        raise Violation("equal-though-different", f"{what}: {where(na, nb)}")
    if not eq and exactly(a, b):
        raise Violation("different-though-equal", what)
    if isinstance(a, Resource) or isinstance(b, Resource):
        return R("resource")
    if (a.hash == b.hash) and not same:
        raise Violation("hash-collision", f"{what}: {where(na, nb)}")
    if isinstance(a, Schedule) or isinstance(b, Schedule):
        pass
    for x, y in ((a, b), (b, a)):
        nx, ny = norm(x), norm(y)
        s = Schedule("s")
        s.add(x, label="x")
        s.add(y, label="y")
        s.add(x, label="z")
        for lab, want in (("x", nx), ("y", ny), ("z", nx)):
            got = norm(s.operations[s.schedulables[lab]["operation_id"]])
            w = where(want, got)
            if w:
                raise Violation("stored-content", f"{what}: {lab} in the schedule: {w}")
        if where(nx, norm(x)) or where(ny, norm(y)):
            raise Violation("operation-changed", what)
    return R("same" if same else "different", distinct=(repr(na), repr(nb)))


def exactly(a, b):
    """Identical class and identical content without tolerance, numbers compared by value."""
    return type(a) is type(b) and repr(norm(a)) == repr(norm(b)) and "nan" not in repr(norm(a))


def pair_cases(_):
    from quantify_scheduler.resources import Resource  # noqa: F401
    out = []
    keys = list(C17.classes())
    for key in keys:
        vs = variants(key)
        cls = C17.classes()[key]
        # values of the same argument against each other
        byname = {}
        for d in vs[1:]:
            byname.setdefault(d[0][0], []).append(d)
        for n, ds in byname.items():
            for x, y in itertools.combinations_with_replacement([()] + ds, 2):
                out.append(((key, x), (key, y)))
        for n in numeric_params(cls):
            ex = [(("=", n, i),) for i in range(len(EXTRA))]
            for x, y in itertools.combinations_with_replacement(ex, 2):
                out.append(((key, x), (key, y)))
        # one argument against another
        for x, y in itertools.combinations(byname, 2):
            if THOROUGH:
                out += [((key, p), (key, q)) for p in byname[x] for q in byname[y]]
            else:
                out += [((key, byname[x][0]), (key, byname[y][0])), ((key, byname[x][-1]), (key, byname[y][-1]))]
    for x, y in itertools.combinations(keys, 2):
        out.append(((x, ()), (y, ())))
    return out


# ------------------------------------------------------------ 2: histories
def sq(amp=.1, dur=20e-9, port="q0:mw"):
    from quantify_scheduler.operations.pulse_library import SquarePulse
    return SquarePulse(amp, dur, port, "cl0.baseband")


def sub(ops, name="sub", label="l", rel=0):
    from quantify_scheduler import Schedule
    s = Schedule(name)
    for i, o in enumerate(ops):
        s.add(o, label=f"{label}{i}", rel_time=rel)
    return s


def menu():
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    from quantify_scheduler.operations.gate_library import CZ, X90, X, Y, Measure, Reset, Rxy, Rz
    from quantify_scheduler.operations.pulse_library import IdlePulse, NumericalPulse, ShiftClockPhase, VoltageOffset
    num = [.1, .2, .3, .1]
    t = list(np.arange(4) * 1e-9)
    return {
        "a": lambda: sq(.1), "b": lambda: sq(-.1), "a-": lambda: sq(-1.), "b-": lambda: sq(-2.), "long": lambda: sq(.1, 40e-9), "port": lambda: sq(.1, 20e-9, "q1:mw"),
        "ph-1": lambda: ShiftClockPhase(-1, "cl0.baseband"), "ph-2": lambda: ShiftClockPhase(-2, "cl0.baseband"), "off": lambda: VoltageOffset(.1, 0., "q0:mw", "cl0.baseband"),
        "num": lambda: NumericalPulse(num, t, "q0:mw", "cl0.baseband"), "num'": lambda: NumericalPulse(num[:3] + [.2], t, "q0:mw", "cl0.baseband"), "idle": lambda: IdlePulse(20e-9),
        "s(a)": lambda: sub([sq(.1)]), "s(a-)": lambda: sub([sq(-1.)]), "s(b-)": lambda: sub([sq(-2.)]), "s(aa)": lambda: sub([sq(.1), sq(.1)]), "s(a rel)": lambda: sub([sq(.1)], rel=20e-9),
        "s'(a)": lambda: sub([sq(.1)], name="other"), "s(s(a))": lambda: sub([sub([sq(.1)])]),
        "L2(a)": lambda: LoopOperation(sq(.1), 2), "L3(a)": lambda: LoopOperation(sq(.1), 3), "L2(b)": lambda: LoopOperation(sq(-.1), 2), "L2(s(a))": lambda: LoopOperation(sub([sq(.1)]), 2), "L2(L3(a))": lambda: LoopOperation(LoopOperation(sq(.1), 3), 2),
        "L3(L2(a))": lambda: LoopOperation(LoopOperation(sq(.1), 2), 3),
        "C0(a)": lambda: ConditionalOperation(sq(.1), "q0"), "C1(a)": lambda: ConditionalOperation(sq(.1), "q1"),
    }


class Model:
    """What the schedule must contain."""

    def __init__(self):
        self.items = []         # (label, content, rel, ref, pt, ptn)
        self.unknown = False


SHARED = {}


def obj(name, how):
    """A new object, or the one used before in this history."""
    if how == "new" or name not in SHARED:
        SHARED[name] = menu()[name]()
    return SHARED[name]


def check_schedule(s, model, what):
    from quantify_scheduler import Schedule
    labels = [x[0] for x in model.items]
    if list(s.schedulables) != labels:
        raise Violation("order", f"{what}: the schedule lists {list(s.schedulables)} instead of {labels}")
    for lab, content, rel, ref, pt, ptn in model.items:
        sb = s.schedulables[lab]
        if sb["name"] != lab or str(sb) != lab or sb["label"] != lab:
            raise Violation("label", f"{what}: {lab} is named {sb['name']}")
        op = s.operations.get(sb["operation_id"])
        if op is None:
            raise Violation("missing", f"{what}: the operation of {lab} is not in the schedule")
        w = where(content, norm(op))
        if w:
            raise Violation("stored-content", f"{what}: operation of {lab}: {w}")
        cons = [(c.rel_time, c.ref_schedulable, c.ref_pt, c.ref_pt_new) for c in sb["timing_constraints"]]
        if cons != [(rel, ref, pt, ptn)]:
            raise Violation("constraint", f"{what}: {lab} has constraints {cons} instead of {(rel, ref, pt, ptn)}")
    # nothing that was not added; storage shared by equal content only
    used = {s.schedulables[l]["operation_id"] for l in labels}
    if set(s.operations) != used:
        raise Violation("stray-operation", f"{what}: operations {set(s.operations) - used} belong to nothing")
    kinds = []
    for x in model.items:
        if not any(where(x[1], k) is None for k in kinds):
            kinds.append(x[1])
    if len(used) != len(kinds):
        raise Violation("sharing", f"{what}: {len(kinds)} different operations are stored as {len(used)}")
    if not isinstance(s, Schedule):
        raise Violation("class", what)


def timeline(s, t=0.):
    """(time, content) of everything in a compiled schedule, sub-schedules flattened."""
    out = []
    for sb in s.schedulables.values():
        op = s.operations[sb["operation_id"]]
        at = t + sb["abs_time"]
        if hasattr(op, "schedulables"):
            out += timeline(op, at)
        elif hasattr(op, "body"):
            body = op.body
            head = tuple(sorted((k, repr(v)) for k, v in op.data["control_flow_info"].items() if k not in ("body", "t0", "duration")))
            inner = timeline(body, 0.) if hasattr(body, "schedulables") else nested(body)
            out.append((at, ("control", head, tuple((x, repr(y)) for x, y in inner))))
        else:
            out.append((at, canon(op)))
    return out


def nested(op):
    if hasattr(op, "body"):
        head = tuple(sorted((k, repr(v)) for k, v in op.data["control_flow_info"].items() if k not in ("body", "t0", "duration")))
        inner = timeline(op.body, 0.) if hasattr(op.body, "schedulables") else nested(op.body)
        return [(0., ("control", head, tuple((x, repr(y)) for x, y in inner)))]
    return [(0., canon(op))]


def canon(op):
    return norm({"name": op.name, "pulse_info": op.data["pulse_info"], "acquisition_info": op.data["acquisition_info"]})


def expected(model):
    """The timeline of the model: one schedule per item compiled alone, put one after another."""
    out, spans = [], {}
    prev = None
    for lab, content, rel, ref, pt, ptn, op in model.full:
        alone = alone_of(op)
        if ref is not None:
            base = spans[ref]
        else:
            base = prev
        dur = alone[1]
        if base is None:
            t = rel
        else:
            f = {"start": 0., "center": .5, "end": 1., None: 1.}[pt]
            g = {"start": 0., "center": .5, "end": 1., None: 0.}[ptn]
            t = base[0] + f * base[1] + rel - g * dur
        spans[lab] = prev = (t, dur)
        out += [(t + x, y) for x, y in alone[0]]
    t0 = min([x[0] for x in spans.values()])
    return [(x - t0, y) for x, y in out]


_ALONE = {}


def alone_of(op):
    from quantify_scheduler import Schedule
    k = repr(norm(op))
    if k not in _ALONE:
        s = Schedule("alone")
        s.add(copy.deepcopy(op))
        c = compile_(s)
        o = next(iter(c.operations.values()))
        _ALONE[k] = (timeline(c), float(o.duration))
    return _ALONE[k]


_CFG = []


def compile_(s):
    from quantify_scheduler.backends import SerialCompiler
    from lib import gates
    if not _CFG:
        _CFG.append(gates.make_device(strategy="asap").generate_compilation_config())
    return SerialCompiler("c").compile(s, _CFG[0])


# a step: (operation, how obtained, placement)
PLACE = {
    "plain": {}, "label": {"label": "A"}, "rel": {"rel_time": 20e-9}, "ref": {"ref_op": "A"}, "first": {"ref_op": "first"}, "first-str": {"ref_op": "first-str"}, "pt": {"ref_pt": "start"}, "ptn": {"ref_pt": "start", "ref_pt_new": "end"},
    "center": {"ref_pt": "center", "ref_pt_new": "center", "rel_time": 0}, "full": {"ref_op": "first", "ref_pt": "start", "rel_time": -20e-9, "label": "B"}, "unknown": {"ref_op": "nothing"}, "label-later": {"label": "nothing"},
    "no-op": None, "class": None, "none": None, "same-label": {"label": "first"},
}


def history(case):
    from quantify_scheduler import ClockResource, Schedule
    SHARED.clear()
    s, other = Schedule("main", repetitions=2), Schedule("other")
    other.add(sq(.1), label="o")
    ob = norm(other)
    model = Model()
    model.full = []
    watched = []            # (object, content, name) must not change
    n = 0
    for op, how, place in case:
        what = f"{case} at {op} {how} {place}"
        if place in ("no-op", "class", "none"):
            bad = {"no-op": "X", "class": Schedule, "none": None}[place]
            before = norm(s)
            try:
                s.add(bad)
            except ValueError:
                pass
            else:
                raise Violation("not-refused", f"{what}: something that is no operation was added")
            if where(before, norm(s)):
                raise Violation("refusal-changes", what)
            continue
        o = obj(op, how)
        content = norm(o)
        kw = dict(PLACE[place])
        first = model.items[0][0] if model.items else None
        if kw.get("ref_op") == "first" or kw.get("ref_op") == "first-str":
            if first is None:
                kw.pop("ref_op")
            else:
                kw["ref_op"] = s.schedulables[first] if kw["ref_op"] == "first" else first
        if kw.get("label") == "first":
            if first is None:
                kw.pop("label")
            else:
                kw["label"] = first
        lab = kw.get("label")
        ref = kw.get("ref_op")
        ref = str(ref) if ref is not None else None
        before = norm(s)
        if lab is not None and any(x[0] == lab for x in model.items):
            try:
                s.add(o, **kw)
            except ValueError:
                if where(before, norm(s)):
                    raise Violation("refusal-changes", what) from None
                continue
            raise Violation("duplicate-label", f"{what}: accepted")
        sb = s.add(o, **kw)
        n += 1
        if lab is None:
            lab = sb["name"]
            if any(x[0] == lab for x in model.items) or not lab:
                raise Violation("duplicate-label", f"{what}: label {lab} given twice")
        if s.schedulables[lab] is not sb:
            raise Violation("returned", f"{what}: add returned something else than the new schedulable")
        model.items.append((lab, content, kw.get("rel_time", 0), ref, kw.get("ref_pt"), kw.get("ref_pt_new")))
        model.full.append((*model.items[-1], copy.deepcopy(o)))
        watched.append((o, content))
        check_schedule(s, model, what)
        for w_o, w_c in watched:
            if where(w_c, norm(w_o)):
                raise Violation("operation-changed", f"{what}: {where(w_c, norm(w_o))}")
        if where(ob, norm(other)):
            raise Violation("other-changed", what)
    if set(s.resources) != {"cl0.baseband", "digital"} or s.repetitions != 2 or s.name != "main":
        raise Violation("attributes", f"{case}: {list(s.resources)}")
    if not model.items:
        return R("empty")
    # the resources
    s.add_resource(ClockResource("c1", 1e9))
    for bad, exc in ((ClockResource("c1", 2e9), ValueError), ("c2", ValueError)):
        try:
            s.add_resource(bad)
        except exc:
            continue
        raise Violation("resource-not-refused", f"{case}: {bad}")
    if s.resources["c1"]["freq"] != 1e9:
        raise Violation("resource", f"{case}: clock frequency replaced")
    before = norm(s)
    names = [x[0] for x in model.items]
    unknown = any(x[3] is not None and x[3] not in names for x in model.items)
    later = any(x[3] is not None and x[3] in names and names.index(x[3]) >= i for i, x in enumerate(model.items))
    try:
        comp = compile_(s)
    except Exception as e:  # noqa: BLE001
        if unknown:
            if not isinstance(e, (ValueError, KeyError)):
                raise Violation("unknown-reference", f"{case}: {type(e).__name__}: {e}") from None
            return R("refused-unknown", distinct=repr(before)[:4000])
        if later:
            return R("refused-later", distinct=case)
        raise Violation("refused", f"{case}: {type(e).__name__}: {e}") from None
    if unknown:
        raise Violation("unknown-accepted", f"{case}: compiled with a reference to an operation that does not exist")
    w = where(before, norm(s))
    if w:
        raise Violation("compile-changes", f"{case}: {w}")
    if later:
        return R("later", distinct=case)
    got = [(round(float(t) * 1e9, 3), repr(c)) for t, c in timeline(comp)]
    want = [(round(float(t) * 1e9, 3), repr(c)) for t, c in expected(model)]
    if got != want:
        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        raise Violation("timeline", f"{case}: entry {i} is {str(got[i:i + 1])[:300]} instead of {str(want[i:i + 1])[:300]}")
    return R("ok", distinct=repr(got), transitions=n)


def history_cases(_):
    out = []
    names = list(menu())
    # operations: every sequence of operations, each new or the same object again
    for d in range(1, 4):
        for ops in itertools.product(names, repeat=d):
            if d == 3 and not THOROUGH and len(set(ops)) == 3 and not similar(ops):
                continue
            out.append(tuple((o, "new", "plain") for o in ops))
            if len(set(ops)) < d:
                out.append(tuple((o, "again", "plain") for o in ops))
    # placements: every sequence of placements over two operations
    pl = list(PLACE)
    depth = 4 if THOROUGH else 3
    for d in range(1, depth + 1):
        for ps in itertools.product(pl, repeat=d):
            for pat in (("a", "long", "a", "b"), ("s(a)", "a", "s(a)", "L2(a)")):
                out.append(tuple((pat[i], "again", p) for i, p in enumerate(ps)))
    return out


FAMILY = [("a", "b", "a-", "b-", "long", "port", "num", "num'"), ("ph-1", "ph-2", "off", "idle", "a"), ("s(a)", "s(a-)", "s(b-)", "s(aa)", "s(a rel)", "s'(a)", "s(s(a))"),
          ("L2(a)", "L3(a)", "L2(b)", "L2(s(a))", "L2(L3(a))", "L3(L2(a))", "C0(a)", "C1(a)")]


def similar(ops):
    return any(set(ops) <= set(f) for f in FAMILY)


def main():
    ck = Check("C18")
    ck.explore(pair_case, pair_cases(None), label="pairs")
    ck.explore(history, history_cases(None), label="histories")
    ck.finish(("pairs:same", "pairs:different", "histories:ok", "histories:refused-unknown"))


if __name__ == "__main__":
    main()
