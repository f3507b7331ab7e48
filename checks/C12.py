"""C12: pulse compensation brings the integral on each port to zero."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import numpy as np
from lib import ref, rigs, sigcheck  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of compensated blocks; the programs the real compiler emits are executed by a Q1ASM interpreter "
             "and compared per nanosecond with the reference signal, and the compiled tree is compared exactly with the uncompensated one")
NOTE = ("All bodies of up to 3 pulses (several shapes, durations, signs, gaps, lines), as schedule or bare operation, in loops, sub-schedules and "
        "nested compensations, for several maximum amplitudes and grids, under both scheduling strategies. Second oracle, free of the DSL: the "
        "compiled tree of each block is the tree of its body compiled alone plus one square pulse per unbalanced port. Pulses on a compensated "
        "port with another clock than baseband are outside the documented domain.")
_RIG = []
PORT = {"fl": "q:fl", "f2": "q:f2", "iq": "q:iq", "bb": "q:bb"}


def rg():
    if not _RIG:
        _RIG.append(rigs.main_rig())
    return _RIG[0]


# ------------------------------------------------------------ executed signals
def run_sig(case):
    items, reps = case
    return sigcheck.check_signals(rg(), list(items), reps)


# ------------------------------------------------------------ exact device level
_QD = {}


def device_compile(items, strategy):
    from quantify_scheduler.backends.graph_compilation import SerialCompiler
    from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
    if strategy not in _QD:
        qd = QuantumDevice(f"qd_{strategy}")
        qd.scheduling_strategy(strategy)
        _QD[strategy] = qd.generate_compilation_config()
    rg().use()
    s = ref.build(list(items), clocks=rigs.CLOCKS)
    return SerialCompiler("c").compile(s, _QD[strategy])


def walk(op, t, out):
    """Every executed pulse: (start, port, clock, duration, description), loops unrolled."""
    if hasattr(op, "schedulables"):
        for sb in op.schedulables.values():
            walk(op.operations[sb["operation_id"]], t + sb["abs_time"], out)
        return
    info = op.data.get("control_flow_info")
    if info is not None:
        body = op.body
        for i in range(info.get("repetitions", 1) or 1):
            walk(body, t + i * body.duration, out)
        return
    if "pulse_compensation_info" in op.data:
        raise Violation("not-resolved", "a compensation block is left in the compiled schedule")
    for p in op.data["pulse_info"]:
        if p.get("port") is None:
            continue
        d = {k: (tuple(v) if isinstance(v, (list, np.ndarray)) else v) for k, v in p.items() if k not in ("t0", "duration")}
        out.append((round((t + p["t0"]) * 1e9, 6), p["port"], p["clock"], round(p["duration"] * 1e9, 6), repr(sorted(d.items(), key=str)), p))


def area(p):
    from quantify_scheduler import waveforms as wf
    n = round(p["duration"] * 1e9)
    f = p["wf_func"].rsplit(".", 1)[1]
    if f == "square":
        return p["amp"] * n
    t = np.arange(n) * 1e-9
    if f == "ramp":
        return float(np.sum(wf.ramp(t, p["amp"], p.get("offset", 0), p["duration"])))
    if f == "interpolated_complex_waveform":
        return complex(np.sum(p["samples"]))
    raise AssertionError(f)


def run_dev(case):
    """A block [comp] alone: its tree is its body's tree plus the compensating pulses."""
    (lines, grid, body, *bare), strat = case
    comp, plain = [], []
    inner = list(body) if not bare else [body[0]]
    try:
        walk(device_compile(inner, strat), 0, plain)
    except Exception:
        return R("body-refused", 1, 1, 1)
    try:
        walk(device_compile([("comp", lines, grid, list(body), *bare)], strat), 0, comp)
    except Violation:
        raise
    except Exception as e:
        raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
    a, b = sorted(x[:5] for x in comp), sorted(x[:5] for x in plain)
    extra = list(a)
    for x in b:
        if x not in extra:
            raise Violation("body-changed", f"{x} of the body is missing in {a}")
        extra.remove(x)
    by = {x[:5]: x[5] for x in comp}
    seen = set()
    for line, mx in lines:
        port = PORT[line]
        base = [x for x in plain if x[1] == port and x[2] == "cl0.baseband"]
        A = sum(area(x[5]) for x in base) if base else 0
        mine = [x for x in extra if x[1] == port]
        seen |= set(mine)
        ratio = abs(A) / mx / grid
        if ratio < 1e-9:
            if mine:
                raise Violation("needless-compensation", f"{port}: area {A}, added {mine}")
            continue
        if len(mine) != 1:
            raise Violation("pulses-added", f"{port}: area {A}, added {mine}")
        p = by[mine[0]]
        if p["wf_func"] != "quantify_scheduler.waveforms.square" or p["clock"] != "cl0.baseband":
            raise Violation("pulse-kind", f"{p}")
        if abs(A + area(p)) > 1e-6 * max(1, abs(A)):
            raise Violation("integral-not-zero", f"{port}: {A} + {area(p)}")
        if abs(p["amp"]) > mx * (1 + 1e-12):
            raise Violation("amplitude", f"{port}: {p['amp']} > {mx}")
        n = mine[0][3] / grid
        if abs(n - round(n)) > 1e-6:
            raise Violation("off-grid", f"{port}: lasts {mine[0][3]}")
        if round(n) != max(1, int(np.ceil(ratio - 1e-8))):
            raise Violation("not-shortest", f"{port}: area {A}, {round(n)} periods of {grid} at most {mx}")
        end = max(x[0] + x[3] for x in base)
        if abs(mine[0][0] - end) > 1e-6:
            raise Violation("start", f"{port}: starts at {mine[0][0]}, last pulse ends at {end}")
    if set(extra) - seen:
        raise Violation("other-port", f"{set(extra) - seen}")
    return R("compensated" if extra else "balanced", len(comp), len(comp), 1, tuple(a))


# ------------------------------------------------------------ refusals
def run_refuse(case):
    items, strat = case
    try:
        device_compile(items, strat)
    except ValueError as e:
        return R("refused", 1, 1, 1, str(e)[:60])
    except Exception as e:
        raise Violation("crash", f"{type(e).__name__}: {e}") from None
    raise Violation("accepted", "a body that cannot be compensated")


# ------------------------------------------------------------ the stand-alone compensating pulse
def run_pulse(case):
    """create_dc_compensation_pulse: the square pulse that balances a list of operations on one port."""
    ops, line, kw = case
    from quantify_scheduler.operations.pulse_library import create_dc_compensation_pulse
    rg().use()
    port, clock = ref.pc(line)
    built = [ref.build_op(o) for o in ops]
    before = repr([b.data["pulse_info"] for b in built])
    good = bool(ops) and ("amp" in kw) != ("duration" in kw) and kw.get("duration", 1) > 0
    try:
        p = create_dc_compensation_pulse(built, sampling_rate=1e9, port=port, **kw)
    except ValueError as e:
        if good:
            raise Violation("rejects-valid", f"{e}") from None
        return R("refused", 1, 1, 1, str(e)[:60])
    if not good:
        raise Violation("accepted", f"{kw} with {len(ops)} pulses")
    if repr([b.data["pulse_info"] for b in built]) != before:
        raise Violation("modifies-input", "the pulses to compensate changed")
    (i,) = p.data["pulse_info"]
    if (i["port"], i["clock"], i["wf_func"], round(i["t0"] * 1e9, 6)) != (port, "cl0.baseband", ref.WF + "square", round(kw.get("t0", 0) * 1e9, 6)):
        raise Violation("wrong-place", f"{i} for {port}")
    want, eff = 0., []
    for o in ops:
        ref.effects_op(o, 0, eff, ())
    for _, kind, ln, v, _ in eff:
        if kind == "wave" and ref.pc(ln) == (port, clock) and clock == "cl0.baseband":
            want += float(np.sum(v).real)
    if abs(i["amp"] * i["duration"] * 1e9 + want) > 1e-6:
        raise Violation("integral", f"{i['amp']} for {i['duration']} s balances {want} ns")
    if "duration" in kw and i["duration"] != kw["duration"] or "amp" in kw and abs(abs(i["amp"]) - abs(kw["amp"])) > 1e-12 or i["duration"] < 0:
        raise Violation("not-as-requested", f"{i} for {kw}")
    return R("balanced" if not want else "pulse", len(eff), len(ops), 1, (want, i["amp"], i["duration"]))


# ------------------------------------------------------------ blocks that name elements
_GD = []
GPORT = {"a": "a:mw", "b": "b:mw", "s": "s:mw", "c": "c:gt"}  # the port each element compensates


def gate_device():
    if not _GD:
        from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
        from quantify_scheduler.device_under_test.spin_element import BasicSpinElement, ChargeSensor
        from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
        rg().use()
        qd = QuantumDevice("qd_gate")
        els = {"a": BasicTransmonElement("a"), "b": BasicTransmonElement("b"), "s": BasicSpinElement("s"), "c": ChargeSensor("c")}
        for n, e in els.items():
            qd.add_element(e)
            if n in "ab":
                e.rxy.amp180(.2)
                e.rxy.motzoi(.1)
                e.clock_freqs.f01(5e9)
                e.clock_freqs.readout(7e9)
        _GD.append((qd, els))
    return _GD[0]


def gate_body(body, wrap):
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    from quantify_scheduler.operations.gate_library import X
    from quantify_scheduler.operations.pulse_library import SquarePulse
    s = Schedule("b")
    for port, d, a in body:
        if port == "X":
            s.add(X("a"))
        else:
            s.add(SquarePulse(amp=a, duration=d * 1e-9, port=port, clock="cl0.baseband"))
    return {"plain": s, "loop": LoopOperation(body=s, repetitions=3)}[wrap] if wrap != "sub" else _sub(s)


def _sub(s):
    from quantify_scheduler import Schedule
    o = Schedule("o")
    o.add(s)
    return o


def run_gate(case):
    """PulseCompensation(body, qubits=...) is the block with the settings of the named elements."""
    qubits, body, wrap, sets, strat = case
    from quantify_scheduler import Schedule
    from quantify_scheduler.backends.graph_compilation import SerialCompiler
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
    rg().use()
    qd, els = gate_device()
    qd.scheduling_strategy(strat)
    for n, (amp, grid, rate) in zip("absc", sets):
        m = els[n].pulse_compensation
        m.max_compensation_amp(amp)
        m.time_grid(grid * 1e-9)
        m.sampling_rate(rate)
    names = [qubits] if isinstance(qubits, str) else list(qubits)
    mine = {n: sets["absc".index(n)] for n in names}
    same = len({x[1:] for x in mine.values()}) == 1
    b = gate_body(body, wrap)

    def go(*comps):
        s = Schedule("s")
        for c in comps:
            s.add(c)
        before = repr(s.data)
        out = []
        x = SerialCompiler("c").compile(s, qd.generate_compilation_config())
        if repr(s.data) != before:
            raise Violation("input-altered", "the schedule handed in was changed")
        walk(x, 0, out)
        return sorted(o[:5] for o in out)
    g = PulseCompensation(b, qubits=qubits)
    try:
        got = go(g, LoopOperation(body=g, repetitions=2))
    except ValueError as e:
        if same:
            raise Violation("rejects-valid", f"{e}") from None
        return R("refused", 1, 1, 1, str(e)[:60])
    if not same:
        raise Violation("accepted", f"elements with different settings {mine}")
    (_, grid, rate) = mine[names[0]]
    e = PulseCompensation(b, max_compensation_amp={GPORT[n]: x[0] for n, x in mine.items()}, time_grid=grid * 1e-9, sampling_rate=rate)
    want = go(e, LoopOperation(body=e, repetitions=2))
    if got != want:
        d = [x for x in got if x not in want], [x for x in want if x not in got]
        raise Violation("other-settings", f"with the elements named: {d[0][:2]}, with their settings written out: {d[1][:2]}")
    return R("gate", len(got), len(body), 2, tuple(got))


def run_mixed(case):
    """Elements and settings at once are refused."""
    from quantify_scheduler.operations.gate_library import X
    from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
    kw = dict(case)
    try:
        PulseCompensation(X("a"), qubits=["a"], **kw)
    except ValueError:
        return R("refused", 1, 1, 1)
    if kw:
        raise Violation("accepted", f"elements together with {kw}")
    return R("gate", 1, 1, 1)


# ------------------------------------------------------------ shared and repeated objects
def run_shared(case):
    """The same block object used several times, or two blocks sharing a body object."""
    kind, lines, grid, body, lines2 = case
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
    from quantify_scheduler.operations.pulse_library import IdlePulse
    g = rg()
    g.use()
    s = Schedule("s")
    b = ref.build(list(body), name="body")

    def mk(ls, x):
        return PulseCompensation(x, max_compensation_amp={ref.pc(ln)[0]: a for ln, a in ls}, time_grid=grid * 1e-9, sampling_rate=1e9)
    n1, n2 = ("comp", lines, grid, list(body)), ("comp", lines2, grid, list(body))
    if kind == "same-object":
        k = mk(lines, b)
        for _ in range(2):
            s.add(k)
        items = [n1, n1]
    elif kind == "same-body":
        s.add(mk(lines, b))
        s.add(mk(lines2, b))
        items = [n1, n2]
    elif kind == "body-plain":
        s.add(mk(lines, b))
        s.add(b)
        s.add(mk(lines2, b))
        items = [n1, ("sub", list(body)), n2]
    elif kind == "plain-body":
        s.add(b)
        s.add(mk(lines2, b))
        items = [("sub", list(body)), n2]
    else:
        k = mk(lines, b)
        s.add(LoopOperation(body=k, repetitions=2))
        s.add(k)
        items = [("loop", 2, [n1]), n1]
    s.add(IdlePulse(8e-9))
    items.append(("idle", 8))
    before = repr(s.data)
    try:
        compiled = g.compile(s)
    except Exception as e:
        raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
    if repr(s.data) != before:
        raise Violation("input-altered", "the schedule handed in was changed")
    return sigcheck.compare(g, compiled, ref.flatten(items), ref.layout(items)[1], 1)


def main():
    ck = Check("C12", rule=NOTE, assumptions=["baseband pulses only on compensated ports", "times on the 1 ns grid"])
    N = ("num", "fl", (.1, -.2, .3, .05, .1, .1, .1, .1))
    P = [("sq", "fl", 20, .3), ("sq", "fl", 20, -.3), ("sq", "fl", 24, .1), ("sq", "fl", 40, .15), ("ramp", "fl", 20, .4, -.1), N, ("sq", "fl", 120, -.2)]
    Q = [("sq", "f2", 24, .2), ("sq", "f2", 32, -.05), ("sq", "iq", 20, .3)]
    LN = [(("fl", .5),), (("fl", .3),), (("fl", .1), ("f2", .3)), (("f2", .25), ("fl", 1.)), (("iq", .2),)]
    L5 = LN if THOROUGH else LN[:1] + LN[2:]
    GR = (4, 8, 20) if THOROUGH else (4, 8)
    # executed signals
    c = []
    bodies = [[p] for p in P + Q] + [[p, q] for p in P for q in P + Q] + [[("idle", 8), p, ("idle", 12)] for p in P + Q]
    bodies += [[p, (q, {"ref": 0, "pt": "start", "pt_new": "start", "rel": d})] for p in P[:4] for q in Q for d in (0, 8, 24)]
    bodies += [[("sub", [p, ("idle", 8)]), q] for p in P for q in (P + Q)[::2]] + [[("loop", 3, [p]), q] for p in P for q in (P + Q)[::2]]
    bodies += [[("multi", p, ("t0", 40, q)), ("idle", 4)] for p in P[:4] for q in P[:6] + Q]
    bodies += [[("t0", 12, p)] for p in P[:5]]
    for b in bodies:
        for ln in L5:
            for g in GR:
                c.append(((("comp", ln, g, b), ("idle", 8)), 1))
        ln = LN[2]
        c.append(((("comp", ln, 4, b), ("idle", 4), ("comp", LN[0], 4, b), ("sq", "fl", 20, .1), ("idle", 8)), 2))
        c.append(((("loop", 2, [("comp", ln, 4, b)]), ("idle", 4), ("sub", [("comp", ln, 4, b), ("idle", 4)]), ("idle", 8)), 1))
        c.append(((("loop", 2, [("comp", ln, 4, b)], "bare"), ("idle", 8)), 1))
        c.append(((("comp", ln, 4, [("sub", b)], "bare"), ("idle", 8)), 1))
        c.append(((("comp", ln, 4, [("loop", 2, b)], "bare"), ("idle", 8)), 1))
        c.append(((("comp", LN[0], 4, [("comp", ln, 4, b), ("sq", "fl", 20, .2), *b]), ("idle", 8)), 1))
        if len(b) == 1:
            c.append(((("comp", ln, 4, b, "bare"), ("idle", 8)), 1))
            c.append(((("comp", ln, 4, [("loop", 4, b, "bare")], "bare"), ("idle", 8)), 1))
    ck.explore(run_sig, c, label="signals")
    # exact, device level
    c = []
    amps = (.1, .15, .2, .3, -.1, .7, -.35)
    durs = (4, 7, 20, 24)
    for a in amps:
        for d in durs:
            for mx in (.1, .2, .3, .35, .7, 1.) + ((.05, .15, .6) if THOROUGH else ()):
                for g in (1, 3, 4, 8, 20):
                    c.append((((("fl", mx),), g, (("sq", "fl", d, a),), "bare"), "asap"))
                    c.append((((("fl", mx),), g, (("sq", "fl", d, a), ("sq", "fl", d, a), ("sq", "fl", 2 * d, a))), "asap"))
    for sgn in itertools.product(amps, repeat=3 if not THOROUGH else 4):
        c.append((((("fl", .3),), 4, tuple(("sq", "fl", 20, x) for x in sgn)), "asap"))
        c.append((((("fl", .3), ("f2", .1)), 4, (("loop", 7, [("sq", "fl", 20, sgn[0]), ("sq", "f2", 20, sgn[1])]), ("sq", "fl", 20, sgn[2]))), "asap"))
    kws = [{}, {"rel": 8}, {"pt": "start"}, {"ref": 0}, {"ref": 0, "pt": "start", "pt_new": "end"}, {"ref": 0, "pt": "center", "pt_new": "center"}]
    al = [("sq", "fl", 20, .3), ("sq", "f2", 40, .2), ("idle", 12), ("sub", [("sq", "fl", 8, .2), (("sq", "f2", 40, .1), {"pt": "start"})]),
          ("loop", 2, [("sq", "fl", 8, .1), (("sq", "f2", 12, .1), {"pt": "start"}), ("idle", 4)]), ("comp", (("fl", .2),), 4, [("sq", "fl", 12, .2), ("sq", "f2", 4, .1)])]
    for strat in ("asap", "alap"):
        for x, y in itertools.product(al, repeat=2):
            for k in kws:
                c.append((((("fl", .3), ("f2", .25)), 4, (x, (y, k))), strat))
                for z in al:
                    for k2 in kws:
                        c.append((((("fl", .3), ("f2", .25)), 4, (x, (y, k), (z, k2))), strat))
            c.append((((("fl", .3), ("f2", .25)), 4, (("loop", 2, [x, (y, {"pt": "start"})]),), "bare"), strat))
            c.append((((("fl", .3), ("f2", .25)), 4, (("sub", [x, (y, {"pt": "start"})]),), "bare"), strat))
    ck.explore(run_dev, c, label="device")
    # refusals
    c = []
    for strat in ("asap", "alap"):
        for off in (("off", "fl", .1, 0), ("multi", ("sq", "fl", 20, .1), ("off", "fl", .1, 0))):
            for w in ([off], [("sq", "fl", 20, .1), off, ("idle", 8)], [("sub", [off])], [("loop", 2, [off, ("idle", 8)])], [("loop", 2, [off], "bare")]):
                c.append(([("comp", LN[0], 4, w), ("idle", 8)], strat))
        for w in ([("sq", "fl", 20, .1)], [("sub", [("sq", "fl", 20, .1)])], [("loop", 2, [("sq", "fl", 20, .1)])]):
            for cond in ("cond",):
                c.append(([("comp", LN[0], 4, [(cond, "q0", w)]), ("idle", 8)], strat))
                c.append(([("comp", LN[0], 4, [("sq", "fl", 20, .2), (cond, "q0", w)]), ("idle", 8)], strat))
                c.append(([("comp", LN[0], 4, [("loop", 2, [(cond, "q0", w)])]), ("idle", 8)], strat))
    ck.explore(run_refuse, c, label="refuse")
    c = []
    for kind in ("same-object", "same-body", "body-plain", "plain-body", "loop"):
        for b in bodies[:40]:
            for l1 in LN[:4]:
                for l2 in (LN[0], LN[3]):
                    c.append((kind, l1, 4, tuple(b), l2))
    ck.explore(run_shared, c, label="shared")
    P = [("sq", "fl", 20, .3), ("sq", "fl", 400, -.1), ("ramp", "fl", 40, .5, -.1), ("num", "fl", (.1, -.2, .3, .4)), ("wf", "fl", "soft", 24, .4), ("wf", "fl", "snz", 8, 4, 10, .4, .5, .9),
         ("sq", "f2", 20, .5), ("sq", "mw", 20, .4), ("multi", ("sq", "fl", 20, .1), ("t0", 20, ("sq", "f2", 12, .2))), ("t0", 12, ("sq", "fl", 8, -.75)), ("idle", 8)]
    K = [{"amp": .5}, {"amp": -.25}, {"duration": 100e-9}, {"duration": 2.5e-8, "t0": 8e-9}, {"amp": .1, "t0": 1e-6}, {}, {"amp": .1, "duration": 4e-9}, {"duration": 0.}, {"duration": -1e-9}]
    c = [(w, line, kw) for n in range(4) for w in itertools.product(P, repeat=n) for line in ("fl", "f2") for kw in (K if n < 3 else K[:3])]
    ck.explore(run_pulse, c, label="pulse")
    B = [("a:mw", 20, .3), ("b:mw", 40, -.2), ("s:mw", 24, .1), ("c:gt", 8, -.5), ("X", 0, 0)]
    eq = [((.1, 4, 1e9), (.3, 4, 1e9), (.25, 4, 1e9), (1., 4, 1e9)), ((.6, 8, 1e9), (.2, 8, 1e9), (.5, 8, 1e9), (.05, 8, 1e9))]
    ne = [((.1, 4, 1e9), (.3, 8, 1e9), (.2, 4, 1e9), (.2, 8, 1e9)), ((.1, 4, 1e9), (.3, 4, 2e9), (.2, 4, 2e9), (.2, 4, 1e9))]
    sub = [q for n in (1, 2, 3, 4) for q in itertools.permutations("absc", n)]
    c = [(list(q), w, wrap, st, strat) for q in sub for w in ([(x,) for x in B[:4]] + list(itertools.combinations(B, 2)) + [tuple(B), tuple(B[::-1])])
         for wrap in ("plain", "loop", "sub") for st in (eq if wrap == "plain" or THOROUGH else eq[:1]) for strat in (("asap", "alap") if THOROUGH else ("asap",))]
    c += [(list(q), tuple(B[:4]), wrap, st, "asap") for q in sub for wrap in ("plain", "loop", "sub") for st in ne]
    c += [(q, tuple(B), wrap, eq[0], strat) for q in "absc" for wrap in ("plain", "loop", "sub") for strat in ("asap", "alap")]
    ck.explore(run_gate, c, label="gate")
    K = [("max_compensation_amp", {"a:mw": .1}), ("time_grid", 4e-9), ("sampling_rate", 1e9)]
    ck.explore(run_mixed, [k for n in range(4) for k in itertools.combinations(K, n)], label="mixed")
    ck.finish(("ok", "compensated", "balanced", "refused"))


if __name__ == "__main__":
    main()
