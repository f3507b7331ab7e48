"""C15: the frequency that leaves an output is the frequency of the clock."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import copy
import math
from lib import q1, ref  # noqa: E402
from lib.rig import CT, execute  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of hardware configurations (module type x LO / IF / down-converter settings x clocks sharing an output or an "
             "external LO) and of frequency-change histories; each compiled result (module, sequencer and LO settings, executed set_freq instructions) is "
             "checked against the equation f_out = f_LO + f_NCO")
NOTE = ("Every way to specify or leave out LO and IF for one port-clock, for two port-clocks on one output in both orders, for two outputs, for one external LO "
        "feeding two mixers, and every sequence of frequency changes up to 3. Determined and consistent: must be accepted and hold; contradictory or "
        "under-determined: refused; determined only through another port-clock: either, but never wrong.")
G = 1e9
OUT = {"QCM": 2, "QRM": 1, "QCM_RF": 2, "QRM_RF": 1, "QRC": 2}
NAN = float("nan")


def compile_(hw, pulses, clocks, sched=None):
    from quantify_scheduler import ClockResource, Schedule
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
    from quantify_scheduler.operations import pulse_library as pl
    QuantumDevice.close_all()
    qd = QuantumDevice("dut")
    qd.hardware_config(copy.deepcopy(hw))
    cfg = qd.generate_compilation_config()
    qd.close()
    if sched is None:
        sched = Schedule("s")
        for c, f in clocks.items():
            sched.add_resource(ClockResource(c, f))
        for port, clock, amp in pulses:
            sched.add(pl.SquarePulse(amp=amp, duration=20e-9, port=port, clock=clock))
    return SerialCompiler("c").compile(sched, cfg)


def hardware(modules, graph, mf, los=(), **opts):
    hd = {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {str(k): v for k, v in modules.items()}}}
    for n in los:
        hd[n] = {"instrument_type": "IQMixer"} if n.startswith("iq") else {"instrument_type": "LocalOscillator", "power": 1}
    d = {}
    for pc, (lo, i) in mf.items():
        e = {}
        if lo != "absent":
            e["lo_freq"] = lo
        if i != "absent":
            e["interm_freq"] = i
        if e or "absent" not in (lo, i):
            d[pc] = e
    return {"config_type": CT, "hardware_description": hd, "hardware_options": {"modulation_frequencies": d, **opts},
            "connectivity": {"graph": graph}}


def seqs(comp):
    """(slot, channel, largest played amplitude) -> (module settings, sequencer settings)"""
    out = []
    for mod, m in comp.compiled_instructions["cluster0"].items():
        if isinstance(m, dict) and "sequencers" in m:
            for s in m["sequencers"].values():
                r = execute(s)
                a, b = r.render(0, 400)
                out.append((int(mod.rsplit("module", 1)[1]), s.channel_name, round(float(max(abs(a).max(), abs(b).max())), 2), m["settings"], s, r))
    return out


def find(comp, slot, channel, amp):
    l = [x for x in seqs(comp) if x[:2] == (slot, channel) and abs(x[2] - amp) < .011]
    if len(l) != 1:
        raise Violation("no-sequencer", f"{len(l)} sequencers for module {slot} {channel} amplitude {amp}: {[x[:3] for x in seqs(comp)]}")
    return l[0]


def ext_lo(comp, name):
    d = comp.compiled_instructions.get("generic", {})
    k = [v for kk, v in d.items() if kk == f"{name}.frequency"]
    return k[0] if k else None


def lo_of(comp, x, ext, kind):
    if ext:
        return ext_lo(comp, ext)
    o = int(x[1].rsplit("_", 1)[1])
    return getattr(x[3], f"lo{o}_freq", None) if "RF" in kind or kind == "QRC" else None


def none(v):
    return v in ("absent", None) or (isinstance(v, float) and math.isnan(v))


def near(a, b):
    return a is not None and b is not None and math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-3)


def target(f, dc, downconverts):
    """Frequency at the cluster output (before the custom down-converter)."""
    if downconverts and dc not in (None, 0):
        if dc < 0 or dc < f:
            return None
        return dc - f
    return f


def solve(lines):
    """lines: [(target, lo, if)] on one LO -> (verdict, lo, [if...]).

    verdict: ok (each line determined by the LO given, or its own IF), late (needs another
    line's IF to know the LO), bad (contradiction or nothing known).
    """
    if any(t is None for t, _, _ in lines):
        return "bad", None, None
    los = [l for _, l, _ in lines if not none(l)]
    if any(not near(los[0], l) for l in los):
        return "bad", None, None
    verdict = "ok"
    if los:
        lo = los[0]
        if none(lines[0][1]):
            verdict = "late" if none(lines[0][2]) else "ok"
    else:
        der = [t - i for t, _, i in lines if not none(i)]
        if not der or any(not near(der[0], d) for d in der):
            return "bad", None, None
        lo = der[0]
        if any(none(i) for _, _, i in lines):
            verdict = "late"
    ifs = [t - lo for t, _, _ in lines]
    for (t, _, i), f in zip(lines, ifs):
        if not none(i) and not math.isclose(lo + i, t, rel_tol=1e-9):
            return "bad", None, None
    return verdict, lo, ifs


def judge(case, verdict, err, comp):
    if comp is None:
        if not isinstance(err, (ValueError, KeyError)):
            raise Violation("crash", f"{type(err).__name__}: {err}")
        if verdict == "ok":
            raise Violation("rejects-valid", f"{type(err).__name__}: {err}")
        return R(f"refused-{verdict}", distinct=str(case))
    if verdict == "bad":
        raise Violation("accepts-contradiction", "frequencies that cannot be met are accepted")
    return None


# ---------------------------------------------------------------- spaces
def setup(kind, n, dcs, mixes, mf_of, extra=None):
    """One module of the given kind with n outputs used; kind 'X+lo': baseband with a mixer."""
    mt = kind.split("+")[0]
    ext = "+lo" in kind
    mod = {"instrument_type": mt}
    graph, los = [], []
    for o in range(n):
        ch = f"complex_output_{o}"
        d = {}
        if dcs[o] != "absent":
            d["downconverter_freq"] = dcs[o]
        if mixes[o] != "absent":
            d["mix_lo"] = mixes[o]
        if d:
            mod[ch] = d
        if ext:
            lo = "lo0" if "+lo1" in kind else f"lo{o}"
            for x in (lo, f"iq{o}"):
                if x not in los:
                    los.append(x)
            graph += [[f"cluster0.module1.{ch}", f"iq{o}.if"], [f"{lo}.output", f"iq{o}.lo"], [f"iq{o}.rf", f"q{o}:p"]]
        else:
            graph.append([f"cluster0.module1.{ch}", f"q{o}:p"])
    return hardware({1: mod}, graph, mf_of, los)


def run_one(case):
    kind, lo, i, dc, mix, f = case
    hw = setup(kind, 1, [dc], [mix], {"q0:p-c": (lo, i)})
    rf, ext = "RF" in kind or kind == "QRC", "+lo" in kind
    try:
        comp, err = compile_(hw, [("q0:p", "c", .3)], {"c": f}), None
    except Exception as e:  # noqa: BLE001
        comp, err = None, e
    t = target(f, None if dc == "absent" else dc, rf or ext)
    mixing = rf or mix in ("absent", True)
    if rf or ext:
        if mixing:
            v, wlo, wif = solve([(t, lo, i)])
        elif t is None or none(i) or (not none(lo) and not near(lo, t)):
            v = "bad"
        else:
            v, wlo, wif = "ok", t, [i]
    else:
        # the NCO supplies the whole frequency
        wlo = None
        if i == 0:
            v, wif = "ok", [0]
        elif not none(i) and not near(i, f):
            v = "bad"
        else:
            v, wif = "ok", [f]
    if dc == 0 and (rf or ext) and comp is None and isinstance(err, ValueError):
        return R("refused-zero")     # "to unset, use null"
    if v != "bad" and abs(wif[0]) > 500e6:
        # out of the range of the NCO; nothing is promised before the hardware sees it
        return R("nco-range")
    r = judge(case, v, err, comp)
    if r:
        return r
    x = find(comp, 1, "complex_output_0", .3)
    glo = lo_of(comp, x, "lo0" if ext else None, kind)
    gif = x[4].modulation_freq
    if (glo is None) != (wlo is None) or wlo is not None and not near(glo, wlo):
        raise Violation("lo", f"LO {glo} instead of {wlo}")
    if i == 0 and not rf:
        if x[4].nco_en and gif:
            raise Violation("nco-not-disabled", f"modulation_freq {gif}")
        if ext and gif is not None and not near(gif, wif[0]):
            raise Violation("if", f"{gif} instead of {wif[0]}")
    else:
        if gif is None or not near(gif, wif[0]) or not x[4].nco_en and abs(wif[0]) > 1e-3:
            raise Violation("if", f"IF {gif} (NCO {x[4].nco_en}) instead of {wif[0]}")
    return R("ok", 2, 2, 1, (kind, glo, gif, x[4].nco_en))


def run_two(case):
    """Two port-clocks on one output (same) or two outputs on one external LO (shared)."""
    kind, how, (lo1, i1), (lo2, i2), f1, f2, dc, order = case
    ext = "+lo" in kind
    if how == "same":
        mf = {"q0:p-c1": (lo1, i1), "q0:p-c2": (lo2, i2)}
        hw = setup(kind, 1, [dc], ["absent"], mf)
        p = [("q0:p", "c1", .3), ("q0:p", "c2", .5)]
        at = [(1, "complex_output_0"), (1, "complex_output_0")]
        los = ["lo0", "lo0"]
    else:
        mf = {"q0:p-c1": (lo1, i1), "q1:p-c2": (lo2, i2)}
        hw = setup(kind, 2, [dc, "absent"], ["absent", "absent"], mf)
        p = [("q0:p", "c1", .3), ("q1:p", "c2", .5)]
        at = [(1, "complex_output_0"), (1, "complex_output_1")]
        los = ["lo0", "lo0" if how in ("shared", "cross") else "lo1"]
        if how == "cross":      # on another module
            hw["hardware_description"]["cluster0"]["modules"]["2"] = {"instrument_type": "QRM"}
            g = hw["connectivity"]["graph"]
            hw["connectivity"]["graph"] = [[a.replace("module1.complex_output_1", "module2.complex_output_0"), b] for a, b in g]
            if order & 1:
                hw["connectivity"]["graph"].reverse()
            at[1] = (2, "complex_output_0")
    m = hw["hardware_options"]["modulation_frequencies"]
    if order & 1:
        p.reverse()
    if order & 2:
        hw["hardware_options"]["modulation_frequencies"] = dict(reversed(list(m.items())))
    d = None if dc == "absent" else dc
    ts = [target(f1, d, True), target(f2, d if how == "same" else None, True)]
    try:
        comp, err = compile_(hw, p, {"c1": f1, "c2": f2}), None
    except Exception as e:  # noqa: BLE001
        comp, err = None, e
    ls = [(ts[0], lo1, i1), (ts[1], lo2, i2)]
    if how == "apart":
        r1, r2 = solve(ls[:1]), solve(ls[1:])
        v = "bad" if "bad" in (r1[0], r2[0]) else "ok"
        wlo = [r1[1], r2[1]]
        wif = [r[2] and r[2][0] for r in (r1, r2)]
    else:
        v, l, wif = solve(ls)
        if v == "late" or solve(ls[::-1])[0] == "late":
            v = "late"
        wlo = [l, l]
    if v != "bad" and max(map(abs, wif)) > 500e6:
        return R("nco-range")
    r = judge(case, v, err, comp)
    if r:
        return r
    for k in (0, 1):
        x = find(comp, *at[k], (.3, .5)[k])
        glo, gif = lo_of(comp, x, los[k] if ext else None, kind), x[4].modulation_freq
        if not near(glo, wlo[k]) or gif is None or not near(gif, wif[k]) or not x[4].nco_en and abs(wif[k]) > 1e-3:
            raise Violation("two", f"line {k + 1}: LO {glo} IF {gif} NCO {x[4].nco_en}, wanted LO {wlo[k]} IF {wif[k]}")
    return R("ok", 4, 2, 1, (kind, how, str(wlo), str(wif)))


def run_hist(case):
    """Frequency changes during the schedule."""
    kind, dc, spec, ops, two, reps, nest = case
    from quantify_scheduler import ClockResource, Schedule
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    rf, ext = kind.split("+")[0] in ("QCM_RF", "QRM_RF", "QRC"), "+lo" in kind
    f0 = 4.0 * G if rf or ext else 0.1 * G
    t = target(f0, None if dc == "absent" else dc, rf or ext)
    lo, i = (t - 60e6, "absent") if spec == "lo" else ("absent", 60e6)
    mf = {"q0:p-c": (lo, i)} if rf or ext else {}
    n = 1
    ports = [("q0:p", .3)]
    if two:
        # the same clock on a second output with another IF
        n = 2
        ports.append(("q1:p", .5))
        if rf or ext:
            mf["q1:p-c"] = (f0 + 90e6, "absent")
    hw = setup(kind, n, [dc, "absent"], ["absent"] * 2, mf)
    sched = Schedule("s", repetitions=reps)
    sched.add_resource(ClockResource("c", f0))
    inner = Schedule("i") if nest else sched
    if nest == "res":
        inner.add_resource(ClockResource("c", f0))
    want, cur = [], f0
    for port, a in ports:
        inner.add(pl.SquarePulse(amp=a, duration=20e-9, port=port, clock="c"))
    for o in ops:
        cur = f0 if o is None else f0 + o
        want.append(cur)
        inner.add(pl.SetClockFrequency(clock="c", clock_freq_new=None if o is None else cur))
        inner.add(pl.SquarePulse(amp=.1, duration=20e-9, port="q0:p", clock="c"))
        if two:
            inner.add(pl.SquarePulse(amp=.1, duration=20e-9, port="q1:p", clock="c"))
    if nest:
        sched.add(LoopOperation(body=inner, repetitions=2) if nest == "loop" else inner)
        if nest == "loop":
            want = want * 2
    try:
        comp = compile_(hw, None, None, sched)
    except Exception as e:  # noqa: BLE001
        raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
    sig = []
    for k, (port, a) in enumerate(ports):
        x = find(comp, 1, f"complex_output_{k}", a)
        glo = lo_of(comp, x, f"lo{k}" if ext else None, kind)
        base = 0 if glo is None else glo
        freqs = [e[2] / 4 for e in x[5].tr.events if e[1] == "freq"]
        d = None if dc == "absent" or k else dc
        w = [target(f, d, rf or ext) for f in want] * reps
        if not near(base + x[4].modulation_freq, target(f0, d, rf or ext)):
            raise Violation("initial", f"{port}: {base} + {x[4].modulation_freq}")
        if len(freqs) != len(w) or any(abs(base + f - g) > .26 for f, g in zip(freqs, w)):
            raise Violation("set-clock-frequency", f"{port}: LO {base}, NCO set to {freqs}: output {[base + f for f in freqs]} instead of {w}")
        sig.append(tuple(freqs))
    return R("ok", len(want) + 1, len(want), 1, (kind, dc, tuple(sig)))


def run_res(case):
    """Where the clock frequency is declared."""
    kind, decl, shape = case
    from quantify_scheduler import ClockResource, Schedule
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    f0, f1 = 4.0 * G, 4.02 * G
    hw = setup(kind, 1, ["absent"], ["absent"], {"q0:p-c": (3.95 * G, "absent")})
    outer, inner = Schedule("o"), Schedule("i")
    use = inner if shape != "flat" else outer
    what = {"outer": (f0, None), "inner": (None, f0), "both": (f0, f0), "differ": (f0, f1), "none": (None, None)}[decl]
    if shape == "flat" and decl not in ("outer", "none"):
        return R("n/a")
    if what[0]:
        outer.add_resource(ClockResource("c", what[0]))
    if what[1]:
        inner.add_resource(ClockResource("c", what[1]))
    use.add(pl.SquarePulse(amp=.3, duration=20e-9, port="q0:p", clock="c"))
    use.add(pl.SetClockFrequency(clock="c", clock_freq_new=f0 + 1e6))
    use.add(pl.SquarePulse(amp=.3, duration=20e-9, port="q0:p", clock="c"))
    if shape == "sub":
        outer.add(inner)
    elif shape == "loop":
        outer.add(LoopOperation(body=inner, repetitions=2))
    elif shape == "deep":
        mid = Schedule("m")
        mid.add(inner)
        outer.add(mid)
    elif shape == "subs":
        outer.add(inner)
        outer.add(pl.SquarePulse(amp=.3, duration=20e-9, port="q0:p", clock="c"))
    try:
        comp = compile_(hw, None, None, outer)
    except Exception as e:  # noqa: BLE001
        if decl in ("none", "differ") or shape == "subs" and decl == "inner":
            return R("refused")
        raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
    if decl in ("none", "differ"):
        raise Violation("clock-undeclared", f"declared {decl}: accepted")
    x = find(comp, 1, "complex_output_0", .3)
    glo, gif = lo_of(comp, x, "lo0" if "+lo" in kind else None, kind), x[4].modulation_freq
    fr = [e[2] / 4 for e in x[5].tr.events if e[1] == "freq"]
    if glo is None or gif is None or not near(glo + gif, f0) or any(abs(glo + f - f0 - 1e6) > .26 for f in fr) or not fr:
        raise Violation("resource", f"LO {glo} IF {gif} set {fr}")
    return R("ok", 2, 2, 1, (case, glo, gif))


def run_readout(case):
    """A readout line: output (through a mixer or not) and input, edges in every order."""
    mt, lo, edges, spec, dc = case
    from quantify_scheduler import ClockResource, Schedule
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.acquisition_library import SSBIntegrationComplex
    ext = "+lo" in mt
    f = 6 * G
    t = f if dc is None else dc - f
    g = [["cluster0.module1.complex_output_0", "iq0.if"], ["lo0.output", "iq0.lo"], ["iq0.rf", "q0:p"]] if ext else [["cluster0.module1.complex_output_0", "q0:p"]]
    g += [["cluster0.module1.complex_input_0", "q0:p"]]
    g = [g[k] for k in edges]
    m = {"instrument_type": mt.split("+")[0]}
    if dc is not None:
        m["complex_output_0"] = {"downconverter_freq": dc}
    hw = hardware({1: m}, g, {"q0:p-c": (t - 70e6, "absent") if spec == "lo" else ("absent", 70e6)},
                  ["lo0", "iq0"] if ext else [])
    s = Schedule("s")
    s.add_resource(ClockResource("c", f))
    s.add(pl.SquarePulse(amp=.3, duration=100e-9, port="q0:p", clock="c"))
    s.add(SSBIntegrationComplex(port="q0:p", clock="c", duration=100e-9))
    try:
        comp = compile_(hw, None, None, s)
    except Exception as e:
        raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
    x = seqs(comp)
    if len(x) != 1:
        raise Violation("readout", f"{len(x)} sequencers")
    x = x[0]
    glo, st = lo_of(comp, x, "lo0" if ext else None, mt), x[4]
    if abs(x[2] - .3) > .01 or st.connected_output_indices != (0, 1) or st.connected_input_indices != (0, 1):
        raise Violation("readout-connections", f"plays {x[2]}, outputs {st.connected_output_indices}, inputs {st.connected_input_indices}")
    if not near(glo, t - 70e6) or not near(st.modulation_freq, 70e6) or not st.nco_en:
        raise Violation("readout-frequency", f"LO {glo} IF {st.modulation_freq}")
    return R("ok", 2, 1, 1, (mt, edges, glo))


def run_input(case):
    """A port that is only connected to an input, alone or next to a driven output."""
    mt, chan, spec, beside = case
    from quantify_scheduler import ClockResource, Schedule
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.acquisition_library import SSBIntegrationComplex
    f = .1 * G if mt == "QRM" else 6 * G
    g = [[f"cluster0.module1.{chan}", "q0:in"]]
    mf = {"q0:in-c": ("absent", f)} if mt == "QRM" else {"q0:in-c": (f - 70e6, "absent") if spec == "lo" else ("absent", 70e6)}
    if beside:
        g.append([f"cluster0.module1.{chan.replace('input', 'output')}", "q0:out"])
        if mt != "QRM":
            mf["q0:out-d"] = (f - 70e6, "absent")
    s = Schedule("s")
    s.add_resource(ClockResource("c", f))
    s.add_resource(ClockResource("d", f + 10e6))
    if beside:
        s.add(pl.SquarePulse(amp=.3, duration=100e-9, port="q0:out", clock="d"))
    s.add(SSBIntegrationComplex(port="q0:in", clock="c", duration=100e-9))
    try:
        comp = compile_(hardware({1: {"instrument_type": mt}}, g, mf), None, None, s)
    except Exception as e:
        raise Violation("input-refused", f"{type(e).__name__}: {e}") from None
    mod = comp.compiled_instructions["cluster0"]["cluster0_module1"]
    mine = [q for q in mod["sequencers"].values() if q.channel_name == chan]
    if len(mine) != 1:
        raise Violation("input-sequencers", str(len(mine)))
    lo = 0 if mt == "QRM" else getattr(mod["settings"], f"lo{chan[-1]}_freq")
    nco = mine[0].modulation_freq if mine[0].nco_en else None
    if lo is None or nco is None or not near(lo + nco, f):
        key = "input-only-not-demodulated" if lo is None or nco is None else "input-frequency"
        raise Violation(key, f"{mt} {chan} given by {spec}: LO {lo}, NCO {nco}, clock {f}")
    return R("ok", 2, 1, 1, case)


def main():
    ck = Check("C15", rule=NOTE, assumptions=["f_out = f_LO + f_NCO; a custom down-converter gives f_out = f_dc - f_in",
                                              "relative tolerance 1e-9; NCO resolution 0.25 Hz"])
    absent = "absent"
    c = []
    for kind, f in (("QCM", .1 * G), ("QRM", .1 * G), ("QCM", .3 * G), ("QCM+lo", 4 * G), ("QRM+lo", 4 * G), ("QCM_RF", 4 * G), ("QRM_RF", 4 * G), ("QRC", 4 * G)):
        dcs = (absent, None, 0, 1e9, 10e9, -1e9)
        for dc in dcs:
            t = 10e9 - f if dc == 10e9 and not (kind in ("QCM", "QRM")) else f
            los = (absent, None, NAN, t - 50e6, t + 120e6, t, t - 50e6 + 1e3)
            ifs = (absent, None, NAN, 50e6, -120e6, 0, 51e6, f)
            mixes = (absent, True, False)
            for lo in los:
                for i in ifs:
                    for mix in mixes:
                        c.append((kind, lo, i, dc, mix, f))
    ck.explore(run_one, c, label="one")
    c = []
    for kind, how in (("QCM_RF", "same"), ("QRM_RF", "same"), ("QRC", "same"), ("QCM+lo", "same"), ("QRM+lo", "same"),
                      ("QCM_RF", "apart"), ("QRC", "apart"), ("QCM+lo", "apart"), ("QCM+lo1", "shared"), ("QCM+lo1", "cross")):
        f1, f2 = 4 * G, 4.1 * G
        for dc in (absent, 10e9):
            # values that may agree on one LO
            t1 = f1 if dc == absent else 10e9 - f1
            t2 = f2 if dc == absent or how != "same" else 10e9 - f2
            o1 = [(l, i) for l in (absent, t1 - 50e6, t1 - 30e6) for i in (absent, 50e6, 70e6)]
            o2 = [(l, i) for l in (absent, t1 - 50e6, t1 - 30e6, t2 - 80e6) for i in (absent, t2 - t1 + 50e6, 80e6)]
            for a in o1:
                for b in o2 + [(t1 - 50e6 + x, i) for x in (1e3, 1e6) for i in (absent, t2 - t1 + 50e6, t2 - t1 + 50e6 - x)] + [
                        (absent, t2 - t1 + 50e6 + x) for x in (1e3, -1e6)]:
                    for order in range(4):
                        c.append((kind, how, a, b, f1, f2, dc, order))
    ck.explore(run_two, c, label="two")
    c = []
    vals = (None, 0., 30e6, -45e6, 0.25, 12345.5)
    for kind in ("QCM", "QRM", "QCM+lo", "QCM_RF", "QRM_RF", "QRC"):
        for dc in (absent, 10e9):
            for spec in ("lo", "if") if kind not in ("QCM", "QRM") else ("if",):
                for n in (1, 2) if not THOROUGH else (1, 2, 3):
                    for ops in itertools.product(vals if n < 3 else vals[:4], repeat=n):
                        for two in (False, True) if OUT[kind.split("+")[0]] > 1 else (False,):
                            for reps in (1, 2):
                                for nest in ("", "sub", "res", "loop"):
                                    if nest in ("sub", "loop", "res") and n > 1 and not THOROUGH and (two or reps > 1):
                                        continue
                                    c.append((kind, dc, spec, ops, two, reps, nest))
    ck.explore(run_hist, c, label="history")
    c = [(k, d, s) for k in ("QCM_RF", "QRM_RF", "QRC", "QCM+lo") for d in ("outer", "inner", "both", "differ", "none")
         for s in ("flat", "sub", "loop", "deep", "subs")]
    ck.explore(run_res, c, label="resources")
    c = []
    for mt in ("QRM_RF", "QRC", "QRM+lo"):
        for edges in itertools.permutations(range(4 if "+lo" in mt else 2)):
            for spec in ("lo", "if"):
                for dc in (None, 13e9):
                    c.append((mt, None, edges, spec, dc))
    ck.explore(run_readout, c, label="readout")
    ck.explore(run_input, [(mt, ch, spec, b) for mt, chs in (("QRM", ("complex_input_0",)), ("QRM_RF", ("complex_input_0",)),
                                                            ("QRC", ("complex_input_0", "complex_input_1")))
                           for ch in chs for spec in ("lo", "if") for b in (False, True)], label="inputs")
    ck.finish(require_outcomes=("one:ok", "two:ok", "history:ok", "two:refused-bad"))


if __name__ == "__main__":
    main()
