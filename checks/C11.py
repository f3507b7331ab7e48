"""C11: the automatic RF switch is on around every microwave pulse."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import numpy as np
from lib import q1, ref, rig, rigs, sigcheck  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of schedules; the programs emitted by the real compiler are executed by a Q1ASM interpreter and "
             "the state of every RF switch and every output signal compared with the reference at all times")
NOTE = ("All bounded schedules of pulses, stitched pulses and voltage offsets on two RF outputs (one with two clocks), at all gaps around twice "
        "the buffer, for several buffers, in sub-schedules, loops (schedule and bare bodies) and next to other operations. Windows are recomputed "
        "from the schedule's meaning; a loop counts as one pulse lasting as long as the loop.")
BIT = {"mw": (3, 1), "m2": (3, 1), "rw": (3, 2), "sw": (4, 2)}
RIGS = {}


def rig_for(buf):
    if buf not in RIGS:
        RIGS[buf] = rigs.Rig(
            {1: "QCM", 3: {"instrument_type": "QCM_RF", "rf_output_on": False}, 4: {"instrument_type": "QRM_RF", "rf_output_on": False}},
            [("cluster0.module1.real_output_2", "q:fl"), ("cluster0.module3.complex_output_0", "q:mw"),
             ("cluster0.module3.complex_output_1", "r:mw"), ("cluster0.module4.complex_output_0", "s:mw")],
            {"fl": ("q:fl", "cl0.baseband", 1, "real_output_2", True, None),
             "mw": ("q:mw", "q.01", 3, "complex_output_0", False, 50e6),
             "m2": ("q:mw", "q.12", 3, "complex_output_0", False, -50e6),
             "rw": ("r:mw", "r.01", 3, "complex_output_1", False, 60e6),
             "sw": ("s:mw", "q.ro", 4, "complex_output_0", False, 100e6)},
            clocks=[("q.01", 5e9), ("q.12", 4.9e9), ("r.01", 5.2e9), ("q.ro", 7e9)],
            compiler_options={"auto_rf_switch": True, "auto_rf_switch_ramp_buffer": buf * 1e-9})
    return RIGS[buf]


def pieces(items, t=0):
    """(line, start, end) of everything the switch has to cover; voltage-offset events (line, time, on)."""
    pulses, events = [], []
    for st, node in ref.layout(items)[0]:
        a = t + round(st)
        k = node[0]
        if k == "sub":
            p, e = pieces(node[1], a)
            pulses += p
            events += e
        elif k == "loop":
            p, e = pieces(node[2], a)
            d = ref.duration(node)
            for ln in {x[0] for x in p} | {x[0] for x in e if x[2]}:
                pulses.append((ln, a, a + d))
            last = {}
            for ln, time, on in sorted(e, key=lambda x: x[1]):
                last[ln] = on
            events += [(ln, a + d, on) for ln, on in last.items()]
        else:
            eff = []
            ref.effects_op(node, a, eff, ())
            for e in eff:
                if e[1] == "wave" and e[2] in BIT:
                    pulses.append((e[2], e[0], e[0] + len(e[3])))
                elif e[1] == "off" and e[2] in BIT:
                    events.append((e[2], e[0], e[3] != 0))
    return pulses, events


def windows(items, buf, T):
    pulses, events = pieces(items)
    for ln in BIT:
        start = None
        for _, t, on in sorted((e for e in events if e[0] == ln), key=lambda x: x[1]):
            if on and start is None:
                start = t
            elif not on and start is not None:
                pulses.append((ln, start, t))
                start = None
        if start is not None:
            return None      # never ends
    out = {}
    for ln in BIT:
        cur = []
        for _, a, b in sorted(p for p in pulses if p[0] == ln):
            if cur and a - cur[-1][1] <= 2 * buf:
                cur[-1][1] = max(cur[-1][1], b)
            else:
                cur.append([a, b])
        out[ln] = [(max(0, a - buf), b + buf) for a, b in cur]
    return out


def run(case):
    buf, items, reps, must = case
    items = list(items)
    rg = rig_for(buf)
    rg.use()
    eff = ref.flatten(items)
    T = ref.layout(items)[1]
    win = windows(items, buf, T)
    try:
        compiled = rg.compile(ref.build(items, repetitions=reps, clocks=rg.clocks))
    except Exception as e:
        if must and (buf or "t0" not in repr(items)) and win and acceptable(win, eff, T):
            raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
        return R("rejected:" + type(e).__name__)
    r = sigcheck.compare(rg, compiled, eff, T, reps)
    if win is None:
        return R("window never closed")
    runs = {}
    for s, lst in rg.sequencers(compiled).items():
        runs[s] = rig.execute(lst[0][2])
    period, t0 = T + 4, 12
    for s, (mod, bit) in BIT.items():
        mine = [x for x in runs if rg.lines[x][2] == mod]
        w = [(t0 + k * period + a, t0 + k * period + b) for k in range(reps)
             for x in BIT if BIT[x] == (mod, bit) for a, b in win[x]]
        st = {m: [(0, 0)] + [(e[0], e[2]) for e in runs[m].tr.events if e[1] == "mrk"] for m in mine}
        pts = sorted({p + d for a, b in w for p in (a, b) for d in (-1, 0, 1)} | {0} | {x for m in mine for x, _ in st[m]})
        if w and not mine:
            raise Violation("line-missing", s)
        for p in pts:
            want = any(a <= p < b for a, b in w)
            got = any([v for x, v in st[m] if x <= p][-1] & bit for m in mine if p >= 0)
            if want != got:
                raise Violation("switch", f"switch of {rg.lines[s][0]} at {p - t0} ns: {'on' if got else 'off'}, should be {'on' if want else 'off'}; "
                                f"windows {[(a - t0, b - t0) for a, b in w]}")
    return r


def acceptable(win, eff, T):
    """Every toggle has its 4 ns, away from other operations of its sequencer, within the schedule."""
    for ln, ws in win.items():
        edges = [x for w in ws for x in w]
        times = sorted({*edges} | {e[0] for e in eff if e[2] == ln and e[1] in ("wave", "off")})
        if any(b - a < 4 for a, b in zip(times, times[1:])) or any(x > T - 4 for x in edges):
            return False
    return True


def dedup(c):
    return list({repr(x): x for x in c}.values())


def main():
    ck = Check("C11", rule=NOTE, assumptions=["the switch of an output with several sequencers is on if any of them turns it on",
                                              "windows that need toggles less than 4 ns from another operation, or beyond the end, may be refused"])
    lead, tail = ("idle", 240), ("idle", 240)
    P = {ln: [("sq", ln, 20, .2), ("sq", ln, 120, .1), ("drag", ln, 40, .2, .1, 40), ("lramp", ln, 600, .3, .1, 200), ("ramp", ln, 24, .2, .1), ("lsq", ln, 60, .2)]
         for ln in BIT}
    st = [("sub", [("off", "mw", .1, 0), ("idle", n), ("off", "mw", 0, 0), ("sq", "mw", 8, .1)]) for n in (4, 40, 200)]
    st += [("sub", [("off", "mw", .1, 0), ("idle", 20), ("off", "mw", .2, .1), ("idle", 20), ("off", "mw", 0, 0), ("idle", 4)])]
    st += [("t0", 40, ("sq", "mw", 20, .1)), ("multi", ("sq", "mw", 20, .2), ("t0", 100, ("sq", "mw", 20, .1)))]
    gaps = lambda b: sorted({max(0, 2 * b + d) for d in (-4, -1, 0, 1, 2, 3, 4, 8, 60)} | {0, 4, b, b + 4, 300})  # noqa: E731
    c = []
    for b in (20, 4, 0, 50, 100) if not THOROUGH else (20, 4, 0, 1, 7, 50, 100, 23):
        for g in gaps(b):
            for x in P["mw"] + st:
                for y in (P["mw"] + st if b == 20 or THOROUGH else P["mw"][:2]):
                    c.append((b, (lead, x, (y, {"rel": g}), tail), 1, True))
            for x in P["mw"][:2]:
                for y in P["m2"][:2] + P["rw"][:2] + P["sw"][:2]:
                    for ref_pt in ("start", "end"):
                        c.append((b, (lead, x, (y, {"rel": g, "pt": ref_pt}), tail), 2, True))
                    c.append((b, (lead, x, (y, {"rel": g}), (P["mw"][0], {"rel": g}), tail), 1, True))
        for x in P["mw"] + P["sw"] + st:
            for g in (0, 1, 4, b, b + 4, 2 * b):
                c.append((b, (("idle", g), x, tail), 2, True))
                c.append((b, (lead, x, ("idle", g)), 2, True))
                c.append((b, (lead, x, ("idle", b + g)), 2, True))
    ck.explore(run, c, label="pairs")
    # overlapping pulses of one output: the later one may end first
    c = []
    O = [("drag", "mw", 40, .2, .1, 40), ("drag", "mw", 16, .2, .1, 0), ("ramp", "mw", 24, .2, .1), ("sq", "mw", 80, .1), ("gauss", "mw", 60, .2, 0)]
    for b in (20, 4):
        for x, y in itertools.product(O, repeat=2):
            for s in (0, 4, 12, 24, 60):
                if s < x[2]:
                    for g in sorted({2 * b + d for d in (-4, 0, 4, 8, 60)} | {max(0, 2 * b + d - abs(s + y[2] - x[2])) for d in (-4, 0, 4)}):
                        z = (P["mw"][0], {"ref": 1 + (s + y[2] > x[2]), "rel": g})
                        for last in (z, (P["mw"][0], {"ref": 2, "rel": g})):
                            c.append((b, (lead, x, (y, {"ref": 1, "pt": "start", "rel": s}), last, tail), 1, False))
                if s in (4, 24) and s < x[2]:
                    two = [x, (y, {"ref": 0, "pt": "start", "rel": s}), ("idle", 4)]
                    for w in ([("sub", two)], [("loop", 2, two)]):
                        c.append((b, (lead, *w, tail), 2, False))
    ck.explore(run, dedup(c), label="overlapping")
    # three, with other operations between
    c = []
    mid = [("idle", 4), ("sq", "fl", 20, .3), ("phase", "q.01", 30.), ("off", "fl", .1, 0), ("sq", "mw", 20, .0), ("freq", "q.01", 5.01e9), ("reset", "q.01")]
    for b in (20, 50):
        for g1, g2 in itertools.product(gaps(b)[::2] + [2 * b + 4, 2 * b], repeat=2):
            for x in (P["mw"][0], P["rw"][1]):
                for y in (P["mw"][1], P["sw"][0]):
                    c.append((b, (lead, x, (y, {"rel": g1}), (P["mw"][0], {"rel": g2}), tail), 1, True))
                for m in mid:
                    c.append((b, (lead, x, (m, {"rel": g1}), (P["mw"][2], {"rel": g2}), tail), 1, False))
    ck.explore(run, c, label="triples")
    # structure
    c = []
    for b in (20, 4, 60):
        for x in P["mw"][:4] + st + P["sw"][:1]:
            for g in (4, b, 2 * b, 2 * b + 4, 200):
                body = [("idle", g), x, ("idle", 4)]
                for w in ([("sub", body)], [("loop", 1, body)], [("loop", 2, body)], [("loop", 3, body), ("sub", body)], [("sub", [("sub", body), ("sub", body)])],
                          [("loop", 2, [("loop", 2, body)])], [("loop", 2, [("sub", body), ("sq", "fl", 20, .2)])], [("sub", [("loop", 2, body)])],
                          [("sub", body), ("sub", body)], [("loop", 2, [x], "bare")], [("loop", 2, [("sq", "fl", 20, .2), ("idle", 4)]), ("sub", body)],
                          [("loop", 2, [("idle", 4), ("off", "mw", .1, .1), ("idle", 8)]), ("sq", "fl", 8, .1), ("idle", g), ("off", "mw", 0, 0), ("idle", 8)]):
                    c.append((b, (lead, *w, tail), 1, True))
                    if g in (4, 200):
                        c.append((b, (P["mw"][0], *w, (P["mw"][0], {"rel": g}), tail), 2, True))
    ck.explore(run, c, label="structure")
    ck.finish(("ok", "overlapping:ok"))


if __name__ == "__main__":
    main()
