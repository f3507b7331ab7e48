"""C05: oscillator phase and frequency follow the schedule exactly."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import numpy as np
from lib import q1, ref, rig, sigcheck  # noqa: E402
from lib.rig import Rig  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of phase, reset, frequency, pulse, acquisition, loop and repetition sequences; the "
             "emitted programs are executed by a Q1ASM interpreter with an oscillator model and phase and frequency compared with "
             "the schedule at every played nanosecond and every acquisition")
NOTE = ("Every sequence in the stated alphabets and lengths on five outputs sharing four clocks (two outputs on one clock, two "
        "clocks on one output, base-band and RF, complex and real). Trusts the oscillator model and the 1 ns grid and 4 ns spacing "
        "declared by the backend.")

LINES = {"mw": ("q:mw", "q.01", 3, "complex_output_0", False, 50e6),
         "mx": ("q:mw", "q.12", 3, "complex_output_0", False, -50e6),
         "my": ("q:my", "q.01", 3, "complex_output_1", False, 80e6),
         "res": ("q:res", "q.ro", 4, "complex_output_0", False, 100e6),
         "bb": ("q:bb", "c.b", 2, "complex_output_0", False, 60e6),
         "rl": ("q:rl", "c.b", 1, "real_output_0", True, 60e6)}
CLK = [("q.01", 5.0e9), ("q.12", 4.9e9), ("q.ro", 7.0e9), ("c.b", 60e6)]
RG = Rig({1: "QCM", 2: "QRM", 3: "QCM_RF", 4: "QRM_RF"},
         [("cluster0.module3.complex_output_0", "q:mw"), ("cluster0.module3.complex_output_1", "q:my"),
          ("cluster0.module4.complex_output_0", "q:res"), ("cluster0.module2.complex_output_0", "q:bb"),
          ("cluster0.module1.real_output_0", "q:rl")], LINES, clocks=CLK)
CF = dict(CLK)
TOL = 1e-3


def acq(line="res", ch=0, dur=40):
    return ("acq", "ssb", line, dur, ch, None, "AVERAGE", None)


def accept(items, eff, T, reps):
    """Everything apart by at least 4 ns per output, NCO operations on the grid: must compile."""
    if T < 4:
        return False
    bounds = sorted({e[0] for e in eff if e[1] == "bound"} | {0, T})
    if any(0 < b - a < 4 for a, b in zip(bounds, bounds[1:])):
        return False
    users = {}
    for s, l in LINES.items():
        users.setdefault(l[1], []).append(s)
    on = {s: [] for s in LINES}
    for e in eff:
        if e[1] in ("phase", "reset", "freq"):
            if e[0] >= T:
                return False
            if e[1] == "freq" and any(abs(e[3] - CF[e[2]] + LINES[s][5]) > 499e6 for s in users[e[2]]):
                return False
            for s in users[e[2]]:
                on[s].append((e[0], e[0], e[1]))
        elif e[1] == "wave":
            on[e[2]].append((e[0], e[0] + len(e[3]), e[1]))
        elif e[1] == "acq":
            on[e[2]].append((e[0], e[0] + 300, e[1]))
        elif e[1] == "off":
            on[e[2]].append((e[0], e[0], e[1]))
    for evs in on.values():
        evs.sort()
        ends = -1
        for i, (a, b, k) in enumerate(evs):
            if any(b0 in range(a - 3, a) for b0 in bounds):
                return False
            nxt = min([x for x in bounds if x > a], default=None)
            if nxt is None or nxt - a < 4 and k != "wave":
                return False
            if k not in ("wave", "acq") and a in bounds and a not in (0,):
                return False
            if i:
                pa, pk = evs[i - 1][0], evs[i - 1][2]
                if 0 < a - pa < 4 or (a == pa and not (pk in ("phase", "reset", "freq") and k in ("wave", "acq"))):
                    return False
            if k in ("wave", "acq"):
                if a < ends:
                    return False
                ends = max(ends, b)
    return True


def run(case):
    items, reps = case
    items = list(items)
    RG.use()
    eff = ref.flatten(items)
    T = ref.layout(items)[1]
    try:
        comp = RG.compile(ref.build(items, repetitions=reps, clocks=CLK))
    except Exception as e:
        if accept(items, eff, T, reps):
            raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
        return R("refused:" + type(e).__name__, distinct=str(e)[:50])
    seqs = RG.sequencers(comp)
    used = {e[2] for e in eff if e[1] == "acq" or e[1] == "wave" and np.any(e[3])}
    n_st = n_tr = n = 0
    dist = []
    for s in used:
        if s not in seqs:
            raise Violation("line-missing", s)
    for short, lst in sorted(seqs.items()):
        if len(lst) != 1:
            raise Violation("sequencer-count", f"{short}: {len(lst)}")
        st = lst[0][2]
        try:
            run_ = rig.execute(st)
        except q1.Q1Error as e:
            raise Violation("illegal-program", f"{short}: {e}") from None
        t0 = run_.origin() + 4
        if (run_.tr.end - t0 + 4) != reps * (T + 4):
            raise Violation("wrong-total-time", f"{short}: {run_.tr.end - t0 + 4} for {reps}x{T}")
        period = T + 4
        line = LINES[short]
        if not st.nco_en:
            raise Violation("nco-off", short)
        if abs(st.modulation_freq - line[5]) > .3:
            raise Violation("nco-frequency", f"{short}: {st.modulation_freq}")
        for e in run_.tr.events:
            if e[1] == "unlatched" and (e[3] or "freq" in e[2]):
                raise Violation("parameter-never-applied", f"{short}: {e}")
        ph = [e[0] for e in run_.tr.events if e[1] == "phase"]
        if len(set(ph)) != len(ph):
            raise Violation("phase-updates-collide", f"{short}: {ph}")
        clk = CF[line[1]]
        eff2 = [(e[0], e[1], e[2], e[3] - (clk - line[5]), e[4]) if e[1] == "freq" and e[2] == line[1] else e for e in eff]
        got = run_.nco(t0, t0 + reps * period, st.modulation_freq)
        want = rig.ref_nco(eff2, line[1], line[5], reps, period, 4)
        sig = rig.ref_signal(eff, short, T, reps, period)
        g0, g1 = run_.render(t0, t0 + reps * period)
        ok = rig.close(g0, sig.real, sigcheck.TOL) and (line[4] or rig.close(g1, sig.imag, sigcheck.TOL))
        if not ok:
            raise Violation("signal-differs", f"{short}: " + rig.first_diff(g0 + (0 if line[4] else 1j) * g1, sig, sigcheck.TOL))
        act = np.abs(sig) > 10 * sigcheck.TOL
        acqs = sorted(e[0] - t0 for e in run_.tr.events if e[1] in ("acq", "acqw"))
        wacq = sorted(r * period + e[0] for e in eff if e[1] == "acq" and e[2] == short for r in range(reps))
        if acqs != wacq:
            raise Violation("acquisition-times", f"{short}: {acqs} instead of {wacq}")
        for a in wacq:
            act[a:a + 40] = True
        act &= (np.arange(reps * period) % period) < T
        d = np.abs((got - want + 180) % 360 - 180)
        bad = act & (d > TOL)
        if bad.any():
            i = int(np.argmax(bad))
            raise Violation("phase-differs", f"{short} at {i} ns: NCO {got[i] % 360:.4f} deg, want {want[i] % 360:.4f}")
        n += 1
        n_st += len(run_.tr.events)
        n_tr += run_.tr.steps
        dist.append((short, tuple(run_.tr.events)))
    return R("ok" if n else "empty", states=n_st, transitions=n_tr, traces=n, distinct=tuple(dist))


P = ("sq", "mw", 20, .3)
ALPHA = [
    P, ("sq", "mx", 20, .3), ("sq", "my", 24, .2), ("sq", "res", 16, .4), acq(),
    ("phase", "q.01", 90.0), ("phase", "q.01", -45.25), ("phase", "q.01", 750.0), ("phase", "q.12", 33.0), ("phase", "q.ro", -1e-7),
    ("reset", "q.01"), ("reset", "q.ro"), ("freq", "q.01", 5.01e9), ("freq", "q.01", 4.987654321e9), ("freq", "q.ro", 6.9e9),
    ("idle", 4), ("idle", 8), ("idle", 5),
]
BB = [("sq", "bb", 20, .3), ("sq", "rl", 20, .3), acq("bb", 1), ("phase", "c.b", 20.0), ("phase", "c.b", -400.0), ("reset", "c.b"),
      ("freq", "c.b", 70e6), ("freq", "c.b", -20e6), ("idle", 4), ("idle", 300)]
LOOPS = [("loop", n, b) for n in (1, 2, 3) for b in (
    [("phase", "q.01", 100.0), ("idle", 4), P], [P, ("phase", "q.01", 100.0), ("idle", 4)],
    [("freq", "q.01", 5.02e9), ("idle", 8), P, ("freq", "q.01", 4.99e9), ("idle", 4)],
    [("reset", "q.01"), ("idle", 4), P, ("idle", 8)], [P, ("idle", 16), ("reset", "q.01"), ("idle", 8), ("phase", "q.01", 30.0), ("idle", 8), P],
    [("phase", "q.ro", 17.0), ("idle", 8), acq(), ("idle", 260)], [("phase", "q.01", 11.0), ("idle", 7), P],
    [("phase", "q.01", 11.0), ("idle", 6), P, ("idle", 4)], [P, ("idle", 3)])]


def seqs(alpha, n, reps):
    return [(w, r) for w in itertools.product(alpha, repeat=n) for r in reps]


def pad(cases, tail):
    return [(w + tail, r) for w, r in cases]


def main():
    ck = Check("C05", rule=NOTE, assumptions=["phase restarts at each repetition, "
               "frequency set in one repetition persists until set again", "Q1 model lib/q1.py"])
    tail = (P, ("idle", 4), acq(), ("idle", 8))
    c = []
    c += pad(seqs(ALPHA, 1, (1, 2, 3)) + seqs(ALPHA, 2, (1, 2, 3)), tail)
    c += seqs(ALPHA, 2, (1, 2))
    ck.explore(run, c, label="pairs")
    small = [P, ("phase", "q.01", 90.0), ("phase", "q.01", -45.25), ("reset", "q.01"), ("freq", "q.01", 5.01e9), ("freq", "q.01", 4.9999e9),
             ("idle", 4), ("sq", "my", 24, .2)]
    c = pad(seqs(small, 3, (2,)), (P, ("sq", "my", 20, .1), ("idle", 4)))
    spread = [x for w in itertools.product(small, repeat=4 if not THOROUGH else 5) for x in [tuple(y for o in w for y in (o, ("idle", 4)))]]
    c += [(w + (P, ("sq", "my", 20, .1), ("idle", 4)), 2) for w in spread]
    ck.explore(run, c, label="one clock")
    c = pad(seqs(BB, 1, (1, 2)) + seqs(BB, 2, (1, 2)) + seqs(BB, 3, (2,)), (("idle", 4), ("sq", "bb", 20, .2), ("sq", "rl", 20, .1), ("idle", 4)))
    if THOROUGH:
        c += [(tuple(y for o in w for y in (o, ("idle", 4))) + (("sq", "bb", 20, .2), ("sq", "rl", 20, .1)), 2) for w in itertools.product(BB, repeat=4)]
    ck.explore(run, c, label="baseband")
    c = []
    pre = [(), (("phase", "q.01", 5.0), ("idle", 4)), (("freq", "q.01", 5.03e9), ("idle", 8)), (P,), (("idle", 6),)]
    for lp in LOOPS:
        for a in pre:
            for b in ((), (P, ("idle", 4)), (("phase", "q.01", -20.0), ("idle", 4), P, acq(), ("idle", 300))):
                for wrap in (lambda z: z, lambda z: ("loop", 2, [z, ("idle", 8)]), lambda z: ("loop", 2, [P, z]), lambda z: ("sub", [z])):
                    for r in (1, 2, 3) if THOROUGH else (1, 2):
                        c.append(((*a, wrap(lp), *b), r))
    for l1 in LOOPS:
        for l2 in LOOPS:
            c.append(((l1, l2, ("idle", 4), P, ("idle", 4)), 2))
    ck.explore(run, c, label="loops")
    # every grid offset, and every phase value class
    c = []
    for off in range(0, 13):
        for o in (("phase", "q.01", 30.0), ("reset", "q.01"), ("freq", "q.01", 5.01e9)):
            for t0 in (0, 4, 1):
                for wrap in (lambda z: z, lambda z: (("loop", 2, list(z)),), lambda z: (("sub", list(z)), P)):
                    c.append(((wrap((("idle", off), ("t0", t0, o) if t0 else o, ("idle", 8), P, ("idle", (-off) % 4 + 4)))), 2))
    for ph in [k * 22.5 for k in range(-40, 41)] + [1e-6, -1e-6, 1e-9, -1e-9, 359.9999999, -359.9999999, 12345.678, -12345.678, 1e6]:
        c.append(((("phase", "q.01", ph), ("idle", 4), P, ("phase", "q.01", ph), ("idle", 4), ("sq", "my", 20, .1)), 2))
    for df in (0, .25, -.25, 1, 1e3, -1e3, 123456.5, 1e8, -1e8, 3.3e8, -5.4e8, 4.49e8, 4.51e8, -5.51e8, 5e8):
        c.append(((P, ("freq", "q.01", 5e9 + df), ("idle", 4), P, ("idle", 40), P), 2))
        c.append(((("sq", "bb", 20, .1), ("freq", "c.b", 60e6 + df), ("idle", 4), ("sq", "bb", 20, .1), ("idle", 40), ("sq", "rl", 20, .1)), 2))
    ck.explore(run, c, label="values and grid")
    ck.finish(("ok", "refused:NcoOperationTimingError"))


if __name__ == "__main__":
    main()
