"""C10: crosstalk compensation undoes the declared crosstalk."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import numpy as np
from lib import ref, rig, rigs, sigcheck  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of schedules and crosstalk matrices; the programs the real compiler emits are executed by a "
             "Q1ASM interpreter and compared per nanosecond with the signals that, mixed through the matrix, give the scheduled ones")
NOTE = ("All bounded schedules (single pulses of every shape, all pairs and triples over coupled and uncoupled outputs at several offsets, "
        "shared and repeated operations, sub-schedules, loops with schedule and bare bodies) for a family of matrices (one-directional, symmetric, "
        "asymmetric, chains, complex, with diagonal). Expected signals: scheduled signals times the inverse matrix, computed from the "
        "schedule's meaning in lib/ref.py. Pulses only: voltage offsets and stitched pulses are not compensated by design.")
PCS = {"fl": "q:fl-cl0.baseband", "f2": "q:f2-cl0.baseband", "iq": "q:iq-cl0.baseband", "bb": "q:bb-cl0.baseband",
       "mw": "q:mw-q.01", "res": "q:res-q.ro"}
MATRICES = {
    "sym": {"fl": {"f2": .1}, "f2": {"fl": .1}},
    "oneway": {"fl": {"f2": .2}},
    "back": {"f2": {"fl": -.15}},
    "asym": {"fl": {"f2": .05}, "f2": {"fl": -.2}},
    "diag": {"fl": {"fl": 1.1, "f2": .1}, "f2": {"f2": .9}},
    "chain": {"fl": {"f2": .2}, "f2": {"iq": .1}, "iq": {"fl": -.1}},
    "three": {"fl": {"f2": .1, "iq": .05}, "f2": {"fl": .2}, "iq": {"fl": .1, "f2": -.1}},
    "half": {"fl": {"f2": 0.5, "iq": 0.}, "iq": {"f2": .25}},
    "complex": {"iq": {"bb": .1j}, "bb": {"iq": .2 - .1j}},
    "mwiq": {"mw": {"iq": .2}, "iq": {"mw": .1 + .1j}},
    "rf": {"mw": {"res": .25}, "res": {"mw": -.3}},
    "none": {},
}
RIGS = {}


def rig_for(m):
    if m not in RIGS:
        RIGS[m] = rigs.main_rig(options={"crosstalk": {PCS[a]: {PCS[b]: x for b, x in d.items()} for a, d in MATRICES[m].items()}})
    return RIGS[m]


def inverse(m):
    names = sorted({x for a, d in MATRICES[m].items() for x in (a, *d)})
    M = np.eye(len(names), dtype=complex)
    for a, d in MATRICES[m].items():
        for b, x in d.items():
            M[names.index(a), names.index(b)] = x
    return names, M, np.linalg.inv(M) if names else M


def transformed(m, eff):
    names, M, inv = inverse(m)
    out = []
    for e in eff:
        if e[1] == "wave" and e[2] in names:
            for j, n in enumerate(names):
                f = inv[names.index(e[2]), j]
                if abs(f) > 1e-12:
                    out.append((e[0], e[1], n, e[3] * f, e[4]))
        else:
            out.append(e)
    return out


def must(eff, T):
    lines = {}
    for e in eff:
        if e[1] == "wave":
            lines.setdefault(e[2], []).append((e[0], e[0] + len(e[3]), e[3]))
    for n, ws in lines.items():
        edges = sorted({x for a, b, _ in ws for x in (a, b)} | {T})
        if any(b - a < 4 for a, b in zip(edges, edges[1:])):
            return False
        s = np.zeros(T, complex)
        for a, b, w in ws:
            s[a:b] += w
        if np.max(np.abs(s.real)) > 1 or np.max(np.abs(s.imag)) > 1 or n in ("fl", "f2") and np.max(np.abs(s.imag)) > 1e-9:
            return False
    return True


def run(case):
    m, items, reps = case
    items = list(items)
    rg = rig_for(m)
    rg.use()
    eff = transformed(m, ref.flatten(items))
    T = ref.layout(items)[1]
    sched = ref.build(items, repetitions=reps, clocks=rg.clocks)
    before = repr(sched.data)
    try:
        compiled = rg.compile(sched)
    except Exception as e:
        if must(eff, T):
            raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
        return R("rejected:" + type(e).__name__)
    if repr(sched.data) != before:
        raise Violation("input-altered", "the schedule handed in was changed")
    return sigcheck.compare(rg, compiled, eff, T, reps)


def at(node, t):
    return (node, {"ref": 0, "pt": "start", "pt_new": "start", "rel": t})


def shapes(line):
    out = [("sq", line, 20, .4), ("ramp", line, 24, .3, .1), ("ramp", line, 24, .3, 0), ("num", line, tuple([.1, -.2, .3, .05] * 4)),
           ("sq", line, 120, .25), ("stair", line, 40, .1, .4, 4), ("ramp", line, 2400, .3, 0.), ("t0", 8, ("sq", line, 20, .3)),
           ("wf", line, "snz", 8, 4, 12, .3, .5, .9), ("wf", line, "num", 2, (.1, -.2, .3, .05, .2, .1, -.1, .2))]
    if line not in ("fl", "f2"):
        out += [("drag", line, 20, .2, .5, 40), ("sq", line, 16, .1 + .2j), ("gauss", line, 24, .2, 90), ("num", line, (.1 + .2j, -.3j, .2, .1, .05)),
                ("wf", line, "soft", 24, .3), ("wf", line, "chirp", 20, .2, 10e6, 60e6), ("wf", line, "hermite", 24, .2, 2e-10, 60), ("wf", line, "drag", 24, .2, .1, 30, 5)]
    return out


def main():
    ck = Check("C10", rule=NOTE, assumptions=["pieces of a sum shorter than 4 ns, values beyond full scale, or complex values on a real output may be refused",
                                              "crosstalk is linear and instantaneous; on modulated outputs it acts on the envelopes"])
    c = []
    for m in MATRICES:
        for line in PCS:
            for s in shapes(line):
                for r in (1, 2):
                    c.append((m, (s, ("idle", 8)), r))
                c.append((m, (("idle", 4), ("sub", [s, ("idle", 4), s]), ("loop", 2, [s, ("idle", 8)]), ("idle", 8)), 1))
                c.append((m, (s, ("idle", 4), s, s, ("idle", 8)), 2))
                c.append((m, (("loop", 2, [s], "bare"), ("idle", 8)), 1))
    ck.explore(run, c, label="single")
    # pairs
    c = []
    ops = {m: [s for ln in sorted({*inverse(m)[0], "mw" if m == "none" else "res"}) for s in
               (shapes(ln)[:5] if THOROUGH or len(inverse(m)[0]) < 3 else [shapes(ln)[0], shapes(ln)[1], shapes(ln)[3]])] for m in MATRICES}
    for m in MATRICES:
        for x in ops[m]:
            for y in ops[m]:
                for d in (0, 8, 12, 20, 40) if THOROUGH else (0, 12, 40):
                    c.append((m, (("idle", 200), at(x, 4), at(y, 4 + d)), 1))
    ck.explore(run, c, label="pairs")
    # triples with shared operations, across structure
    c = []
    for m in MATRICES:
        names = inverse(m)[0] or ["fl"]
        al = [("sq", n, 20, a) for n in names for a in (.2, -.1)] + [("ramp", names[0], 24, .2, .1), ("sq", "res", 20, .1)]
        al = list(dict.fromkeys(al))
        for tri in itertools.product(al, repeat=3):
            c.append((m, (*tri, ("idle", 4)), 1))
        for x in al:
            for y in al:
                c.append((m, (("sub", [x, y]), x, ("sub", [x, y]), y, ("idle", 4)), 1))
                c.append((m, (("loop", 2, [x, y]), ("loop", 3, [("sub", [x, y]), ("idle", 4)]), ("idle", 4)), 1))
                c.append((m, (("sub", [("loop", 2, [x]), y]), ("loop", 2, [x], "bare"), ("idle", 4)), 2))
                c.append((m, (("multi", x, ("t0", 28, y)), ("idle", 4), x, ("idle", 4)), 1))
                c.append((m, (x, ("phase", "q.01", 40.), ("idle", 4), y, ("off", "bb", .1, .1), ("idle", 4), ("off", "bb", 0, 0), ("idle", 4)), 1))
    # a compensated pulse equal to another pulse of the schedule
    for m in ("sym", "asym", "rf", "oneway", "diag"):
        names, M, inv = inverse(m)
        for i, a in enumerate(names):
            for j, b in enumerate(names):
                for amp in (.2, .4):
                    f = complex(inv[i, j])
                    f = f.real if f.imag == 0 else f
                    for w in itertools.permutations((("sq", a, 20, amp), ("sq", b, 20, amp * f), ("sq", b, 20, amp))):
                        c.append((m, (*w, ("idle", 4)), 1))
                        c.append((m, (w[0], (w[1], {"ref": 0, "pt": "start"}), w[2], ("idle", 4)), 1))
    ck.explore(run, c, label="structure")
    ck.finish(("ok",))


if __name__ == "__main__":
    main()
