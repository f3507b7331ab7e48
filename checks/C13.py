"""C13: merging virtual rotations never changes what the qubits see."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import cmath
import math
import numpy as np
from lib import gates, ref  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of gate sequences and structures; each compiled schedule is unrolled and compared, pulse by pulse "
             "with time, parameters and accumulated frame phase, with a gate-by-gate reference; ideal unitaries are compared as well")
NOTE = ("All sequences up to 4 gates over Z rotations on two qubits (equal, different, overridden, derived classes) and other gates; all pairs "
        "and triples with every kind of timing constraint; sub-schedules, loops and conditionals, with equal gates as one shared object or as "
        "separate ones. Reference: lib/gates.py (gate to pulses) and lib/ref.py (timing), no merging.")
CFG = {}
ref.HBT = 0      # the buffer after a conditional is added by the hardware backend


def cfg(strategy="asap"):
    if strategy not in CFG:
        qd = gates.make_device(strategy=strategy)
        CFG[strategy] = qd.generate_compilation_config()
    ref.GATES = gates.GateRef()
    return CFG[strategy]


def g(name, *args, **kw):
    return ("gate", name, tuple(args), tuple(sorted(kw.items())))


def compile_(items, shared, strategy):
    from quantify_scheduler.backends import SerialCompiler
    c = cfg(strategy)
    ref.MEMO = {} if shared else None
    try:
        s = ref.build(list(items))
    finally:
        ref.MEMO = None
    return s, SerialCompiler("c").compile(s, c)


def expected(items):
    out = []
    for e in ref.flatten(list(items)):
        if e[1] == "gate":
            for x in ref.GATES.expand(*e[3][1:])[1]:
                out.append((e[0] + x[0], *x[1:]))
    return out


def run(case):
    items, shared, strategy = case
    cfg(strategy)
    try:
        want = expected(items)
    except ref.RefError:
        return R("off-grid")
    if strategy == "alap" and not chain(items):
        return R("alap-with-references")
    try:
        s, comp = compile_(items, shared, strategy)
    except Exception as e:
        raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
    got, gph = gates.resolve(gates.tree(comp))
    exp, wph = gates.resolve(want)
    d = gates.diff(got, exp)
    if d:
        raise Violation("pulses-differ", d)
    for c in set(gph) | set(wph):
        if not gates.near(gph.get(c, 0.), wph.get(c, 0.)):
            raise Violation("final-phase", f"{c}: {gph.get(c, 0.)} instead of {wph.get(c, 0.)}")
    T = ref.layout(list(items))[1]
    if abs(comp.duration * 1e9 - T) > 1e-6:
        raise Violation("duration", f"{comp.duration} instead of {T} ns")
    return R("ok", len(got) + 1, len(want) + 1, 1, (tuple(map(str, got)), str(sorted(gph.items()))))


def chain(items):
    return all(not ref.split(i)[1] and (ref.split(i)[0][0] == "gate" or chain(ref.split(i)[0][-1] if ref.split(i)[0][0] in ("loop", "cond", "sub") else ()))
               for i in items)


# ------------------------------------------------------------ unitaries
def rxy(theta, phi):
    t, p = math.radians(theta) / 2, math.radians(phi)
    return np.array([[math.cos(t), -1j * cmath.exp(-1j * p) * math.sin(t)], [-1j * cmath.exp(1j * p) * math.sin(t), math.cos(t)]])


def rz(theta):
    t = math.radians(theta) / 2
    return np.diag([cmath.exp(-1j * t), cmath.exp(1j * t)])


def ideal(seq, sign=1):
    U = np.eye(2)
    for op in seq:
        n, a = op[1], op[2]
        for m in ([rz(180 * sign), rxy(90, 90)] if n == "H" else [rz(sign * (a[0] if n == "Rz" else gates.ZS[n]))] if n == "Rz" or n in gates.ZS
                  else [rxy(*(a[:2] if n == "Rxy" else gates.ANGLES[n]))]):
            U = m @ U
    return U


def same(U, V):
    return abs(abs(np.trace(U.conj().T @ V)) - 2) < 1e-6


def run_unitary(case):
    """What the pulses of one qubit implement, read off the compiled schedule."""
    seq = case
    cfg()
    _, comp = compile_(seq, False, "asap")
    got, ph = gates.resolve(gates.tree(comp))
    p = gates.ELEMENTS["q0"]
    out = {}
    for sign in (-1, 1):
        # a virtual rotation turns the axis of every later pulse; the frame is undone at the end
        U = np.eye(2)
        for e in got:
            U = rxy(e[5]["G_amp"] / p["amp180"] * 180, e[5]["phase"] + sign * e[5]["_frame"]) @ U
        out[sign] = rz(-sign * ph.get("q0.01", 0.)) @ U
    for op in seq:
        # the unitary the gate itself reports
        if op[1] != "H":
            if not same(gates.make_gate(*op[1:]).data["gate_info"]["unitary"], ideal([op])):
                raise Violation("documented-unitary", f"{op}")
    if same(out[1], ideal(seq, -1)) and not same(out[1], ideal(seq)):
        # Rz(theta) shifts the phase of the following pulses by +theta: Rz(-theta) for the axes of Rxy
        raise Violation("rz-direction", f"{[o[1:3] for o in seq]} implements the sequence with every Z rotation reversed")
    if not same(out[1], ideal(seq)):
        raise Violation("unitary", f"{[o[1:3] for o in seq]}")
    return R("ok", len(got) + 1, len(seq), 1, str(np.round(ideal(seq), 4)))


def main():
    ck = Check("C13", rule=NOTE, assumptions=["phase shifts and pulses at one instant: the shift acts first", "ideal pulses, no decoherence"])
    a, a2, b, z, m = g("Rz", 30., "q0"), g("Rz", 50., "q0"), g("Rz", -70., "q0"), g("Z90", "q0"), g("Rz", 30., "q1")
    o, x, y, cz, h, i0 = g("Rz", 30., "q0", clock="q0.12"), g("X90", "q0"), g("Rxy", 45., 30., "q1"), g("CZ", "q0", "q1"), g("H", "q0"), g("Idle", 0)
    me, big = g("Measure", "q0"), g("Rz", 170., "q0")
    al = [a, a2, b, z, m, x, y, o]
    full = al + [cz, h, i0, me, big, g("T", "q1"), g("Idle", 20)]
    c = []
    for n in (1, 2, 3):
        for s in itertools.product(full, repeat=n):
            c += [(s, True, "asap"), (s, False, "asap")] if n < 3 or THOROUGH else [(s, True, "asap")]
            if n < 3 and me not in s:
                c.append((s, True, "alap"))
    for s in itertools.product(al, repeat=4):
        c.append((s, False, "asap"))
        if THOROUGH:
            c.append((s, True, "asap"))
            c.append((s, True, "alap"))
    small = [a, a2, m, x]
    for s in itertools.product(small, repeat=5):
        c.append((s, True, "asap"))
        if THOROUGH:
            c.append((s, False, "alap"))
    ck.explore(run, c, label="sequences")
    # timing constraints
    kws = [{}, {"rel": 40}, {"rel": -20}, {"pt": "start"}, {"pt": "start", "rel": 20}, {"ref": 0}, {"ref": 0, "pt": "start"}, {"ref": 0, "rel": 8},
           {"ref": 0, "pt": "start", "pt_new": "end"}, {"pt_new": "end"}, {"pt": "center", "pt_new": "center"}]
    kw3 = kws + [{"ref": 1, "pt": "start"}, {"ref": 1, "pt": "start", "rel": 40}]
    c = []
    tal = [a, b, m, x, cz, o]
    for p in itertools.product(tal, repeat=2):
        for k in kws:
            c.append(((p[0], (p[1], k)), True, "asap"))
    for p in itertools.product(tal if THOROUGH else tal[:4], repeat=3):
        for k1 in kws:
            for k2 in kw3:
                c.append(((p[0], (p[1], k1), (p[2], k2)), True, "asap"))
    for p in itertools.product([a, b, x], repeat=4):
        for k1 in kws[:1] + kws[3:8]:
            for k2 in kws[:6]:
                c.append(((p[0], p[1], (p[2], k1), (p[3], k2)), True, "asap"))
    ck.explore(run, c, label="timing")
    # structure
    c = []
    for shared in (True, False):
        for p in itertools.product([a, a2, z, m, x], repeat=3):
            s1, s2 = ("sub", [p[0], p[1]]), ("sub", [p[1], p[2]])
            l1 = ("loop", 3, [p[0], p[1]])
            for its in ([s1, p[2]], [p[2], s1, s2], [s1, s1, p[2]], [l1, p[2]], [p[2], l1, p[2]], [s1, l1, s2], [("loop", 2, [s1, p[2]])], [p[0], ("sub", [p[0]]), p[0], x],
                        [("loop", 2, [p[0]], "bare"), p[1], p[2]], [p[0], ("loop", 1, [p[1], p[1]]), p[2], x], [("sub", [("loop", 2, [p[0], p[0]]), p[1]]), p[0], p[2], x]):
                c.append((its, shared, "asap"))
                if THOROUGH:
                    c.append((its, shared, "alap"))
            c.append(([p[0], ("cond", "q0", [p[1], p[1]]), p[2], x], shared, "asap"))
            c.append(([p[0], p[1], ("cond", "q0", [p[0], p[1]]), p[2], p[0], x], shared, "asap"))
    ck.explore(run, c, label="structure")
    # unitaries
    c = []
    gs = [a, g("Rz", 100., "q0"), g("Rz", -135., "q0"), z, g("T", "q0"), g("SDagger", "q0"), g("Z", "q0"), x, g("Y", "q0"), g("Rxy", 45., 30., "q0"), g("Rxy", -120., 250., "q0"), h]
    for n in (1, 2, 3):
        c += list(itertools.product(gs, repeat=n))
    if THOROUGH:
        c += list(itertools.product(gs, repeat=4))
    ck.explore(run_unitary, c, label="unitary")
    ck.finish(("ok",))


if __name__ == "__main__":
    main()
