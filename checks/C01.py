"""C01: absolute times satisfy every timing constraint of the schedule."""
import os
import sys
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402

TECHNIQUE = ("bounded exhaustive enumeration of constraint graphs and nestings, compiled by the real passes "
             "and compared with an exact rational constraint solver")
NOTE = ("All constraint sets over up to 3 operations (4 in thorough) with every reference, reference point and "
        "relative time of the stated sets, under both scheduling strategies, plus nested schedules, loops and "
        "conditionals; compared with an independent longest-path solver over exact fractions.")

PTS = (None, "start", "center", "end")
CFG = {}


def config(strategy):
    if strategy not in CFG:
        from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
        QuantumDevice.close_all()
        qd = QuantumDevice("dut_" + strategy)
        qd.scheduling_strategy(strategy)
        CFG[strategy] = qd.generate_compilation_config()
        qd.close()
    return CFG[strategy]


# a case: tree of ("op", dur, t0) | ("sched", [ (node, [constraint...]) ]) | ("loop", n, node) |
# ("cond", node, buffer); constraint = (ref index | None | "unknown", rel, ref_pt, ref_pt_new)
def make(node, depth=0):
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    from quantify_scheduler.operations.pulse_library import ShiftClockPhase, SquarePulse
    k = node[0]
    if k == "op":
        if node[1] == 0 and node[2] == 0:
            return ShiftClockPhase(phase_shift=30, clock="cl0.baseband")
        return SquarePulse(amp=.1, duration=node[1] * 1e-9, port="q:mw", clock="cl0.baseband", t0=node[2] * 1e-9)
    if k == "loop":
        return LoopOperation(make(node[2], depth + 1), repetitions=node[1])
    if k == "cond":
        return ConditionalOperation(make(node[1], depth + 1), "q0", hardware_buffer_time=node[2] * 1e-9)
    s = Schedule(f"s{depth}", repetitions=node[2] if len(node) > 2 else 1)
    made = []
    for i, (child, cons) in enumerate(node[1]):
        ref, rel, pt, ptn = cons[0]
        ref = lbl(ref)
        if ref is not None and i % 2 and made and ref in [m["name"] for m in made]:
            ref = made[[m["name"] for m in made].index(ref)]     # object instead of label
        made.append(s.add(make(child, depth + 1), rel_time=rel * 1e-9, ref_op=ref, ref_pt=pt,
                          ref_pt_new=ptn, label=f"L{i}"))
        for ref, rel, pt, ptn in cons[1:]:
            made[-1].add_timing_constraint(rel_time=rel * 1e-9, ref_schedulable=lbl(ref), ref_pt=pt,
                                           ref_pt_new=ptn)
    return s


def lbl(r):
    return r if r is None or isinstance(r, str) else f"L{r}"


class NoSolution(Exception):
    pass


def duration(node, strat):
    k = node[0]
    if k == "op":
        return Fraction(node[1] + node[2])
    if k == "loop":
        return node[1] * duration(node[2], strat)
    if k == "cond":
        return duration(node[1], strat) + node[2]
    return solve(node, strat)[1]


FR = {"start": Fraction(0), "center": Fraction(1, 2), "end": Fraction(1)}


def solve(node, strat):
    """[start of each child], duration. Reference solver."""
    items = node[1]
    n = len(items)
    durs = [duration(c, strat) for c, _ in items]
    start = {}
    busy = set()
    asap = strat == "asap"

    def at(i):
        if i in start:
            return start[i]
        if i in busy:
            raise NoSolution("cycle")
        busy.add(i)
        cand = []
        cons = items[i][1]
        if not asap and len(cons) > 1:
            raise NoSolution("several constraints with ALAP")
        for j, (ref, rel, pt, ptn) in enumerate(cons):
            if ref == "unknown":
                raise NoSolution("unknown")
            if ref is None:
                ref = i - 1 if asap else i + 1
                if not 0 <= ref < n:
                    if all(c[0] is None for c in cons):
                        cand.append(Fraction(0))
                    continue
            pt = pt or ("end" if asap else "start")
            ptn = ptn or ("start" if asap else "end")
            cand.append(at(ref) + FR[pt] * durs[ref] + rel - FR[ptn] * durs[i])
        start[i] = max(cand) if asap else min(cand)
        busy.discard(i)
        return start[i]

    for i in range(n):
        at(i)
    roots = sum(1 for i in range(n) if items[i][1][0][0] is None and not 0 <= (i - 1 if asap else i + 1) < n)
    if roots != 1:
        raise NoSolution("no root")
    m = min(start.values())
    st = [start[i] - m for i in range(n)]
    reps = node[2] if len(node) > 2 else 1
    return st, max(s + d for s, d in zip(st, durs)) * reps


def verify(sched, node, strat, n_viol, path="s"):
    st, dur = solve(node, strat)
    keys = list(sched.schedulables)
    if keys != [f"L{i}" for i in range(len(node[1]))]:
        n_viol.append(("order-or-labels", f"{path}: {keys}"))
        return
    for i, (child, _) in enumerate(node[1]):
        sc = sched.schedulables[keys[i]]
        got = sc["abs_time"] * 1e9
        if abs(got - float(st[i])) > 1e-6:
            n_viol.append(("wrong-time", f"{path}.{keys[i]} at {got} ns, constraints say {float(st[i])}"))
        op = sched.operations[sc["operation_id"]]
        p = f"{path}.{keys[i]}"
        while child[0] in ("loop", "cond"):
            if abs(op.duration * 1e9 - float(duration(child, strat))) > 1e-6:
                n_viol.append(("wrong-duration", f"{p}: {op.duration}"))
            op, child = op.body, (child[2] if child[0] == "loop" else child[1])
            p += ".body"
        if child[0] == "sched":
            verify(op, child, strat, n_viol, p)
        elif abs(op.duration * 1e9 - child[1] - child[2]) > 1e-6:
            n_viol.append(("wrong-operation", f"{p}: duration {op.duration}"))
    if sched.duration is None or abs(sched.duration * 1e9 - float(dur)) > 1e-6:
        n_viol.append(("wrong-duration", f"{path}: {sched.duration}, want {float(dur)} ns"))


def leaves(node, strat, t, out):
    k = node[0]
    if k == "op":
        out.append((float(t) + node[2], node[1]))
    elif k == "loop":
        d = duration(node[2], strat)
        for i in range(node[1]):
            leaves(node[2], strat, t + i * d, out)
    elif k == "cond":
        leaves(node[1], strat, t, out)
    else:
        st, _ = solve(node, strat)
        for s, (c, _) in zip(st, node[1]):
            leaves(c, strat, t + s, out)
    return out


def run(case):
    node, strat, table = case
    from quantify_scheduler.backends import SerialCompiler
    sched = None
    try:
        want = solve(node, strat)
    except NoSolution as e:
        want, why = None, str(e)
    try:
        sched = SerialCompiler("c").compile(make(node), config(strat))
    except Exception as e:
        if want is None or any(c[0] is None for _, cs in node[1] for c in cs[1:]):
            return R("refused", distinct=None)
        raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
    if want is None:
        raise Violation("silently-timed", why)
    viol = []
    verify(sched, node, strat, viol)
    if table and not viol:
        exp = sorted((round(a, 3), float(b)) for a, b in leaves(node, strat, Fraction(0), []))
        df = sched.timing_table.data
        got = sorted((abs(round(a * 1e9, 3)), round(b * 1e9, 3)) for a, b in zip(df["abs_time"], df["duration"]))
        if len(got) != len(exp) or any(abs(a - c) > 1e-6 or abs(b - d) > 1e-6
                                       for (a, b), (c, d) in zip(got, exp)):
            viol.append(("timing-table", f"{got} want {exp}"))
    return R("ok", states=len(node[1]), transitions=sum(len(c) for _, c in node[1]),
             distinct=(strat, tuple(want[0]), want[1]), viol=viol)


def flat(n, durs, rels, pts, strat):
    out = []
    N = (None, 0, None, None)
    D = product(*[[("op", d, 0) for d in durs]] * n)
    per = []
    for i in range(n):
        if strat == "asap":
            refs = [None] + list(range(i))
            if i == 0:
                per.append([N])
                continue
        else:
            refs = [None] + list(range(i + 1, n))
            if i == n - 1:
                per.append([N])
                continue
        per.append([(r, rel, a, b) for r in refs for rel in rels for a in pts for b in pts])
    for cons in itertools.product(*per):
        for ds in D:
            out.append((("sched", [(d, [c]) for d, c in zip(ds, cons)]), strat, False))
    return out


def graphs():
    """Every reference graph over 3 operations, forward and backward, cyclic or not, with a second constraint."""
    out = []
    ops = [("op", 20, 0), ("op", 50, 0), ("op", 36, 4)]
    refs = (None, 0, 1, 2, "unknown")
    for strat in ("asap", "alap"):
        for r in itertools.product(refs, repeat=3):
            for rel in (0, 7, -30):
                for pt in ("start", None):
                    out.append((("sched", [(o, [(a, rel, pt, None)]) for o, a in zip(ops, r)]), strat, False))
    for r in itertools.product(refs, repeat=3):
        for who in range(3):
            for r2 in refs:
                for rel, pt, ptn in ((0, "start", "start"), (200, None, None), (-60, "end", "end"),
                                     (5, "center", "center")):
                    for strat in ("asap", "alap"):
                        cons = [[(a, 3 if i == 1 else 0, None, None)] for i, a in enumerate(r)]
                        cons[who].append((r2, rel, pt, ptn))
                        out.append((("sched", list(zip(ops, cons))), strat, False))
    # up to three constraints in every order
    for perm in itertools.permutations([(0, 10, "end", "start"), (1, 4, "start", "end"), (0, 60, "center", "center")]):
        out.append((("sched", [(ops[0], [(None, 0, None, None)]), (ops[1], [(None, 0, None, None)]),
                               (ops[2], list(perm))]), "asap", True))
    return out


def nests():
    out = []
    N = [(None, 0, None, None)]
    leaf = [("op", 20, 0), ("op", 30, 8), ("op", 0, 0)]
    pair = []
    for a in leaf:
        for b in leaf:
            for c in ((None, 0, None, None), (0, -50, None, None), (0, 5, "start", None),
                      (0, 0, "center", "center"), (None, 12, "start", "end")):
                pair.append((a, b, c))

    def sched(a, b, c, strat, reps=1):
        if strat == "asap":
            return ("sched", [(a, N), (b, [c])], reps)
        if c[0] == 0:
            c = (1, *c[1:])
        return ("sched", [(a, [c]), (b, N)], reps)

    for strat in ("asap", "alap"):
        for a, b, c in pair:
            inner = sched(a, b, c, strat)
            wraps = [inner, ("loop", 3, inner), ("cond", inner, 4), ("loop", 2, ("loop", 2, inner)),
                     ("sched", [(inner, N)]), ("loop", 2, ("sched", [(inner, N), (inner, N)])),
                     sched(a, b, c, strat, 3), ("loop", 1, ("cond", inner, 0)),
                     ("sched", [(("loop", 2, ("sched", [(("op", 4, 0), N), (inner, N)])), N)])]
            for w in wraps:
                for other in (("op", 44, 0), w):
                    for c2 in ((None, 0, None, None), (0, -9, "start", "end"), (0, 3, "center", "center"),
                               (0, -100, None, None)):
                        out.append((sched(w, other, c2, strat), strat, True))
                        out.append((sched(other, w, c2, strat, 2), strat, True))
        for body in leaf:
            for n in (1, 2, 5):
                out.append((sched(("loop", n, body), leaf[0], N[0], strat), strat, True))
                out.append((sched(leaf[0], ("cond", ("loop", n, body), 8), N[0], strat), strat, True))
    return out


def chains():
    """Long chains whose times are all below or around zero, and fans."""
    out = []
    for strat in ("asap", "alap"):
        for n in (5, 6, 7):
            for rels in itertools.product((0, -70, 11), repeat=3):
                cons = []
                for i in range(n):
                    cons.append([(None, rels[i % 3], (None, "start")[i % 2], (None, "end", "center")[i % 3])])
                root = 0 if strat == "asap" else n - 1
                cons[root] = [(None, 0, None, None)]
                out.append((("sched", [(("op", 20 + i, 0), c) for i, c in enumerate(cons)]), strat, True))
                cons = [[(root, rels[i % 3] * i, "center", "start")] for i in range(n)]
                cons[root] = [(None, 0, None, None)]
                out.append((("sched", [(("op", 20, 0), c) for i, c in enumerate(cons)]), strat, True))
    return out


# ------------------------------------------------------------------ ideal time: one unit per gate
def make_ideal(node, depth=0):
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    from quantify_scheduler.operations.gate_library import X
    if node[0] == "op":
        return X("q0")
    if node[0] == "loop":
        return LoopOperation(make_ideal(node[2], depth + 1), repetitions=node[1])
    if node[0] == "cond":
        return ConditionalOperation(make_ideal(node[1], depth + 1), "q0")
    s = Schedule(f"s{depth}")
    for i, (child, (ref, rel, pt, ptn)) in enumerate(node[1]):
        s.add(make_ideal(child, depth + 1), rel_time=rel, ref_op=lbl(ref), ref_pt=pt, ref_pt_new=ptn, label=f"L{i}")
    return s


def units(node):
    """A gate takes one unit, a nested schedule as many as it is deep; a loop shows its body once."""
    if node[0] == "op":
        return Fraction(1)
    if node[0] in ("loop", "cond"):
        return units(node[-1])
    return solve_ideal(node)[1]


def solve_ideal(node):
    st, durs = [], [units(c) for c, _ in node[1]]
    for i, (_, (ref, rel, pt, ptn)) in enumerate(node[1]):
        ref = i - 1 if ref is None else ref
        st.append(Fraction(0) if not i else st[ref] + FR[pt or "end"] * durs[ref] + rel - FR[ptn or "start"] * durs[i])
    m = min(st)
    st = [x - m for x in st]
    return st, max(a + b for a, b in zip(st, durs))


def verify_ideal(sched, node, path, viol):
    st, _ = solve_ideal(node)
    for i, (child, _) in enumerate(node[1]):
        sc = sched.schedulables[f"L{i}"]
        if abs(sc["abs_time"] - float(st[i])) > 1e-9:
            viol.append(("wrong-ideal-time", f"{path}.L{i} at {sc['abs_time']}, want {float(st[i])}"))
        op = sched.operations[sc["operation_id"]]
        if child[0] in ("loop", "cond"):
            op, child = op.body, child[-1]
        if child[0] == "sched":
            verify_ideal(op, child, f"{path}.L{i}", viol)


def run_ideal(case):
    from quantify_scheduler.compilation import _determine_absolute_timing
    try:
        s = _determine_absolute_timing(make_ideal(case), time_unit="ideal")
    except Exception as e:
        raise Violation("rejects-valid", f"ideal: {type(e).__name__}: {e}") from None
    viol = []
    verify_ideal(s, case, "s", viol)
    return R("ok", states=len(case[1]), transitions=len(case[1]), distinct=tuple(solve_ideal(case)[0]), viol=viol)


def ideals():
    """Gates and nested schedules; loops and conditionals only at the top and around schedules of gates."""
    N, op = (None, 0, None, None), ("op", 0, 0)
    cons = [N, (0, 0, "start", None), (0, 2, None, None), (None, 0, "start", "end"), (None, 1, None, None), (0, 0, "end", "end")]
    flats = [("sched", [(op, N)] + [(op, c) for c in cs]) for n in (0, 1, 2) for cs in itertools.product(cons, repeat=n)]
    deep = [("sched", [(a, N), (b, c)]) for f in flats[:10] for a, b in ((f, op), (op, f), (f, f)) for c in cons]
    out = list(flats) + deep
    for f in flats[:20]:
        tops = [f, ("loop", 3, f), ("cond", f), ("loop", 2, op), ("cond", op)]
        for t in tops:
            for u in (op, t):
                for c in cons:
                    out += [("sched", [(t, N), (u, c)]), ("sched", [(u, N), (t, c), (op, N)]), ("sched", [(op, N), (t, N), (op, c), (u, N)])]
    for d in deep:
        out += [("sched", [(d, N), (op, N)]), ("sched", [(op, N), (("loop", 2, d), N), (op, N)])]
    return out


def main():
    c = Check("C01", rule="constraint sets enumerated exhaustively over the stated reference/point/offset sets; "
              "distinct = distinct solutions (all start times and the duration)",
              assumptions=["1e-6 ns tolerance for binary floating point times"])
    for s in ("asap", "alap"):
        config(s)
        c.explore(run, flat(2, (0, 20, 50), (-10, 0, 15, -100), PTS, s), label=f"two-{s}")
        if THOROUGH:
            c.explore(run, flat(3, (20, 50), (-10, 0, 15), PTS, s), label=f"three-{s}")
            c.explore(run, flat(4, (20,), (0, -35), (None, "start", "center"), s), label=f"four-{s}")
        else:
            c.explore(run, flat(3, (20, 50), (0, -35), PTS, s), label=f"three-{s}")
    c.explore(run, graphs(), label="graphs")
    c.explore(run, nests(), label="nests")
    c.explore(run, chains(), label="chains")
    c.explore(run_ideal, ideals(), label="ideal")
    c.finish(require_outcomes=("ok", "refused"))


if __name__ == "__main__":
    main()
