"""C30: a circuit diagram shows every operation on its own rows, in the order of execution."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
from collections import Counter

TECHNIQUE = ("bounded exhaustive enumeration of schedules; the artists the real drawing code puts on the axes are read back and "
             "compared with the rows and columns of a reference layout")
NOTE = ("Every schedule of up to 3 operations over gates, measurements, pulses and acquisitions (up to 4 over fewer), simultaneous or one after "
        "the other, with sub-schedules, loops and conditionals around them. Drawn artists (labels, boxes, meters, links, pulse shapes, loop "
        "brackets, conditional arrows and frames) are identified by position and kind; of colours only white and coloured boxes are told apart.")
LEVEL = "exploration"
G = ("q0", "q1", "q2")


# A node: ("g", name, args), ("thr", qubit, label), ("bb", port), ("mw", port), ("acq", port), ("nco",), ("idle",),
#         ("sub", items), ("loop", n, body), ("cond", label, body).  An item: (node, None or (index, "start" or "end")).
def build(node):
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations import acquisition_library as al, gate_library as gl, pulse_library as pl
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    from quantify_scheduler.resources import ClockResource
    k = node[0]
    if k == "g":
        return getattr(gl, node[1])(*node[2])
    if k == "thr":
        return gl.Measure(node[1], acq_protocol="ThresholdedAcquisition", feedback_trigger_label=node[2])
    if k == "bb":
        return pl.SquarePulse(amp=.2, duration=20e-9, port=node[1], clock="cl0.baseband")
    if k == "mw":
        return pl.DRAGPulse(G_amp=.2, D_amp=0, phase=0, duration=20e-9, port=node[1], clock="rf")
    if k == "acq":
        return al.SSBIntegrationComplex(duration=1e-6, port=node[1], clock="rf")
    if k == "tacq":
        return al.ThresholdedAcquisition(duration=1e-6, port=node[1], clock="rf", feedback_trigger_label=node[2])
    if k == "nco":
        return pl.ShiftClockPhase(phase_shift=10, clock="rf")
    if k == "idle":
        return pl.IdlePulse(20e-9)
    if k == "loop":
        return LoopOperation(body=build(node[2]), repetitions=node[1])
    if k == "cond":
        return ConditionalOperation(body=build(node[2]), qubit_name=node[1])
    s = Schedule("s")
    s.add_resource(ClockResource("rf", 5e9))
    for i, (n, tc) in enumerate(node[1]):
        s.add(build(n), label=f"L{i}", **({} if tc is None else dict(ref_op=f"L{tc[0]}", ref_pt=tc[1])))
    return s


def depth(node):
    if node[0] in ("loop", "cond"):
        return depth(node[2])
    return layout(node)[1] if node[0] == "sub" else 1


def layout(node):
    st, d = [], [depth(n) for n, _ in node[1]]
    for i, (_, tc) in enumerate(node[1]):
        st.append(0 if not i else st[i - 1] + d[i - 1] if tc is None else st[tc[0]] + (d[tc[0]] if tc[1] == "end" else 0))
    return st, max(a + b for a, b in zip(st, d))


def leaves(node):
    if node[0] in ("loop", "cond"):
        return leaves(node[2])
    return [x for n, _ in node[1] for x in leaves(n)] if node[0] == "sub" else [node]


def elements(node):
    if node[0] == "thr":
        return [node[1]]
    if node[0] == "g":
        return [x for x in node[2] if isinstance(x, str)]
    return []


def rows_of(node):
    els = sorted({e for x in leaves(node) for e in elements(x)})
    ports = {x[1] for x in leaves(node) if x[0] in ("bb", "mw", "acq", "tacq")}
    names = (["other"] if any(p.split(":")[0] not in els for p in ports) else []) + els
    row = {n: i for i, n in enumerate(names)}
    return names, lambda x: [row[e] for e in elements(x)] or ([row.get(x[1].split(":")[0], 0)] if len(x) > 1 else [])


def expected(top):
    names, rows = rows_of(top)
    out, seen = Counter(), {}
    n = len(names)

    def shape(x, t):
        """The artists of one operation."""
        op = build(x)
        k = x[0]
        if k in ("g", "thr"):
            tex = op["gate_info"]["tex"]
            if k == "thr" or x[1] not in ("CZ", "CNOT"):
                for r in rows(x):
                    out["white" if x[1] == "Reset" else "filled", t, r] += 1
            if k == "thr" or x[1] == "Measure":
                for r in rows(x):
                    out["meter", t, r] += 1
            elif x[1] in ("CZ", "CNOT"):
                out["link", t, tuple(rows(x))] += 1
                if x[1] == "CNOT":
                    out["target", t, rows(x)[1]] += 1
            else:
                for r in rows(x):
                    out["box", t, r, tex] += 1
        elif k in ("bb", "mw"):
            out[k, t, rows(x)[0], op.name] += 1
        elif k in ("acq", "tacq"):
            out["meter", t, rows(x)[0]] += 1
            out["white", t, rows(x)[0]] += 1
        if k in ("thr", "tacq"):
            seen[x[2]] = (t, rows(x)[0])

    def visit(node, t):
        k = node[0]
        if k == "sub":
            for s, (x, _) in zip(layout(node)[0], node[1]):
                visit(x, t + s)
            return
        if k not in ("loop", "cond"):
            return shape(node, t)
        visit(node[2], t)
        end = t + depth(node) - 1
        inv = sorted({r for x in leaves(node[2]) for r in rows(x)})
        spans = [(0, n - 1)] if len(inv) == n else [(r, r) for r in inv]
        if k == "loop":
            for a, b in spans:
                out["bracket", t - .35, a, b] += 1
                out["bracket", end + .35, a, b] += 1
                out["times", end + .45, b, node[1]] += 1
            return
        mt, mr = seen[node[1]]
        if node[2][0] == "sub":
            for a, b in spans:
                out["frame", t, end, a, b] += 1
                out["arrow", mt, mr, t - .45, b + .4] += 1
            out["m=1", mt - .1, mr] += 1
        else:
            for r in inv:
                out["arrow", mt, mr, t, r + .25] += 1
                out["m=1", mt + .5, mr] += 1
    visit(top, 0)
    return names, Counter({(k[0], *(round(x, 3) if isinstance(x, (int, float)) else x for x in k[1:])): v for k, v in out.items()})


def drawn(ax):
    """The artists on the axes, by kind and place."""
    from matplotlib import patches, text
    from matplotlib.collections import PolyCollection
    out = Counter()
    f = lambda x: round(float(x), 3)      # noqa: E731
    near = lambda v: min(range(-1, 9), key=lambda i: abs(i - v))      # noqa: E731
    filled, dashed = set(), set()
    for c in ax.collections:
        if isinstance(c, PolyCollection):
            b = c.get_paths()[0].get_extents()
            filled.add((f((b.x0 + b.x1) / 2), near(b.y0)))
    for l in ax.lines:
        if len(l.get_xdata()) > 10 and l.get_linestyle() == "--":
            dashed.add((f((l.get_xdata()[0] + l.get_xdata()[-1]) / 2), near(l.get_ydata()[0])))
    for t in ax.texts:
        x, y = t.get_position()
        s = t.get_text()
        if isinstance(t, text.Annotation):
            (a, b), (c, d) = t.xy, t.xyann
            if f(a) == f(c):
                out["bracket", f(a), f(b + .3), f(d - .3)] += 1
            else:
                out["arrow", f(c), f(d - .25), f(a), f(b)] += 1
        elif s == "m=1":
            out["m=1", f(x), f(y - .5)] += 1
        elif s[:1] == "x" and s[1:].isdigit() and abs(y % 1 - .35) < 1e-6:
            out["times", f(x), f(y - .35), int(s[1:])] += 1
        elif abs(y % 1) < 1e-6:
            out["box", f(x), f(y), s] += 1
        else:
            r = near(y - .45)
            kind, where = ("bb", filled) if s == "SquarePulse" else ("mw", dashed)
            out[kind if any(abs(p - x) < .01 and q == r for p, q in where) else "label", f(x), r, s] += 1
    for p in ax.patches:
        if isinstance(p, patches.Wedge):
            out["meter", f(p.center[0]), near(p.center[1])] += 1
        elif isinstance(p, patches.Rectangle) and p.get_fill():
            white = min(p.get_facecolor()[:3]) > .99
            out["white" if white else "filled", f(p.get_x() + p.get_width() / 2), f(p.get_y() + p.get_height() / 2)] += 1
        elif isinstance(p, patches.Rectangle):
            out["frame", f(p.get_x() + .45), f(p.get_x() + p.get_width() - .45), f(p.get_y() + .45), f(p.get_y() + p.get_height() - .5)] += 1
    for l in ax.lines:
        if l.get_marker() == "o":
            out["link", f(l.get_xdata()[0]), tuple(int(y) for y in l.get_ydata())] += 1
        elif l.get_marker() == "+":
            ys = l.get_ydata()
            out["target", f(l.get_xdata()[0]), f(ys[0] if hasattr(ys, "__len__") else ys)] += 1
    return out


def run(case):
    import matplotlib.pyplot as plt
    names, want = expected(case)
    s = build(case)
    before = s.to_json() if not any(x[0] in ("nco",) for x in leaves(case)) else None
    try:
        fig, ax = s.plot_circuit_diagram()
    except Exception as e:
        raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
    try:
        labels = [t.get_text() for t in ax.get_yticklabels()]
        ticks = [float(y) for y in ax.get_yticks()]
        got = drawn(ax)
        lim = ax.get_xlim()
    finally:
        plt.close(fig)
    rows = [n for _, n in sorted(zip(ticks, labels))]
    if rows != names or sorted(ticks) != list(range(len(names))):
        raise Violation("rows", f"rows {dict(zip(labels, ticks))} instead of {names}")
    end = depth(case) - 1
    kinds = ("box", "white", "filled", "meter", "link", "target", "bb", "mw", "bracket", "times", "frame", "arrow", "m=1")
    for what in kinds:
        a = {k: v for k, v in got.items() if k[0] == what}
        b = {k: v for k, v in want.items() if k[0] == what}
        if a != b:
            raise Violation(f"wrong-{what}", f"drawn {dict((Counter(a) - Counter(b)))}, missing {dict(Counter(b) - Counter(a))}")
    odd = [k for k in got if k[0] not in kinds]
    if odd:
        raise Violation("wrong-label", f"{odd}")
    if not lim[0] < 0 or not lim[1] > end:
        raise Violation("cut-off", f"the axis ends at {lim}, the last column is {end}")
    if before is not None and s.to_json() != before:
        raise Violation("modifies-schedule", "drawing changes the schedule")
    return R("ok", len(want), len(leaves(case)), 1, str(sorted(map(str, want.items()))))


def seqs(alpha, n, cons):
    for w in itertools.product(alpha, repeat=n):
        for tc in itertools.product(*[[c for c in cons if c is None or c[0] < i] for i in range(1, n)]):
            yield ("sub", tuple(zip(w, (None, *tc))))


def main():
    c = Check("C30", rule=NOTE, level=LEVEL, assumptions=["operations follow each other or start together (no extra delays), so that they stand in columns"])
    import matplotlib
    matplotlib.use("agg")
    g = lambda n, *a: ("g", n, a)      # noqa: E731
    ops = [g("X", "q0"), g("Y90", "q1"), g("Rxy", 40., 20., "q2"), g("H", "q0", "q2"), g("Rz", 30., "q1"), g("CZ", "q0", "q2"), g("CNOT", "q2", "q1"), g("Reset", "q0", "q1"),
           g("Measure", "q1"), g("Measure", "q0", "q2"), ("bb", "q0:fl"), ("mw", "q1:mw"), ("bb", "aux:fl"), ("acq", "q0:res"), ("acq", "line"), ("nco",), ("idle",)]
    cons = [None, (0, "start"), (0, "end"), (1, "start"), (1, "end")]
    work = [x for n in (1, 2) for x in seqs(ops, n, cons)]
    few = [ops[0], ops[5], ops[7], ops[9], ops[10], ops[12], ops[16]]
    work += list(seqs(ops[::2] if not THOROUGH else ops, 3, cons))
    c.explore(run, work, label="operations")
    # several ports, known and unknown, next to gates of 1..3 elements
    P = ["q0:mw", "q0:fl", "q1:mw", "q2:res", "aux:fl", "flux_line", "q3:mw"]
    work = []
    for els in ((), ("q0",), ("q1", "q0"), ("q0", "q1", "q2")):
        for n in (1, 2, 3, 4):
            for ps in itertools.permutations(P, n) if n < 4 or THOROUGH else itertools.combinations(P, n):
                for k in ("bb", "mw", "acq") if n < 3 else ("bb",):
                    work.append(("sub", tuple((x, None) for x in ([g("X", e) for e in els] + [(k, p) for p in ps]))))
                if els:
                    work.append(("sub", tuple((x, None) for x in ([("bb", p) for p in ps] + [g("Measure", *els)]))))
    c.explore(run, work, label="ports")
    # control flow
    S = lambda *xs: ("sub", tuple((x, None) if not isinstance(x[0], tuple) else x for x in xs))      # noqa: E731
    bodies = [*few, S(ops[0]), S(ops[0], ops[1]), S(ops[0], (ops[1], (0, "start"))), S(ops[7], ops[10], ops[8]), S(ops[5], S(ops[0], ops[2])), S(ops[14], ops[0])]
    flow = []
    for b in bodies:
        for n in (1, 5):
            flow.append(("loop", n, b))
    flow += [("loop", 2, S(("loop", 3, b), ops[8])) for b in bodies[:9]]
    flow += bodies[len(few):]
    work = []
    for f in flow:
        work += [S(f), S(f, ops[0]), S(ops[3], f), S(ops[3], f, ops[9]), S(ops[3], S(ops[1], f, ops[0]), ops[8]), S(f, f), S(ops[4], f, f, ops[12]), S(f, ("bb", "q1:fl"), f)]
        work += [S(ops[3], (f, (0, "start"))), S(ops[3], f, (ops[8], (1, "start"))), S(ops[3], f, (ops[11], (0, "end")))]
        work += [S(S(ops[0], ops[3], ops[1]), (f, (0, "start")), ops[8]), S(f, (("loop", 4, S(ops[1], ops[5])), (0, "start")), (ops[9], (0, "end")))]
    work = [w for w in work if expected(w)[0]]
    c.explore(run, work, label="loops and sub-schedules")
    work = []
    for m in (("thr", "q1", "lab"), ("tacq", "q2:res", "lab"), ("thr", "q0", "lab")):
        for b in bodies + flow[:8]:
            cd = ("cond", "lab", b)
            work += [S(m, cd), S(ops[3], m, cd, ops[8]), S(m, ops[0], cd), S(m, S(cd, ops[1]), ops[2]), S(ops[9], m, ops[4], cd, ops[6])]
            work += [S(m, cd, ("thr", "q2", "other"), ("cond", "other", b)), S(m, cd, ("thr", "q2", "lab"), cd), S(("thr", "q2", "lab"), ops[0], m, cd), S(("loop", 3, S(m, cd)), ops[7]), S(ops[0], ("loop", 3, S(m, cd, ops[1])), ops[7])]
    c.explore(run, work, label="conditionals")
    c.finish(("ok",))


if __name__ == "__main__":
    main()
