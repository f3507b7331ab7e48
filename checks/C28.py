"""C28: injected assembly runs in place and disturbs nothing around it."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import numpy as np
from lib import icsim, q1, ref, rig, rigs, sigcheck  # noqa: E402

TECHNIQUE = ("bounded exhaustive enumeration of schedules around inline assembly blocks; the emitted programs are executed by a "
             "Q1ASM interpreter and compared per nanosecond with a reference signal in which each block plays its own effects")
NOTE = ("Every sequence of up to three (thorough: four) operations with at least one block, over blocks using waveforms, loops, "
        "jumps, many registers, offsets and phase shifts and over pulses, offsets, loops, sub-schedules, acquisitions and long waits "
        "on the same and other outputs, times repetitions; also blocks in conditionals for both outcomes. Blocks end with their "
        "parameters latched and last as long as they declare. Trusts the Q1 model.")

RG = rigs.main_rig()
AQ = rigs.acq_rig()
W5 = [round(.1 * i - .45, 3) for i in range(10)]
W6 = [.5] * 12


def wv(samples, gain):
    return np.asarray(samples, dtype=float) * (gain / 32768)


def cx(samples, g0, g1):
    return wv(samples, g0) + 1j * wv(samples, g1)


MANY = "".join(f" move {i * 1000 + 1},R{i}\n" for i in range(56))
BLOCKS = {
    # a wave with its own index and name, gains that differ from the compiler's
    "play": dict(program=" set_awg_gain 16384,0\n play 5,5,20 # own wave\n", dur=20, waveforms={"w5": {"data": W5, "index": 5}},
                 effects=[(0, "wave", cx(W5, 16384, 0))]),
    "zero": dict(program="set_awg_gain -8192, 16384\nplay 0,1,24", dur=24,
                 waveforms={"za": {"data": W6, "index": 0}, "zb": {"data": W5, "index": 1}},
                 effects=[(0, "wave", np.concatenate([wv(W6, -8192) + 1j * np.concatenate([wv(W5, 16384), [0, 0]])]))]),
    # a loop with the names the compiler uses, and one of its registers
    "loop": dict(program="\n# nothing here\n move 3,R0 # start: count @loop\nstart: set_awg_gain 8192,0\n  play 7,7,20\n\tloop R0,@start\n",
                 dur=60, waveforms={"w7": {"data": W5, "index": 7}}, effects=[(20 * i, "wave", cx(W5, 8192, 0)) for i in range(3)]),
    "nested": dict(program="""
        move 2,R1
loop1:  move 2,R0
loop2:  set_awg_gain 4096,0
        play 9,9,12
        loop R0,@loop2
        wait 8
        loop R1,@loop1
        """, dur=64, waveforms={"w9": {"data": W5, "index": 9}},
                   effects=[(a + b, "wave", cx(W5, 4096, 0)) for a in (0, 32) for b in (0, 12)]),
    "wait": dict(program="wait 40", dur=40, effects=[]),
    "regs": dict(program=MANY + " wait 8", dur=8, effects=[]),
    "jump": dict(program="jmp @end\nillegal\nstart: stop\nend: wait 12", dur=12, effects=[]),
    "sum": dict(program="move 10,R3\nmove 6,R63\nnop\nadd R3,R63,R10\nnop\nwait R10\n", dur=16, effects=[]),
    "offs": dict(program="set_awg_offs 8192,0\nupd_param 4\nwait 16\nset_awg_offs 0,0\nupd_param 4\n", dur=24,
                 effects=[(0, "off", .25 + 0j), (20, "off", 0j)]),
    "phase": dict(program="set_ph_delta 250000000\nupd_param 4\nwait 4\n", dur=8, effects=[(0, "phase", 90.0)]),
    "empty": dict(program="", dur=0, effects=[]),
    "label": dict(program="here:\nthere: nop\nwait 4", dur=4, effects=[]),
}
BAD = {
    "syntax": dict(program="play 0 0 4", dur=4, effects=[]), "upper": dict(program="WAIT 4", dur=4, effects=[]),
    "colon": dict(program="a b: wait 4", dur=4, effects=[]), "joined": dict(program="wait R1R2", dur=4, effects=[]), "minus": dict(program="wait -R1", dur=4, effects=[]),
    "semicolon": dict(program="wait 4; wait 4", dur=8, effects=[]),
    "float": dict(program="wait 4.0", dur=4, effects=[]), "name": dict(program="wait N", dur=4, effects=[]),
    "comma": dict(program="set_awg_gain 1,,2", dur=0, effects=[]), "digit": dict(program="1a: wait 4", dur=4, effects=[]),
    "manyregs": dict(program="".join(f"move 1,R{i}\n" for i in range(64)) + "wait 4", dur=4, effects=[]),
    "sameindex": dict(program="play 5,5,4", dur=4, waveforms={"other": {"data": W6, "index": 5}}, effects=[]),
    "samename": dict(program="play 6,6,4", dur=4, waveforms={"w5": {"data": W6, "index": 6}}, effects=[]),
    "large": dict(program="play 3,3,4", dur=4, waveforms={"big": {"data": [.1] * 16385, "index": 3}}, effects=[]),
    "highindex": dict(program="play 1024,1024,4", dur=4, waveforms={"hi": {"data": [.1] * 8, "index": 1024}}, effects=[]),
}
ref.BLOCKS.update(BLOCKS)
ref.BLOCKS.update(BAD)


def names(items):
    """The blocks of a schedule with their line."""
    out = []
    for it in items:
        n = ref.split(it)[0]
        if n[0] == "asm":
            out.append((n[1], n[2]))
        elif n[0] in ("sub", "loop", "cond"):
            out += names(n[2] if n[0] != "sub" else n[1])
    return out


def repeated_waves(items):
    """Blocks that bring the same waveforms to one output twice are refused."""
    w = [(ln, x) for ln, b in names(items) for x in ref.BLOCKS[b].get("waveforms", ())]
    return len(w) != len(set(w))


def run(case):
    items, reps = case
    items = list(items)
    try:
        r = sigcheck.check_signals(RG, items, reps)
    except Violation as v:
        if v.args[0] == "rejects-valid" and repeated_waves(items) and "Duplicate waveform name" in v.args[1]:
            return R("refused:repeated waveforms")
        if v.args[0] == "rejects-valid" and "-4 ns before Pulse InlineQ1ASM" in v.args[1] and any(f"('{k}'" in repr(items) for k in ('phase', 'off')):
            return R("refused:parameter change without time before a block")  # a block need not latch it
        if v.args[0] == "long-pulse-drops-voltage-offset":  # C02's finding
            return R("refused:long pulse after an offset")
        raise
    return r


def without(items):
    """The same schedule where every block is an idle time."""
    out = []
    for it in items:
        n, kw = ref.split(it)
        if n[0] == "asm":
            n = ("idle", ref.BLOCKS[n[2]]["dur"])
        elif n[0] == "loop":
            n = ("loop", n[1], without(n[2]), *n[3:])
        elif n[0] == "sub":
            n = ("sub", without(n[1]), *n[2:])
        out.append((n, kw) if kw else n)
    return out


def labels(case):
    """Compile and hand the programs to the vendor's assembler."""
    items, reps = case
    RG.use()
    try:
        comp = RG.compile(ref.build(list(items), repetitions=reps, clocks=RG.clocks))
    except Exception:
        return R("refused")
    n = 0
    for line, lst in RG.sequencers(comp).items():
        e = icsim.assemble(lst[0][2].sequence["program"])
        n += 1
        if e:
            raise Violation("does-not-assemble", f"{line}: {e}")
    return R("ok", 1, n, n)


def refused(case):
    items, why = case
    RG.use()
    try:
        RG.compile(ref.build(list(items), clocks=RG.clocks))
    except Exception as e:
        return R(f"refused:{type(e).__name__}", 1, 1, 1)
    raise Violation("bad-block-accepted", why)


def acquisitions(case):
    """The block shares a program with acquisitions: bins and times stay as without it."""
    items, reps = case
    items = list(items)
    RG.use()
    T = ref.layout(items)[1]
    try:
        comp = RG.compile(ref.build(items, repetitions=reps, clocks=RG.clocks))
    except Exception as e:
        if repeated_waves(items):
            return R("refused")
        raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
    n = m = 0
    eff = ref.flatten(items)
    other = RG.compile(ref.build(without(items), repetitions=reps, clocks=RG.clocks))
    idle = {line: [(e[0], e[3]) for e in rig.execute(lst[0][2]).tr.events if e[1].startswith("acq")]
            for line, lst in RG.sequencers(other).items()}
    for line, lst in RG.sequencers(comp).items():
        try:
            sr = rig.execute(lst[0][2])
        except q1.Q1Error as e:
            raise Violation("illegal-program", f"{line}: {e}") from None
        got = [(e[0], e[3]) for e in sr.tr.events if e[1].startswith("acq")]
        exp = idle.get(line, [])
        if got != exp:
            raise Violation("acquisitions-differ", f"{line}: {got} instead of {exp}")
        t0 = 12
        a, b = sr.render(t0, t0 + reps * (T + 4))
        w = rig.ref_signal(eff, line, T, reps, T + 4)
        for g, x in ((a, w.real), (b, w.imag)):
            if not rig.close(g, x, sigcheck.TOL):
                raise Violation("signal-differs", f"{line}: " + rig.first_diff(g, x, sigcheck.TOL))
        n += len(got)
        m += sr.tr.steps
    return R("ok", n, m, 1, distinct=tuple(map(str, items)))


def conditional(case):
    items, reps, outcome = case
    items = list(items)
    AQ.use()
    T = ref.layout(items)[1]
    try:
        comp = AQ.compile(ref.build(items, repetitions=reps, clocks=AQ.clocks))
    except Exception as e:
        return R(f"refused:{type(e).__name__}", 1, 1, 1)
    eff = ref.flatten(items)
    if not outcome:
        eff = [e for e in eff if not any(c[0] == "cond" for c in e[4])]
    # The body starts 4 ns late when it is announced by set_cond: C06 decides where; only shifts matter here.
    ends = {}
    n = 0
    for line, lst in AQ.sequencers(comp).items():
        try:
            sr = rig.execute(lst[0][2], cond=lambda k, m, op, t: (op == 0) == outcome)
        except q1.Q1Error as e:
            raise Violation("illegal-program", f"{line}: {e}") from None
        ends[line] = sr.tr.end
        n += sr.tr.steps
        body = [e for e in eff if e[2] == line and e[1] == "wave"]
        plays = [e for e in sr.tr.events if e[1] == "play"]
        if line == "mw":
            pat = sorted(12 + r * (T + 4) + e[0] for r in range(reps) for e in body)
            if [e[0] for e in plays] != pat:
                raise Violation("conditional-block-moved", f"{line}: plays at {[e[0] for e in plays]} instead of {pat}")
    if len(set(ends.values())) != 1:
        raise Violation("conditional-block-duration", f"programs end at {ends} with the condition {outcome}")
    return R("ok", 1, n, 1, distinct=str(case))


# ------------------------------------------------------------------ spaces

def A(line, name, **kw):
    return ("asm", line, name) + ((kw,) if kw else ())


GOOD = ("play", "loop", "nested", "wait", "regs", "jump", "sum", "offs", "phase", "zero")


def around():
    s = ("idle", 40)
    return [("sq", "mw", 20, .3), ("sq", "fl", 20, -.5), ("idle", 8), ("off", "mw", .2, -.1), ("num", "mw", (.1, .2, .3, .2)),
            ("loop", 3, [("sq", "mw", 20, .25), s]), ("loop", 2, [("loop", 2, [("sq", "mw", 20, .25)]), s]), ("idle", 200000),
            ("phase", "q.01", 30.0), ("sq", "mw", 120, .25)]


def wrapped(line):
    out = []
    for b in GOOD:
        if line == "fl" and b in ("phase",):
            continue
        out += [A(line, b), ("loop", 3, [A(line, b), ("idle", 4)]), ("sub", [("idle", 4), A(line, b), ("idle", 4)])]
        if b in ("loop", "nested", "regs", "offs"):
            out += [("loop", 2, [("sq", line, 20, .2), ("loop", 2, [A(line, b), ("sq", line, 12, .1)]), ("idle", 8)])]
    return out


def cases():
    out = []
    end = ("idle", 8)
    for line in ("mw", "fl"):
        wr = wrapped(line)
        ar = [x for x in around()]
        for b in wr:
            for reps in (1, 2, 3):
                out.append(((b,), reps))
                out.append(((b, end), reps))
            for x in ar:
                out += [((b, x, end), 2), ((x, b, end), 2), ((x, b, x, end), 1), ((b, x), 1)]
            for x, y in itertools.product(ar, repeat=2):
                out.append(((x, b, y, end), 2))
                if THOROUGH:
                    out += [((x, y, b, end), 2), ((b, x, y, end), 3)]
        for b, c in itertools.product(wr, repeat=2):
            out += [((b, c, end), 1), ((b, ("sq", line, 20, .3), c, end), 2)]
        if THOROUGH:
            for x in ar:
                for b, c in itertools.product(wr, repeat=2):
                    out.append(((b, x, c, end), 1))
    # blocks on several outputs, at the same time and while others play
    for l1, l2 in (("mw", "fl"), ("mw", "res"), ("fl", "f2"), ("iq", "bb"), ("mw", "iq")):
        for b, c in itertools.product(GOOD[:8] + ("zero",), repeat=2):
            out.append(((A(l1, b), (A(l2, c), {"ref": 0, "pt": "start"}), ("idle", 80)), 2))
            out.append(((("sq", l2, 60, .3), (A(l1, b), {"ref": 0, "pt": "start", "rel": 8}), (A(l2, c), {"ref": 0}), ("idle", 80)), 1))
    # labels left as they are
    for b in GOOD:
        out.append(((A("mw", b), A("mw", "wait"), end), 2) if b in ("loop", "jump") else ((A("mw", b, safe_labels=False), end), 2))
    return out


def acq_cases():
    out = []
    s = ("idle", 400)
    for mode in ("APPEND", "AVERAGE"):
        for line in ("res", "bb"):
            for b in GOOD[:8] + ("zero",):
                a = ("acq", "ssb", line, 100, 0, None, mode, None)
                a2 = ("acq", "ssb", line, 100, "x", None, mode, None)
                B = A(line, b)
                for its in ([a, s, B, s], [B, a, s], [B, a, s, B, s], [("loop", 3, [a, s, B])], [("loop", 2, [a, s]), B, ("loop", 3, [a, s])],
                            [("loop", 2, [B, ("loop", 2, [a, s]), s])], [("sub", [a, s, B]), a, s], [a2, s, B, a, s]):
                    if its[-1] == B:
                        its = its + [s]
                    multi = any(i[0] == "loop" for i in its) and len({x[4] for x in its if x[0] == "acq"}) > 1
                    for reps in (1, 2, 3):
                        if multi or (its[0] == a2 and mode == "APPEND"):
                            continue
                        out.append((tuple(its), reps))
    return out


def cond_cases():
    H = {"hardware_buffer_time": 4e-9}
    acq = ("acq", "thr", "res", 100, 0, None, "APPEND", {"feedback_trigger_label": "q", "acq_threshold": .5, "acq_rotation": 0})
    out = []
    for b in GOOD:
        for pre in ([], [("sq", "mw", 20, .2)], [("idle", 8)]):
            for post in ([("idle", 8)], [("sq", "mw", 20, .3), ("idle", 8)]):
                body = pre + [A("mw", b)] + post
                for o in (True, False):
                    for reps in (1, 2):
                        out.append(((acq, ("idle", 400), ("cond", "q", body, H), ("sq", "mw", 20, .3), ("idle", 100)), reps, o))
                        out.append(((("loop", 2, [acq, ("idle", 400), ("cond", "q", body, H), ("sq", "mw", 20, .3), ("idle", 100)]),), reps, o))
    return out


def bad_cases():
    out = []
    for b in BAD:
        base = [A("mw", "play"), A("mw", b)] if b.startswith("same") else [A("mw", b)]
        for its in (base + [("idle", 8)], [("loop", 2, base + [("idle", 8)])], [("sub", base + [("idle", 4)]), ("sq", "mw", 20, .1)]):
            out.append((tuple(its), b))
    # an operation of the same output may not start while a block runs
    for b in ("nested", "wait", "loop"):
        for d in (4, 8, 20, 36):
            for x in (("sq", "mw", 20, .3), ("num", "mw", (.1, .2, .3, .2)), A("mw", "wait"), ("off", "mw", .2, 0)):
                out.append(((A("mw", b), (x, {"ref": 0, "pt": "start", "rel": d}), ("idle", 80)), "overlap"))
    out.append((tuple([("asm", "nowhere", "wait")]), "unknown port"))
    return out


def main():
    ck = Check("C28", rule=NOTE, assumptions=[
        "a block latches the parameters it sets and lasts exactly its declared duration",
        "a block that brings the same waveform names to one output twice is refused by design"])

    cs = cases()
    ck.explore(run, cs, label="signals")
    ck.explore(labels, [c for c in cs if len(c[0]) < 4][::1 if THOROUGH else 7], label="assembler")
    ck.explore(acquisitions, acq_cases(), label="acquisitions")
    ck.explore(conditional, cond_cases(), label="conditional")
    ck.explore(refused, bad_cases(), label="bad")
    ck.finish(("signals:ok", "assembler:ok", "acquisitions:ok"))


if __name__ == "__main__":
    main()
