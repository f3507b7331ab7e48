"""Compile a DSL schedule, run it on the Q1 model and compare with the reference signal."""
from __future__ import annotations

import numpy as np

from lib import q1, ref, rig
from lib.common import R, Violation

import os
TOL = 1.5e-4
DEBUG = bool(os.environ.get('VERIF_DEBUG'))


def compile_case(rg, items, reps):
    sched = ref.build(items, repetitions=reps, clocks=rg.clocks)
    return rg.compile(sched)


def check_signals(rg, items, reps=1, want_nco=True, lead_default=4, allow_reject=True, tol=TOL,
                  alt=None):
    rg.use()
    eff = ref.flatten(items)
    T = ref.layout(items)[1]
    try:
        compiled = compile_case(rg, items, reps)
    except Exception as e:
        if allow_reject and not must_accept(rg, items, eff, T, reps):
            return R(outcome="rejected:" + type(e).__name__+(str(e)[:90] if DEBUG else ""), traces=1, distinct=("rej", str(e)[:60]))
        raise Violation("rejects-valid", f"{type(e).__name__}: {e}") from None
    return compare(rg, compiled, eff, T, reps, want_nco, tol, alt)


def compare(rg, compiled, eff, T, reps, want_nco=True, tol=TOL, alt=None, cond=None):
    seqs = rg.sequencers(compiled)
    used = {e[2] for e in eff if e[1] in ("wave", "off") and  # noqa
            (e[1] == "off" or np.any(e[3] != 0))}
    runs = {}
    for short, lst in seqs.items():
        if len(lst) != 1:
            raise Violation("sequencer-count", f"{short} has {len(lst)} sequencers")
        try:
            runs[short] = rig.execute(lst[0][2], cond=cond)
        except q1.Q1Error as e:
            raise Violation("illegal-program", f"{short}: {e}") from None
    for u in used:
        if u not in runs:
            raise Violation("line-missing", f"nothing programmed for {u}")
    if not runs:
        return R(outcome="empty", traces=0)
    # time origin: schedule time 0 is where the first repetition's body starts.
    # The header's phase reset precedes it by a lead common to all sequencers.
    resets = {s: r.origin() for s, r in runs.items()}
    t0s = set(resets.values())
    if None in t0s:
        raise Violation("no-phase-reset", f"{resets}")
    if len(t0s) != 1:
        raise Violation("sequencers-out-of-sync", f"phase resets at {resets}")
    t_reset = t0s.pop()
    ends = {s: r.tr.end for s, r in runs.items()}
    if len(set(ends.values())) != 1:
        raise Violation("unequal-total-time", f"{ends}")
    end = next(iter(ends.values()))
    lead = 4
    t0 = t_reset + lead
    if (end - t_reset) % reps:
        raise Violation("uneven-repetitions", f"{end - t_reset} ns for {reps} repetitions")
    period = (end - t_reset) // reps
    if period - lead != T:
        raise Violation("wrong-total-time", f"repetition lasts {period - lead}, schedule {T}")
    n_ev = 0
    for short, run in sorted(runs.items()):
        n_ev += run.tr.steps
        line = rg.lines[short]
        want = rig.ref_signal(eff, short, T, reps, period)
        got0, got1 = run.render(t0, t0 + reps * period)
        for e in run.tr.events:
            if e[1] == "unlatched":
                if not (set(e[2]) <= {"gain"} and not e[3]):
                    raise Violation("parameter-never-applied", f"{short}: {e}")
            if e[0] < t0 and e[1] == "play":
                raise Violation("early-play", f"{short}: {e}")
        f0 = line[5]
        nco_on = bool(getattr(run.settings, "nco_en", False))
        if line[4]:
            if not rig.close(got0, want.real, tol):
                known_long(eff, short, T, reps, period, got0, True, tol)
                raise Violation("signal-differs", f"{short}: " + rig.first_diff(got0, want.real, tol))
            continue
        got = got0 + 1j * got1
        if nco_on and want_nco:
            fset = run.settings.modulation_freq
            f0 = f0 or 0.0
            if abs(fset - f0) > 1e-3:
                raise Violation("nco-frequency", f"{short}: {fset} vs {f0}")
            g = run.nco(t0, t0 + reps * period, fset)
            clk = dict(rg.clocks).get(line[1], 0.0)
            eff2 = [(e[0], e[1], e[2], e[3] - (clk - f0), e[4])
                    if e[1] == "freq" and e[2] == line[1] else e for e in eff]
            w = rig.ref_nco(eff2, line[1], f0, reps, period, lead)
            # compare the modulated signal where there is any, and the phase there
            act = np.abs(want) > 10 * tol
            act &= (np.arange(reps * period) % period) < T
            d = (g - w + 180) % 360 - 180
            bad = act & (np.abs(d) > 1e-3)
            if not rig.close(got, want, tol):
                known_long(eff, short, T, reps, period, got, False, tol)
                raise Violation("signal-differs", f"{short}: " + rig.first_diff(got, want, tol))
            if bad.any():
                i = int(np.argmax(bad))
                raise Violation("phase-differs", f"{short} at {i} ns: NCO {g[i] % 360:.4f} deg, "
                                f"want {w[i] % 360:.4f}")
        else:
            if f0:
                raise Violation("nco-off", f"{short}")
            if not rig.close(got, want, tol):
                known_long(eff, short, T, reps, period, got, False, tol)
                raise Violation("signal-differs", f"{short}: " + rig.first_diff(got, want, tol))
    return R(outcome="ok", states=sum(len(r.tr.events) for r in runs.values()),
             transitions=n_ev, traces=len(runs),
             distinct=tuple((s, tuple(r.tr.events)) for s, r in sorted(runs.items())))


def known_long(eff, short, T, reps, period, got, real, tol):
    """Exactly the recorded defect: a piecewise pulse drops the offset set before it."""
    alt = rig.ref_signal(eff, short, T, reps, period, alt_long=True)
    if rig.close(got, alt.real if real else alt, tol):
        raise Violation("long-pulse-drops-voltage-offset",
                        f"{short}: an offset set before a long pulse is lost when the pulse starts")


def must_accept(rg, items, eff, T, reps):
    """A sufficient condition for a schedule to be within what the hardware can do.

    On every line: no two real-time events closer than 4 ns (an offset may coincide
    with a pulse), none within 4 ns of a loop boundary or before the end, no overlaps,
    amplitudes within full scale, modest waveform sizes.
    """
    text = repr(items)
    if any(k in text for k in ("'lramp'", "'lstair'", "'acq'", "'mark'", "'cond'")):
        return False
    if T < 4:
        return False
    if concurrent_with_control_flow(items, eff):
        return False
    if reps > 1 and T % 4:
        return False
    bounds = sorted({e[0] for e in eff if e[1] == "bound"} | {T})
    if any(0 < b - a < 4 for a, b in zip(bounds, bounds[1:])):
        return False
    lines = {}
    total = {}
    for e in eff:
        if e[1] in ("wave", "off"):
            lines.setdefault(e[2], []).append(e)
    clk_of = {rg.lines[s][1]: s for s in rg.lines}
    for e in eff:
        if e[1] in ("phase", "reset", "freq"):
            if e[2] not in clk_of or e[0] % 4:
                return False
            lines.setdefault(clk_of[e[2]], []).append(e)
    for short, evs in lines.items():
        seen = {}
        busy = 0
        last = None
        for e in sorted(evs, key=lambda e: e[0]):
            t = e[0]
            if last is not None and 0 < t - last < 4:
                return False
            if last == t and (e[1] in seen.get(t, ())):
                return False
            if e[1] in ("phase", "reset", "freq") and seen.get(t, set()) & {"phase", "reset", "freq"}:
                return False
            seen.setdefault(t, set()).add(e[1])
            last = t
            if any(0 < t - b < 4 for b in bounds):
                return False
            nb = [b for b in bounds if b >= t]
            if nb[0] - t < 4 and not (nb[0] == t and t < T and min(
                    [b for b in bounds if b > t], default=T) - t >= 4):
                return False
            if nb[0] == t and e[1] != "wave":
                return False
            if t < busy:
                return False
            if e[1] == "wave":
                w = e[3]
                if len(w) == 0 or np.max(np.abs(w.real)) > 1 or np.max(np.abs(w.imag)) > 1:
                    return False
                if (100 <= len(w) and len(w) % 2000 < 8) or ("'lsq'" in text and len(w) < 8):
                    return False
                busy = t + len(w)
                total[short, len(w), w.tobytes()] = len(w)
            elif e[1] == "off" and (abs(e[3].real) > 1 or abs(e[3].imag) > 1):
                return False
        if busy > T:
            return False
    return sum(total.values()) < 6000


def concurrent_with_control_flow(items, eff):
    """Some operation is played during a loop or conditional on its line that it is not part of."""
    spans = []

    def walk(its, t, ctx):
        for idx, (st, node) in enumerate(ref.layout(its)[0]):
            a = t + round(st)
            if node[0] == "sub":
                walk(node[1], a, ctx + (("sub", idx),))
            elif node[0] == "comp":
                walk(node[3], a, ctx + (("comp", idx),))
            elif node[0] in ("loop", "cond"):
                body = node[2]
                d, n = ref.layout(body)[1], node[1] if node[0] == "loop" else 1
                inner = ref.flatten(body)
                spans.append((a, a + n * d, ctx, idx, {e[2] for e in inner}))
                for i in range(n if node[0] == "loop" else 1):
                    walk(body, a + i * d, ctx + ((node[0], idx, i, n) if node[0] == "loop" else (node[0], idx, node[1]),))
    walk(items, 0, ())
    clocks = {v[1]: k for k, v in ref.PC.items()}
    for a, b, ctx, idx, lines in spans:
        lines = {clocks.get(x, x) for x in lines if x is not None}
        for e in eff:
            if e[2] is None or clocks.get(e[2], e[2]) not in lines or not a <= e[0] <= b:
                continue
            c = e[4]
            if c[:len(ctx)] == ctx and len(c) > len(ctx) and c[len(ctx)][0] in ("loop", "cond") and c[len(ctx)][1] == idx:
                continue
            if a <= e[0] < b or (e[1] != "wave" and e[0] == b):
                return True
    return False
