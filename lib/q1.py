"""A small executable model of the Qblox Q1 sequence processor.

Written from the public description of the Q1ASM instruction set, not from the
compiler under test.  It executes the *text* of a compiled program and yields
the real-time behaviour: what is played, acquired, latched, and when.

Semantics modelled
  * classical instructions (move/add/sub/loop/jmp/...) take no real time;
  * ``set_*`` / ``reset_ph`` write latched parameters, which become active at
    the next real-time instruction that latches (upd_param, play, acquire*);
  * every real-time instruction with a duration advances the time line by it;
  * ``set_cond``: when the condition is false, every following real-time
    instruction *with a duration* is replaced by a wait of ``else_duration``
    and parameter instructions have no effect;
  * ``set_latch_en`` / ``latch_rst``: counting of network triggers.
"""
from __future__ import annotations

import re

MASK32 = (1 << 32) - 1
LINE = re.compile(
    r"^\s*(?:(?P<label>[A-Za-z_]\w*):)?\s*(?P<ins>[a-z_]+)?\s*(?P<args>[^#]*?)\s*(?:#.*)?$"
)
REG = re.compile(r"^R(\d+)$")
N_REGS = 64

# instruction -> number of arguments; last argument is a duration for RT ones
RT = {
    "play": 3, "acquire": 3, "acquire_weighed": 5, "acquire_ttl": 4, "wait": 1,
    "wait_sync": 1, "upd_param": 1, "set_latch_en": 2, "latch_rst": 1,
    "wait_trigger": 2, "acquire_timetags": 5, "upd_thres": 3, "acquire_digital": 3,
}
PARAM = {
    "set_mrk": 1, "set_freq": 1, "reset_ph": 0, "set_ph": 1, "set_ph_delta": 1,
    "set_awg_gain": 2, "set_awg_offs": 2, "set_digital": 3, "set_time_ref": 0,
    "set_scope_en": 1, "set_cond": 4,
}
CLASSIC = {
    "move": 2, "not": 2, "add": 3, "sub": 3, "and": 3, "or": 3, "xor": 3,
    "asl": 3, "asr": 3, "jmp": 1, "loop": 2, "jge": 3, "jlt": 3, "nop": 0,
    "stop": 0, "illegal": 0,
}
LATCHING = {"play", "acquire", "acquire_weighed", "acquire_ttl", "upd_param",
            "acquire_timetags", "acquire_digital"}
MAX_DUR = 65535
INT_LIMIT = {  # instruction -> list of (arg position, lo, hi) for immediates
    "set_awg_gain": [(0, -32768, 32767), (1, -32768, 32767)],
    "set_awg_offs": [(0, -32768, 32767), (1, -32768, 32767)],
    "set_ph_delta": [(0, 0, 1000000000)],
    "set_ph": [(0, 0, 1000000000)],
    "set_freq": [(0, -2_000_000_000, 2_000_000_000)],
    "set_mrk": [(0, 0, 15)],
}


class Q1Error(Exception):
    """The program text is not a legal Q1 program."""


def parse(text):
    code, labels = [], {}
    pending = []
    for ln, raw in enumerate(text.split("\n")):
        m = LINE.match(raw)
        if not m:
            raise Q1Error(f"unparsable line {ln}: {raw!r}")
        if m["label"]:
            if m["label"] in labels or m["label"] in pending:
                raise Q1Error(f"duplicate label {m['label']}")
            pending.append(m["label"])
        if m["ins"]:
            ins = m["ins"]
            args = [a.strip() for a in m["args"].split(",")] if m["args"] else []
            want = RT.get(ins, PARAM.get(ins, CLASSIC.get(ins)))
            if want is None:
                raise Q1Error(f"unknown instruction {ins!r} in line {raw!r}")
            if len(args) != want:
                raise Q1Error(f"{ins} takes {want} arguments: {raw!r}")
            for lab in pending:
                labels[lab] = len(code)
            pending = []
            pargs = []
            for a in args:
                if REG.match(a):
                    r = int(a[1:])
                    if not 0 <= r < N_REGS:
                        raise Q1Error(f"register out of range: {raw!r}")
                    pargs.append(("R", r))
                elif a.startswith("@"):
                    pargs.append(("L", a[1:]))
                else:
                    try:
                        pargs.append(("I", int(a)))
                    except ValueError:
                        raise Q1Error(f"bad argument {a!r} in {raw!r}") from None
            code.append((ins, pargs, raw))
        elif m["args"]:
            raise Q1Error(f"unparsable line {ln}: {raw!r}")
    for lab in pending:
        labels[lab] = len(code)
    for ins, pargs, raw in code:
        for k, v in pargs:
            if k == "L" and v not in labels:
                raise Q1Error(f"undefined label in {raw!r}")
        for pos, lo, hi in INT_LIMIT.get(ins, ()):
            k, v = pargs[pos]
            if k == "I" and not lo <= v <= hi:
                raise Q1Error(f"immediate out of range in {raw!r}")
        if ins in RT:
            k, v = pargs[-1]
            if k == "I" and not 4 <= v <= MAX_DUR:
                raise Q1Error(f"duration out of range in {raw!r}")
    return code, labels


class Trace:
    """Result of one execution."""

    __slots__ = ("events", "end", "sync", "steps", "rt_count", "cond_evals", "max_reg")

    def __init__(self):
        self.events = []   # (t, kind, *payload) t relative to end of wait_sync
        self.end = 0
        self.sync = None
        self.steps = 0
        self.rt_count = 0
        self.cond_evals = []
        self.max_reg = -1


def s32(x):
    x &= MASK32
    return x - (1 << 32) if x >= (1 << 31) else x


def run(text, cond=None, triggers=None, read_settings=None, max_steps=400_000,
        init_gain=(32767, 32767), init_offs=(0, 0)):
    """Execute a program.

    cond: callable(k, mask, op, t) -> bool deciding set_cond truth directly; or
    None, in which case trigger counters are modelled from ``triggers`` (list of
    (t_arrival, address)) and ``read_settings`` {address: (threshold, invert)}.
    Times are relative to the end of wait_sync.
    """
    code, labels = parse(text)
    regs = [0] * N_REGS
    written = set()
    tr = Trace()
    ev = tr.events
    t = 0
    pc = 0
    synced = False
    lat = {}           # latched but not active
    deltas = []        # pending phase deltas / resets, in order
    cond_on = False
    cond_true = True
    else_dur = 0
    ncond = 0
    latch_enabled_at = None
    latch_windows_start = None   # counters count triggers with t in [start, now]
    n = len(code)

    def val(a):
        k, v = a
        if k == "I":
            return v
        if k == "R":
            if v not in written:
                raise Q1Error(f"read of uninitialised register R{v}")
            return regs[v]
        return labels[v]

    while True:
        if pc >= n:
            raise Q1Error("program runs past its end")
        tr.steps += 1
        if tr.steps > max_steps:
            raise Q1Error("step limit exceeded")
        ins, a, raw = code[pc]
        pc += 1
        if ins in CLASSIC:
            if ins == "stop":
                break
            if ins == "nop":
                continue
            if ins == "illegal":
                raise Q1Error("illegal instruction executed")
            if ins == "move":
                if a[1][0] != "R":
                    raise Q1Error(raw)
                v = val(a[0])
                regs[a[1][1]] = v & MASK32
                written.add(a[1][1])
                tr.max_reg = max(tr.max_reg, a[1][1])
            elif ins == "not":
                regs[a[1][1]] = ~val(a[0]) & MASK32
                written.add(a[1][1])
            elif ins in ("add", "sub", "and", "or", "xor", "asl", "asr"):
                x, y = val(a[0]), val(a[1])
                if a[0][0] != "R" or a[2][0] != "R":
                    raise Q1Error(raw)
                r = {"add": x + y, "sub": x - y, "and": x & y, "or": x | y, "xor": x ^ y,
                     "asl": x << (y & 31), "asr": x >> (y & 31)}[ins]
                regs[a[2][1]] = r & MASK32
                written.add(a[2][1])
                tr.max_reg = max(tr.max_reg, a[2][1])
            elif ins == "jmp":
                pc = val(a[0])
            elif ins == "loop":
                if a[0][0] != "R":
                    raise Q1Error(raw)
                val(a[0])
                regs[a[0][1]] = (regs[a[0][1]] - 1) & MASK32
                if regs[a[0][1]] != 0:
                    pc = val(a[1])
            elif ins == "jge":
                if val(a[0]) >= val(a[1]):
                    pc = val(a[2])
            elif ins == "jlt":
                if val(a[0]) < val(a[1]):
                    pc = val(a[2])
            continue

        if ins == "set_cond":
            en, mask, op, ed = (val(x) for x in a)
            if not en:
                cond_on, cond_true = False, True
            else:
                if not 4 <= ed <= MAX_DUR:
                    raise Q1Error(f"else duration out of range: {raw!r}")
                cond_on = True
                else_dur = ed
                if cond is not None:
                    cond_true = bool(cond(ncond, mask, op, t))
                else:
                    bits = []
                    for b in range(15):
                        if mask >> b & 1:
                            addr = b + 1
                            cnt = 0
                            if latch_windows_start is not None:
                                cnt = sum(1 for (tt, ad) in triggers or ()
                                          if ad == addr and latch_windows_start <= tt <= t)
                            th, inv = (read_settings or {}).get(addr, (1, False))
                            hit = cnt >= th
                            bits.append(hit != bool(inv))
                    s = sum(bits)
                    cond_true = {0: s > 0, 1: s == 0, 2: s == len(bits), 3: s < len(bits),
                                 4: s % 2 == 1, 5: s % 2 == 0}[op]
                tr.cond_evals.append((t, mask, op, cond_true))
                ncond += 1
            continue

        skip = cond_on and not cond_true
        if ins in PARAM:
            if skip:
                continue
            v = tuple(val(x) for x in a)
            if ins == "set_mrk":
                lat["mrk"] = v[0]
            elif ins == "set_freq":
                lat["freq"] = s32(v[0]) if v[0] > 2**31 else v[0]
            elif ins == "reset_ph":
                deltas.append(("reset",))
            elif ins == "set_ph":
                deltas.append(("set", v[0]))
            elif ins == "set_ph_delta":
                deltas.append(("delta", v[0]))
            elif ins == "set_awg_gain":
                lat["gain"] = tuple(s32(x) for x in v)
            elif ins == "set_awg_offs":
                lat["offs"] = tuple(s32(x) for x in v)
            elif ins == "set_digital":
                # one-shot per update
                lat.setdefault("digital", []).append(v)
            elif ins == "set_time_ref":
                lat["timeref"] = True
            elif ins == "set_scope_en":
                lat["scope"] = v[0]
            continue

        # real-time instruction with a duration
        tr.rt_count += 1
        dur = val(a[-1])
        if not 4 <= dur <= MAX_DUR:
            raise Q1Error(f"duration {dur} out of range in {raw!r}")
        if skip:
            t += else_dur
            continue
        if ins == "wait_sync":
            if synced:
                raise Q1Error("second wait_sync")
            synced = True
            # wait_sync releases all sequencers together
            tr.sync = t
            base_shift = t + dur
            for i, e in enumerate(ev):
                ev[i] = (e[0] - base_shift,) + e[1:]
            t = 0
            continue
        if ins in LATCHING:
            if lat or deltas:
                for d in deltas:
                    ev.append((t, "phase") + d)
                deltas = []
                for k, v in lat.items():
                    ev.append((t, k, tuple(v) if isinstance(v, list) else v))
                lat = {}
        if ins == "play":
            ev.append((t, "play", val(a[0]), val(a[1])))
        elif ins == "acquire":
            ev.append((t, "acq", val(a[0]), val(a[1])))
        elif ins == "acquire_weighed":
            ev.append((t, "acqw", val(a[0]), val(a[1]), val(a[2]), val(a[3])))
        elif ins == "acquire_ttl":
            ev.append((t, "ttl", val(a[0]), val(a[1]), val(a[2])))
        elif ins == "acquire_timetags":
            ev.append((t, "timetags", val(a[0]), val(a[1]), val(a[2]), val(a[3])))
        elif ins == "acquire_digital":
            ev.append((t, "acqd", val(a[0]), val(a[1])))
        elif ins == "upd_thres":
            ev.append((t, "thres", val(a[0]), val(a[1])))
        elif ins == "set_latch_en":
            en = val(a[0])
            ev.append((t, "latch_en", en))
            if en and latch_enabled_at is None:
                latch_enabled_at = t
                latch_windows_start = t
        elif ins == "latch_rst":
            ev.append((t, "latch_rst"))
            if latch_enabled_at is not None:
                latch_windows_start = t
        t += dur
    if deltas or any(k in ("offs", "freq") for k in lat):
        ev.append((t, "unlatched", tuple(lat), tuple(deltas)))
    if cond_on:
        raise Q1Error("program stops with conditionality enabled")
    tr.end = t
    return tr
