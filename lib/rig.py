"""Hardware rigs: compile through the public API, run the result on the Q1 model."""
from __future__ import annotations

import math

import numpy as np

from lib import q1, ref

CT = "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig"


class Rig:
    """One hardware configuration and how its sequencers map to port-clocks."""

    def __init__(self, modules, graph, lines, options=None, clocks=(), cluster="cluster0",
                 compiler_options=None, extra_hw=None, ref_source="internal"):
        """lines: short -> (port, clock, module, channel_name, real?, if_freq or None)"""
        self.modules, self.lines, self.clocks = modules, lines, list(clocks)
        self.cluster = cluster
        mf = {f"{l[0]}-{l[1]}": {"interm_freq": l[5]} for l in lines.values() if l[5] is not None}
        opts = {"modulation_frequencies": mf}
        for k, v in (options or {}).items():
            if k == "modulation_frequencies":
                mf.update(v)
            else:
                opts[k] = v
        self.hw = {
            "config_type": CT,
            "hardware_description": {cluster: {
                "instrument_type": "Cluster", "ref": ref_source,
                "modules": {str(i): ({"instrument_type": t} if isinstance(t, str) else t)
                            for i, t in modules.items()}}, **(extra_hw or {})},
            "hardware_options": opts,
            "connectivity": {"graph": [list(g) for g in graph]},
        }
        if compiler_options:
            self.hw["compiler_options"] = compiler_options
        self._cfg = None

    def use(self):
        ref.PC.clear()
        for k, l in self.lines.items():
            ref.PC[k] = (l[0], l[1])

    def config(self):
        if self._cfg is None:
            from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
            QuantumDevice.close_all()
            qd = QuantumDevice("dut")
            qd.hardware_config(self.hw)
            self._cfg = qd.generate_compilation_config()
            qd.close()
        return self._cfg

    def compile(self, sched):
        from quantify_scheduler.backends import SerialCompiler
        return SerialCompiler("c").compile(sched, self.config())

    def sequencers(self, compiled):
        """short name -> list of (module, seq name, settings)"""
        ins = compiled.compiled_instructions.get(self.cluster, {})
        out = {}
        for mod, m in ins.items():
            if not isinstance(m, dict) or "sequencers" not in m:
                continue
            slot = int(mod.rsplit("module", 1)[1])
            for name, s in m["sequencers"].items():
                for short, l in self.lines.items():
                    if l[2] != slot or s.channel_name != l[3]:
                        continue
                    f = getattr(s, "modulation_freq", None)
                    if l[5] is not None and f is not None and abs(f - l[5]) > 1e-3:
                        continue
                    out.setdefault(short, []).append((mod, name, s))
        return out


class SeqRun:
    """One executed sequencer."""

    def __init__(self, settings, tr, seq):
        self.settings, self.tr, self.seq = settings, tr, seq
        self.waves = {w["index"]: np.asarray(w["data"], float)
                      for w in seq.get("waveforms", {}).values()}
        if len(self.waves) != len(seq.get("waveforms", {})):
            raise q1.Q1Error("two waveforms share an index")
        self.weights = {w["index"]: np.asarray(w["data"], float)
                        for w in (seq.get("weights") or {}).values()}
        self.acqs = {a["index"]: (n, a["num_bins"]) for n, a in
                     (seq.get("acquisitions") or {}).items()}

    def render(self, t_from, t_to):
        """path0, path1 as played in [t_from, t_to), 1 sample per ns."""
        n = t_to - t_from
        p = [np.zeros(n), np.zeros(n)]
        off = [np.zeros(n), np.zeros(n)]
        gains = [[], []]
        g = (32767, 32767)
        plays = []
        for e in self.tr.events:
            if e[1] == "gain":
                g = e[2]
                for i in (0, 1):
                    gains[i].append((e[0], g[i]))
            elif e[1] == "offs":
                a = max(e[0] - t_from, 0)
                for i in (0, 1):
                    off[i][a:] = e[2][i] / 32768
            elif e[1] == "play":
                plays.append((e[0], e[2], e[3]))
        for j, (t, w0, w1) in enumerate(plays):
            stop = plays[j + 1][0] if j + 1 < len(plays) else 1 << 60
            for i, w in ((0, w0), (1, w1)):
                if w not in self.waves:
                    raise q1.Q1Error(f"play of missing waveform {w}")
                d = self.waves[w]
                gi = 32767
                for tt, gg in gains[i]:
                    if tt <= t:
                        gi = gg
                    else:
                        if tt < min(stop, t + len(d)) and gg != gi:
                            # gain changes while the waveform plays
                            d = np.concatenate([d[:tt - t], d[tt - t:] * (gg / gi if gi else 0)])
                seg = d[:max(0, stop - t)] * (gi / 32768)
                a, b = t - t_from, t - t_from + len(seg)
                lo, hi = max(a, 0), min(b, n)
                if lo < hi:
                    p[i][lo:hi] = seg[lo - a:hi - a]
        return p[0] + off[0], p[1] + off[1]

    def nco(self, t_from, t_to, f0):
        """NCO phase in degrees at each ns of [t_from, t_to), and last reset before t_from."""
        n = t_to - t_from
        ph = np.zeros(n)
        f, t_ref, base = f0, None, 0.0
        segs = []
        cur_t, cur_phase = min([e[0] for e in self.tr.events] + [t_from]), 0.0
        offs = 0.0
        for e in sorted((e for e in self.tr.events if e[1] in ("phase", "freq")),
                        key=lambda e: e[0]):
            segs.append((cur_t, e[0], cur_phase, f))
            cur_phase += 360 * f * 1e-9 * (e[0] - cur_t)
            cur_t = e[0]
            if e[1] == "freq":
                f = e[2] / 4.0
            elif e[2] == "reset":
                cur_phase = 0.0
            elif e[2] == "delta":
                cur_phase += e[3] * 360 / 1e9
            elif e[2] == "set":
                raise q1.Q1Error("set_ph not modelled")
        segs.append((cur_t, t_to, cur_phase, f))
        for a, b, p0, fr in segs:
            lo, hi = max(a, t_from), min(b, t_to)
            if lo < hi:
                ph[lo - t_from:hi - t_from] = p0 + 360 * fr * 1e-9 * (np.arange(lo, hi) - a)
        return ph

    def origin(self):
        """Time of the first in-loop phase reset, or None."""
        for e in self.tr.events:
            if e[1] == "phase" and e[2] == "reset":
                return e[0]
        return None


def execute(settings, **kw):
    seq = settings.sequence if isinstance(settings.sequence, dict) else None
    if seq is None:
        raise q1.Q1Error("no sequence")
    tr = q1.run(seq["program"], **kw)
    return SeqRun(settings, tr, seq)


# ------------------------------------------------------------------ reference
def ref_signal(effects, short, T, reps, period, alt_long=False):
    """Complex baseband expected on a line over [0, reps*period).

    alt_long models the recorded defect instead: long pulses are sequences of
    voltage-offset settings that overwrite (and are overwritten by) other offsets.
    """
    n = reps * period
    sig = np.zeros(n, dtype=complex)
    off = np.zeros(n, dtype=complex)
    evs = []
    skip = set()
    for i, (t, kind, where, payload, _ctx) in enumerate(effects):
        if where != short:
            continue
        if kind == "clear":
            if not alt_long:
                continue
            if payload[0] in ("sq", "lsq"):
                d, amp = payload[2], payload[3]
                evs.append((t, "off", complex(amp)))
                evs.append((t + d - 4, "off", 0.0))
                evs.append((t + d - 4, "wave", np.full(4, amp, dtype=complex)))
                skip.add(i + 1)
            else:
                evs.append((t, "off", 0.0))
        elif i not in skip and kind in ("wave", "off"):
            evs.append((t, kind, payload))
    evs.sort(key=lambda e: e[0])
    for r in range(reps):
        for (t, kind, payload) in evs:
            a = r * period + t
            if kind == "wave":
                sig[a:a + len(payload)] += payload
            elif kind == "off":
                off[a:] = payload
    return sig + off


def ref_nco(effects, clock, f0, reps, period, lead):
    """NCO phase (deg) over [0, reps*period); the phase is reset `lead` ns before each rep."""
    n = reps * period
    ph = np.zeros(n)
    f = f0
    evs = [e for e in sorted(effects, key=lambda e: e[0]) if e[2] == clock
           and e[1] in ("phase", "reset", "freq")]
    for r in range(reps):
        t, p = -lead, 0.0
        base = r * period
        for e in evs + [(period - lead, "end", None, None, None)]:
            lo, hi = t, e[0]
            if hi > lo:
                x = np.arange(lo, hi)
                ok = (x + base >= 0) & (x + base < n)
                ph[x[ok] + base] = (p + 360 * f * 1e-9 * (x - lo))[ok]
            p += 360 * f * 1e-9 * (hi - lo)
            t = hi
            if e[1] == "phase":
                p += e[3]
            elif e[1] == "reset":
                p = 0.0
            elif e[1] == "freq":
                f = e[3]
    return ph


def close(a, b, tol):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def first_diff(a, b, tol):
    i = int(np.argmax(np.abs(a - b) > tol))
    return f"first difference at {i} ns: got {a[i]:.5f}, want {b[i]:.5f}"


def gcd_wait(x):
    return math.gcd(*x)
