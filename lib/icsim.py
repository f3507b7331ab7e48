"""A simulated cluster behind the real instrument-coordinator component.

The dummy Cluster of qblox-instruments accepts every setting; the modules'
``get_acquisitions`` is replaced by what the executed program produced.
"""
from __future__ import annotations

import math

import numpy as np

_cache = {}


def cluster_component(module_types, name="cluster0"):
    """module_types: {slot: "QRM_RF"}; the last one is kept."""
    key = (name, tuple(sorted(module_types.items())))
    if key in _cache and hasattr(_cache[key][1], "instrument_ref"):   # not closed meanwhile
        return _cache[key]
    _cache.clear()
    from qcodes.instrument import Instrument
    Instrument.close_all()           # one cluster of that name at a time
    from qblox_instruments import Cluster, ClusterType
    from quantify_scheduler.instrument_coordinator.components.qblox import ClusterComponent
    tm = {"QCM": ClusterType.CLUSTER_QCM, "QRM": ClusterType.CLUSTER_QRM,
          "QCM_RF": ClusterType.CLUSTER_QCM_RF, "QRM_RF": ClusterType.CLUSTER_QRM_RF,
          "QTM": ClusterType.CLUSTER_QTM, "QRC": ClusterType.CLUSTER_QRC}
    from qblox_instruments.ieee488_2 import module_dummy_transport as mdt

    def set_program(self, cmd_params, cmd_args, bin_in):
        # the bundled assembler would run here (C08 runs it on every program)
        self._asm_log, self._asm_status = "", True
    for o in vars(mdt).values():
        if isinstance(o, type) and "_set_sequencer_program" in vars(o):
            o._set_sequencer_program = set_program
    cl = Cluster(name=name, dummy_cfg={s: tm[t] for s, t in module_types.items()})
    comp = ClusterComponent(cl)
    _cache[key] = (cl, comp)
    return cl, comp


class Bins:
    """Contents of the acquisition memory of one sequencer."""

    def __init__(self, acqs):
        self.acqs = acqs          # index -> (name, num_bins)
        self.data = {}            # (index, bin) -> [values]

    def add(self, index, b, value):
        self.data.setdefault((index, b), []).append(value)

    def as_instrument(self, analog=True, scope=None):
        out = {}
        for idx, (name, n) in self.acqs.items():
            p0, p1, th, cnt, count, td = ([math.nan] * n for _ in range(6))
            for b in range(n):
                v = self.data.get((idx, b))
                if v:
                    z = [x["iq"] for x in v]
                    p0[b] = float(np.mean([c.real for c in z]))
                    p1[b] = float(np.mean([c.imag for c in z]))
                    th[b] = float(np.mean([x.get("bit", math.nan) for x in v]))
                    cnt[b] = float(len(v)) if "count" not in v[0] else float(sum(x["count"] for x in v))
                    count[b] = float(sum(x.get("count", math.nan) for x in v))
                    td[b] = float(np.mean([x.get("td", math.nan) for x in v]))
            bins = {"integration": {"path0": p0, "path1": p1}, "threshold": th, "avg_cnt": cnt}
            if not analog:
                bins = {"count": count, "timedelta": td, "threshold": th, "avg_cnt": cnt}
            e = {"index": idx, "acquisition": {"bins": bins}}
            if scope is not None:
                e["acquisition"]["scope"] = scope
            out[name] = e
        return out


ASSEMBLER = None


def assemble(program):
    """Run the vendor's Q1 assembler; the error text, or None when it accepts the program."""
    global ASSEMBLER
    import os
    import subprocess
    import tempfile
    import qblox_instruments
    from lib import common
    if ASSEMBLER is None:
        ASSEMBLER = os.path.join(os.path.dirname(qblox_instruments.__file__), "assemblers", "q1asm_linux")
    d = tempfile.mkdtemp(dir=common.scratch())
    f = os.path.join(d, "p.q1asm")
    with open(f, "w") as fid:
        fid.write(program)
    r = subprocess.run([ASSEMBLER, "-o", "p", "p.q1asm"], cwd=d, capture_output=True, text=True)
    for x in os.listdir(d):
        os.unlink(os.path.join(d, x))
    os.rmdir(d)
    return None if r.returncode == 0 else (r.stdout + r.stderr)[-600:]
