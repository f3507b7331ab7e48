"""C16: compilation is a pure, deterministic function of schedule and configuration."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.common import *  # noqa: F403,E402
import copy
import dataclasses
import enum
import pickle
import re
import subprocess
import numpy as np
from lib import gates, ref, rigs  # noqa: E402

TECHNIQUE = ("bounded exhaustive exploration of histories of compile / extend actions on shared schedules, operations and configurations, each result compared "
             "with the result of the same compilation in a fresh process; inputs and earlier results are fingerprinted after every step; repeated under several hash seeds")
NOTE = ("Six worlds (device-only ASAP and ALAP, Qblox example devices, pulse-level rigs with crosstalk, distortion, automatic RF switch), each with 6-12 schedules that "
        "share operations and sub-schedules. All histories of up to 2 (quick) or 3 actions over compile(i), compile-in-place(i), extend(i). Compiled programs are "
        "compared across PYTHONHASHSEED values as well.")
UUID = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")
IDENT = re.compile(r"(?<![\w.])-?\d{15,}(?![\w.])")
SKIP = {"compilation_time"}


# ------------------------------------------------------------ fingerprints
class Canon:
    def __init__(self):
        self.names = {}
        self.h = hashlib.blake2b(digest_size=16)
        self.log = [] if os.environ.get("VERIF_CANON") else None

    def put(self, s):
        self.h.update(s.encode() + b"\0")
        if self.log is not None:
            self.log.append(s)

    def name(self, m):
        return self.names.setdefault(m.group(0), f"<{len(self.names)}>")

    def walk(self, o):
        from quantify_scheduler.structure.model import DataStructure
        import pandas as pd
        import pydantic
        if isinstance(o, enum.Enum):
            self.put(f"{type(o).__name__}.{o.name}")
        elif isinstance(o, str):
            # labels and operation identifiers (which depend on labels) are renamed in order of appearance
            self.put("s" + UUID.sub(self.name, IDENT.sub(self.name, o)))
        elif o is None or isinstance(o, (bool, int, complex)):
            self.put(repr(o))
        elif isinstance(o, float):
            self.put(repr(float(o)))
        elif isinstance(o, np.generic):
            self.walk(o.item())
        elif isinstance(o, np.ndarray):
            self.put(f"nd{o.shape}{o.dtype}")
            self.put(str(o.tolist()))
        elif isinstance(o, pd.DataFrame):
            self.put("df")
            self.walk(list(o.columns))
            self.walk([list(r) for r in o.itertuples(index=False)])
        elif isinstance(o, type) or callable(o) and hasattr(o, "__qualname__"):
            self.put(f"{o.__module__}.{o.__qualname__}")
        elif isinstance(o, (list, tuple)):
            self.put(f"[{len(o)}")
            for x in o:
                self.walk(x)
        elif isinstance(o, (set, frozenset)):
            self.put(f"set{len(o)}")
            for x in sorted(o, key=repr):
                self.walk(x)
        elif hasattr(o, "data") and hasattr(o, "keys"):      # UserDict: operations, schedules, resources
            self.put(type(o).__name__)
            self.walk(o.data)
            if hasattr(o, "body"):
                self.walk(o.body)
        elif hasattr(o, "keys"):
            self.put(f"{{{len(o)}")
            for k in o.keys():
                if k in SKIP:
                    continue
                self.walk(k)
                self.walk(o[k])
        elif isinstance(o, (DataStructure, pydantic.BaseModel)):
            self.put(type(o).__name__)
            for k in sorted(type(o).model_fields):
                self.put(k)
                self.walk(getattr(o, k))
        elif dataclasses.is_dataclass(o):
            self.put(type(o).__name__)
            for f in dataclasses.fields(o):
                self.put(f.name)
                self.walk(getattr(o, f.name))
        elif type(o).__module__.startswith("networkx") or hasattr(o, "edges") and hasattr(o, "nodes"):
            self.walk(sorted(map(str, o.nodes)))
            self.walk(sorted(map(str, o.edges)))
        elif hasattr(o, "__dict__"):
            self.put(type(o).__name__)
            for k in sorted(vars(o)):
                self.put(k)
                self.walk(vars(o)[k])
        else:
            raise TypeError(f"{type(o)}")


def canon(o):
    c = Canon()
    c.walk(o)
    if c.log is not None:
        LOGS[c.h.hexdigest()] = c.log
    return c.h.hexdigest()


LOGS = {}


def programs(comp):
    """What the hardware gets, without names, labels and comments."""
    out = []

    def strip(o):
        if isinstance(o, str):
            o = UUID.sub("u", re.sub(r"#.*", "", o))
            return re.sub(r"[ \t]+", " ", o)
        if dataclasses.is_dataclass(o) and not isinstance(o, type):
            return {f.name: strip(getattr(o, f.name)) for f in dataclasses.fields(o)}
        if isinstance(o, enum.Enum):
            return str(o)
        if isinstance(o, np.ndarray):
            return o.tolist()
        if hasattr(o, "keys"):
            d = {}
            for k in o.keys():
                if k in SKIP:
                    continue
                if k in ("waveforms", "weights") and isinstance(o[k], dict):
                    d[str(k)] = sorted((w["index"], strip(w["data"])) for w in o[k].values())
                else:
                    d[str(k)] = strip(o[k])
            return sorted(d.items())
        if isinstance(o, (set, frozenset)):
            return sorted(map(str, o))
        if isinstance(o, (list, tuple)):
            return [strip(x) for x in o]
        if hasattr(o, "model_dump"):
            return strip(o.model_dump())
        return o if isinstance(o, (int, float, bool, complex, type(None))) else repr(type(o))
    for k, v in comp.compiled_instructions.items():
        out.append((k, strip(v)))
    if os.environ.get("VERIF_CANON"):
        LOGS["p"] = out
    times = [(round(s["abs_time"] * 1e9, 6)) for s in comp.schedulables.values()]
    return hashlib.blake2b(repr((sorted(out, key=lambda x: x[0]), times, round(comp.duration * 1e9, 6))).encode(), digest_size=16).hexdigest()


# ------------------------------------------------------------ worlds
def g(name, *args, **kw):
    return ("gate", name, tuple(args), tuple(sorted(kw.items())))


def gate_pool():
    a, x, m, cz = g("Rz", 30., "q0"), g("X90", "q0"), g("Measure", "q0"), g("CZ", "q0", "q1")
    m1, y = g("Measure", "q1"), g("Rxy", 45., 30., "q1")
    sub = ("sub", [x, a, y])
    return [[a, a, x, m], [g("Reset", "q0", "q1"), x, (y, {"ref": 1, "pt": "start"}), cz, m], [sub, a, sub, m], [("loop", 3, [a, x, a]), m, m1],
            [x, (m, {"ref": 0, "pt": "end", "rel": 40}), (m1, {"ref": 1, "pt": "start"})], [a, a, g("H", "q0"), g("T", "q0"), x], [m, ("cond", "q0", [x, a]), m1], [cz, a, cz, a, sub]]


def pulse_pool():
    sq, dr, off, lsq = ("sq", "mw", 20, .3), ("drag", "mw", 20, .2, .5, 40), ("off", "iq", .2, -.1), ("sq", "iq", 400, .25)
    acq = ("acq", "ssb", "res", 100, 0, None, "AVERAGE", None)
    ph, fr = ("phase", "q.01", 40.), ("freq", "q.01", 5.01e9)
    sub = ("sub", [sq, ph, dr])
    return [[sq, dr, acq], [lsq, ("idle", 8), off, ("idle", 20), ("off", "iq", 0., 0.), ("idle", 8)], [sub, sub, acq], [("loop", 3, [sq, lsq]), ("idle", 8), dr],
            [sq, (dr, {"ref": 0, "pt": "start", "pt_new": "start", "rel": 8}), fr, sq], [("ramp", "fl", 2400, .3, 0.), ("stair", "fl", 40, .1, .4, 4), sq],
            [("comp", (("fl", .5),), 4, [("sq", "fl", 20, .3), sq]), acq], [("num", "fl", tuple([.1, -.2, .3, .05] * 4)), ("sq", "f2", 20, .1), sub]]


class World:
    def __init__(self, name):
        from quantify_scheduler.backends import SerialCompiler
        self.name = name
        self.cfg, self.scheds, self.ext = WORLDS[name]()
        self.comp = SerialCompiler("c")
        self.n = {i: 0 for i in range(len(self.scheds))}

    def compile(self, i, keep=True):
        cfg = self.cfg
        if not keep:
            cfg = cfg.model_copy(update={"keep_original_schedule": False})
            return self.comp.compile(copy.deepcopy(self.scheds[i]), cfg)
        return self.comp.compile(self.scheds[i], cfg)

    def extend(self, i):
        self.scheds[i].add(self.ext[i % len(self.ext)])
        self.n[i] += 1


def pooled(pool, ext, reps=2, clocks=()):
    ref.MEMO = {}
    try:
        s = [ref.build(list(p), name=f"s{i}", repetitions=reps, clocks=clocks) for i, p in enumerate(pool)]
        e = [ref.build_node(x) for x in ext]
    finally:
        ref.MEMO = None
    return s, e


def w_gates(strategy):
    def make():
        qd = gates.make_device(strategy=strategy)
        cfg = qd.generate_compilation_config()
        pool = gate_pool()
        if strategy == "alap":
            pool = [p for p in pool if not any(isinstance(i[-1], dict) for i in p)]
        s, e = pooled(pool, [g("X90", "q0"), g("Rz", 30., "q0"), g("Measure", "q1")])
        return cfg, s, e
    return make


def w_rig(**kw):
    def make():
        r = rigs.main_rig(**kw)
        r.use()
        pool = pulse_pool()
        if kw:
            pool = [p + [("idle", 100)] for p in pool if not any(i[0] in ("comp", "off") for i in p)]
            for m in ("3", "4"):
                r.hw["hardware_description"]["cluster0"]["modules"][m]["rf_output_on"] = False
        s, e = pooled(pool, [("sq", "mw", 20, .3), ("sq", "iq", 400, .25), ("acq", "ssb", "res", 100, 1, None, "AVERAGE", None)], clocks=r.clocks)
        return r.config(), s, e
    return make


def w_example(kind):
    def make():
        from qcodes.instrument import Instrument
        from quantify_scheduler.device_under_test import mock_setup as ms
        from quantify_scheduler.schemas.examples import utils
        from quantify_scheduler.operations.gate_library import Measure, X
        from quantify_scheduler.schedules import spectroscopy_schedules as sp, timedomain_schedules as td, trace_schedules as tr, two_qubit_transmon_schedules as tq
        Instrument.close_all()
        if kind == "transmon":
            setup = ms.set_up_mock_transmon_setup()
            ms.set_standard_params_transmon(setup)
            for i in range(5):
                setup[f"q{i}"].measure.acq_weight_type("SSB")
            hw = "qblox_hardware_config_transmon.json"
            t = np.array([1e-6, 2.004e-6])
            s = [td.t1_sched(t, "q0"), td.ramsey_sched(t, "q4", artificial_detuning=1e6), td.echo_sched(t, "q0"), td.cpmg_sched(2, t, "q4"), td.allxy_sched("q0", np.array([0, 5, 20])),
                 td.readout_calibration_sched("q4", [0, 1, 1]), td.rabi_sched(pulse_amp=np.array([.1, .2]), pulse_duration=20e-9, frequency=7.3e9, qubit="q0"),
                 tr.trace_schedule_circuit_layer("q4"), tq.chevron_cz_sched("q0", "q4", amplitudes=np.array([.1, .2]), duration=40e-9, flux_port="q0:fl")]
            ext = [X("q0"), Measure("q0", acq_index=7), X("q4")]
        else:
            setup = ms.set_up_mock_basic_nv_setup()
            ms.set_standard_params_basic_nv(setup)
            hw = "qblox_hardware_config_nv_center.json"
            from quantify_scheduler.operations.nv_native_library import ChargeReset, CRCount
            from quantify_scheduler import Schedule
            from quantify_scheduler.operations.gate_library import Reset
            s = [sp.nv_dark_esr_sched("qe0"), sp.nv_dark_esr_sched("qe0", 3)]
            for ops in ([Reset("qe0"), X("qe0"), Measure("qe0")], [ChargeReset("qe0"), CRCount("qe0"), Measure("qe0", acq_index=1)]):
                x = Schedule("x", 2)
                for o in ops:
                    x.add(o)
                s.append(x)
            ext = [X("qe0"), Measure("qe0", acq_index=9)]
        qd = setup["quantum_device"]
        qd.hardware_config(utils.load_json_example_scheme(hw))
        return qd.generate_compilation_config(), s, ext
    return make


XT = {"crosstalk": {"q:fl-cl0.baseband": {"q:f2-cl0.baseband": .1}, "q:f2-cl0.baseband": {"q:fl-cl0.baseband": -.05}}}
WORLDS = {
    "gates-asap": w_gates("asap"), "gates-alap": w_gates("alap"), "rig": w_rig(),
    "rig-xtalk": w_rig(options={**XT, "latency_corrections": {"q:mw-q.01": 20e-9, "q:iq-cl0.baseband": -8e-9},
                                "distortion_corrections": {"q:fl-cl0.baseband": {"filter_func": "scipy.signal.lfilter", "input_var_name": "x", "kwargs": {"b": [0, .25, .5], "a": [1]},
                                                                                 "clipping_values": [-2.5, 2.5]}}},
                       compiler_options={"auto_rf_switch": True, "auto_rf_switch_ramp_buffer": 20e-9}),
    "transmon": w_example("transmon"), "nv": w_example("nv"),
}


def isolated(fn, *a):
    """fn(*a) in a forked child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = ("ok", fn(*a))
        except BaseException as e:  # noqa: BLE001
            out = ("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()}"[-3000:])
        with os.fdopen(w, "wb") as f:
            pickle.dump(out, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def fresh(name, i, n):
    """The reference: a new process, a new world, one compilation."""
    w = World(name)
    for _ in range(n):
        w.extend(i)
    try:
        c = w.compile(i)
    except Exception as e:  # noqa: BLE001
        return f"{type(e).__name__}: {str(e)[:60]}"
    return canon(c), programs(c)


def fresh_iso(case):
    return isolated(fresh, *case)


def fresh_case(case):
    st, v = isolated(fresh, *case)
    if st != "ok":
        raise RuntimeError(v)
    return R("ok" if isinstance(v, tuple) else "refused", distinct=v)


REFS = {}


def history(case):
    name, acts = case
    st, v = isolated(replay, name, acts)
    if st != "ok":
        raise RuntimeError(v)
    if v[0] == "viol":
        raise Violation(v[1], v[2])
    return R("ok", len(acts) + 1, len(acts), len(acts), v[1])


def replay(name, acts):
    w = World(name)
    inputs = [canon(s) for s in w.scheds]
    cfg, ext = canon(w.cfg), canon(w.ext)
    results, sig = [], []
    for step, (a, i) in enumerate(acts):
        what = f"step {step} {a}({i}) of {acts}"
        if a == "extend":
            w.extend(i)
            inputs[i] = canon(w.scheds[i])
        else:
            try:
                c = w.compile(i, a == "compile")
                d, p = canon(c), programs(c)
                results.append((c, d, what))
            except Exception as e:  # noqa: BLE001
                d = p = f"{type(e).__name__}: {str(e)[:60]}"
            want = REFS[name, i, w.n[i]]
            want = want if isinstance(want, tuple) else (want, want)
            if p != want[1]:
                return ("viol", "result-depends-on-history", f"{what}: the compiled programs differ from those of a fresh process ({p} {want[1]})"[:500])
            if a == "compile" and d != want[0]:
                return ("viol", "schedule-depends-on-history", f"{what}: the compiled schedule differs from that of a fresh process")
            sig.append(p)
        for k, s in enumerate(w.scheds):
            if canon(s) != inputs[k]:
                return ("viol", "input-altered", f"{what}: schedule {k} was changed")
        if canon(w.cfg) != cfg:
            return ("viol", "config-altered", f"{what}: the configuration was changed")
        if canon(w.ext) != ext:
            return ("viol", "operation-altered", f"{what}: an operation that is used elsewhere was changed")
        for c, d, made in results:
            if canon(c) != d:
                return ("viol", "earlier-result-altered", f"{what} changed the schedule compiled at {made}")
    # changing one side in place must not reach the other
    for s in w.scheds:
        poke(s)
    for c, d, made in results:
        if canon(c) != d:
            return ("viol", "result-aliases-input", f"changing the schedules and operations in place changed the schedule compiled at {made} of {acts}")
    before = [canon(s) for s in w.scheds], canon(w.cfg)
    for c, _, _ in results:
        poke(c)
    if ([canon(s) for s in w.scheds], canon(w.cfg)) != before:
        return ("viol", "input-aliases-result", f"changing a compiled schedule in place changed its source ({acts})")
    return ("ok", tuple(sig))


def poke(o, seen=None):
    """Change every number stored in the containers of a schedule."""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if hasattr(o, "data") and hasattr(o, "keys"):
        if hasattr(o, "body"):
            poke(o.body, seen)
        o = o.data
    if isinstance(o, dict):
        for k, v in o.items():
            if isinstance(v, float):
                o[k] = v + 1.
            else:
                poke(v, seen)
    elif isinstance(o, list):
        for k, v in enumerate(o):
            if isinstance(v, float):
                o[k] = v + 1.
            else:
                poke(v, seen)
    elif isinstance(o, np.ndarray) and o.flags.writeable and o.dtype.kind in "fc":
        o += 1


# ------------------------------------------------------------ hash seeds
def digests():
    out = {}
    for name in WORLDS:
        w = World(name)
        for i in range(len(w.scheds)):
            try:
                out[f"{name}/{i}"] = programs(w.compile(i))
            except Exception as e:  # noqa: BLE001
                out[f"{name}/{i}"] = f"{type(e).__name__}"
    print("DIGESTS " + json.dumps(out))


def seed_case(seed):
    env = {**os.environ, "PYTHONHASHSEED": str(seed)}
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), "digests"], env=env, capture_output=True, text=True, timeout=600)
    l = [x for x in p.stdout.splitlines() if x.startswith("DIGESTS ")]
    if not l:
        raise RuntimeError(p.stderr[-2000:])
    d = json.loads(l[0][8:])
    bad = [k for k in d if d[k] != SEED0[k]]
    if bad:
        raise Violation("hash-seed", f"PYTHONHASHSEED={seed}: different programs for {bad[:5]}")
    return R("ok", len(d), len(d), len(d), seed)


SEED0 = {}


def main():
    ck = Check("C16", rule=NOTE, assumptions=["schedulable labels (UUIDs) are renamed in order of appearance"])
    pools = {}
    for name in WORLDS:
        st, n = isolated(lambda nm=name: len(World(nm).scheds))
        if st != "ok":
            raise RuntimeError(n)
        pools[name] = n
    depth = {n: 2 for n in WORLDS}
    if THOROUGH:
        depth = {n: 3 for n in WORLDS}
    need = [(n, i, k) for n in WORLDS for i in range(pools[n]) for k in range(depth[n])]
    ck.explore(fresh_case, need, label="fresh")
    with mp.get_context("fork").Pool(JOBS) as pool:
        for c, (st, v) in zip(need, pool.map(fresh_iso, need, chunksize=1)):
            REFS[c] = v
    for n in WORLDS:
        for i in range(pools[n]):
            v = REFS[n, i, 0]
            SEED0[f"{n}/{i}"] = v[1] if isinstance(v, tuple) else v.split(":")[0]
            if not isinstance(v, tuple):
                print(n, i, v)
    c = []
    for n in WORLDS:
        acts = [("compile", i) for i in range(pools[n])] + [("inplace", i) for i in range(pools[n])] + [("extend", i) for i in range(pools[n])]
        for d in range(1, depth[n] + 1):
            for h in itertools.product(acts, repeat=d):
                if h[-1][0] != "extend" and (d < 3 or h[0][0] != "inplace" or h[1][0] != "inplace"):
                    c.append((n, h))
        if not THOROUGH:      # the most telling histories of length 3: compile, extend, compile again
            for i in range(pools[n]):
                c.append((n, (("compile", i), ("extend", i), ("compile", i))))
    ck.explore(history, c, label="histories")
    ck.explore(seed_case, list(range(1, 17 if THOROUGH else 9)), chunk=1, label="hash-seeds")
    ck.finish(("fresh:ok", "histories:ok", "hash-seeds:ok"))


if __name__ == "__main__":
    if sys.argv[1:] == ["digests"]:
        os.chdir(scratch())
        digests()
    else:
        main()
