"""Shared plumbing: environment, parallel exhaustive enumeration, evidence, exit codes."""
from __future__ import annotations

import hashlib
import itertools
import json
import logging
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))

_scratch = None


def scratch():
    """A scratch directory, removed when the check ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif_")
        import atexit
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch


class Violation(Exception):
    """The property is broken on this case."""


class Check:
    """Collects coverage, prints verdicts, writes evidence."""

    def __init__(self, pid, level="model_checking", rule="", assumptions=()):
        self.pid = pid
        os.chdir(scratch())
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known = {}
        self.extra = {}
        self.outcomes = {}
        self.exhaustive = True
        self.findings = {}
        path = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(path):
            for e in json.load(open(path)).get("findings", []):
                if e["property"] == pid:
                    self.findings[e["key"]] = e
        import quantify_scheduler
        src = os.path.dirname(os.path.abspath(quantify_scheduler.__file__))
        assert os.path.realpath(src).startswith(os.path.realpath(REPO)), src

    # -- enumeration ------------------------------------------------------
    def explore(self, fn, cases, chunk=None, label=""):
        """Run fn(case) on every case, in parallel; each returns a Result dict.

        A worker result: dict(states, transitions, traces, outcome, distinct,
        viol=[(key, text, case)]).
        """
        cases = cases if isinstance(cases, list) else list(cases)
        n = len(cases)
        t0 = time.time()
        if n == 0:
            return
        if chunk is None:
            chunk = max(1, min(64, n // (JOBS * 8) or 1))
        self.extra.setdefault("spaces", {})[label or fn.__name__] = n
        global _FN, _CASES
        _FN, _CASES = fn, cases
        ranges = [(i, min(i + chunk, n)) for i in range(0, n, chunk)]
        if JOBS > 1 and n > 4:
            ctx = mp.get_context("fork")
            with ctx.Pool(JOBS) as pool:
                for res in pool.imap_unordered(_work, ranges):
                    self._merge(res, label)
        else:
            for r in ranges:
                self._merge(_work(r), label)
        self.extra.setdefault("seconds", {})[label or fn.__name__] = round(time.time() - t0, 1)

    def _merge(self, res, label):
        self.states += res["states"]
        self.transitions += res["transitions"]
        self.traces += res["traces"]
        self.evaluations += res["n"]
        self.distinct |= res["distinct"]
        for k, v in res["outcomes"].items():
            kk = f"{label}:{k}" if label else k
            self.outcomes[kk] = self.outcomes.get(kk, 0) + v
        for v in res["viol"]:
            self.violation(*v)
        if len(self.samples) < 6 and res["sample"] is not None:
            self.samples.append(res["sample"])
        for e in res["errors"]:
            if self.extra.get("errors", 0) < 5:
                print("CHECK-ERROR", e, file=sys.stderr)
            self.extra["errors"] = self.extra.get("errors", 0) + 1

    def violation(self, key, text, case):
        if key in self.findings:
            self.known.setdefault(key, text)
            return
        self.violations.append((key, text, case))

    # -- end --------------------------------------------------------------
    def finish(self, require_outcomes=()):
        cov = {
            "exhaustive": self.exhaustive,
            "rule": self.rule,
            "samples": self.samples[:6] or ["(none)"],
            "outcomes": dict(sorted(self.outcomes.items())),
        }
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.traces,
                       evaluations=self.evaluations, distinct_nontrivial=len(self.distinct))
        else:
            cov.update(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct))
        cov.update(self.extra)
        ev = {
            "property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick",
            "seed": SEED, "level": self.level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(self.known):
            print(f"KNOWN-FINDING: property={self.pid} {k}: {self.known[k][:300]}")
        print(f"{self.pid}: {self.evaluations} cases, {len(self.distinct)} distinct behaviours, "
              f"states={self.states} transitions={self.transitions} traces={self.traces} "
              f"violations={len(self.violations)} wall={ev['wall_s']}s")
        for k, v in sorted(self.outcomes.items()):
            print(f"   outcome {k}: {v}")
        if self.violations:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            seen = {}
            for key, text, case in self.violations:
                seen.setdefault(key, []).append((text, case))
            # shortest witness first
            key = min(seen, key=lambda k: min(len(repr(c)) for _, c in seen[k]))
            text, case = min(seen[key], key=lambda tc: len(repr(tc[1])))
            path = os.path.join(rd, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "key": key, "what": text, "case": repr(case),
                           "all_keys": {k: len(v) for k, v in seen.items()}}, f, indent=1)
            for k, v in list(seen.items())[:10]:
                t, c = min(v, key=lambda tc: len(repr(tc[1])))
                print(f"   {k} x{len(v)}: {t[:600]}\n      case: {repr(c)[:600]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            sys.stdout.flush()
            sys.exit(1)
        if self.extra.get("errors"):
            print(f"{self.pid}: the check itself failed on {self.extra['errors']} cases")
            sys.exit(2)
        for r in require_outcomes:
            if not any(k == r or k.endswith(":" + r) for k in self.outcomes):
                print(f"{self.pid}: vacuous: outcome {r} never seen")
                sys.exit(2)
        sys.stdout.flush()
        sys.exit(0)


class R:
    """What one case contributed."""

    __slots__ = ("states", "transitions", "traces", "outcome", "distinct", "viol")

    def __init__(self, outcome="ok", states=1, transitions=1, traces=1, distinct=None, viol=()):
        self.states, self.transitions, self.traces = states, transitions, traces
        self.outcome, self.distinct, self.viol = outcome, distinct, list(viol)


_FN = None
_CASES = None


def _work(rng):
    out = dict(states=0, transitions=0, traces=0, n=0, distinct=set(), outcomes={}, viol=[],
               sample=None, errors=[])
    for i in range(*rng):
        case = _CASES[i]
        out["n"] += 1
        try:
            r = _FN(case)
        except Violation as e:
            key = e.args[0]
            text = e.args[1] if len(e.args) > 1 else ""
            out["viol"].append((key, str(text), case))
            out["outcomes"]["violation"] = out["outcomes"].get("violation", 0) + 1
            continue
        except Exception:
            out["errors"].append(f"{case!r}\n{traceback.format_exc()}"[:3000])
            continue
        out["states"] += r.states
        out["transitions"] += r.transitions
        out["traces"] += r.traces
        out["outcomes"][r.outcome] = out["outcomes"].get(r.outcome, 0) + 1
        for key, text in r.viol:
            out["viol"].append((key, str(text), case))
        if r.distinct is not None:
            out["distinct"].add(
                r.distinct if isinstance(r.distinct, (int, bytes)) else
                int.from_bytes(hashlib.blake2b(repr(r.distinct).encode(), digest_size=8).digest(), "big"))
        if out["sample"] is None and r.outcome == "ok":
            out["sample"] = repr(case)[:1500]
    return out


def product(*its):
    return list(itertools.product(*its))
