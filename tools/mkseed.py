"""Build /verif/seeded/<id>/ from tools/seeds/<id>.py and confirm it.

A seed file defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text).
usage: mkseed.py build ID... | test ID... [--notests] [--checks C01,C02]
"""
import json, os, subprocess, sys, time
V = "/verif"
ENV = dict(os.environ, MPLBACKEND="agg", QT_QPA_PLATFORM="offscreen", PYTHONDONTWRITEBYTECODE="1")
SH = '''#!/bin/bash
# run with cwd /repo
export MPLBACKEND=agg QT_QPA_PLATFORM=offscreen PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def load(i):
    d = {}
    exec(open(f"{V}/tools/seeds/{i}.py").read(), d)
    return d


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, env=ENV, **kw)


def build(i):
    d = load(i)
    out = f"{V}/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    try:
        for f, old, new in d["EDITS"]:
            p = f"/repo/quantify_scheduler/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        assert diff
        open(f"{out}/patch.diff", "w").write(diff)
    finally:
        sh("git -C /repo checkout -- .")
    open(f"{out}/demo.sh", "w").write(SH)
    os.chmod(f"{out}/demo.sh", 0o755)
    open(f"{out}/demo.py", "w").write(d["DEMO"].lstrip("\n"))
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
              open(f"{out}/meta.json", "w"), indent=1)


def test(i, tests=True, checks=None):
    d = load(i)
    out = f"{V}/seeded/{i}"
    r = {"id": i, "property": d["PROPERTY"]}
    p = sh(f"bash {out}/demo.sh", cwd="/repo")
    r["demo_clean"] = p.returncode
    if p.returncode:
        print(p.stdout[-800:], p.stderr[-1500:])
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    p = sh(f"git -C /repo apply {out}/patch.diff")
    assert p.returncode == 0, p.stderr
    try:
        p = sh(f"bash {out}/demo.sh", cwd="/repo")
        r["demo_patched"] = p.returncode
        print("   demo says:", (p.stdout + p.stderr).strip()[-300:])
        for c in checks or [d["PROPERTY"]]:
            if not os.path.exists(f"{V}/checks/{c}.py"):
                r[c] = "no check"
                continue
            t = time.time()
            p = sh(f"./run.sh {c}", cwd=V)
            r[c] = (p.returncode, round(time.time() - t))
            for l in p.stdout.splitlines():
                if l.startswith("   ") and "outcome" not in l:
                    print("     ", l[:260])
                    break
            if p.returncode not in (0, 1):
                print(p.stdout[-500:], p.stderr[-1500:])
        if tests:
            o = sh(f"bash {V}/tools/t.sh").stdout.strip().splitlines()[-1]
            r["tests"] = o[-200:]
    finally:
        sh("git -C /repo checkout -- .")
    print(r)
    rp = f"{V}/tools/seed_results.json"
    allr = json.load(open(rp)) if os.path.exists(rp) else {}
    e = allr.setdefault(i, {})
    e.update({k: v for k, v in r.items() if k != "id"})
    json.dump(allr, open(rp, "w"), indent=0, sort_keys=True)
    return r


if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    ck = next((a.split("=")[1].split(",") for a in sys.argv if a.startswith("--checks=")), None)
    for i in ids:
        if sys.argv[1] == "build":
            build(i)
        else:
            build(i)
            test(i, "--notests" not in sys.argv, ck)
