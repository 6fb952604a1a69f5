#!/usr/bin/env python3
"""plant.py SPEC.py [ids...]: each entry of BUGS in SPEC.py becomes /verif/seeded/<id>/ once it is confirmed:
the patch applies and reverts, the demonstration passes without and fails with it, the stable tests pass with it.
Then the property's check is run against it and the outcome appended to /verif/tools/planted.json.
BUGS: id -> dict(prop, edits=[(file, old, new)...], demo=python text, needs, breaks)"""
import sys, os, json, subprocess, shutil, runpy
REPO, V = os.environ.get("PLANT_REPO", "/repo"), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def edit(edits):
    for f, old, new in edits:
        p = os.path.join(REPO, "src/einsteinpy", f)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        o, n = (old.replace("\n", "\r\n"), new.replace("\n", "\r\n")) if crlf else (old, new)
        assert s.count(o) == 1, (f, s.count(o), old)
        open(p, "w", newline="").write(s.replace(o, n))


def clean():
    sh("git", "-C", REPO, "checkout", "--", ".")
    assert sh("git", "-C", REPO, "status", "--porcelain").stdout.strip() == ""


def demo(d):
    return sh("bash", os.path.join(d, "demo.sh"), cwd=REPO, timeout=300)


if REPO != "/repo":                # a copy of /repo: everything imports from there
    os.environ.update(PYTHONPATH=REPO + "/src", VERIF_REPO=REPO, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")


def tests():
    out = "/tmp/plant-out.json"
    if REPO != "/repo":
        r = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "-x", cwd=REPO)
        return [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))] or ([] if r.returncode == 0 else [r.stdout[-300:]])
    sh("bash", "/opt/vp/test.sh", out)
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(out))
    base = b.get("passed") or b.get("stable") or b
    return [t for t in base if t not in set(o["passed"])]


def one(i, b, status):
    tmp = f"/tmp/plant-{i}"
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    clean()
    edit(b["edits"])
    patch = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True).stdout
    clean()
    open(tmp + "/patch.diff", "wb").write(patch)
    open(tmp + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(tmp + "/demo.sh", "w").write('#!/bin/bash\nexport MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
    r = demo(tmp)
    if r.returncode != 0: print(i, "DEMO FAILS ON CLEAN", r.stdout[-300:], r.stderr[-600:]); return
    ap = sh("git", "-C", REPO, "apply", tmp + "/patch.diff")
    if ap.returncode: print(i, "NO APPLY", ap.stderr); return
    try:
        r = demo(tmp)
        if r.returncode == 0: print(i, "DEMO PASSES WITH PATCH"); return
        miss = tests()
        if miss: print(i, "TESTS FAIL", miss[:4]); return
        c = sh(V + "/check", b["prop"], "quick") if REPO == "/repo" else sh("/opt/venv/bin/python", "harness/main.py", b["prop"], "quick", cwd=V)
        caught = c.returncode == 1 and f"VIOLATION property={b['prop']}" in c.stdout
        first = next((l.strip() for l in c.stdout.splitlines() if l.startswith("  ")), "")
        print(i, "CAUGHT" if caught else f"MISSED rc={c.returncode}", "|", (r.stderr.strip().splitlines() or ["?"])[-1][:100], "|", first[:160])
        if c.returncode == 2: print(c.stderr[-800:])
    finally:
        clean()
    d = f"{V}/seeded/{i}"
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d); shutil.rmtree(tmp)
    status[i] = dict(property=b["prop"], caught=caught, by=first, breaks=b["breaks"], needs=b["needs"])


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    sf = V + "/tools/planted.json"
    for i in (sys.argv[2:] or bugs):
        status = json.load(open(sf)) if os.path.exists(sf) else {}
        try:
            one(i, bugs[i], status)
        except Exception as e:
            print(i, "ERROR", repr(e)[:300]); clean()
        json.dump(status, open(sf, "w"), indent=1, sort_keys=True)
        sys.stdout.flush()


main()
