#!/usr/bin/env python3
"""Development helper: makes, validates and tries planted bugs (not used by any check).

plant.py make NAME...    writes seeded/NAME from BUGS, validates it in scratch copies
plant.py try NAME... [-- Cxx...]   runs the property's check (or the given ones) against the bug in a scratch copy
"""
import json, os, re, shutil, subprocess, sys, tempfile, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.environ.get("SEEDED", os.path.join(VERIF, "seeded"))
MINE = set(subprocess.run(["git", "-C", "/repo", "rev-list", "--grep=^fix:", "HEAD"], capture_output=True, text=True).stdout.split())
PY = "/opt/venv/bin/python"

def bugs():
    out = {}
    for name in sorted(os.listdir(HERE)):
        if re.fullmatch(r"bugs\w*\.py", name):
            spec = importlib.util.spec_from_file_location("b", os.path.join(HERE, name))
            m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
            out.update(m.BUGS)
    return out

def copy():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    return d, d + "/repo"

def tests(repo):
    """Runs the stable tests in a scratch copy."""
    base = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(os.environ, HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPATH=repo + "/src")
    r = subprocess.run("flock /tmp/plant.lock sh -c 'rm -f /tmp/foo.db*; timeout 300 %s -m pytest -q -p no:cacheprovider --timeout=10 --ignore=tests/medium -x tests 2>&1 | tail -8'" % PY,
        shell=True, cwd=repo, env=env, capture_output=True, text=True)
    return r.stdout

def demo(repo, folder):
    env = dict(os.environ, LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    d = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    f = os.path.join(d, "x"); shutil.copytree(folder, f)
    for n in ("patch.diff", "meta.json"):
        if os.path.exists(os.path.join(f, n)): os.remove(os.path.join(f, n))
    try:
        r = subprocess.run(["bash", os.path.join(f, "demo.sh")], cwd=repo, env=env, capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    except subprocess.TimeoutExpired:
        return 99, "timeout"
    finally:
        shutil.rmtree(d)

DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
python=/opt/venv/bin/python
[ -x "$python" ] || python=python3
exec "$python" "$here/demo.py"
"""

def make(name, bug):
    d, repo = copy()
    try:
        for path, old, new in bug["edits"]:
            full = os.path.join(repo, "src/gaspra", path)
            text = open(full).read()
            assert text.count(old) == 1, (name, path, text.count(old), old)
            open(full, "w").write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
        folder = os.path.join(SEEDED, name)
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, "patch.diff"), "w").write(diff)
        open(os.path.join(folder, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        open(os.path.join(folder, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]),
                  open(os.path.join(folder, "meta.json"), "w"), indent=1)
        # lines changed: original ones?
        own = orig = 0
        for path in {e[0] for e in bug["edits"]}:
            h = subprocess.run(["git", "-C", repo, "diff", "-U0", "--", "src/gaspra/" + path], capture_output=True, text=True).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", h, re.M):
                n = int(m[2]) if m[2] is not None else 1
                if not n: continue
                b = subprocess.run(["git", "-C", repo, "blame", "-s", "-l", "-L", f"{m[1]},+{n}", "HEAD", "--", "src/gaspra/" + path], capture_output=True, text=True).stdout
                for line in b.splitlines():
                    if line.split()[0].lstrip("^") in MINE: own += 1
                    else: orig += 1
        t = tests(repo)
        clean = demo("/repo", folder)
        bad = demo(repo, folder)
        ok = "passed" in t and "failed" not in t and "error" not in t and clean[0] == 0 and bad[0] not in (0,) and orig
        print(f"{name}: {'OK' if ok else 'NOT OK'} orig={orig} own={own} tests={t.strip().splitlines()[-1] if t.strip() else t!r} clean={clean[0]} bad={bad[0]}")
        if not ok:
            print(t[-1500:] if 'failed' in t else '', clean[1], '|', bad[1])
            os.makedirs("/tmp/rejected", exist_ok=True)
            shutil.rmtree("/tmp/rejected/" + name, ignore_errors=True)
            shutil.move(folder, "/tmp/rejected/" + name)
        elif "-v" in sys.argv: print(bad[1])
    finally:
        shutil.rmtree(d)

def attempt(name, checks):
    d, repo = copy()
    try:
        folder = os.path.join(SEEDED, name)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(folder, "patch.diff")], check=True)
        prop = json.load(open(os.path.join(folder, "meta.json")))["property"]
        for c in checks or [prop]:
            r = subprocess.run(["python3", os.path.join(VERIF, "check.py"), c], cwd=VERIF, capture_output=True, text=True,
                env=dict(os.environ, VERIF_REPO=repo, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_EVIDENCE=d + "/ev"))
            lines = [l for l in r.stdout.splitlines() if l.strip()]
            print(f"{name}: {c} exit={r.returncode} {'CAUGHT' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else '??'} {' | '.join(lines[-3:])[:300]}", flush=True)
            if r.returncode not in (0, 1): print(r.stderr[-800:])
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    args = [a for a in sys.argv[2:] if a != "-v"]
    checks = []
    if "--" in args:
        checks = args[args.index("--") + 1:]; args = args[:args.index("--")]
    if sys.argv[1] == "make":
        b = bugs()
        for n in args or b: make(n, b[n])
    else:
        for n in args or sorted(os.listdir(SEEDED)): attempt(n, checks)
