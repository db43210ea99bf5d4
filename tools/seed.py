#!/usr/bin/env python3
"""Turns the planted bugs described in tools/bugs.py into seeded/<id>/ after confirming each one in a scratch copy of /repo.

usage: seed.py [--no-tests] [--check] ID...   (scratch copies under /tmp/seed-*, removed afterwards)
"""
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from bugs import BUGS  # noqa: E402

PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)


def tests(w):
    base = json.loads(Path("/opt/vp/BASELINE.json").read_text())
    out = f"{w}/.junit.xml"
    sh([PY, "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider", "-p", "no:sugar", "--timeout=60", f"--basetemp={w}/.tmp",
        "-o", "junit_family=xunit2", f"--junitxml={out}"], cwd=w, env={"PYTHONHASHSEED": "0", "TZ": "UTC", "PYTHONDONTWRITEBYTECODE": "1", "PATH": "/opt/venv/bin:/usr/bin:/bin"})
    import xml.etree.ElementTree as E

    bad = [t.get("classname", "") + "::" + t.get("name", "") for t in E.parse(out).iter("testcase")
           if t.find("failure") is not None or t.find("error") is not None]
    n = sum(1 for _ in E.parse(out).iter("testcase"))
    return n, bad


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for b in BUGS:
        if args and b["id"] not in args:
            continue
        w = f"/tmp/seed-{b['id']}"
        shutil.rmtree(w, ignore_errors=True)
        sh(["cp", "-a", "/repo", w])
        try:
            for f, old, new in b["edits"]:
                p = Path(w, f)
                s = p.read_text()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                p.write_text(s.replace(old, new))
            d = V / "seeded" / b["id"]
            d.mkdir(parents=True, exist_ok=True)
            (d / "patch.diff").write_text(sh(["git", "diff"], cwd=w).stdout)
            (d / "demo.sh").write_text(DEMO)
            os.chmod(d / "demo.sh", 0o755)
            (d / "demo.py").write_text(b["demo"].lstrip())
            (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
            clean = sh([f"{d}/demo.sh"], cwd="/repo")
            broken = sh([f"{d}/demo.sh"], cwd=w)
            msg = [f"demo clean={clean.returncode} patched={broken.returncode}"]
            if clean.returncode:
                msg.append(clean.stderr[-500:])
            if not broken.returncode:
                msg.append("DEMO DOES NOT FAIL")
            if "--no-tests" not in sys.argv:
                n, bad = tests(w)
                msg.append(f"tests {n} bad {len(bad)} {bad[:3]}")
            if "--check" in sys.argv:
                r = sh([str(V / "bin/check"), b["property"]], cwd=str(V), env={"PYVC_REPO": w})
                msg.append(f"check exit {r.returncode}: " + " | ".join(x for x in r.stdout.splitlines() if "VIOLATION" in x or "failed" in x)[:300])
            print(b["id"], b["property"], *msg, flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
