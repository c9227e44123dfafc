"""Runs the checks against the planted bugs, each in a scratch copy of /repo: tryseeds.py [seed id ...] (default: all)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = "/verif/seeded"


def one(i):
    prop = json.load(open(f"{SEEDED}/{i}/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="tryseed.")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        shutil.copytree("/verif", tmp + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        p = subprocess.run(["git", "apply", f"{SEEDED}/{i}/patch.diff"], cwd=tmp + "/repo", capture_output=True, text=True)
        if p.returncode:
            return i, prop, "PATCH DOES NOT APPLY"
        r = subprocess.run([sys.executable, "check.py", prop], cwd=tmp + "/verif", capture_output=True, text=True, env=dict(os.environ, BREL_REPO=tmp + "/repo"))
        lines = r.stdout.splitlines()
        why = next((l.strip()[:90] for l in lines if l.strip().startswith("failed:")), "")
        return i, prop, ("caught " if r.returncode == 1 and any(l.startswith("VIOLATION") for l in lines) else "MISSED rc=%d " % r.returncode) + why + ("" if r.returncode in (0, 1) else r.stderr[-300:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids):
        print(*r, flush=True)
