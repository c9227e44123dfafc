"""Builds a planted bug: seed.py SPEC.py, where SPEC.py sets ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (source text).

Confirms in a scratch copy of /repo that the demo passes without and fails with the change, that only lines of the original
repository change and that the stable tests still pass; then writes /verif/seeded/<ID>/.
"""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ORIG = "f5d1f74"
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this tree; nonzero: broken
H=$(mktemp -d)
trap 'rm -rf "$H"' EXIT
HOME="$H" TMPDIR="$H" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def main(path):
    ns = {}
    exec(open(path).read(), ns)
    out = os.path.join("/verif/seeded", ns["ID"])
    tmp = tempfile.mkdtemp(prefix="seed.")
    try:
        sh(f"git -C /repo worktree prune; cp -a /repo {tmp}/repo")
        repo = tmp + "/repo"
        demo = tmp + "/demo"
        os.makedirs(demo)
        shutil.copy(HERE + "/mini.py", demo)
        open(demo + "/demo.py", "w").write("from mini import *\n" + ns["DEMO"].lstrip("\n"))
        open(demo + "/demo.sh", "w").write(DEMO_SH)
        r = sh(f"bash {demo}/demo.sh", cwd=repo)
        assert r.returncode == 0, "demo fails on the unchanged tree:\n" + r.stdout[-800:] + r.stderr[-1500:]
        for f, old, new in ns["EDITS"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            assert t.count(old) == 1, f"{f}: {t.count(old)} occurrences of {old!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=repo).stdout
        # removed lines must be original
        orig = False
        for f in {e[0] for e in ns["EDITS"]}:
            bl = sh(f"git blame -s HEAD -- {f}", cwd=repo).stdout.splitlines()
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(f"git diff -U0 -- {f}", cwd=repo).stdout, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for i in range(a, a + n):
                    if ORIG in bl[i - 1].split()[0]:
                        orig = True
                    else:
                        print("  note: not an original line:", bl[i - 1][:150])
        assert orig, "no original line changed"
        r = sh(f"bash {demo}/demo.sh", cwd=repo)
        assert r.returncode != 0, "demo passes with the patch"
        print("  demo:", (r.stdout + r.stderr).strip().splitlines()[-1][:250])
        r = sh(f"mkdir {tmp}/home; HOME={tmp}/home PYTHONPATH={repo} timeout 300 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider "
               "--ignore=tests/end_to_end_tests --ignore=tests/core_tests --ignore=tests/utils_tests/test_edgar.py "
               "--ignore=tests/utils_tests/test_print_facts.py 2>&1 | tail -5", cwd=repo)
        stable = r.stdout.strip().splitlines()[-1]
        print("  tests:", stable)
        assert "failed" not in stable and "passed" in stable, r.stdout
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for n in ("mini.py", "demo.py", "demo.sh"):
            shutil.copy(demo + "/" + n, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        print("OK", ns["ID"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    for p in sys.argv[1:]:
        try:
            main(p)
        except AssertionError as e:
            print("REFUSED", p, e)
