"""Checks that the tools the checks need are there and that every module of the specification parses."""
import glob, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
with tempfile.TemporaryDirectory() as d:
    for m in sorted(glob.glob(os.path.join(here, "spec", "*.tla"))):
        p = subprocess.run(["java", f"-Djava.io.tmpdir={d}", "-cp", CP, "tla2sany.SANY", m], cwd=os.path.join(here, "spec"), capture_output=True, text=True)
        if p.returncode != 0:
            print(p.stdout[-1500:])
            sys.exit(1)
print("ok")
