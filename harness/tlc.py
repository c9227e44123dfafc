"""Runs TLC and reads back what it counted and printed."""
import json, os, re, subprocess, tempfile
from common import SPEC, scratch

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def run(module, cfg_text, workers=4, env=None, extra=(), timeout=800, heap="3g", allow_violation=False):
    """Runs spec/<module>.tla with the given configuration. Returns counts, printed values and the outcome."""
    d = tempfile.mkdtemp(prefix="tlc.", dir=scratch())
    cfg = os.path.join(d, "M.cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
           f"-Djava.io.tmpdir={d}", "-cp", CP, "tlc2.TLC", "-config", cfg, "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers), "-nowarning", "-cleanup", "-noGenerateSpecTE", *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, timeout=timeout)
    out = p.stdout.decode("utf-8", "replace")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    sim = re.search(r"The number of states generated: (\d+)", out)
    ok = "Model checking completed. No error has been found." in out or (sim is not None and p.returncode == 0) or p.returncode == 0
    violated = "is violated" in out
    if (not ok and not (allow_violation and violated)):
        raise TLCError(f"TLC on {module} failed (rc {p.returncode}):\n" + brief(out) + p.stderr.decode("utf-8", "replace")[-800:])
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (int(sim.group(1)), int(sim.group(1))) if sim else (0, 0)
    return {"generated": gen, "distinct": dist, "out": out, "ok": ok, "violated": violated}


def brief(out):
    """The start of what TLC complained about."""
    i = out.find("Error:")
    return "\n".join([l[:300] for l in out[max(i, 0):].splitlines() if not l.startswith('"')][:25]) + "\n"


def messages(out, tag):
    """The JSON values that the spec printed with PrintT("tag " \\o ToJson(...))."""
    res, head = [], '"' + tag + " "
    for line in out.splitlines():
        if line.startswith(head):
            res.append(json.loads(unquote(line)[len(tag) + 1:]))
    return res


def unquote(tla_string):
    """A TLA+ string literal (as TLC prints it) back to its characters."""
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m.group(1), m.group(1)), tla_string[1:-1])
