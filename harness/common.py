"""Paths, seeds, scratch directories, evidence and verdict reporting shared by all checks."""
import atexit, json, os, random, shutil, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BREL_REPO", "/repo")
PY = os.environ.get("BREL_PY", "/opt/venv/bin/python")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
T0 = time.time()
_scratch = None


def scratch():
    """One scratch directory per check run, removed when the run ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="brelverif.")
        atexit.register(lambda d=_scratch, p=os.getpid(): os.getpid() == p and shutil.rmtree(d, ignore_errors=True))
    return _scratch


def rng(tag=""):
    return random.Random(f"{SEED}/{tag}")


def tier(quick, thorough):
    return thorough if THOROUGH else quick


class Report:
    """Collects what a check covered and the violations it found, and ends the run."""

    def __init__(self, prop):
        self.prop, self.violations, self.known = prop, [], []
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.assumptions = [], {}, []

    def tlc(self, res):
        self.states += res["distinct"]
        self.transitions += res["generated"]

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, clause, detail):
        self.violations.append((clause, detail))

    def finish(self):
        known = load_known(self.prop)
        fresh = []
        for clause, detail in self.violations:
            k = next((k for k in known if k["match"] in json.dumps(detail, ensure_ascii=False)), None)
            if k is None:
                fresh.append((clause, detail))
        for what in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        replay = os.path.join(VERIF, "evidence", f"replay-{self.prop}.json")
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"], **self.extra},
            "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(fresh),
        }
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        if fresh:
            with open(replay, "w") as f:
                json.dump([{"clause": c, "detail": d} for c, d in fresh[:20]], f, indent=1, ensure_ascii=False)
            for c, d in fresh[:5]:
                print("  failed:", c, json.dumps(d, ensure_ascii=False)[:600])
            print(f"VIOLATION property={self.prop} replay={replay}")
            sys.exit(1)
        if os.path.exists(replay):
            os.remove(replay)
        print(f"OK property={self.prop} states={self.states} transitions={self.transitions} traces={self.traces} wall={time.time()-T0:.1f}s")
        sys.exit(0)


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]
