"""What printing shows -> TLC (TracePrint)."""
import json, os, re, shutil
import common, gen, ixgen, ixmat, mat, pool, tlc
from gen import NONE

INFOS = ["0001 - Statement - Balance [Parenthetical]", "note [abstract]", "a [/b] c", "[bold]loud[/bold]", "see :warning: below", "R & D <x>", "[x", "\\[y]", "{z} %s", ":", "[/]", "[link=http://ex.com]l[/link]"]


def plain(x):
    """The document x without characters that would make printed lines and cells ambiguous."""
    if isinstance(x, str):
        return re.sub(r"[|\u2502\u2514\u251c\u2028\u2029\x85\x0b\x0c\x1c-\x1e\s]", lambda m: " " if m.group(0).isspace() else "/", x)
    if isinstance(x, list):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(y) for k, y in x.items()}
    return x


CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def run(report, docs, tag, chunk=700):
    d0 = os.path.join(common.scratch(), tag)
    reqs = []
    for i, d in enumerate(docs):
        m = ixmat if "parts" in d else mat
        path = m.materialise(d, os.path.join(d0, str(i)), common.rng(f"{tag}/style/{i}"))
        reqs.append({"op": "print", "path": path, "seed": f"{common.SEED}/{tag}/{i}"})
    obs = pool.run_all(reqs)
    shutil.rmtree(d0, ignore_errors=True)
    cases = []
    for i, o in enumerate(obs):
        if o["crash"] != NONE:
            report.violation("opened", {"clause": "opened", "case": i, "doc": docs[i], "obs": o})
            continue
        for c in o["cases"]:
            if c["crash"] != NONE:
                report.violation("printed:" + c["of"], {"clause": "printed", "case": i, "doc": docs[i], "obs": c})
            else:
                cases.append((i, c))
    report.traces += len(cases)
    f = os.path.join(common.scratch(), tag + ".json")
    for a in range(0, len(cases), chunk):
        part = cases[a:a + chunk]
        json.dump([c for _, c in part], open(f, "w"))
        res = tlc.run("TracePrint", CFG, workers=8, env={"CASES": f})
        report.tlc(res)
        reached = dict.fromkeys(range(len(part)), 0)
        for m in tlc.messages(res["out"], "CASE"):
            reached[m["i"] - 1] = max(reached[m["i"] - 1], m["at"])
        for k, (i, c) in enumerate(part):
            s = reached[k]
            if c["what"] == "table" and s < 1 or c["what"] == "tree" and s <= len(c["lines"]):
                report.violation("shown:" + c["of"], {"clause": "shown", "line": c["lines"][s:s + 1] if c["what"] == "tree" else NONE, "at": s, "case": i, "doc": docs[i], "obs": c})
    if cases:
        report.sample({"doc": docs[cases[0][0]], "obs": cases[0][1]})


def generated(report, profile, n, inline=False):
    G = ixgen.IxGen if inline else gen.Gen
    docs = []
    for i in range(n):
        r = common.rng(f"print/{profile}/{i}")
        d = plain(getattr(G(r), profile)(**({"notes": False} if inline else {})))
        for x in d.get("roles", []):
            if r.random() < .5:
                x["def"] = r.choice(INFOS)
        docs.append(d)
    report.extra.setdefault("generated", {})[profile] = n
    run(report, docs, "print-" + profile)


INVS = "PreOrder EachOnce ReadBack Corners Bars TableOk TableDetermines Emit"


def model(report, size, limit):
    """Model checks MCPrint and prints the forests it enumerates as networks."""
    res = tlc.run("MCPrint", f"{CFG}INVARIANTS {INVS}\n", workers=8, env={"SIZE": str(size)}, heap="6g")
    report.tlc(res)
    ms = sorted({tuple(m["par"]) for m in tlc.messages(res["out"], "FOREST")})
    ms = [m for m in ms if all(p in m for p, q in enumerate(m, 1) if q == 0)]   # a root without children is no arc
    report.extra.setdefault("models", {})["MCPrint"] = {"size": size, "states": res["distinct"], "invariants": INVS.split()[:-1], "emitted": len(ms), "replayed": min(limit, len(ms))}
    if len(ms) > limit:
        ms = common.rng("MCPrint").sample(ms, limit)
    docs = []
    for m in ms:
        els = [gen.element("urn:p", "C%d" % n, "c%d" % n, period="instant", **{"balance": "debit"}) for n in range(1, len(m) + 1)]
        links, roles = [], []
        for kind in ("presentation", "calculation"):
            arcs = [gen.arc("l%d" % p, "l%d" % n, gen.ARC[kind], 1000 * n) for n, p in enumerate(m, 1) if p]
            for n, a in enumerate(arcs):
                if kind == "calculation":
                    a["weight"] = [1000, -1000, 500][n % 3]
            links.append(gen.link(kind, "http://ex.com/role/r", [gen.loc("l%d" % n, "c%d" % n) for n in range(1, len(m) + 1)], arcs))
        docs.append(gen.doc(els, [dict(uri="http://ex.com/role/r", used=["presentation", "calculation"], **{"def": "all"})], [], links))
    run(report, docs, "print-model")
