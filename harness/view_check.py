"""The ways to look at a filing's items -> TLC (TraceView)."""
import json, os, shutil
import common, gen, ixgen, ixmat, mat, pool, tlc
from gen import NONE

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def run(report, docs, tag, chunk=4000):
    d0 = os.path.join(common.scratch(), tag)
    reqs = []
    for i, d in enumerate(docs):
        m = ixmat if "parts" in d else mat
        path = m.materialise(d, os.path.join(d0, str(i)), common.rng(f"{tag}/style/{i}"))
        reqs.append({"op": "view", "path": path, "seed": f"{common.SEED}/{tag}/{i}"})
    obs = pool.run_all(reqs)
    shutil.rmtree(d0, ignore_errors=True)
    items = []
    for i, o in enumerate(obs):
        if o["crash"] != NONE:
            report.violation("opened", {"clause": "opened", "case": i, "doc": docs[i], "obs": o})
            continue
        for x in o["items"]:
            if x["crash"] != NONE:
                report.violation("viewed:" + x["is"], {"clause": "viewed", "case": i, "doc": docs[i], "obs": x})
            else:
                items.append((i, x))
    report.traces += len(items)
    f = os.path.join(common.scratch(), tag + ".json")
    for a in range(0, len(items), chunk):
        part = items[a:a + chunk]
        json.dump([x for _, x in part], open(f, "w"))
        res = tlc.run("TraceView", CFG, workers=8, env={"CASES": f}, heap="6g")
        report.tlc(res)
        done = {m["i"] - 1 for m in tlc.messages(res["out"], "CASE")}
        bad = {(m["i"] - 1, m["v"]) for m in tlc.messages(res["out"], "BAD")} | {(k, "unfinished") for k in range(len(part)) if k not in done}
        for k, v in sorted(bad):
            i, x = part[k]
            report.violation(f"view:{x['is']}.{v}", {"clause": "view", "view": v, "said": x["views"].get(v), "of": x["x"], "case": i, "doc": docs[i]})
    for x in items[:1] + items[len(items) // 2:][:1]:
        report.sample(x[1])


def generated(report, profile, n, inline=False):
    G = ixgen.IxGen if inline else gen.Gen
    docs = [getattr(G(common.rng(f"view/{profile}/{i}")), profile)() for i in range(n)]
    report.extra.setdefault("generated", {})[profile] = n
    run(report, docs, "view-" + profile)


INVS = "MainIsOne DictDetermines DictHoldsAll NodesOnce BelowIsSubtree Emit"


def model(report, size):
    """Model checks MCView and looks at filings made of the labels and networks it enumerates."""
    res = tlc.run("MCView", f"{CFG}INVARIANTS {INVS}\n", workers=8, env={"SIZE": str(size)}, heap="6g")
    report.tlc(res)
    ms = sorted({json.dumps(m, sort_keys=True) for m in tlc.messages(res["out"], "VIEW")})
    ms = [json.loads(m) for m in ms]
    nets = [m["par"] for m in ms if m["is"] == "network" and m["par"] and all(p in m["par"] for p, q in enumerate(m["par"], 1) if q == 0)]
    seqs = [m["labels"] for m in ms if m["is"] == "element"]
    report.extra.setdefault("models", {})["MCView"] = {"size": size, "states": res["distinct"], "invariants": INVS.split()[:-1], "replayed": len(nets) + len(seqs)}
    docs = []
    for a in range(0, max(len(nets), len(seqs)), 5):
        els, links, roles = [], [], []
        for j, ls in enumerate(seqs[a:a + 5]):
            e = "L%d" % j
            els.append(gen.element("urn:p", e, e, period="instant") if j % 2 else gen.element("urn:p", e, e, abs="true", type="domainItemType"))
            if ls:
                links.append(gen.link("label", "http://www.xbrl.org/2003/role/link", [gen.loc("l" + e, e)], [gen.arc("l" + e, e + str(n), gen.ARC["label"], 1000 * n) for n in range(len(ls))],
                                      [gen.res("label", e + str(n), l["text"], l["lang"]) for n, l in enumerate(ls)]))
        for j, par in enumerate(nets[a:a + 5]):
            uri = "http://ex.com/role/r%d" % j
            roles.append(dict(uri=uri, used=["presentation"], **{"def": "all"}))
            els += [gen.element("urn:p", "C%d_%d" % (j, n), "c%d_%d" % (j, n), period="instant") for n in range(1, len(par) + 1)]
            links.append(gen.link("presentation", uri, [gen.loc("l%d" % n, "c%d_%d" % (j, n)) for n in range(1, len(par) + 1)],
                                  [gen.arc("l%d" % p, "l%d" % n, gen.ARC["presentation"], 1000 * n) for n, p in enumerate(par, 1) if p]))
        docs.append(gen.doc(els, roles, [], links))
    run(report, docs, "view-model")
