"""Histories of queries of opened filings -> TLC (TraceQuery)."""
import glob, json, os, shutil
import common, mat, ixmat, pool, tlc
import xml.etree.ElementTree as ET


def bindings(path):
    """The prefixes that the documents below the path bind."""
    out = {("xml", "http://www.w3.org/XML/1998/namespace")}
    files = [path] if os.path.isfile(path) else glob.glob(os.path.join(path, "**", "*"), recursive=True)
    for f in files:
        if os.path.isfile(f) and not f.endswith(".zip"):
            for _, (p, u) in ET.iterparse(f, events=["start-ns"]):
                if p:
                    out.add((p, u))
            if f.endswith(("html", "htm")):
                out.add(("html", "http://www.w3.org/1999/xhtml"))
    return [{"p": p, "ns": u} for p, u in sorted(out)]


def observe(docs, tag, n):
    d0 = os.path.join(common.scratch(), tag)
    reqs = []
    for i, d in enumerate(docs):
        m = ixmat if "parts" in d else mat
        path = m.materialise(d, os.path.join(d0, str(i)), common.rng(f"{tag}/style/{i}"))
        reqs.append({"op": "queries", "path": path, "binds": bindings(os.path.join(d0, str(i))), "seed": f"{common.SEED}/{tag}/{i}", "n": n})
    obs = pool.run_all(reqs)
    shutil.rmtree(d0, ignore_errors=True)
    return obs


def run(report, docs, tag, n=24, chunk=300):
    obs = observe(docs, tag, n)
    ok = []
    for i, o in enumerate(obs):
        if o["crash"] == "~":
            ok.append(i)
        else:
            report.violation("opened", {"clause": "opened", "case": i, "doc": docs[i], "obs": o})
    f = os.path.join(common.scratch(), tag + ".json")
    report.traces += len(ok)
    for a in range(0, len(ok), chunk):
        part = ok[a:a + chunk]
        json.dump([{k: obs[i][k] for k in ("content", "queries", "answers", "after")} for i in part], open(f, "w"))
        res = tlc.run("TraceQuery", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", workers=8, env={"CASES": f})
        report.tlc(res)
        reached = dict.fromkeys(range(len(part)), 0)
        for m in tlc.messages(res["out"], "CASE"):
            reached[m["i"] - 1] = max(reached[m["i"] - 1], m["at"])
        for k, i in enumerate(part):
            o = obs[i]
            if reached[k] <= len(o["queries"]):
                s = reached[k]
                bad = {"clause": "after"} if s == len(o["queries"]) else {"clause": "answer", "query": o["queries"][s], "answer": o["answers"][s]}
                report.violation(bad["clause"] + (":" + bad["query"]["op"] if "query" in bad else ""), {**bad, "case": i, "doc": docs[i], "obs": o})
    if ok:
        report.sample({"doc": docs[ok[0]], "obs": obs[ok[0]]})


def generated(report, profile, n, inline=False):
    import gen, ixgen
    G = ixgen.IxGen if inline else gen.Gen
    docs = [getattr(G(common.rng(f"query/{profile}/{i}")), profile)() for i in range(n)]
    report.extra.setdefault("generated", {})[profile] = n
    run(report, docs, "query-" + profile)


INVS = "Fresh Partition ByConcept Core Specific Kinds Emit"


def model(report, size, limit):
    """Model checks MCQuery and replays its contents as filings."""
    import gen
    from gen import NONE
    res = tlc.run("MCQuery", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS {INVS}\n", workers=8, env={"SIZE": str(size)}, heap="6g")
    report.tlc(res)
    ms = list({json.dumps(m, sort_keys=True): m for m in tlc.messages(res["out"], "CONTENT")}.items())
    ms = [m for _, m in sorted(ms)]
    report.extra.setdefault("models", {})["MCQuery"] = {"size": size, "states": res["distinct"], "invariants": INVS.split()[:-1], "emitted": len(ms), "replayed": min(limit, len(ms))}
    if len(ms) > limit:
        ms = common.rng("MCQuery").sample(ms, limit)
    docs = []
    for m in ms:
        els = [gen.element(e["ns"], e["local"], "e%d" % i, abs="true" if e["kind"] == "Abstract" else NONE, period="instant") for i, e in enumerate(m["elems"])]
        ctxs = [gen.context("c1", instant="2020-12-31"), gen.context("c2", instant="2020-12-31", dims=[gen.explicit("{urn:d}Axis", "{urn:d}Mem")])]
        els += [gen.element("urn:d", "Axis", "ax", abs="true", type="stringItemType", sg="dimensionItem"), gen.element("urn:d", "Mem", "mem", abs="true", type="domainItemType")]
        fs = [gen.fact(f["concept"], "c1" if f["core"] else "c2", str(i)) for i, f in enumerate(m["facts"])]
        docs.append(gen.doc(els, [], [gen.inst(ctxs, [], fs)]))
    run(report, docs, "query-model", n=30)
