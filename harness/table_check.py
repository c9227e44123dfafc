"""Histories of output parameters and tables of opened filings -> TLC (TraceTable)."""
import json, os, re, shutil
import common, mat, pool, tlc

DICTIONARY = json.load(open(os.path.join(common.SPEC, "words.json"), encoding="utf-8"))
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Langs <- AllLangs\n"
NONE = "~"
FLAGS = ["match_locale", "allow_mixed", "allow_default", "allow_system_language", "allow_report_language"]
TABLES = ["facts", "core", "components", "elements", "labels"]


def languages(doc):
    """The languages the documents declare."""
    return sorted({r["lang"] for k in doc["links"] for r in k["ress"] if k["kind"] in ("label", "footnote") and r["lang"] != NONE})


def params(r, pool_, given):
    p = {"languages": [r.choice(pool_) for _ in range(r.choice([0, 1, 1, 2, 3]))]}
    p.update({x: r.choice(["true", "false"]) if r.random() < given else NONE for x in FLAGS})
    return p


def plan(r, doc, n):
    pool_ = ["en-US", "de-DE", "fr-FR", "es-ES", "it-IT"] + 3 * languages(doc) + ["de", "en", "DE-de", "xx", "en-us", "fr", "fi", "fil", "gsw-CH"]
    steps = []
    for _ in range(n):
        op = r.choice(["generate"] * 7 + ["filing", "library", "system"])
        q = {"op": op, "arg": NONE, "p": params(r, pool_, .35 if op == "generate" else .8), "lone": r.random() < .5}
        if op == "system":
            q["arg"] = r.choice([NONE, "de-DE", "en-US", "fr-FR", "es-ES"])
        elif op == "generate":
            q["arg"] = r.choice(["facts", "facts", "elements", "elements"] + TABLES)
        elif op == "library" and r.random() < .3:
            q["p"] = dict({x: "true" for x in FLAGS}, languages=[])
        steps.append(q)
    return {"steps": steps, "system": r.choice([NONE, NONE, "de-DE", "en-US", "fr-FR"])}


def play(xs):
    """The language tags, and the units and data types, that occur anywhere in the values."""
    tags, keys = {"en-US", "de-DE", "fr-FR", "es-ES", "it-IT"}, set()

    def walk(x):
        if isinstance(x, dict):
            if "lang" in x:
                tags.add(x["lang"])
            tags.update(x.get("languages", []))
            if x.get("k") == "unit":
                keys.add("unit:" + x["value"])
            keys.update("data-type:" + x[k] for k in ("type", "dimtype") if k in x)
            if x.get("op") == "system":
                tags.add(x["arg"])
            if "system" in x:
                tags.add(x["system"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(xs)
    return sorted(tags), keys


def run(report, docs, tag, plans, chunk=100):
    d0 = os.path.join(common.scratch(), tag)
    reqs = []
    for i, d in enumerate(docs):
        path = mat.materialise(d, os.path.join(d0, str(i)), common.rng(f"{tag}/style/{i}"))
        reqs.append(dict(plans[i], op="tables", path=path, languages=languages(d)))
    obs = pool.run_all(reqs)
    shutil.rmtree(d0, ignore_errors=True)
    ok = []
    for i, o in enumerate(obs):
        if o["crash"] == NONE:
            ok.append(i)
        else:
            report.violation("opened", {"clause": "opened", "case": i, "doc": docs[i], "obs": o})
    f = os.path.join(common.scratch(), tag + ".json")
    report.traces += len(ok)
    for a in range(0, len(ok), chunk):
        part = ok[a:a + chunk]
        tags, keys = play([dict(obs[i], **plans[i]) for i in part])
        json.dump(tags, open(f + ".langs", "w"))
        json.dump({k: v for k, v in DICTIONARY.items() if k in keys or not k.startswith(("unit:", "data-type:"))}, open(f + ".words", "w"))
        json.dump([{"content": obs[i]["content"], "seen": obs[i]["seen"], "steps": plans[i]["steps"], "system": plans[i]["system"]} for i in part], open(f, "w"))
        res = tlc.run("TraceTable", CFG, workers=8, env={"CASES": f, "WORDS": f + ".words", "LANGS": f + ".langs"}, heap="6g")
        report.tlc(res)
        reached = dict.fromkeys(range(len(part)), 0)
        for m in tlc.messages(res["out"], "CASE"):
            reached[m["i"] - 1] = max(reached[m["i"] - 1], m["at"])
        for k, i in enumerate(part):
            s = reached[k]
            if s < len(plans[i]["steps"]):
                q = plans[i]["steps"][s]
                report.violation("table:" + q["arg"], {"clause": "table", "step": q, "seen": obs[i]["seen"][s], "at": s, "case": i, "doc": docs[i], "plan": plans[i], "obs": obs[i]})
    if ok:
        report.sample({"doc": docs[ok[0]], "plan": plans[ok[0]], "obs": obs[ok[0]]})


def generated(report, profile, n, steps=14):
    import gen
    docs = [getattr(gen.Gen(common.rng(f"table/{profile}/{i}")), profile)() for i in range(n)]
    report.extra.setdefault("generated", {})[profile] = n
    run(report, docs, "table-" + profile, [plan(common.rng(f"table/plan/{profile}/{i}"), d, steps) for i, d in enumerate(docs)])


INVS = "RowPerObject Earliest Permitted Uniform MixedOffersMore Monotone AskedFirst KeepsAll Emit"


def model(report, size, limit):
    """Model checks MCTable and replays a sample of its states as filings."""
    import gen
    f = os.path.join(common.scratch(), "words.model")
    json.dump({k: v for k, v in DICTIONARY.items() if not k.startswith(("unit:", "data-type:"))}, open(f, "w"))
    res = tlc.run("MCTable", f"{CFG}INVARIANTS {INVS}\n", workers=8, env={"WORDS": f, "SIZE": str(size)}, heap="6g")
    report.tlc(res)
    ms = {}
    for m in tlc.messages(res["out"], "TABLE"):
        ms.setdefault(json.dumps([m["a"], m["b"], m["sys"]], sort_keys=True), []).append(m)
    report.extra.setdefault("models", {})["MCTable"] = {"size": size, "states": res["distinct"], "invariants": INVS.split()[:-1], "contents": len(ms)}
    r = common.rng("MCTable")
    docs, plans = [], []
    for k in sorted(ms):
        group = r.sample(ms[k], min(limit, len(ms[k])))
        m = group[0]
        els = [gen.element("urn:p", n, n, abs="true", sg="dimensionItem", type="stringItemType") for n in ("E1", "E2")]
        els += [gen.element("urn:p", n, n, abs="true", type="domainItemType") for n in ("M1", "M2")] + [gen.element("urn:p", "C", "C", period="instant")]
        locs, arcs, ress = [], [], []
        for n, ls in [("E1", m["a"]), ("E2", m["b"]), ("M1", m["a"]), ("M2", m["b"])]:
            locs.append(gen.loc("s" + n, n))
            for l in ls:
                arcs.append(gen.arc("s" + n, "r%d" % len(ress), gen.ARC["label"]))
                ress.append(gen.res("label", "r%d" % len(ress), l["text"] + ("" if n[0] == "E" else " of " + n), l["lang"]))
        ctx = gen.context("c", instant="2020-12-31", dims=[gen.explicit("{urn:p}E1", "{urn:p}M1"), gen.explicit("{urn:p}E2", "{urn:p}M2")])
        docs.append(gen.doc(els, [], [gen.inst([ctx], [], [gen.fact("{urn:p}C", "c", "1", "f")])], [gen.link("label", "http://www.xbrl.org/2003/role/link", locs, arcs, ress)] if arcs else []))
        steps = []
        for m in group:
            steps += [dict(op="filing", arg=NONE, p=m["filing"], lone=True), dict(op="library", arg=NONE, p=m["library"], lone=True), dict(op="generate", arg=m["t"], p=m["p"], lone=True)]
        plans.append({"steps": steps, "system": m["sys"]})
    report.extra["models"]["MCTable"]["replayed"] = sum(len(p["steps"]) // 3 for p in plans)
    run(report, docs, "table-model", plans)
