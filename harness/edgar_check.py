"""Submission listings -> stand-in for the network -> brel's EDGAR helper -> TLC (TraceEdgar)."""
import concurrent.futures as cf
import json, os
import common, pool, tlc

NONE = "~"
HEAD = ('xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink"')
SCHEMA = ('<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:xbrli="http://www.xbrl.org/2003/instance" targetNamespace="http://ex.com/e">'
          '<xs:element id="e_A" name="A" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant" nillable="true"/></xs:schema>')


def instance(mark):
    return (f'<xbrli:xbrl {HEAD} xmlns:e="http://ex.com/e"><link:schemaRef xlink:type="simple" xlink:href="s.xsd"/><xbrli:context id="c"><xbrli:entity>'
            '<xbrli:identifier scheme="http://www.sec.gov/CIK">1</xbrli:identifier></xbrli:entity><xbrli:period><xbrli:instant>2020-12-31</xbrli:instant></xbrli:period></xbrli:context>'
            f'<e:A contextRef="c">{mark}</e:A></xbrli:xbrl>')


def listing(cik, subs, rng):
    cols = {"accessionNumber": [s["acc"] for s in subs], "filingDate": ["2022-01-01" for _ in subs], "reportDate": [s["date"] for s in subs],
            "acceptanceDateTime": ["" for _ in subs], "form": [s["form"] for s in subs], "isXBRL": [int(s["xbrl"] == "true") for s in subs],
            "isInlineXBRL": [rng.choice([0, 1]) for _ in subs], "primaryDocument": [s["doc"] for s in subs], "primaryDocDescription": [s["form"] for s in subs]}
    return json.dumps({"cik": cik, "name": "Company", "filings": {"recent": cols, "files": []}})


def pages_of(cik, subs, seen):
    """The documents of all submissions ever listed; the schema and the instance, and the page it was made from."""
    for s in subs:
        d = f"https://www.sec.gov/Archives/edgar/data/{cik.zfill(10)}/{s['acc'].replace('-', '')}/"
        doc = s["doc"]
        seen[d + os.path.join(os.path.dirname(doc), "s.xsd")] = SCHEMA
        inst = doc[:-4] + "_htm.xml" if doc.endswith(".htm") else doc
        if s["there"] == "true":
            seen[d + inst] = instance(s["acc"])
        if inst != doc:
            seen[d + doc] = "<html/>"
    return seen


def observe(worlds, tag):
    out = [None] * len(worlds)

    def part(n):
        wk = pool.Worker()
        try:
            for i in range(n, len(worlds), 8):
                rng = common.rng(f"{tag}/{i}")
                cik = str(rng.choice([1, 100000, 10 ** 8]) + i)
                pages, docs, age, obs = {}, {}, 0, []
                api = f"https://data.sec.gov/submissions/CIK{cik.zfill(10)}.json"
                for s in worlds[i]["steps"]:
                    o = NONE
                    if s["act"] == "publish":
                        pages.pop(api, None)
                        pages_of(cik, s["subs"], docs)
                        if s["ok"] == "true":
                            pages[api] = listing(cik, s["subs"], rng)
                    elif s["act"] == "wait":
                        age += s["hours"]
                    else:
                        if rng.random() < 0.05:
                            wk.stop()
                        q = dict(s["q"], cik={"1": cik, "long": cik.zfill(10), "bad": cik.zfill(11)}[s["q"]["cik"]])
                        res = wk.call({"op": "edgar", "cik": cik, "q": q, "age": age, "pages": {**pages, **docs}})
                        o, age = res.get("opened", res.get("crash")), 0
                    obs.append(o)
                out[i] = obs
        finally:
            wk.stop()
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(part, range(8)))
    return out


CIKS = {"1": "1", "long": "0000000001", "bad": "00000000001"}


def run(report, worlds, tag):
    obs = observe(worlds, tag)
    cases = [{"steps": [dict(s, q=dict(s["q"], cik=CIKS[s["q"]["cik"]])) if s["act"] == "ask" else s for s in w["steps"]], "obs": o} for w, o in zip(worlds, obs)]
    f = os.path.join(common.scratch(), tag + ".json")
    reached = [0] * len(cases)
    for a in range(0, len(cases), 1000):
        json.dump(cases[a:a + 1000], open(f, "w"))
        res = tlc.run("TraceEdgar", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", workers=4, env={"CASES": f})
        report.tlc(res)
        for m in tlc.messages(res["out"], "CASE"):
            reached[a + m["i"] - 1] = max(reached[a + m["i"] - 1], m["at"])
    report.traces += len(cases)
    report.sample(cases[0])
    for i, c in enumerate(cases):
        if reached[i] < len(c["steps"]):
            report.violation("answer", {"clause": "answer", "case": i, "step": reached[i] + 1, "steps": c["steps"], "obs": c["obs"]})


def world(rng):
    """A history of listings, days and requests."""
    forms = ["10-K", "10-K", "10-Q", "10-Q", "8-K", "10-K/A", "10-KT", "4", "S-1"]
    dates = ["%d-%s" % (y, d) for y in (rng.choice([1999, 2009, 2010]), 2019, 2020, 2021) for d in ("12-31", "03-31", "09-30", "01-01", "10-02", "02-28")]

    def subs():
        out = []
        pool_ = rng.sample(dates, rng.choice([2, 4, 8]))
        for k in range(rng.choice([0, 1, 2, 5, 9, 30])):
            form = rng.choice(forms)
            fits = form in ("10-K", "10-Q", "8-K")
            out.append({"form": form, "xbrl": rng.choice(["true", "true", "false"]) if fits else "false", "date": rng.choice(pool_) if rng.random() < 0.9 else "",
                        "acc": "%010d-%02d-%06d" % (rng.choice([1, 1193125]), rng.randint(10, 24), k + 1 + 100 * rng.randint(0, 9)),
                        "doc": rng.choice(["r.htm", "a-20201231.htm", "form10k.htm", "r.xml", "r.txt", "x.htm.htm", "d/r.htm"] if rng.random() < 0.3 else ["r.htm", "aapl-20201231.htm"]),
                        "there": "true" if rng.random() < 0.9 else "false"})
        order = rng.choice(["new", "old", "any"])
        if order != "any":
            out.sort(key=lambda s: s["date"], reverse=order == "new")
        for k, s in enumerate(out):  # accession numbers are unique
            s["acc"] = s["acc"][:-3] + "%03d" % k
        return out

    def ask(cur):
        q = {"cik": rng.choice(["1", "1", "1", "long"]), "form": rng.choice(["10-K", "10-Q", "8-K"]), "date": NONE}
        if cur and rng.random() < 0.5:
            s = rng.choice(cur)
            q["date"] = s["date"] or NONE
            if rng.random() < 0.7 and s["form"] in ("10-K", "10-Q", "8-K"):
                q["form"] = s["form"]
        if rng.random() < 0.15:
            q.update(rng.choice([{"cik": "bad"}, {"form": "10-K/A"}, {"form": "4"}, {"date": "20-01-01"}, {"date": "2020-13-01"}, {"date": "2020-02-30"}, {"date": "31.12.2020"}, {"form": "10-k"}]))
        return {"act": "ask", "q": q}
    cur = subs()
    steps = [{"act": "publish", "ok": "true", "subs": cur}]
    for _ in range(rng.randint(1, 6)):
        x = rng.random()
        if x < 0.6:
            steps.append(ask(cur))
        elif x < 0.8:
            cur = subs()
            steps.append({"act": "publish", "ok": rng.choice(["true"] * 4 + ["false"]), "subs": cur})
        else:
            steps.append({"act": "wait", "hours": rng.choice([1, 12, 23, 30, 49, 200])})
    return {"steps": steps + [ask(cur)]}


INVS = "Right Refused OrderFree Emit"


def model(report, size, limit):
    res = tlc.run("MCEdgar", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS {INVS}\n", workers=8, env={"SIZE": str(size)}, heap="6g")
    report.tlc(res)
    ms = tlc.messages(res["out"], "WORLD")
    ms.sort(key=lambda m: json.dumps(m, sort_keys=True))
    report.extra.setdefault("models", {})["MCEdgar"] = {"size": size, "states": res["distinct"], "invariants": INVS.split()[:-1], "emitted": len(ms), "replayed": min(limit, len(ms))}
    if len(ms) > limit:
        ms = common.rng("MCEdgar").sample(ms, limit)
    run(report, [{"steps": [{"act": "publish", "ok": "true", "subs": m["subs"]}, {"act": "ask", "q": m["q"]}]} for m in ms], "edgar-model")


def generated(report, n):
    report.extra.setdefault("generated", {})["edgar"] = n
    run(report, [world(common.rng(f"edgar/{i}")) for i in range(n)], "edgar-gen")
