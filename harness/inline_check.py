"""Inline documents -> pages -> brel -> TLC (TraceInline)."""
import json, os, shutil
from gen import NONE
import common, filing_check as fc, ixmat, ixgen, pool, tlc

TABLES = os.path.join(common.SPEC, "tables.json")


def observe(docs, tag, want, plain=False):
    d0 = os.path.join(common.scratch(), tag)
    reqs = []
    for i, d in enumerate(docs):
        path = ixmat.materialise(d, os.path.join(d0, str(i)), common.rng(f"{tag}/style/{i}"), plain)
        reqs.append({"op": "inline", "path": path, "want": sorted(set(want) | ({"places"} if "errors" in want else set())), "escaped": [p["id"] for p in d["parts"] if p["esc"] == "true" and p["id"] != "~"]})
    obs = pool.run_all(reqs)
    shutil.rmtree(d0, ignore_errors=True)
    return obs


def run(report, docs, want, prefixes, tag, chunk=200):
    obs = observe(docs, tag, want)
    if docs:
        report.sample({"doc": docs[0], "obs": obs[0]})
    return fc.judge(report, docs, obs, want, prefixes, chunk=chunk, tag=tag, module="TraceInline", env={"TABLES": TABLES})


def generated(report, profile, n, want, prefixes, **kw):
    docs = [getattr(ixgen.IxGen(common.rng(f"{profile}/{i}")), profile)(**kw) for i in range(n)]
    report.extra.setdefault("generated", {})[profile] = n
    return run(report, docs, want, prefixes, "gen-" + profile)


def packed(report, items, want, prefixes, tag, per=50):
    """Replays texts, many in a document."""
    docs = []
    for n in range(0, len(items), per):
        docs.append(ixgen.IxGen(common.rng(f"{tag}/{n}")).packed(items[n:n + per]))
    report.extra.setdefault("texts", {})[tag] = len(items)
    return run(report, docs, want, prefixes, tag)


def model(report, module, invariants, emit=None, limit=None, env=None, size=None, prop=None):
    """Model checks one of the MC modules and returns what it printed (a seeded sample if there is more than the limit)."""
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS " + " ".join(invariants) + "\n" + (f"PROPERTY {prop}\n" if prop else "")
    res = tlc.run(module, cfg, workers=8, env={"TABLES": TABLES, **({"SIZE": str(size)} if size else {}), **(env or {})}, heap="6g")
    report.tlc(res)
    x = report.extra.setdefault("models", {})[module] = {"states": res["distinct"], "invariants": [i for i in invariants if i != "Emit"]}
    if size:
        x["size"] = size
    if not emit:
        return []
    seen = {}
    for m in tlc.messages(res["out"], emit):
        seen.setdefault(json.dumps(m, sort_keys=True), m)
    out = [seen[k] for k in sorted(seen)]
    x["emitted"] = len(out)
    if limit and len(out) > limit:
        out = common.rng("model/" + module).sample(out, limit)
    x["replayed"] = len(out)
    return out


def numbers(report, limit, size):
    ms = model(report, "MCNumbers", ["Stepwise", "Tidy", "Exact", "SignOnly", "GroupingFree", "Emit"], "NUM", limit, size=size)
    return [dict(k="nonFraction", fmt=m["fmt"], scale=m["scale"], sign=m["sign"], text=m["text"]) for m in ms if m["text"] or m["fmt"] != NONE]


def dates(report, limit):
    return [dict(k="nonNumeric", fmt=m["fmt"], text=m["text"]) for m in model(report, "MCDates", ["RoundTrip", "Emit"], "DATE", limit)]


def texts(report, limit, size):
    """The arrangements of MCInline, as documents."""
    ms = model(report, "MCInline", ["TextsAreDeclared", "ChainOrder", "Disjoint", "MarkIsText", "Faults", "Nested", "Emit"], "DOC", limit, size=size)
    import gen
    B, out = ixgen.BLANK, []
    txt = gen.element(gen.NSS[0], "Txt", "e1", type="stringItemType", period="instant")
    for m in ms:
        parts = [dict(B, k="nonNumeric", id="A", name=txt["name"], ctx="c", cont="k1"), dict(B, k="continuation", id="k1", cont="k2"),
                 dict(B, k="continuation", id="k2"), dict(B, k="exclude"), dict(B, k="markup", tag="b"), dict(B, k="nonNumeric", id="B", name=txt["name"], ctx="c", esc="true"),
                 dict(B, k="header"), dict(B, k="resources", C=[gen.context("c", instant="2020-12-31")])]
        head = [{"t": "open", "i": 7, "s": ""}, {"t": "open", "i": 8, "s": ""}, {"t": "close", "i": 0, "s": ""}, {"t": "close", "i": 0, "s": ""}]
        pages = [list(p) for p in m["pages"]]
        pages[len(out) % len(pages)][0:0] = head
        out.append(dict(elements=[txt], parts=parts, pages=pages, refpage=len(out) % len(pages)))
    return out
