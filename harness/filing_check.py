"""Documents -> files -> brel -> TLC (TraceFiling): the conformance check shared by the properties about opening filings."""
import json, os, shutil
import common, mat, pool, tlc

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def observe(docs, tag, want, plain=False):
    d0 = os.path.join(common.scratch(), tag)
    if "comps" in want and "uris" not in want:
        want = list(want) + ["uris"]
    if "errors" in want:
        want = list(want) + ["places"]
    reqs = []
    for i, d in enumerate(docs):
        path = mat.materialise(d, os.path.join(d0, str(i)), common.rng(f"{tag}/style/{i}"), plain)
        reqs.append({"op": "open", "path": path, "want": want})
    obs = pool.run_all(reqs)
    shutil.rmtree(d0, ignore_errors=True)
    return obs


def judge(report, docs, obs, want, prefixes, chunk=400, tag="trace", module="TraceFiling", env=None):
    """Traces every document through the machine and reports the failing clauses that start with one of the prefixes."""
    import concurrent.futures as cf
    parts = [range(i, min(i + chunk, len(docs))) for i in range(0, len(docs), chunk)]

    def one(part):
        f = os.path.join(common.scratch(), f"{tag}-{part[0]}.json")
        w = os.path.join(common.scratch(), f"{tag}-want.json")
        json.dump([{"doc": docs[i], "obs": obs[i]} for i in part], open(f, "w"))
        json.dump(want, open(w, "w"))
        res = tlc.run(module, CFG, workers=4, env={"CASES": f, "WANTED": w, **(env or {})})
        os.remove(f)
        return part, res

    seen = 0
    failed = []
    with cf.ThreadPoolExecutor(2) as ex:
        for part, res in ex.map(one, parts):
            report.tlc(res)
            for v in tlc.messages(res["out"], "CASE"):
                seen += 1
                i = part[v["i"] - 1]
                failed += [(c, i) for c in v["bad"] if c.startswith(tuple(prefixes))]
    if seen != len(docs):
        raise tlc.TLCError(f"{seen} of {len(docs)} cases were judged")
    report.traces += seen
    for c, i in failed:
        report.violation(c, {"clause": c, "case": i, "doc": docs[i], "obs": obs[i]})
    return failed


def run(report, docs, want, prefixes, tag):
    obs = observe(docs, tag, want)
    if docs:
        report.sample({"doc": docs[0], "obs": obs[0]})
    return judge(report, docs, obs, want, prefixes, tag=tag)


MC_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Confluent FactsGrounded NetsUnique NetsGrounded RootsExist ErrorsCover Emit
PROPERTY Monotone
"""


def explore(report, scope, size=None):
    """Model checks a scope of MCFiling in every order of reading and returns the documents it explored."""
    size = size or common.tier(1, 2)
    res = tlc.run("MCFiling", MC_CFG, workers=8, env={"SCOPE": scope, "SIZE": str(size)}, heap="6g")
    report.tlc(res)
    seen, docs = set(), []
    for d in tlc.messages(res["out"], "DOC"):
        k = json.dumps(d, sort_keys=True)
        if k not in seen:
            seen.add(k)
            docs.append(d)
    docs.sort(key=lambda d: json.dumps(d, sort_keys=True))
    report.extra.setdefault("model_scopes", {})[scope] = {"size": size, "documents": len(docs), "states": res["distinct"]}
    return docs


def scope(report, name, want, prefixes, limit=None, size=None):
    """Explores a scope and replays its documents (a seeded sample if there are more than the limit) on brel."""
    docs = explore(report, name, size)
    if limit and len(docs) > limit:
        docs = common.rng("scope/" + name).sample(docs, limit)
    report.extra["model_scopes"][name]["replayed"] = len(docs)
    return run(report, docs, want, prefixes, "scope-" + name)


def generated(report, profile, n, want, prefixes):
    """Random documents of a generator profile."""
    import gen
    docs = [getattr(gen.Gen(common.rng(f"{profile}/{i}")), profile)() for i in range(n)]
    report.extra.setdefault("generated", {})[profile] = n
    return run(report, docs, want, prefixes, "gen-" + profile)


def texts(report, size, limit):
    """Every short text of MCCharacter as the value of facts of several data types."""
    import gen
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Stepwise Grammar Padded Zeroes Negated Exact Truths Emit\n"
    res = tlc.run("MCCharacter", cfg, workers=8, env={"SIZE": str(size)}, heap="6g")
    report.tlc(res)
    ts = sorted({m["text"] for m in tlc.messages(res["out"], "TEXT")})
    if len(ts) > limit:
        ts = common.rng("texts").sample(ts, limit)
    report.extra.setdefault("models", {})["MCCharacter"] = {"size": size, "states": res["distinct"], "replayed": len(ts)}
    return [gen.Gen(common.rng(f"typed/{i}")).typed_doc(ts[i:i + 12]) for i in range(0, len(ts), 12)]
