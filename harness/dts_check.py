"""Worlds -> disk and server -> brel -> TLC (TraceDts)."""
import concurrent.futures as cf
import json, os, tempfile
import common, dtsgen, dtsmat, pool, tlc

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def observe(worlds, tag):
    server = dtsmat.Server()
    out = [None] * len(worlds)

    def part(n):
        """Every eighth world, on two processes that take turns at random."""
        ws = [pool.Worker(), pool.Worker()]
        try:
            for i in range(n, len(worlds), 8):
                rng = common.rng(f"{tag}/place/{i}")
                root = os.path.join(common.scratch(), tag, str(i))
                place = dtsmat.Place(worlds[i], root + "/w", server, i, rng)
                home = tempfile.mkdtemp(prefix="home.", dir=common.scratch())
                seen = []
                for step in worlds[i]["steps"]:
                    if step["act"] != "open":
                        place.put(step["u"], step["v"])
                        seen.append({"crash": "~", "marks": [], "errors": [], "asked": []})
                        continue
                    w = rng.choice(ws)
                    if rng.random() < 0.02:
                        w.stop()
                    place.asked()
                    o = w.call({"op": "dts", "path": place.path(step["k"]), "home": home})
                    o.setdefault("marks", [])
                    o.setdefault("errors", [])
                    o["asked"] = place.asked()
                    seen.append(o)
                out[i] = seen
                place.close()
                dtsmat.shutil.rmtree(home, ignore_errors=True)
        finally:
            for w in ws:
                w.stop()

    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(part, range(8)))
    server.close()
    return out


def judge(report, worlds, obs, prefixes, chunk=150, tag="dts"):
    parts = [range(i, min(i + chunk, len(worlds))) for i in range(0, len(worlds), chunk)]

    def one(part):
        f = os.path.join(common.scratch(), f"{tag}-{part[0]}.json")
        json.dump([{"doc": worlds[i], "obs": obs[i]} for i in part], open(f, "w"))
        res = tlc.run("TraceDts", CFG, workers=4, env={"CASES": f})
        os.remove(f)
        return part, res

    seen, failed = 0, []
    with cf.ThreadPoolExecutor(2) as ex:
        for part, res in ex.map(one, parts):
            report.tlc(res)
            for v in tlc.messages(res["out"], "CASE"):
                seen += 1
                i = part[v["i"] - 1]
                failed += [(c, i, v["step"]) for c in v["bad"] if c.startswith(tuple(prefixes))]
    want = sum(s["act"] == "open" for w in worlds for s in w["steps"])
    if seen != want:
        raise tlc.TLCError(f"{seen} of {want} openings were judged")
    report.traces += seen
    for c, i, step in failed:
        report.violation(c, {"clause": c, "case": i, "step": step, "doc": worlds[i], "obs": obs[i]})
    return failed


def run(report, worlds, prefixes, tag):
    obs = observe(worlds, tag)
    if worlds:
        report.sample({"doc": worlds[0], "obs": obs[0]})
    return judge(report, worlds, obs, prefixes, tag=tag)


def generated(report, profile, n, prefixes):
    worlds = [getattr(dtsgen.DtsGen(common.rng(f"{profile}/{i}")), profile)() for i in range(n)]
    report.extra.setdefault("generated", {})[profile] = n
    return run(report, worlds, prefixes, "dts-" + profile)


def model(report, module, invariants, prop, size, limit, prefixes, env=None, tag=""):
    """Model checks a module and replays the worlds (a seeded sample) that it prints."""
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS " + " ".join(invariants) + f"\nPROPERTY {prop}\n"
    res = tlc.run(module, cfg, workers=8, env={"SIZE": str(size), **(env or {})}, heap="6g")
    report.tlc(res)
    worlds = {json.dumps(m, sort_keys=True): m for m in tlc.messages(res["out"], "WORLD")}
    worlds = [worlds[k] for k in sorted(worlds)]
    x = report.extra.setdefault("models", {})[module + tag] = {"size": size, "states": res["distinct"], "invariants": invariants[:-1] + [prop], "emitted": len(worlds)}
    if len(worlds) > limit:
        worlds = common.rng("worlds/" + module + tag).sample(worlds, limit)
    x["replayed"] = len(worlds)
    for w in worlds:
        w.setdefault("steps", [{"act": "open", "k": 1, "u": "~", "v": 0}])
    return run(report, worlds, prefixes, module + tag)


GRAPHS = ["Confluent", "Grounded", "Once", "AskedWhatIsFar", "Closed", "Emit"]
HISTORIES = ["Frozen", "Fresh", "OnceEver", "KeepsFirst", "Emit"]
