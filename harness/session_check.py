"""Histories of several filings side by side -> TLC (TraceSession)."""
import copy, json, os, queue, shutil, threading
import common, gen, ixgen, ixmat, mat, pool, tlc
from gen import NONE, ANY


def rival(r, d):
    """Another filing that uses the same names and ids for other things."""
    d = copy.deepcopy(d)

    def some(xs, p=.6):
        return [x for x in xs if r.random() < p]
    for e in some(d["elements"]):
        if e["balance"] != NONE:
            e["balance"] = "credit" if e["balance"] == "debit" else "debit"
        if e["period"] != NONE and r.random() < .3:
            e["period"] = "instant" if e["period"] == "duration" else "duration"
        if e["nillable"] != NONE:
            e["nillable"] = "false" if e["nillable"] == "true" else "true"
        if e["type"] in gen.TYPES:
            e["type"] = r.choice(gen.TYPES)
    for k in d["insts"]:
        for c in some(k["contexts"]):
            c["ident"] = c["ident"] + "9"
            if c["instant"] != NONE:
                c["instant"] = "2015-06-15"
            if c["dims"] and r.random() < .5:
                c["dims"] = c["dims"][1:]
        for u in some(k["units"]):
            for ch in u["ch"]:
                if ch["k"] == "measure":
                    ch["m"] = "{http://www.xbrl.org/2003/iso4217}CHF"
        for f in some(k["facts"], .7):
            if f["value"] != NONE:
                f["value"] = r.choice(["77", "other", f["value"] + "7"])
        if k["facts"] and r.random() < .5:
            k["facts"].pop(r.randrange(len(k["facts"])))
    for l in d["links"]:
        for x in some(l["ress"]):
            x["text"] = "other " + x["text"]
        for a in some(l["arcs"]):
            o = r.choice([1000, 2000, 3000, ANY])
            for b in l["arcs"]:  # of an arc stated twice, either may count
                if (a["from"], a["to"], a["arcrole"]) == (b["from"], b["to"], b["arcrole"]):
                    b["order"] = o
        if len(l["arcs"]) > 1 and r.random() < .4:
            l["arcs"].pop()
    for x in some(d["roles"]):
        x["def"] = "other role" if x.get("def", NONE) != NONE else NONE
    return d


def histories(report, depth, limit):
    """The histories of MCSession, and the check that they can tell libraries that share from one that does not."""
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Provides%s\nPROPERTY Steps\n"
    res = tlc.run("MCSession", cfg % " Emit", workers=8, env={"SHARE": "nothing", "SIZE": str(depth)}, heap="8g")
    report.tlc(res)
    hs = [json.loads(h) for h in sorted({json.dumps(m) for m in tlc.messages(res["out"], "HISTORY")})]
    told = {}
    for share in ("path", "name"):
        bad = tlc.run("MCSession", cfg % "", workers=4, env={"SHARE": share, "SIZE": str(depth)}, allow_violation=True)
        told[share] = bad["violated"]
        if not bad["violated"]:
            raise tlc.TLCError(f"MCSession: histories of depth {depth} cannot tell a library that shares by {share}")
    report.extra.setdefault("models", {})["MCSession"] = {"depth": depth, "states": res["distinct"], "histories": len(hs), "replayed": min(limit, len(hs)), "told apart": told}
    return common.rng("MCSession").sample(hs, min(limit, len(hs)))


UNREACHABLE = "http://127.0.0.1:9/tax/"


def tax(home, rewritten):
    """A reference to a document that cannot be had, unless the catalog says where it is."""
    open(os.path.join(home, "more.xsd"), "w").write(
        '<xs:schema xmlns:xs="%s" targetNamespace="http://more.example"><xs:import namespace="http://tax.example" schemaLocation="%sx.xsd"/></xs:schema>' % (mat.NS["xs"], UNREACHABLE))
    if rewritten:
        os.makedirs(os.path.join(home, "META-INF"))
        os.makedirs(os.path.join(home, "tax"))
        open(os.path.join(home, "META-INF", "catalog.xml"), "w").write(
            '<catalog xmlns="urn:oasis:names:tc:entity:xmlns:xml:catalog"><rewriteURI uriStartString="%s" rewritePrefix="../tax/"/></catalog>' % UNREACHABLE)
        open(os.path.join(home, "tax", "x.xsd"), "w").write(
            '<xs:schema xmlns:xs="%s" xmlns:xbrli="%s" targetNamespace="http://tax.example"><xs:element name="Tax" id="tax_Tax" type="xbrli:stringItemType" '
            'substitutionGroup="xbrli:item" xbrli:periodType="duration"/></xs:schema>' % (mat.NS["xs"], mat.NS["xbrli"]))


def prepare(r, profile, d0):
    """Two rival bundles in two forms each, on disk; returns the relative path to open for each."""
    inline = profile == "inline_doc"
    m = ixmat if inline else mat
    base = getattr((ixgen.IxGen if inline else gen.Gen)(r), profile)()
    other = getattr((ixgen.IxGen if inline else gen.Gen)(r), profile)() if inline or r.random() < .2 else rival(r, base)
    forms, alike, remote = {}, r.random() < .7, r.choice([0, 0, 0, 0, 1, 2])
    for b, d in ((1, base), (2, other)):
        for f in (1, 2):
            home = os.path.join(d0, "forms", "%d.%d" % (b, f))
            st = common.rng("%s/%d" % (r.random(), b))
            kw = {"names": "abcz"[f]} if alike and not inline else {}
            if profile == "unbound_doc":
                kw["few"] = 3
            rel = os.path.relpath(m.materialise(d, home, st, **kw), home)
            if remote and not inline:
                rel = "."
                tax(home, b == remote)
            forms[b, f] = home, rel
    return forms, [base, other]


def commands(r, hist, forms, d0):
    """The history as segments of commands (one process each), and as events."""
    events, segs, opened, rel = [], [], 0, {}
    slot = lambda p: os.path.join(d0, "slot%d" % p)

    def add(seg, op, **k):
        e = {"op": op, "path": 0, "b": 0, "form": 0, "h": 0, "bag": NONE, "exact": NONE}
        e.update({x: v for x, v in k.items() if x in e})
        c = {"op": op, "h": k.get("h", 0), "noise": k.get("noise", False)}
        if op == "write":
            home, rel[k["path"]] = forms[k["b"], k["form"]]
            c.update({"from": home, "to": slot(k["path"])})
        elif op == "open":
            c["path"] = os.path.normpath(os.path.join(slot(k["path"]), rel[k["path"]]))
        events.append(e)
        seg.append((len(events) - 1, c))
    n = 2
    pairs = sorted(forms)
    r.shuffle(pairs)
    for b, f in pairs:  # each form on its own first
        n += 1
        seg = []
        add(seg, "write", path=n, b=b, form=f)
        add(seg, "open", path=n, h=1)
        add(seg, "read", h=1)
        segs.append(seg)
        events.append({"op": "restart", "path": 0, "b": 0, "form": 0, "h": 0, "bag": NONE, "exact": NONE})
    seg = []
    for p in (1, 2):
        add(seg, "write", path=p, b=p, form=1)
    for q in hist:
        if q["op"] == "restart":
            segs.append(seg)
            seg, opened = [], 0
            events.append({"op": "restart", "path": 0, "b": 0, "form": 0, "h": 0, "bag": NONE, "exact": NONE})
        elif q["op"] == "open":
            opened += 1
            add(seg, "open", path=q["path"], h=opened)
        elif q["op"] == "read":
            add(seg, "read", h=q["h"], noise=r.random() < .5)
        elif q["op"] == "write":
            add(seg, "write", path=q["path"], b=q["b"], form=q["form"])
        else:
            add(seg, "drop", h=q["h"])
    segs.append(seg)
    for e in events:  # in the specification "open" numbers the handles itself
        if e["op"] == "open":
            e["h"] = 0
    return segs, events, n


def play(case, ws, r):
    servers, aged = ws[:-1], ws[-1]
    for seg in case["segs"]:
        req = {"op": "session", "cmds": [c for _, c in seg], "full": case.get("full", False)}
        x = r.random()
        got = aged.call(req) if x < .3 else r.choice(servers).call({"op": "forked", "req": req})
        if got["crash"] != NONE:
            case["crash"] = got["crash"]
            return
        for (k, c), o in zip(seg, got["out"]):
            if o["crash"] != NONE:
                case["crash"] = o["crash"]
                return
            if c["op"] == "read":
                case["events"][k].update(bag=o["bag"], exact=o["exact"])
                case.setdefault("obs", {})[k] = o.get("obs")


def run(report, hists, profiles, tag, threads=6, full=False):
    cases = []
    q = queue.Queue()
    for i in range(len(hists)):
        q.put(i)
    cases = [None] * len(hists)

    def loop(t):
        ws = [pool.Worker(env={"PYTHONHASHSEED": str(1 + 10 * t + k)}) for k in range(3)]
        try:
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    return
                cases[i] = one(i, ws, full)
        finally:
            for w in ws:
                w.stop()

    def one(i, ws, full=False):
        r = common.rng(f"{tag}/{i}")
        d0 = os.path.join(common.scratch(), tag, str(i))
        forms, docs = prepare(r, profiles[i % len(profiles)], d0)
        segs, events, n = commands(r, hists[i], forms, d0)
        case = {"segs": segs, "events": events, "paths": n, "docs": docs, "crash": NONE, "full": full}
        play(case, ws, r)
        shutil.rmtree(d0, ignore_errors=True)
        return case
    ts = [threading.Thread(target=loop, args=(t,)) for t in range(threads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ok = []
    for i, c in enumerate(cases):
        if c is None or c["crash"] != NONE:
            report.violation("crash", {"clause": "crash", "case": i, "crash": c and c["crash"], "history": hists[i], "docs": c and c["docs"]})
        else:
            ok.append(i)
    f = os.path.join(common.scratch(), tag + ".json")
    json.dump([{"events": cases[i]["events"], "paths": cases[i]["paths"]} for i in ok], open(f, "w"))
    res = tlc.run("TraceSession", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", workers=8, env={"CASES": f})
    report.tlc(res)
    report.traces += len(ok)
    reached = dict.fromkeys(range(len(ok)), 0)
    for m in tlc.messages(res["out"], "CASE"):
        reached[m["i"] - 1] = max(reached[m["i"] - 1], m["at"])
    for k, i in enumerate(ok):
        if reached[k] < len(cases[i]["events"]):
            at = reached[k]
            report.violation("read", {"clause": "read", "case": i, "at": at, "history": hists[i], "events": cases[i]["events"], "docs": cases[i]["docs"], "profile": profiles[i % len(profiles)], "obs": cases[i].get("obs") if full else NONE})
    if ok:
        report.sample({"history": hists[ok[0]], "events": cases[ok[0]]["events"], "docs": cases[ok[0]]["docs"]})
    return cases
