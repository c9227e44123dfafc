"""Random worlds and histories for Dts.tla."""
import os, urllib.parse
from dtsmat import remote

SUFFIX = {"schema": ".xsd", "linkbase": ".xml", "instance": ".xml", "page": ".htm", "other": ".txt"}


def folded(u):
    """Only used to build worlds without dangling local references; the judge is Dts.tla."""
    return u if remote(u) else os.path.normpath(u)


def resolve(F, base, ref):
    if remote(ref) or remote(base):
        u = urllib.parse.urljoin(base, ref)
    else:
        u = folded(os.path.dirname(base) + "/" + ref)
    hits = [c for c in F["catalog"] if u.startswith(c["from"])] if F["kind"] in ("folder", "zip") else []
    if hits:
        c = max(hits, key=lambda c: len(c["from"]))
        u = c["to"] + u[len(c["from"]):]
        if not remote(u):
            u = folded(F["path"] + "/META-INF/" + u)
    return u


class DtsGen:
    def __init__(self, rng):
        self.r = rng

    def chance(self, p):
        return self.r.random() < p

    # ---- addresses ----
    def stem(self):
        return self.r.choice(["a", "b", "a_b", "a-b", "A", "a.b", "lab", "x", "a b" if False else "c"])

    def addresses(self, n, dirs, lookalike):
        out = []
        kinds = []
        facts = self.r.choice(["instance", "instance", "page"])  # brel reads pages as an inline filing, in which XML instances are copies
        while len(out) < n:
            k = self.r.choice(["schema"] * 5 + ["linkbase"] * 3 + [facts] * 2)
            d = self.r.choice(dirs)
            if k in ("instance", "page") and d.startswith("http") and self.chance(0.7):
                continue
            u = d + "/" + self.stem() + SUFFIX[k]
            if lookalike and out and self.chance(0.7):
                u = self.alike(self.r.choice(out), k)
            if k == "page" and self.chance(0.3):
                u = u[:-4] + ".xhtml" if u.endswith(".htm") else u
            if u in out or not u.endswith((".xsd", ".xml", ".htm", ".xhtml")):
                continue
            out.append(u)
            kinds.append(k)
        return list(zip(out, kinds))

    def alike(self, u, kind):
        """Another address that looks much like this one."""
        s = SUFFIX[kind]
        stem = u.rsplit(".", 1)[0]
        head, _, last = stem.rpartition("/")
        if not remote(u):
            return self.r.choice([head + "/d/" + last, head + "/" + last.swapcase(), head + "/" + last + "_", head + "/" + last]) + s
        o, _, path = stem[7:].partition("/")
        return self.r.choice([
            "http://" + o + "/" + path.replace("/", "_"), "http://" + o + "/" + path.replace("_", "/"), "http://" + o + "/" + path.replace(".", "_"),
            "http://" + o + "/" + path.replace("_", "."), "http://" + o + "/" + path.replace("/", "."), "http://" + o + "/" + path.swapcase(),
            "http://" + ("B" if o == "A" else "A") + "/" + path, "http://" + o + "/" + path + "?v=1", "http://" + o + "/" + path + "_v=1",
            "http://" + o + "/" + path + "?v=2", "http://" + o + "/www." + path, "http://" + o + "/" + path + s, "http://" + o + "/" + "long-" * 40 + path,
            "http://" + o + "/" + "long-" * 40 + path + "_", "http://" + o + "/p/" + last, "http://" + o + "/" + last, stem]) + s

    # ---- references ----
    def written(self, base, target, F):
        """A way of writing a reference, or None."""
        ways = []
        ro = base[:base.index("/", 8)] if remote(base) else None
        if remote(target):
            ways.append(target)
        if remote(base) and target.startswith(ro + "/"):
            bp, tp = urllib.parse.urlsplit(base).path, target[len(ro):]
            ways += [self.around(os.path.relpath(tp, os.path.dirname(bp)))] * 3 + [tp]
        if not remote(base) and not remote(target):
            ways += [self.around(os.path.relpath(target, os.path.dirname(base)))] * 2
        if F["kind"] in ("folder", "zip"):
            for c in F["catalog"]:
                to = c["to"] if remote(c["to"]) else folded(F["path"] + "/META-INF/" + c["to"]) + ("/" if c["to"].endswith("/") else "")
                if target.startswith(to):
                    ways += [c["from"] + target[len(to):]] * 4
        ways = [w for w in ways if resolve(F, base, w) == target]
        return self.r.choice(ways) if ways else None

    def around(self, rel):
        x = self.r.random()
        if x < 0.15:
            return "./" + rel
        if x < 0.3 and not rel.startswith(".."):
            return "zz/../" + rel
        if x < 0.35 and "/" in rel and not rel.startswith(".."):
            h, _, t = rel.partition("/")
            return h + "/./" + t
        return rel

    # ---- worlds ----
    def world(self, lookalike=False, versions=1, most=9):
        for _ in range(1000):
            w = self.attempt(lookalike, versions, most)
            if w:
                return w
        raise RuntimeError("no world found")

    def filing(self, locals_):
        kind = self.r.choice(["file", "file", "folder", "folder", "zip", "zip", "remote"])
        F = {"kind": kind, "path": "f", "catalog": []}
        if kind in ("folder", "zip") and self.chance(0.6):
            dirs = ["../", "../d/", "./", "../d/d/"] + ([] if kind == "zip" else ["../../t/", "../../t/d/"]) + ["http://A/", "http://A/p/", "http://B/"]
            froms = ["http://X/tax/", "http://X/tax/d/", "http://X/", "http://B/p/", "http://A/p/q/", "http://X/tax/a", "https://X/"]
            for f in self.r.sample(froms, self.r.choice([1, 1, 2, 3])):
                F["catalog"].append({"from": f, "to": self.r.choice(dirs)})
            if self.chance(0.2):
                F["nested"] = [{"from": c["from"], "to": "http://A/gone/"} for c in F["catalog"]]
            if self.chance(0.2):
                F["faults"] = self.r.sample(["nofrom", "noto", "twice"], self.r.choice([1, 1, 2]))
        elif kind in ("folder", "zip") and self.chance(0.15):
            F["faults"] = ["root"]
        return F

    def attempt(self, lookalike, versions, most):
        F = self.filing(None)
        local = ["f", "f", "f/d", "f/d/d"] + ([] if F["kind"] == "zip" else ["t", "t/d"])
        far = ["http://A", "http://A/p", "http://A/p/q", "http://B", "http://B/p"]
        if F["kind"] == "remote":
            local = ["t"]
        dirs = local * (1 if lookalike else 2) + far
        if lookalike and self.chance(0.5):
            dirs = local[:2] + far * 2
        docs = []
        for i, (u, k) in enumerate(self.addresses(self.r.randint(2, most), dirs, lookalike)):
            n = self.r.choice([1] * 3 + [2]) if versions > 1 else 1
            docs.append({"name": "S%d" % i, "u": u, "kind": k, "versions": [{"mark": "%s%dv%d" % (k[0].upper(), i, v + 1), "at": "~", "refs": []} for v in range(n if versions > 1 else 1)]})
        schemas = [d for d in docs if d["kind"] == "schema"]
        if not schemas:
            return None
        starts = [d for d in docs if d["u"].startswith("f/") and d["kind"] in ("instance", "page", "linkbase")] if F["kind"] == "file" else \
            [d for d in docs if remote(d["u"]) and d["kind"] in ("instance", "page", "linkbase") and "?" not in d["u"]] if F["kind"] == "remote" else [d for d in docs if d["u"].startswith("f/")]
        if not starts:
            return None
        if F["kind"] in ("file", "remote"):
            F["path"] = self.r.choice(starts)["u"]
        density = self.r.choice([0.15, 0.25, 0.4])
        if self.chance(0.15):  # something that is not there
            for _ in range(self.r.choice([1, 2])):
                far_docs = [d for d in docs if remote(d["u"])]
                if far_docs:
                    self.r.choice(far_docs)["versions"] = []
        for d in docs:
            for m in d["versions"]:
                if d["kind"] in ("linkbase", "instance", "page"):
                    near = [s for s in schemas if s["versions"]] or schemas
                    t = self.r.choice(near)
                    r = self.written(d["u"], t["u"], F)
                    if r:
                        m["at"] = t["u"]
                        m["refs"].append({"r": r, "to": t["name"]})
                    elif d["kind"] != "linkbase" or self.chance(0.5):
                        return None
                for t in docs:
                    ok = t["kind"] in (("schema", "linkbase") if d["kind"] != "linkbase" else ("schema", "linkbase", "schema"))
                    if t["kind"] == "instance" or t["kind"] == d["kind"] == "page":
                        ok = self.chance(0.1)
                    if d is t and self.chance(0.5):
                        continue
                    if ok and self.chance(density if d is not docs[0] else 0.5):
                        r = self.written(d["u"], t["u"], F)
                        if r:
                            m["refs"].append({"r": r, "to": t["name"]})
                            if self.chance(0.15):
                                r = self.written(d["u"], t["u"], F)
                                m["refs"].append({"r": r, "to": t["name"]})
                if d["kind"] == "page":
                    m["decoys"] = [x["u"] if remote(x["u"]) else "no/" + x["u"] for x in self.r.sample(docs, min(2, len(docs)))]
                self.r.shuffle(m["refs"])
        if self.chance(0.3):
            docs.append({"name": "S%d" % len(docs), "u": "f/notes.txt", "kind": "other", "versions": [{"mark": "other", "at": "~", "refs": []}]})
        w = {"docs": docs, "filings": [F], "steps": [{"act": "open", "k": 1, "u": "~", "v": 0}]}
        return w if self.sound(w) else None

    def sound(self, w):
        """No local reference dangles."""
        places = {d["u"]: d for d in w["docs"]}
        for F in w["filings"]:
            if F["kind"] in ("file", "remote") and (F["path"] not in places or (not remote(F["path"]) and not places[F["path"]]["versions"])):
                return False
            for d in w["docs"]:
                for m in d["versions"]:
                    for x in m["refs"]:
                        u = resolve(F, d["u"], x["r"])
                        if not remote(u) and (u not in places or not places[u]["versions"]):
                            return False
        if w["filings"][0]["kind"] in ("folder", "zip") and not any(d["u"].startswith("f/") for d in w["docs"]):
            return False
        # every remote address met must be one of the documents, so that the specification knows it
        for F in w["filings"]:
            for d in w["docs"]:
                for m in d["versions"]:
                    for x in m["refs"]:
                        if resolve(F, d["u"], x["r"]) not in places:
                            return False
        return True

    def graph(self):
        """A world opened once."""
        w = self.world(lookalike=self.chance(0.2))
        return w

    def history(self):
        """Openings of one or two filings, edits and publications in between."""
        for _ in range(1000):
            w = self.world(lookalike=self.chance(0.6), versions=2, most=7)
            if self.chance(0.5):
                f2 = [d for d in w["docs"] if d["kind"] in ("instance", "linkbase") and d["versions"] and "?" not in d["u"]]
                if f2:
                    d = self.r.choice(f2)
                    w["filings"].append({"kind": "remote" if remote(d["u"]) else "file", "path": d["u"], "catalog": []})
            if not self.sound(w):
                continue
            steps = [{"act": "open", "k": self.r.randint(1, len(w["filings"])), "u": "~", "v": 0}]
            for _ in range(self.r.randint(2, 6)):
                d = self.r.choice(w["docs"])
                if self.chance(0.5) or d["kind"] == "other" or not d["versions"]:
                    steps.append({"act": "open", "k": self.r.randint(1, len(w["filings"])), "u": "~", "v": 0})
                elif remote(d["u"]):
                    steps.append({"act": "publish", "k": 0, "u": d["u"], "v": self.r.randint(0, len(d["versions"]))})
                else:
                    steps.append({"act": "edit", "k": 0, "u": d["u"], "v": self.r.randint(1, len(d["versions"]))})
            if self.chance(0.3):  # something is down at first
                far = [d for d in w["docs"] if remote(d["u"]) and d["versions"]]
                if far:
                    d = self.r.choice(far)
                    steps.insert(0, {"act": "publish", "k": 0, "u": d["u"], "v": 0})
                    steps.insert(self.r.randint(2, len(steps)), {"act": "publish", "k": 0, "u": d["u"], "v": self.r.randint(1, len(d["versions"]))})
            steps.append({"act": "open", "k": self.r.randint(1, len(w["filings"])), "u": "~", "v": 0})
            w["steps"] = steps
            return w
        raise RuntimeError("no history found")
