"""Writes the worlds of Dts.tla: documents with marks and references, on disk and on a server."""
import os, random, re, shutil, threading, zipfile
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from xml.sax.saxutils import quoteattr as qa

XBRLI = "http://www.xbrl.org/2003/instance"
HEAD = ('xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:link="http://www.xbrl.org/2003/linkbase" '
        'xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"')
LBREF = "http://www.w3.org/1999/xlink/properties/linkbase"


def remote(u):
    return u.startswith(("http://", "https://"))


def ns(doc):
    return "http://ex.com/ns/" + doc["name"]


class Writer:
    """The text of a document version; hosts are the real names of the symbolic ones."""

    def __init__(self, world, hosts, rng):
        self.w, self.hosts, self.r = world, hosts, rng
        self.by = {d["name"]: d for d in world["docs"]}

    def real(self, ref):
        for h, x in self.hosts.items():
            ref = re.sub(r"^(https?://)%s(?=/|$)" % h, r"\g<1>" + x, ref)
        return ref

    def pad(self, ref):
        return qa(self.r.choice(["", "", "", "", " ", "\n  "]) + ref + self.r.choice(["", "", "", " "]))

    def href(self, ref, frag):
        return self.pad(self.real(ref["r"]) + ("#" + frag if frag else ""))

    def text(self, doc, v):
        more = "<!--%s-->" % ("long " * self.r.randint(1, 30000)) if self.r.random() < 0.03 else ""
        return (getattr(self, doc["kind"])(doc, doc["versions"][v - 1]) + more).encode()

    def pairs(self, refs):
        if not refs:
            return ""
        return ' xsi:schemaLocation="%s"' % self.r.choice(["  ", " ", "\n "]).join("%s %s" % (ns(self.by[x["to"]]), self.real(x["r"])) for x in refs)

    def split(self, refs, kinds):
        """Deals the references out to ways of writing them."""
        out = {k: [] for k in set(kinds.values()) | {"pairs"}}
        for x in refs:
            k = kinds.get(self.by[x["to"]]["kind"])
            if x["r"] == "":
                continue
            out[k if k and self.r.random() < 0.85 else "pairs"].append(x)
        return out

    def schema(self, d, m):
        way = self.split(m["refs"], {"schema": "import", "linkbase": "linkbaseRef"})
        o = ['<?xml version="1.0"?>', '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" %s targetNamespace="%s" xmlns:t="%s" elementFormDefault="qualified"%s>'
             % (HEAD, ns(d), ns(d), self.pairs(way["pairs"]))]
        if way["linkbaseRef"]:
            o.append("<xs:annotation><xs:appinfo>" + "".join('<link:linkbaseRef xlink:type="simple" xlink:href=%s xlink:arcrole="%s"/>' % (self.href(x, ""), LBREF)
                                                             for x in way["linkbaseRef"]) + "</xs:appinfo></xs:annotation>")
        for x in way["import"]:
            at = ["namespace=" + qa(ns(self.by[x["to"]])), "schemaLocation=" + self.pad(self.real(x["r"]))]
            self.r.shuffle(at)
            o.append("<xs:%s %s/>" % ("import" if self.r.random() < 0.9 else "include", " ".join(at)))
        ids = [(m["mark"], "e" + d["name"]), (d["name"], "s" + d["name"])]
        self.r.shuffle(ids)
        for n, i in ids:
            o.append('<xs:element id="%s" name="%s" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant" nillable="true"/>' % (i, n))
        return "\n".join(o + ["</xs:schema>"])

    def linkbase(self, d, m):
        way = self.split([x for x in m["refs"]], {"schema": "loc"})
        at = next((x for x in m["refs"] if self.w_at(m) == x["to"]), None)
        if at and at in way["pairs"]:
            way["pairs"].remove(at)
            way["loc"].append(at)
        o = ['<?xml version="1.0"?>', '<link:linkbase %s%s>' % (HEAD, self.pairs(way["pairs"]))]
        locs, used = [], False
        for i, x in enumerate(way["loc"]):
            t = self.by[x["to"]]
            if x is at or not used and x["to"] == self.w_at(m):
                if not used:
                    used = True
                    locs.append('<link:loc xlink:type="locator" xlink:href=%s xlink:label="at"/>' % self.href(x, "e" + t["name"]))
                    continue
            locs.append('<link:loc xlink:type="locator" xlink:href=%s xlink:label="l%d"/>' % (self.href(x, "s" + t["name"]), i))
        body = locs + (['<link:label xlink:type="resource" xlink:label="r" xml:lang="en" xlink:role="http://www.xbrl.org/2003/role/label">%s</link:label>' % m["mark"],
                        '<link:labelArc xlink:type="arc" xlink:from="at" xlink:to="r" xlink:arcrole="http://www.xbrl.org/2003/arcrole/concept-label"/>'] if used else [])
        self.r.shuffle(body)
        o.append('<link:labelLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link">%s</link:labelLink>' % "\n".join(body))
        return "\n".join(o + ["</link:linkbase>"])

    def w_at(self, m):
        return next((d["name"] for d in self.w["docs"] if d["u"] == m["at"]), None)

    def heads(self, way):
        o = ['<link:schemaRef xlink:type="simple" xlink:href=%s/>' % self.href(x, self.r.choice(["", "", "", "s" + x["to"]])) for x in way["schemaRef"]]
        return o + ['<link:linkbaseRef xlink:type="simple" xlink:href=%s xlink:arcrole="%s"/>' % (self.href(x, ""), LBREF) for x in way["linkbaseRef"]]

    CTX = ('<xbrli:context id="%s"><xbrli:entity><xbrli:identifier scheme="http://ex.com/lei">X</xbrli:identifier></xbrli:entity>'
           '<xbrli:period><xbrli:instant>2020-12-31</xbrli:instant></xbrli:period></xbrli:context>')

    def instance(self, d, m):
        way = self.split(m["refs"], {"schema": "schemaRef", "linkbase": "linkbaseRef"})
        n = self.w_at(m)
        t = next((x for x in self.w["docs"] if x["name"] == n), None)
        o = ['<?xml version="1.0"?>', "<xbrli:xbrl %s%s%s>" % (HEAD, ' xmlns:t="%s"' % ns(t) if t else "", self.pairs(way["pairs"]))] + self.heads(way)
        o += [self.CTX % ("c" + d["name"])] + (['<t:%s contextRef="c%s">%s</t:%s>' % (n, d["name"], m["mark"], n)] if t else [])
        return "\n".join(o + ["</xbrli:xbrl>"])

    def page(self, d, m):
        way = self.split(m["refs"], {"schema": "schemaRef", "linkbase": "linkbaseRef"})
        n = self.w_at(m)
        t = next((x for x in self.w["docs"] if x["name"] == n), None)
        decoys = "".join('<a href=%s>see</a><img src=%s alt=""/>' % (qa(self.real(x)), qa(self.real(x))) for x in m.get("decoys", []))
        return ('<?xml version="1.0"?><html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" %s%s%s><head><title>x</title></head><body>'
                '<div style="display:none"><ix:header>%s<ix:resources>%s</ix:resources></ix:header></div>%s%s</body></html>'
                % (HEAD, ' xmlns:t="%s"' % ns(t) if t else "", self.pairs(way["pairs"]), "<ix:references>%s</ix:references>" % "".join(self.heads(way)) if self.heads(way) else "", self.CTX % ("c" + d["name"]), decoys,
                   '<p><ix:nonNumeric name="t:%s" contextRef="c%s">%s</ix:nonNumeric></p>' % (n, d["name"], m["mark"]) if t else ""))

    def other(self, d, m):
        return "<xs:schema xmlns:xs='http://www.w3.org/2001/XMLSchema' targetNamespace='%s'><xs:element name='%s'/></xs:schema>" % (ns(d), m["mark"])


def catalog(F):
    return ('<catalog xmlns="urn:oasis:names:tc:entity:xmlns:xml:catalog">%s</catalog>'
            % "".join('<rewriteURI uriStartString=%s rewritePrefix=%s/>' % (qa(c["from"]), qa(c["to"])) for c in F["catalog"] + F["catalog"][:"twice" in F.get("faults", ())])
            ).replace("catalog", "catalogue" if "root" in F.get("faults", ()) else "catalog", 1).replace(
                "</catalog>", ('<rewriteURI rewritePrefix="../"/>' if "nofrom" in F.get("faults", ()) else "") + ('<rewriteURI uriStartString="http://X/"/>' if "noto" in F.get("faults", ()) else "") +
                ("</catalogue>" if "root" in F.get("faults", ()) else "</catalog>"))


class Server:
    """Serves what is published, by the host the client asked for, and logs what was asked."""

    def __init__(self):
        self.content, self.log, me = {}, {}, self

        class H(BaseHTTPRequestHandler):
            def do_GET(self):
                host = self.headers.get("Host", "")
                me.log.setdefault(host, []).append(self.path)
                body = me.content.get((host, self.path))
                self.send_response(200 if body is not None else me.status.get(host, 404))
                body = body if body is not None else b"not here"
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body)

            def log_message(self, *a):
                pass

        class S(ThreadingHTTPServer):
            request_queue_size = 128
            daemon_threads = True

        self.status = {}
        self.s = S(("0.0.0.0", 0), H)
        self.port = self.s.server_address[1]
        threading.Thread(target=self.s.serve_forever, daemon=True).start()

    def close(self):
        self.s.shutdown()
        self.s.server_close()


class Place:
    """One world on disk and on the server."""

    def __init__(self, world, root, server, number, rng):
        self.w, self.root, self.server, self.rng = world, root, server, rng
        names = sorted({re.match(r"https?://([^/]+)", d["u"]).group(1) for d in world["docs"] if remote(d["u"])} | {"A", "B"})
        self.hosts = {}
        for i, h in enumerate(names):
            n = number * 4 + i
            self.hosts[h] = "127.%d.%d.%d:%d" % (1 + n // 62500, 1 + (n // 250) % 250, 1 + n % 250, server.port)
        self.back = {x: h for h, x in self.hosts.items()}
        for x in self.back:
            server.status[x] = rng.choice([404, 404, 500, 503, 403])
        self.writer = Writer(world, self.hosts, rng)
        self.by = {d["u"]: d for d in world["docs"]}
        os.makedirs(root, exist_ok=True)
        for d in world["docs"]:
            if d["versions"]:
                self.put(d["u"], 1)
        for F in world["filings"]:
            if F["kind"] in ("folder", "zip") and (F["catalog"] or F.get("faults")):
                self.write(os.path.join(root, F["path"], "META-INF", "catalog.xml"), self.catalog(F).encode())
                if F.get("nested"):  # only the outermost catalog counts
                    self.write(os.path.join(root, F["path"], "d", "META-INF", "catalog.xml"), self.catalog(dict(F, catalog=F["nested"])).encode())

    def catalog(self, F):
        return catalog(dict(F, catalog=[{k: self.writer.real(v) for k, v in c.items()} for c in F["catalog"]]))

    def write(self, path, data):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)

    def put(self, u, v):
        if remote(u):
            key = re.match(r"https?://([^/]+)(/.*)", self.writer.real(u)).groups()
            if v:
                self.server.content[key] = self.writer.text(self.by[u], v)
            else:
                self.server.content.pop(key, None)
        elif v:
            self.write(os.path.join(self.root, u), self.writer.text(self.by[u], v))
        else:
            os.remove(os.path.join(self.root, u))

    def path(self, k):
        """Where brel is told to find the filing."""
        F = self.w["filings"][k - 1]
        if F["kind"] == "zip":
            z = os.path.join(self.root, F["path"] + ".zip")
            with zipfile.ZipFile(z, "w") as f:
                names = [os.path.join(a, x) for a, _, b in os.walk(os.path.join(self.root, F["path"])) for x in b]
                names.sort()
                self.rng.shuffle(names)
                for x in names:
                    f.write(x, os.path.relpath(x, os.path.join(self.root, F["path"])))
            return z
        if F["kind"] == "remote":
            return self.writer.real(F["path"])
        return os.path.join(self.root, F["path"])

    def asked(self):
        out = []
        for x, h in self.back.items():
            out += ["http://" + h + p for p in self.server.log.pop(x, [])]
        return out

    def close(self):
        for d in self.w["docs"]:
            if remote(d["u"]):
                self.put(d["u"], 0)
        shutil.rmtree(self.root, ignore_errors=True)
