"""More requests to brel: inline filings."""
import __main__ as w
from lxml import etree

NONE = "~"


def projected(xml):
    """Markup as text: {tag attributes}...{/}; prefixes and namespaces do not matter."""
    try:
        root = etree.fromstring("<r>" + xml + "</r>")
    except etree.XMLSyntaxError:
        return "not well-formed: " + xml

    def inner(e):
        out = [e.text or ""]
        for c in e:
            q = etree.QName(c).localname
            at = "".join(" %s=%s" % (k, v) for k, v in sorted(c.attrib.items()))
            out += ["{" + q + at + "}", inner(c), "{/}", c.tail or ""]
        return "".join(out)
    return inner(root)


def note_text(xml):
    try:
        root = etree.fromstring(xml)
    except etree.XMLSyntaxError:
        return xml
    return projected("".join([escape(root.text or "")] + [etree.tostring(c, encoding="unicode") for c in root]))


def escape(t):
    return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def footnotes(f):
    edges, notes, kids = [], [], []

    def target(n):
        if n.points_to() == "fact":
            return w.s(n.get_fact().get_id())
        r = n.get_resource()
        x = {"id": w.s(r.get_label()), "text": note_text(r.get_content()), "lang": w.s(r.get_language()), "role": w.s(r.get_role()), "title": w.s(r.get_title())}
        if x not in notes:
            notes.append(x)
        return x["id"]

    def walk(n, role):
        kids.append([w.scaled(c.get_order()) for c in n.get_children()])
        for c in n.get_children():
            e = {"from": target(n), "to": target(c), "role": role, "arcrole": c.get_arc_role(), "o": w.scaled(c.get_order())}
            if e not in edges:
                edges.append(e)
            walk(c, role)
    for net in f.get_all_physical_networks():
        if type(net).__name__ == "FootnoteNetwork":
            for root in net.get_roots():
                walk(root, net.get_link_role())
    return edges, notes, kids


def do_inline(req):
    try:
        f = w.Filing.open(req["path"])
        obs = w.project(f, [p for p in req["want"] if p != "footnotes"])
        for x in obs.get("facts", []) if "chars" not in req["want"] else []:
            if x["id"] in req["escaped"]:
                x["value"] = projected(x["value"])
            elif x["value"] == "-0":  # the specification leaves the sign of zero open
                x["value"] = "0"
        obs["edges"], obs["notes"], obs["kids"] = footnotes(f) if "footnotes" in req["want"] else ([], [], [])
        return obs
    except Exception as e:
        return {"crash": w.crash_text(e)}


OPS = {"inline": do_inline}


def do_dts(req):
    """Opens with the cache below the given home directory and reports the marks of the documents read."""
    import os
    os.environ["HOME"] = req["home"]
    try:
        f = w.Filing.open(req["path"])
        marks = []
        for e in f.get_all_report_elements():
            n = e.get_name().get_local_name()
            marks.append(n)
            marks += ["%s@%s" % (w.label(l)["text"], n) for l in e.get_labels()]
        for x in f.get_all_facts():
            marks.append("%s@%s" % (x.get_value_as_str(), x.get_concept().get_name().get_local_name()))
        return {"crash": NONE, "marks": marks, "errors": w.errors(f)}
    except Exception as e:
        return {"crash": w.crash_text(e), "marks": [], "errors": []}


OPS["dts"] = do_dts


class Stand:
    """Stands in for the network: every request is answered from a table, nothing leaves the process."""

    def __init__(self, pages):
        self.pages, self.log = pages, []

    def send(self, adapter, request, **k):
        import io
        import requests
        from urllib3.response import HTTPResponse
        self.log.append(request.url)
        body = self.pages.get(request.url)
        raw = HTTPResponse(body=io.BytesIO((body if body is not None else "gone").encode()), status=200 if body is not None else 404, preload_content=False)
        return adapter.build_response(request, raw)


def do_edgar(req):
    """One request to the EDGAR helper: the accession number of the filing opened, or ~ if it refuses."""
    import os, time
    import requests
    stand = Stand(req["pages"])
    real, nap = requests.adapters.HTTPAdapter.send, time.sleep
    requests.adapters.HTTPAdapter.send = lambda a, r, **k: stand.send(a, r, **k)
    time.sleep = lambda s: None
    try:
        from brel.utils import open_edgar
        if req["age"]:  # the kept listing grows older
            d = os.path.join(os.path.expanduser("~"), ".brel_edgar_cache")
            for n in os.listdir(d):
                if req["cik"].zfill(10) in n:
                    t = os.path.getmtime(os.path.join(d, n)) - 3600 * req["age"]
                    os.utime(os.path.join(d, n), (t, t))
        args = [req["q"]["cik"], req["q"]["form"]] + ([] if req["q"]["date"] == NONE else [req["q"]["date"]])
        try:
            f = open_edgar(*args)
        except ValueError as e:
            return {"opened": NONE, "why": str(e)[:200], "log": stand.log}
        if f is None:
            return {"opened": "nothing reported", "log": stand.log}
        facts = f.get_all_facts()
        if not facts and f.has_any_errors():
            return {"opened": NONE, "why": "errors", "log": stand.log}
        return {"opened": facts[0].get_value_as_str() if len(facts) == 1 else "facts: %d" % len(facts), "log": stand.log}
    except Exception as e:
        return {"opened": w.crash_text(e), "log": stand.log}
    finally:
        requests.adapters.HTTPAdapter.send, time.sleep = real, nap


OPS["edgar"] = do_edgar


import queries
OPS["queries"] = queries.do_queries

import tables
OPS["tables"] = tables.do_tables

import sessions
OPS["session"] = sessions.do_session
OPS["forked"] = sessions.do_forked

import printing
OPS.update(printing.OPS)

import views
OPS.update(views.OPS)
