"""Writes an abstract inline document (the D of spec/Inline.tla) as XHTML pages and schemas, in a randomly chosen style."""
import os
from xml.sax.saxutils import escape
import mat
from mat import NONE, Style, Scope, CONV, split, write

IXNS = [("xmlns:ix", "http://www.xbrl.org/2013/inlineXBRL"),
        ("xmlns:ixt", "http://www.xbrl.org/inlineXBRL/transformation/2020-02-12")]


def body_text(st, t):
    x = escape(t).replace("\r", "&#13;")
    if t and st.chance(.08):
        i = st.r.randrange(0, len(t) + 1)
        x = escape(t[:i]).replace("\r", "&#13;") + st.r.choice(["<!-- c -->", "<?pi x?>", "<!--<ix:exclude>-->"]) + escape(t[i:]).replace("\r", "&#13;")
    elif t and st.chance(.05) and "]]>" not in t and "\r" not in t:
        x = "<![CDATA[" + t + "]]>"
    elif t and st.chance(.05):
        x = "".join("&#%d;" % ord(c) for c in t)
    return x


def tag_of(st, sc, p):
    k = p["k"]
    if k == "markup":
        parts = p["tag"].split(" ")
        return parts[0], [tuple(a.split("=", 1)) for a in parts[1:]]
    cont = ("continuedAt", p["cont"])
    if k == "nonNumeric":
        return "ix:nonNumeric", [("id", p["id"]), ("name", sc.q(p["name"])), ("contextRef", p["ctx"]), ("unitRef", p["unit"]), ("format", p["fmt"]),
                                 ("escape", st.truth(p["esc"])), ("xsi:nil", st.truth(p["nil"])), cont]
    if k == "nonFraction":
        return "ix:nonFraction", [("id", p["id"]), ("name", sc.q(p["name"])), ("contextRef", p["ctx"]), ("unitRef", p["unit"]), ("format", p["fmt"]),
                                  ("scale", p["scale"]), ("sign", p["sign"]), ("decimals", p["dec"]), ("precision", p["prec"]), ("xsi:nil", st.truth(p["nil"]))]
    if k == "continuation":
        return "ix:continuation", [("id", p["id"]), cont]
    if k == "exclude":
        return "ix:exclude", []
    if k == "footnote":
        # the language is inherited from around the footnote if p["inherit"] is set
        return "ix:footnote", [("id", p["id"]), ("footnoteRole", p["role"]), ("title", p["title"]), cont] + \
            ([] if p.get("inherit") or p["lang"] == NONE else [("xml:lang", p["lang"])])
    raise ValueError(k)


def resources_xml(st, sc, p):
    kids = [mat.context_xml(st, sc, c) for c in p["C"]] + [mat.unit_xml(st, sc, u) for u in p["U"]]
    for r in p["R"]:
        kids.append(st.el("ix:relationship", [("fromRefs", " ".join(r["from"]) or None), ("toRefs", " ".join(r["to"]) or None),
                                              ("arcrole", r["arcrole"]), ("linkRole", r["role"]), ("order", r.get("order", NONE))]))
    if not st.plain:
        st.r.shuffle(kids)
    return kids


def oddities(st, odd, schema):
    """Things that do or do not belong in a header."""
    def ref(**kw):
        a = {"xlink:type": "simple", "xlink:href": schema + "#r", "roleURI": "http://ex.com/role/r", **kw}
        return "<ix:resources>" + st.el("link:roleRef", list(a.items())) + "</ix:resources>"
    def aref(**kw):
        return ref(**{"roleURI": NONE, "arcroleURI": "http://ex.com/arcrole", **kw}).replace("link:roleRef", "link:arcroleRef")
    return "".join({
        "headerchild": lambda: st.r.choice(["<div>x</div>", '<xbrli:unit id="odd1"><xbrli:measure>xbrli:pure</xbrli:measure></xbrli:unit>']),
        "hiddens": lambda: "<ix:hidden/><ix:hidden/>",
        "manyresources": lambda: "<ix:resources/><ix:resources/>",
        "hiddenchild": lambda: "<ix:hidden>" + st.r.choice(["<p>text</p>", '<ix:continuation id="odd2"/>']) + "</ix:hidden>",
        "tuple": lambda: "<ix:hidden>" + st.r.choice(['<ix:tuple name="xbrli:t"/>', '<ix:fraction name="xbrli:f"/>']) + "</ix:hidden>",
        "resourceschild": lambda: "<ix:resources>" + st.r.choice(["<p>text</p>", "<ix:hidden/>", '<link:loc xlink:type="locator" xlink:href="#x" xlink:label="x"/>']) + "</ix:resources>",
        "referenceschild": lambda: "<ix:references>" + st.r.choice(["<p>text</p>", '<link:loc/>']) + "</ix:references>",
        "emptyreferences": lambda: "<ix:references/>",
        "roletype": lambda: ref(**{"xlink:type": st.r.choice([NONE, "locator", "Simple"])}),
        "norolehref": lambda: ref(**{"xlink:href": NONE}),
        "rolehref": lambda: ref(**{"xlink:href": "#x"}),
        "noroleuri": lambda: ref(roleURI=NONE),
        "roleuri": lambda: ref(roleURI="?x"),
        "arcroleuri": lambda: aref(arcroleURI="?x"),
        "noarcroleuri": lambda: aref(arcroleURI=NONE),
        "emptyrole": lambda: ref(**{"xlink:role": ""}),
        "idlesscontext": lambda: "<ix:resources><xbrli:context>" + st.r.choice(["", "<xbrli:entity/>"]) + "</xbrli:context></ix:resources>",
        "idlessunit": lambda: "<ix:resources><xbrli:unit>" + st.r.choice(["", "<xbrli:measure>xbrli:pure</xbrli:measure>"]) + "</xbrli:unit></ix:resources>",
        "headinhead": lambda: "",            # this one is moved, not added
        "roleref": lambda: ref(),            # these two are as they should be
        "arcroleref": lambda: aref(),
    }[k]() for k in odd)


def page_xml(st, sc, D, toks, refs, lang=None, odd=(), schema=""):
    """One page; refs are the schemas that its first header refers to (None: none)."""
    out, stack, headers = [], [], []
    parts = D["parts"]
    move, odd = "headinhead" in odd, [k for k in odd if k != "headinhead"]
    for t in toks:
        if t["t"] == "open":
            p = parts[t["i"] - 1]
            stack.append(t["i"])
            if p["k"] == "header":
                headers.append([len(out), None])
                out.append('<div style="display:none">' + "".join("<ix:header>" + oddities(st, [k], schema) + "</ix:header>" for k in odd) + "<ix:header>")
                odd = ()
                if refs is not None:
                    out.append(st.gap() + st.el("ix:references", [("id", D.get("refid", NONE))], [st.el("link:schemaRef", [("xlink:type", "simple"), ("xlink:href", r)]) for r in refs]))
                    refs = None
            elif p["k"] == "hidden":
                out.append(st.gap() + "<ix:hidden>")
            elif p["k"] == "resources":
                out.append(st.gap() + st.el("ix:resources", [], resources_xml(st, sc, p)))
            else:
                tag, at = tag_of(st, sc, p)
                out.append(f"<{tag}{st.attrs(at)}>")
        elif t["t"] == "close":
            p = parts[stack.pop() - 1]
            if p["k"] == "header":
                out.append(st.gap() + "</ix:header></div>")
                headers[-1][1] = len(out)
            elif p["k"] == "hidden":
                out.append("</ix:hidden>")
            elif p["k"] != "resources":
                out.append("</" + tag_of(st, sc, p)[0] + ">")
        else:
            out.append(body_text(st, t["s"]))
    assert not stack
    decl = CONV + IXNS + sc.decl() + [("xmlns", "http://www.w3.org/1999/xhtml")]
    if lang:
        decl.append(("xml:lang", lang))
    moved = ""
    if move and headers:
        a, b = headers[0]
        moved, out[a:b] = "".join(out[a:b]), []
    head = "<head><title>Report 123</title>" + st.r.choice(["", '<meta charset="utf-8"/>', "<style>p { margin: 0 }</style>"]) + moved + "</head>"
    return st.r.choice(['<?xml version="1.0" encoding="UTF-8"?>\n', "<?xml version='1.0' encoding='utf-8'?>", ""]) + \
        mat.respell(st, f"<html{st.attrs(decl)}>" + st.gap() + head + st.gap() + "<body>" + "".join(out) + "</body></html>",
                    ("ix", "ixt", "xbrli", "xbrldi", "link", "xlink", "xsi"))


def namespaces(D):
    ns = mat.namespaces(dict(elements=D["elements"], links=[], roles=[], insts=[dict(facts=[], contexts=[c for p in D["parts"] for c in p["C"]],
                                                                                  units=[u for p in D["parts"] for u in p["U"]])]))
    for p in D["parts"]:
        if p["name"] != NONE:
            ns.add(split(p["name"])[0])
    return {n for n in ns if n not in mat.NS.values()}


def materialise(D, d, rnd, plain=False):
    """Writes the pages and schemas of D under d; returns the path to open."""
    st = Style(rnd, plain)
    os.makedirs(d, exist_ok=True)
    all_ns = namespaces(D)
    used = set()

    def fname(stem, ext):
        while True:
            n = stem + ext if plain else rnd.choice("abcxyzmn") + rnd.choice(["", "-", "_"]) + stem + rnd.choice(["", "1", "2x"]) + ext
            if n not in used:
                used.add(n)
                return n

    groups = {}
    for e in D["elements"]:
        groups.setdefault(split(e["name"])[0], []).append(e)
    if not groups:
        groups["http://empty.example"] = []
    gs = sorted(groups)
    schema = {g: fname("schema", ".xsd") for g in gs}
    home = {}
    for g, es in groups.items():
        for e in es:
            home.setdefault(e["id"], schema[g])
    for i, g in enumerate(gs):
        kids = []
        if i == 0:
            kids = [st.el("xs:import", [("namespace", h), ("schemaLocation", schema[h])]) for h in gs[1:]]
        local = {e["id"]: ("" if home[e["id"]] == schema[g] else home[e["id"]]) for e in D["elements"]}
        sc = Scope(st, all_ns)
        kids += [mat.element_xml(st, sc, e, local) for e in groups[g]]
        write(d, schema[g], mat.root(st, "xs:schema", sc, kids, [("targetNamespace", g)]))
    ext = rnd.choice([".html", ".xhtml", ".htm"]) if not plain else ".html"
    sc = Scope(st, all_ns)
    names = []
    for i, toks in enumerate(D["pages"]):
        if not plain and st.chance(.5):
            sc = Scope(st, all_ns)
        names.append(fname("page", ext))
        write(d, names[-1], page_xml(st, sc, D, toks, [schema[gs[0]]] if i == D.get("refpage", 0) else None, D.get("lang"), D.get("odd", ()) if i == D.get("refpage", 0) else (), schema[gs[0]]))
    return os.path.join(d, names[0]) if len(names) == 1 and st.chance(.3) else d
