"""Writes an abstract document (the D of spec/Filing.tla) as XBRL files, in a randomly chosen style.

The style (prefixes, attribute order, white space, comments, file names and how items are spread over files) is what the
model abstracts from: it must never change what brel reports.
"""
import os, re, zlib
from xml.sax.saxutils import escape, quoteattr

NONE = "~"
ANY = 999999999
NS = {
    "xs": "http://www.w3.org/2001/XMLSchema", "xbrli": "http://www.xbrl.org/2003/instance",
    "link": "http://www.xbrl.org/2003/linkbase", "xlink": "http://www.w3.org/1999/xlink",
    "xbrldi": "http://xbrl.org/2006/xbrldi", "xbrldt": "http://xbrl.org/2005/xbrldt",
    "xsi": "http://www.w3.org/2001/XMLSchema-instance",
}
PREFIXES = ["a", "b", "ex", "co", "us-gaap", "dei", "tax_1", "q", "ifrs-full", "Z", "n1", "k.k"]


def split(clark):
    ns, local = clark[1:].split("}", 1)
    return ns, local


def dec(scaled):
    """A scaled integer (thousandths) as a decimal."""
    sign, v = ("-" if scaled < 0 else ""), abs(scaled)
    whole, frac = divmod(v, 1000)
    f = ("%03d" % frac).rstrip("0")
    return f"{sign}{whole}" + (f".{f}" if f else "")


class Style:
    def __init__(self, rnd, plain=False, few=0):
        self.r, self.plain, self.few = rnd, plain, few

    def chance(self, p):
        return not self.plain and self.r.random() < p

    def decimal(self, scaled):
        d = dec(scaled)
        if self.chance(.2):
            d = d + ("0" if "." in d else ".0")
        if self.chance(.1) and scaled >= 0:
            d = "+" + d
        return d

    def truth(self, b):
        """A boolean, as any XML Schema boolean is written."""
        return {"true": "1", "false": "0"}[b] if b in ("true", "false") and self.chance(.2) else b

    def attrs(self, pairs):
        pairs = [(k, v) for k, v in pairs if v is not None and v != NONE]
        if not self.plain:
            self.r.shuffle(pairs)
        out = []
        for k, v in pairs:
            q = quoteattr(v)
            if self.chance(.2) and '"' not in v and "'" not in v:
                q = "'" + escape(v) + "'"
            out.append(" " + k + "=" + q)
        return "".join(out)

    def gap(self):
        if self.plain:
            return "\n"
        g = self.r.choice(["\n", "\n  ", "", "\n\n", "\t"])
        if self.chance(.06):
            g += self.r.choice(["<!-- c -->", "<!--<x contextRef='no'/>-->", "<?pi data?>"]) + self.r.choice(["", "\n"])
        return g

    def el(self, tag, attrs=(), kids=None, text=None):
        a = self.attrs(list(attrs))
        if text is not None:
            return f"<{tag}{a}>{escape(text)}</{tag}>"
        if not kids:
            return f"<{tag}{a}/>" if not self.chance(.3) else f"<{tag}{a}></{tag}>"
        return f"<{tag}{a}>" + "".join(self.gap() + k for k in kids) + self.gap() + f"</{tag}>"

    def pad(self, text):
        return text if not self.chance(.15) else self.r.choice([" ", "\n  ", "\t"]) + text + self.r.choice([" ", "\n"])


class Scope:
    """Prefixes of taxonomy namespaces in one file."""

    def __init__(self, style, namespaces, default=False):
        names = list(PREFIXES)
        if not style.plain:
            style.r.shuffle(names)
        if style.few:  # always the same few prefixes, one of which is left unbound if possible
            names.sort(key=lambda p: p not in PREFIXES[:style.few])
        self.free = names[len(namespaces):] + ["unbound"]
        self.p = {ns: names[i] if i < len(names) else f"n{i}x" for i, ns in enumerate(sorted(namespaces))}
        if default and self.p and not style.few and style.chance(.2):  # one of them may need no prefix
            self.p[style.r.choice(sorted(self.p))] = ""

    def q(self, clark):
        if clark == NONE:
            return None
        ns, local = split(clark)
        if ns == "unbound":  # a prefix that this file does not bind
            return self.free[0] + ":" + local
        if ns not in self.p:
            conv = next((k for k, v in NS.items() if v == ns), None)
            return (conv + ":" if conv else "") + local
        return (self.p[ns] + ":" if self.p[ns] else "") + local

    def some(self, local):
        """A name in one of the namespaces, or of the syntax when there is none."""
        p = (list(self.p.values()) or ["xbrli"])[0]
        return p + ":" + local if p else local

    def decl(self):
        return [("xmlns:" + p if p else "xmlns", ns) for ns, p in self.p.items()]


CONV = [("xmlns:" + k, v) for k, v in NS.items()]


def namespaces(doc):
    ns = {split(e["name"])[0] for e in doc["elements"]}
    for inst in doc["insts"]:
        for f in inst["facts"]:
            ns.add(split(f["concept"])[0])
        for u in inst["units"]:
            for ch in u["ch"]:
                for m in [ch["m"]] + [m for s_ in ch["sub"] for m in s_["ms"]]:
                    if m != NONE:
                        ns.add(split(m)[0])
        for c in inst["contexts"]:
            for d in c["dims"]:
                for m in (d["dim"], d["mem"]):
                    if m != NONE:
                        ns.add(split(m)[0])
    for e in doc["elements"]:
        if e["sg"].startswith("{"):
            ns.add(split(e["sg"])[0])
        if e["typens"] not in (NONE, "", "{%s}" % NS["xbrli"], "{%s}" % NS["xs"]):
            ns.add(e["typens"][1:-1])
    return {n for n in ns if n not in (NS["xs"], NS["xbrli"], "unbound")}


def element_xml(st, sc, e, hrefs):
    typ = None
    if e["type"] != NONE:
        typ = sc.q(e["typens"] + e["type"])
    sg = None if e["sg"] == NONE else {"item": "xbrli:item", "tuple": "xbrli:tuple", "hypercubeItem": "xbrldt:hypercubeItem",
                                      "dimensionItem": "xbrldt:dimensionItem"}.get(e["sg"]) or sc.q(e["sg"])
    typed = None
    if e["typed"] != NONE:
        typed = hrefs.get(e["typed"], "") + "#" + e["typed"]
    kids = [st.el("xs:annotation", [], [st.el("xs:documentation", text="doc")])] if st.chance(.1) else None
    return st.el("xs:element", [("name", e["local"]), ("id", e["id"]), ("type", typ), ("substitutionGroup", sg), ("abstract", st.truth(e["abs"])),
                                ("nillable", st.truth(e["nillable"])), ("xbrli:periodType", e["period"]), ("xbrli:balance", e["balance"]),
                                ("xbrldt:typedDomainRef", typed)], kids)


def role_xml(st, r):
    kids = []
    if r["def"] != NONE:
        kids.append(st.el("link:definition", text=r["def"]))
    kids += [st.el("link:usedOn", text="link:" + u + "Link") for u in r["used"]]
    return st.el("link:roleType", [("roleURI", r["uri"]), ("id", "r%d" % (zlib.crc32(r["uri"].encode()) % 99999))], kids or None)


ARCNAME = {"presentation": "presentationArc", "calculation": "calculationArc", "definition": "definitionArc", "label": "labelArc",
           "reference": "referenceArc", "footnote": "footnoteArc"}


def link_xml(st, k, href):
    arcname = ARCNAME.get(k["kind"], "unknownArc")
    items = []
    for l in k["locs"]:
        items.append(st.el("link:loc", [("xlink:type", "locator"), ("xlink:label", l["label"]),
                                        ("xlink:href", None if l["to"] == NONE else href(l["to"], l.get("at", NONE)))]))
    for r in k["ress"]:
        at = [("xlink:type", "resource"), ("xlink:label", r["label"]), ("xlink:role", r["role"])]
        if r["kind"] == "reference":
            kids = [st.el("ref:" + p["name"], [("xmlns:ref", "http://www.xbrl.org/2006/ref")], text=p["text"]) for p in r["parts"]]
            items.append(st.el("link:reference", at, kids))
        else:
            t = escape(r["text"])
            if st.chance(.2) and len(r["text"]) > 1:
                i = st.r.randrange(1, len(r["text"]))
                t = escape(r["text"][:i]) + st.r.choice(["<!-- x -->", ""]) + escape(r["text"][i:])
            if st.chance(.15) and r["text"]:
                t = '<b xmlns="http://www.w3.org/1999/xhtml">' + t + "</b>"
            at.append(("xml:lang", r["lang"]))
            items.append(f"<link:{r['kind']}{st.attrs(at)}>{t}</link:{r['kind']}>")
    for a in k["arcs"]:
        items.append(st.el("link:" + arcname, [
            ("xlink:type", "arc"), ("xlink:from", a["from"]), ("xlink:to", a["to"]), ("xlink:arcrole", a["arcrole"]),
            ("order", "first" if a["bad"] and (a["order"] == ANY or k["kind"] != "calculation") else None if a["order"] == ANY else st.decimal(a["order"])),
            ("weight", "heavy" if a["bad"] and a["order"] != ANY and k["kind"] == "calculation" else None if a["weight"] == ANY else st.decimal(a["weight"])),
            ("preferredLabel", a["pref"])]))
    if not st.plain:
        st.r.shuffle(items)
    tag = {"unknown": "link:unknownLink"}.get(k["kind"], "link:" + k["kind"] + "Link")
    return st.el(tag, [("xlink:type", "extended"), ("xlink:role", k["role"])], items)


def context_xml(st, sc, c):
    kids = []
    if c["hasentity"]:
        ek = []
        if c["hasid"]:
            ident = "" if c["ident"] == NONE else escape(st.pad(c["ident"]) if c["ident"] else c["ident"])
            ek.append(f"<xbrli:identifier{st.attrs([('scheme', c['scheme'])])}>{ident}</xbrli:identifier>")
        if c["dims"]:
            dk = []
            for d in c["dims"]:
                if d["k"] == "explicit":
                    m = "" if d["mem"] == NONE else escape(st.pad(sc.q(d["mem"])))
                    dk.append(f"<xbrldi:explicitMember{st.attrs([('dimension', sc.q(d['dim']))])}>{m}</xbrldi:explicitMember>")
                elif d["k"] == "typed":
                    vs = []
                    for v in d["vals"]:
                        t = sc.some("dom")
                        vs.append(f"<{t}/>" if v == NONE else f"<{t}>{escape(v)}</{t}>")
                    dk.append(st.el("xbrldi:typedMember", [("dimension", sc.q(d["dim"]))], vs))
                else:
                    dk.append(st.el("xbrldi:otherMember", [("dimension", sc.q(d["dim"]))], text="x"))
            ek.append(st.el("xbrli:segment", [], dk))
        kids.append(st.el("xbrli:entity", [], ek))
    if c["hasperiod"]:
        pk = []
        if c["instant"] != NONE:
            pk.append(st.el("xbrli:instant", text=st.pad(c["instant"])))
        else:
            pk += [st.el("xbrli:" + t, text=st.pad(v)) for t, v in (("startDate", c["start"]), ("endDate", c["end"])) if v != NONE]
            if st.chance(.2):
                pk.reverse()
        kids.append(st.el("xbrli:period", [], pk))
    if st.chance(.2):
        kids.reverse()
    return st.el("xbrli:context", [("id", c["id"])], kids)


def measure_xml(st, sc, m):
    return st.el("xbrli:measure", [], None if m == NONE else None, text="" if m == NONE else st.pad(sc.q(m)))


def unit_xml(st, sc, u):
    kids = []
    for ch in u["ch"]:
        if ch["k"] == "measure":
            kids.append(measure_xml(st, sc, ch["m"]))
        elif ch["k"] == "divide":
            kids.append(st.el("xbrli:divide", [], [st.el("xbrli:" + s_["k"], [], [measure_xml(st, sc, m) for m in s_["ms"]])
                                                  for s_ in ch["sub"]]))
        else:
            kids.append(st.el("xbrli:other", text="x"))
    return st.el("xbrli:unit", [("id", u["id"])], kids)


def fact_xml(st, sc, f):
    at = [("id", f["id"]), ("contextRef", f["ctx"]), ("unitRef", f["unit"]), ("decimals", f["decimals"]), ("precision", f["precision"])]
    if f["nil"]:
        at.append(("xsi:nil", "true"))
    tag = sc.q(f["concept"])
    if f["value"] == NONE:
        return f"<{tag}{st.attrs(at)}/>"
    v = f["value"]
    if v and st.chance(.1) and "]]>" not in v:
        body = "<![CDATA[" + v + "]]>"
    elif v and st.chance(.1):
        i = st.r.randrange(0, len(v) + 1)
        body = escape(v[:i]) + "<!-- split -->" + escape(v[i:])
    else:
        body = escape(v)
    return f"<{tag}{st.attrs(at)}>{body}</{tag}>"


def instance_xml(st, sc, inst, refs, extra=()):
    items = [context_xml(st, sc, c) for c in inst["contexts"]] + [unit_xml(st, sc, u) for u in inst["units"]]
    facts = []
    for f in inst["facts"]:
        x = fact_xml(st, sc, f)
        if st.chance(.1):
            x = f"<{sc.some('group')}>{x}</{sc.some('group')}>"
        facts.append(x)
    body = items + facts + list(extra)
    if st.chance(.4):
        # facts keep their order, the rest goes anywhere
        pos = sorted(st.r.sample(range(len(body)), len(facts)))
        rest = items + list(extra)
        st.r.shuffle(rest)
        merged, fi, ri = [], 0, 0
        for i in range(len(body)):
            if i in pos:
                merged.append(facts[fi]); fi += 1
            else:
                merged.append(rest[ri]); ri += 1
        body = merged
    head = [st.el("link:schemaRef", [("xlink:type", "simple"), ("xlink:href", r)]) for r in refs]
    return root(st, "xbrli:xbrl", sc, head + body)


def root(st, tag, sc, kids, attrs=()):
    decl = st.r.choice(['<?xml version="1.0" encoding="UTF-8"?>\n', "<?xml version='1.0' encoding='utf-8'?>", ""]) if not st.plain else ""
    x = CONV + sc.decl() + list(attrs)
    return decl + respell(st, st.el(tag, x, kids or None))


def respell(st, text, keys=("xbrli", "xbrldi", "xbrldt", "xs", "link", "ref", "xlink", "xsi")):
    """The same document with other prefixes, or none, for the namespaces of the syntax."""
    for k in keys:
        if not st.chance(.15):
            continue
        names = ["s-" + k, k.upper(), "p.1" + k] + ["item"] * ("xmlns:item=" not in text)
        if k not in ("xlink", "xsi") and "xmlns=" not in text and not re.search(" " + k + r":\S+=", text) and not re.search(r" (type|substitutionGroup|dimension)=.[^:]*?[\"']", text):
            names += ["", ""]
        new = st.r.choice(names)
        text = text.replace("xmlns:" + k + "=", "xmlns:" + new + "=" if new else "xmlns=")
        text = re.sub(r"(?<![\w.-])" + k + ":", new + ":" if new else "", text)
    return text


def materialise(doc, d, rnd, plain=False, shape=None, names=None, few=0):
    """Writes the files of doc under directory d; returns the path to open (the folder, or the one instance)."""
    st = Style(rnd, plain, few)
    all_ns = namespaces(doc)
    os.makedirs(d, exist_ok=True)
    used = set()

    def fname(stem, ext):
        if names:  # the same file names whatever the document
            n = "%s%d%s" % (names + stem, sum(x.endswith(ext) for x in used), ext)
            used.add(n)
            return n
        while True:
            n = stem + ext if plain else rnd.choice("abcxyzmn") + rnd.choice(["", "-", "_"]) + stem + rnd.choice(["", "1", "2x"]) + ext
            if n not in used:
                used.add(n)
                return n

    # schemas: at least one per namespace, sometimes two
    groups = {}
    for e in doc["elements"]:
        ns = split(e["name"])[0]
        groups.setdefault((ns, rnd.randrange(2) if st.chance(.3) else 0), []).append(e)
    if not groups:
        groups[("http://empty.example", 0)] = []
    schema = {g: fname("schema", ".xsd") for g in sorted(groups)}
    home, all_ids = {}, {}
    for g, es in groups.items():
        for e in es:
            all_ids.setdefault(e["id"], schema[g])
    inst_names = [fname("instance", ".xml") for _ in doc["insts"]]
    for inst, n in zip(doc["insts"], inst_names):
        for f in inst["facts"]:
            if f["id"] != NONE:
                all_ids.setdefault(f["id"], n)

    at = {(split(e["name"])[0], e["id"]): schema[g] for g, es in groups.items() for e in es}
    at.update({("facts", f["id"]): n for inst, n in zip(doc["insts"], inst_names) for f in inst["facts"]})

    def href(i, where):
        return (at.get((where.strip("{}"), i)) or all_ids.get(i, sorted(schema.values())[0])) + "#" + i

    # links: in linkbase files, in instances (footnotes) or inside schemas
    nfiles = 1 + (rnd.randrange(3) if not plain else 0)
    lbs = [[] for _ in range(nfiles)]
    in_schema, in_inst = [], [[] for _ in inst_names]
    for k in doc["links"]:
        x = link_xml(st, k, href)
        if k["kind"] == "footnote" and inst_names and st.chance(.6):
            rnd.choice(in_inst).append(x)
        elif st.chance(.1):
            in_schema.append(x)
        else:
            rnd.choice(lbs).append(x)
    lb_names = []
    for xs in lbs:
        if xs:
            n = fname("linkbase", ".xml")
            lb_names.append(n)
            if st.chance(.5):
                rnd.shuffle(xs)
            write(d, n, root(st, "link:linkbase", Scope(st, set()), xs))
    roles = [role_xml(st, r) for r in doc["roles"]]
    gs = sorted(groups)
    role_home = {g: [] for g in gs}
    for x in roles:
        role_home[rnd.choice(gs) if not plain else gs[0]].append(x)
    for i, g in enumerate(gs):
        sc = Scope(st, all_ns, True)
        app = list(role_home[g])
        if i == 0:
            app += [st.el("link:linkbaseRef", [("xlink:type", "simple"), ("xlink:href", n), ("xlink:arcrole", "http://www.w3.org/1999/xlink/properties/linkbase")]) for n in lb_names]
            app += in_schema
        kids = [st.el("xs:annotation", [], [st.el("xs:appinfo", [], app)])] if app else []
        if i == 0:
            for h in gs[1:]:
                kids.append(st.el("xs:import" if h[0] != g[0] else "xs:include", [("namespace", h[0] if h[0] != g[0] else None), ("schemaLocation", schema[h])]))
        local = {e["id"]: ("" if all_ids.get(e["id"]) == schema[g] else all_ids.get(e["id"], "")) for e in doc["elements"]}
        kids += [element_xml(st, sc, e, local) for e in groups[g]]
        if st.chance(.15):     # declarations that are local to a type are no elements of the taxonomy
            ts = [sc.q(e["typens"] + e["type"]) for e in groups[g] if e["type"] == "domainItemType"] or ["xs:string"]
            kids.append(st.el("xs:complexType", [("name", "localDeclarations")], [st.el("xs:sequence", [], [
                st.el("xs:element", [("name", n), ("type", st.r.choice(ts))]) for n in st.r.sample([e["local"] for e in groups[g]][:2] + ["Within", "WithinLineItems"], 2)])]))
        write(d, schema[g], root(st, "xs:schema", sc, kids, [("targetNamespace", g[0])]))
    for inst, n, extra in zip(doc["insts"], inst_names, in_inst):
        write(d, n, instance_xml(st, Scope(st, all_ns, True), inst, [schema[gs[0]]], extra))
    if len(inst_names) == 1 and st.chance(.4):
        return os.path.join(d, inst_names[0])
    return d


def write(d, name, text):
    with open(os.path.join(d, name), "w", encoding="utf-8") as f:
        f.write(text)
