"""Random abstract documents (seeded).  Every document is well formed; defects are put in on request."""
import random

NONE, ANY = "~", 999999999
XBRLI, XS = "{http://www.xbrl.org/2003/instance}", "{http://www.w3.org/2001/XMLSchema}"
NSS = ["http://ex.com/a", "http://ex.com/b", "http://ex.com/a/2024", "urn:x:y"]
NEAR_NSS = ["http://ex.com/A", "http://ex.com/a/", "http://ex.com/a/2023", "http://ex.com"]
STD = "http://www.xbrl.org/2003/role/label"
ARC = {"presentation": "http://www.xbrl.org/2003/arcrole/parent-child", "calculation": "http://www.xbrl.org/2003/arcrole/summation-item",
       "label": "http://www.xbrl.org/2003/arcrole/concept-label", "reference": "http://www.xbrl.org/2003/arcrole/concept-reference",
       "footnote": "http://www.xbrl.org/2003/arcrole/fact-footnote"}
DIMARC = ["http://xbrl.org/int/dim/arcrole/" + x for x in ("all", "hypercube-dimension", "dimension-domain", "domain-member")]
TYPES = ["monetaryItemType", "stringItemType", "decimalItemType", "integerItemType", "booleanItemType", "dateItemType", "sharesItemType", "pureItemType"]
ITEM_TYPES = """noDecimalsMonetary nonNegativeMonetary nonNegativeNoDecimalsMonetary percent perShare perUnit area volume mass weight energy power
 length memory temperature pressure frequency irradiance insolation speed planeAngle voltage electricCurrent force electricCharge flow massFlow
 monetaryPerLength monetaryPerArea monetaryPerVolume monetaryPerDuration monetaryPerEnergy monetaryPerMass ghgEmissions energyPerMonetary
 ghgEmissionsPerMonetary volumePerMonetary decimal float double integer nonPositiveInteger negativeInteger long int short byte nonNegativeInteger
 unsignedLong unsignedInt unsignedShort unsignedByte positiveInteger monetary shares pure boolean string textBlock date dateTime time gYear gMonth
 gYearMonth gMonthDay gDay duration anyURI QName NCName Name token language normalizedString hexBinary base64Binary escaped xml xmlNodes guidance
 noLangToken noLangString domainless""".split()
ITEM_TYPES = [t + "ItemType" for t in ITEM_TYPES]
WORDS = ["Assets", "Cash", "Debt", "Equity", "Sales", "Tax", "Cost", "Net", "Plan", "Item", "Share", "Loan", "Lease", "Fee", "Gain"]


def element(ns, local, id, abs=NONE, type="monetaryItemType", typens=XBRLI, sg="item", period="duration", balance=NONE, nillable=NONE, typed=NONE):
    return dict(name="{%s}%s" % (ns, local), local=local, id=id, abs=abs, type=type, typens=NONE if type == NONE else typens, sg=sg, period=period,
                balance=balance, nillable=nillable, typed=typed)


def context(id, instant=NONE, start=NONE, end=NONE, scheme="http://cik", ident="1", dims=(), hasperiod=True, hasentity=True, hasid=True):
    return dict(id=id, hasperiod=hasperiod, instant=instant, start=start, end=end, hasentity=hasentity, hasid=hasid, scheme=scheme, ident=ident, dims=list(dims))


def explicit(dim, mem):
    return dict(k="explicit", dim=dim, mem=mem, vals=[])


def typed(dim, *vals):
    return dict(k="typed", dim=dim, mem=NONE, vals=list(vals))


def unit(id, num, den=()):
    ch = dict(k="measure", m=num[0], sub=[]) if len(num) == 1 and not den else \
        dict(k="divide", m=NONE, sub=[dict(k="unitNumerator", ms=list(num)), dict(k="unitDenominator", ms=list(den))])
    return dict(id=id, ch=[ch])


def fact(concept, ctx, value, id=NONE, unit=NONE, decimals=NONE, precision=NONE, nil=False):
    return dict(id=id, concept=concept, ctx=ctx, unit=unit, value=value, decimals=decimals, precision=precision, nil=nil)


def arc(f, t, arcrole, order=ANY, weight=ANY, pref=NONE, bad=False):
    return {"from": f, "to": t, "arcrole": arcrole, "order": order, "weight": weight, "pref": pref, "bad": bad}


def loc(label, to, at=NONE):
    return dict(label=label, to=to, at=at)


def res(kind, label, text="t", lang="en", role=NONE, parts=()):
    return dict(kind=kind, label=label, text=text, lang=lang if kind != "reference" else NONE, role=role, parts=list(parts))


def link(kind, role, locs, arcs, ress=()):
    return dict(kind=kind, role=role, locs=list(locs), ress=list(ress), arcs=list(arcs))


def doc(elements=(), roles=(), insts=(), links=()):
    return dict(elements=list(elements), roles=list(roles), insts=list(insts), links=list(links))


def inst(contexts=(), units=(), facts=()):
    return dict(contexts=list(contexts), units=list(units), facts=list(facts))


def near(r, s):
    """A name (of an id, element, role, ...) that differs from s but looks like it."""
    return r.choice([s.swapcase() if s.swapcase() != s and ":" not in s else s + "x", s + "1", s + "_", s + "-a", s[:-1] if len(s) > 2 and s[-2] not in "/:#" else s + "b",
                     s + s[-1], s[:-1] + ("Q" if s[-1] != "Q" else "R")])


def near_date(r, d):
    """A date that differs from d in one component, or two that are swapped."""
    y, m, x = int(d[:4]), int(d[5:7]), int(d[8:])
    y2, m2, x2 = r.choice([(y + 1, m, x), (y, m % 12 + 1, x), (y, m, x % 28 + 1), (y - 1, m, x), (y, x if x <= 12 else m, m), (y + 10, m, x), (y + 100, m, x)])
    return "%04d-%02d-%02d" % (y2, m2, min(x2, 28) if m2 == 2 else min(x2, 30))


def near_period(r, p):
    q = dict(p)
    if "instant" in p:
        if r.random() < .3:
            return dict(start=near_date(r, p["instant"]), end=p["instant"]) if near_date(r, p["instant"]) <= p["instant"] else dict(start=p["instant"], end=p["instant"])
        return dict(instant=near_date(r, p["instant"]))
    k = r.choice(["start", "end"])
    q[k] = near_date(r, q[k])
    if r.random() < .2:
        return dict(instant=p[k])
    return q if q["start"] <= q["end"] else dict(start=q["end"], end=q["start"])


class Gen:
    def __init__(self, rnd):
        self.r, self.n, self.ids, self.uris = rnd, 0, [], []
        self.used = set()
        self.few = False

    def pick(self, xs):
        return self.r.choice(list(xs))

    def chance(self, p):
        return self.r.random() < p

    def fresh(self, stem):
        """A new id; now and then one that is easily mistaken for an earlier one."""
        self.n += 1
        if self.ids and self.chance(.12):
            i = near(self.r, self.pick(self.ids))
            if i not in self.ids:
                self.ids.append(i)
                return i
        while True:
            i = self.pick(["%s%d", "%s_%d", "%s-%d", "%s.%d"]) % (stem, self.n)
            if i not in self.ids:
                self.ids.append(i)
                return i
            self.n += 100

    def local(self, ns):
        if self.few:  # many namesakes
            for l in self.r.sample(["Cash", "Debt", "cash", "Cash2", "Debts"], 5):
                if (ns, l) not in self.used:
                    self.used.add((ns, l))
                    return l
        while True:
            l = self.pick(WORDS) + self.pick(["", "", "Total", "2", "_x", "Current", "Of-Which"])
            if self.used and self.chance(.15):
                l = near(self.r, self.pick(sorted(self.used))[1])
            if (ns, l) not in self.used:
                self.used.add((ns, l))
                return l
            if self.chance(.3):
                l += str(self.r.randrange(1000))
                if (ns, l) not in self.used:
                    self.used.add((ns, l))
                    return l

    def elem(self, kind, nss=None, **kw):
        ns = self.pick(nss or NSS[:self.r.randrange(1, 4)] + NEAR_NSS[:self.r.choice([0, 0, 0, 2, 4])])
        local = self.local(ns)
        id = kw.pop("id", None) or self.fresh(self.pick(["e", "id", "us-gaap_" + local, local]))
        if kind == "Concept":
            a = dict(abs=self.pick([NONE, "false"]), type=self.pick(TYPES), sg="item", period=self.pick(["instant", "duration"]),
                     balance=self.pick(["credit", "debit", NONE]), nillable=self.pick(["true", "false", NONE]))
        elif kind == "Member":
            a = dict(abs=self.pick([NONE, "true", "false"]), type="domainItemType", typens="{http://www.xbrl.org/dtr/type/non-numeric}", sg="item", period="duration")
        elif kind in ("Hypercube", "Dimension"):
            a = dict(abs="true", type="stringItemType", sg=kind.lower() + "Item", period="duration")
        elif kind == "LineItems":
            local = self.pick(["", "X"]) + local + self.pick(["LineItems", "LineItemsAbstract", "LineItems2"])
            a = dict(abs="true", type="stringItemType", sg="item", period="duration")
        elif kind == "Abstract":
            a = dict(abs="true", type=self.pick(["stringItemType", NONE]), sg=self.pick(["item", "tuple", NONE]), period=self.pick(["duration", NONE]))
        elif kind == "tuple":
            a = dict(abs=self.pick([NONE, "false"]), type=NONE, sg="tuple", period=NONE, nillable=self.pick(["true", NONE]))
        elif kind == "domain":
            a = dict(abs=NONE, type=self.pick(["string", "date", "integer", "token", NONE]), typens=XS, sg=NONE, period=NONE)
        a.update(kw)
        return element(ns, local, id, **a)

    def date(self):
        y = self.r.choice([2019, 2020, 2021, 2024, 2000, 1999])
        m = self.r.randrange(1, 13)
        d = self.r.choice([1, 28, 15, 30 if m != 2 else 28, 31 if m in (1, 3, 5, 7, 8, 10, 12) else 9])
        return "%04d-%02d-%02d" % (y, m, d)

    def period(self):
        if self.chance(.5):
            return dict(instant=self.date())
        a, b = sorted([self.date(), self.date()])
        return dict(start=a, end=b)

    def text(self):
        return self.pick(["1000", "0", "-5", "12.50", "text", "a & b", "<b>x</b>", "  padded ", "line\nbreak", "\u00e9\u4e2d\u20ac", "true", "00012", "1e3",
                          "2020-01-01", "quote\"'s", str(self.r.randrange(10 ** 6)), "x" * 300, " ", "\t", "\n ", "", "+7", "-0", "0.00", "1,000", "\u00a0", "\U0001f600", "None", "nil", "1 2", "INF",
                          "]]", "&amp;", "a\tb", "0x10", "1_000", "\u0661"])

    def dims(self, dimensions, members, typeds):
        out = []
        ds = list(dimensions)
        self.r.shuffle(ds)
        for d in ds[:self.r.choice([0, 0, 1, 1, 2, 3])]:
            if d in typeds:
                out.append(typed(d, self.pick(["v1", "v2", "2020", "a b", "V1", "v1 ", "v", "a  b", "02020", " "])))
            else:
                out.append(explicit(d, self.pick(members)))
        return out

    # ---- whole documents ----
    def vocabulary(self, concepts=4, extra=True):
        es = [self.elem("Concept") for _ in range(concepts)]
        mem = [self.elem("Member") for _ in range(self.r.randrange(1, 4))]
        dims, tds, doms = [], [], []
        for _ in range(self.r.randrange(1, 4)):
            if self.chance(.4):
                dm = self.elem("domain")
                doms.append(dm)
                d = self.elem("Dimension", typed=dm["id"])
                tds.append(d)
            else:
                d = self.elem("Dimension")
            dims.append(d)
        allx = es + mem + dims + doms
        for group in (es, mem, dims):  # namesakes
            for e in group[1:]:
                n = "{%s}%s" % (self.pick(NSS), group[0]["local"])
                if self.chance(.12) and all(x["name"] != n for x in allx):
                    self.used.add((n[1:n.index("}")], group[0]["local"]))
                    e["local"], e["name"] = group[0]["local"], n
        if extra:
            allx += [self.elem(k) for k in ("Hypercube", "LineItems", "Abstract", "tuple", "domain") if self.chance(.5)]
        self.r.shuffle(allx)
        return allx, es, mem, dims, tds

    def instance(self, concepts, mem, dims, tds, nfacts, ids="mixed", tag=""):
        entities = [("http://cik", "1"), ("http://cik", "2"), ("http://lei", "1"), ("http://cik", "0001"), ("http://cik", "Ab"), ("http://cik", "aB"), ("http://cik/", "1"),
                    ("http://cik", "1 2"), ("http://cik}1", "2")]
        entities = self.r.sample(entities, self.r.randrange(1, 6))
        ctxs = []
        per = [self.period() for _ in range(self.r.randrange(1, 4))]
        per += [near_period(self.r, self.pick(per)) for _ in range(self.r.randrange(3))]
        for i in range(self.r.choice([1, 2, 3, 4, 5, 5, 7])):
            sch, ident = self.pick(entities)
            ctxs.append(context(self.fresh("c"), scheme=sch, ident=ident,
                                dims=self.dims([d["name"] for d in dims], [m["name"] for m in mem], {t["name"] for t in tds}), **self.pick(per)))
        ms = ["{http://www.xbrl.org/2003/iso4217}USD", "{http://www.xbrl.org/2003/iso4217}EUR", XBRLI + "shares", XBRLI + "pure", "{http://ex.com/a}ton"]
        units = []
        for i in range(self.r.randrange(1, 5)):
            units.append(unit(self.fresh("u"), [self.pick(ms)]) if self.chance(.6) else
                         unit(self.fresh("u"), [self.pick(ms) for _ in range(self.r.randrange(1, 3))], [self.pick(ms) for _ in range(self.r.randrange(1, 3))]))
        if self.chance(.3):
            self.r.shuffle(units)
        fs = []
        for i in range(nfacts):
            c = self.pick(concepts)
            id = NONE if (ids == "none" or ids == "mixed" and self.chance(.4)) else tag + self.fresh("f")
            val = self.text()
            nil = False
            if self.chance(.12) and c["nillable"] == "true":
                val, nil = NONE, self.chance(.5)
            dec = self.pick([NONE, NONE, "0", "-3", "2", "INF"])
            fs.append(fact(c["name"], self.pick(ctxs)["id"], val, id, self.pick(units)["id"] if self.chance(.6) else NONE, dec,
                           self.pick(["4", "INF"]) if dec == NONE and self.chance(.1) else NONE, nil))
            if self.chance(.1):
                fs.append(dict(fs[-1], id=NONE if fs[-1]["id"] == NONE else tag + self.fresh("f")))
        return inst(ctxs, units, fs)

    def facts_doc(self, ids="mixed"):
        els, cs, mem, dims, tds = self.vocabulary(self.r.randrange(1, 6), self.chance(.3))
        n = self.r.choice([1, 1, 1, 2, 3])
        return doc(els, [], [self.instance(cs, mem, dims, tds, self.r.choice([0, 1, 3, 6, 10]), ids, "i%d" % k) for k in range(n)])

    def namesakes_doc(self):
        """Concepts and other elements of the same local names in several namespaces."""
        self.few = True
        return self.pick([self.full_doc, self.defect_doc, self.facts_doc, self.facts_doc])()

    def unbound_doc(self):
        """Dimensions and members named with prefixes that the instance does not bind."""
        d = self.facts_doc()
        for i in d["insts"]:
            for x in [x for c in i["contexts"] for x in c["dims"]]:
                k = self.pick(["dim", "mem", "mem"])
                if x[k] != NONE and self.chance(.7):
                    x[k] = "{unbound}" + x[k].split("}")[1]
        return d

    def lexical(self):
        """The text of a number, a truth value, or nearly."""
        if self.chance(.25):
            v = self.pick(["true", "false", "1", "0", "TRUE", "True", "yes", "no", "t", "2", "-1", "00", "01", "", "INF", "-INF", "NaN", "1.0", "tru", "falsee"])
        else:
            n = lambda k: "".join(self.pick("0123456789005") for _ in range(self.r.randrange(k[0], k[1])))
            v = self.pick(["", "", "-", "+"]) + n((0, 9)) + self.pick(["", "", ".", "." + n((1, 7))]) + self.pick(["", "", "", "e", "E-" + n((1, 2)), "e+" + n((1, 2)), "E" + n((1, 3))])
            if self.chance(.1):
                v = self.pick([v + ",5", "--1", "1 000", "$" + v, "(" + v + ")", v + "%", "0x1f", v + v, v + ".", "1_000", "\u0661", "Infinity", "1/2", "1e400", n((16, 22)), "." + n((3, 5))])
        return self.pick(["", "", " ", "\n", "\t  "]) + v + self.pick(["", "", " ", "\n"])

    def chars_doc(self):
        """Facts of many data types, in contexts that are easily mistaken for each other."""
        self.few = self.chance(.4)
        els, cs, mem, dims, tds = self.vocabulary(self.r.randrange(2, 6), self.chance(.2))
        for c in cs:
            c["type"] = self.pick(TYPES + sorted(ITEM_TYPES) + ["customItemType", "integer", "IntegerItemType"])
            c["balance"] = NONE
        insts = [self.instance(cs, mem, dims, tds, self.r.choice([2, 4, 6]), tag="i%d" % k) for k in range(self.pick([1, 1, 2]))]
        for i in insts:
            for f in i["facts"]:
                if f["value"] != NONE and self.chance(.8):
                    f["value"] = self.lexical()
        return doc(els, [], insts)

    def typed_doc(self, texts):
        """A fact of every class of data type for each text."""
        cs = [self.elem("Concept", type=t, balance=NONE) for t in ("integerItemType", "decimalItemType", "doubleItemType", "booleanItemType", "tokenItemType")]
        n = 0
        fs = []
        for t in texts:
            for c in self.r.sample(cs, 2):
                n += 1
                fs.append(fact(c["name"], "c1", t, "f%d" % n))
        return doc(cs, [], [inst([context("c1", instant="2020-12-31")], [], fs)])

    def heads(self, els):
        """Lets some of the elements substitute what they do by way of other elements."""
        for e in list(els):
            if e["sg"] == NONE or e["sg"].startswith("{"):
                continue
            for _ in range(self.pick([1, 1, 2])):
                h = self.pick([x for x in els if x["sg"] == e["sg"] and x is not e and x["abs"] == "true"] + [None])
                if h is None:
                    h = self.elem("Abstract", sg=e["sg"], period="duration", type="stringItemType")
                    els.append(h)
                if h["sg"] == e["sg"]:
                    e["sg"] = h["name"]
                if e["typed"] != NONE or self.chance(.5):
                    break
                e = h
            if self.chance(.4):
                break

    def elements_doc(self):
        els = []
        nss = NSS[:self.r.randrange(1, 5)] + self.r.sample(NEAR_NSS, self.r.choice([0, 0, 1, 3]))
        for _ in range(self.r.randrange(1, 12)):
            els.append(self.elem(self.pick(["Concept", "Concept", "Member", "Hypercube", "Dimension", "LineItems", "Abstract", "tuple", "domain"]), nss))
        doms = [e for e in els if e["sg"] == NONE and e["abs"] == NONE]
        for e in els:
            if e["sg"] == "dimensionItem" and doms and self.chance(.6):
                e["typed"] = self.pick(doms)["id"]
            # any combination of attributes that is not an invalid concept
            if self.chance(.3):
                t = dict(e)
                t["abs"] = self.pick([NONE, "true", "false"])
                t["sg"] = self.pick(["item", "hypercubeItem", "dimensionItem", "tuple", NONE])
                if t["sg"] == "item" and t["abs"] != "true" and t["type"] != "domainItemType" and (t["period"] == NONE or t["type"] == NONE):
                    continue
                if t["sg"] != "dimensionItem":
                    t["typed"] = NONE
                e.update(t)
        # the same local name in several namespaces
        for ns in nss:
            if self.chance(.5):
                e = self.elem("Concept", [ns])
                e["local"] = "Shared"
                e["name"] = "{%s}Shared" % ns
                if not any(x["name"] == e["name"] for x in els):
                    els.append(e)
        if self.chance(.3):
            for e in els:
                if e["type"] == "domainItemType" and self.chance(.3):     # no members: their type is another
                    e["type"] = self.pick(["nondomainItemType", "domainItemType2"])
        if self.chance(.4):
            self.r.shuffle(els)
            self.heads(els)
        self.r.shuffle(els)
        return doc(els)

    def tree(self, els, kind, arcroles, density=.3, orders="any", maxn=8):
        """A random acyclic link over some of the elements."""
        xs = list(els)
        self.r.shuffle(xs)
        xs = xs[:self.r.randrange(2, maxn + 1)]
        labels = {e["name"]: self.fresh("l") for e in xs}
        arcs = []
        for j in range(1, len(xs)):
            ps = [self.r.randrange(j)] if self.chance(.85) else []
            if self.chance(density):
                ps.append(self.r.randrange(j))
            for p in set(ps):
                arcs.append(self.arc(kind, labels[xs[p]["name"]], labels[xs[j]["name"]], self.pick(arcroles), orders))
        used = {a["from"] for a in arcs} | {a["to"] for a in arcs}
        locs = [loc(l, e["id"]) for e in xs for l in [labels[e["name"]]] if l in used]
        return locs, arcs

    def arc(self, kind, f, t, arcrole, orders="any"):
        order = self.pick([ANY, 1000, 2000, 3000, 1500, 500, 0, -1000, 10000, 10010, 99999, 2250, 20000])
        if orders == "given" and order == ANY:
            order = 7000
        w = self.pick([1000, -1000, 500, -250, 2000, 1500]) if kind == "calculation" else ANY
        pl = self.pick([NONE, STD, "http://www.xbrl.org/2003/role/totalLabel", "http://www.xbrl.org/2003/role/terseLabel"]) if kind == "presentation" else NONE
        return arc(f, t, arcrole, order, w, pl)

    def mixed_elements(self, n=8):
        els = [self.elem(self.pick(["Concept", "Concept", "Concept", "Abstract", "LineItems", "Member", "Hypercube", "Dimension"])) for _ in range(n)]
        if sum(e["sg"] == "item" and e["abs"] != "true" and e["type"] != "domainItemType" for e in els) < 3:
            els += [self.elem("Concept") for _ in range(3)]
        return els

    def is_concept(self, e):
        return e["sg"] == "item" and e["abs"] != "true" and e["type"] != "domainItemType"

    def arcroles(self, kind):
        if kind == "definition":
            return self.pick([DIMARC, DIMARC[:1], DIMARC[2:]])
        if kind == "presentation" or self.chance(.7):
            return [ARC[kind]]
        return [ARC[kind], ARC[kind] + "-other"]

    def role(self, uri, used, deftext=None):
        return dict(uri=uri, **{"def": self.pick([NONE, "0001 - Statement - Balance", "R & D <x>", ""]) if deftext is None else deftext}, used=list(used))

    def uri(self):
        self.n += 1
        if self.uris and self.chance(.15):
            u = near(self.r, self.pick(self.uris))
            if u not in self.uris:
                self.uris.append(u)
                return u
        while self.new_uri() in self.uris:
            self.n += 100
        self.uris.append(self.new_uri())
        return self.uris[-1]

    def new_uri(self):
        return ["http://ex.com/role/%d", "http://ex.com/role/A%d", "urn:role:%d", "http://www.ex.com/taxonomy/role/Role%d/x"][self.n % 4] % self.n

    def collide(self, d):
        """Sometimes gives items of different documents the same id: elements of different namespaces, or a fact and an element."""
        if not self.chance(.4):
            return d
        typed = {e["typed"] for e in d["elements"]}
        free = [e for e in d["elements"] if kind_of(e) != NONE and e["id"] != NONE and e["id"] not in typed]
        self.r.shuffle(free)
        taken = set()
        for a in free:
            others = [b for b in free if b["name"].split("}")[0] != a["name"].split("}")[0] and b["id"] != a["id"]]
            facts = [f for i in d["insts"] for f in i["facts"] if f["id"] != NONE]
            if a["id"] in taken or not (others or facts) or self.chance(.3):
                continue
            b = self.pick(facts) if facts and (not others or self.chance(.5)) else self.pick(others)
            if b["id"] in taken:
                continue
            at = "facts" if b in facts else b["name"].split("}")[0] + "}"
            for l in [l for k in d["links"] for l in k["locs"]]:
                if l["to"] == b["id"]:
                    l.update(to=a["id"], at=at)
                elif l["to"] == a["id"]:
                    l["at"] = a["name"].split("}")[0] + "}"
            b["id"] = a["id"]
            taken.add(a["id"])
        return d

    def networks_doc(self, links_per_role=1, roles=None):
        els = self.mixed_elements(self.r.randrange(4, 11))
        links, rs = [], []
        for _ in range(roles or self.r.randrange(1, 4)):
            uri = self.uri()
            kinds = [k for k in ("presentation", "calculation", "definition") if self.chance(.6)] or ["presentation"]
            rs.append(self.role(uri, self.r.sample(kinds, len(kinds))))
            for kind in kinds:
                pool = [e for e in els if self.is_concept(e)] if kind == "calculation" else els
                if len(pool) < 2:
                    continue
                locs, arcs = self.tree(pool, kind, self.arcroles(kind))
                if arcs:
                    # a label shared by two locators makes every arc at it count for both
                    links.append(link(kind, uri, locs, arcs))
        used = {(k["role"], k["kind"]) for k in links}
        for r in rs:
            r["used"] = [u for u in r["used"] if (r["uri"], u) in used] + [u for u in ("presentation", "calculation", "definition")
                                                                           if (r["uri"], u) not in used and self.chance(.2)]
        self.r.shuffle(links)
        return self.collide(doc(els, rs, [], links))

    def merge_doc(self):
        els = self.mixed_elements(self.r.randrange(4, 9))
        links, rs = [], []
        for _ in range(self.r.choice([1, 1, 2])):
            uri = self.uri()
            kinds = [k for k in ("presentation", "calculation", "definition") if self.chance(.5)] or [self.pick(["presentation", "calculation", "definition"])]
            rs.append(self.role(uri, kinds))
            for kind in kinds:
                pool = [e for e in els if self.is_concept(e)] if kind == "calculation" else list(els)
                self.r.shuffle(pool)          # a topological order shared by all links keeps the union acyclic
                ars = self.arcroles(kind)
                attrs, versions = {}, {}
                for _ in range(self.r.randrange(2, 5)):
                    sub = sorted(self.r.sample(range(len(pool)), self.r.randrange(2, min(5, len(pool)) + 1)))
                    labels = {i: self.pick(["l%d" % i, self.fresh("x")]) for i in sub}
                    arcs = []
                    for b in range(1, len(sub)):
                        a = self.r.randrange(b)
                        key = (sub[a], sub[b])
                        if key not in attrs or self.chance(.2):
                            # whether a preferred label left out is the standard one is left open, so the two never meet
                            while True:
                                a_ = self.arc(kind, "", "", self.pick(ars), "given")
                                if not any(x["order"] == a_["order"] and x["arcrole"] == a_["arcrole"] and {x["pref"], a_["pref"]} == {NONE, STD} for x in versions.setdefault(key, [])):
                                    break
                            versions[key].append(a_)
                            attrs[key] = a_
                        arcs.append(dict(attrs[key], **{"from": labels[sub[a]], "to": labels[sub[b]]}))
                    links.append(link(kind, uri, [loc(labels[i], pool[i]["id"]) for i in sub], arcs))
        self.r.shuffle(links)
        return self.collide(doc(els, rs, [], links))

    def components_doc(self):
        els = self.mixed_elements(7)
        rs, links = [], []
        for _ in range(self.r.randrange(0, 6)):
            uri = self.uri()
            if self.chance(.15) and rs:
                uri = self.pick(rs)["uri"] + self.pick(["/", "x", "/sub", "#a"])
                if uri in self.uris:
                    continue
                self.uris.append(uri)
            kinds = [k for k in ("presentation", "calculation", "definition") if self.chance(.5)]
            rs.append(self.role(uri, kinds))
            for kind in kinds:
                for _ in range(self.r.choice([1, 1, 2])):
                    pool = sorted([e for e in els if self.is_concept(e)] if kind == "calculation" else els, key=lambda e: e["id"])
                    a, b = sorted(self.r.sample(range(len(pool)), 2))
                    o = self.arc(kind, "p", "c", self.arcroles(kind)[0], "given")
                    o.update(order=1000 * (a + 1), weight=1000 if kind == "calculation" else ANY, pref=STD if kind == "presentation" else NONE)
                    links.append(link(kind, uri, [loc("p", pool[a]["id"]), loc("c", pool[b]["id"])], [o]))
        if self.chance(.4):
            pool = els
            links.append(link("presentation", "http://ex.com/no/role/type", [loc("p", pool[0]["id"]), loc("c", pool[1]["id"])], [self.arc("presentation", "p", "c", ARC["presentation"])]))
        self.r.shuffle(rs)
        self.r.shuffle(links)
        return self.collide(doc(els, rs, [], links))

    def annos_doc(self):
        els = self.mixed_elements(self.r.randrange(2, 6))
        cs = [e for e in els if self.is_concept(e)]
        facts = [fact(self.pick(cs)["name"], "c1", self.text(), self.fresh("f")) for _ in range(self.r.randrange(1, 5))]
        instance = inst([context("c1", instant="2020-12-31")], [], facts)
        links = []
        role = "http://www.xbrl.org/2003/role/link"
        for _ in range(self.r.randrange(1, 5)):
            kind = self.pick(["label", "label", "reference", "footnote"])
            srcs = [f["id"] for f in facts] if kind == "footnote" else [e["id"] for e in els]
            self.r.shuffle(srcs)
            locs = [loc("s%d" % i, x) for i, x in enumerate(srcs[:self.r.randrange(1, 4)])]
            ress = []
            for j in range(self.r.randrange(1, 4)):
                rl = self.pick([NONE, "http://www.xbrl.org/2003/role/terseLabel", "http://www.xbrl.org/2003/role/totalLabel", "http://ex.com/role/x"])
                if kind == "reference":
                    names = self.r.sample(["Name", "Number", "Paragraph", "Section", "Publisher"], self.r.randrange(1, 4))
                    ress.append(res(kind, "r%d" % j, role=rl, parts=[dict(name=n, text=self.pick(["IAS", "1", "2.3", "a b", "x&y"])) for n in sorted(names)]))
                else:
                    ress.append(res(kind, "r%d" % j, self.pick(["Assets", "Cash, total", "a & b", "Gr\u00f6\u00dfe", " sp ", "x", "Assets"]), self.pick(["en", "de", "en-US", "fr"]), rl))
            if len(ress) > 1 and self.chance(.4):
                ress[1]["label"] = ress[0]["label"]
            arcs, seen = [], set()
            for _ in range(self.r.randrange(1, 6)):
                f, t = self.pick(locs)["label"], self.pick(ress)["label"]
                ar = self.pick([ARC[kind], ARC[kind], "http://ex.com/arcrole/other"])
                if (f, t, ar) not in seen:
                    seen.add((f, t, ar))
                    arcs.append(arc(f, t, ar, self.pick([ANY, 1000, 2000])))
            links.append(link(kind, self.pick([role, role, "http://ex.com/role/9", "http://ex.com/role/99", role + "2"]), locs, arcs, ress))
        return self.collide(doc(els, [], [instance], links))

    def tables_doc(self):
        """Everything a table lists, with labels in a few languages: sometimes all in one, sometimes a patchwork."""
        d = self.full_doc()
        d["links"] = [k for k in d["links"] if k["kind"] not in ("label", "footnote")]
        langs = self.r.sample(self.pick([["en", "en-US", "de", "de-DE", "de-AT", "fr-FR", "EN-GB", "it-IT", "es-ES", "ja"], ["en-US", "de-DE", "fr-FR", "es-ES"],
                                         ["de", "de-DE", "DE-de", "de-AT"], ["en", "en-US", "en-GB", "EN"], ["fi", "fil", "en", "enm", "fil-PH", "fi-FI"], ["gsw", "de", "den", "gs", "de-CH"]]), self.r.choice([0, 1, 2, 2, 3, 3]))
        known = [e for e in d["elements"] if kind_of(e) != NONE]
        full = [l for l in langs if self.chance(.5)]  # every element has a label in these
        texts = ["Region", "Region", "Umsatz", "Value", "id", "Wert", "Concept [Axis]", "Name", "None", "Gr\u00f6\u00dfe", "NO_LABEL"]
        locs, ress, arcs = [], [], []
        for i, e in enumerate(known):
            own = full + [self.pick(langs) for _ in range(self.r.choice([0, 0, 1, 2, 3])) if langs]
            self.r.shuffle(own)
            if own:
                locs.append(loc("s%d" % i, e["id"]))
            for l in own:
                t = self.pick(texts) if self.chance(.25) else "%s %s %d" % (e["local"], l, len(ress))
                arcs.append(arc("s%d" % i, "r%d" % len(ress), ARC["label"]))
                ress.append(res("label", "r%d" % len(ress), t, l, self.pick([NONE, "http://www.xbrl.org/2003/role/label", "http://www.xbrl.org/2003/role/terseLabel", "http://www.xbrl.org/2003/role/documentation"])))
        if arcs:
            d["links"].append(link("label", "http://www.xbrl.org/2003/role/link", locs, arcs, ress))
        for k in d["insts"]:
            for u in k["units"]:
                if self.chance(.4):
                    n = self.pick(["USD", "EUR", "shares", "pure", "acre", "Boe", "usd", "USDPerShare", "M3"])
                    if all(x["id"] != n for x in k["units"]):
                        for f in k["facts"]:
                            if f["unit"] == u["id"]:
                                f["unit"] = n
                        u["id"] = n
        return d

    # ---- a document with a bit of everything, and defects put into it ----
    def full_doc(self, small=True, heads=True):
        els, cs, mem, dims, tds = self.vocabulary(self.r.randrange(3, 6))
        instance = self.instance(cs, mem, dims, tds, self.r.randrange(2, 7))
        known = [e for e in els if kind_of(e) != NONE]
        roles, links = [], []
        for _ in range(self.r.randrange(1, 4)):
            uri = self.uri()
            kinds = [k for k in ("presentation", "calculation", "definition") if self.chance(.6)]
            done = []
            for kind in kinds:
                pool = cs if kind == "calculation" else known
                locs, arcs = self.tree(pool, kind, self.arcroles(kind), maxn=min(5, len(pool)))
                if arcs:
                    links.append(link(kind, uri, locs, arcs))
                    done.append(kind)
            roles.append(self.role(uri, done))
        fids = [f["id"] for f in instance["facts"] if f["id"] != NONE]
        for _ in range(self.r.randrange(0, 3)):
            kind = self.pick(["label", "reference", "footnote"])
            srcs = self.r.sample(fids, min(2, len(fids))) if kind == "footnote" else [e["id"] for e in self.r.sample(known, 2)]
            if not srcs:
                continue
            parts = [dict(name="Name", text="IAS")] if kind == "reference" else []
            ress = [res(kind, "r%d" % j, self.pick(["x", "y"]), self.pick(["en", "de"]), NONE, parts) for j in range(2)]
            pairs = {(i, self.r.randrange(2)) for i in range(len(srcs))}
            links.append(link(kind, "http://www.xbrl.org/2003/role/link", [loc("s%d" % i, x) for i, x in enumerate(srcs)],
                              [arc("s%d" % i, "r%d" % j, ARC[kind]) for i, j in sorted(pairs)], ress))
        self.r.shuffle(links)
        if heads and self.chance(.3):
            self.heads(els)
        return doc(els, roles, [instance], links)

    def defect_doc(self, n=None):
        d = self.full_doc(heads=False)
        for _ in range(n or self.r.choice([1, 1, 2, 3, 5])):
            for _ in range(20):
                if self.defect(d):
                    break
        if self.chance(.3):
            self.heads(d["elements"])
        return d

    def defect(self, d):
        """Makes one part of the document invalid. Returns whether it did."""
        r = self.r
        i = d["insts"][0]
        kind = self.pick(["fact", "fact", "context", "context", "dim", "unit", "element", "arc", "loc", "res", "link", "dup", "used"])
        if kind == "fact":
            f = self.pick(i["facts"])
            k = self.pick(["concept", "ctx", "unit", "decimals", "precision", "abstract", "value"])
            if k == "abstract":
                x = [e for e in d["elements"] if kind_of(e) not in (NONE, "Concept")]
                f["concept"] = self.pick(x)["name"]
            elif k == "value":
                f["value"] = NONE
                f["nil"] = False
            else:
                f[k] = {"concept": "{%s}%s" % (self.pick(NSS), self.pick(["Unknown", "assets"])), "ctx": "nocontext", "unit": "nounit", "decimals": self.pick(["x", "1.5", "INFINITE", ""]),
                        "precision": self.pick(["x", "2.5", "-INF"])}[k]
        elif kind in ("context", "dim"):
            used = {f["ctx"] for f in i["facts"]}
            cs = [c for c in i["contexts"] if c["id"] in used]
            if not cs:
                return False
            c = self.pick(cs)
            if kind == "dim":
                if not c["dims"]:
                    return False
                x = self.pick(c["dims"])
                k = self.pick(["dim", "wrongdim", "mem", "nomem", "wrongmem", "none", "two", "empty", "other"])
                concepts = [e["name"] for e in d["elements"] if kind_of(e) == "Concept"]
                if k == "dim":
                    x["dim"] = self.pick(["{http://ex.com/a}NoDim", "{unbound}" + x["dim"].split("}")[1]])
                elif k == "wrongdim":
                    x["dim"] = self.pick(concepts)
                elif k == "other":
                    x["k"] = "other"
                elif x["k"] == "explicit" and k in ("mem", "nomem", "wrongmem"):
                    x["mem"] = {"mem": self.pick(["{http://ex.com/a}NoMember", "{unbound}" + x["mem"].split("}")[1]]), "nomem": NONE, "wrongmem": self.pick(concepts)}[k]
                elif x["k"] == "typed" and k in ("none", "two", "empty"):
                    x["vals"] = {"none": [], "two": ["v", "w"], "empty": [NONE]}[k]
                else:
                    return False
            else:
                k = self.pick(["hasperiod", "hasentity", "hasid", "scheme", "ident", "date", "order", "start", "end", "date2"])
                if k in ("hasperiod", "hasentity", "hasid"):
                    c[k] = False
                elif k in ("scheme", "ident"):
                    c[k] = NONE
                elif k in ("date", "date2"):
                    p = self.pick([p for p in ("instant", "start", "end") if c[p] != NONE])
                    c[p] = self.pick(["2021-02-29", "2020-13-01", "yesterday", "2020-00-10", "20-01-01", "2020/01/01", "2020-04-31"])
                elif c["instant"] == NONE:
                    if k == "order":
                        c["start"], c["end"] = "2021-01-02", "2021-01-01"
                    else:
                        c[k] = NONE
                else:
                    return False
        elif kind == "unit":
            used = {f["unit"] for f in i["facts"]}
            us = [u for u in i["units"] if u["id"] in used]
            if not us:
                return False
            u = self.pick(us)
            for f in i["facts"]:
                if f["unit"] == u["id"]:
                    f["id"] = NONE      # whether a fact with a broken unit is reported is left open, so nothing may point at it
            k = self.pick(["none", "two", "other", "measure", "sub1", "sub3", "subother", "same", "emptysub"])
            div = [c for c in u["ch"] if c["k"] == "divide" and len(c["sub"]) == 2]
            if k == "none":
                u["ch"] = []
            elif k == "two":
                u["ch"] = u["ch"] + [dict(k="measure", m=XBRLI + "pure", sub=[])]
            elif k == "other":
                u["ch"] = [dict(k="other", m=NONE, sub=[])]
            elif k == "measure":
                u["ch"] = [dict(k="measure", m=NONE, sub=[])]
            elif not div:
                return False
            elif k == "sub1":
                div[0]["sub"] = div[0]["sub"][:1]
            elif k == "sub3":
                div[0]["sub"] = div[0]["sub"] + [dict(k="unitNumerator", ms=[XBRLI + "pure"])]
            elif k == "subother":
                div[0]["sub"][1] = dict(k="unitOther", ms=[XBRLI + "pure"])
            elif k == "same":
                div[0]["sub"][1]["k"] = div[0]["sub"][0]["k"]
            else:
                div[0]["sub"][r.randrange(2)]["ms"] = self.pick([[], [NONE]])
        elif kind == "element":
            e = self.pick([e for e in d["elements"] if kind_of(e) in ("Concept", "Dimension")] or [None])
            if e is None:
                return False
            if kind_of(e) == "Dimension":
                e["typed"] = "nodomain"
            else:
                k = self.pick(["period", "noperiod", "balance", "nillable", "type"])
                if k == "period":
                    e["period"] = self.pick(["forever", "Instant", ""])
                elif k == "noperiod":
                    e["period"] = NONE
                elif k == "balance":
                    e["balance"] = self.pick(["both", "Credit", ""])
                elif k == "nillable":
                    e["nillable"] = self.pick(["maybe", "True", ""])
                else:
                    e["type"] = e["typens"] = NONE
        elif kind in ("arc", "loc", "res", "link", "dup"):
            if not d["links"]:
                return False
            k = self.pick(d["links"])
            if kind == "arc":
                a = self.pick(k["arcs"])
                w = self.pick(["from", "to", "arcrole", "bad", "dangling"])
                if w == "bad":
                    a["bad"] = True
                elif w == "dangling":
                    a[self.pick(["from", "to"])] = "nolabel"
                else:
                    a[w] = NONE
            elif kind == "loc":
                l = self.pick(k["locs"])
                w = self.pick(["label", "to", "dangling", "kind"])
                if w == "kind":
                    mine = {x["to"] for x in k["locs"]}
                    to = [e["id"] for e in d["elements"] if kind_of(e) in ((NONE,) if k["kind"] != "calculation" else (NONE, "Member", "Dimension")) and e["id"] not in mine]
                    if not to:
                        return False
                    l["to"] = self.pick(to)
                else:
                    l["to" if w == "dangling" else w] = "noid" if w == "dangling" else NONE
            elif kind == "res":
                if not k["ress"]:
                    return False
                x = self.pick(k["ress"])
                w = self.pick(["label", "lang"])
                if w == "lang" and x["kind"] == "reference":
                    return False
                x[w] = NONE
            elif kind == "link":
                if self.chance(.5):
                    k["role"] = NONE
                else:
                    k["kind"] = "unknown"
            else:
                k["arcs"].append(dict(self.pick(k["arcs"])))
        else:
            x = self.pick(d["roles"] or [None])
            if not x or not x["used"]:
                return False
            x["used"] = x["used"][1:]
        return True

    # ---- calculations over numbers ----
    def calc_doc(self):
        els = [self.elem("Concept", type=self.pick(["monetaryItemType", "decimalItemType"])) for _ in range(self.r.randrange(2, 7))]
        same = self.chance(.5)
        for e in els:
            if same or self.chance(.8):
                e["balance"] = self.pick(["credit", "debit"])
        if same and self.chance(.5):
            for e in els:
                e["balance"] = "debit"
        links, roles = [], []
        for _ in range(self.r.choice([1, 1, 2])):
            uri = self.uri()
            pool = list(els)
            self.r.shuffle(pool)
            for _ in range(self.r.choice([1, 1, 1, 2])):
                locs, arcs = [], []
                sub = sorted(self.r.sample(range(len(pool)), self.r.randrange(2, len(pool) + 1)))
                for j in range(1, len(sub)):
                    for p in {self.r.randrange(j) for _ in range(self.r.choice([1, 1, 1, 2]))}:
                        a, b = pool[sub[p]], pool[sub[j]]
                        agree = a["balance"] == b["balance"]
                        w = self.pick([1000, 1000, 1000, 2000, 500, 250]) * (1 if (agree if self.chance(.93) else self.chance(.5)) else -1)
                        arcs.append(arc("l%d" % sub[p], "l%d" % sub[j], ARC["calculation"], 1000 * sub[j] + sub[p], w))
                seen = {a["from"] for a in arcs} | {a["to"] for a in arcs}
                # a locator may take part in no arc at all
                locs = [loc("l%d" % x, pool[x]["id"]) for x in range(len(pool)) if "l%d" % x in seen or self.chance(.1)]
                links.append(link("calculation", uri, locs, arcs))
            # an arc that two links of a role share carries the same weight in both
            roles.append(self.role(uri, ["calculation"]))
        ctxs = [context("c1", instant="2020-12-31"), context("c2", instant="2021-12-31"), context("c3", instant="2020-12-31", ident="2"),
                context("c4", instant="2020-12-31")]
        units = [unit("u1", ["{http://www.xbrl.org/2003/iso4217}USD"]), unit("u2", ["{http://www.xbrl.org/2003/iso4217}EUR"])]
        facts = self.calc_facts(els, links, ctxs, units)
        return doc(els, roles, [inst(ctxs, units, facts)], links)

    def calc_facts(self, els, links, ctxs, units):
        """Values for the concepts, mostly adding up, in one or several contexts."""
        from fractions import Fraction
        byid = {e["id"]: e for e in els}
        rels = {}
        for k in links:
            at = {l["label"]: l["to"] for l in k["locs"]}
            for a in k["arcs"]:
                rels.setdefault(k["role"], {}).setdefault(at[a["from"]], set()).add((at[a["to"]], a["weight"], a["order"]))
        facts = []
        main = self.pick(sorted(rels))
        for c, u in self.r.sample([(c, u) for c in ctxs[:3] for u in units], self.r.choice([1, 1, 2, 3])):
            vals = {}
            scale = self.pick([1, 1, 100, 10000])
            big = self.pick([10, 1000, 10 ** 9])

            def value(i, depth=0):
                if i not in vals:
                    kids = rels[main].get(i)
                    if not kids or depth > 20:
                        vals[i] = Fraction(self.r.randrange(-big, big), scale)
                    else:
                        vals[i] = sum((value(t, depth + 1) * Fraction(w, 1000) for t, w, _ in sorted(kids)), Fraction(0))
                return vals[i]
            for e in els:
                value(e["id"])
            if self.chance(.3):
                i = self.pick(els)["id"]
                vals[i] += Fraction(self.pick([1, -1, 1000]), self.pick([1, scale, 100000 if scale == 1 else scale]))
            for e in els:
                if self.chance(.02):
                    continue
                v = vals[e["id"]]
                t = frac_text(v)
                if t is None:
                    t = frac_text(Fraction(int(v)))
                if self.chance(.1):
                    t = t + ("0" if "." in t else self.pick([".0", ".00", ""]))
                if self.chance(.01):
                    t = self.pick(["n/a", "", "1,000"])
                facts.append(fact(e["name"], c["id"], t, self.fresh("f") if self.chance(.3) else NONE, u["id"]))
                if self.chance(.02):
                    facts.append(dict(facts[-1], id=NONE))
        self.r.shuffle(facts)
        return facts


def frac_text(v):
    for p in range(0, 6):
        if (v * 10 ** p).denominator == 1:
            n = abs(int(v * 10 ** p))
            s = str(n).rjust(p + 1, "0")
            return ("-" if v < 0 else "") + (s[:-p] + "." + s[-p:] if p else s)
    return None


def kind_of(e):
    if e["type"] == "domainItemType":
        return "Member"
    if e["abs"] != "true":
        if e["sg"] != "item":
            return NONE
        return "Concept" if e["period"] in ("instant", "duration") and e["balance"] in ("credit", "debit", NONE) and e["nillable"] in ("true", "false", NONE) and e["type"] != NONE else NONE
    if e["sg"] in ("hypercubeItem", "dimensionItem"):
        return e["sg"][:-4].capitalize()
    return "LineItems" if "LineItems" in e["local"] else "Abstract"
