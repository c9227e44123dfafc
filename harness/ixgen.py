"""Random inline documents (seeded): the abstract D of spec/Inline.tla."""
import json, os
import common, gen
from gen import NONE, Gen

TABLES = json.load(open(os.path.join(common.SPEC, "tables.json")))
BLANK = dict(k=NONE, id=NONE, tag=NONE, name=NONE, ctx=NONE, unit=NONE, fmt=NONE, scale=NONE, sign=NONE, nil=NONE, cont=NONE, esc=NONE, dec=NONE,
             prec=NONE, role=NONE, lang=NONE, title=NONE, C=[], U=[], R=[])
BLOCKS = ["div", "p", "span", "td", "b"]


class Pages:
    """Builds the parts and pages of an inline document."""

    def __init__(self, elements, n=1, **kw):
        self.D = dict(elements=list(elements), parts=[], pages=[[] for _ in range(n)], **kw)
        self.at = self.D["pages"][0]

    def page(self, p):
        self.at = self.D["pages"][p]

    def part(self, k, **kw):
        self.D["parts"].append(dict(BLANK, k=k, **kw))
        return len(self.D["parts"])

    def open(self, k, **kw):
        i = k if isinstance(k, int) else self.part(k, **kw)
        self.at.append({"t": "open", "i": i, "s": ""})
        return i

    def close(self):
        self.at.append({"t": "close", "i": 0, "s": ""})

    def text(self, s):
        if s:
            self.at.append({"t": "text", "i": 0, "s": s})

    def leaf(self, k, s, **kw):
        i = self.open(k, **kw)
        self.text(s)
        self.close()
        return i

    def header(self, C=(), U=(), R=(), hidden=None):
        self.open("header")
        if C or U or R:
            self.open("resources", C=list(C), U=list(U), R=list(R))
            self.close()
        if hidden:
            self.open("hidden")
            hidden()
            self.close()
        self.close()


class IxGen(Gen):
    def markup(self):
        return self.pick(BLOCKS) + self.pick(["", "", " class=x", " id=m%d" % self.r.randrange(10 ** 6)])

    def filler(self, P, n=2):
        """Text of the page that belongs to no fact."""
        for _ in range(self.r.randrange(n + 1)):
            P.leaf("markup", self.pick(["Annual report", "12,345", "1", " ", "(", ")", "Notes & more", "<>"]), tag=self.pick(BLOCKS)) if self.chance(.7) else P.text(self.pick([" ", "\n", "42", "-"]))

    # ---- packed facts, each with a text in a format ----
    def packed(self, items):
        """items: dicts with k, fmt, text and maybe scale and sign; each becomes a fact with an id."""
        num = gen.element(gen.NSS[0], "Num", "e1", type="decimalItemType", period="instant")
        txt = gen.element(gen.NSS[0], "Txt", "e2", type="stringItemType", period="instant")
        P = Pages([num, txt])
        C = [gen.context("c", instant="2020-12-31")]
        U = [gen.unit("u", [gen.XBRLI + "pure"])]
        P.header(C, U)
        for n, it in enumerate(items):
            P.open("markup", tag=self.pick(BLOCKS))
            a = dict(id="f%d" % n, ctx="c", fmt=it["fmt"], name=(num if it["k"] == "nonFraction" else txt)["name"])
            text = it["text"]
            if it["k"] == "nonFraction":
                a.update(unit="u", scale=it.get("scale", NONE), sign=it.get("sign", NONE))
                if self.chance(.15) and text.strip():
                    text = self.pick([" ", "\n  ", ""]) + text + self.pick([" ", "\n", ""])
                if self.chance(.08) and text.strip():
                    # a number around another one
                    P.open("nonFraction", **dict(a, id="g%d" % n, sign=self.pick([NONE, "-"])))
                    P.text(self.pick(["", " ", "\n"]))
                    P.leaf("nonFraction", text, **a)
                    P.text(self.pick(["", " ", "\n"]))
                    P.close()
                else:
                    P.leaf("nonFraction", text, **a)
            else:
                if self.chance(.15) and text.strip() and it["fmt"] != NONE:
                    text = self.pick([" ", "\n  ", ""]) + text + self.pick([" ", "\n", ""])
                P.open("nonNumeric", **a)
                if self.chance(.1) and len(text) > 1:
                    # part of the text is marked up, or there is more text that is excluded
                    c = self.r.randrange(1, len(text))
                    P.text(text[:c])
                    P.leaf("markup", text[c:], tag=self.pick(BLOCKS))
                    P.leaf("exclude", "99")
                else:
                    P.text(text)
                P.close()
            if self.chance(.2):
                P.text(self.pick(["7", "%", " ", ")"]))
            P.close()
        return P.D

    # ---- texts in pieces ----
    def text_doc(self):
        els, cs, mem, dims, tds = self.vocabulary(self.r.randrange(1, 4), False)
        I = self.instance(cs, mem, dims, tds, 0)
        npages = self.pick([1, 1, 2, 3])
        P = Pages(els, npages, refpage=self.r.randrange(npages))
        for p in range(npages):
            P.page(p)
            if p == P.D["refpage"]:
                P.header(I["contexts"], I["units"])
        # chains first, then they are put on the pages in any order
        chains, words = [], 0
        for f in range(self.r.randrange(1, 6)):
            n = self.pick([0, 0, 1, 1, 2, 3, 5])
            ids = [self.fresh("k") for _ in range(n)]
            a = dict(id=self.fresh("f"), ctx=self.pick(I["contexts"])["id"], name=self.pick(cs)["name"], cont=ids[0] if ids else NONE,
                     unit=self.pick(I["units"])["id"] if self.chance(.1) else NONE,
                     esc=self.pick([NONE, NONE, NONE, "false", "true", "true"]))
            head = P.part("nonNumeric", **a)
            ps = [P.part("continuation", id=i, cont=ids[j + 1] if j + 1 < n else NONE) for j, i in enumerate(ids)]
            chains.append([head] + ps)
        where = {}
        pieces = [(c, i) for c, ch in enumerate(chains) for i in ch]
        self.r.shuffle(pieces)
        self.todo = pieces
        while self.todo:
            P.page(self.r.randrange(npages))
            self.tree(P, [], 0)
        return P.D

    def tree(self, P, inside, depth):
        """Puts some text, markup, exclusions and pieces here; inside are the chains already open."""
        for _ in range(self.r.randrange(1, 5)):
            what = self.r.random()
            if what < .4:
                P.text(self.pick(["Some text. ", "a", "b ", " c", "12", "1,000.5 ", "\n", "  ", "&", "<i>", "é中", "x" * 20, "'\"", "&lt;", "-", "\t"]))
            elif what < .6 and depth < 6:
                P.open("markup", tag=self.markup())
                self.tree(P, inside, depth + 1)
                P.close()
            elif what < .7 and depth < 6 and inside:
                P.open("exclude")
                self.tree(P, inside, depth + 1)
                P.close()
            elif self.todo and depth < 6:
                n = next((n for n, (c, i) in enumerate(self.todo) if c not in inside), None)
                if n is not None:
                    c, i = self.todo.pop(n)
                    P.open(i)
                    self.tree(P, inside + [c], depth + 1)
                    P.close()

    # ---- whole instances ----
    def place(self, P, I, f, cs_by_name):
        """Writes fact f of an XML instance inline."""
        v = f["value"]
        a = dict(id=f["id"], name=f["concept"], ctx=f["ctx"], unit=f["unit"])
        if f["nil"]:
            if f["unit"] != NONE and self.chance(.7):
                P.leaf("nonFraction", "", nil=self.pick(["true"]), **a)
            else:
                P.leaf("nonNumeric", "", nil="true", **a)
            return
        t = v if v != NONE else ""
        num = t[1:] if t.startswith("-") else t
        if f["unit"] != NONE and num.isascii() and num.replace(".", "", 1).isdigit() and num[0] != "." and num[-1] != "." and self.chance(.9):
            whole, _, frac = num.partition(".")
            a.update(dec=f["decimals"], prec=f["precision"], sign="-" if t.startswith("-") else NONE)
            style = self.r.randrange(6)
            text = num
            if style == 1:
                a["fmt"], text = "ixt:num-dot-decimal", self.group(whole, ",") + ("." + frac if frac else "")
            elif style == 2:
                a["fmt"], text = "ixt:num-comma-decimal", self.group(whole, self.pick([".", " "])) + ("," + frac if frac else "")
            elif style == 3:
                k = self.r.randrange(1, 7)
                a["scale"], shifted = str(k), whole.rjust(k + 1, "0")
                text = shifted[:-k] + "." + shifted[-k:] + frac
            elif style == 4 and len(frac) >= 1:
                k = self.r.randrange(1, len(frac) + 1)
                a["scale"] = "-%d" % k
                text = whole + frac[:k] + ("." + frac[k:] if frac[k:] else "")
            elif style == 5 and not num.strip("0."):
                a["fmt"], text = "ixt:fixed-zero", self.pick(["-", "nil", "0", "\u2014"])
            P.leaf("nonFraction", text, **a)
            return
        esc = NONE
        P.open("nonNumeric", esc=self.pick([NONE, NONE, "false"]), **a)
        i = 0
        while i < len(t):
            n = self.r.randrange(1, len(t) - i + 1) if self.chance(.3) else len(t) - i
            if self.chance(.15):
                P.leaf("markup", t[i:i + n], tag=self.markup())
            else:
                P.text(t[i:i + n])
            if self.chance(.1):
                P.leaf("exclude", "not this")
            i += n
        P.close()

    def group(self, s, sep):
        out = []
        while len(s) > 3:
            out.insert(0, s[-3:])
            s = s[:-3]
        return sep.join([s] + out)

    def inline_doc(self, notes=None, defects=0):
        els, cs, mem, dims, tds = self.vocabulary(self.r.randrange(1, 6), self.chance(.3))
        I = self.instance(cs, mem, dims, tds, self.pick([0, 1, 3, 6, 10]), self.pick(["mixed", "mixed", "all"]))
        for f in I["facts"]:
            if f["decimals"] != NONE or f["precision"] != NONE:
                pass
        npages = self.pick([1, 1, 2, 3])
        P = Pages(els, npages, refpage=self.r.randrange(npages))
        if self.chance(.5):
            P.D["lang"] = self.pick(["en", "de", "fr-CH"])
        if self.chance(.3):
            P.D["odd"] = self.r.sample(["roleref", "arcroleref"], self.pick([1, 1, 2]))
        if notes is None:
            notes = self.chance(.4)
        R, foot = [], []
        fids = [f["id"] for f in I["facts"] if f["id"] != NONE]
        if notes and fids:
            for _ in range(self.r.randrange(1, 4)):
                foot.append(self.fresh("n"))
            edges = set()
            for _ in range(self.r.randrange(1, 5)):
                frm = self.r.sample(fids, min(len(fids), self.pick([1, 1, 2, 3])))
                if self.chance(.8):
                    to = self.r.sample(foot, min(len(foot), self.pick([1, 1, 2])))
                else:
                    # facts to facts, always forward so that there are no cycles
                    last = max(fids.index(x) for x in frm)
                    to = fids[last + 1:][:2]
                r = {"from": frm, "to": to, "arcrole": self.pick([NONE, NONE, gen.ARC["footnote"], "http://ex.com/arcrole/note"]),
                     "role": self.pick([NONE, NONE, "http://ex.com/role/notes", "http://www.xbrl.org/2003/role/link"])}
                if self.chance(.4):
                    r["order"], r["o"] = self.pick([("2", 2000), ("1", 1000), ("0.5", 500), ("-1", -1000), ("10.250", 10250), ("0", 0), (" 3 ", 3000)])
                if to:
                    R.append(r)
                    if self.chance(.1):
                        R.append(dict(r, **{"from": frm[:1]}, role=self.pick(["http://ex.com/role/other", r["role"]]), order="7", o=7000))
        # resources are spread over headers
        heads = [dict(C=[], U=[], R=[], p=self.r.randrange(npages), hide=[]) for _ in range(self.pick([1, 1, 2, 3]))]
        heads[0]["p"] = P.D["refpage"]
        for k, xs in (("C", I["contexts"]), ("U", I["units"]), ("R", R)):
            for x in xs:
                self.pick(heads)[k].append(x)
        if not any(h["C"] or h["U"] or h["R"] for h in heads):
            pass
        jobs = [[] for _ in range(npages)]
        for f in I["facts"]:
            if self.chance(.15):
                self.pick(heads)["hide"].append(f)
            else:
                self.pick(jobs).append(lambda f=f: self.around(P, lambda: self.place(P, I, f, None)))
        conts = []
        for n in foot:
            inh = "lang" in P.D and self.chance(.4)
            c = self.fresh("k") if self.chance(.2) else NONE
            a = dict(id=n, lang=P.D["lang"] if inh else self.pick(["en", "de", "en-US"]), role=self.pick([NONE, NONE, "http://ex.com/role/fn"]),
                     title=self.pick([NONE, NONE, "Title"]), inherit=inh, cont=c)
            # the languages that the elements around the footnote declare; the nearest one counts
            outer = [self.pick(["fr", "de", "en-GB", "ja"]) for _ in range(self.pick([0, 0, 0, 1, 1, 2]))]
            a["lang"] = outer[-1] if outer and inh else a["lang"]
            if outer and self.chance(.5):
                a["lang"], a["inherit"] = outer[-1], True
            def put(a=a, outer=outer):
                for l in outer:
                    P.open("markup", tag=self.pick(BLOCKS) + " xml:lang=" + l)
                P.open("footnote", **a)
                P.text(self.pick(["note text", "a & b", "1", " note "]))
                if self.chance(.3):
                    P.leaf("markup", "bold", tag=self.markup())
                if self.chance(.2):
                    P.leaf("exclude", "page 3")
                P.close()
                for l in outer:
                    P.close()
            self.pick(jobs).append(put)
            if c != NONE:
                self.pick(jobs).append(lambda c=c: P.leaf("continuation", " continued", id=c))
        for p in range(npages):
            P.page(p)
            self.r.shuffle(jobs[p])
            at = {id(h): self.r.randrange(len(jobs[p]) + 1) for h in heads if h["p"] == p}
            for j in range(len(jobs[p]) + 1):
                for h in heads:
                    if h["p"] == p and at[id(h)] == j:
                        hide = h["hide"]
                        P.header(h["C"], h["U"], h["R"], (lambda hide=hide: [self.place(P, I, f, None) for f in hide]) if hide else None)
                if j < len(jobs[p]):
                    self.filler(P)
                    jobs[p][j]()
            self.filler(P)
        return P.D

    # ---- invalid documents ----
    def broken_doc(self, n=None):
        D = self.inline_doc()
        for _ in range(n or self.pick([1, 1, 2, 3])):
            for _ in range(20):
                if self.breakage(D):
                    break
        return D

    def breakage(self, D):
        """Makes one part of the document invalid. Returns whether it did."""
        parts = D["parts"]
        facts = [p for p in parts if p["k"] in ("nonNumeric", "nonFraction")]
        texts = [p for p in facts if p["k"] == "nonNumeric" and p["nil"] == NONE and p["cont"] == NONE]
        notes = [p for p in parts if p["k"] == "footnote"]
        res = [p for p in parts if p["k"] == "resources"]
        rels = [r for p in res for r in p["R"]]
        k = self.pick(["concept", "name", "context", "nocontext", "unit", "nounit", "dangling", "unused", "contid", "contested", "noteid", "from", "to",
                       "text", "period", "entity", "date", "dim", "measure", "value"] +
                      ["dec", "prec", "both", "scale", "sign", "esc", "niltext", "textkids", "manykids", "kidkind", "kidattrs", "kidnil"] +
                      ["noterole", "notelang", "dupid", "nofrom", "noto", "repeated", "mixed", "arcrole", "linkrole", "order"] + 4 * ["odd"] + 2 * ["nestedchain"] + ["noheader", "noresources"])
        if k in ("dec", "prec", "both", "scale", "sign", "esc", "niltext", "textkids", "manykids", "kidkind", "kidattrs", "kidnil", "dupid"):
            return self.attribute(D, k, facts, rels)
        if k in ("noterole", "notelang"):
            if not notes:
                return False
            n = self.pick(notes)
            if k == "noterole":
                n["role"] = self.pick(["#x", "?x"])
                return True
            if n.get("inherit"):
                return False
            if "lang" in D or any(" xml:lang=" in p["tag"] for p in parts):
                return False
            n["lang"], n["inherit"] = NONE, False
            return True
        if k in ("nofrom", "noto", "repeated", "mixed", "arcrole", "linkrole", "order"):
            if not rels:
                return False
            r = self.pick(rels)
            ids = [p["id"] for p in facts if p["id"] != NONE and p["id"] not in r["from"]]
            if k == "nofrom":
                r["from"] = []
            elif k == "noto":
                r["to"] = []
            elif k == "repeated":
                r["to"] = r["to"] + r["from"][:1]
            elif k == "mixed":
                if not notes or not ids or any(x["from"] and set(x["to"]) - {n["id"] for n in notes} for x in rels):
                    return False     # one relation between facts at most, so that there are no cycles
                r["to"] = [n["id"] for n in notes if n["id"] != NONE][:1] + [self.pick(ids)]
            else:
                r[{"arcrole": "arcrole", "linkrole": "role", "order": "order"}[k]] = "first" if k == "order" else self.pick(["#x", "?x"])
                if k == "order":
                    r.pop("o", None)
            return True
        if k == "nestedchain":
            xs = [p for p in texts if p["esc"] == NONE]
            if not xs:
                return False
            p = self.pick(xs)
            p["id"] = p["id"] if p["id"] != NONE else self.fresh("f")
            p["cont"] = self.fresh("k")
            i = parts.index(p) + 1
            pg = next(g for g in D["pages"] if {"t": "open", "i": i, "s": ""} in g)
            n = pg.index({"t": "open", "i": i, "s": ""})
            end = self.closing(pg, n)
            parts.append(dict(BLANK, k="continuation", id=p["cont"]))
            c = len(parts)
            inner = [{"t": "open", "i": c, "s": ""}, {"t": "text", "i": 0, "s": " goes on"}, {"t": "close", "i": 0, "s": ""}]
            if self.chance(.5):      # in the fact itself
                pg[end:end] = inner
            else:                    # in another continuation of it
                parts.append(dict(BLANK, k="continuation", id=self.fresh("k")))
                o = len(parts)
                if self.chance(.5):
                    parts[c - 1]["cont"] = parts[o - 1]["id"]
                else:
                    p["cont"], parts[o - 1]["cont"] = parts[o - 1]["id"], p["cont"]
                pg += [{"t": "open", "i": o, "s": ""}, {"t": "text", "i": 0, "s": " and "}] + inner + [{"t": "close", "i": 0, "s": ""}]
            return True
        if k in ("noheader", "noresources"):
            if len(parts) > 25:
                return False
            gone = {i + 1 for i, p in enumerate(parts) if p["k"] in (("resources",) if k == "noresources" else ("header", "hidden", "resources", "references"))}
            for pg in D["pages"]:
                while any(t["t"] == "open" and t["i"] in gone for t in pg):
                    n = next(n for n, t in enumerate(pg) if t["t"] == "open" and t["i"] in gone)
                    del pg[n:self.closing(pg, n) + 1]
            if k == "noheader":
                D["elements"] = []
                D.pop("odd", None)
            return True
        if k == "odd":
            if not any(t["t"] == "open" and parts[t["i"] - 1]["k"] == "header" for t in D["pages"][D.get("refpage", 0)]):
                return False
            D.setdefault("odd", []).append(self.pick(["headerchild", "hiddens", "manyresources", "hiddenchild", "tuple", "resourceschild", "referenceschild",
                                                      "emptyreferences", "roletype", "norolehref", "rolehref", "noroleuri", "roleuri", "noarcroleuri", "arcroleuri", "emptyrole", "idlesscontext", "idlessunit", "headinhead"]))
            return True
        if k in ("concept", "name", "context", "nocontext", "unit", "nounit", "text", "value"):
            xs = [p for p in facts if k not in ("unit",) or p["k"] == "nonFraction"]
            if k == "text":
                xs = [p for p in texts if p["esc"] == NONE and p["fmt"] == NONE]
            if k == "value":
                xs = [p for p in facts if p["k"] == "nonFraction" and p["nil"] == NONE and p["fmt"] == NONE]
            if not xs:
                return False
            p = self.pick(xs)
            if p["id"] == NONE:
                p["id"] = self.fresh("f")      # facts whose value is left open are told apart by their ids
            if k == "concept":
                other = [e["name"] for e in D["elements"] if gen.kind_of(e) not in (NONE, "Concept")]
                p["name"] = self.pick(other + [p["name"] + "X"])
            elif k == "text":
                p["fmt"] = self.pick(["ixt:date-day-month-year", "ixt:num-dot-decimal", "ixt:no-such-format", "ixt:date-monthname-year-en"])
            elif k == "value":
                p["fmt"] = self.pick(["ixt:date-day-month-year", "ixt:num-dot", "ixt:fixed-true"])
            else:
                f, v = {"name": ("name", NONE), "context": ("ctx", NONE), "nocontext": ("ctx", "nocontext"), "unit": ("unit", NONE), "nounit": ("unit", "nounit")}[k]
                if p[f] == v:
                    return False
                p[f] = v
        elif k == "dangling":
            xs = [p for p in texts + notes if p["cont"] == NONE]
            if not xs:
                return False
            self.pick(xs)["cont"] = "nowhere%d" % self.r.randrange(3)
        elif k in ("unused", "contid"):
            parts.append(dict(BLANK, k="continuation", id=self.fresh("k") if k == "unused" else NONE, cont=NONE))
            pg = self.pick(D["pages"])
            pg += [{"t": "open", "i": len(parts), "s": ""}, {"t": "text", "i": 0, "s": "left over"}, {"t": "close", "i": 0, "s": ""}]
        elif k == "contested":
            xs = [p for p in texts if p["cont"] == NONE and p["esc"] == NONE]
            if len(xs) < 2:
                return False
            a, b = self.r.sample(xs, 2)
            for p in (a, b):
                p["id"] = p["id"] if p["id"] != NONE else self.fresh("f")
            parts.append(dict(BLANK, k="continuation", id=self.fresh("k")))
            a["cont"] = b["cont"] = parts[-1]["id"]
            pg = self.pick(D["pages"])
            pg += [{"t": "open", "i": len(parts), "s": ""}, {"t": "text", "i": 0, "s": " shared"}, {"t": "close", "i": 0, "s": ""}]
        elif k == "noteid":
            if not notes:
                return False
            self.pick(notes)["id"] = NONE
        elif k in ("from", "to"):
            if not rels:
                return False
            r = self.pick(rels)
            r[k] = r[k] + ["nothing%d" % self.r.randrange(3)] if self.chance(.7) else ["nothing"]
        else:
            cs = [c for p in res for c in p["C"]]
            us = [u for p in res for u in p["U"]]
            if k == "measure":
                us = [u for u in us if u["ch"]]
                if not us:
                    return False
                u = self.pick(us)
                u["ch"] = self.pick([[], u["ch"] * 2, [dict(u["ch"][0], k="other")]])
                return True
            if not cs:
                return False
            c = self.pick(cs)
            if k == "period":
                c["hasperiod"] = False
            elif k == "entity":
                c["hasentity"] = False
            elif k == "date":
                p = self.pick([p for p in ("instant", "start", "end") if c[p] != NONE])
                c[p] = self.pick(["2021-02-29", "yesterday", "2020-13-01"])
            elif c["dims"]:
                self.pick(c["dims"])["dim"] = "{http://ex.com/a}NoDim"
            else:
                return False
        return True

    def same_id(self, D, facts):
        """Gives parts of two kinds the same identifier."""
        parts = D["parts"]
        res = [p for p in parts if p["k"] == "resources"]
        ctxs, units = [c["id"] for p in res for c in p["C"] if c["hasid"]], [u["id"] for p in res for u in p["U"] if u["id"] != NONE]
        others = [p["id"] for p in parts if p["k"] in ("continuation", "footnote") and p["id"] != NONE]
        if self.chance(.5) and facts and ctxs + units:
            self.pick(facts)["id"] = self.pick(ctxs + units + [p["id"] for p in parts if p["k"] == "continuation" and p["id"] != NONE])
        elif self.chance(.3) and ctxs and units:
            old, new = self.pick(units), self.pick(ctxs)
            for p in parts:
                for u in p.get("U", ()):
                    u["id"] = new if u["id"] == old else u["id"]
                if p.get("unit") == old:
                    p["unit"] = new
        elif any(p["k"] == "header" for p in parts) and ctxs + units + others:
            D["refid"] = self.pick(ctxs + units + others + [p["id"] for p in facts])
        else:
            return False
        return True

    def attribute(self, D, k, facts, rels):
        """Makes one fact odd in its attributes or what it holds."""
        parts = D["parts"]
        listed = {x for r in rels for x in r["from"] + r["to"]}
        numbers = [p for p in facts if p["k"] == "nonFraction"]
        if k == "dupid":
            xs = [p for p in facts if p["id"] != NONE and p["id"] not in listed]
            if self.chance(.6):
                return self.same_id(D, xs)
            if len(xs) < 2:
                return False
            a, b = self.r.sample(xs, 2)
            a["id"] = b["id"]
            return True
        xs = [p for p in facts if p["k"] == "nonNumeric"] if k == "esc" else numbers
        if not xs:
            return False
        p = self.pick(xs)
        if p["id"] == NONE:
            p["id"] = self.fresh("f")
        if k == "esc":
            p["esc"] = self.pick(["yes", "TRUE", "x"])
        elif k in ("dec", "prec"):
            p[k] = self.pick(["two", "2.5", "inf", "", "-", "0x1"])
        elif k == "both":
            p["dec"], p["prec"] = self.pick(["2", "INF", "-3"]), self.pick(["4", "INF"])
        elif k == "scale":
            p["scale"] = self.pick(["x", "1.5", "two"])
        elif k == "sign":
            p["sign"] = self.pick(["+", "x", "minus"])
        elif k == "niltext":
            p["nil"] = "true"
        else:
            # something inside the number, after its text or instead of it
            i = parts.index(p) + 1
            pg = next(g for g in D["pages"] if {"t": "open", "i": i, "s": ""} in g)
            n = pg.index({"t": "open", "i": i, "s": ""})
            if any(t["t"] == "open" for t in pg[n + 1:self.closing(pg, n)]) or p["nil"] == "true":
                return False
            end = self.closing(pg, n)
            inner = pg[n + 1:end]

            def child(**kw):
                parts.append(dict(BLANK, **kw))
                return [{"t": "open", "i": len(parts), "s": ""}, {"t": "text", "i": 0, "s": self.pick(["7", "1", "250"])}, {"t": "close", "i": 0, "s": ""}]
            like = {x: p[x] for x in ("name", "ctx", "unit", "fmt", "scale")}
            new = {"textkids": lambda: inner + child(k="nonFraction", id=self.fresh("f"), **like),
                   "manykids": lambda: child(k="nonFraction", id=self.fresh("f"), **like) + child(k="nonFraction", id=self.fresh("f"), **like),
                   "kidkind": lambda: child(k="markup", tag=self.pick(BLOCKS)),
                   "kidattrs": lambda: child(k="nonFraction", id=self.fresh("f"), **dict(like, scale="3" if p["scale"] != "3" else "2")),
                   "kidnil": lambda: child(k="nonFraction", id=self.fresh("f"), nil="true", **like)}[k]()
            pg[n + 1:end] = new
        return True

    def closing(self, pg, n):
        depth = 0
        for m in range(n + 1, len(pg)):
            if pg[m]["t"] == "open":
                depth += 1
            elif pg[m]["t"] == "close":
                if depth == 0:
                    return m
                depth -= 1

    def around(self, P, put):
        n = self.pick([0, 1, 1, 2, 4])
        for _ in range(n):
            P.open("markup", tag=self.pick(BLOCKS))
            self.filler(P, 1)
        put()
        for _ in range(n):
            self.filler(P, 1)
            P.close()

    # ---- single texts ----
    def number_item(self):
        fmts = ["ixt:num-dot-decimal", "ixt:num-comma-decimal", "ixt:num-dot-decimal-apos", "ixt:num-comma-decimal-apos", "ixt:num-unit-decimal",
                "ixt:num-unit-decimal-apos", NONE, "ixt:fixed-zero", "ixt:numcommadot", "ixt:numdotcomma", "ixt:numspacedot", "ixt:numspacecomma",
                "ixt:numcomma", "ixt:numdot", "ixt:numdash", "ixt:zerodash", "ixt:numcommadecimal", "ixt:numdotdecimal", "ixt:numunitdecimal"]
        f = self.pick(fmts)
        f = f if f == NONE or f in TABLES["legacy"] or not f.startswith("ixt:num") or "-" in f else "ixt:num-dot-decimal"
        cur = TABLES["legacy"].get(f, f)
        n = self.pick([1, 1, 2, 3, 4, 6, 9, 12, 16, 17, 18, 20, 25, 40, 70])
        whole = "".join(self.pick("0123456789") for _ in range(n)) if self.chance(.8) else self.pick(["9", "0", "99"]) * n
        if self.chance(.2):
            whole = "0" * self.r.randrange(1, 4) + whole
        frac = "".join(self.pick("0123456789") for _ in range(self.pick([0, 0, 1, 2, 3, 7, 20]))) + self.pick(["", "", "0", "000"])
        scale = self.pick([NONE, NONE, "0", "1", "3", "6", "9", "12", "-1", "-2", "-3", "-6", "-10", "25", "-25", "+3"])
        sign = self.pick([NONE, NONE, NONE, "-"])
        dot, comma = "ixt:num-dot-decimal", "ixt:num-comma-decimal"
        if cur == NONE:
            text = whole + ("." + frac if frac else "")
        elif cur == "ixt:fixed-zero":
            text = self.pick(["-", "\u2014", "nil", "0", "none", "\u2013 ", ""]) or "-"
        elif "unit" in cur:
            sep = self.pick([",", ".", "\uff0c"] + (["'"] if "apos" in cur else []))
            g = self.group(whole, sep)
            if self.chance(.1):
                g = "".join(chr(0xff10 + int(c)) if c.isdigit() and c.isascii() else c for c in g)
            text = g + self.pick([" Rs. ", "Rs", " euro ", "\u20ac", " and "]) + self.pick(["%d" % self.r.randrange(10), "%02d" % self.r.randrange(100)]) + self.pick(["", " ps", " Paise", " cents"])
        else:
            point, seps = (".", [",", " ", "\u00a0"]) if cur.startswith(dot) else (",", [".", " ", "\u00a0"])
            if "apos" in cur:
                seps += ["'", "`", "\u00b4", "\u2019", "\u2032"]
            sep = self.pick(seps)
            text = (self.group(whole, sep) if self.chance(.6) else whole) + (point + frac if frac else "")
            if self.chance(.1) and frac:
                text = point + frac
        if self.chance(.12) and text:
            # something that hardly is a number of the format
            i = self.r.randrange(len(text) + 1)
            text = text[:i] + self.pick(["x", "-", ".", ",", "'", " ", "$", "%", "(", "e5", "\u0661", "_"]) + text[i:]
        return dict(k="nonFraction", fmt=f, scale=scale, sign=sign, text=text)

    def date_item(self):
        f = self.pick(sorted(TABLES["dates"]) + [l for l, c in sorted(TABLES["legacy"].items()) if c in TABLES["dates"]] * 1 +
                      ["ixt:fixed-true", "ixt:fixed-false", "ixt:fixed-empty", "ixt:booleantrue", "ixt:booleanfalse", "ixt:nocontent", NONE, "ixt:date-no-such",
                       "ixt:fixed-other", "ixt:num-dot-decimal", "ixt:datedaymonthyearin"])
        if self.chance(.1):
            return dict(k="nonNumeric", fmt=f, text=self.pick(["", " ", "yes", "31.02.2020", "\u2610", "2020-01-01", "1 January 2020", "n/a"]))
        cur = TABLES["legacy"].get(f, f)
        F = TABLES["dates"].get(cur, dict(order=["day", "month", "year"], month=self.pick(["num", "hi", "num"]), digits="deva" if "in" in f else "ascii"))
        y, m, d = self.r.randrange(1900, 2100), self.r.randrange(1, 13), self.pick([1, 2, 9, 10, 12, 13, 28, 29, 30, 31])
        if "hi" != F["month"] and F["month"] == "saka":
            y = self.r.randrange(1880, 2022)
        jp = F["order"][0] == "era"
        script = {v: k for k, v in TABLES["digits"].get(F["digits"], {}).items()}
        conv = (lambda t: "".join(script.get(c, c) for c in t)) if script and self.chance(.4) else (lambda t: t)
        sep = self.pick([" ", ".", "-", "/", ". ", ", ", ",", "  ", "th ", " of "]) if not jp else ""
        out = []
        for x in F["order"]:
            if x == "era":
                out.append(self.pick(sorted(TABLES["eras"])))
            elif x == "year":
                t = str(self.r.randrange(1, 64)) if jp else self.pick(["%d" % y, "%d" % y, "%02d" % (y % 100), "%d" % (y % 10)])
                if jp and self.chance(.2):
                    t = "\u5143"
                out.append(conv(t) + ("\u5e74" if jp else ""))
            elif x == "month" and F["month"] != "num":
                lang = F["month"]
                if self.chance(.06):
                    lang = self.pick(sorted(TABLES["months"]))
                names = TABLES["months"][lang][m - 1] + TABLES["longs"].get(lang, [[]] * 12)[m - 1]
                out.append(self.pick(names))
            else:
                n = d if x == "day" else m if self.chance(.97) else 13
                out.append(conv(self.pick(["%d", "%02d"]) % n) + ({"month": "\u6708", "day": "\u65e5"}[x] if jp else ""))
        seps = [self.pick([sep, sep, sep, " ", ""]) if self.chance(.2) and not jp else sep for _ in out]
        text = "".join(a + b for a, b in zip(out, seps[:-1] + [""]))
        if self.chance(.08) and text:
            i = self.r.randrange(len(text))
            text = self.pick([text[:i] + text[i + 1:], text[:i] + self.pick("0123456789x.-") + text[i:], text + self.pick([".", "x", " "]), "x" + text])
        return dict(k="nonNumeric", fmt=f, text=text)

    def packed_doc(self, what, n=40):
        return self.packed([getattr(self, what)() for _ in range(n)])
