"""One function per property: what is explored, generated and judged."""
from common import tier
import filing_check as fc
import inline_check as ix
import dts_check as dts
import edgar_check as edgar
import query_check as qc
import table_check as tb
import session_check as ss
import print_check as pr
import view_check as vw

FACTS, ELEMS, COMPS, NETS, ERRS = "facts", "elements", "comps", "nets", "errors"
CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


ASSUME_XML = "documents are well-formed XML and every prefix is declared on the root element of its document"


@check("F01")
def f01(r):
    own = ["F01", "opened"]
    fc.scope(r, "facts", [FACTS], own, limit=tier(1728, 20000))
    fc.generated(r, "facts_doc", tier(700, 8000), [FACTS], own)
    fc.generated(r, "defect_doc", tier(300, 3000), [FACTS], own)
    r.assumptions += [ASSUME_XML]


@check("F02")
def f02(r):
    own = ["F02", "opened"]
    fc.scope(r, "contexts", [FACTS], own, limit=tier(400, 6000))
    fc.generated(r, "facts_doc", tier(900, 10000), [FACTS], own)
    r.assumptions += [ASSUME_XML]


@check("F05")
def f05(r):
    own = ["F05", "opened"]
    fc.scope(r, "elements", [ELEMS], own, limit=tier(1824, 20000))
    fc.generated(r, "elements_doc", tier(700, 8000), [ELEMS], own)
    r.assumptions += [ASSUME_XML]


@check("F06")
def f06(r):
    own = ["F06", "opened"]
    fc.scope(r, "networks", [COMPS, NETS], own)
    fc.generated(r, "networks_doc", tier(600, 6000), [COMPS, NETS], own)
    r.assumptions += [ASSUME_XML, "extended links are acyclic"]


@check("F07")
def f07(r):
    own = ["F06", "opened"]
    fc.scope(r, "merge", [COMPS], own, limit=tier(400, 6000))
    fc.generated(r, "merge_doc", tier(600, 6000), [COMPS], own)
    r.assumptions += [ASSUME_XML, "the union of the links of a role is acyclic"]


@check("F08")
def f08(r):
    own = ["F08", "F06.missing", "F06.extra", "opened"]
    fc.scope(r, "components", [COMPS], own, limit=tier(300, 3000))
    fc.generated(r, "components_doc", tier(600, 6000), [COMPS], own)
    r.assumptions += [ASSUME_XML]


@check("F09")
def f09(r):
    own = ["F09", "opened"]
    fc.scope(r, "annos", [ELEMS, NETS], own, limit=tier(300, 5000))
    fc.generated(r, "annos_doc", tier(700, 8000), [ELEMS, NETS], own)
    r.assumptions += [ASSUME_XML]


@check("F10")
def f10(r):
    own = ["F10", "opened"]
    fc.scope(r, "balance", [COMPS], own, limit=tier(600, 10000))
    fc.generated(r, "calc_doc", tier(500, 5000), [COMPS], own)


@check("F11")
def f11(r):
    own = ["F11", "opened"]
    fc.scope(r, "aggregation", [COMPS], own, limit=tier(600, 10000))
    fc.generated(r, "calc_doc", tier(600, 6000), [COMPS], own)
    r.assumptions += ["no concept is a child of the same parent twice in different orders of a role", "values have at most 6 decimal places and 17 digits"]


@check("F16")
def f16(r):
    own = ["F16", "F01", "F02", "F05", "F06", "F08", "F09", "opened"]
    every = [FACTS, ELEMS, COMPS, NETS, ERRS]
    fc.scope(r, "defects", every, own, limit=tier(60, 4000))
    fc.generated(r, "full_doc", tier(200, 2000), every, own)
    fc.generated(r, "defect_doc", tier(800, 8000), every, own)
    ix.generated(r, "broken_doc", tier(800, 8000), [FACTS, "footnotes", ERRS, "places"], own + ["F15", "text.errors"])
    r.assumptions += [ASSUME_XML, "whether a fact with a broken unit is reported is left open"]


ASSUME_IX = "pages are well-formed XHTML and every prefix is declared on the root element of its page"


@check("F12")
def f12(r):
    own = ["F01", "text.errors", "F16", "opened"]
    ix.packed(r, ix.numbers(r, tier(9000, 60000), tier(3, 4)), [FACTS, ERRS], own, "model-numbers")
    ix.generated(r, "packed_doc", tier(250, 3000), [FACTS, ERRS], own, what="number_item")
    r.assumptions += [ASSUME_IX]


@check("F13")
def f13(r):
    own = ["F01", "text.errors", "F16", "opened"]
    ix.model(r, "MCSaka", ["Agree"])
    ix.packed(r, ix.dates(r, tier(9000, 60000)), [FACTS, ERRS], own, "model-dates")
    ix.generated(r, "packed_doc", tier(250, 3000), [FACTS, ERRS], own, what="date_item")
    r.assumptions += [ASSUME_IX]


@check("F14")
def f14(r):
    own = ["F01", "F16", "opened"]
    ix.run(r, ix.texts(r, tier(1200, 12000), tier(4, 5)), [FACTS, ERRS], own, "model-texts")
    ix.generated(r, "text_doc", tier(500, 6000), [FACTS, ERRS], own)
    r.assumptions += [ASSUME_IX]


@check("F15")
def f15(r):
    own = ["F01", "F02", "F15", "F16.clean", "opened"]
    ix.generated(r, "inline_doc", tier(900, 10000), [FACTS, "footnotes", ERRS], own)
    r.assumptions += [ASSUME_IX]


ASSUME_DTS = "local references lead to existing documents; addresses end in the suffix of their kind; the HTTP server on the loopback stands for all servers"


@check("F03")
def f03(r):
    dts.model(r, "MCDts", dts.GRAPHS, "Progress", tier(2, 3), tier(700, 8000), [""])
    dts.generated(r, "graph", tier(1200, 15000), [""])
    r.assumptions += [ASSUME_XML, ASSUME_DTS]


@check("F04")
def f04(r):
    for i, twin in enumerate(["http://A/a/b.xsd", "http://A/a.b.xsd", "http://B/a_b.xsd", "http://A/A_b.xsd"]):
        if i < 2 or tier(False, True):
            dts.model(r, "MCCache", dts.HISTORIES, "Grows", tier(4, 5), tier(250, 3000), [""], env={"TWIN": twin}, tag=str(i))
    dts.generated(r, "history", tier(700, 10000), [""])
    r.assumptions += [ASSUME_XML, ASSUME_DTS]


@check("F21")
def f21(r):
    edgar.model(r, tier(2, 3), tier(600, 4000))
    edgar.generated(r, tier(700, 8000))
    r.assumptions += ["a stand-in for the network answers like EDGAR", "accession numbers are unique"]


@check("F18")
def f18(r):
    own = ["F18", "opened"]
    want = [FACTS, "chars"]
    fc.run(r, fc.texts(r, tier(4, 5), tier(2500, 30000)), want, own, "model-texts")
    fc.scope(r, "contexts", want, own, limit=tier(400, 6000))
    fc.generated(r, "chars_doc", tier(900, 10000), want, own)
    ix.generated(r, "inline_doc", tier(200, 3000), want, own)
    r.assumptions += [ASSUME_XML, "spellings of numbers outside XML Schema (1_000, Infinity, digits of other scripts) are left open"]


@check("F17")
def f17(r):
    qc.model(r, tier(2, 3), tier(200, 3000))
    qc.generated(r, "full_doc", tier(250, 3000))
    qc.generated(r, "namesakes_doc", tier(500, 6000))
    qc.generated(r, "defect_doc", tier(250, 3000))
    qc.generated(r, "inline_doc", tier(100, 1000), inline=True)
    r.assumptions += [ASSUME_XML, "names are asked for as QName objects, prefix:local or local"]


@check("F19")
def f19(r):
    tb.model(r, tier(1, 2), tier(12, 60))
    tb.generated(r, "tables_doc", tier(450, 6000))
    tb.generated(r, "defect_doc", tier(60, 600))
    tb.generated(r, "annos_doc", tier(60, 600))
    r.assumptions += [ASSUME_XML, "the dictionary of words is the one in spec/words.json; where labels of a row clash, their headings are left open"]


@check("F20")
def f20(r):
    hs = ss.histories(r, tier(5, 6), tier(420, 6000))
    ss.run(r, hs, ["full_doc", "defect_doc", "inline_doc", "merge_doc", "annos_doc", "calc_doc", "components_doc", "chars_doc", "facts_doc", "tables_doc", "unbound_doc"], "sessions")
    r.assumptions += [ASSUME_XML, "processes and filings one after the other, not threads"]


@check("F22")
def f22(r):
    pr.model(r, tier(5, 7), tier(60, 500))
    for profile, n in [("full_doc", (150, 1500)), ("components_doc", (100, 1000)), ("merge_doc", (60, 600)), ("annos_doc", (100, 1000)),
                       ("facts_doc", (150, 1500)), ("chars_doc", (60, 600)), ("defect_doc", (60, 600)), ("calc_doc", (60, 600))]:
        pr.generated(r, profile, tier(*n))
    pr.generated(r, "inline_doc", tier(60, 600), inline=True)
    r.assumptions += [ASSUME_XML, "texts without line breaks and without the characters that draw tables and trees; output wide enough for its lines"]


@check("F23")
def f23(r):
    vw.model(r, tier(4, 6))
    for profile, n in [("full_doc", (120, 1500)), ("facts_doc", (120, 1500)), ("chars_doc", (100, 1000)), ("elements_doc", (80, 800)), ("annos_doc", (100, 1000)),
                       ("components_doc", (60, 600)), ("merge_doc", (40, 400)), ("calc_doc", (40, 400)), ("defect_doc", (100, 1000))]:
        vw.generated(r, profile, tier(*n))
    vw.generated(r, "inline_doc", tier(60, 600), inline=True)
    r.assumptions += [ASSUME_XML]
