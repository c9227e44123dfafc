"""Runs inside brel's own interpreter: opens filings and reports what the public API says, one JSON line per request.

A report is a projection onto abstract values (Clark names, dates, scaled integers), so that the judgement does not
depend on how brel represents them. "~" stands for an absent value everywhere.
"""
import decimal, json, os, sys, traceback

OUT = os.fdopen(os.dup(1), "w", buffering=1)
os.dup2(2, 1)
sys.stdout = sys.stderr
NONE = "~"

import brel  # noqa
from brel import *  # noqa
from brel.brel_filing import Filing
from brel.characteristics import Aspect


def s(x):
    return NONE if x is None else str(x)


def clark(q):
    return "{%s}%s" % (q.get_URL() if hasattr(q, "get_URL") else q.get_url(), q.get_local_name())


def scaled(x, k=1000):
    if x is None:
        return 999999999
    y = float(x) * k
    r = round(y)
    return int(r) if abs(y - r) < 1e-6 and abs(r) < 2000000000 else 999999998


def period(p):
    if p is None:
        return {"k": "none", "a": NONE, "b": NONE}
    if p.is_instant():
        return {"k": "instant", "a": p.get_instant_period().isoformat(), "b": NONE}
    return {"k": "duration", "a": p.get_start_period().isoformat(), "b": p.get_end_period().isoformat()}


def unit(u):
    if u is None:
        return {"k": "none", "id": NONE, "num": [], "den": []}
    return {"k": "unit", "id": s(u.get_name()), "num": sorted(map(clark, u.get_numerators())),
            "den": sorted(map(clark, u.get_denominators()))}


def entity(e):
    return {"scheme": NONE, "id": NONE} if e is None else split_entity(e)


def split_entity(e):
    v = e.get_value()
    sch, i = e.get_schema(), None
    if v.startswith("{" + sch + "}"):
        i = v[len(sch) + 2:]
    return {"scheme": s(sch), "id": s(i if i is not None else v)}


def dim(c):
    d = clark(c.get_dimension().get_name())
    if type(c).__name__ == "ExplicitDimensionCharacteristic":
        return {"dim": d, "k": "explicit", "v": clark(c.get_member().get_name())}
    return {"dim": d, "k": "typed", "v": s(c.get_value())}


CORE = ("concept", "period", "entity", "unit")


def fact(f):
    aspects = f.get_aspects()
    dims = [dim(f.get_characteristic(a)) for a in aspects if a.get_name() not in CORE]
    dec = f.get_decimals()
    prec = f.get_precision()
    return {"id": s(f.get_id()), "concept": clark(f.get_concept().get_name()), "value": f.get_value_as_str(),
            "period": period(f.get_period()), "entity": entity(f.get_entity()), "unit": unit(f.get_unit()),
            "dims": sorted(dims, key=lambda d: (d["dim"], d["k"], d["v"])),
            "core": sorted(a.get_name() for a in aspects if a.get_name() in CORE),
            "decimals": NONE if dec is None else ("INF" if dec == float("inf") else repr(int(dec)) if dec == int(dec) else repr(dec)),
            "precision": NONE if prec is None else ("INF" if prec == float("inf") else repr(int(prec)) if prec == int(prec) else repr(prec)),
            "isCore": bool(f.is_core())}


def local(t):
    return t.split(":")[-1]


def label(x):
    return {"text": x.get_content(), "lang": x.get_language(), "role": x.get_role()}


def element(e):
    k = type(e).__name__
    r = {"name": clark(e.get_name()), "kind": k, "id": s(e.get_id()), "period": NONE, "balance": NONE, "nillable": NONE,
         "type": NONE, "explicit": NONE, "dimtype": NONE, "labels": [label(x) for x in e.get_labels()]}
    if k == "Concept":
        r.update(period=s(e.get_period_type()), balance=s(e.get_balance_type()), nillable=str(bool(e.is_nillable())).lower(),
                 type=local(e.get_data_type()))
    if k == "Dimension":
        ex = bool(e.is_explicit())
        r["explicit"] = str(ex).lower()
        if not ex:
            r["dimtype"] = clark(e.get_type())
    return r


def resource(x):
    k = type(x).__name__
    r = {"kind": {"BrelLabel": "label", "BrelReference": "reference", "BrelFootnote": "footnote"}.get(k, k), "role": s(x.get_role()),
         "label": s(x.get_label()), "lang": NONE, "text": NONE, "parts": []}
    if k == "BrelReference":
        r["parts"] = sorted([{"name": a, "text": s(b)} for a, b in x.get_content().items()], key=lambda p: p["name"])
    else:
        r["lang"], r["text"] = s(x.get_language()), s(x.get_content())
    return r


def node(n, depth=0):
    if depth > 60:
        raise RecursionError("network is not a tree")
    p = n.points_to()
    r = {"e": NONE, "res": [], "o": scaled(n.get_order()), "w": 999999999, "p": NONE, "a": s(n.get_arc_role()),
         "an": n.get_arc_name().get_local_name(), "lr": s(n.get_link_role()), "ln": n.get_link_name().get_local_name(),
         "leaf": bool(n.is_leaf()), "k": [node(c, depth + 1) for c in n.get_children()]}
    if p == "report element":
        r["e"] = clark(n.get_report_element().get_name())
    elif p == "fact":
        f = n.get_fact()
        r["e"] = "fact:" + s(f.get_id())
    else:
        r["res"] = [resource(n.get_resource())]
    if hasattr(n, "get_weight"):
        r["w"] = scaled(n.get_weight())
    if hasattr(n, "get_preferred_label_role"):
        r["p"] = s(n.get_preferred_label_role())
    return r


KIND = {"PresentationNetwork": "presentation", "CalculationNetwork": "calculation", "DefinitionNetwork": "definition",
        "LabelNetwork": "label", "ReferenceNetwork": "reference", "FootnoteNetwork": "footnote"}


def outcome(f):
    try:
        r = f()
        return {True: "true", False: "false"}.get(r, repr(r))
    except ValueError:
        return "refused"
    except Exception as e:
        return "crash:" + type(e).__name__


def network(n, filing=None):
    r = {"kind": KIND.get(type(n).__name__, type(n).__name__), "role": s(n.get_link_role()), "link": n.get_link_name().get_local_name(),
         "physical": bool(n.is_physical()), "roots": [node(x) for x in n.get_roots()], "nodes": len(n.get_all_nodes()),
         "arcroles": sorted(n.get_arc_roles()), "balance": NONE, "aggregation": NONE}
    if r["kind"] == "calculation":
        r["balance"] = outcome(n.is_balance_consistent)
        if filing is not None:
            r["aggregation"] = outcome(lambda: n.is_aggregation_consistent(filing.get_all_facts()))
    return r


def component(c, filing):
    def net(n):
        return [] if n is None else [network(n, filing)]
    r = {"uri": c.get_URI(), "info": c.get_info(), "pre": net(c.get_presentation_network()), "cal": net(c.get_calculation_network()),
         "def": net(c.get_definition_network()),
         "has": [bool(c.has_presentation_network()), bool(c.has_calculation_network()), bool(c.has_definition_network())],
         "nets": [KIND.get(type(n).__name__, "?") for n in c.get_networks()]}
    try:
        r["found"] = filing.get_component(c.get_URI()) is c
    except ValueError:
        r["found"] = False
    return r


def canon(x):
    """<sign><digits>e<exponent>"""
    if isinstance(x, float) and (x != x or x in (float("inf"), -float("inf"))):
        return "NaN" if x != x else "INF" if x > 0 else "-INF"
    sign, digits, exp = decimal.Decimal(repr(x)).as_tuple()
    d = "".join(map(str, digits)).lstrip("0")
    if not d:
        return "0e0"
    t = d.rstrip("0")
    return ("-" if sign else "") + t + "e" + str(exp + len(d) - len(t))


def kinded(f):
    try:
        v = f()
    except ValueError:
        return {"k": "refused", "v": ""}
    except Exception as e:
        return {"k": "crash", "v": type(e).__name__}
    if isinstance(v, bool):
        return {"k": "bool", "v": str(v).lower()}
    if isinstance(v, (int, float)):
        return {"k": type(v).__name__, "v": canon(v)}
    return {"k": type(v).__name__, "v": str(v)}


def typed(f):
    return {"value": kinded(f.get_value), "int": kinded(f.get_value_as_int), "float": kinded(f.get_value_as_float),
            "bool": kinded(f.get_value_as_bool), "str": f.get_value_as_str()}


def read(f):
    try:
        return f().isoformat()
    except ValueError:
        return "refused"
    except Exception as e:
        return "crash:" + type(e).__name__


def reads(f):
    p = f.get_period()
    if p is None:
        return dict.fromkeys(("instant", "start", "end"), "none")
    return {"instant": read(p.get_instant_period), "start": read(p.get_start_period), "end": read(p.get_end_period)}


def characteristics(fs):
    """Every period, entity, concept and dimension characteristic, which of them are equal, and which compare inconsistently."""
    out, objs = [], []
    for i, f in enumerate(fs):
        for a in f.get_aspects():
            if a.get_name() == "unit":
                continue
            c = f.get_characteristic(a)
            k, d = a.get_name(), NONE
            if k == "period":
                v = period(c)
                v = v["a"] if v["k"] == "instant" else v["a"] + "/" + v["b"]
            elif k == "entity":
                e = split_entity(c)
                v = "{%s}%s" % (e["scheme"], e["id"])
            elif k == "concept":
                v = clark(c.get_value().get_name())
            else:
                x = dim(c)
                k, d, v = x["k"], x["dim"], x["v"]
            out.append({"fact": i + 1, "k": k, "d": d, "v": v, "text": str(c), "home": bool(c.get_aspect() == a and a in f.get_aspects())})
            objs.append(c)
    n = len(objs)
    equal = [[i + 1, j + 1] for i in range(n) for j in range(i, n) if objs[i] == objs[j]]
    odd = [[i + 1, j + 1] for i in range(n) for j in range(i, n) if not ((objs[i] == objs[j]) == (objs[j] == objs[i]) == (not objs[i] != objs[j]))]
    return {"chars": out, "equal": equal, "odd": odd}


def errors(f):
    return [e.get_full_error_code() for e in f.get_all_errors()]


def tag(x):
    return x.tag.split("}")[-1] if isinstance(x.tag, str) else ""


def xl(x, k):
    return s(x.get("{http://www.w3.org/1999/xlink}" + k))


def place(x):
    """The part of the filing that an error points at, as the specification calls it."""
    while x is not None:
        l = tag(x)
        if l in ("context", "unit"):
            return l + " " + s(x.get("id"))
        if l == "element" and x.get("name"):
            return "element " + s(x.get("name"))
        if l == "roleType":
            return "role " + s(x.get("roleURI"))
        if xl(x, "type") == "locator":
            return "loc " + xl(x, "label")
        if xl(x, "type") == "resource":
            return "resource " + xl(x, "label")
        if xl(x, "type") == "arc":
            return "arc " + xl(x, "from") + " " + xl(x, "to")
        if xl(x, "type") == "extended":
            return "link " + xl(x, "role")
        if l in ("continuation", "footnote", "header", "head", "references", "hidden", "html"):
            return l + " " + s(x.get("id"))
        if l == "relationship":
            return "relationship " + " ".join((x.get("fromRefs") or "").split()) + " > " + " ".join((x.get("toRefs") or "").split())
        if l in ("nonNumeric", "nonFraction") or x.get("contextRef"):
            return "fact " + s(x.get("id"))
        x = x.getparent()
    return NONE


def places(f):
    return ["%s@%s" % (e.get_full_error_code(), NONE if e.get_context() is None else place(e.get_context())) for e in f.get_all_errors()]


PARTS = {
    "places": places,
    "facts": lambda f: [fact(x) for x in f.get_all_facts()],
    "elements": lambda f: [element(x) for x in f.get_all_report_elements()],
    "comps": lambda f: [component(c, f) for c in f.get_all_components()],
    "nets": lambda f: [network(n) for n in f.get_all_physical_networks()],
    "errors": errors,
    "uris": lambda f: f.get_all_component_uris(),
}


def project(f, want=None):
    obs = {"crash": NONE}
    if want and "chars" in want:
        fs = f.get_all_facts()
        obs.update(characteristics(fs), typed=[typed(x) for x in fs], reads=[reads(x) for x in fs])
        want = [k for k in want if k != "chars"]
    for k in want or [k for k in PARTS if k != "places"]:
        try:
            obs[k] = PARTS[k](f)
        except RecursionError:
            raise
    return obs


def crash_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1] if tb else None
    return "%s: %s @ %s" % (type(e).__name__, str(e)[:200], (os.path.basename(last.filename) + ":" + last.name) if last else "?")


def do_open(req):
    try:
        f = Filing.open(req["path"])
        return project(f, req.get("want"))
    except Exception as e:
        return {"crash": crash_text(e)}


OPS = {"open": do_open}


def main():
    try:
        import ops
        OPS.update(ops.OPS)
    except ImportError:
        pass
    for line in sys.stdin:
        req = json.loads(line)
        try:
            res = OPS[req["op"]](req)
        except BaseException as e:
            res = {"crash": crash_text(e)}
        OUT.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    main()
