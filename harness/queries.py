"""Runs in brel's interpreter: the content of an opened filing, and seeded histories of queries of it."""
import random
import worker as w
from gen import near
from brel.errors.area import Area
from brel.errors.severity import Severity

NONE = "~"
NETS = {"pre": "get_presentation_network", "cal": "get_calculation_network", "def": "get_definition_network"}
KINDS = {"Concept": "get_all_concepts", "Abstract": "get_all_abstracts", "LineItems": "get_all_line_items", "Hypercube": "get_all_hypercubes",
         "Dimension": "get_all_dimensions", "Member": "get_all_members"}


def node_name(n):
    p = n.points_to()
    if p == "report element":
        return w.clark(n.get_report_element().get_name())
    return "fact:" + w.s(n.get_fact().get_id()) if p == "fact" else "resource:" + w.s(n.get_resource().get_content())


def walk(nodes, seen):
    """Every node once, in the order of the tree (a node may hang below several others)."""
    for n in nodes:
        if id(n) not in seen:
            seen[id(n)] = n
            walk(n.get_children(), seen)
    return list(seen.values())


def net_content(n):
    return [] if n is None else [{"roots": [node_name(x) for x in n.get_roots()], "nodes": [node_name(x) for x in walk(n.get_roots(), {})]}]


def label(x):
    return {"text": x.get_content(), "lang": x.get_language(), "role": x.get_role()}


def content(f, binds):
    return {
        "elems": [{"name": w.clark(e.get_name()), "ns": e.get_name().get_URL(), "local": e.get_name().get_local_name(), "kind": type(e).__name__,
                   "labels": [label(x) for x in e.get_labels()]} for e in f.get_all_report_elements()],
        "facts": [{"id": w.s(x.get_id()), "concept": w.clark(x.get_concept().get_name()), "value": x.get_value_as_str(),
                   "core": all(a.get_name() in w.CORE for a in x.get_aspects())} for x in f.get_all_facts()],
        "comps": [{"uri": c.get_URI(), **{k: net_content(getattr(c, m)()) for k, m in NETS.items()}} for c in f.get_all_components()],
        "physical": [{"role": n.get_link_role(), "kind": type(n).__name__} for n in f.get_all_physical_networks()],
        "errors": [e.get_full_error_code() for e in f.get_all_errors()], "binds": binds}


def plan(r, c, n):
    """A history of queries about what is there, and about what is nearly there."""
    locals_ = [e["local"] for e in c["elems"]] or ["Nothing"]
    nss = [e["ns"] for e in c["elems"]] + [b["ns"] for b in c["binds"]] + ["http://nowhere"]
    ps = [b["p"] for b in c["binds"]] + ["nope"]

    def name():
        e = r.choice(c["elems"]) if c["elems"] and r.random() < .8 else {"local": r.choice(locals_), "ns": r.choice(nss)}
        local = near(r, e["local"]) if r.random() < .2 else e["local"]
        local = "".join(x for x in local if x not in ":{}")
        form = r.choice(["qname", "prefixed", "prefixed", "local", "local"])
        q = {"form": form, "local": local, "ns": NONE, "p": NONE}
        if form == "qname":
            q["ns"] = e["ns"] if r.random() < .8 else r.choice(nss)
            q["p"] = r.choice(ps)
        elif form == "prefixed":
            own = [b["p"] for b in c["binds"] if b["ns"] == e["ns"]]
            q["p"] = r.choice(own) if own and r.random() < .75 else r.choice(ps)
        return q

    def one():
        op = r.choice(["facts_of", "facts_of", "core", "reported", "kind", "element", "element", "concept", "concept", "labels", "main_label", "has_language", "has_role",
                       "uris", "component", "network", "nodes", "root", "severity", "area", "any_errors", "consistency", "tables", "typed"])
        q = {"op": op, "arg": NONE, "arg2": NONE}
        if op in ("facts_of", "element", "concept"):
            q.update(name())
        elif op == "kind":
            q["arg"] = r.choice(sorted(KINDS))
        elif op in ("main_label", "has_language", "has_role"):
            if not c["elems"]:
                return one()
            e = r.choice(c["elems"])
            q["arg"] = e["name"]
            if op != "main_label":
                k = "lang" if op == "has_language" else "role"
                q["arg2"] = near(r, r.choice(e["labels"])[k]) if e["labels"] and r.random() < .3 else r.choice([x[k] for x in e["labels"]] + ["en", "de", "http://www.xbrl.org/2003/role/label"])
        elif op in ("component", "network", "nodes", "root"):
            if not c["comps"] and op != "component":
                return one()
            q["arg"] = r.choice([x["uri"] for x in c["comps"]] + (["http://ex.com/none"] if op == "component" else []))
            if op == "component" and r.random() < .3:
                q["arg"] = near(r, q["arg"])
            elif op != "component":
                q["arg2"] = r.choice(sorted(NETS))
                if op != "network" and not next(x for x in c["comps"] if x["uri"] == q["arg"])[q["arg2"]]:
                    return one()
        elif op == "severity":
            q["arg"] = r.choice("EWI")
        elif op == "area":
            q["arg"] = r.choice([x[2:5] for x in c["errors"]] + [a.value for a in Area])
        return q
    qs = [one() for _ in range(n)]
    return qs + r.sample(qs, len(qs) // 3)


def place(xs, all_):
    """The positions of the very objects."""
    where = {id(x): i + 1 for i, x in enumerate(all_)}
    return [str(where.get(id(x), "alien")) for x in xs]


def ask(f, q, lists):
    from brel.qnames.qname import QName
    op = q["op"]
    facts, elems, comps, errs = lists

    def names(xs):
        mine = {id(e) for e in elems}
        return [w.clark(x.get_name()) if id(x) in mine else "alien" for x in xs]

    def key():
        return QName(q["ns"], q["p"], q["local"]) if q["form"] == "qname" else (q["p"] + ":" if q["form"] == "prefixed" else "") + q["local"]

    def L(v):
        return {"k": "list", "v": v}

    def O(v):
        return {"k": "refused" if v is None else "one", "v": [] if v is None else v}

    def B(v):
        return {"k": "bool", "v": [str(bool(v)).lower()]}

    def named():
        return next(e for e in elems if w.clark(e.get_name()) == q["arg"])

    def net():
        c = f.get_component(q["arg"])
        return getattr(c, NETS[q["arg2"]])()
    if op == "facts_of":
        if q["form"] == "qname" and q["local"] and len(q["local"]) % 2:
            return L(place(f.get_facts_by_concept(f.get_concept(key())), facts))
        return L(place(f.get_facts_by_concept_name(key()), facts))
    if op == "core":
        return L(place(f.get_all_core_facts(), facts))
    if op == "reported":
        return L(names(f.get_all_reported_concepts()))
    if op == "kind":
        return L(names(getattr(f, KINDS[q["arg"]])()))
    if op == "element":
        return O(names([f.get_report_element_by_name(key())]))
    if op == "concept":
        return O(names([(f.get_concept if len(q["local"]) % 2 else f.get_concept_by_name)(key())]))
    if op == "labels":
        return L([w.clark(x["report_element"]) + "|" + x["language"] + "|" + x["label_role"] + "|" + x["text"] for x in f.get_all_labels()])
    if op == "main_label":
        return O([str(named().select_main_label())])
    if op == "has_language":
        return B(named().has_label_with_language(q["arg2"]))
    if op == "has_role":
        return B(named().has_label_with_role(q["arg2"]))
    if op == "uris":
        return L(f.get_all_component_uris())
    if op == "component":
        return O(place([f.get_component(q["arg"])], comps))
    if op == "network":
        return L([]) if net() is None else O([q["arg2"]])
    if op == "nodes":
        return L([node_name(x) for x in net().get_all_nodes()])
    if op == "root":
        return O([node_name(net().get_root())])
    if op == "severity":
        by = {"E": f.get_errors, "W": f.get_warnings, "I": f.get_infos}
        a, b = by[q["arg"]](), f.get_errors_by_severity(Severity(q["arg"]))
        return L(place(a, errs) if [id(x) for x in a] == [id(x) for x in b] else ["get_errors differs"])
    if op == "area":
        return L(place(f.get_errors_by_area(Area(q["arg"])), errs))
    if op == "any_errors":
        return B(f.has_any_errors())
    # the answers of these are the business of other properties
    if op == "consistency":
        for c in comps:
            n = c.get_calculation_network()
            if n is not None:
                w.outcome(n.is_balance_consistent)
                w.outcome(lambda: n.is_aggregation_consistent(facts))
    elif op == "tables":
        for g in (f.generate_fact_table_pandas_df, f.generate_report_elements_as_pandas_df, f.generate_components_as_pandas_df, f.generate_labels_as_pandas_df):
            g()
    elif op == "typed":
        for x in facts:
            w.typed(x)
    return {"k": "open", "v": []}


def answer(f, q, lists):
    try:
        return ask(f, q, lists)
    except (ValueError, KeyError):
        return {"k": "refused", "v": []}
    except Exception as e:
        return {"k": "crash", "v": [w.crash_text(e)]}


def do_queries(req):
    try:
        f = w.Filing.open(req["path"])
    except Exception as e:
        return {"crash": w.crash_text(e)}
    r = random.Random(req["seed"])
    c = content(f, req["binds"])
    lists = [f.get_all_facts(), f.get_all_report_elements(), f.get_all_components(), list(f.get_all_errors())]
    qs = plan(r, c, req["n"])
    ans = [answer(f, q, lists) for q in qs]
    return {"crash": NONE, "content": c, "queries": qs, "answers": ans, "after": content(f, req["binds"])}
