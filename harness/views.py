"""Runs in brel's interpreter: all the ways to look at a filing's items, next to what their plain accessors report."""
import random
import worker as w
from brel import Fact
from brel.characteristics import Aspect
from brel.reportelements import IReportElement
from worker import NONE

TAGS = ["en", "en-US", "en-GB", "EN", "de", "de-DE", "xx", ""]
CORE = {"concept": Aspect.CONCEPT, "period": Aspect.PERIOD, "entity": Aspect.ENTITY, "unit": Aspect.UNIT}


def prefixed(q):
    return q.get_prefix() + ":" + q.get_local_name()


def flat(v):
    """Plain values as text."""
    if v is None:
        return NONE
    if isinstance(v, bool):
        return str(v).lower()
    if isinstance(v, dict):
        return {str(k): flat(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [flat(x) for x in v]
    if isinstance(v, (int, float)):
        return w.scaled(v)
    return str(v)


def ask(f):
    try:
        return str(f())
    except ValueError:
        return "~refused"
    except Exception as e:
        return "~crash:" + type(e).__name__


def label(x):
    return {"text": x.get_content(), "lang": x.get_language(), "role": x.get_role()}


def labelled(x, tags, roles):
    v = {"main": x.select_main_label().get_content(), "langs": [{"q": t, "a": bool(x.has_label_with_language(t))} for t in tags]}
    if roles is not None:
        v["roles"] = [{"q": t, "a": bool(x.has_label_with_role(t))} for t in roles]
    return v


def element(e, tags, roles):
    k = type(e).__name__
    x = {"name": prefixed(e.get_name()), "kind": k, "period": NONE, "balance": NONE, "nillable": NONE, "type": NONE, "dimtype": NONE,
         "labels": [label(l) for l in e.get_labels()]}
    v = dict(labelled(e, tags, roles), text=str(e), dict={a.replace("_", "-"): b for a, b in flat(e.convert_to_dict()).items()})
    if k == "Concept":
        x.update(period=w.s(e.get_period_type()), balance=w.s(e.get_balance_type()), nillable=str(bool(e.is_nillable())).lower(), type=w.s(e.get_data_type()))
        v["class"] = {"numeric": e.is_numeric(), "integer": e.is_integer(), "boolean": e.is_boolean(), "textual": e.is_textual()}
    if k == "Dimension":
        t = ask(e.get_type)
        x["dimtype"] = NONE if t == "~refused" else prefixed(e.get_type())
        v["explicit"] = bool(e.is_explicit())
    return {"is": "element", "x": x, "views": v}


def name(e):
    q = e.get_name()
    return {"is": "name", "x": {"uri": q.get_URL(), "prefix": q.get_prefix(), "local": q.get_local_name()},
            "views": {"clark": q.clark_notation(), "prefixed": q.prefix_local_name_notation(), "text": str(q)}}


def value(f, a):
    c = f.get_characteristic(a)
    return NONE if c is None else str(c.get_value())


def fact(f, aspects):
    c = f.get_context()
    x = {"id": w.s(f.get_id()), "value": f.get_value_as_str(), "aspects": [{"name": a.get_name(), "core": a.get_name() in CORE, "value": value(f, a)} for a in f.get_aspects()]}

    def text(g):
        y = g()
        return NONE if y is None else str(y.get_value() if hasattr(y, "get_value") else y.get_name())
    ways = {k: [text(getattr(o, "get_" + k)) for o in (f, c)] + [value(o, a) for o in (f, c)] for k, a in CORE.items()}
    probes = [{"q": a.get_name(), "has": bool(c.has_characteristic(a)), "text": c.get_characteristic_as_str(a), "value": value(c, a)} for a in aspects]
    v = {"dict": flat(f.convert_to_dict()), "items": flat(dict(iter(f))), "text": str(f), "ways": ways, "probes": probes,
         "core": [bool(f.is_core()), not c.has_noncore_dimensions()], "listed": [[a.get_name() for a in o.get_aspects()] for o in (f, c)],
         "reads": [[w.kinded(g), w.kinded(h)] for g, h in ((f.get_value_as_int, f.__int__), (f.get_value_as_float, f.__float__), (f.get_value_as_bool, f.__bool__))]}
    return {"is": "fact", "x": x, "views": v}


def aspect(a, all_aspects, tags):
    x = {"name": a.get_name(), "labels": [label(l) for l in a.get_labels()]}
    v = dict(labelled(a, tags, None), text=str(a), core=bool(a.is_core()),
             same=[{"q": b.get_name(), "a": a == b, "b": not (a != b), "h": hash(a) == hash(b)} for b in all_aspects] + [{"q": "~other", "a": a == a.get_name(), "b": not (a != a.get_name()), "h": False}])
    return {"is": "aspect", "x": x, "views": v}


def unit(u):
    return {"is": "unit", "x": {"name": u.get_name(), "num": len(u.get_numerators()), "den": len(u.get_denominators())},
            "views": {"text": str(u), "value": str(u.get_value()), "simple": bool(u.is_simple())}}


def tree(n, ids):
    ids.setdefault(id(n), len(ids) + 1)
    to = n.points_to()
    return {"id": ids[id(n)], "to": to, "ar": w.s(n.get_arc_role()), "an": prefixed(n.get_arc_name()), "lr": w.s(n.get_link_role()), "ln": prefixed(n.get_link_name()),
            "o": w.scaled(n.get_order()), "k": [tree(c, ids) for c in n.get_children()]}


def holds(n):
    """What each accessor of a node's target says."""
    def g(f, kind):
        r = ask(f)
        return r if r.startswith("~") else kind if isinstance(f(), KINDS[kind]) else "~other"
    return {"report element": g(n.get_report_element, "report element"), "resource": g(n.get_resource, "resource"), "fact": g(n.get_fact, "fact")}


def nodes(roots):
    return [x for n in roots for x in [n] + nodes(n.get_children())]


def network(n):
    ids = {}
    x = {"roots": [tree(r, ids) for r in n.get_roots()], "lr": w.s(n.get_link_role()), "ln": prefixed(n.get_link_name()), "physical": bool(n.is_physical())}
    every = nodes(n.get_roots())
    text = ask(n.get_arc_name) if not n.get_roots() else prefixed(n.get_arc_name())
    root = ask(lambda: ids[id(n.get_root())]) if n.get_roots() else "open"
    v = {"dict": flat(n.convert_to_dict()), "nodes": [ids.get(id(y), 0) for y in n.get_all_nodes()], "root": root, "arcname": text, "arcroles": list(n.get_arc_roles()),
         "below": [{"id": ids[id(y)], "all": [ids.get(id(z), 0) for z in y.get_all_descendants()], "leaf": bool(y.is_leaf()), "holds": holds(y), "text": ask(y.__str__)} for y in every]}
    return {"is": "network", "x": x, "views": v}


def component(c):
    x = {"uri": c.get_URI(), "info": w.s(c.get_info()), "pre": c.get_presentation_network() is not None, "cal": c.get_calculation_network() is not None, "def": c.get_definition_network() is not None}
    v = {"dict": flat(c.convert_to_dict()), "has": [bool(c.has_presentation_network()), bool(c.has_calculation_network()), bool(c.has_definition_network())],
         "networks": [type(n).__name__ for n in c.get_networks()], "text": ask(c.__str__)}
    return {"is": "component", "x": x, "views": v}


def resource(r):
    k = w.resource(r)["kind"]
    x = {"kind": k, "role": w.s(r.get_role()), "label": w.s(r.get_label()), "lang": NONE, "content": flat(r.get_content()) if k == "reference" else {}, "words": NONE}
    v = {}
    if k != "reference":
        x.update(lang=w.s(r.get_language()), words=w.s(r.get_content()))
        v["text"] = str(r)
    if k == "label":
        v["role"] = w.s(r.get_label_role())
    if k != "footnote":
        v["dict"] = flat(r.convert_to_dict())
        v["title"] = w.s(r.get_title())
    if k == "reference":
        v["text"] = ask(r.__str__)
    return {"is": "resource", "x": x, "views": v}


def error(e):
    x = {"severity": e.get_severity().value, "area": str(e.get_area().value), "code": str(e.get_numeric_code()), "message": e.get_message(),
         "xbrl": NONE if e.get_xbrl_error_code() is None else w.clark(e.get_xbrl_error_code())}
    return {"is": "error", "x": x, "views": {"full": e.get_full_error_code(), "text": str(e)}}


def do_view(req):
    from brel.resource import IResource
    KINDS.update({"report element": IReportElement, "resource": IResource, "fact": Fact})
    r = random.Random(req["seed"])
    f = w.Filing.open(req["path"])

    def some(xs, n):
        return r.sample(xs, n) if len(xs) > n else xs
    els, facts, comps = f.get_all_report_elements(), f.get_all_facts(), f.get_all_components()
    nets = f.get_all_physical_networks() + [n for c in comps for n in c.get_networks()]
    labels = [l for e in els for l in e.get_labels()]
    tags = TAGS + sorted({l.get_language() for l in labels} - set(TAGS))
    roles = sorted({l.get_role() for l in labels}) + ["http://ex.com/none"]
    aspects = list(CORE.values()) + list({a.get_name(): a for x in facts for a in x.get_aspects() if a.get_name() not in CORE}.values())
    units = list({x.get_unit().get_name(): x.get_unit() for x in facts if x.get_unit() is not None}.values())
    resources = labels + [n.get_resource() for k in nets for n in nodes(k.get_roots()) if n.points_to() == "resource"]
    work = [(element, (e, tags, roles)) for e in some(els, 10)] + [(name, (e,)) for e in some(els, 2)] + [(fact, (x, aspects)) for x in some(facts, 8)]
    work += [(aspect, (a, aspects, tags)) for a in aspects] + [(unit, (u,)) for u in some(units, 3)] + [(component, (c,)) for c in some(comps, 4)]
    work += [(network, (n,)) for n in some(nets, 5) if len(nodes(n.get_roots())) <= 60] + [(resource, (x,)) for x in some(resources, 6)] + [(error, (e,)) for e in some(f.get_all_errors(), 5)]
    out = []
    for g, args in work:
        try:
            out.append(dict(g(*args), crash=NONE))
        except Exception as e:
            out.append({"is": g.__name__, "crash": w.crash_text(e)})
    return {"crash": NONE, "items": out}


KINDS = {}
OPS = {"view": do_view}
