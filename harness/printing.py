"""Runs inside brel's interpreter: prints what a filing reports and reads the output as lines and rows."""
import contextlib, io, os, random, re
import worker as w
from worker import NONE

os.environ["COLUMNS"] = "5000"
TAG = {"Concept": "CONCEPT", "Abstract": "ABSTRACT", "Dimension": "DIMENSION", "Member": "MEMBER", "LineItems": "LINE ITEMS", "Hypercube": "HYPERCUBE"}


def tree(n):
    p = n.points_to()
    if p == "report element":
        e = n.get_report_element()
        says = [TAG[type(e).__name__], str(e.get_name())]
    elif p == "fact":
        says = [str(n.get_fact().get_id())]
    else:
        x = n.get_resource()
        c = x.get_content()
        says = [str(x.get_role()).split("/")[-1]] + ([str(v) for v in c.values()] if isinstance(c, dict) else [c])
        if type(x).__name__ == "BrelLabel":
            says.append(x.get_language())
    return {"says": [t.strip() for t in says], "w": w.scaled(n.get_weight()) if hasattr(n, "get_weight") else 999999999, "k": [tree(c) for c in n.get_children()]}


def of_network(n):
    return [{"t": "head", "says": [n.get_link_role()] + [str(a) for a in n.get_arc_roles()]}, {"t": "trees", "trees": [tree(r) for r in n.get_roots()]}]


def of_component(c):
    info = c.get_info()
    return [{"t": "head", "says": [c.get_URI()] + ([info] if info else [])}] + [x for n in c.get_networks() for x in of_network(n)]


def joined(items):
    """Headings with nothing between them are one."""
    out = []
    for x in items:
        if x["t"] == "trees" and not x["trees"]:
            continue
        if x["t"] == "head" and out and out[-1]["t"] == "head":
            out[-1] = {"t": "head", "says": out[-1]["says"] + x["says"]}
        else:
            out.append(x)
    return out


LINE = re.compile("^((?:│  |   )*)(└──|├──)(.*)$")


def lines(text):
    out = []
    for l in text.split("\n"):
        m = LINE.match(l)
        if m:
            t = m.group(3)
            wm = re.match(r"\s*\[W=\s*([^\]\s]+)\s*\]", t)
            out.append({"t": "node", "bars": [m.group(1)[i] == "│" for i in range(0, len(m.group(1)), 3)], "last": m.group(2) == "└──",
                        "text": t, "w": w.scaled(float(wm.group(1))) if wm else 999999999})
        elif out and out[-1]["t"] == "head":
            out[-1]["text"] += "\n" + l
        elif l.strip():
            out.append({"t": "head", "text": l})
    return out


def grid(text):
    rows = [[c.strip() for c in l.strip()[1:-1].split("|")] for l in text.split("\n") if l.startswith("|")]
    return [r for r in rows if len(r) > 1]


def row(f):
    return {"id": NONE if f.get_id() is None else f.get_id().strip(), "value": f.get_value_as_str().strip(),
            "cells": {a.get_name(): str(f.get_characteristic(a)).strip() for a in f.get_aspects()}}


def do_print(req):
    from brel.utils import pprint
    r = random.Random(req["seed"])
    f = w.Filing.open(req["path"])

    def printed(x):
        o = io.StringIO()
        with contextlib.redirect_stdout(o):
            pprint(x)
        return o.getvalue()

    def tried(what, x, case):
        try:
            case.update(case.pop("read")(printed(x)))
        except Exception as e:
            case = {"crash": w.crash_text(e)}
        case.setdefault("crash", NONE)
        case["of"] = what
        return case

    def trees(what, x, items):
        return tried(what, x, {"what": "tree", "items": joined(items), "read": lambda t: {"lines": lines(t)}})

    def several(t):
        g = grid(t)
        return {"columns": g[0], "rows": [dict(zip(g[0], x)) for x in g[1:]]}

    def single(t):
        g = {a: b for a, b in grid(t)[1:]}
        return {"columns": list(g) + ["id"], "rows": [g]}
    facts = f.get_all_facts()
    cases = []
    picks = [facts, r.sample(facts, r.randrange(len(facts) + 1)), []] + ([r.choices(facts, k=3)] if facts else [])
    for fs in picks:
        cases.append(tried("facts", fs, {"what": "table", "facts": [row(x) for x in fs], "read": several}))
    for x in r.sample(facts, min(2, len(facts))):
        # a single fact is printed without its id
        cases.append(tried("fact", x, {"what": "table", "facts": [dict(row(x), id=NONE)], "read": lambda t: (lambda d: dict(d, rows=[dict(d["rows"][0], id=NONE)]))(single(t))}))
    comps = f.get_all_components()
    for c in r.sample(comps, min(4, len(comps))):
        cases.append(trees("component", c, of_component(c)))
    if comps:
        cases.append(trees("components", comps, [x for c in comps for x in of_component(c)]))
    nets = f.get_all_physical_networks() + [n for c in comps for n in c.get_networks()]
    for n in r.sample(nets, min(6, len(nets))):
        cases.append(trees("network", n, of_network(n)))
    nodes = [x for n in nets for x in n.get_all_nodes()]
    for x in r.sample(nodes, min(3, len(nodes))):
        cases.append(trees("node", x, [{"t": "trees", "trees": [tree(x)]}]))
    return {"cases": cases, "crash": NONE}


OPS = {"print": do_print}
