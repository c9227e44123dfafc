"""Runs in brel's interpreter: several filings side by side; and requests in a fresh copy of the process."""
import gc, hashlib, json, os, shutil, sys
import __main__ as main
import ops
import worker as w

HELD = {}


def sort(x):
    """Up to order. A root has no arc to it, so the arc it seems to have depends on the order of the files; so does
    how often a node that several others share is there as an object, and which obstacle an aggregation meets first."""
    if isinstance(x, dict) and "roots" in x:
        x = dict(x, nodes=0, arcroles=[a for a in x["arcroles"] if a != "unknown"], aggregation={"refused": "false"}.get(x["aggregation"], x["aggregation"]), roots=[{k: v for k, v in n.items() if k not in ("a", "o", "w", "p", "an")} for n in x["roots"]])
    if isinstance(x, dict):
        return {k: sort(v) for k, v in x.items()}
    if isinstance(x, list):
        return sorted((sort(v) for v in x), key=lambda v: json.dumps(v, sort_keys=True))
    return ops.projected(x) if isinstance(x, str) and "<" in x else x


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def tables(f):
    out = []
    for m in ("generate_fact_table_pandas_df", "generate_report_elements_as_pandas_df", "generate_components_as_pandas_df", "generate_labels_as_pandas_df"):
        df = getattr(f, m)()
        out.append([[str(c) for c in df.columns]] + [[str(v) for v in row] for row in df.itertuples(index=False, name=None)])
    return out


def report(f, full):
    obs = w.project(f)
    both = {"exact": digest([obs, tables(f)]), "bag": digest(sort(obs))}
    return dict(both, obs=obs) if full else both


def noise(f):
    """Queries whose answers do not matter here."""
    for e in f.get_all_report_elements():
        try:
            f.get_report_element_by_name(e.get_name().get_local_name())
        except ValueError:
            pass
        e.select_main_label()
    for c in f.get_all_reported_concepts():
        f.get_facts_by_concept(c)
    for c in f.get_all_components():
        f.get_component(c.get_URI())
        n = c.get_calculation_network()
        if n is not None:
            n.is_aggregation_consistent(f.get_all_facts())
    tables(f)


def do_session(req):
    out = []
    for c in req["cmds"]:
        got = {"op": c["op"], "crash": w.NONE}
        try:
            if c["op"] == "write":
                for n in os.listdir(c["to"]) if os.path.isdir(c["to"]) else []:
                    p = os.path.join(c["to"], n)
                    shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
                shutil.copytree(c["from"], c["to"], dirs_exist_ok=True)
            elif c["op"] == "open":
                try:
                    HELD[c["h"]] = w.Filing.open(c["path"])
                except Exception as e:
                    HELD[c["h"]] = e
            elif c["op"] == "drop":
                HELD.pop(c["h"])
                gc.collect()
            elif c["op"] == "read":
                f = HELD[c["h"]]
                if isinstance(f, Exception):
                    got.update({k: type(f).__name__ for k in ("exact", "bag")}, obs=w.crash_text(f))
                else:
                    if c["noise"]:
                        try:
                            noise(f)
                        except Exception:
                            pass
                    got.update(report(f, req["full"]))
        except Exception as e:
            got["crash"] = w.crash_text(e)
        out.append(got)
    HELD.clear()
    return {"crash": w.NONE, "out": out}


def do_forked(req):
    """The request in a copy of this process, which has never opened a filing itself."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                res = main.OPS[req["req"]["op"]](req["req"])
            except BaseException as e:
                res = {"crash": w.crash_text(e)}
            with os.fdopen(wr, "w") as f:
                f.write(json.dumps(res))
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text) if text else {"crash": "DIED"}
