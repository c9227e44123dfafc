"""Runs in brel's interpreter: what a filing's objects report, and histories of generating tables from it."""
import locale
import os
import pandas as pd
import worker as w

NONE = "~"
TABLES = {"facts": "generate_fact_table_pandas_df", "core": "generate_core_fact_table_pandas_df", "components": "generate_components_as_pandas_df",
          "elements": "generate_report_elements_as_pandas_df", "labels": "generate_labels_as_pandas_df"}
FLAGS = ["match_locale", "allow_mixed", "allow_default", "allow_system_language", "allow_report_language"]
DEFAULTS = dict({p: True for p in FLAGS}, languages=[])


def prefixed(q):
    return q.get_prefix() + ":" + q.get_local_name()


def texts(labels):
    return [{"lang": x.get_language(), "text": x.get_content()} for x in labels]


def element(e):
    r = w.element(e)
    r["name"] = prefixed(e.get_name())
    if r["dimtype"] != NONE:
        r["dimtype"] = r["dimtype"].split("}")[-1]
    return r


def aspect(f, a):
    c = f.get_characteristic(a)
    k = type(c).__name__
    r = {"name": a.get_name(), "labels": texts(a.get_labels()), "k": "text", "texts": [], "value": ""}
    if k in ("ConceptCharacteristic", "ExplicitDimensionCharacteristic"):
        e = c.get_value() if k == "ConceptCharacteristic" else c.get_member()
        return dict(r, k="labelled", texts=texts(e.get_labels()), value=e.get_name().get_local_name())
    return dict(r, k="unit" if k == "UnitCharacteristic" else "text", value=str(c.get_value()))


def content(f, languages):
    return {"elements": [element(e) for e in f.get_all_report_elements()],
            "facts": [{"id": w.s(x.get_id()), "value": w.s(x.get_value_as_str()), "core": all(a.get_name() in w.CORE for a in x.get_aspects()),
                       "aspects": [aspect(x, a) for a in x.get_aspects()]} for x in f.get_all_facts()],
            "components": [{"uri": c.get_URI(), "info": w.s(c.get_info()), "pre": str(c.has_presentation_network()).lower(), "cal": str(c.has_calculation_network()).lower(),
                            "def": str(c.has_definition_network()).lower()} for c in f.get_all_components()],
            "languages": languages}


def given(p, lone):
    """The parameters as keyword arguments; a single language may be given as a plain text."""
    k = {x: p[x] == "true" for x in FLAGS if p[x] != NONE}
    if p["languages"]:
        k["languages"] = p["languages"][0] if lone and len(p["languages"]) == 1 else list(p["languages"])
    return k


def shown(v):
    return prefixed(v) if hasattr(v, "get_local_name") else str(v)


def seen(f, q):
    try:
        m = getattr(f, TABLES[q["arg"]])
        df = m() if q["arg"] == "labels" else m(**given(q["p"], q["lone"]))
    except (KeyError, ValueError):
        return {"k": "refused", "rows": []}
    except Exception as e:
        return {"k": w.crash_text(e), "rows": []}
    if df.columns.has_duplicates:
        return {"k": "two columns of one name", "rows": []}
    rows = [[{"h": h, "v": shown(v)} for h, v in zip(df.columns, row) if not (v is None or v is pd.NA or (isinstance(v, float) and v != v))]
            for row in df.itertuples(index=False, name=None)]
    return {"k": "rows", "rows": rows}


def set_system(lang):
    for k in ("LC_ALL", "LC_CTYPE", "LANG", "LANGUAGE"):
        os.environ.pop(k, None)
    os.environ["LC_ALL"] = "C" if lang == NONE else lang.replace("-", "_") + ".UTF-8"


def do_tables(req):
    before = {k: os.environ.get(k) for k in ("LC_ALL", "LC_CTYPE", "LANG", "LANGUAGE")}
    touched = False
    try:
        set_system(req["system"])
        f = w.Filing.open(req["path"])
        c, out = content(f, req["languages"]), []
        for q in req["steps"]:
            got = {"k": "none", "rows": []}
            if q["op"] == "filing":
                f.set_filing_output_params(**given(q["p"], q["lone"]))
            elif q["op"] == "library":
                touched = True
                w.Filing.set_global_output_params(**given(q["p"], q["lone"]))
            elif q["op"] == "system":
                set_system(q["arg"])
            else:
                got = seen(f, q)
            out.append(got)
        return {"crash": NONE, "content": c, "seen": out}
    except Exception as e:
        return {"crash": w.crash_text(e)}
    finally:
        if touched:
            w.Filing.set_global_output_params(**DEFAULTS)
        for k, v in before.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
