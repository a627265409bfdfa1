"""Runtime-library properties decided over the spec roots.

A property selects `require` obligations by root and message, raw-memory
obligations by kind, and panics by root."""
import re
import specrun

MAYPANIC = r"^builder::(misuse::|limit_|required_(zero|past))"
R = r"^reader::"
B = r"^builder::"

# property -> list of selectors (root regex, message regex or None for no requires, panics?, raw?)
SEL = {
    "C01": [(r".", None, False, True)],
    "C02": [(R, None, True, False)],
    "C03": [(r"^reader::(string|table_get_string)$", r".", True, False)],
    "C04": [(r"^reader::(vec::|vector)", r".", True, False)],
    "C05": [(r"^reader::(vtable|table_get|owned_table|skips|forwards|backwards)", r".", True, False), (r"^builder::slots$", r".", True, False)],
    "C06": [(R, r".", False, False)],
    "C07": [(r"^reader::r_", r".", True, False), (r"^builder::(p_|push_bool|push_f|vecs::|tables::)", r"little-endian|reads back|written as 0 or 1|bits|in order", False, False)],
    "C08": [(B + r"(?!misuse|limit_|required|reset|collapse|fin|new_is)", r"reads? back|leads|can be followed|its (bytes|length)|terminat|prefixed|present|absent|well formed|readable|returns the used|returned by push|first string|second string|no fields|in order|not stored|is stored|inline|vtable ends|in front|keeps the location|empty vector of strings", True, False), (B + r"limit_(slot|table_ok)$", r"reads back", False, False)],
    "C09": [(B + r"(?!misuse)", r"untouched|collapse returns|across growth|finished data is all", False, False)],
    "C10": [(B + r"(?!misuse)", r"aligned", False, False)],
    "C11": [(B + r"(?!misuse|limit)", r"padding|zero$|is zero|reset builder|new builder is empty|default builder is empty|after reset", True, False)],
    "C12": [(B + r"(fin::|finish)", r".", True, False), (r"^reader::(root|size_prefixed_root|table_root|identifier)$", r".", True, False)],
    "C13": [(B + r"vtable_", r".", True, False)],
    "C14": [(B + r"(misuse::|required)", r".", True, False)],
    "C15": [(B + r"limit_", r".", False, False)],
}
FLOOR = {  # minimum number of distinct roots that must have been analysed
    "C01": 250, "C02": 55, "C03": 2, "C04": 20, "C05": 10, "C06": 25, "C07": 60, "C08": 120, "C09": 80, "C10": 70, "C11": 60, "C12": 18, "C13": 4, "C14": 20, "C15": 6,
}

def select(prop, res):
    """obligations of the property in the results"""
    out = []
    for r in res:
        for rr, msg, pan, raw in SEL[prop]:
            if not re.search(rr, r["root"]): continue
            for o in r["obls"]:
                if o["kind"] == "require":
                    if msg is not None and re.search(msg, o["detail"]): out.append(dict(o, root=r["root"], variant=r["variant"]))
                elif raw: out.append(dict(o, root=r["root"], variant=r["variant"]))
            if pan and not re.search(MAYPANIC, r["root"]):
                st = "violated"
                for p in r["panics"]:
                    out.append({"kind": "panic-free", "fn": p["fn"], "span": p["span"], "status": "undecided" if p["imprecise"] else "violated",
                                "cond": p["cond"], "detail": "%s: %s" % (p["kind"], p["msg"]), "chain": p["chain"], "witness": p["witness"], "n": p["n"],
                                "root": r["root"], "variant": r["variant"]})
                if not r["panics"]:
                    out.append({"kind": "panic-free", "fn": r["root"], "span": "", "status": "proven" if not r["error"] else "undecided", "cond": "no panic reachable",
                                "detail": "", "chain": [], "n": 1, "root": r["root"], "variant": r["variant"]})
    return out

def keyof(o):
    return "%s|%s|%s|%s" % (o["kind"], o["root"], o["fn"] if o["kind"] != "require" else "", re.sub(r"^assumption.*", "", o["detail"]) if o["kind"] == "require" else o["kind"])
def known(prop, o):
    import check
    return any(f["property"] == prop and re.fullmatch(f["key"], keyof(o)) for f in check.known())

def check(prop):
    pats = "|".join("(?:%s)" % s[0] for s in SEL[prop])
    res = specrun.run(pats)
    obls = select(prop, res)
    # open obligations are decided cell by cell of a partition of the inputs
    ncells = 0
    if not any(o["status"] == "violated" and not known(prop, o) for o in obls):
        opn = sorted({(o["root"], o["variant"]) for o in obls if o["status"] == "undecided"} | {(r["root"], r["variant"]) for r in res if r["error"]}, key=lambda x: (x[1] != "debug", x[0]))
        bad = lambda r: any(o["status"] == "violated" and not known(prop, o) for o in select(prop, [r]))
        if opn:
            cells = specrun.refine(opn, enough=bad)
            ncells = len(cells)
            for r in cells: obls += [dict(o, cell=r["cell"]) for o in select(prop, [r]) if o["status"] == "violated"]
    sel_roots = sorted({o["root"] for o in obls})
    viol = []; seen = set()
    for o in obls:
        if o["status"] != "violated": continue
        k = keyof(o)
        if k in seen: continue
        seen.add(k)
        viol.append({"key": k, "construct": "%s at %s (%s build), analysing client %s%s" % (o["fn"], o["span"], o["variant"], o["root"], " with sizes %s" % o["cell"] if o.get("cell") is not None else ""),
                     "rule": "%s: %s" % (o["kind"], o["detail"] or o["cond"]), "condition": o["cond"], "call_path": o["chain"], "witness": o.get("witness")})
    errs = [r for r in res if r["error"]]
    analysed = {r["root"] for r in res}
    if len(analysed) < FLOOR[prop]:
        viol.append({"key": "coverage", "construct": "/verif/spec", "rule": "only %d of at least %d client programs are there for this property" % (len(analysed), FLOOR[prop]),
                     "condition": "; ".join("%s: %s" % (r["root"], r["error"]) for r in errs[:5]), "call_path": [], "witness": None})
    und = [o for o in obls if o["status"] == "undecided"]
    fns = sorted({f for r in res for f in r["fns"] if not f.startswith(("core::", "alloc::", "std::", "<core", "<alloc"))})
    cov = {"obligations": sum(o["n"] for o in obls), "discharged": sum(o["n"] for o in obls if o["status"] == "proven"),
           "distinct_obligations": len(obls), "undecided": len(und), "client_programs": len(sel_roots), "cells_analysed": ncells, "analysed_roots": len(res),
           "functions_analysed": len(fns), "analysis_errors": ["%s (%s): %s" % (r["root"], r["variant"], r["error"]) for r in errs][:20],
           "samples": [{"root": o["root"], "variant": o["variant"], "rule": o["kind"], "obligation": o["detail"] or o["cond"], "status": o["status"]} for o in (obls[:3] + und[:3])],
           "undecided_samples": [{"root": o["root"], "fn": o["fn"], "obligation": o["detail"] or o["cond"]} for o in und[:10]],
           "functions": fns[:60]}
    return viol, cov
