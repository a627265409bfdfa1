"""writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; CH = []; NA = []
ABS = "abstract interpretation of MIR (polyhedra, segmented buffers)"
TB = ("Holds for every input of the analysed client programs, not for sampled ones. Trusts rustc's MIR, the exporter in /verif/driver, the engine and its "
      "models of core/alloc in /verif/sa; 64-bit little-endian target; obligations the domain cannot decide are counted as undecided in the evidence and are quiet.")
def p(id, title, statement, over, text, why, files, mech, claim=True, technique=ABS, level="proof", note=TB, na=None, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": state or [], "observe_at": observe or [], "hook_needed": None}})
    if na: NA.append({"property": id, "reason": na})
    else: CH.append({"property": id, "quick_cmd": "python3 sa/check.py %s" % id, "thorough_cmd": "VERIF_TIER=thorough python3 sa/check.py %s" % id,
                     "technique": technique, "level": level, "level_note": note})
exec(open(os.path.join(V, "tools", "proptable.py")).read())
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
json.dump({"version": 1, "setup_cmd": "python3 sa/setup.py",
           "checks": CH, "not_applicable": NA,
           "notes": "All checks read /repo's current tree, export MIR with a rustc driver and decide statically; nothing of butte is executed."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(CH), "claimed")
