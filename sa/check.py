"""check.py <property>: decides one property on /repo's current tree."""
import sys, os, json, time, re, hashlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import pipeline

VERIF = pipeline.VERIF
KF = os.path.join(VERIF, "known-findings.json")

def engines():
    import runtime
    E = {p: (lambda p=p: runtime.check(p)) for p in runtime.SEL}
    try:
        import effects
        E.update(effects.CHECKS)
    except ImportError: pass
    try:
        import witnesses
        E.update(witnesses.CHECKS)
    except ImportError: pass
    try:
        import compiler
        E.update(compiler.CHECKS)
    except ImportError: pass
    return E

def known():
    try: d = json.load(open(KF))
    except FileNotFoundError: return []
    return [f for f in d["findings"] if f.get("status", "known") == "known"]

def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json"))) if os.path.exists(os.path.join(VERIF, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "other")
    assumptions = []
    try:
        try: viol, cov = engines()[prop]()
        except (pipeline.BuildError, KeyboardInterrupt): raise
        except Exception as e:
            # the code has a form the analysis does not understand: nothing is claimed about it
            traceback.print_exc()
            viol, cov = [], {"obligations": 1, "discharged": 0, "undecided": 1, "explanation": "the analysis could not be completed: %s: %s" % (type(e).__name__, e)}
    except pipeline.BuildError as e:
        viol = [{"key": "build", "construct": "/repo", "rule": "the analysed program must compile: the public interface the property is stated over is missing or changed",
                 "condition": str(e)[-3000:], "call_path": [], "witness": None}]
        cov = {"obligations": 1, "discharged": 0}
    kn = [f for f in known() if f["property"] == prop]
    fresh = []
    for v in viol:
        hit = next((f for f in kn if re.fullmatch(f["key"], v["key"])), None)
        if hit: hit["_hit"] = True
        else: fresh.append(v)
    for f in kn:
        if f.get("_hit"): print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if "obligations" in cov:
        cov.setdefault("checker_cmd", "python3 sa/check.py %s" % prop)
        cov.setdefault("trusted_base", ["rustc nightly front end and MIR construction", "/verif/driver (MIR exporter)", "/verif/sa (abstract interpreter, models of core/alloc functions)", "statements of the obligations in /verif/spec and /verif/sa"])
    cov.setdefault("explanation", "static analysis of /repo's current source; see DESIGN.md")
    cov.setdefault("samples", [])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    rep = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rep, exist_ok=True)
    for v in fresh:
        p = os.path.join(rep, "%s-%s.json" % (prop, hashlib.sha256(v["key"].encode()).hexdigest()[:10]))
        json.dump(v, open(p, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  %s\n  rule: %s\n  key: %s" % (v["construct"], v["rule"], v["key"]))
        if v.get("condition"): print("  condition: %s" % str(v["condition"])[:400])
        if v.get("witness"): print("  member of the abstract state: %s" % (str(v["witness"])[:400]))
    if not fresh:
        print("OK property=%s %s" % (prop, {k: v for k, v in cov.items() if isinstance(v, (int, bool))}))
    return 1 if fresh else 0

if __name__ == "__main__":
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
