"""python3 rt.py: analyses this crate with the engine of /verif/sa (development tool)."""
import sys, os; H = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(H, "../../sa"); sys.path.insert(0, V)
import pipeline, specrun
pipeline.VERIF = os.path.join(H, ".."); 
import shutil, subprocess
d = pipeline.CACHE + "/dump-rtmodels"; shutil.rmtree(d, ignore_errors=True)
pipeline.VERIF = os.path.join(H, "..", "..")
out = pipeline._export("rtm", "x", ["spec"], ["--manifest-path", os.path.join(H, "Cargo.toml")], H, "RUSTC_WRAPPER", "butte", True, more={"MIRDUMP_FNVALS": "1"})
specrun.HELPERS |= {"spec_require", "spec_assume"}
ok = True
for r in specrun.run(r"good::|bad::", d=out):
    want = "proven" if r["root"].startswith("good") else "violated"
    bad = [(o["detail"], o["status"]) for o in r["obls"] if o["kind"] == "require" and o["status"] != want]
    if want == "violated": bad = bad if not any(o["status"] == want for o in r["obls"]) else []
    if bad or r["error"] or r["panics"] or r["opaque"]: print(r["root"], r["variant"], bad, r["error"], [p["msg"] for p in r["panics"]], r["opaque"])
    else: print(r["root"], r["variant"], "ok")
shutil.rmtree(out, ignore_errors=True)
