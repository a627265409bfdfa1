"""C16: effect analysis of the run-time library and of generated code: a call-graph
and static-access rule over the MIR of every function of the butte crate and of
the code generated for the client schemas."""
import os, re, json
import pipeline, genrun, clients

FORBIDDEN = [
    (r"^std::(io|fs|net|process|os)::(?!error::|Error)", "performs input or output"),
    (r"^std::env::", "reads the environment"),
    (r"^std::time::|^core::time::.*now", "reads the clock"),
    (r"^std::thread::|LocalKey", "uses threads or thread-local state"),
    (r"^(std::random|rand|getrandom|fastrand)::", "is random"),
    (r"RandomState|^std::hash::random::|^std::collections::hash_map::.*RandomState", "depends on the random keys of hash tables"),
    (r"^std::sync::|^core::sync::(?!Exclusive)|^core::sync::atomic::|^once_cell::|^lazy_static::|^std::panic::(set_hook|take_hook)", "uses state shared between calls"),
    (r"^std::alloc::(set_|take_)", "changes the allocator"),
]
FORBIDDEN = [(re.compile(p), w) for p, w in FORBIDDEN]
MUTABLE = re.compile(r"\b(Unsafe|Once|Ref|Lazy)?Cell\b|Atomic|Mutex|RwLock|\bOnce|\bLazy|LocalKey|Condvar|\A\*mut")

def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values(): walk(v, f)
    elif isinstance(x, list):
        for v in x: walk(v, f)

def tystr(prog, t):
    """the names of a type and of what it contains"""
    out = []; seen = set()
    def go(t):
        if not isinstance(t, int) or t in seen or t >= len(prog["types"]): return
        seen.add(t); ty = prog["types"][t]
        out.append(str(ty.get("s", "")))
        go(ty.get("elem"))
        for a in ty.get("args") or []: go(a)
        for v in ty.get("variants") or []:
            for f in v["fields"]: go(f[1])
        for f in ty.get("fields") or ty.get("elems") or []:
            go(f)
    go(t)
    return "\n".join(out)

def scan(prog, own):
    """(functions, call sites, static accesses, findings)"""
    fns, sites, stats, bad = set(), 0, 0, []
    for k, b in prog["bodies"].items():
        if not own(b): continue
        fns.add(b["def"])
        calls, statics = [], []
        def see(x):
            o = x.get("orig")
            if isinstance(o, str):
                calls.append((o, x.get("path") or o))
            if isinstance(x.get("static"), str): statics.append((x["static"], x.get("t")))
        walk(b["blocks"], see)
        for o, p in calls:
            sites += 1
            for rx, why in FORBIDDEN:
                if rx.search(o) or rx.search(p): bad.append((b, "calls %s, which %s" % (p, why))); break
        def thread_local(x):
            if isinstance(x, list) and x and x[0] == "tls": bad.append((b, "uses a thread-local variable"))
        for blk in filter(None, b["blocks"]):
            for s in blk.get("s", []):
                if len(s) > 2: thread_local(s[2])
        for s, t in statics:
            stats += 1
            ty = tystr(prog, t) if t is not None else ""
            if MUTABLE.search(ty): bad.append((b, "uses the mutable static %s" % s))
    return fns, sites, stats, bad

def c16():
    viol, seen, samples = [], set(), []
    fns, sites, stats = set(), 0, 0
    progs = []
    d = pipeline.export_repo()
    for v in ("debug", "release"):
        f = os.path.join(d, "butte.%s.json" % v)
        if os.path.exists(f): progs.append(("butte", json.load(open(f)), lambda b: b["krate"] == "butte" and b["local"]))
    undec = []
    for g in ("enums", "unions", "refs"):
        try: gr, gen, dd = genrun.build(g)
        except pipeline.BuildError: undec.append(g); continue
        if dd is None: undec.append(g); continue
        progs.append(("code generated for " + g, json.load(open(os.path.join(dd, gr["name"] + ".debug.json"))), lambda b: b["local"]))
    for what, prog, own in progs:
        a, n, s, bad = scan(prog, own)
        fns |= {"%s: %s" % (what, x) for x in a}; sites += n; stats += s
        for b, why in bad:
            key = "effect|%s|%s" % (b["def"], why)
            if key in seen: continue
            seen.add(key)
            viol.append({"key": key, "construct": "%s at %s %s (%s)" % (b["def"], b["span"], why, what), "rule": "the library and generated code have no effects but on their arguments and no state that outlives a call",
                         "condition": why, "call_path": [b["def"]], "witness": None})
    cov = {"obligations": sites + stats, "discharged": sites + stats - len(viol), "undecided": len(undec), "functions_analysed": len(fns), "call_sites": sites, "static_accesses": stats,
           "rule": "no function of the library or of generated code calls an effectful function of std or touches a mutable or interior mutable static",
           "samples": [{"function": x} for x in sorted(fns)[:5]], "functions": sorted(fns)[:60],
           "explanation": "every call site and every static access of every function of the crate butte (generic functions before monomorphisation) and of the generated code was compared with the rule"}
    return viol, cov
CHECKS = {"C16": c16}
