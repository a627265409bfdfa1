"""Properties of the schema compiler, decided over schema classes.

Every schema class (families.py) is analysed by abstract interpretation of the
compiler's MIR (comp.py): identifiers and documentation texts are abstract,
layout is varied.  What the compiler generates is type checked together with
client programs (clients.py) and analysed by the interpreter of the run-time
library, for all arguments."""
import os, re, itertools, hashlib, json
import pipeline, comprun, schemas, oracle, families as F, genrun, specrun, clients

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"

class Obls:
    def __init__(self, rule): self.l = []; self.fns = set(); self.rule = rule; self.schemas = set()
    def add(self, status, key, construct, rule, condition="", path=(), witness=None, n=1):
        self.l.append({"status": status, "key": key, "construct": construct, "rule": rule, "condition": condition, "call_path": list(path), "witness": witness, "n": n})
    def res(self, r):
        self.fns.update(f for f in r["fns"] if not f.startswith(("core::", "alloc::", "std::", "<core", "<alloc", "<std")))
        self.schemas.add(r["schema"])
    def done(self):
        viol = []; seen = set()
        for o in self.l:
            if o["status"] == "violated" and o["key"] not in seen:
                seen.add(o["key"]); viol.append({k: o[k] for k in ("key", "construct", "rule", "condition", "call_path", "witness")})
        und = [o for o in self.l if o["status"] == "undecided"]
        cov = {"obligations": sum(o["n"] for o in self.l), "discharged": sum(o["n"] for o in self.l if o["status"] == "proven"),
               "undecided": len(und), "schema_classes": len(self.schemas), "functions_analysed": len(self.fns), "rule": self.rule,
               "samples": [{"status": o["status"], "construct": o["construct"][:300], "rule": o["rule"]} for o in self.l[:3] + und[:5]],
               "functions": sorted(self.fns)[:60], "explanation": self.rule}
        return viol, cov

def where(r):
    return r["where"][-1] if r.get("where") else "compile::compile_fbs_generic"
def short(r, n=400):
    s = r["schema"]
    return s if len(s) <= n else s[:n] + "..."
def panic_key(r): return "panic|%s|%s" % (r.get("fn", ""), re.sub(r"\d+", "#", r["why"].split(" at ")[0])[:80])
def add_panic(O, r, prop):
    O.add("violated", panic_key(r), "%s; schema: %s" % (r["why"], short(r)), "compiling never panics", r["why"], r["where"], short(r, 2000))
def und(O, r, key, rule):
    O.add("undecided", key, "schema: %s" % short(r), rule, r["why"], r["where"])

# ------------------------------------------------------------------ families
def good_jobs(layouts=None, names=None):
    return [(n, s, h) for n, s in F.GOOD.items() if names is None or re.search(names, n) for h in (layouts or schemas.LAYOUTS)]
def bad_jobs(layouts=("tight", "cm"), names=None):
    return [(n, s, h) for n, s in F.BAD.items() if names is None or re.search(names, n) for h in layouts]
def mutated_jobs():
    out = []
    for n in F.MUTATED:
        s = F.GOOD[n]
        for kind, fn in (("truncated", F.truncations), ("token deleted", F.deletions), ("token repeated", F.repeats), ("junk inserted", F.junks), ("tokens swapped", F.swaps)):
            out += [("%s, %s" % (n, kind), x, "tight") for x in fn(s)]
    for n in (F.REPLACED if not THOROUGH else [g for g in F.GOOD if len(schemas.lex(F.GOOD[g])) < 150]):
        out += [(n + ", token replaced", x, "tight") for x in F.replaced(F.GOOD[n])]
    for n in F.INSERTED:
        out += [(n + ", token inserted", x, "tight") for x in F.inserted(F.GOOD[n])]
    if THOROUGH:
        for n in F.GOOD:
            if n not in F.MUTATED and len(schemas.lex(F.GOOD[n])) < 150:
                out += [("%s, truncated" % n, x, "sp") for x in F.truncations(F.GOOD[n])] + [("%s, junk inserted" % n, x, "cm") for x in F.junks(F.GOOD[n])]
    return out
def context_jobs(names=None):
    return [(n, schemas.lex(s), "tight") for n, s in F.in_context() if names is None or re.search(names, n)]
def renamed_jobs():
    return [(n + ", identifier replaced", x, "tight") for n, s in F.RENAMED.items() for x in F.renamed(s)]
def judged(O, jobs, bad, good):
    """schemas against the reference recogniser of the language (oracle.py)"""
    sides = {True: [], False: []}
    for j in jobs:
        a = oracle.accepts(j[1])
        if a is not None: sides[a].append(j)
    statuses(O, sides[False], "err", bad)
    statuses(O, sides[True], "ok", good)
def run(jobs, opt=None):
    return comprun.run([(s, h, dict(opt or {})) for _, s, h in jobs])

# ------------------------------------------------------------------ C18
def c18():
    O = Obls("every assertion, bounds check, unwrap, overflow check and explicit panic reachable while compiling a schema class is refuted or reported")
    jobs = good_jobs() + bad_jobs() + mutated_jobs() + renamed_jobs()
    for (n, s, h), r in zip(jobs, run(jobs)):
        O.res(r)
        if r["status"] == "panic": add_panic(O, r, "C18")
        elif r["status"] == "undecided": und(O, r, "und|" + n, "compiling never panics")
        else: O.add("proven", "ok|" + n, "schema class %s (%s)" % (n, h), "compiling never panics")
    growth(O)
    return O.done()

# how the work and the depth of calls grow with the size of the schema
def _structs(n): return "struct S0 { x : int ; y : int ; } " + " ".join("struct S%d { a : S%d ; b : S%d ; }" % (i, i - 1, i - 1) for i in range(1, n))
NESTED = {
    "vector": lambda n: "table T { x : %s int %s ; }" % ("[ " * n, "] " * n),
    "open vector": lambda n: "table T { x : " + "[ " * n,
    "object": lambda n: "{ a : " * n + "1" + " }" * n,
    "open object": lambda n: "{ a : " * n,
    "list": lambda n: "{ a : " + "[ " * n + "1" + " ]" * n + " }",
    "open list": lambda n: "{ a : " + "[ " * n,
    "list of objects": lambda n: "{ a : [ " * n + "1" + " ] }" * n,
    "namespace": lambda n: "namespace " + "a . " * n + "b ; table T { x : int ; }"}
GROWING = {
    "structs of structs": (7, _structs),
    "nested vectors": (24, NESTED["vector"]), "nested objects": (24, NESTED["object"]), "nested lists": (24, NESTED["list"]), "unclosed vectors": (24, NESTED["open vector"]), "unclosed objects": (24, NESTED["open object"]),
    "nested namespaces": (24, NESTED["namespace"]),
    "long path": (24, lambda n: "table T { x : " + "a . " * n + "b ; }"),
    "chain of tables": (16, lambda n: " ".join("table T%d { a : T%d ; }" % (i, i - 1) for i in range(n, 0, -1)) + " table T0 { }"),
    "chain of unions": (10, lambda n: " ".join("table T%d { a : U%d ; } union U%d { T%d , T0 }" % (i, i, i, i - 1) for i in range(n, 0, -1)) + " table T0 { }"),
    "undefined chain": (16, lambda n: " ".join("table T%d { a : T%d ; }" % (i, i - 1) for i in range(n, 0, -1))),
    "unions": (16, lambda n: "table T { } " + " ".join("union U%d { T }" % i for i in range(n)) + " table V { %s }" % " ".join("u%d : U%d ;" % (i, i) for i in range(n))),
    "namespaces": (16, lambda n: " ".join("namespace a%d . b%d ; table T { x : int ; }" % (i % 7, i) for i in range(n))),
    "fields": (24, lambda n: "table T { %s }" % " ".join("f%d : string ;" % i for i in range(n))),
    "variants": (32, lambda n: "enum E : int { %s }" % " , ".join("V%d" % i for i in range(n))),
    "metadata": (24, lambda n: "table T { x : int ( %s ) ; }" % " , ".join("m%d : 1" % i for i in range(n))),
    "methods": (16, lambda n: "table T { } rpc_service S { %s }" % " ".join("m%d ( T ) : T ;" % i for i in range(n)))}
def growth(O):
    jobs = [(k, n * m, f(n * m)) for k, (n, f) in GROWING.items() for m in (1, 2)] + [(k, n, f(n)) for k, f in NESTED.items() for n in (100, 200)]
    R = {(k, n): r for (k, n, s), r in zip(jobs, comprun.run([(s, "sp", {}) for _, _, s in jobs]))}
    for what, items in (("work", [(k, n, 2 * n) for k, (n, _) in GROWING.items()]), ("depth", [(k, 100, 200) for k in NESTED])):
        rule = "the work is polynomial in the size of the schema" if what == "work" else "the depth of calls, and so the stack, does not grow with the nesting of the schema"
        for k, n, m in items:
            a, b = R[k, n], R[k, m]
            O.res(a); O.res(b)
            bad = [r for r in (a, b) if r["status"] == "undecided"]
            if bad: und(O, bad[0], "und|%s|%s" % (what, k), rule); continue
            bad = [r for r in (a, b) if r["status"] == "panic"]
            if bad: add_panic(O, bad[0], "C18"); continue
            good = b[what] <= 9 * a[what] if what == "work" else b[what] <= a[what] + 20
            O.add("proven" if good else "violated", "%s|%s" % (what, k), "%s: %s %d for %d, %d for %d" % (k, what, a[what], n, b[what], m), rule, "", (), short(b, 2000))

# ------------------------------------------------------------------ C19
WRITES = ("write", "create", "rename", "copy", "remove_file", "create_dir", "create_dir_all")
def c19():
    O = Obls("effects of every path: nothing is created or written before the compilation has succeeded, every failing environment operation is an error, all of the generated code reaches the output")
    jobs = bad_jobs(("tight",)) + [j for j in mutated_jobs() if "junk" in j[0] or "truncated" in j[0] or "deleted" in j[0] or "token inserted" in j[0]]
    for (n, s, h), r in zip(jobs, run(jobs)):
        O.res(r)
        junk = "junk inserted" in n or n in F.BAD or oracle.accepts(s) is False
        if r["status"] == "undecided": und(O, r, "und|" + n, "errors leave no output"); continue
        if r["status"] == "panic": continue  # C18
        if r["status"] == "ok":
            if junk: O.add("violated", "accepted|" + n, "schema: %s" % short(r), "input that is not a schema is rejected as a whole: nothing is generated from a part of it", "result is Ok and code is written", (), short(r, 2000))
            else: O.add("proven", "ok|" + n, n, "errors leave no output")
            continue
        w = [e for e in r["events"] if e[0] in WRITES]
        if w: O.add("violated", "output|%s|%s" % (w[0][0], n), "%s at %s; schema: %s" % (w[0][0], w[0][1], short(r)), "a schema in error leaves no output", "the result is an error after the output was touched", [e[1] for e in r["events"]], short(r, 2000))
        else: O.add("proven", "err|" + n, n, "errors leave no output")
    # the same through compile_fbs
    names = ["undefined", "dup_table", "struct", "no_brace", "junk_after", "range_int_hi", "root_enum"]
    jobs = [(n, F.BAD[n], "tight") for n in names]
    for (n, s, h), r in zip(jobs, run(jobs, {"root": "file"})):
        O.res(r)
        if r["status"] in ("undecided", "panic"): und(O, r, "und|file|" + n, "errors leave no output file"); continue
        w = [e for e in r["events"] if e[0] in WRITES]
        if r["status"] == "ok" or w: O.add("violated", "file|" + n, "compile_fbs, %s; schema: %s" % (w[0] if w else "Ok", short(r)), "a schema in error leaves the output file as it was", "", [e[1] for e in r["events"]], short(r))
        else: O.add("proven", "file|" + n, n, "errors leave no output file")
    # every environment operation may fail
    for base in ("tableN", "rpc", "ns3", "union_req"):
        src = F.GOOD[base]
        for opt in ({"ugly": True}, {"ugly": False}, {"root": "file"}):
            r0 = comprun.run([(src, "tight", opt)])[0]; O.res(r0)
            tag = "%s|%s" % (base, "file" if opt.get("root") else "ugly" if opt["ugly"] else "formatted")
            if r0["status"] != "ok": und(O, r0, "und|" + tag, "environment"); continue
            ugly = comprun.run([(src, "tight", {"ugly": True})])[0]
            if not opt.get("ugly"):
                same = r0["fedkey"] == ugly["outkey"] and r0["outkey"] == r0["fedkey"]
                O.add("proven" if same else "violated", "whole|" + tag, "compile::generate, %s" % tag, "what is formatted is the whole generated code and the output is the whole of what the formatter returns", "generated %s, formatted %s, written %s" % (ugly["outkey"], r0["fedkey"], r0["outkey"]))
            writes = [e for e in r0["events"] if e[0] == "write"]
            O.add("proven" if writes and r0["outkey"] else "violated", "written|" + tag, "compile, %s" % tag, "a successful compilation writes its output", "")
            O.add("violated" if r0["unflushed"] else "proven", "flush|" + tag, "compile, %s: the last of %s" % (tag, writes), "the output is flushed: a buffered output reports a failed write only then", "the result is Ok although nothing written needs to have arrived")
            # short writes are legal for io::Write::write
            rs = comprun.run([(src, "tight", dict(opt, short=True))])[0]
            if rs["status"] in ("undecided", "panic"): und(O, rs, "und|short|" + tag, "short writes")
            else:
                good = rs["status"] == "err" or (rs["outkey"] == r0["outkey"] and rs.get("fedkey") == r0.get("fedkey"))
                O.add("proven" if good else "violated", "short|" + tag, "compile, %s: a call of write whose count is not examined" % tag, "all of the code is written, also if the output takes it in parts", "")
            from compmodels import FALLIBLE
            n = len([e for e in r0["events"] if e[0] in FALLIBLE])
            for i in range(n):
                r = comprun.run([(src, "tight", dict(opt, fault=i))])[0]; O.res(r)
                what = r["failed"] or [e for e in r0["events"] if e[0] in FALLIBLE][i][0]
                if r["status"] in ("undecided", "panic") : und(O, r, "und|fault|%s|%s" % (tag, what), "failing " + what); continue
                before = [e for e in r["events"] if e[0] in WRITES and not (what in ("write", "flush"))]
                if r["status"] == "ok": O.add("violated", "fault|%s|%s" % (what, tag), "compile, %s: failing %s" % (tag, what), "a failure of the environment is reported, not ignored", "the result is Ok although %s failed" % what, [e[1] for e in r["events"]])
                elif before: O.add("violated", "early|%s|%s" % (what, tag), "compile, %s: %s before failing %s" % (tag, before[0], what), "the output is only touched once there is something to put there", "", [e[1] for e in r["events"]])
                else: O.add("proven", "fault|%s|%s" % (what, tag), tag, "a failure of %s is reported" % what)
        for ff in ("open", "create", "env"):
            r = comprun.run([(src, "tight", {"root": "file", "fs_fault": ff})])[0]; O.res(r)
            if r["status"] in ("undecided", "panic"): und(O, r, "und|fs|" + ff, "failing " + ff); continue
            used = any(e[0] == ff for e in r["events"]) and not (ff == "create" and r["status"] == "ok")
            if r["status"] == "ok" and ff != "create" and any(e[0] == ff for e in r["events"]): O.add("violated", "fs|" + ff, "compile_fbs: failing " + ff, "a failure of the environment is reported", "")
            else: O.add("proven", "fs|%s|%s" % (ff, base), base, "a failure of %s is reported" % ff)
        r = comprun.run([(src, "tight", {"root": "file"})])[0]
        if r["status"] == "ok":
            p = [x[1] for x in r["paths"] if x[0] == "create"]
            O.add("proven" if p == ["/out/schema.rs"] else "violated", "path|" + base, "compile_fbs writes %s" % p, "the output of compile_fbs is OUT_DIR/<schema>.rs and nothing else", "")
    return O.done()

# ------------------------------------------------------------------ C20
NONDET = re.compile(r"^std::time::|SystemTime|Instant::now|^std::thread::(?!local)|^std::process::id|^rand::|^getrandom|^std::env::(var|args|current|temp|home)|RandomState as .*BuildHasher>::hash_one|^std::ptr::.*addr$|fmt::Pointer|^std::random|^std::net::")
def callees(body):
    out = []
    def walk(x):
        if isinstance(x, dict):
            p = x.get("path") or x.get("orig") or x.get("fpath")
            if isinstance(p, str) and ("callee" in x or "key" in x or "orig" in x or "fpath" in x): out.append((p, x.get("key") or x.get("fkey")))
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(body.get("blocks", body))
    return out
def c20():
    O = Obls("the generated tokens of a schema class are the same for every iteration order of the hash tables, and no function reachable from compile_fbs_generic calls a source of nondeterminism")
    names = [n for n in F.GOOD if not n.startswith("prefix_") and n not in ("union_255", "empty")]
    extra = {"many_ns": " ".join("namespace `n%d` ; table `T%d` { } enum `E%d` : int { `V1` } table `U%d` { t : `T%d` ; }" % (i, i, i, i, i) for i in range(6)),
             "many_nested": "namespace `a` ; table `A` { } namespace `a` . `b` ; table `B` { } union `Ub` { `B` } namespace `a` . `c` ; table `C` { } union `Uc` { `C` } namespace `d` . `e` . `f` ; table `D` { } enum `Ed` : int { `V1` } namespace `a` . `b` . `g` ; table `G` { x : `a` . `b` . `B` ; y : `d` . `e` . `f` . `D` ; }",
             "many_tables": " ".join("table `T%d` { a : `T%d` ; }" % (i, (i + 1) % 7) for i in range(7)) + " root_type `T1` ; root_type `T3` ;",
             "many_meta": "table `Aa` { a : int ( `k1` , `k2` : 3 , `k3` : \"x\" , required , `k4` ) ; b : string ( required , `k1` ) ; }"}
    srcs = dict({n: F.GOOD[n] for n in names}, **extra)
    orders = [None, "rev", "rot"] + (["rot2", "odd"] if THOROUGH else [])
    R = {o: comprun.run([(s, "tight", {"hash": o, "rpc": True}) for s in srcs.values()]) for o in orders}
    for i, n in enumerate(srcs):
        r0 = R[None][i]; O.res(r0)
        if r0["status"] != "ok": und(O, r0, "und|" + n, "deterministic output"); continue
        for o in orders[1:]:
            r = R[o][i]
            if r["status"] in ("undecided", "panic"): und(O, r, "und|%s|%s" % (n, o), "deterministic output"); continue
            same = (r["status"], r["outkey"], r["rpcs"]) == (r0["status"], r0["outkey"], r0["rpcs"])
            O.add("proven" if same else "violated", "order|" + n, "iteration of a hash table at %s; schema: %s" % (", ".join(r["hash_iters"]) or "?", short(r)), "the output does not depend on the iteration order of hash tables", "another order generates other code", (), short(r, 2000))
    # reachable sources of nondeterminism
    d = pipeline.export_build(); prog = json.load(open(os.path.join(d, "butte_build.debug.json")))
    root = [r["key"] for r in prog["roots"] if r["path"].endswith("compile_fbs_generic")]
    seen, work = set(root), list(root); parent = {}
    edges = 0
    while work:
        k = work.pop()
        b = prog["bodies"].get(k)
        if b is None: continue
        own = not re.match(r"<?(core|alloc|std|hashbrown|proc_macro2?|quote|syn|nom|heck)::", b.get("def", k))
        for p, kk in callees(b):
            edges += 1
            if own and NONDET.search(p):
                chain = [k]
                while chain[-1] in parent: chain.append(parent[chain[-1]])
                O.add("violated", "nondet|%s|%s" % (p, b.get("def", k)), "%s calls %s" % (b.get("def", k), p), "nothing reachable from compile_fbs_generic depends on time, environment, addresses or randomness", "", [prog["bodies"][c].get("def", c) if c in prog["bodies"] else c for c in reversed(chain)])
            if kk and kk not in seen and kk in prog["bodies"]: seen.add(kk); parent[kk] = k; work.append(kk)
    O.add("proven", "callgraph", "call graph of compile_fbs_generic: %d functions, %d call sites" % (len(seen), edges), "no source of nondeterminism is reachable", n=max(1, edges))
    return O.done()

# ------------------------------------------------------------------ client groups
def group(O, name, msg, prop):
    """obligations of the clients of a group whose message matches"""
    g, gen = clients.GROUPS[name](), None
    try:
        g, gen, d = genrun.build(name)
    except pipeline.BuildError as e:
        t = str(e)
        m = re.search(r"^.*error.*", t.split("\n", 1)[-1], re.S | re.M)
        O.add("violated", "build|" + name, "generated code of the schemas of %s" % name, "generated code compiles and has the documented interface", (m.group(0) if m else t)[:3000])
        return
    bad = False
    for n, r in sorted(gen.items()):
        O.res(r)
        if r["status"] in ("undecided",): und(O, r, "und|%s|%s" % (name, n), "schema compiles"); bad = True
        elif r["status"] != "ok":
            bad = True
            O.add("violated", "schema|%s|%s" % (name, n), "%s: %s; schema: %s" % (r["status"], r["why"], short(r)), "a schema of the supported language compiles", r["why"], r["where"], short(r, 2000))
        else: O.add("proven", "schema|%s|%s" % (name, n), "schema class %s" % n, "a schema of the supported language compiles")
    if bad: return
    opn = []; hit = False
    for r in specrun.run(r"^c_", d=d, crate=g["name"], variants=("debug",)):
        O.fns.update(f for f in r["fns"] if not f.startswith(("core::", "alloc::", "std::", "<core", "<alloc", "<std")))
        if r["error"]: O.add("undecided", "und|%s|%s" % (name, r["root"]), r["root"], "client analysed", r["error"])
        st = clients_of(O, name, r, msg)
        if r["error"] or "undecided" in st: opn.append((r["root"], "debug"))
        hit = hit or "violated" in st
    if opn and not hit:
        # what is left open is decided cell by cell of a partition of the inputs
        def bad(r): return "violated" in clients_of(Obls(""), name, r, msg)
        for r in specrun.refine(opn, d=d, crate=g["name"], limit=120, enough=bad): clients_of(O, name, r, msg, True)

def clients_of(O, name, r, msg, only=False):
    """records the obligations of a client; their statuses"""
    st = set(); at = " with sizes %s" % r["cell"] if r.get("cell") is not None else ""
    for o in r["obls"]:
        if o["kind"] != "require" or not re.search(msg, o["detail"]): continue
        st.add(o["status"])
        if only and o["status"] != "violated": continue
        O.add(o["status"], "%s|%s|%s" % (name, r["root"], o["detail"]), "client %s of the generated code%s: %s" % (r["root"], at, o["detail"]), o["detail"], o["cond"], o["chain"], o.get("witness"), o["n"])
    for p in r["panics"]:
        st.add("undecided" if p["imprecise"] else "violated")
        if p["imprecise"]:
            if not only: O.add("undecided", "und|panic|%s" % r["root"], "%s in %s" % (p["msg"], p["fn"]), "clients do not panic", p["cond"])
        else: O.add("violated", "panic|%s|%s" % (name, p["fn"]), "%s at %s in client %s%s" % (p["msg"], p["span"], r["root"], at), "generated code does not panic when used as documented", p["cond"], p["chain"], p["witness"])
    return st

def statuses(O, jobs, want, rule, opt=None):
    for (n, s, h), r in zip(jobs, run(jobs, opt)):
        O.res(r)
        if r["status"] == "undecided": und(O, r, "und|" + n, rule)
        elif r["status"] == "panic": add_panic(O, r, "") if want == "ok" else O.add("undecided", "und|" + n, short(r), rule, r["why"])
        elif r["status"] != want: O.add("violated", "%s|%s" % (want, n), "%s (%s): %s %s; schema: %s" % (n, h, r["status"], r["why"], short(r)), rule, r["why"], (), short(r, 2000))
        else: O.add("proven", "%s|%s" % (want, n), "%s (%s)" % (n, h), rule)

SLOT = r"[Ss]lots? (of|read)|is slot|takes the slot|in the slot after"
def c21():
    O = Obls("for all field values: what create is given is what the accessors return; defaults, absence and required fields are as declared")
    for g in ("scalars", "refs", "slots"): group(O, g, r"^(?!.*(?:%s))" % SLOT, "C21")
    group(O, "enums", r"reads? back|default", "C21"); group(O, "unions", r"reads? back", "C21")
    statuses(O, bad_jobs(("tight",), r"default|range_(?!.*enum)|huge|dup_field|dup_union_type|vec_of"), "err", "a field that cannot have its declared default or cannot be generated is rejected")
    return O.done()
def c22():
    O = Obls("for all field values: field i is stored in slot 4 + 2 i, a union takes two slots, in the order of declaration")
    for g in ("scalars", "refs", "unions", "slots"): group(O, g, SLOT, "C22")
    return O.done()
def c23():
    O = Obls("for all integers: a variant is its declared or next value, every other integer is rejected; stored with the base type")
    group(O, "enums", r".", "C23")
    statuses(O, bad_jobs(("tight",), r"enum"), "err", "an enum that cannot be represented is rejected")
    return O.done()
def c24():
    O = Obls("for all kinds and values: kind and value select the variant, None and absence give nothing, unknown kinds are errors")
    group(O, "unions", r".", "C24")
    statuses(O, bad_jobs(("tight",), r"union"), "err", "a union that cannot be represented is rejected")
    statuses(O, good_jobs(("tight",), r"union"), "ok", "a union of tables compiles")
    return O.done()

# ------------------------------------------------------------------ C25
def items(out):
    """the items of generated code, as a canonical multiset"""
    t = out.split(" "); i = 0
    def parse(i, end):
        l = []; start = i; d = 0
        while i < len(t):
            if d == 0 and t[i] == "}" and end: return sorted(l), i
            if d == 0 and t[i:i + 2] == ["pub", "mod"]:
                x, j = parse(i + 4, True); l.append(("mod", t[i + 2], tuple(x))); i = j + 1; start = i; continue
            if t[i] in "({[" : d += 1
            elif t[i] in ")}]":
                d -= 1
                if d == 0 and t[i] == "}": l.append(("item", " ".join(t[start:i + 1]), ())); start = i + 1
            elif t[i] == ";" and d == 0: l.append(("item", " ".join(t[start:i + 1]), ())); start = i + 1
            i += 1
        if start < len(t) and " ".join(t[start:]).strip(): l.append(("item", " ".join(t[start:]), ()))
        return sorted(l), i
    return parse(0, False)[0]

ORDERS = {  # declarations that may come in any order
    "mixed": ["table `Aa` { b : `Bb` ; e : `Ee` = `V2` ; u : `Uu` ; }", "table `Bb` { c : [ `Cc` ] ; u : `Uu` ; }", "union `Uu` { `Bb` , `Cc` }", "enum `Ee` : byte { `V1` , `V2` }", "table `Cc` { a : `Aa` ; }"],
    "root_rpc": ["root_type `Aa` ;", "table `Aa` { e : [ `Ee` ] ; }", "rpc_service `Ss` { `Mm` ( `Aa` ) : `Bb` ; }", "table `Bb` { a : `Aa` ( required ) ; }", "enum `Ee` : ulong { `V1` }"],
    "unions": ["union `U1` { `Aa` }", "union `U2` { `Bb` , `Aa` }", "table `Aa` { x : `U2` ; }", "table `Bb` { y : `U1` ( required ) ; z : `U2` ; }"],
    "spaces": ["namespace `n1` ; table `Aa` { b : `n2` . `Bb` ; e : `n3` . `Ee` = `V2` ; }", "namespace `n2` ; table `Bb` { c : [ `n1` . `Aa` ] ; u : `n3` . `Uu` ; }", "namespace `n3` ; enum `Ee` : byte { `V1` , `V2` }", "namespace `n3` ; union `Uu` { `Cc` }", "namespace `n3` ; table `Cc` { a : `n1` . `Aa` ; }"],
}
def c25():
    O = Obls("references resolve to the type of that name in that namespace, whatever the order of the declarations; undefined and ambiguous names are rejected")
    group(O, "namespaces", r".", "C25")
    statuses(O, bad_jobs(("tight",), r"^(undefined|dup_|root_|rpc_|struct|union_of|ns)"), "err", "undefined, duplicate and misused names are rejected")
    judged(O, renamed_jobs() + context_jobs(r"^(undefined|dup_|root_|rpc_|struct|union_of|ns)"), "undefined, duplicate and misused names are rejected", "names of declared types are accepted")
    for n, ds in ORDERS.items():
        ps = list(itertools.permutations(range(len(ds))))
        if not THOROUGH and len(ps) > 40: ps = ps[:1] + [p for i, p in enumerate(ps) if i % 4 == 3][:30] + ps[-1:]
        R = comprun.run([(" ".join(ds[i] for i in p), "tight", {"want_out": True, "rpc": True}) for p in ps])
        ref = None
        for p, r in zip(ps, R):
            O.res(r)
            if r["status"] in ("undecided",): und(O, r, "und|%s" % n, "order of declarations"); continue
            if r["status"] != "ok":
                O.add("violated", "order|%s|rejected" % n, "%s %s; schema: %s" % (r["status"], r["why"], short(r)), "declarations may come in any order", r["why"], (), short(r, 2000)); continue
            k = (items(re.sub(r"\bRPC\d+ ?", "", r["out"]).strip()), sorted(json.dumps(x) for x in r["rpcs"]))
            if ref is None: ref = k
            if k != ref: O.add("violated", "order|%s|differs" % n, "schema: %s" % short(r), "the order of declarations does not change what is generated for them", "", (), short(r, 2000))
            else: O.add("proven", "order|%s" % n, "%s, order %s" % (n, p), "the order of declarations does not change what is generated for them")
    return O.done()

def c26():
    O = Obls("schemas using Rust keywords and names of generated items as identifiers in every position generate code that compiles and behaves alike")
    group(O, "names", r".", "C26")
    return O.done()

# ------------------------------------------------------------------ C27
def c27():
    O = Obls("a schema of the grammar compiles to the same code in every layout; identifiers that begin like literals or keywords are identifiers; what is not of the grammar is rejected")
    jobs = good_jobs()
    ref = {}
    for (n, s, h), r in zip(jobs, run(jobs)):
        O.res(r)
        if r["status"] == "undecided": und(O, r, "und|" + n, "schemas of the grammar compile"); continue
        if r["status"] == "panic": O.add("undecided", "und|" + n, short(r), "compiles", r["why"]); continue
        if r["status"] != "ok": O.add("violated", "ok|" + n, "%s (%s): %s; schema: %s" % (n, h, r["why"], short(r)), "a schema of the grammar compiles in every layout", r["why"], (), short(r, 2000)); continue
        k = ref.setdefault(n, (r["outkey"], h))
        if k[0] != r["outkey"]: O.add("violated", "layout|" + n, "%s: layouts %s and %s; schema: %s" % (n, k[1], h, short(r)), "layout and comments do not change the generated code", "", (), short(r, 2000))
        else: O.add("proven", "layout|" + n, "%s (%s)" % (n, h), "compiles, the same in every layout")
    statuses(O, bad_jobs(("tight", "sp", "cm")), "err", "what is not of the supported language is rejected")
    # neighbours of schemas, against the reference recogniser of the language (oracle.py)
    judged(O, mutated_jobs() + context_jobs(), "a token sequence that is not of the language is rejected", "a token sequence of the language compiles")
    return O.done()

# ------------------------------------------------------------------ C28
STR = r'"((?:[^"\\]|\\.)*)"'
ATTR = r'# \[ (?:[^\[\]"]|\[[^\[\]]*\]|"(?:[^"\\]|\\.)*")*\]'
def docs_of(out, item):
    """for every occurrence of the item (a regex at an item start): the documentation lines in front of it"""
    res = []
    for m in re.finditer(r"((?:%s )*)(%s)" % (ATTR, item), out):
        if m.start() and out[m.start() - 1] != " ": continue
        res.append([eval('"' + x + '"') for x in re.findall(r'# \[ doc = ' + STR + r' \]', m.group(1))])
    return res
def c28():
    O = Obls("every documentation line of the schema is attached, in order and unchanged, to the items generated for what it documents, and to nothing else")
    T = {"Aa": [" first", " second \"quoted\" \\ back", "", "   indented"], "f1": [" field", "", " with lines"], "f2": [" union field", " more"], "f3": [" required union"], "f4": [" str"], "Ee": [" enum"], "V1": [" variant one", " of ones", "!"], "V3": [" variant three", " twice"], "Uu": [" a union"], "Bb": [" variant of a union", " of two", "", " or four lines"], "Cc": [" tab"], "svc": [" service", " two"], "m1": [" method", "  in lines"]}
    doc = lambda k: "".join("///%s\n" % x for x in T[k])
    src = (doc("Aa") + "table `Aa` { " + doc("f1") + "`f1` : int = 3 ; f0 : int ; " + doc("f2") + "`f2` : `Uu` ; " + doc("f3") + "f3 : `Uu` ( required ) ; " + doc("f4") + "f4 : string ( required ) ; f5 : [ int ] ; } "
        + doc("Ee") + "enum `Ee` : int { " + doc("V1") + "`V1` , `V2` , " + doc("V3") + "`V3` = 7 } " + doc("Uu") + "union `Uu` { " + doc("Bb") + "`Bb` , `Cc` } table `Bb` { } " + doc("Cc") + "table `Cc` { } enum `Ff` : int { `V1` } "
        + doc("svc") + "rpc_service `Svc` { " + doc("m1") + "`M1` ( `Bb` ) : `Cc` ; `M2` ( `Bb` ) : `Cc` ; }")
    want = [("pub struct Aa ", T["Aa"]), ("pub fn f1 ", T["f1"]), ("pub fn f0 ", []), ("pub fn f2 ", T["f2"]), ("pub fn f3 ", T["f3"]), ("pub fn f4 ", T["f4"]), ("pub fn f5 ", []), ("pub enum Ee ", T["Ee"]), ("pub enum Uu ", T["Uu"]), ("pub struct Bb ", []), ("pub struct Cc ", T["Cc"]), ("pub enum Ff ", [])]
    variants = [("Ee", "V1", T["V1"]), ("Ee", "V2", []), ("Ee", "V3", T["V3"]), ("Uu", "Bb", T["Bb"]), ("Uu", "Cc", []), ("Ff", "V1", [])]
    anys = "///~1\ntable `Aa` { ///~2\n///~3\n`f1` : int ; `f2` : int ; } ///~4\n///~5\nenum `Ee` : int { ///~6\n`V1` , `V2` } ///~7\nunion `Uu` { ///~8\n///~9\n`Aa` }"
    special = ["", " ", "/", "//", "/ x", "//////////////", "/!", "!", "! x", "*", "*/", "/*", "#", "\t", " \t x", "\"", "\\", "\\n \\\"", "{", "}", ";", "'", "\u00e9 \u4e2d", " // no comment", " /// nothing", " table X { }", "0", "-", "[", "(required)", "a" * 300, " a" * 200]
    sps = []
    for i, t in enumerate(special):
        # the only line, the first and the last of several, of every kind of item
        for w, ls in (("only", [t]), ("first", [t, " more"]), ("last", [" more", t])):
            d = "".join("///%s\n" % x for x in ls)
            sp = d + "table `Aa` { " + d + "f1 : int ; f0 : int ; } " + d + "enum `Ee` : int { " + d + "`V1` , `V2` } " + d + "union `Uu` { " + d + "`Aa` } "
            sps.append((i, t, ls, sp))
    for n in (2, 9, 70, 300):       # many lines
        ls = [" line %d" % i for i in range(n)]; d = "".join("///%s\n" % x for x in ls)
        sps.append((-n, "%d lines" % n, ls, d + "table `Aa` { " + d + "f1 : int ; f0 : int ; } " + d + "enum `Ee` : int { " + d + "`V1` , `V2` } " + d + "union `Uu` { " + d + "`Aa` }"))
    for (i, t, ls, sp), r in zip(sps, comprun.run([(x[3], "tight", {"want_out": True}) for x in sps])):
            O.res(r)
            if r["status"] in ("undecided", "panic"): und(O, r, "und|special|%d" % i, "documentation"); continue
            if r["status"] != "ok": O.add("violated", "special|rejected", "documentation text %r: %s; schema: %s" % (t, r["why"], short(r)), "documented schemas compile", r["why"]); continue
            for it, e in (("pub struct Aa ", ls), ("pub fn f1 ", ls), ("pub fn f0 ", []), ("pub enum Ee ", ls), ("pub enum Uu ", ls)):
                got = docs_of(r["out"], it)
                if not got: O.add("undecided", "und|special|" + it, "no item `%s`" % it, "documentation"); continue
                good = len(got) == 1 and [x.rstrip() for x in got[0]] == [x.rstrip() for x in e]
                O.add("proven" if good else "violated", "special|" + it, "documentation of `%s` is %s, the schema has %s" % (it, got, e), "documentation is carried over to the item it documents", "", (), short(r, 2000))
    for lay in ("tight", "sp", "cm", "crlf"):
        r = comprun.run([(src, lay, {"want_out": True, "rpc": True})])[0]; O.res(r)
        if r["status"] in ("undecided", "panic"): und(O, r, "und|docs|" + lay, "documentation"); continue
        if r["status"] != "ok": O.add("violated", "docs|rejected", "%s; schema: %s" % (r["why"], short(r)), "documented schemas compile", r["why"]); continue
        for it, ls in want:
            got = docs_of(r["out"], it)
            good = len(got) == 1 and [x.rstrip() for x in got[0]] == [x.rstrip() for x in ls]
            if not got: O.add("undecided", "und|docs|" + it, "no item `%s`" % it, "documentation"); continue
            O.add("proven" if good else "violated", "docs|" + it, "documentation of `%s` is %s, the schema has %s (%s)" % (it, got, ls, lay), "documentation is carried over to the item it documents", "", (), short(r, 2000))
        for en, v, ls in variants:
            m = re.search(r"pub enum %s (?:< 'a > )?\{ (.*?) \} *(?:impl|#|pub|$)" % en, r["out"])
            if not m: O.add("undecided", "und|docs|" + en, "no enum", "documentation"); continue
            got = docs_of(m.group(1), v + r"(?= [=(,}]|$)")
            good = len(got) >= 1 and [x.rstrip() for x in got[0]] == [x.rstrip() for x in ls]
            O.add("proven" if good else "violated", "docs|%s::%s" % (en, v), "documentation of %s::%s is %s, the schema has %s (%s)" % (en, v, got, ls, lay), "documentation is carried over to the variant it documents", "", (), short(r, 2000))
        for q in r["rpcs"]:
            try: ds = [("svc", q["doc"]["lines"])] + [("m1" if i == 0 else None, m["doc"]["lines"]) for i, m in enumerate(q["methods"])]
            except (KeyError, TypeError): O.add("undecided", "und|docs|rpc", "interface of the rpc generator", "documentation"); continue
            for k, ls in ds:
                good = [x.rstrip() for x in ls] == [x.rstrip() for x in (T[k] if k else [])]
                O.add("proven" if good else "violated", "docs|rpc|%s" % k, "documentation %s of a service or method, the schema has %s (%s)" % (ls, T.get(k, []), lay), "documentation of services and methods is carried over", "", (), short(r, 2000))
        # arbitrary texts
        r = comprun.run([(anys, lay, {"want_out": True})])[0]; O.res(r)
        if r["status"] in ("undecided", "panic"): und(O, r, "und|docs_any|" + lay, "documentation"); continue
        if r["status"] != "ok": O.add("violated", "docs_any|rejected", "%s; schema: %s" % (r["why"], short(r)), "documented schemas compile", r["why"]); continue
        for it, ls in (("pub struct Aa ", [1]), ("pub fn f1 ", [2, 3]), ("pub fn f2 ", []), ("pub enum Ee ", [4, 5]), ("pub enum Uu ", [7])):
            got = docs_of(r["out"], it); exp = [" any text%d" % i for i in ls]
            if not got: O.add("undecided", "und|docs_any|" + it, "no item", "documentation"); continue
            O.add("proven" if got == [exp] else "violated", "docs_any|" + it, "documentation of `%s` is %s, the schema has %s (%s)" % (it, got, exp, lay), "any documentation text is carried over unchanged", "", (), short(r, 2000))
    return O.done()

# ------------------------------------------------------------------ C29
def c29():
    O = Obls("the rpc generator is called once per service, in order, with the names, resolved types, streaming modes of its methods; without one, services generate nothing")
    P = lambda q: [x["raw"] for x in q["parts"]]
    src = ("table `Rq` { } table `Rs` { } /// the service\n///  in lines\nrpc_service `Svc` { /// first\n/// of all\n`MethodOne` ( `Rq` ) : `Rs` ; `methodTwo` ( `Rs` ) : `Rq` ( streaming : \"server\" ) ; `Three` ( `Rq` ) : `Rq` ( streaming : \"client\" , `other` ) ; /// four\n`Four` ( `Rs` ) : `Rs` ( `zz` : 5 , streaming : \"bidi\" ) ; `Five` ( `nn` . `Rq` ) : `nn` . `mm` . `Far` ( `idempotent` ) ; } "
        "namespace `nn` ; table `Rq` { } rpc_service `Svc` { `One` ( `Rq` ) : `nn` . `mm` . `Far` ; } /// another\nrpc_service `Two` { `Zz` ( `Rq` ) : `Rq` ; } namespace `nn` . `mm` ; table `Far` { }")
    want = {("Svc",): [("MethodOne", "method_one", ["Rq"], ["Rs"], "None"), ("methodTwo", "method_two", ["Rs"], ["Rq"], "Server"), ("Three", "three", ["Rq"], ["Rq"], "Client"), ("Four", "four", ["Rs"], ["Rs"], "Bidi"), ("Five", "five", ["nn", "Rq"], ["nn", "mm", "Far"], "None")],
            ("nn", "Svc"): [("One", "one", ["nn", "Rq"], ["nn", "mm", "Far"], "None")], ("nn", "Two"): [("Zz", "zz", ["nn", "Rq"], ["nn", "Rq"], "None")]}
    for lay in ("tight", "sp", "cm"):
        r = comprun.run([(src, lay, {"want_out": True, "rpc": True})])[0]; O.res(r)
        if r["status"] in ("undecided", "panic"): und(O, r, "und|" + lay, "services"); continue
        if r["status"] != "ok": O.add("violated", "rejected", "%s; schema: %s" % (r["why"], short(r)), "services of declared tables compile", r["why"], (), short(r)); continue
        try: got = [(tuple(P(q["ident"])), [(m["ident"]["raw"], m["snake_ident"]["raw"], P(m["request_type"]), P(m["response_type"]), m["metadata"]["streaming"]["v"]) for m in q["methods"]]) for q in r["rpcs"]]
        except (KeyError, TypeError): O.add("undecided", "und|interface", "the interface of the rpc generator has changed", "services"); continue
        names = [k for k, _ in got]
        docs = {("Svc",): ([" the service", "  in lines"], [[" first", " of all"], [], [], [" four"], []]), ("nn", "Svc"): ([], [[]]), ("nn", "Two"): ([" another"], [[]])}
        rs = lambda c: [x.rstrip() for x in c["lines"]]
        try: gd = {tuple(P(q["ident"])): (rs(q["doc"]), [rs(m["doc"]) for m in q["methods"]]) for q in r["rpcs"]}
        except (KeyError, TypeError): O.add("undecided", "und|docs", "the interface of the rpc generator has changed", "services"); continue
        for k, d in docs.items():
            O.add("proven" if gd.get(k) == d else "violated", "docs|" + ".".join(k), "documentation of %s and its methods: %s, the schema has %s" % (".".join(k), gd.get(k), d), "services and methods are passed with their documentation", "", (), short(r, 2000))
        O.add("proven" if sorted(names) == sorted(want) else "violated", "services", "services passed to the generator: %s (%s)" % (names, lay), "the generator is called exactly once for every service", "", (), short(r, 2000))
        inner = [k for k in names if k[0] == "nn"]
        O.add("proven" if inner == [("nn", "Svc"), ("nn", "Two")] else "violated", "order", "services of a namespace: %s" % inner, "services are passed in the order of declaration", "", (), short(r, 2000))
        for k, ms in got:
            w = want.get(k, [])
            for i in range(max(len(ms), len(w))):
                a, b = ms[i] if i < len(ms) else None, w[i] if i < len(w) else None
                O.add("proven" if a == b else "violated", "method|%s|%d" % (".".join(k), i), "method %d of %s: %s, the schema has %s" % (i, ".".join(k), a, b), "methods are passed with their names, resolved types and streaming, in order", "", (), short(r, 2000))
        # what the generator appends ends up in the module of the service, once
        toks = re.findall(r"\bRPC\d+\b", r["out"])
        O.add("proven" if sorted(toks) == ["RPC1", "RPC2", "RPC3"] else "violated", "tokens", "tokens of the generator in the output: %s" % toks, "what the generator emits is part of the output exactly once", "", (), short(r, 2000))
        m = re.search(r"pub mod nn \{(.*)\}", r["out"])
        if m:
            nn = {"RPC%d" % (i + 1) for i, k in enumerate(names) if k[0] == "nn"}
            good = set(re.findall(r"\bRPC\d+\b", m.group(1))) == nn
            O.add("proven" if good else "violated", "module", "tokens in the module of nn: %s" % sorted(set(re.findall(r"RPC\d+", m.group(1)))), "what the generator emits is in the module of the service's namespace", "", (), short(r, 2000))
        r2 = comprun.run([(src, lay, {"want_out": True})])[0]
        if r2["status"] == "ok":
            good = items(re.sub(r"\bRPC\d+ ?", "", r["out"]).strip()) == items(r2["out"].strip())
            O.add("proven" if good else "violated", "nogen", "output with and without a generator", "services do not change what is generated for types", "", (), short(r2, 2000))
        elif r2["status"] == "err": O.add("violated", "nogen|rejected", r2["why"], "services compile without a generator", r2["why"], (), short(r2))
        else: und(O, r2, "und|nogen", "services")
    # many methods and services; types of the same name in different namespaces
    SAME = ["`Rq` ) : `nn` . `Rq`", "`nn` . `Rq` ) : `Rq`", "`nn` . `Rq` ) : `nn` . `mm` . `Rq`", "`nn` . `mm` . `Rq` ) : `nn` . `Rq`", "`nn` . `Rq` ) : `nn` . `Rq`"]
    T3 = {"`Rq`": ["Rq"], "`nn` . `Rq`": ["nn", "Rq"], "`nn` . `mm` . `Rq`": ["nn", "mm", "Rq"]}
    MODES = [("", "None"), (' ( streaming : "server" )', "Server"), (' ( streaming : "client" )', "Client"), (' ( streaming : "bidi" )', "Bidi")]
    sz = [(1, 300), (60, 3), (2, 20)]
    for ns, nm in sz:
        decl, exp = [], []
        for a in range(ns):
            ms = [("M%dx%d" % (a, i), SAME[(a + i) % 5], MODES[(a + i) % 4]) for i in range(nm)]
            decl.append("rpc_service S%d { %s }" % (a, " ".join("%s ( %s%s ;" % (m, t, md[0]) for m, t, md in ms)))
            exp.append((["S%d" % a], [(m, T3[t.split(" ) : ")[0]], T3[t.split(" ) : ")[1]], md[1]) for m, t, md in ms]))
        big = "table `Rq` { } " + " ".join(decl) + " namespace `nn` ; table `Rq` { } namespace `nn` . `mm` ; table `Rq` { }"
        r = comprun.run([(big, "tight", {"want_out": True, "rpc": True})])[0]; O.res(r)
        w = "%d services of %d methods" % (ns, nm)
        if r["status"] in ("undecided", "panic"): und(O, r, "und|many", "services"); continue
        if r["status"] != "ok": O.add("violated", "many|rejected", "%s: %s" % (w, r["why"]), "services of declared tables compile", r["why"], (), short(r)); continue
        try: got = [(P(q["ident"]), [(m["ident"]["raw"], P(m["request_type"]), P(m["response_type"]), m["metadata"]["streaming"]["v"]) for m in q["methods"]]) for q in r["rpcs"]]
        except (KeyError, TypeError): O.add("undecided", "und|interface", "the interface of the rpc generator has changed", "services"); continue
        d = next((("service %s" % (g[0] if g else None), [x for x in zip(g[1] if g else [], e[1] if e else []) if x[0] != x[1]][:2], "%s of %s methods" % (len(g[1]) if g else 0, len(e[1]) if e else 0)) for g, e in itertools.zip_longest(got, exp) if g != e), None)
        O.add("proven" if got == exp else "violated", "many|" + w, "%s: %s" % (w, d or "all passed in order"), "every service and method is passed, in order, with its resolved types and streaming", "", (), short(r, 2000))
    statuses(O, bad_jobs(("tight",), r"rpc"), "err", "a service of undeclared types, of other types than tables or of unknown streaming is rejected")
    return O.done()

def c30():
    O = Obls("for every byte string: an accessor returns what the slot of the root table holds (as Table::get reads it), the declared default, nothing, or the error; it never panics")
    group(O, "hostile", r".", "C30")
    return O.done()

CHECKS = {"C30": c30, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27, "C28": c28, "C29": c29}
