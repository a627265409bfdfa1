"""C17: compile-fail witnesses.  Every witness is a program that would use data
beyond the life of its buffer, or change a buffer somebody is looking at; it must
be rejected by the borrow checker or type checker.  Its twin, the same program
without the fault, must compile, so that a witness does not fail for another reason."""
import os, re, json, shutil, hashlib
import pipeline, comprun

SCHEMA = "table `Aa` { s : string ; v : [ int ] ; n : `Aa` ; u : `Uu` ; e : `Ee` ; b : [ ubyte ] ; w : [ string ] ; t : [ `Aa` ] ; r : string ( required ) ; } enum `Ee` : byte { `X1` } union `Uu` { `Aa` , `Bb` } table `Bb` { x : int ; }"

# name: (kind, code with @..@ marking the fault, replacement in the twin, error codes)
W = {}
def w(name, kind, bad, good, codes, gen=False): W[name] = (kind, bad, good, codes, gen)
LIFE = "a result that borrows a buffer cannot outlive it"
def life(name, ret, expr, gen=False):
    """expr over b: &'a [u8]; fails if b is local, compiles if b is an argument of life 'a"""
    w(name, LIFE, "pub fn f<'a>(_x: &'a [u8]) -> Option<%s> { let v: Vec<u8> = Vec::new(); let b: &[u8] = &v; %s }" % (ret, expr),
      "pub fn f<'a>(b: &'a [u8]) -> Option<%s> { %s }" % (ret, expr), ("E0515", "E0597", "E0505"), gen)
def owned(name, expr, gen=False, ty="Table<Vec<u8>>"):
    """expr over t: a table owning its buffer; the result must borrow t"""
    w(name, "what is read of a table that owns its buffer borrows the table", "pub fn f(t: %s) { let x = %s; drop(t); let _y = x; }" % (ty, expr),
      "pub fn f(t: %s) { let x = %s; let _y = x; drop(t); }" % (ty, expr), ("E0505",), gen)

life("str", "&'a str", "<&str as Follow>::follow(b, 0).ok()")
life("slice", "&'a [u16]", "<&[u16] as Follow>::follow(b, 0).ok()")
life("vector", "Vector<'a, u32>", "<Vector<u32> as Follow>::follow(b, 0).ok()")
life("vector_new", "Vector<'a, u32>", "Some(Vector::new(b, 0))")
life("vector_get", "&'a str", "Vector::<ForwardsUOffset<&str>>::new(b, 0).get(0).ok()")
life("vector_iter", "VectorIter<'a, u32>", "Some(Vector::<u32>::new(b, 0).iter())")
life("vector_into_iter", "VectorIter<'a, u32>", "Some(Vector::<u32>::new(b, 0).into_iter())")
life("vector_ref_into_iter", "VectorIter<'a, u32>", "let v = Vector::<u32>::new(b, 0); Some((&v).into_iter())")
life("iter_item", "&'a str", "Vector::<ForwardsUOffset<&str>>::new(b, 0).iter().next()?.ok()")
life("iter_item_back", "&'a str", "Vector::<ForwardsUOffset<&str>>::new(b, 0).iter().next_back()?.ok()")
life("safe_slice", "&'a [u8]", "Vector::<u8>::new(b, 0).safe_slice().ok()")
life("forwards", "&'a str", "<ForwardsUOffset<&str> as Follow>::follow(b, 0).ok()")
life("forwards_v", "&'a str", "<ForwardsVOffset<&str> as Follow>::follow(b, 0).ok()")
life("backwards", "&'a str", "<BackwardsSOffset<&str> as Follow>::follow(b, 0).ok()")
life("skip_size", "&'a str", "<SkipSizePrefix<&str> as Follow>::follow(b, 0).ok()")
life("skip_root", "&'a str", "<SkipRootOffset<&str> as Follow>::follow(b, 0).ok()")
life("skip_ident", "&'a str", "<SkipFileIdentifier<&str> as Follow>::follow(b, 0).ok()")
life("file_ident", "&'a [u8]", "<FileIdentifier as Follow>::follow(b, 0).ok().map(|x| &x[..])")
life("follow_start", "&'a str", "<FollowStart<&str> as Follow>::follow(b, 0).ok()")
life("table", "Table<&'a [u8]>", "Table::get_root(b).ok()")
life("cast_ref", "&'a u8", "unsafe { follow_cast_ref::<u8>(b, 0).ok() }")
life("gen_root", "Aa<&'a [u8]>", "Aa::get_root(b).ok()", True)
life("gen_follow", "Aa<&'a [u8]>", "<Aa<&[u8]> as Follow>::follow(b, 0).ok()", True)
life("gen_table", "Table<&'a [u8]>", "Aa::get_root(b).ok().map(|x| x.into())", True)
owned("owned_str", "t.get::<ForwardsUOffset<&str>>(4, None)")
owned("owned_vec", "t.get::<ForwardsUOffset<Vector<u32>>>(4, None)")
owned("owned_vec_str", "t.get::<ForwardsUOffset<Vector<ForwardsUOffset<&str>>>>(4, None)")
owned("owned_vtable", "t.vtable()")
owned("owned_default", "t.get::<ForwardsUOffset<&[u8]>>(4, None)")
for n, e in (("s", "t.s()"), ("v", "t.v()"), ("n", "t.n()"), ("u", "t.u()"), ("b", "t.b()"), ("w", "t.w()"), ("t", "t.t()"), ("r", "t.r()")):
    owned("gen_owned_" + n, e, True, "Aa<Vec<u8>>")
MUT = "a buffer somebody looks at cannot be changed"
def mut(name, look, change):
    w(name, MUT, "pub fn f(b: &mut FlatBufferBuilder) { let x = %s; %s; let _y = x; }" % (look, change), "pub fn f(b: &mut FlatBufferBuilder) { let x = %s; let _y = x; %s; }" % (look, change), ("E0502", "E0506"))
for n, e in (("finished", "b.finished_data()"), ("unfinished", "b.unfinished_data()")):
    for m, c in (("push", "b.push(1u8)"), ("reset", "b.reset()"), ("string", "b.create_string(\"x\")"), ("table", "b.start_table()"), ("finish", "b.finish_minimal(WIPOffset::<u8>::new(0))"), ("vector", "b.create_vector(&[1u16])"), ("direct", "b.create_vector_direct(&[1u8])"), ("slot", "b.push_slot_always(4, 1u8)"), ("replace", "*b = FlatBufferBuilder::new()")):
        mut("%s_%s" % (n, m), e, c)
    w(n + "_life", LIFE, "pub fn f<'a>(_x: &'a u8) -> &'a [u8] { let b = FlatBufferBuilder::new(); let b = &b; %s }" % e, "pub fn f<'a>(b: &'a FlatBufferBuilder) -> &'a [u8] { %s }" % e, ("E0515", "E0597"))
w("finished_read", MUT, "pub fn f(b: &mut FlatBufferBuilder) { let x = <&str as Follow>::follow(b.finished_data(), 0); b.reset(); let _y = x; }", "pub fn f(b: &mut FlatBufferBuilder) { let x = <&str as Follow>::follow(b.finished_data(), 0); let _y = x; b.reset(); }", ("E0502",))
w("gen_builder", MUT, "pub fn f<'a>(b: &mut FlatBufferBuilder<'a>) { let x = BbBuilder::new(b); b.reset(); let _y = x; }", "pub fn f<'a>(b: &mut FlatBufferBuilder<'a>) { let x = BbBuilder::new(b); let _y = x; b.reset(); }", ("E0499",), True)
w("collapse", "a collapsed builder is gone", "pub fn f(mut b: FlatBufferBuilder) -> Vec<u8> { let (v, _) = b.collapse(); b.push(1u8); v }", "pub fn f(mut b: FlatBufferBuilder) -> Vec<u8> { b.push(1u8); let (v, _) = b.collapse(); v }", ("E0382",))
TYP = "offsets know what they refer to"
w("end_table", TYP, "pub fn f(b: &mut FlatBufferBuilder) { let o = b.create_string(\"x\"); b.end_table(o); }", "pub fn f(b: &mut FlatBufferBuilder) { let o = b.start_table(); b.end_table(o); }", ("E0308",))
w("required_open", TYP, "pub fn f(b: &mut FlatBufferBuilder) { let o = b.start_table(); b.required(o, 4, \"x\"); }", "pub fn f(b: &mut FlatBufferBuilder) { let o = b.start_table(); let o = b.end_table(o); b.required(o, 4, \"x\"); }", ("E0308",))
w("direct_wide", "only byte sized elements may be copied as they are", "pub fn f(b: &mut FlatBufferBuilder) { b.create_vector_direct(&[WIPOffset::<u8>::new(0)]); }", "pub fn f(b: &mut FlatBufferBuilder) { b.create_vector_direct(&[0u8]); }", ("E0277",))
w("safe_slice_wide", "only slices of plain elements are views", "pub fn f(b: &[u8]) { let _ = Vector::<ForwardsUOffset<&str>>::new(b, 0).safe_slice(); }", "pub fn f(b: &[u8]) { let _ = Vector::<u8>::new(b, 0).safe_slice(); }", ("E0599", "E0277"))
w("slice_refs", "only slices of scalars are views", "pub fn f(b: &[u8]) { let _ = <&[&str] as Follow>::follow(b, 0); }", "pub fn f(b: &[u8]) { let _ = <&[u32] as Follow>::follow(b, 0); }", ("E0277",))
w("cast_ref_unsafe", "reinterpreting bytes as any type is unsafe", "pub fn f(b: &[u8]) { let _ = follow_cast_ref::<u8>(b, 0); }", "pub fn f(b: &[u8]) { let _ = unsafe { follow_cast_ref::<u8>(b, 0) }; }", ("E0133",))
w("gen_args_default_required", "required fields must be given", "pub fn f<'a>(b: &mut FlatBufferBuilder<'a>) { Aa::create(b, &AaArgs { e: Ee::X1 }); }", "pub fn f<'a>(b: &mut FlatBufferBuilder<'a>) { let r = b.create_string(\"\"); Aa::create(b, &AaArgs { s: None, v: None, n: None, u_type: butte_gen::UuType::None, u: None, e: Ee::X1, b: None, w: None, t: None, r }); }", ("E0063",), True)
FULL = "pub fn f<'a>(b: &mut FlatBufferBuilder<'a>) { let r = b.create_string(\"\"); let o = %s; let _z = AaArgs { s: %s, v: %s, n: %s, u_type: butte_gen::UuType::None, u: %s, e: Ee::X1, b: None, w: None, t: None, r: %s }; }"
def typed(name, off, pos, good):
    v = ["None"] * 4 + ["r"]; v[pos] = "Some(o)" if pos < 4 else "o"
    w("gen_typed_" + name, TYP, FULL % tuple([off] + v), FULL % tuple([good] + v), ("E0308",), True)
STR, VEC, TAB = "b.create_string(\"\")", "b.create_vector(&[1i32])", "Bb::create(b, &BbArgs { x: 1 })"
typed("vec_for_string", VEC, 0, STR); typed("string_for_vec", STR, 1, VEC); typed("vec_u32_for_i32", "b.create_vector(&[1u32])", 1, VEC)
typed("other_table", TAB, 2, "WIPOffset::<Aa<&[u8]>>::new(0)"); typed("union_plain", TAB, 3, TAB + ".as_union_value()"); typed("required_vec", VEC, 4, STR)
# programs that must compile: types are usable from any thread
POS = {"threads": ("tables, vectors, iterators, builders and errors may be used from any thread", "fn t<T: Send + Sync>() {} pub fn f() { t::<FlatBufferBuilder<'static>>(); t::<Table<&'static [u8]>>(); t::<Table<Vec<u8>>>(); t::<Vector<'static, u32>>(); t::<VectorIter<'static, u32>>(); t::<Error>(); }", False),
       "gen_threads": ("generated types may be used from any thread", "fn t<T: Send + Sync>() {} pub fn f() { t::<Aa<&'static [u8]>>(); t::<Aa<Vec<u8>>>(); t::<Uu<'static>>(); t::<Ee>(); t::<AaArgs<'static>>(); }", True),
       "copy": ("views are plain values", "fn t<T: Copy>() {} pub fn f() { t::<Table<&'static [u8]>>(); t::<Vector<'static, u32>>(); t::<WIPOffset<u8>>(); }", False),
       "error": ("errors are errors", "fn t<T: std::error::Error + PartialEq + 'static>() {} pub fn f() { t::<Error>(); }", False),
       "iterator": ("iterators are exact and double ended", "fn t<T: DoubleEndedIterator + ExactSizeIterator + Clone>() {} pub fn f() { t::<VectorIter<'static, u32>>(); }", False)}

def programs():
    """name -> (source, expected codes or None)"""
    out = {}
    for n, (kind, bad, good, codes, gen) in W.items():
        out[n + "__bad"] = (bad, codes, gen, kind); out[n + "__good"] = (good, None, gen, kind)
    for n, (kind, src, gen) in POS.items(): out[n + "__good"] = (src, None, gen, kind)
    return out

def compile_all(progs, genmod):
    """name -> list of (code, message, line) of errors"""
    txt = {n: "#![allow(warnings)]\nuse butte::*;\nuse std::convert::*;\n" + ("pub mod gen_ {\n%s\n}\nuse gen_::*;\n" % genmod if gen else "") + src + "\nfn main() {}\n" for n, (src, codes, gen, kind) in progs.items()}
    key = hashlib.sha256((json.dumps(txt, sort_keys=True) + pipeline.digest(os.path.join(pipeline.REPO, "butte"))).encode()).hexdigest()[:20]
    cf = os.path.join(pipeline.CACHE, "wit-%s.json" % key)
    if os.path.exists(cf): return json.load(open(cf))
    d = os.path.join(pipeline.CACHE, "w-wit-%s-%d" % (key, os.getpid()))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.join(d, "src", "bin"))
    try:
        open(os.path.join(d, "Cargo.toml"), "w").write('[package]\nname = "wit"\nversion = "0.1.0"\nedition = "2018"\n\n[workspace]\n\n[dependencies]\nbutte = { path = "%s/butte" }\n' % pipeline.REPO)
        lock = os.path.join(pipeline.VERIF, "spec", "Cargo.lock")
        if os.path.exists(lock): open(os.path.join(d, "Cargo.lock"), "w").write(open(lock).read().replace('name = "spec"', 'name = "wit"'))
        for n, t in txt.items(): open(os.path.join(d, "src", "bin", n + ".rs"), "w").write(t)
        tgt = os.path.join(d, "target")
        r = pipeline.sh(["cargo", "+nightly", "check", "--offline", "--keep-going", "--bins", "--message-format=json", "-q"], {"CARGO_TARGET_DIR": tgt}, d)
        errs = {n: [] for n in txt}; ok = set(); dep = []
        for line in r.stdout.splitlines():
            if not line.startswith("{"): continue
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] in txt: ok.add(m["target"]["name"])
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                c = (m["message"].get("code") or {}).get("code")
                if m["target"]["name"] in errs:
                    if c or not m["message"]["message"].startswith("aborting"): errs[m["target"]["name"]].append([c, m["message"]["message"]])
                else: dep.append(m["message"]["rendered"])
        if dep: raise pipeline.BuildError("\n".join(dep)[:3000])
        miss = [n for n in txt if n not in ok and not errs[n]]
        if miss: raise RuntimeError("no answer of the compiler for %s: %s" % (miss[:3], r.stdout[-2000:]))
        json.dump(errs, open(cf, "w"))
        return errs
    finally: shutil.rmtree(d, ignore_errors=True)

def c17():
    r = comprun.run([(SCHEMA, "tight", {"want_out": True})])[0]
    progs = programs(); undecided = []
    if r["status"] != "ok":
        undecided = sorted({n.rsplit("__", 1)[0] for n, p in progs.items() if p[2]})
        progs = {n: p for n, p in progs.items() if not p[2]}
    errs = compile_all(progs, r.get("out") or "")
    viol, samples, done = [], [], 0
    for n in sorted(progs):
        base, which = n.rsplit("__", 1)
        src, codes, gen, kind = progs[n]
        e = errs[n]
        if which == "bad":
            if errs[base + "__good"]: continue
            if not e: viol.append({"key": "accepted|" + base, "construct": "accepted by the compiler: %s" % src, "rule": kind, "condition": "", "call_path": [], "witness": src})
            elif not any(c in codes for c, _ in e): undecided.append("%s: rejected with %s" % (base, e[:2]))
            else: done += 1
            if len(samples) < 4 and e: samples.append({"witness": base, "rule": kind, "error": e[0]})
        elif e:
            # a witness without its twin proves nothing
            if base in POS: viol.append({"key": "rejected|" + base, "construct": "rejected by the compiler: %s" % src, "rule": kind, "condition": str(e[0]), "call_path": [], "witness": src})
            else: viol.append({"key": "twin|" + base, "construct": "rejected by the compiler: %s" % src, "rule": "correct uses of the interface compile (%s)" % kind, "condition": str(e[0]), "call_path": [], "witness": src})
        else: done += 1
    cov = {"obligations": len(progs), "discharged": done, "undecided": len(undecided), "witnesses": len(W), "compiling_twins": len(W) + len(POS), "undecided_samples": undecided[:10],
           "rule": "every witness that uses a buffer beyond its life, changes a buffer in view or mixes up offsets is rejected with the expected error, its twin compiles",
           "samples": samples, "explanation": "type checking and borrow checking of witness programs against /repo's current interface and generated code; nothing is run"}
    return viol, cov
CHECKS = {"C17": c17}
