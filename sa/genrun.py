"""Compiles generated code with its clients and analyses it."""
import re, os, json, hashlib, shutil
import pipeline, comprun, specrun, clients

def generate(mods, nproc=8, layout="tight"):
    """results of the schema classes of the modules"""
    names = sorted(mods)
    rs = comprun.run([(mods[n], layout, {"want_out": True}) for n in names], nproc)
    return dict(zip(names, rs))

def lines(out):
    """the same tokens on several lines (positions in very long lines are slow to compute)"""
    if "'\"'" in out or ' r"' in out or ' r#"' in out: return out
    return re.sub(r'"(?:[^"\\]|\\.)*"|(?:;|\}) ', lambda m: m.group(0) if m.group(0)[0] == '"' else m.group(0)[0] + "\n", out)
def build(group):
    """(gen results, directory of the export or None, crate name)"""
    g = clients.GROUPS[group]()
    gen = generate(g["mods"])
    if any(r["status"] != "ok" for r in gen.values()): return g, gen, None
    src = clients.PRELUDE + "".join("pub mod %s {\n%s\n}\n" % (n, lines(gen[n]["out"])) for n in sorted(gen)) + "\n".join(g["code"])
    return g, gen, export(g["name"], src)

def export(name, src):
    key = hashlib.sha256(("f" + src + pipeline.digest(os.path.join(pipeline.REPO, "butte"), os.path.join(pipeline.VERIF, "driver"))).encode()).hexdigest()[:20]
    d = os.path.join(pipeline.CACHE, "g-%s-%s" % (name, key))
    if not os.path.exists(os.path.join(d, "src", "lib.rs")):
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(os.path.join(tmp, "src"))
        open(os.path.join(tmp, "Cargo.toml"), "w").write('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2018"\n\n[workspace]\n\n[lib]\npath = "src/lib.rs"\n\n[dependencies]\nbutte = { path = "%s/butte" }\n' % (name, pipeline.REPO))
        lock = os.path.join(pipeline.VERIF, "spec", "Cargo.lock")
        if os.path.exists(lock): open(os.path.join(tmp, "Cargo.lock"), "w").write(open(lock).read().replace('name = "spec"', 'name = "%s"' % name))
        open(os.path.join(tmp, "src", "lib.rs"), "w").write(src)
        shutil.rmtree(d, ignore_errors=True); os.rename(tmp, d)
    return pipeline._export(name, key, [name], ["--manifest-path", os.path.join(d, "Cargo.toml")], d, "RUSTC_WRAPPER", "butte", False, more={"MIRDUMP_FNVALS": "1"})
