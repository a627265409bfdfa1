"""Builds the MIR exporter and exports the current tree of /repo.

Exports are cached under /verif/.cache, keyed by the contents of every source
file involved, so a change in /repo is always re-exported."""
import hashlib, os, subprocess, shutil, sys, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

# what is not analysed when a check's time is up is undecided
DEADLINE = time.time() + (3000 if os.environ.get("VERIF_TIER") == "thorough" else 660)
def left(): return DEADLINE - time.time()

class BuildError(Exception):
    """the analysed crate does not compile with the harness"""

def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"): e.pop(k, None)
    if env: e.update(env)
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)

def files_of(root, exts=(".rs", ".toml", ".lock", ".fbs")):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
        for f in sorted(fs):
            if f.endswith(exts): out.append(os.path.join(d, f))
    return out

def digest(*roots):
    h = hashlib.sha256()
    for r in roots:
        for f in (files_of(r) if os.path.isdir(r) else [r]):
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh: h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:20]

class Lock:
    def __init__(self, name): self.p = os.path.join(CACHE, name + ".lock")
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()

def driver():
    """path of the exporter, built from /verif/driver"""
    src = os.path.join(VERIF, "driver")
    with Lock("driver"):
        tgt = os.path.join(CACHE, "driver-" + digest(src))
        exe = os.path.join(tgt, "release", "mirdump")
        if not os.path.exists(exe):
            r = sh(["cargo", "+nightly", "build", "--offline", "--release"], {"CARGO_TARGET_DIR": tgt}, src)
            if r.returncode or not os.path.exists(exe):
                raise RuntimeError("cannot build the MIR exporter:\n" + r.stdout[-3000:])
        return exe

def ensure_lock():
    if not os.path.exists(os.path.join(REPO, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))

def prune(keep):
    """remove old exports"""
    for n in os.listdir(CACHE):
        p = os.path.join(CACHE, n)
        if n.startswith(("dump-", "w-")) and n not in keep and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600:
            shutil.rmtree(p, ignore_errors=True)

def _export(tag, key, crates, cargo_args, cwd, wrapper_var, include="", two_runs=False, more=None):
    exe = driver()
    name = "dump-%s-%s" % (tag, key)
    out = os.path.join(CACHE, name)
    with Lock("export-" + tag):
        if os.path.exists(os.path.join(out, "done")): return out
        os.makedirs(CACHE, exist_ok=True)
        prune({name})
        ensure_lock()
        tmp = out + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        tgt = os.path.join(CACHE, "w-%s-%s-%d" % (tag, key, os.getpid()))
        shutil.rmtree(tgt, ignore_errors=True)
        env = {"LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"), "MIRDUMP_OUT": tmp, "MIRDUMP_CRATES": ",".join(crates),
               "CARGO_TARGET_DIR": tgt, wrapper_var: exe}
        if include: env["MIRDUMP_INCLUDE"] = include
        env.update(more or {})
        if not two_runs: env["MIRDUMP_RELEASE"] = "1"
        try:
            for variant in (("release", "debug") if two_runs else ("debug",)):
                extra = []
                if variant == "release":
                    extra = ["--config", "profile.dev.debug-assertions=false", "--config", "profile.dev.overflow-checks=false"]
                r = sh(["cargo", "+nightly", "check", "--offline", "--message-format", "short"] + extra + cargo_args, env, cwd)
                missing = [c for c in crates if not os.path.exists(os.path.join(tmp, c + ".debug.json"))]
                if r.returncode or missing:
                    raise BuildError("export of %s failed (missing %s):\n%s" % (tag, missing, "\n".join([l for l in r.stdout.splitlines() if "error" in l] or [r.stdout[-6000:]])[:6000]))
                if variant == "release":
                    for c in crates: os.rename(os.path.join(tmp, c + ".debug.json"), os.path.join(tmp, c + ".release.json"))
            open(os.path.join(tmp, "done"), "w").close()
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
        finally:
            shutil.rmtree(tgt, ignore_errors=True)
            shutil.rmtree(tmp, ignore_errors=True)
        return out

def export_repo():
    """butte and butte_build as they are"""
    key = digest(REPO, os.path.join(VERIF, "driver"))
    return _export("repo", key, ["butte", "butte_build"],
                   ["-p", "butte", "-p", "butte-build", "--manifest-path", os.path.join(REPO, "Cargo.toml")], REPO, "RUSTC_WORKSPACE_WRAPPER")

def export_build():
    """butte_build with every function and closure it uses as a value"""
    key = digest(REPO, os.path.join(VERIF, "driver"))
    return _export("build", key, ["butte_build"],
                   ["-p", "butte-build", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml")], REPO, "RUSTC_WORKSPACE_WRAPPER",
                   more={"MIRDUMP_FNVALS": "1", "MIRDUMP_INCLUDE": "butte"})

def export_spec(crate="spec"):
    """the client programs with everything they reach in butte"""
    src = os.path.join(VERIF, crate)
    key = digest(os.path.join(REPO, "butte"), os.path.join(VERIF, "driver"), src) + "f"
    if REPO != "/repo":  # development only: the same client programs against another checkout
        alt = os.path.join(CACHE, "alt-%s-%s" % (crate, hashlib.sha256(REPO.encode()).hexdigest()[:8]))
        shutil.rmtree(alt, ignore_errors=True); shutil.copytree(src, alt, ignore=shutil.ignore_patterns("target"))
        t = open(os.path.join(alt, "Cargo.toml")).read()
        open(os.path.join(alt, "Cargo.toml"), "w").write(t.replace("/repo/", REPO + "/"))
        src = alt
    return _export(crate, key, [crate], ["--manifest-path", os.path.join(src, "Cargo.toml")], src, "RUSTC_WRAPPER", "butte", True, more={"MIRDUMP_FNVALS": "1"})
