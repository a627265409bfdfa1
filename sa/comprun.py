"""Runs the abstract interpreter of the schema compiler over schema classes."""
import os, sys, json, time, hashlib, multiprocessing
import pipeline, comp, schemas
import compmodels as cm
from comp import Interp, Program, Text, Box, Ext, Panic, Unmodelled, Limit, none, some, lit, Atom

TIMEOUT = 60
_prog = {}

def engine_key():
    d = os.path.dirname(os.path.abspath(__file__))
    h = hashlib.sha256()
    for f in ("comp.py", "compmodels.py", "comprun.py", "schemas.py"):
        h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:12]

ROOTS = {"generic": "compile_fbs_generic", "file": "compile_fbs"}

def tkey(t):
    o = []
    for p in t.p:
        if isinstance(p, str): o.append(p)
        elif p.kind == "tokens": o.append(("tokens", [(k[0], tkey(k[1]) if isinstance(k[1], Text) else k[1]) for k in cm.toks(p.arg)]))
        else: o.append(p.key())
    return o
def keykey(t): return repr(tkey(t))

def plain(v, prog, d=0):
    """a term as plain data; structures by the names of their fields"""
    from comp import Adt, Tup, Arr, Vec, Sl, Map, StrObj, Ref, Box as B
    if d > 40: return "..."
    v = comp.deref(v)
    if isinstance(v, (str, int, float, bool, type(None))): return v
    if isinstance(v, Text): return v.rep()
    if isinstance(v, StrObj): return v.t.rep()
    if isinstance(v, Adt):
        n = v.d.split("::")[-1]
        if n == "Cow": return plain(v.f[0], prog, d + 1)
        ty = prog.adt.get(v.d)
        try: var = ty["variants"][v.v]; names = [f[0] for f in var["fields"]]; vn = var.get("name", v.v)
        except Exception: names = None; vn = v.v
        if names is None or len(names) != len(v.f): names = [str(i) for i in range(len(v.f))]
        return dict({"adt": n, "v": vn}, **{k: plain(x, prog, d + 1) for k, x in zip(names, v.f)})
    if isinstance(v, (Tup, Arr)): return [plain(x, prog, d + 1) for x in v.f]
    if isinstance(v, Vec): return [plain(x, prog, d + 1) for x in v.l]
    if isinstance(v, Sl): return [plain(x, prog, d + 1) for x in v.l[v.a:v.b]]
    if isinstance(v, Map): return {"map": [[plain(k, prog, d + 1), plain(x, prog, d + 1)] for k, x in v.d.values()]}
    return repr(v)

def errtext(v, d=0):
    try:
        v = comp.deref(v)
        if isinstance(v, Ext): return errtext(v.x, d + 1) if v.x is not None and d < 5 else v.what
        return comp.text_of(v).rep()[:300]
    except Exception: return repr(v)[:200]

def analyse(job):
    """one schema class: (src or token list, layout, options)"""
    path, src, how, opt = job
    prog = _prog.get(path) or _prog.setdefault(path, Program(path))
    t0 = time.time()
    raw = opt.get("raw")
    tx = raw if raw is not None else schemas.text(src, how)
    I = Interp(prog, cm, {"schema": tx, "fault": opt.get("fault"), "fs_fault": opt.get("fs_fault"), "hash": opt.get("hash"), "short": opt.get("short", False), "root": opt.get("root", "generic")})
    I.rpcs = []; I.paths = []; I.idents = []; I.fed = Text()
    which = opt.get("root", "generic")
    key = [r["key"] for r in prog.roots if r["path"].split("::")[-1] == ROOTS[which]]
    res = {"schema": tx.rep(), "layout": how, "status": "undecided", "why": "", "where": [], "out": "", "outkey": "", "events": [], "tests": [], "rpcs": [], "fns": [], "steps": 0}
    if len(key) != 1:
        res["why"] = "no function %s" % ROOTS[which]; return res
    # no schema class needs more than 1,000 steps per character; thirty times that means that the compiler does not end
    n = len(tx.rep()) + 50
    I.maxsteps = 30_000 * n; I.maxdepth = 900 + 2 * n
    I.deadline = time.time() + min(TIMEOUT, pipeline.left())
    if pipeline.left() < 1:
        res["why"] = "Limit: time"; return res
    try:
        if which == "generic":
            rpc = some(Box(Ext("rpcgen"))) if opt.get("rpc") else none()
            r = I.run_body(key[0], [bool(opt.get("ugly", True)), rpc, Box(Ext("input")), Box(Ext("output"))])
        else:
            r = I.run_body(key[0], [lit("schema.fbs")])
        res["status"] = "ok" if r.v == 0 else "err"
        if r.v: res["why"] = errtext(r.f[0])
    except Panic as e:
        res["status"] = "panic"; res["why"] = "%s at %s in %s" % (e.msg, e.span, e.fn); res["where"] = e.stack[-12:]
        res["fn"] = e.fn
    except comp.Endless as e:
        w = getattr(e, "where", [])
        if len(tx.rep()) < 2000:
            what = "recursion deeper than %d calls" % I.maxdepth if str(e) == "recursion" else "more than %d steps" % I.maxsteps
            res["status"] = "panic"; res["why"] = "does not end (%s)" % what; res["where"] = w[-12:]
            fr = [x.split(" at ")[0] for x in w]
            res["fn"] = "endless"
        else: res["why"] = "Limit: %s" % e
    except (Unmodelled, Limit) as e:
        res["why"] = "%s: %s" % (type(e).__name__, e); res["where"] = getattr(e, "where", [])[-6:]
    except RecursionError: res["why"] = "recursion"
    except Exception as e:
        res["why"] = "engine: %s: %s" % (type(e).__name__, e); res["where"] = getattr(e, "where", [])[-6:]
    out = Text([p for t in I.out for p in t.p])
    res["outkey"] = hashlib.sha256(keykey(out).encode()).hexdigest()[:16] if out.p else ""
    res["out"] = out.rep() if opt.get("want_out") else ""
    res["outlen"] = len(out.rep())
    if opt.get("root") == "file" or not opt.get("ugly", True):
        res["fedkey"] = hashlib.sha256(keykey(I.fed).encode()).hexdigest()[:16] if I.fed.p else ""
    res["events"] = [[e[0], e[1]] for e in I.events]
    res["paths"] = I.paths
    res["unflushed"] = getattr(I, "unflushed", False)
    res["failed"] = getattr(I, "failed", None)
    res["cmd"] = [x.rep() for x in getattr(I, "cmd", [])]
    res["tests"] = sorted([[k[0], str(k[1])] for k in I.tests])
    res["rpcs"] = [plain(x, prog) for x in I.rpcs]
    res["hash_iters"] = sorted(map(str, I.hash_iters))
    res["fns"] = sorted(I.visited)
    res["steps"] = I.steps; res["work"] = I.steps + I.nblk; res["depth"] = I.deepest
    res["time"] = round(time.time() - t0, 3)
    return res

def jobkey(src, how, opt):
    o = {k: v for k, v in opt.items() if k != "raw"}
    r = opt["raw"].key() if opt.get("raw") is not None else ""
    return hashlib.sha256(repr((src, how, sorted(o.items()), r)).encode()).hexdigest()[:24]

def run(jobs, nproc=8):
    """jobs: list of (src, layout, options) -> results, cached by content"""
    d = pipeline.export_build()
    path = os.path.join(d, "butte_build.debug.json")
    cdir = os.path.join(pipeline.CACHE, "comp-" + os.path.basename(d) + "-" + engine_key())
    os.makedirs(cdir, exist_ok=True)
    res = [None] * len(jobs); todo = []
    for i, (src, how, opt) in enumerate(jobs):
        cf = os.path.join(cdir, jobkey(src, how, opt))
        if os.path.exists(cf):
            try: res[i] = json.load(open(cf)); continue
            except Exception: pass
        todo.append((i, (path, src, how, opt), cf))
    if todo:
        _prog.setdefault(path, Program(path))
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(nproc, len(todo))) as pool:
            for (i, j, cf), r in zip(todo, pool.imap(_worker, [j for _, j, _ in todo], chunksize=4)):
                tmp = cf + ".%d" % os.getpid()
                if r["why"] != "Limit: time": json.dump(r, open(tmp, "w")); os.rename(tmp, cf)
                res[i] = r
    return res

def _worker(j):
    return comp.big_stack(analyse, j)
