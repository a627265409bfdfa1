"""Runs the abstract interpreter over the spec roots (client programs in /verif/spec
that call the public API of butte with arbitrary inputs)."""
import os, re, sys, json, time, hashlib, multiprocessing, signal, random
import pipeline, terms, witness
from absint import Program, Interp, State, Limit, Slice, Buf
import models

ROOT_TIMEOUT = 240
HELPERS = {"spec_require", "spec_assume", "spec_zeroed", "arb", "arb_odd", "full", "full_odd", "le16", "le32", "le64", "fits", "follow", "follow_buf"}
_prog = {}

class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

def engine_key():
    d = os.path.dirname(os.path.abspath(__file__))
    h = hashlib.sha256()
    for f in ("absint.py", "models.py", "terms.py", "witness.py", "specrun.py"):
        h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:12]

def roots(prog):
    return [r for r in prog.roots if not r["closure"] and r["pub"] and r["name"] not in HELPERS and not r.get("trait")
            and not (r.get("self_ty") or r.get("self_adt"))]

# Input partition used where the arbitrary-input analysis leaves an obligation open:
# sizes (and some of the integers) are fixed, contents stay arbitrary.
LENS = (0, 1, 2, 3, 4, 5, 8, 12, 13, 33, 64, 255, 300, 4101, 65537, (1 << 24) + 4)
SLACK = (0, 1, 5, 7, 64, 65, 100, 256, 300, 5000, 70000)
SLOTS = (4, 6, 8, 10, 254, 256, 258, 512, 1000, 65530)
SMALL = (0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 255, 256, 257, 65535, 65536)
NCELLS = 20
CELL_TIME = 25
def cell(b, names, types, k):
    """{parameter: size or value}: cell number k of the partition for the parameters of the body b"""
    rng = random.Random(k * 7919 + 1)
    out = {}; dlen = 0
    ps = [(i, names.get(i, "a%d" % i), types[b["locals"][i]]) for i in range(1, b["argc"] + 1)]
    small = rng.random() < 0.7
    for i, n, t in ps:
        e = types[t["elem"]] if t["k"] == "ref" and isinstance(t.get("elem"), int) else None
        if e is not None and e["k"] in ("slice", "str"):
            ls = [x for x in LENS if (x <= 64 if small else True)]
            if e["k"] == "str": ls = [x for x in ls if x <= 300] + [4]
            out[n] = rng.choice(ls)
            if n == "data": dlen = out[n]
    for i, n, t in ps:
        if t["k"] != "int": continue
        if n == "cap": out[n] = dlen + 8 + rng.choice(SLACK)
        elif t["s"] == "u16" and rng.random() < 0.7: out[n] = rng.choice(SLOTS)
        elif rng.random() < 0.5: out[n] = rng.choice([x for x in SMALL if x < 128 or t["s"] not in ("u8", "i8")])
    return out

def run_root(job):
    path, variant, key, rpath = job[:4]
    fix = job[4] if len(job) > 4 else None
    if pipeline.left() < 1: return {"root": rpath, "variant": variant, "outs": -1, "error": "time limit of the check", "obls": [], "panics": [], "opaque": [], "time": 0, "fns": []}
    prog = _prog.get(path) or _prog.setdefault(path, Program(path))
    terms.reset_terms()
    I = Interp(prog, models.M)
    if hasattr(models, "setup"): models.setup(I)
    st = State(); b = prog.bodies[key]
    names = {pl[0]: n for n, pl in b["names"] if len(pl) == 1}
    t = time.time(); err = None
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(int(max(1, min(ROOT_TIMEOUT if fix is None else CELL_TIME, pipeline.left()))))
    try:
        args = [I.sym(st, names.get(i, "a%d" % i), b["locals"][i]) for i in range(1, b["argc"] + 1)]
        if fix is not None:
            fix = cell(b, names, prog.types, fix)
            for i, a in enumerate(args):
                n = names.get(i + 1, "a%d" % (i + 1))
                if n not in fix: continue
                c = terms.P(fix[n])
                if isinstance(a, Slice):
                    o = st.store[a.place[0]]
                    st.store[a.place[0]] = Buf(c, [(c, ("orig", n, terms.P(0)))] if fix[n] else [], o.ety)
                    args[i] = Slice(a.place, a.off, c, a.str)
                elif isinstance(a, terms.Poly): args[i] = c
        outs = I.call_body(st, key, args)
        nout = len(outs)
    except Limit as e: err = "limit: %s" % e; nout = -1
    except Timeout: err = "time limit"; nout = -1
    except RecursionError: err = "recursion limit"; nout = -1
    except Exception as e:
        err = "engine: %s: %s" % (type(e).__name__, e); nout = -1
    signal.alarm(0)
    obls = {}
    for o in I.obls:
        k = (o["kind"], o["fn"], o["detail"] if o["kind"] == "require" else o["cond"] if "aligned" in o["kind"] or "valid" in o["kind"] else "", o["status"])
        x = obls.get(k)
        if x is None: obls[k] = x = {kk: o.get(kk) for kk in ("kind", "fn", "span", "status", "cond", "detail", "chain", "witness")}; x["n"] = 0
        x["n"] += 1
    panics = {}
    for p in I.panics:
        imp = bool(p["imprecise"]) or nout == -1 and False
        k = (p["kind"], p["msg"] if p["kind"] not in ("index",) else "", p["fn"], imp)
        if k in panics: panics[k]["n"] += 1; continue
        w = None
        if not imp:
            w = witness.find([("ge", f) for f in p["state"].facts])
            if w is None: imp = True
        panics[k] = {"kind": p["kind"], "msg": p["msg"], "fn": p["fn"], "span": p["span"], "chain": p["chain"], "imprecise": imp,
                     "cond": repr(p["cond"]), "witness": w, "n": 1}
    return {"root": rpath, "variant": variant, "outs": nout, "error": err, "obls": list(obls.values()), "panics": list(panics.values()),
            "cell": fix, "opaque": sorted(I.opaque_calls), "time": time.time() - t, "fns": sorted(getattr(I, "visited", []))}

def run(pattern, jobs=8, d=None, crate="spec", variants=("debug", "release")):
    """results for all roots matching pattern, debug and release (cached by content)"""
    if d is None: d = pipeline.export_spec()
    ek = engine_key()
    cdir = os.path.join(pipeline.CACHE, "res-" + os.path.basename(d) + "-" + ek)
    os.makedirs(cdir, exist_ok=True)
    rx = re.compile(pattern)
    todo = []; res = []
    for variant in variants:
        path = os.path.join(d, "%s.%s.json" % (crate, variant))
        prog = _prog.setdefault(path, Program(path))
        for r in roots(prog):
            if not rx.search(r["path"]): continue
            cf = os.path.join(cdir, hashlib.sha256((variant + r["path"]).encode()).hexdigest()[:24] + ".json")
            if os.path.exists(cf):
                try: res.append(json.load(open(cf))); continue
                except Exception: pass
            todo.append(((path, variant, r["key"], r["path"]), cf))
    if todo:
        ctx = multiprocessing.get_context("fork")
        # the slow ones first
        todo.sort(key=lambda j: 0 if re.search(r"limit|grow|strings|three|reset", j[0][3]) else 1)
        with ctx.Pool(min(jobs, len(todo))) as pool:
            for (j, cf), r in zip(todo, pool.imap(run_root, [j for j, _ in todo], chunksize=1)):
                tmp = cf + ".%d" % os.getpid()
                if not (r["error"] or "").startswith("time limit"): json.dump(r, open(tmp, "w")); os.rename(tmp, cf)
                res.append(r)
    res.sort(key=lambda r: (r["root"], r["variant"]))
    return res

def refine(todo, d=None, crate="spec", jobs=8, limit=240, enough=lambda r: False):
    """analyses the roots [(root, variant)] once more, cell by cell of the partition of their
    inputs; stops when `enough` of a result holds"""
    if d is None: d = pipeline.export_spec()
    js = []
    for k in range(NCELLS):
        for root, variant in todo:
            path = os.path.join(d, "%s.%s.json" % (crate, variant))
            prog = _prog.setdefault(path, Program(path))
            key = next(r["key"] for r in roots(prog) if r["path"] == root)
            js.append((path, variant, key, root, k))
    out = []; t0 = time.time()
    limit = min(limit, pipeline.left() - 20)
    if limit <= 0 or not js: return out
    with multiprocessing.get_context("fork").Pool(min(jobs, len(js))) as pool:
        it = pool.imap_unordered(run_root, js, chunksize=1)
        while len(out) < len(js):
            try: r = it.next(max(0.1, limit - (time.time() - t0)))
            except (multiprocessing.TimeoutError, StopIteration): break
            out.append(r)
            if enough(r): break
        pool.terminate()
    return out
