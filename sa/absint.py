"""Abstract interpreter over the exported MIR.

Domain (reduced product):
  * value terms: polynomials over interned atoms (terms.py), opaque terms,
    aggregates with known/partitioned variant, references to abstract places
  * convex polyhedra over the monomials (facts  p >= 0), per partition
  * array segmentation for byte buffers and sequences (Buf)
  * trace partitioning on branch outcomes and enum variants, joined again at
    function exits when the results agree; loops by widening with affine-step
    and difference templates, accepted only if inductive.
"""
import json, re, sys
from terms import *
from terms import feasible
import witness

USIZE_MAX = 2**64 - 1
ISIZE_MAX = 2**63 - 1
MAX_ALLOC = 2**56        # largest object of the 64-bit targets considered (address space)
sys.setrecursionlimit(20000)

class Val: __slots__ = ()

class Agg(Val):
    __slots__ = ("kind", "variant", "fields", "ty", "_h")
    def __init__(self, kind, variant, fields, ty=None):
        self.kind = kind; self.variant = variant; self.fields = tuple(fields); self.ty = ty
        self._h = None
    def key(self): return (self.kind, self.variant, self.fields)
    def __eq__(self, o): return isinstance(o, Agg) and self.kind == o.kind and self.variant == o.variant and self.fields == o.fields
    def __hash__(self):
        if self._h is None: self._h = hash(("agg", self.kind, self.variant, self.fields))
        return self._h
    def __repr__(self):
        return "%s%s(%s)" % (self.kind.split("::")[-1], "" if self.variant == 0 else "#%d" % self.variant, ", ".join(map(repr, self.fields)))

class Sym(Val):
    """opaque value named by a term"""
    __slots__ = ("name", "ty", "_h")
    def __init__(self, name, ty): self.name = name; self.ty = ty; self._h = hash(("sym", name))
    def __eq__(self, o): return isinstance(o, Sym) and self.name == o.name
    def __hash__(self): return self._h
    def __repr__(self): return "<%s>" % pname(self.name)

def pname(n):
    if isinstance(n, tuple):
        if n and n[0] == "app": return "%s(%s)" % (pname(n[1]), ", ".join(pname(x) for x in n[2:]))
        if n and n[0] == "fld": return "%s.%s" % (pname(n[1]), n[-1])
        return "(" + " ".join(pname(x) for x in n) + ")"
    return str(n)

class Ref(Val):
    __slots__ = ("place", "_h")
    def __init__(self, place): self.place = place; self._h = hash(("ref", place))
    def __eq__(self, o): return isinstance(o, Ref) and self.place == o.place
    def __hash__(self): return self._h
    def __repr__(self): return "&%s" % (self.place,)

class Slice(Val):
    """fat pointer: elements [off, off+len) of the container at `place`"""
    __slots__ = ("place", "off", "len", "str")
    def __init__(self, place, off, len, str=False): self.place = place; self.off = off; self.len = len; self.str = str
    def __eq__(self, o): return isinstance(o, Slice) and (self.place, self.off, self.len) == (o.place, o.off, o.len)
    def __hash__(self): return hash(("slice", self.place, self.off, self.len))
    def __repr__(self): return "&%s[%r..+%r]" % (self.place, self.off, self.len)

class Ptr(Val):
    """raw pointer at element/byte offset `off` of the container at `place`; ty = pointee type id"""
    __slots__ = ("place", "off", "ty")
    def __init__(self, place, off, ty): self.place = place; self.off = off; self.ty = ty
    def __eq__(self, o): return isinstance(o, Ptr) and (self.place, self.off) == (o.place, o.off)
    def __hash__(self): return hash(("ptr", self.place, self.off))
    def __repr__(self): return "*%s+%r" % (self.place, self.off)

class Str(Val):
    __slots__ = ("s",)
    def __init__(self, s): self.s = s
    def __eq__(self, o): return isinstance(o, Str) and self.s == o.s
    def __hash__(self): return hash(("str", self.s))
    def __repr__(self): return repr(self.s)

class Fn(Val):
    __slots__ = ("ty", "info")
    def __init__(self, ty, info=None): self.ty = ty; self.info = info
    def __eq__(self, o): return isinstance(o, Fn) and self.ty == o.ty
    def __hash__(self): return hash(("fn", self.ty))
    def __repr__(self): return "fn#%s" % (self.ty,)

class Buf(Val):
    """container contents: length and segmentation.  Segment = (len, desc); desc:
       ('fill', v) | ('orig', name, start) | ('vals', (v,...)) | ('le', v, size, tykey)"""
    __slots__ = ("len", "segs", "ety")
    def __init__(self, len, segs, ety): self.len = len; self.segs = tuple(segs); self.ety = ety
    def __eq__(self, o): return isinstance(o, Buf) and self.len == o.len and self.segs == o.segs
    def __hash__(self): return hash(("buf", self.len, self.segs))
    def __repr__(self): return "Buf[%r]{%s}" % (self.len, "; ".join("%r:%s" % (l, dname(d)) for l, d in self.segs))

def dname(d):
    if d[0] == "orig": return "orig(%s@%r)" % (pname(d[1]), d[2])
    return "%s(%s)" % (d[0], ",".join(map(repr, d[1:])))

class Top(Val):
    def __eq__(self, o): return self is o
    def __hash__(self): return 7
    def __repr__(self): return "TOP"
TOP = Top()
UNIT = Agg("tuple", 0, ())

class B(Val):
    __slots__ = ("k", "a", "_h")
    def __init__(self, k, *a): self.k = k; self.a = a; self._h = hash((k, a))
    def __eq__(self, o): return isinstance(o, B) and self.k == o.k and self.a == o.a
    def __hash__(self): return self._h
    def __repr__(self):
        if self.k == "c": return str(self.a[0])
        if self.k == "ge": return "(%r >= 0)" % self.a
        if self.k == "eq": return "(%r == 0)" % self.a
        if self.k == "ne": return "(%r != 0)" % self.a
        if self.k == "at": return ("" if self.a[1] else "!") + pname(self.a[0])
        return "%s%r" % (self.k, self.a)
TRUE = B("c", True); FALSE = B("c", False)
def bge(p):
    if p.is_const(): return TRUE if p.c >= 0 else FALSE
    return B("ge", p)
def beq(p):
    if p.is_const(): return TRUE if p.c == 0 else FALSE
    if len(p.m) == 1 and len(p.m[0][0]) == 1 and p.m[0][1] in (1, -1):
        a = Atom.byid[p.m[0][0][0]]
        if a.fn == "boolint":        # an integer made of a condition
            v = -p.c * p.m[0][1]
            return bnot(a.args[0]) if v == 0 else a.args[0] if v == 1 else FALSE
    return B("eq", p)
def bnot(b):
    if b.k == "c": return FALSE if b.a[0] else TRUE
    if b.k == "ge": return bge(-b.a[0] - 1)
    if b.k == "eq": return B("ne", b.a[0])
    if b.k == "ne": return B("eq", b.a[0])
    if b.k == "at": return B("at", b.a[0], not b.a[1])
    if b.k == "and": return B("or", *[bnot(x) for x in b.a])
    if b.k == "or": return B("and", *[bnot(x) for x in b.a])
def band(*xs):
    out = []
    for x in xs:
        if x == FALSE: return FALSE
        if x == TRUE: continue
        out.append(x)
    if not out: return TRUE
    return out[0] if len(out) == 1 else B("and", *out)
def bor(*xs): return bnot(band(*[bnot(x) for x in xs]))

class Limit(Exception): pass

class State:
    __slots__ = ("store", "facts", "bools", "vars", "events", "dead", "notes", "joined")
    def __init__(self):
        self.store = {}; self.facts = []; self.bools = {}; self.vars = {}; self.events = []; self.dead = False
        self.notes = (); self.joined = False
    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store); s.facts = list(self.facts); s.bools = dict(self.bools)
        s.vars = dict(self.vars); s.events = list(self.events); s.dead = False; s.notes = self.notes; s.joined = self.joined
        return s
    # --- numeric
    def relevant(self, ps):
        atoms = set()
        for p in ps: atoms |= closure_atoms(p)
        rest = list(self.facts); out = []
        ch = True
        while ch:
            ch = False
            nrest = []
            for f in rest:
                fa = closure_atoms(f)
                if fa & atoms:
                    out.append(f); atoms |= fa; ch = True
                else: nrest.append(f)
            rest = nrest
        return out
    def proves_ge(self, p):
        if p.is_const(): return p.c >= 0
        lo, _ = p.bounds()
        if lo is not None and lo >= 0: return True
        if p in self.facts: return True
        neg = -p - 1
        return not feasible(self.relevant([neg]) + [neg])
    def proves_eq(self, p):
        if p.is_const(): return p.c == 0
        return self.proves_ge(p) and self.proves_ge(-p)
    def may_ge(self, p):
        if p.is_const(): return p.c >= 0
        _, hi = p.bounds()
        if hi is not None and hi < 0: return False
        return feasible(self.relevant([p]) + [p])
    def add_ge(self, p):
        """False if infeasible"""
        if p.is_const(): return p.c >= 0
        lo, hi = p.bounds()
        if hi is not None and hi < 0: return False
        if lo is not None and lo >= 0: return True
        if p in self.facts: return True
        if not feasible(self.relevant([p]) + [p]): return False
        self.facts.append(p)
        if imprecise_in([p]): self.joined = True
        return True
    def pin(self, aid, c):
        """the atom is known to be the constant c: use c in every stored value"""
        for r, v in self.store.items():
            w = subst_val(v, aid, c)
            if w is not v: self.store[r] = w
    def proves(self, b):
        k = b.k
        if k == "c": return b.a[0]
        if k == "ge": return self.proves_ge(b.a[0])
        if k == "eq": return self.proves_eq(b.a[0])
        if k == "ne": return self.proves_ge(b.a[0] - 1) or self.proves_ge(-b.a[0] - 1)
        if k == "at": return self.bools.get(b.a[0]) == b.a[1]
        if k == "and": return all(self.proves(x) for x in b.a)
        if k == "or":
            if any(self.proves(x) for x in b.a): return True
            # partition: under the negation of all but one
            st = [self.copy()]
            for x in b.a:
                st = [s2 for s in st for s2 in s.assume(bnot(x))]
            return not st
    def assume(self, b):
        """list of refined states (possibly empty)"""
        k = b.k
        if k == "c": return [self] if b.a[0] else []
        if k == "ge":
            s = self.copy()
            return [s] if s.add_ge(b.a[0]) else []
        if k == "eq":
            s = self.copy()
            if not (s.add_ge(b.a[0]) and s.add_ge(-b.a[0])): return []
            p = b.a[0]
            if len(p.m) == 1 and len(p.m[0][0]) == 1 and p.c % p.m[0][1] == 0:
                a = Atom.byid[p.m[0][0][0]]
                if a.fn in ("len", "sym"): s.pin(a.id, -p.c // p.m[0][1])
            return [s]
        if k == "ne":
            p = b.a[0]; out = []
            for q in (p - 1, -p - 1):
                s = self.copy()
                if s.add_ge(q): out.append(s)
            return out
        if k == "at":
            n, pol = b.a
            cur = self.bools.get(n)
            if cur is None:
                s = self.copy(); s.bools[n] = pol
                if deep_any(n): s.joined = True
                return [s]
            return [self] if cur == pol else []
        if k == "and":
            ss = [self]
            for x in b.a: ss = [s2 for s in ss for s2 in s.assume(x)]
            return ss
        if k == "or":
            out = []
            pre = [self]
            for x in b.a:
                out += [s2 for s in pre for s2 in s.assume(x)]
                pre = [s2 for s in pre for s2 in s.assume(bnot(x))]
            return out
        raise Exception(k)

def subst_poly(p, aid, c):
    if p.is_const() or aid not in closure_atoms(p): return p
    r = P(p.c)
    for k, v in p.m:
        t = P(v)
        for i in k:
            if i == aid: t = t * c; continue
            a = Atom.byid[i]
            if a.fn in ("div", "mod") and aid in closure_atoms(a.args[0]):
                q = subst_poly(a.args[0], aid, c)
                t = t * (div_ if a.fn == "div" else mod_)(q, a.args[1])
            else: t = t * P(a)
        r = r + t
    return r
def subst_val(v, aid, c):
    if isinstance(v, Poly): return subst_poly(v, aid, c)
    if isinstance(v, Agg):
        fs = [subst_val(x, aid, c) for x in v.fields]
        return v if all(x is y for x, y in zip(fs, v.fields)) else Agg(v.kind, v.variant, fs, v.ty)
    if isinstance(v, Slice):
        o, l = subst_poly(v.off, aid, c), subst_poly(v.len, aid, c)
        return v if o is v.off and l is v.len else Slice(v.place, o, l, v.str)
    if isinstance(v, Ptr):
        o = subst_poly(v.off, aid, c)
        return v if o is v.off else Ptr(v.place, o, v.ty)
    if isinstance(v, Buf):
        l = subst_poly(v.len, aid, c); ch = l is not v.len; segs = []
        for n, d in v.segs:
            m = subst_poly(n, aid, c)
            e = d
            if d[0] == "orig": 
                x = subst_poly(d[2], aid, c)
                if x is not d[2]: e = (d[0], d[1], x) + tuple(d[3:])
            elif d[0] in ("fill", "le"):
                x = subst_val(d[1], aid, c)
                if x is not d[1]: e = (d[0], x) + tuple(d[2:])
            elif d[0] == "vals":
                xs = tuple(subst_val(x, aid, c) for x in d[1])
                if any(x is not y for x, y in zip(xs, d[1])): e = ("vals", xs)
            if m is not n or e is not d: ch = True
            segs.append((m, e))
        return Buf(l, segs, v.ety) if ch else v
    return v

_ca = {}
on_reset.append(_ca.clear)
def closure_atoms(p):
    r = _ca.get(p)
    if r is None:
        r = set(p.atoms()); work = list(r)
        while work:
            a = Atom.byid[work.pop()]
            if a.fn in ("div", "mod"):
                for x in a.args[0].atoms():
                    if x not in r: r.add(x); work.append(x)
        r = frozenset(r)
        _ca[p] = r
    return r

def deep_any(x):
    """does a term name mention an unknown value?"""
    if isinstance(x, tuple):
        if x and x[0] in ("any", "rdm"): return True
        return any(deep_any(y) for y in x)
    if isinstance(x, Poly): return imprecise_in([x])
    if isinstance(x, Sym): return deep_any(x.name)
    if isinstance(x, B): return any(deep_any(y) for y in x.a)
    if isinstance(x, Agg): return any(deep_any(y) for y in x.fields)
    if isinstance(x, Top): return True
    if isinstance(x, (Slice, Ptr)): return deep_any(x.off) or (isinstance(x, Slice) and deep_any(x.len)) or deep_any(x.place)
    if isinstance(x, Buf): return deep_any(x.segs) or deep_any(x.len)
    return False

taint[0] = deep_any
def imprecise_in(ps):
    for p in ps:
        for i in closure_atoms(p):
            if Atom.byid[i].imprecise: return True
    return False

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d["types"]; self.bodies = d["bodies"]; self.roots = d["roots"]
        self.byname = {}
        self.loops = {}
        self.ty_by_s = {}
        for i, t in enumerate(self.types): self.ty_by_s.setdefault(t["s"], i)
    def find_roots(self, rx):
        r = re.compile(rx)
        return [x for x in self.roots if r.search(x["path"])]
    def loop_info(self, key):
        li = self.loops.get(key)
        if li is not None: return li
        body = self.bodies[key]
        n = len(body["blocks"])
        succ = [succs(b["t"]) if b else [] for b in body["blocks"]]
        color = [0] * n; back = []
        stack = [(0, iter(succ[0]))]; color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1; stack.append((v, iter(succ[v]))); break
                elif color[v] == 1: back.append((u, v))
            else:
                color[u] = 2; stack.pop()
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]: pred[v].append(u)
        loops = {}
        for u, h in back:
            s = loops.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in s: continue
                s.add(x); work += pred[x]
        self.loops[key] = loops
        return loops

def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [b for _, b in t[2]] + [t[3]]
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "assert": return [t[5]]
    return []

class Interp:
    MAXSTATES = 400
    def __init__(self, prog, models=None, max_depth=60):
        self.p = prog
        self.nframe = 0; self.frames = {}
        self.nheap = 0
        self.obls = []
        self.panics = []
        self.recording = [True]
        self.depth = 0
        self.max_depth = max_depth
        self.stack = []
        self.models = models or {}
        self.opaque_calls = {}; self.visited = set()
        self.steps = 0
        self.step_limit = 400000
        self.imprecise_notes = []
        self.funcs = {}
        self.unroll = 5
        self.unroll_decided = 400
        self.merge_returns = True
        self.max_parts = 12
        self.views = {}
        self.fnkeys = {}
        self.peel = 2

    # ------------------------------------------------------------ types
    def T(self, t): return self.p.types[t] if t is not None and t >= 0 else {"k": "other", "s": "?"}
    def size_of(self, t):
        ty = self.T(t)
        if "size" in ty: return P(ty["size"])
        return P(atom(("size_of", ty["s"]), "size_of<%s>" % ty["s"], 0, 2**32, "size_of", (ty["s"],)))
    def align_of(self, t):
        ty = self.T(t)
        if "align" in ty: return P(ty["align"])
        return P(atom(("align_of", ty["s"]), "align_of<%s>" % ty["s"], 1, 2**16, "align_of", (ty["s"],)))
    def int_range(self, t):
        ty = self.T(t)
        if ty["k"] == "int":
            b = ty["bits"]
            return (-(2**(b-1)), 2**(b-1) - 1) if ty["signed"] else (0, 2**b - 1)
        if ty["k"] == "char": return (0, 0x10ffff)
        if ty["k"] == "bool": return (0, 1)
        return None

    def sym(self, st, name, t, imprecise=False):
        """symbolic value of type t named by `name`"""
        ty = self.T(t); k = ty["k"]
        if k in ("int", "char"):
            lo, hi = self.int_range(t)
            return P(atom(("sym", name), pname(name), lo, hi, "sym", (name,), imprecise))
        if k == "bool": return B("at", name, True)
        if k == "tuple":
            return Agg("tuple", 0, [self.sym(st, ("fld", name, i), e, imprecise) for i, e in enumerate(ty["elems"])], t)
        if k == "ref" or k == "rawptr":
            e = self.T(ty["elem"]); ek = e["k"]
            root = ("D", name)
            if ek == "slice" or ek == "str":
                if ek == "str" and not getattr(self, "str_bytes", True):
                    return Sym(name, t)
                if root not in st.store:
                    st.store[root] = self.symbuf(name, e.get("elem"), imprecise)
                b = st.store[root]
                return Slice((root, ()), ZERO, b.len if isinstance(b, Buf) else ZERO, ek == "str")
            if ek in ("param", "dyn", "alias", "other") and k == "rawptr": return Sym(name, t)
            if root not in st.store:
                st.store[root] = self.sym(st, ("deref", name), ty["elem"], imprecise)
            return Ref((root, ()))
        if k == "adt":
            d = ty["def"]
            if d == "alloc::vec::Vec": return self.symbuf(name, ty["args"][0], imprecise)
            if ty.get("adt") == "struct" and len(ty["variants"][0]["fields"]) == 0:
                return Agg("adt:" + d, 0, (), t)
            return Sym(name, t)
        if k == "array":
            n = ty["n"]
            if isinstance(n, int):
                return Buf(P(n), [(P(n), ("orig", name, ZERO))] if n else [], ty["elem"])
            return Sym(name, t)
        if k == "fndef": return Fn(t)
        if k == "closure":
            return Sym(name, t)
        return Sym(name, t)

    def symbuf(self, name, ety, imprecise=False):
        sz = self.size_of(ety) if ety is not None else ONE
        mx = MAX_ALLOC
        if sz.is_const() and sz.c > 1: mx = MAX_ALLOC // sz.c
        n = P(atom(("len", name), "len(%s)" % pname(name), 0, mx, "len", (name,), imprecise))
        return Buf(n, [(n, ("orig", name, ZERO))], ety)

    def elem(self, st, name, idx, ety):
        """element idx of symbolic sequence `name`"""
        return self.sym(st, ("elem", name, idx), ety, self.name_imprecise(name))
    def name_imprecise(self, name):
        return isinstance(name, tuple) and len(name) > 0 and name[0] == "any"

    # ------------------------------------------------------------ places
    def expand(self, st, v, variant, t=None):
        """Sym of struct/enum (variant known) -> Agg"""
        ty = self.T(v.ty)
        if ty["k"] == "adt":
            vs = ty["variants"]
            if variant >= len(vs): return TOP
            fs = [self.sym(st, ("fld", v.name, variant, f[0]) if ty["adt"] == "enum" else ("fld", v.name, f[0]), f[1]) for f in vs[variant]["fields"]]
            return Agg("adt:" + ty["def"], variant, fs, v.ty)
        if ty["k"] == "closure":
            fs = [self.sym(st, ("fld", v.name, i), u) for i, u in enumerate(ty["upvars"])]
            return Agg("closure:" + ty["def"], 0, fs, v.ty)
        return TOP

    def proj(self, st, v, e):
        """project value by path element"""
        if e[0] == "f":
            _, var, i = e
            if isinstance(v, Sym):
                v = self.expand(st, v, var)
            if isinstance(v, Agg):
                if v.variant != var or i >= len(v.fields): return TOP
                return v.fields[i]
            return TOP
        if e[0] == "e":
            if isinstance(v, Buf):
                r = self.buf_get(st, v, e[1])
                return r
            return TOP
        return TOP

    def get(self, st, place):
        root, path = place
        v = st.store.get(root, TOP)
        for e in path: v = self.proj(st, v, e)
        return v

    def put(self, st, place, val):
        root, path = place
        if not path:
            st.store[root] = val; return
        st.store[root] = self.upd(st, st.store.get(root, TOP), path, val)

    def upd(self, st, v, path, val):
        if not path: return val
        e = path[0]
        if e[0] == "f":
            _, var, i = e
            if isinstance(v, Sym): v = self.expand(st, v, var)
            if v is TOP:
                # under construction field by field
                return Agg("partial", var, [TOP] * i + [self.upd(st, TOP, path[1:], val)])
            if isinstance(v, Agg):
                if v.kind == "partial" and len(v.fields) <= i:
                    v = Agg("partial", var, list(v.fields) + [TOP] * (i + 1 - len(v.fields)))
                if i >= len(v.fields): return TOP
                fs = list(v.fields); fs[i] = self.upd(st, fs[i], path[1:], val)
                return Agg(v.kind, v.variant, fs, v.ty)
            return TOP
        if e[0] == "e":
            if isinstance(v, Buf):
                if path[1:]:
                    cur = self.buf_get(st, v, e[1])
                    val = self.upd(st, cur, path[1:], val)
                return self.buf_set(st, v, e[1], val)
            return TOP
        return TOP

    # ------------------------------------------------------------ containers
    def norm_segs(self, st, segs):
        out = []
        for l, d in segs:
            if l.is_const() and l.c == 0: continue
            if not l.is_const() and st is not None and d[0] != "vals" and st.proves_ge(-l): continue
            if out:
                pl, pd = out[-1]
                if d[0] == "fill" and pd[0] == "fill" and d[1] == pd[1]:
                    out[-1] = (pl + l, d); continue
                if d[0] == "orig" and pd[0] == "orig" and d[1] == pd[1] and pd[2] + pl == d[2]:
                    out[-1] = (pl + l, pd); continue
                if d[0] == "vals" and pd[0] == "vals":
                    out[-1] = (pl + l, ("vals", pd[1] + d[1])); continue
            out.append((l, d))
        return out

    def sub_desc(self, l, d, a, b):
        """desc of the sub range [a, b) of a segment (l, d); None if not representable"""
        k = d[0]
        if k == "fill": return d
        if k == "orig": return ("orig", d[1], d[2] + a)
        if k == "vals":
            if a.is_const() and b.is_const(): return ("vals", d[1][a.c:b.c])
            return None
        if k == "le":
            if a.is_const() and b.is_const() and a.c == 0 and b.c == d[2]: return d
            if a.is_const() and b.is_const():
                nm = ("lebytes", d[1] if not isinstance(d[1], Poly) else d[1], d[2])
                return ("orig", nm, a)
            return None
        return None

    def split(self, st, segs, pos):
        """(left segs, right segs) cut at offset pos; None if undecidable"""
        left = []; acc = ZERO
        for i, (l, d) in enumerate(segs):
            rem = pos - acc
            if rem == ZERO or (not rem.is_const() and st.proves_eq(rem)):
                return left, list(segs[i:])
            if rem == l:
                left.append((l, d)); return left, list(segs[i+1:])
            if st.proves_ge(rem - l):
                left.append((l, d)); acc = acc + l; continue
            if st.proves_ge(rem) and st.proves_ge(l - rem):
                a = self.sub_desc(l, d, ZERO, rem); b = self.sub_desc(l, d, rem, l)
                if (a is None or b is None) and l.is_const() and l.c <= 16:
                    for k in range(1, l.c):
                        if st.proves_eq(rem - k):
                            rem = P(k); a = self.sub_desc(l, d, ZERO, rem); b = self.sub_desc(l, d, rem, l); break
                if a is None or b is None: return None
                left.append((rem, a))
                return left, [(l - rem, b)] + list(segs[i+1:])
            return None
        if st.proves_eq(pos - acc): return left, []
        return None

    def cut(self, st, buf, off, n):
        """segments of [off, off+n) or None"""
        r = self.split(st, list(buf.segs), off)
        if r is None: return None
        r2 = self.split(st, r[1], n)
        if r2 is None: return None
        return r2[0]

    def replace(self, st, buf, off, n, mid):
        r = self.split(st, list(buf.segs), off)
        if r is None: return None
        r2 = self.split(st, r[1], n)
        if r2 is None: return None
        return Buf(buf.len, self.norm_segs(st, r[0] + list(mid) + r2[1]), buf.ety)

    def blur(self, st, buf, off, n, why):
        """the buffer after an update of [off, off+n) that cannot be located exactly"""
        segs = list(buf.segs); lo = []; hi = []; acc = ZERO
        while segs and st.proves_ge(off - acc - segs[0][0]):
            acc = acc + segs[0][0]; lo.append(segs.pop(0))
        end = buf.len
        while segs and st.proves_ge(end - segs[-1][0] - off - n):
            end = end - segs[-1][0]; hi.insert(0, segs.pop())
        return Buf(buf.len, self.norm_segs(st, lo + [(end - acc, self.any_desc(why))] + hi), buf.ety)

    def decide(self, st, place, *points, cap=16):
        """states (a partition of st) in which every point falls into a known segment of the buffer at place"""
        work = [st]
        for p in points:
            out = []
            for s in work:
                b = self.get(s, place)
                if not isinstance(b, Buf) or self.split(s, list(b.segs), p) is not None: out.append(s); continue
                for s2 in self.partition_points(s, b, p):
                    b2 = self.get(s2, place)
                    if self.split(s2, list(b2.segs), p) is not None: out.append(s2); continue
                    acc = ZERO; done = False
                    for l, d in b2.segs:
                        rem = p - acc
                        if l.is_const() and l.c <= 16 and d[0] in ("le", "vals") and s2.proves_ge(rem) and s2.proves_ge(l - rem):
                            for k in range(0, l.c + 1): out += s2.assume(beq(rem - k))
                            done = True; break
                        acc = acc + l
                    if not done: out.append(s2)
                if len(out) > cap: return [st]
            work = out
        return work

    def any_desc(self, why):
        a = fresh("any_" + why, imprecise=True)
        return ("orig", ("any", a.name), ZERO)

    def partition_points(self, st, buf, pos):
        """States partitioned so that `pos` has a decided segment."""
        acc = ZERO; out = []
        cur = [st]
        bounds = []
        for l, d in buf.segs:
            bounds.append(acc); acc = acc + l
        res = []
        for s in cur:
            work = [s]
            for i, (l, d) in enumerate(buf.segs):
                nxt = []
                for w in work:
                    hit = w.assume(bge((bounds[i] + l) - pos - 1))
                    res += hit
                    nxt += w.assume(bge(pos - bounds[i] - l))
                work = nxt
                if not work: break
            res += work
        return res

    def buf_get(self, st, buf, idx):
        acc = ZERO
        for l, d in buf.segs:
            rem = idx - acc
            if st.proves_ge(rem) and st.proves_ge(l - rem - 1):
                return self.desc_elem(st, l, d, rem, buf.ety)
            if not st.proves_ge(rem - l): break
            acc = acc + l
        a = fresh("unk_elem", imprecise=True)
        return self.sym(st, ("any", a.name), buf.ety, True)

    def desc_elem(self, st, l, d, rem, ety):
        if d[0] == "fill": return d[1]
        if d[0] == "orig": return self.elem(st, d[1], d[2] + rem, ety)
        if d[0] == "vals" and rem.is_const(): return d[1][rem.c]
        if d[0] == "le": return self.elem(st, ("lebytes", d[1], d[2]), rem, ety)
        a = fresh("unk_elem", imprecise=True)
        return self.sym(st, ("any", a.name), ety, True)

    def buf_set(self, st, buf, idx, val):
        mid = [(ONE, ("vals", (val,)))]
        r = self.replace(st, buf, idx, ONE, mid)
        if r is None:
            return self.blur(st, buf, idx, ONE, "set")
        return r

    # ------------------------------------------------------------ obligations / outcomes
    def site(self):
        return self.stack[-1] if self.stack else ("?", "?")
    def where(self, sp=None):
        fn = self.stack[-1][0] if self.stack else "?"
        return fn, sp or "?"

    def oblige(self, st, kind, cond, sp, detail="", fn=None):
        """record that `cond` must hold here"""
        ok = st.proves(cond)
        status = "proven"
        if not ok:
            neg = st.assume(bnot(cond))
            status = "violated"
            if not neg: status = "proven"
            elif st.joined or self.imprecise_state(st, cond): status = "undecided"
        wit = None
        if status == "violated" and self.recording[-1]:
            wit = witness.of_states(neg)
            if wit is None: status = "undecided"; detail += " (no concrete member of the abstract state found)"
        if self.recording[-1]:
            self.obls.append({"kind": kind, "fn": fn or (self.stack[-1][0] if self.stack else "?"), "span": sp, "status": status,
                              "cond": repr(cond), "detail": detail, "witness": wit, "chain": [x[0] for x in self.stack]})
        return ok

    def imprecise_state(self, st, cond=None):
        ps = []
        def coll(b):
            if b.k in ("ge", "eq", "ne"): ps.append(b.a[0])
            elif b.k in ("and", "or"):
                for x in b.a: coll(x)
            elif b.k == "at":
                if deep_any(b.a[0]): ps.append(P(fresh("i", imprecise=True)))
        if cond is not None: coll(cond)
        return imprecise_in(ps)

    def panic(self, st, kind, msg, sp, cond=None):
        if self.recording[-1]:
            self.panics.append({"kind": kind, "msg": msg, "span": sp, "fn": self.stack[-1][0] if self.stack else "?",
                                "chain": [x[0] for x in self.stack], "state": st, "cond": cond,
                                "imprecise": st.joined or (self.imprecise_state(st, cond) if cond is not None else False)})

    # ------------------------------------------------------------ evaluation
    def resolve_place(self, st, fr, pl):
        """MIR place -> list of (abstract place or ('val', v))"""
        place = (("L", fr, pl[0]), ())
        var = 0
        for e in pl[1:]:
            if e == "*":
                v = self.get(st, place)
                if isinstance(v, Ref): place = v.place
                elif isinstance(v, Slice): place = ("slice", v)
                elif isinstance(v, Ptr): place = ("ptr", v)
                elif isinstance(v, Str): place = ("val", v)
                elif isinstance(v, Agg) and v.kind == "box": place = v.fields[0].place
                elif isinstance(v, Sym):
                    root = ("D", v.name)
                    if root not in st.store:
                        ty = self.T(v.ty)
                        if "elem" in ty: st.store[root] = self.sym(st, ("deref", v.name), ty["elem"])
                        else: st.store[root] = Sym(("deref", v.name), -1)
                    place = (root, ())
                else: return None
                var = 0
            elif e == "?": return None
            elif e[0] == "d": var = e[1]
            elif e[0] == "f":
                if place[0] in ("slice", "val"): return None
                if place[0] == "ptr": return None
                place = (place[0], place[1] + (("f", var, e[1]),)); var = 0
            elif e[0] == "i":
                idx = st.store.get(("L", fr, e[1]), TOP)
                if not isinstance(idx, Poly): return None
                if place[0] == "slice":
                    s = place[1]
                    place = (s.place[0], s.place[1] + (("e", s.off + idx),))
                elif place[0] in ("val", "ptr"): return None
                else: place = (place[0], place[1] + (("e", idx),))
            elif e[0] == "ci":
                if place[0] == "slice":
                    s = place[1]
                    i = s.len - e[1] if e[3] else P(e[1])
                    place = (s.place[0], s.place[1] + (("e", s.off + i),))
                else:
                    b = self.get(st, place)
                    if not isinstance(b, Buf): return None
                    i = b.len - e[1] if e[3] else P(e[1])
                    place = (place[0], place[1] + (("e", i),))
            elif e[0] == "sub":
                if place[0] == "slice":
                    s = place[1]
                    end = s.len - e[2] if e[3] else P(e[2])
                    place = ("slice", Slice(s.place, s.off + e[1], end - e[1], s.str))
                else: return None
            else: return None
        return place

    def read_place(self, st, fr, pl, sp=None):
        place = self.resolve_place(st, fr, pl)
        if place is None: return TOP
        if place[0] == "slice": return place[1]
        if place[0] == "val": return place[1]
        if place[0] == "ptr": return self.ptr_read(st, place[1], sp)
        return self.get(st, place)

    def const_val(self, st, c, key):
        t = c["t"]; ty = self.T(t)
        v = c.get("v")
        if "promoted" in c or v is None:
            if "promoted" in c:
                pk = "%s#promoted%d" % (key, c["promoted"])
                if pk in self.p.bodies:
                    outs = self.call_body(st, pk, [])
                    if len(outs) == 1:
                        st.store = outs[0][1].store
                        return outs[0][0]
        if v is None:
            if ty["k"] == "adt" and not ty.get("variants", [{"fields": [1]}])[0]["fields"] and ty["adt"] == "struct":
                return Agg("adt:" + ty["def"], 0, (), t)
            return self.sym(st, ("const", c["p"]), t)
        return self.json_val(st, v, t, c)

    def json_val(self, st, v, t, c=None):
        ty = self.T(t)
        if v is None: return self.sym(st, ("const", (c or {}).get("p", "?")), t)
        k = v["k"]
        if k == "fn":
            if c is not None and c.get("fkey") in self.p.bodies: self.fnkeys[t] = c
            return Fn(t)
        if k == "bits":
            n = int(v["v"])
            if ty["k"] == "bool": return TRUE if n else FALSE
            if ty["k"] == "int":
                if ty["signed"] and n >= 2**(ty["bits"]-1): n -= 2**ty["bits"]
                return P(n)
            if ty["k"] == "char": return P(n)
            if ty["k"] == "float": return Sym(("fbits", ty["bits"], n), t)
            if ty["k"] == "adt" and ty["adt"] == "struct":
                fs = ty["variants"][0]["fields"]
                nz = [f for f in fs if self.T(f[1]).get("size", 1) != 0]
                if len(nz) == 1:
                    return Agg("adt:" + ty["def"], 0, [self.json_val(st, v, f[1]) if f is nz[0] else self.zst(f[1]) for f in fs], t)
            if ty["k"] == "adt" and ty["adt"] == "enum":
                for i, d in enumerate(ty["discrs"]):
                    if int(d) == n and not ty["variants"][i]["fields"]:
                        return Agg("adt:" + ty["def"], i, (), t)
            return self.sym(st, ("const", (c or {}).get("p", n)), t)
        if k == "zst": return self.zst(t)
        if k == "str": return Str(v["v"])
        if k == "ref":
            e = ty["elem"]
            ek = self.T(e)["k"]
            iv = self.json_val(st, v["v"], e)
            root = ("K", json.dumps(v, sort_keys=True), self.T(e)["s"])
            if root not in st.store: st.store[root] = iv
            if self.T(e)["k"] == "str" and isinstance(iv, Str): return iv
            return Ref((root, ()))
        if k == "slice":
            e = self.T(ty["elem"])["elem"] if ty["k"] == "ref" else ty["elem"]
            vals = tuple(self.json_val(st, x, e) for x in v["v"])
            root = ("K", json.dumps(v, sort_keys=True), self.T(e)["s"])
            st.store[root] = Buf(P(len(vals)), [(P(len(vals)), ("vals", vals))] if vals else [], e)
            return Slice((root, ()), ZERO, P(len(vals)))
        if k == "array":
            e = ty["elem"]
            vals = tuple(self.json_val(st, x, e) for x in v["v"])
            return Buf(P(len(vals)), [(P(len(vals)), ("vals", vals))] if vals else [], e)
        if k == "tuple":
            return Agg("tuple", 0, [self.json_val(st, x, e) for x, e in zip(v["v"], ty["elems"])], t)
        if k == "adt":
            fs = ty["variants"][v["variant"]]["fields"]
            return Agg("adt:" + ty["def"], v["variant"], [self.json_val(st, x, f[1]) for x, f in zip(v["v"], fs)], t)
        return TOP

    def zst(self, t):
        ty = self.T(t)
        if ty["k"] == "tuple": return Agg("tuple", 0, [self.zst(e) for e in ty["elems"]], t)
        if ty["k"] == "adt":
            if ty["adt"] == "struct": return Agg("adt:" + ty["def"], 0, [self.zst(f[1]) for f in ty["variants"][0]["fields"]], t)
            return Agg("adt:" + ty["def"], 0, (), t)
        if ty["k"] == "fndef": return Fn(t)
        if ty["k"] == "closure": return Agg("closure:" + ty["def"], 0, (), t)
        if ty["k"] == "array": return Buf(ZERO, [], ty["elem"])
        return Sym(("zst", ty["s"]), t)

    def operand(self, st, fr, op, key, sp=None):
        if op[0] in ("c", "m"):
            return self.read_place(st, fr, op[1], sp)
        if op[0] == "k": return self.const_val(st, op[1], key)
        return FALSE   # runtime checks (ub_checks etc.)

    def wrap(self, st, p, t):
        """value of the mathematical integer p in machine type t"""
        r = self.int_range(t)
        if r is None: return p
        lo, hi = r
        if st.proves_ge(p - lo) and st.proves_ge(P(hi) - p): return p
        n = hi - lo + 1
        if lo == 0: return mod_(p, n)
        m = mod_(p, n)
        if m.is_const(): return P(m.c if m.c <= hi else m.c - n)
        if len(m.m) == 1 and m.c == 0 and m.m[0][1] == 1 and len(m.m[0][0]) == 1:
            a = Atom.byid[m.m[0][0][0]]
            if a.fn == "mod" and a.args[1] == n:
                q = a.args[0]
                # the representative in the signed range, if known
                for d in (0, -n):
                    if st.proves_ge(q + d - lo) and st.proves_ge(P(hi) - q - d): return q + d
        if st.proves_ge(P(hi) - m): return m
        if st.proves_ge(m - hi - 1): return m - n
        a = atom(("signed", m, n), "signed(%r)" % m, lo, hi, "signed", (m, n))
        return P(a)

    def cmp(self, st, op, a, b):
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op == "Eq": return beq(a - b)
            if op == "Ne": return bnot(beq(a - b))
            if op == "Lt": return bge(b - a - 1)
            if op == "Le": return bge(b - a)
            if op == "Gt": return bge(a - b - 1)
            if op == "Ge": return bge(a - b)
        if isinstance(a, B) and isinstance(b, B):
            if op in ("Eq", "Ne"):
                if a == b: return TRUE if op == "Eq" else FALSE
                if a == bnot(b) or bnot(a) == b: return FALSE if op == "Eq" else TRUE
                r = bor(band(a, b), band(bnot(a), bnot(b)))
                return r if op == "Eq" else bnot(r)
        if op in ("Eq", "Ne") and isinstance(a, Sym) and isinstance(b, Sym) and self.T(a.ty)["k"] == "float" and self.T(b.ty)["k"] == "float":
            r = self.float_eq(st, a, b)
            if r is not None: return r if op == "Eq" else bnot(r)
        if op in ("Eq", "Ne") and not isinstance(a, Top) and not isinstance(b, Top):
            if isinstance(a, Sym) and isinstance(b, Sym) and self.T(a.ty)["k"] != "float":
                if a == b: return TRUE if op == "Eq" else FALSE
            if isinstance(a, Ptr): a = self.origin(a)
            if isinstance(b, Ptr): b = self.origin(b)
            if isinstance(a, (Ref, Ptr, Slice)) and isinstance(b, (Ref, Ptr, Slice)) and type(a) == type(b):
                if a == b: return TRUE if op == "Eq" else FALSE
                if isinstance(a, Ptr) and a.place == b.place:
                    r = beq(a.off - b.off)
                    return r if op == "Eq" else bnot(r)
        ka, kb = self.termkey(st, a), self.termkey(st, b)
        neg = False
        if op == "Ne": op = "Eq"; neg = True
        if op == "Ge": op = "Lt"; neg = True
        if op == "Gt": op = "Lt"; ka, kb = kb, ka
        if op == "Le": op = "Lt"; ka, kb = kb, ka; neg = True
        if op == "Eq" and repr(kb) < repr(ka): ka, kb = kb, ka
        if isinstance(a, Top) or isinstance(b, Top):
            return B("at", ("any", fresh("cmp", imprecise=True).name), True)
        r = B("at", ("app", op, ka, kb), True)
        return bnot(r) if neg else r

    def float_eq(self, st, a, b):
        """IEEE equality through the bits: exact if one side is a constant or both are the same"""
        n = self.T(a.ty)["bits"]
        x, y = self.float_bits(st, a), self.float_bits(st, b)
        if x.is_const(): x, y = y, x
        sign = 1 << (n - 1); inf = 0x7ff0000000000000 if n == 64 else 0x7f800000
        if y.is_const():
            c = y.c
            if c & (sign - 1) > inf: return FALSE
            if c & (sign - 1) == 0: return bor(beq(x), beq(x - sign)) if not x.is_const() else (TRUE if x.c in (0, sign) else FALSE)
            return beq(x - c)
        if x == y: return bge(P(inf) - mod_(x, sign))
        return None

    def origin(self, p):
        """typed views made with from_raw_parts keep the address of their bytes"""
        o = self.views.get(p.place)
        if o is None: return p
        return Ptr(o[0], o[1] + p.off * o[2], p.ty)

    def binop(self, st, op, a, b, t, sp):
        """returns value (or tuple Agg for WithOverflow)"""
        if op.endswith("WithOverflow"):
            base = op[:-12]
            if isinstance(a, Poly) and isinstance(b, Poly):
                r = a + b if base == "Add" else a - b if base == "Sub" else a * b
                tt = self.T(t)
                it = tt["elems"][0]
                lo, hi = self.int_range(it)
                ok = band(bge(r - lo), bge(P(hi) - r))
                if st.proves(ok): return Agg("tuple", 0, (r, FALSE), t)
                return Agg("tuple", 0, (r, bnot(ok)), t)
            return Agg("tuple", 0, (TOP, FALSE), t)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"): return self.cmp(st, op, a, b)
        if op == "Offset" and isinstance(a, Ptr) and isinstance(b, Poly):
            return Ptr(a.place, a.off + b * self.ptr_scale(st, a), a.ty)
        if isinstance(a, B) and isinstance(b, B):
            if op == "BitAnd": return band(a, b)
            if op == "BitOr": return bor(a, b)
            if op == "BitXor": return bnot(self.cmp(st, "Eq", a, b))
        if isinstance(a, Poly) and isinstance(b, Poly):
            if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
                r = a + b if op.startswith("Add") else a - b if op.startswith("Sub") else a * b
                return self.wrap(st, r, t)
            if op == "Div" and b.is_const() and b.c > 0 and st.proves_ge(a): return div_(a, b.c)
            if op == "Rem" and b.is_const() and b.c > 0 and st.proves_ge(a): return mod_(a, b.c)
            if op == "BitAnd":
                for x, y in ((a, b), (b, a)):
                    if y.is_const() and y.c >= 0 and (y.c & (y.c + 1)) == 0:
                        return mod_(x, y.c + 1)
                    if y.is_const() and y.c == 0: return ZERO
                    # all-ones of the type
                    r = self.int_range(t)
                    if y.is_const() and r and y.c == r[1] and r[0] == 0: return x
                    # a mask that clears the low bits (x & !(2^n - 1)): round down
                    if y.is_const() and r:
                        low = ((r[1] - y.c) if r[0] == 0 else (-y.c - 1))
                        if low > 0 and (low & (low + 1)) == 0 and (r[0] != 0 or st.proves_ge(x)): return x - mod_(x, low + 1)
                if a.is_const() and b.is_const(): return P(a.c & b.c)
            if a.is_const() and b.is_const():
                if op == "BitOr": return P(a.c | b.c)
                if op == "BitXor": return P(a.c ^ b.c)
            if op in ("Shl", "ShlUnchecked") and b.is_const(): return self.wrap(st, a * (1 << b.c), t)
            if op in ("Shr", "ShrUnchecked") and b.is_const() and st.proves_ge(a): return div_(a, 1 << b.c)
            r = self.int_range(t)
            ka, kb = a, b
            lo, hi = r if r else (None, None)
            if op == "BitAnd" and st.proves_ge(a) and st.proves_ge(b):
                _, ha = a.bounds(); _, hb = b.bounds()
                if ha is not None and hb is not None: hi = min(ha, hb)
            return P(atom(("bin", op, ka, kb), "(%r %s %r)" % (a, op, b), lo, hi, "bin", (op, a, b)))
        if op == "Cmp":
            return Sym(("app", "Cmp", self.termkey(st, a), self.termkey(st, b)), t)
        if isinstance(a, Top) or isinstance(b, Top): return self.havoc(st, t, "binop")
        return self.opaque(st, "bin" + op, [a, b], t)

    def ptr_scale(self, st, ptr):
        """container elements per pointee"""
        c = self.get(st, ptr.place)
        if isinstance(c, Buf):
            ce = self.size_of(c.ety)
            pe = self.size_of(ptr.ty)
            if ce == pe: return ONE
            if ce == ONE: return pe
        return self.size_of(ptr.ty)

    def havoc(self, st, t, why):
        a = fresh("havoc_" + why, imprecise=True)
        return self.sym(st, ("any", a.name), t, True)

    def termkey(self, st, v, depth=0):
        """structural key of a value (contents of what references point to)"""
        if depth > 8: return "..."
        if isinstance(v, (Poly,)): return v
        if isinstance(v, B): return v
        if isinstance(v, Sym): return v.name
        if isinstance(v, Str): return v.s
        if isinstance(v, Fn): return ("fn", self.T(v.ty)["s"])
        if isinstance(v, Agg):
            return ("agg", v.kind, v.variant) + tuple(self.termkey(st, f, depth + 1) for f in v.fields)
        if isinstance(v, Ref): return ("&", self.termkey(st, self.get(st, v.place), depth + 1))
        if isinstance(v, Slice):
            c = self.get(st, v.place)
            if isinstance(c, Buf):
                s = self.cut(st, c, v.off, v.len)
                if s is not None: return ("sl", v.len, tuple((l, self.dkey(st, d, depth)) for l, d in self.norm_segs(st, s)))
                return ("sl", v.off, v.len, self.termkey(st, c, depth + 1))
            return ("sl", v.off, v.len, self.termkey(st, c, depth + 1))
        if isinstance(v, Ptr): return ("ptr", v.place, v.off)
        if isinstance(v, Buf):
            return ("buf", v.len, tuple((l, self.dkey(st, d, depth)) for l, d in v.segs))
        return ("any", fresh("topkey", imprecise=True).name)
    def dkey(self, st, d, depth):
        if d[0] == "vals": return ("vals",) + tuple(self.termkey(st, x, depth + 1) for x in d[1])
        if d[0] == "fill": return ("fill", self.termkey(st, d[1], depth + 1))
        if d[0] == "le": return ("le", self.termkey(st, d[1], depth + 1), d[2])
        return d

    def opaque(self, st, fn, args, t):
        """pure uninterpreted function application"""
        name = ("app", fn) + tuple(self.termkey(st, a) for a in args)
        return self.sym(st, name, t, fn.startswith(("transmute", "cast", "reinterpret")))     # reinterpreted bits are not followed: no violation rests on them

    def cast(self, st, kind, v, t, src_op, fr, key, body):
        ty = self.T(t)
        if kind == "IntToInt":
            if isinstance(v, Poly): return self.wrap(st, v, t)
            if isinstance(v, B): return self.b2i(v)
            if isinstance(v, Agg) and v.ty is not None and self.T(v.ty).get("discrs"):
                return self.wrap(st, P(int(self.T(v.ty)["discrs"][v.variant])), t)
            return self.opaque(st, "cast", [v], t)
        if kind.startswith("PtrToPtr") or kind.startswith("Transmute") or kind.startswith("PointerCoercion") or kind.startswith("Subtype"):
            if "Unsize" in kind:
                if isinstance(v, Ref):
                    c = self.get(st, v.place)
                    if isinstance(c, Buf) and self.T(ty["elem"])["k"] == "slice" if ty["k"] in ("ref", "rawptr") else False:
                        return Slice(v.place, ZERO, c.len)
                return v
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind or "UnsafeFnPointer" in kind: return v
            if "MutToConst" in kind: return v
            if isinstance(v, Ptr):
                if ty["k"] == "rawptr": return Ptr(v.place, v.off, ty["elem"])
                return v
            if isinstance(v, Slice) and ty["k"] == "rawptr" and self.T(ty["elem"])["k"] not in ("slice", "str"):
                return Ptr(v.place, v.off, ty["elem"])
            if isinstance(v, Ref) and ty["k"] == "rawptr":
                return v
            if kind.startswith("Transmute"):
                return self.transmute(st, v, t)
            return v
        if kind.startswith("PointerExposeProvenance"):
            if isinstance(v, Ptr):
                base = P(atom(("addr", v.place), "addr(%s)" % (v.place,), 1, ISIZE_MAX, "addr", (v.place,)))
                c = self.get(st, v.place)
                return base + v.off * (self.size_of(c.ety) if isinstance(c, Buf) else ONE)
        return self.opaque(st, "cast:" + kind, [v, Sym(ty["s"], t)], t)

    def b2i(self, v):
        if v.k == "c": return ONE if v.a[0] else ZERO
        return P(atom(("boolint", v), "int%r" % v, 0, 1, "boolint", (v,)))

    def transmute(self, st, v, t):
        ty = self.T(t)
        if isinstance(v, (Ref, Slice, Ptr)) and ty["k"] in ("ref", "rawptr"): return v
        if isinstance(v, Poly) and ty["k"] in ("int",): return self.wrap(st, v, t)
        if isinstance(v, Agg) and v.ty == t: return v
        return self.opaque(st, "transmute", [v], t)

    # raw memory ------------------------------------------------------------
    def ptr_read(self, st, ptr, sp, aligned=True):
        c = self.get(st, ptr.place)
        if not isinstance(c, Buf):
            if ptr.off == ZERO: return c
            return self.havoc(st, ptr.ty, "ptrread")
        ce = self.size_of(c.ety)
        sz = self.size_of(ptr.ty)
        if ce == ONE and self.T(c.ety)["k"] == "int":
            self.mem_obl(st, ptr, sz, c, sp, aligned, "read")
            self.validity_obl(st, ptr.ty, sp, c, ptr.off)
            return self.load_le(st, c, ptr.off, ptr.ty)
        self.oblige(st, "raw-read-in-bounds", band(bge(ptr.off), bge(c.len - ptr.off - 1)), sp)
        return self.buf_get(st, c, ptr.off)

    def mem_obl(self, st, ptr, sz, c, sp, aligned, what):
        self.oblige(st, "raw-%s-in-bounds" % what, band(bge(ptr.off), bge(c.len - ptr.off - sz)), sp,
                    "%s of %s at byte %r of a buffer of %r bytes" % (what, self.T(ptr.ty)["s"], ptr.off, c.len))
        al = self.align_of(ptr.ty)
        if aligned and al != ONE:
            self.align_obl(st, ptr, al, sp, what)

    def align_obl(self, st, ptr, al, sp, what):
        ok = False
        if st.bools.get(("aligned", ptr.place, ptr.off, al)): ok = True
        if al.is_const():
            a = P(atom(("addr", ptr.place), "addr(%s)" % (ptr.place,), 1, ISIZE_MAX, "addr", (ptr.place,)))
            if st.proves_eq(mod_(a + ptr.off, al.c)): ok = True
        if self.recording[-1]:
            self.obls.append({"kind": "raw-%s-aligned" % what, "fn": self.stack[-1][0] if self.stack else "?", "span": sp,
                              "status": "proven" if ok else "violated",
                              "cond": "address of byte %r is a multiple of %r" % (ptr.off, al),
                              "detail": "%s through a pointer to %s made from a byte buffer" % (what, self.T(ptr.ty)["s"]),
                              "chain": [x[0] for x in self.stack]})

    def validity_obl(self, st, t, sp, c=None, off=None):
        """every bit pattern must be a value of the type"""
        ty = self.T(t)
        bad = self.has_niche(t)
        if self.recording[-1]:
            self.obls.append({"kind": "raw-read-valid-value", "fn": self.stack[-1][0] if self.stack else "?", "span": sp,
                              "status": "proven" if bad is False else "undecided" if bad is None else "violated",
                              "cond": "all bit patterns of %s are values" % ty["s"], "detail": "",
                              "chain": [x[0] for x in self.stack]})

    def has_niche(self, t):
        ty = self.T(t); k = ty["k"]
        if k in ("int", "float"): return False
        if k in ("bool", "char", "ref", "fnptr", "never", "str"): return True
        if k == "tuple":
            r = [self.has_niche(e) for e in ty["elems"]]
            return True if True in r else None if None in r else False
        if k == "array": return self.has_niche(ty["elem"])
        if k == "adt":
            if ty["adt"] == "enum": return True
            if ty["adt"] == "union": return False
            r = [self.has_niche(f[1]) for f in ty["variants"][0]["fields"]]
            return True if True in r else None if None in r else False
        return None

    def load_le(self, st, c, off, t):
        """little-endian load of type t at byte offset off of byte container c"""
        ty = self.T(t)
        szp = self.size_of(t)
        segs = self.cut(st, c, off, szp) if szp.is_const() else None
        if not szp.is_const():
            segs = self.cut(st, c, off, szp)
        if segs is not None:
            segs = self.norm_segs(st, segs)
        if segs is not None and len(segs) == 1:
            l, d = segs[0]
            if d[0] == "le" and szp.is_const() and d[2] == szp.c:
                v = d[1]
                if isinstance(v, Poly) and ty["k"] == "int": return self.wrap(st, v, t)
                if isinstance(v, B) and ty["k"] == "bool": return v
                if ty["k"] == "float":
                    return v if isinstance(v, Sym) and v.ty == t else Sym(("frombits", v), t) if isinstance(v, Poly) else self.opaque(st, "reinterpret", [v], t)
                if isinstance(v, Sym) and self.T(v.ty)["k"] == "float" and ty["k"] == "int":
                    return self.wrap(st, self.float_bits(st, v), t)
                if isinstance(v, B) and ty["k"] == "int":
                    return P(atom(("boolint", v), "int%r" % v, 0, 1, "boolint", (v,)))
                if isinstance(v, Sym) and v.ty == t: return v
                return self.opaque(st, "reinterpret", [v], t)
            if d[0] == "fill" and isinstance(d[1], Poly) and d[1] == ZERO:
                if ty["k"] == "int": return ZERO
                if ty["k"] == "bool": return FALSE
                if ty["k"] == "float": return Sym(("fbits", ty["bits"], 0), t)
            if d[0] == "orig" and isinstance(d[1], tuple) and d[1] and d[1][0] == "bytesof":
                # bytes of a typed sequence: whole elements are read back as such
                if len(d[1]) == 5 and szp.is_const() and szp.c == d[1][3] and all(k % szp.c == 0 for _, k in d[2].m) and d[2].c % szp.c == 0:
                    x = self.elem(st, d[1][1], d[1][2] + div_(d[2], szp.c), d[1][4])
                    if isinstance(x, Poly) and ty["k"] == "int": return self.wrap(st, x, t)
                    if isinstance(x, Sym) and x.ty == t: return x
                return self.havoc(st, t, "load")
            if d[0] == "orig" and ty["k"] == "float":
                u = P(atom(("sym", ("rd", d[1], d[2], szp, "u")), pname(("rd", d[1], d[2], szp, "u")), 0, 256**szp.c - 1, "sym", (("rd", d[1], d[2], szp, "u"),), self.name_imprecise(d[1])))
                return Sym(("frombits", u), t)
            if d[0] == "orig" and ty["k"] == "int" and ty["signed"] and szp.is_const():
                nu = ("rd", d[1], d[2], szp, "u")
                u = P(atom(("sym", nu), pname(nu), 0, 256**szp.c - 1, "sym", (nu,), self.name_imprecise(d[1]))) if szp != ONE else self.elem(st, d[1], d[2], c.ety)
                return self.wrap(st, u, t) if isinstance(u, Poly) else self.havoc(st, t, "load")
            if d[0] == "orig":
                nm = ("rd", d[1], d[2], szp, ty["s"] if ty["k"] != "int" or ty["signed"] else "u")
                if szp == ONE and ty["k"] == "int" and not ty["signed"]:
                    return self.elem(st, d[1], d[2], c.ety)
                return self.sym(st, nm, t, self.name_imprecise(d[1]))
            if d[0] == "vals" and szp == ONE and ty["k"] == "bool" and isinstance(d[1][0], Poly):
                x = d[1][0]
                if len(x.m) == 1 and x.c == 0 and x.m[0][1] == 1 and len(x.m[0][0]) == 1 and Atom.byid[x.m[0][0][0]].fn == "boolint":
                    return Atom.byid[x.m[0][0][0]].args[0]
                return bnot(beq(x))
            if d[0] == "vals" and szp == ONE and ty["k"] == "int": return self.wrap(st, d[1][0], t) if isinstance(d[1][0], Poly) else d[1][0]
        if segs is not None:
            nm = ("rdm", tuple((l, self.dkey(st, d, 0)) for l, d in segs), ty["s"])
            return self.sym(st, nm, t)
        return self.havoc(st, t, "load")

    def float_bits(self, st, x):
        if isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] == "frombits": return x.name[1]
        if isinstance(x, Sym) and isinstance(x.name, tuple) and x.name[0] == "fbits": return P(x.name[2])
        b = self.T(x.ty)["bits"]
        return P(atom(("tobits", self.termkey(st, x)), "bits(%r)" % (x,), 0, 2**b - 1, "tobits", (x,)))

    def store_le(self, st, place, off, t, v, sp):
        c = self.get(st, place)
        szp = self.size_of(t)
        if not isinstance(c, Buf): return
        if szp.is_const():
            if szp.c == 1 and isinstance(v, B): v = self.b2i(v)
            if szp.c == 1 and isinstance(v, Poly): mid = [(ONE, ("vals", (self.wrap(st, v, c.ety),)))]
            else: mid = [(szp, ("le", v, szp.c, self.T(t)["s"]))]
        else:
            mid = [(szp, ("orig", ("app", "le_bytes", self.termkey(st, v)), ZERO))]
        r = self.replace(st, c, off, szp, mid)
        if r is None:
            self.imprecise_notes.append(("store", sp))
            r = self.blur(st, c, off, szp, "store")
        self.put(st, place, r)

    def ptr_write(self, st, ptr, v, sp, aligned=True):
        c = self.get(st, ptr.place)
        if not isinstance(c, Buf):
            self.put(st, ptr.place, v); return
        if self.size_of(c.ety) == ONE and self.T(c.ety)["k"] == "int":
            self.mem_obl(st, ptr, self.size_of(ptr.ty), c, sp, aligned, "write")
            self.store_le(st, ptr.place, ptr.off, ptr.ty, v, sp)
        else:
            self.oblige(st, "raw-write-in-bounds", band(bge(ptr.off), bge(c.len - ptr.off - 1)), sp)
            self.put(st, ptr.place, self.buf_set(st, c, ptr.off, v))

    # ------------------------------------------------------------ statements
    def assign(self, st, fr, pl, v, sp):
        place = self.resolve_place(st, fr, pl)
        if place is None: return
        if place[0] == "ptr": self.ptr_write(st, place[1], v, sp); return
        if place[0] in ("slice", "val"): return
        self.put(st, place, v)

    def local_ty(self, place):
        """type of a whole local variable, None for anything else"""
        root, path = place
        if root[0] == "L" and not path and root[1] in self.frames: return self.frames[root[1]]["locals"][root[2]]
        return None

    def place_ty(self, body, pl):
        t = body["locals"][pl[0]]
        var = 0
        for e in pl[1:]:
            ty = self.T(t)
            if e == "*": t = ty.get("elem", -1)
            elif e == "?": return -1
            elif e[0] == "f": t = e[2]
            elif e[0] in ("i", "ci"): t = ty.get("elem", -1)
        return t

    def exec_stmt(self, st, fr, key, body, s):
        """list of successor states"""
        k = s[0]
        if k == "=":
            pl, rv, sp = s[1], s[2], s[3]
            r = rv[0]
            if r == "use":
                v = self.operand(st, fr, rv[1], key, sp)
            elif r == "ref" or r == "rawptr":
                place = self.resolve_place(st, fr, rv[1])
                if place is None: v = TOP
                elif place[0] == "slice": v = place[1]
                elif place[0] == "val": v = place[1]
                elif place[0] == "ptr":
                    p = place[1]
                    if r == "ref":
                        v = self.ref_of_ptr(st, p, sp)
                    else: v = p
                else:
                    v = Ref(place)
                    if place[1] and place[1][-1][0] == "e":
                        pass
            elif r == "discr":
                return self.discr(st, fr, pl, rv[1], body, sp)
            elif r == "bin":
                a = self.operand(st, fr, rv[2], key, sp); b = self.operand(st, fr, rv[3], key, sp)
                t = self.place_ty(body, pl)
                a2, b2, extra = self.pow2_split(st, rv[1], a, b)
                if extra is not None:
                    out = []
                    for st2, aa, bb in extra:
                        v = self.binop(st2, rv[1], aa, bb, t, sp)
                        self.assign(st2, fr, pl, v, sp); out.append(st2)
                    return out
                v = self.binop(st, rv[1], a, b, t, sp)
            elif r == "un":
                a = self.operand(st, fr, rv[2], key, sp)
                t = self.place_ty(body, pl)
                if rv[1] == "Not":
                    if isinstance(a, B): v = bnot(a)
                    elif isinstance(a, Poly):
                        rg = self.int_range(t)
                        v = P(rg[1]) - a if rg[0] == 0 else -a - 1
                    else: v = self.opaque(st, "not", [a], t)
                elif rv[1] == "Neg":
                    v = self.wrap(st, -a, t) if isinstance(a, Poly) else self.opaque(st, "neg", [a], t)
                elif rv[1] == "PtrMetadata":
                    if isinstance(a, Slice): v = a.len
                    elif isinstance(a, Str): v = P(len(a.s.encode()))
                    else: v = self.opaque(st, "meta", [a], t)
                else: v = self.opaque(st, "un" + rv[1], [a], t)
            elif r == "cast":
                a = self.operand(st, fr, rv[2], key, sp)
                v = self.cast(st, rv[1], a, rv[3], rv[2], fr, key, body)
            elif r == "agg":
                ops = [self.operand(st, fr, o, key, sp) for o in rv[2]]
                kk = rv[1]
                if kk["k"] == "tuple": v = Agg("tuple", 0, ops, self.place_ty(body, pl))
                elif kk["k"] == "adt":
                    if "active" in kk: v = ops[0] if ops else UNIT
                    else: v = Agg("adt:" + kk["def"], kk["variant"], ops, kk["t"] if kk["t"] >= 0 else None)
                elif kk["k"] == "closure": v = Agg("closure:" + kk["key"], 0, ops, self.place_ty(body, pl))
                elif kk["k"] == "array":
                    v = Buf(P(len(ops)), [(P(len(ops)), ("vals", tuple(ops)))] if ops else [], kk["t"])
                elif kk["k"] == "rawptr":
                    a, n = ops
                    if isinstance(a, Ptr) and isinstance(n, Poly): v = Slice(a.place, a.off, n)
                    else: v = a
                else: v = TOP
            elif r == "repeat":
                a = self.operand(st, fr, rv[1], key, sp)
                n = rv[2]
                ety = self.T(self.place_ty(body, pl)).get("elem", -1)
                if isinstance(n, int): v = Buf(P(n), [(P(n), ("fill", a))] if n else [], ety)
                else:
                    nn = P(atom(("constparam", n), n, 0, 2**32, "constparam", (n,)))
                    v = Buf(nn, [(nn, ("fill", a))], ety)
            else:
                v = TOP
            self.assign(st, fr, pl, v, sp)
            return [st]
        if k == "sd":
            place = self.resolve_place(st, fr, s[1])
            if place and place[0] not in ("slice", "val", "ptr"):
                v = self.get(st, place)
                if isinstance(v, Agg): self.put(st, place, Agg(v.kind, s[2], v.fields, v.ty))
                else: self.put(st, place, TOP)
            return [st]
        if k == "dead":
            st.store.pop(("L", fr, s[1]), None)
            return [st]
        if k == "assume": return [st]
        if k == "copy":
            return [st]
        return [st]

    def pow2_split(self, st, op, a, b):
        """x & (m - 1) with m from a small declared set: partition on m"""
        if op != "BitAnd" or not isinstance(a, Poly) or not isinstance(b, Poly): return a, b, None
        for x, y, sw in ((a, b, False), (b, a, True)):
            if y.is_const(): return a, b, None
        for x, y, sw in ((a, b, False), (b, a, True)):
            ats = [Atom.byid[i] for i in closure_atoms(y)]
            cand = [t for t in ats if ("pow2", t.id) in self.pow2]
            if len(cand) == 1:
                t = cand[0]; out = []
                for c in self.pow2[("pow2", t.id)]:
                    for s in st.assume(beq(P(t) - c)):
                        def sub(p): return self.subst(p, t.id, c)
                        aa, bb = sub(a), sub(b)
                        out.append((s, aa, bb))
                return a, b, out
        return a, b, None
    pow2 = {}

    def subst(self, p, aid, c):
        r = P(p.c)
        for k, v in p.m:
            term = P(v)
            for i in k:
                a = Atom.byid[i]
                if i == aid: term = term * c
                elif a.fn == "mod" and aid in closure_atoms(P(a)): term = term * mod_(self.subst(a.args[0], aid, c), a.args[1])
                elif a.fn == "div" and aid in closure_atoms(P(a)): term = term * div_(self.subst(a.args[0], aid, c), a.args[1])
                else: term = term * P(a)
            r = r + term
        return r

    def ref_of_ptr(self, st, p, sp):
        c = self.get(st, p.place)
        if isinstance(c, Buf) and self.size_of(c.ety) == ONE:
            sz = self.size_of(p.ty)
            self.mem_obl(st, p, sz, c, sp, True, "reference")
            self.validity_obl(st, p.ty, sp)
            if self.T(p.ty)["k"] == "int" and sz == ONE: return Ref((p.place[0], p.place[1] + (("e", p.off),)))
            self.nheap += 1
            root = ("H", self.nheap)
            st.store[root] = self.load_le(st, c, p.off, p.ty)
            return Ref((root, ()))
        if isinstance(c, Buf): return Ref((p.place[0], p.place[1] + (("e", p.off),)))
        return Ref(p.place)

    def discr(self, st, fr, dst, src, body, sp):
        v = self.read_place(st, fr, src)
        outs = []
        for v2, s2, vi in self.split_variants(st, v):
            if vi is None:
                t = self.place_ty(body, dst)
                self.assign(s2, fr, dst, self.havoc(s2, t, "discr"), sp)
            else:
                d = vi
                if v2 is not None and v2.ty is not None:
                    ds = self.T(v2.ty).get("discrs")
                    if ds: d = int(ds[vi])
                self.assign(s2, fr, dst, P(d), sp)
            outs.append(s2)
        return outs

    def split_variants(self, st, v):
        """partition an enum value by variant: list of (Agg or None, state, variant index)"""
        if isinstance(v, Agg): return [(v, st, v.variant)]
        if isinstance(v, Sym):
            ty = self.T(v.ty)
            if ty["k"] == "adt" and ty["adt"] == "enum":
                cur = st.vars.get(v.name)
                n = len(ty["variants"])
                cands = [cur] if isinstance(cur, int) else [i for i in range(n) if cur is None or i in cur]
                outs = []
                for i in cands:
                    s = st if len(cands) == 1 else st.copy()
                    s.vars[v.name] = i
                    if len(cands) > 1 and deep_any(v.name): s.joined = True
                    outs.append((self.expand(s, v, i), s, i))
                return outs
        return [(None, st, None)]

    # ------------------------------------------------------------ functions
    def call_body(self, st, key, args, sp=None):
        """returns list of (value, state)"""
        body = self.p.bodies[key]
        if self.depth > self.max_depth: raise Limit("depth " + key)
        if sum(1 for x in self.stack if x[2] == key) > 2:
            self.imprecise_notes.append(("recursion", key))
            for i, a in enumerate(args): self.havoc_reach(st, a, ("any", "rec", key, i), 0, set())
            return [(self.havoc(st, body["locals"][0], "rec"), st)]
        self.funcs[key] = self.funcs.get(key, 0) + 1
        self.nframe += 1
        fr = self.nframe
        self.frames[fr] = body
        self.stack.append((body["def"], sp, key)); self.visited.add(body["def"])
        self.depth += 1
        try:
            if body.get("closure") and len(args) == 2 and body["argc"] != 2 and isinstance(args[1], Agg) and args[1].kind == "tuple":
                args = [args[0]] + list(args[1].fields)
            elif body.get("closure") and len(args) == 2 and body["argc"] == 2 and isinstance(args[1], Agg) and args[1].kind == "tuple" and len(args[1].fields) == 1 and self.T(body["locals"][2])["k"] != "tuple":
                args = [args[0]] + list(args[1].fields)
            elif body.get("closure") and len(args) == 2 and body["argc"] == 2 and isinstance(args[1], Agg) and args[1].kind == "tuple" and len(args[1].fields) == 1:
                args = [args[0]] + list(args[1].fields)
            for i, a in enumerate(args): st.store[("L", fr, i + 1)] = a
            rets, _ = self.run(st, fr, key, body, 0, None, None)
            outs = []
            for s in rets:
                v = s.store.get(("L", fr, 0), UNIT)
                for kk in [k for k in s.store if k[0] == "L" and k[1] == fr]: 
                    if not self.escapes(v, kk): del s.store[kk]
                outs.append((v, s))
            if self.merge_returns: outs = self.merge(outs)
            return outs
        finally:
            self.depth -= 1
            self.stack.pop()

    def escapes(self, v, root):
        if isinstance(v, Ref): return v.place[0] == root
        if isinstance(v, (Slice, Ptr)): return v.place[0] == root
        if isinstance(v, Agg): return any(self.escapes(f, root) for f in v.fields)
        return False

    def merge(self, outs):
        """join at function exit: partitions with the same result and store are
        joined (facts common to both kept)."""
        if len(outs) < 2: return outs
        groups = {}
        for v, s in outs:
            k = (v, tuple(sorted(((repr(a), b) for a, b in s.store.items()), key=lambda x: x[0])), tuple(s.events))
            groups.setdefault(k, []).append((v, s))
        res = []
        for g in groups.values():
            if len(g) == 1: res.append(g[0]); continue
            # partitions are kept apart while they are few: a convex join loses
            # the disjunction of the reasons that lead to the same result
            uniq = []
            for v, x in g:
                if not any(set(x.facts) == set(y.facts) and x.bools == y.bools and x.vars == y.vars and x.joined == y.joined for _, y in uniq): uniq.append((v, x))
            if len(uniq) <= self.max_parts: res += uniq; continue
            g = uniq
            v, s0 = g[0]
            s = s0.copy()
            s.joined = True
            common = [f for f in s0.facts if all(f in x[1].facts or x[1].proves_ge(f) for x in g[1:])]
            s.facts = common
            s.bools = {k: b for k, b in s0.bools.items() if all(x[1].bools.get(k) == b for x in g[1:])}
            nv = {}
            for k, b in s0.vars.items():
                vs = set()
                for _, x in g:
                    c = x.vars.get(k)
                    if c is None: vs = None; break
                    vs |= {c} if isinstance(c, int) else set(c)
                if vs: nv[k] = next(iter(vs)) if len(vs) == 1 else frozenset(vs)
            s.vars = nv
            res.append((v, s))
        return res

    def run(self, st, fr, key, body, start, loop, header):
        """Execute from block `start`.  With `loop` (set of blocks) and `header`:
        stop when leaving the loop or coming back to the header.
        Returns (return states, [(exit block, state)] , ) ; back states under block==header"""
        loops = self.p.loop_info(key)
        work = [(start, st, True)]
        rets = []; exits = []
        while work:
            bi, s, first = work.pop()
            self.steps += 1
            if self.steps > self.step_limit: raise Limit("steps in " + key)
            if loop is not None and not (first and bi == header and len(exits) == 0 and s is st):
                if bi == header or bi not in loop:
                    exits.append((bi, s)); continue
            if bi in loops and not (loop is not None and bi == header):
                r2, e2 = self.do_loop(s, fr, key, body, bi, loops[bi])
                rets += r2
                for b2, s2 in e2: work.append((b2, s2, False))
                if len(work) + len(rets) + len(exits) > self.MAXSTATES: raise Limit("states in " + key)
                continue
            for nb, ns in self.exec_block(s, fr, key, body, bi):
                if nb == "ret": rets.append(ns)
                else: work.append((nb, ns, False))
            if len(work) + len(rets) + len(exits) > self.MAXSTATES: raise Limit("states in " + key)
        return rets, exits

    def exec_block(self, st, fr, key, body, bi):
        blk = body["blocks"][bi]
        if blk is None: return []
        states = [st]
        for s in blk["s"]:
            if len(states) == 1: states = self.exec_stmt(states[0], fr, key, body, s)
            else: states = [y for x in states for y in self.exec_stmt(x, fr, key, body, s)]
        out = []
        for x in states: out += self.exec_term(x, fr, key, body, blk["t"])
        return out

    def exec_term(self, st, fr, key, body, t):
        k = t[0]
        if k == "goto": return [(t[1], st)]
        if k == "return": return [("ret", st)]
        if k == "drop": return [(t[2], st)]
        if k == "switch":
            v = self.operand(st, fr, t[1], key)
            out = []
            if isinstance(v, B):
                rest = [st]
                for val, b in t[2]:
                    c = v if int(val) else bnot(v)
                    for s in st.assume(c): out.append((b, s if s is not st else st.copy()))
                    rest = [y for x in rest for y in x.assume(bnot(c))]
                out += [(t[3], s) for s in rest]
                return out
            if isinstance(v, Poly):
                ty = self.T(t[4])
                rest = [st]
                for val, b in t[2]:
                    n = int(val)
                    if ty["k"] == "int" and ty["signed"] and n >= 2**(ty["bits"]-1): n -= 2**ty["bits"]
                    for s in st.assume(beq(v - n)): out.append((b, s if s is not st else st.copy()))
                    rest = [y for x in rest for y in x.assume(bnot(beq(v - n)))]
                out += [(t[3], s) for s in rest]
                return out
            # unknown: all branches
            tk = self.termkey(st, v)
            imp = isinstance(v, Top)
            for i, (val, b) in enumerate(t[2]):
                s = st.copy()
                if not imp: s.bools[("app", "Eq", tk, val)] = True
                out.append((b, s))
            out.append((t[3], st.copy()))
            return out
        if k == "assert":
            c = self.operand(st, fr, t[1], key)
            if t[3] in ("misaligned", "null"): return [(t[5], st)]   # covered by the alignment obligations
            if not isinstance(c, B): c = B("at", ("any", fresh("assert", imprecise=True).name), True)
            good = c if t[2] else bnot(c)
            bad = st.assume(bnot(good)) if not st.proves(good) else []
            for s in bad: self.panic(s, t[3], t[4], t[6], bnot(good))
            return [(t[5], s) for s in st.assume(good)]
        if k == "call":
            return self.exec_call(st, fr, key, body, t)
        if k == "unreachable": return []
        return []

    def exec_call(self, st, fr, key, body, t):
        _, callee, args, dst, target, sp, dty, atys = t
        vals = [self.operand(st, fr, a, key, sp) for a in args]
        fv = self.operand(st, fr, callee["ptr"], key, sp) if callee.get("orig") is None else None
        outs = self.do_call(st, callee, vals, dty, sp, atys, key, fv)
        res = []
        for v, s in outs:
            if target is None: continue
            self.assign(s, fr, dst, v, sp)
            res.append((target, s))
        return res

    def do_call(self, st, callee, vals, dty, sp, atys=None, key=None, fv=None):
        m = self.find_model(callee, vals, st)
        if m is not None:
            r = m(self, st, vals, dict(callee=callee, dty=dty, sp=sp, atys=atys))
            if r is not None: return r
        if callee.get("orig") is None:
            if fv is not None:
                r = self.call_value(st, fv, Agg("tuple", 0, vals), dty, sp)
                if r is not None: return r
            return self.unknown_call(st, callee, vals, dty, sp, atys)
        k = callee.get("key")
        if k in self.p.bodies and self.inline_ok(callee):
            # FnOnce shims: closure body takes &self
            if callee.get("kind", "").startswith("Shim") and vals:
                self.nheap += 1
                root = ("H", self.nheap); st.store[root] = vals[0]
                b = self.p.bodies[k]
                if self.T(b["locals"][1])["k"] == "ref": vals = [Ref((root, ()))] + vals[1:]
            return self.call_body(st, k, vals, sp)
        ctor = self.ctor_of(callee.get("orig") or "", vals, dty)
        if ctor is not None: return [(ctor, st)]
        if callee.get("trait", "").startswith("core::ops::function::Fn") and vals:
            r = self.call_value(st, vals[0], vals[1] if len(vals) > 1 else UNIT, dty, sp)
            if r is not None: return r
        return self.unknown_call(st, callee, vals, dty, sp, atys)

    def closure_key(self, v):
        if isinstance(v, Agg) and v.kind.startswith("closure:"):
            return v.kind[8:]
        return None

    def call_value(self, st, f, argtuple, dty, sp):
        """call a function value with a tuple of arguments"""
        ref = None
        while isinstance(f, Ref):
            ref = f
            f = self.get(st, f.place)
        args = list(argtuple.fields) if isinstance(argtuple, Agg) else [argtuple]
        ck = self.closure_key(f)
        if ck is not None and ck in self.p.bodies:
            b = self.p.bodies[ck]
            if self.T(b["locals"][1])["k"] == "ref":
                if ref is None:
                    self.nheap += 1
                    root = ("H", self.nheap); st.store[root] = f
                    ref = Ref((root, ()))
                return self.call_body(st, ck, [ref] + args, sp)
            return self.call_body(st, ck, [f] + args, sp)
        if isinstance(f, Fn):
            ty = self.T(f.ty)
            ck = self.fn_callee(ty, f.ty)
            if ck is not None:
                return self.do_call(st, ck, args, dty, sp)
            # constructor?
            r = self.ctor(st, ty, args, dty)
            if r is not None: return [(r, st)]
        return None

    def fn_callee(self, ty, tid=None):
        """find a body for a fndef type by path (non generic or monomorphic name)"""
        s = ty["s"]
        c = self.fnkeys.get(tid)
        if c is not None:
            b = self.p.bodies[c["fkey"]]
            return {"orig": c.get("forig") or b["def"], "path": c.get("fpath") or b["def"], "key": c["fkey"], "local": b["local"], "krate": b["krate"], "args": ty.get("args", []), "kind": "item"}
        idx = getattr(self, "_fnidx", None)
        if idx is None:
            idx = {}
            for k, b in self.p.bodies.items():
                if "promoted" in b: continue
                idx.setdefault(b["inst"], k)
            self._fnidx = idx
        m = re.match(r"^(?:fn\(.*\) (?:-> .* )?\{)?(.*?)\}?$", s)
        nm = m.group(1) if m else s
        k = idx.get(nm) or idx.get(ty["def"])
        if k: 
            b = self.p.bodies[k]
            return {"orig": b["def"], "path": b["def"], "key": k, "local": b["local"], "krate": b["krate"], "args": ty.get("args", []), "kind": "item"}
        return {"orig": ty["def"], "path": ty["def"], "key": None, "local": False, "krate": "", "args": ty.get("args", []), "kind": "item"}

    def ctor_of(self, path, args, dty):
        """tuple struct / variant constructor used as a function"""
        d = self.T(dty)
        if d["k"] == "adt":
            for i, v in enumerate(d["variants"]):
                if path == d["def"] or path == d["def"] + "::" + v["name"] or (d["adt"] == "struct" and path == d["def"] + "::{constructor#0}"):
                    if len(v["fields"]) == len(args): return Agg("adt:" + d["def"], i, args, dty)
        return None

    def ctor(self, st, ty, args, dty):
        d = self.T(dty)
        if d["k"] == "adt":
            for i, v in enumerate(d["variants"]):
                if ty["def"].endswith("::" + v["name"]) or ty["def"] == d["def"]:
                    if len(v["fields"]) == len(args): return Agg("adt:" + d["def"], i, args, dty)
        return None

    ALLOW_INLINE = re.compile(r"^(<)?(core::option::|core::result::|core::ops::control_flow|core::ops::range|core::ops::function|core::ops::try_trait|core::iter::|core::cmp::|core::convert::|core::mem::|core::bool::|core::clone::|core::borrow::|core::default::|core::tuple::|core::array::|T as core::convert::|alloc::borrow::|itertools::|quote::__private)")
    def inline_ok(self, callee):
        if callee.get("local"): return True
        b = self.p.bodies.get(callee.get("key"))
        if b is not None and b["krate"] in self.p_crates(): return True
        p = callee.get("path") or ""
        if self.ALLOW_INLINE.match(p): return True
        if b is not None and b.get("closure"): return True
        if b is not None and self.MAYBE_INLINE.match(p): return self.no_pointers(b)
        return False
    MAYBE_INLINE = re.compile(r"^(<)?core::(num|slice|str|char|ascii)::")
    def no_pointers(self, b):
        """a body that needs no raw pointers (core's own unsafe code is modelled)"""
        r = b.get("_np")
        if r is None:
            r = b["_np"] = len(b["blocks"]) <= 60 and not any(self.T(t)["k"] in ("ptr", "rawptr") or "*const" in self.T(t)["s"] or "*mut" in self.T(t)["s"] for t in b["locals"])
        return r
    def p_crates(self):
        return ("butte", "butte_build", "spec")

    def find_model(self, callee, vals, st):
        for nm in (callee.get("path"), callee.get("orig")):
            if nm and nm in self.models: return self.models[nm]
        for rx, f in self.model_rx():
            for nm in (callee.get("path"), callee.get("orig")):
                if nm and rx.search(nm): return f
        return None
    def model_rx(self):
        return self.models.get("__rx__", [])

    def unknown_call(self, st, callee, vals, dty, sp, atys=None):
        nm = callee.get("path") or callee.get("orig") or "fnptr"
        self.opaque_calls[nm] = self.opaque_calls.get(nm, 0) + 1
        if self.T(dty)["k"] == "never":
            self.panic(st, "diverge", nm, sp)
            return []
        targs = tuple(self.T(a)["s"] if isinstance(a, int) else a for a in callee.get("args", []))
        fn = (callee.get("orig") or "fnptr") + ("<%s>" % ",".join(targs) if targs else "")
        # nothing is known about the callee: "any" marks what depends on it
        name = ("any", "call", fn) + tuple(self.termkey(st, a) for a in vals)
        for i, a in enumerate(vals):
            t = self.T(atys[i]) if atys and i < len(atys) else None
            if t is not None and t["k"] in ("ref", "rawptr") and not t.get("mut"):
                if not re.search(r"\bmut\b|Mut|Cell|closure|dyn ", t.get("s", "mut")): continue
                self.havoc_reach(st, self.get(st, a.place) if isinstance(a, Ref) else None, ("out", name, i), 0, set())
                continue
            if t is not None and t["k"] not in ("ref", "rawptr") and not re.search(r"\bmut\b|Mut|Cell|closure|dyn |\bfn\b", t.get("s", "mut")): continue
            self.havoc_reach(st, a, ("out", name, i), 0, set())
        return [(self.sym(st, name, dty), st)]

    def havoc_reach(self, st, a, name, depth, seen):
        """forget everything that can be written through the value a"""
        if depth > 6: return
        if isinstance(a, Ref):
            if a.place in seen: return
            seen.add(a.place)
            v = self.get(st, a.place)
            self.havoc_reach(st, v, (name, "*"), depth + 1, seen)
            self.put(st, a.place, self.havoc_like(st, v, name))
        elif isinstance(a, Slice):
            c = self.get(st, a.place)
            if isinstance(c, Buf):
                r = self.replace(st, c, a.off, a.len, [(a.len, ("orig", name, ZERO))])
                if r is None: r = self.blur(st, c, a.off, a.len, "call")
                self.put(st, a.place, r)
        elif isinstance(a, Ptr):
            c = self.get(st, a.place)
            if isinstance(c, Buf): self.put(st, a.place, Buf(c.len, [(c.len, self.any_desc("call"))], c.ety))
            else: self.put(st, a.place, self.havoc_like(st, c, name))
        elif isinstance(a, Agg):
            for j, f in enumerate(a.fields): self.havoc_reach(st, f, (name, j), depth + 1, seen)

    def havoc_like(self, st, v, name):
        if isinstance(v, Poly): return P(atom(("sym", name), pname(name), None, None, "sym", (name,)))
        if isinstance(v, B): return B("at", name, True)
        if isinstance(v, (Agg, Sym)) and v.ty is not None: return self.sym(st, name, v.ty)
        if isinstance(v, Buf): return self.symbuf(name, v.ety)
        return TOP

    # ------------------------------------------------------------ loops
    def do_loop(self, st, fr, key, body, h, blocks):
        """returns (return states, [(exit block, state)])"""
        # 1. complete unrolling when the number of rounds is decided
        try:
            self.recording.append(False)
            np, no = len(self.panics), len(self.obls)
            try:
                ok = self.unroll_loop(st.copy(), fr, key, body, h, blocks)
            finally:
                self.recording.pop()
            if ok is not None:
                if self.recording[-1]:
                    return self.unroll_loop(st, fr, key, body, h, blocks)
                return ok
        except Limit:
            pass
        # 2. the first rounds are analysed exactly, the rest by widening
        cur = [st]; rets = []; exits = []
        for _ in range(self.peel):
            nxt = []
            for s in cur:
                r, e = self.run(s, fr, key, body, h, blocks, h)
                rets += r
                for b, x in e:
                    if b == h: nxt.append(x)
                    else: exits.append((b, x))
            cur = nxt
            if not cur or len(cur) > 3: break
        for s in cur:
            r, e = self.widen_loop(s, fr, key, body, h, blocks)
            rets += r; exits += e
        return rets, exits

    def unroll_loop(self, st, fr, key, body, h, blocks):
        cur = [st]; rets = []; exits = []
        for n in range(self.unroll_decided):
            # a loop whose condition is decided in every round goes on; others stop early
            if n >= self.unroll and (rets or exits or len(cur) > 1): return None
            nxt = []
            for s in cur:
                r, e = self.run(s, fr, key, body, h, blocks, h)
                rets += r
                for b, x in e:
                    if b == h: nxt.append(x)
                    else: exits.append((b, x))
            if not nxt: return rets, exits
            if len(nxt) > 24: return None
            cur = nxt
        return None

    def widen_loop(self, st, fr, key, body, h, blocks):
        self.recording.append(False)
        try:
            g = Gen(self, st, fr, key, body)
            G = st.copy()
            for rnd in range(12):
                r, e = self.run(G.copy(), fr, key, body, h, blocks, h)
                backs = [x for b, x in e if b == h]
                if not backs: break
                G2, stable = g.step(G, backs)
                if stable: break
                G = G2
                if rnd == 7: g.brutal = True
            else:
                raise Limit("widening in " + key)
        finally:
            self.recording.pop()
        r, e = self.run(G.copy(), fr, key, body, h, blocks, h)
        return r, [(b, x) for b, x in e if b != h]


class Gen:
    """Loop-head generalisation (widening)."""
    def __init__(self, I, st, fr, key, body):
        self.I = I; self.st0 = st; self.fr = fr; self.key = key; self.body = body
        self.slots = {}      # path -> template: dict(kind, q0, ...)
        self.k = None
        self.rep = None
        self.brutal = False
        self.gid = 0
        self.cand = {}       # path -> set of '>=','<='
        self.tops = {}       # path -> replacement value
        self.segs = {}       # path -> ('shape', ...)

    # walk two values in parallel, collecting integer leaves
    def walk(self, path, a, b, t, leaves, tops, segs):
        I = self.I
        if path in self.tops:
            return
        if isinstance(a, Poly) and isinstance(b, Poly):
            leaves.append((path, a, b, t)); return
        if a == b and not self.has_int(a): return
        if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.variant == b.variant and len(a.fields) == len(b.fields):
            for i, (x, y) in enumerate(zip(a.fields, b.fields)):
                self.walk(path + (("f", a.variant, i),), x, y, self.fty(a, i), leaves, tops, segs)
            return
        if isinstance(a, Slice) and isinstance(b, Slice) and a.place == b.place:
            leaves.append((path + ("off",), a.off, b.off, "usize")); leaves.append((path + ("len",), a.len, b.len, "usize")); return
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.place == b.place:
            leaves.append((path + ("off",), a.off, b.off, "usize")); return
        if isinstance(a, Buf) and isinstance(b, Buf):
            leaves.append((path + ("len",), a.len, b.len, "usize"))
            sh = self.align_segs(path, a, b)
            segs[path] = sh
            return
        if a == b: return
        tops[path] = (a, b, t)

    def has_int(self, v):
        if isinstance(v, Poly): return True
        if isinstance(v, Agg): return any(self.has_int(f) for f in v.fields)
        return isinstance(v, (Buf, Slice, Ptr))

    def fty(self, a, i):
        if a.ty is None: return None
        ty = self.I.T(a.ty)
        if ty["k"] == "adt" and a.variant < len(ty["variants"]):
            fs = ty["variants"][a.variant]["fields"]
            return fs[i][1] if i < len(fs) else None
        if ty["k"] == "tuple" and i < len(ty["elems"]): return ty["elems"][i]
        return None

    def align_segs(self, path, a, b):
        """common left/right segments by descriptor; the middle becomes one unknown segment.
        returns (nl, nr, exact): number of common on each side"""
        A, Bs = a.segs, b.segs
        if len(A) == len(Bs) and all(self.same_desc(x[1], y[1]) for x, y in zip(A, Bs)):
            return ("same", len(A))
        nl = 0
        while nl < len(A) and nl < len(Bs) and self.same_desc(A[nl][1], Bs[nl][1]): nl += 1
        nr = 0
        while nr < len(A) - nl and nr < len(Bs) - nl and self.same_desc(A[-1 - nr][1], Bs[-1 - nr][1]): nr += 1
        return ("mid", nl, nr)

    def same_desc(self, d, e):
        if d == e: return True
        if d[0] == "orig" and e[0] == "orig" and d[1] == e[1]: return d[2] == e[2]
        return False

    def seglens(self, buf, sh):
        """integer leaves of a segmentation under shape sh"""
        if sh[0] == "same": return [l for l, d in buf.segs]
        _, nl, nr = sh
        n = len(buf.segs)
        left = [l for l, d in buf.segs[:nl]]
        right = [l for l, d in buf.segs[n - nr:]] if nr else []
        mid = ZERO
        for l, d in buf.segs[nl:n - nr]: mid = mid + l
        return left + [mid] + right

    def step(self, G, backs):
        """compare the generalised head state with the states coming back"""
        I = self.I
        stable = True
        # structural pass
        for S in backs:
            leaves = []; tops = {}; segs = {}
            for root in list(G.store):
                if root not in S.store:
                    # dead afterwards
                    if G.store[root] is not TOP:
                        self.tops[(root,)] = ("drop",)
                        stable = False
                    continue
                self.walk((root,), G.store[root], S.store[root], self.root_ty(root), leaves, tops, segs)
            for p, (a, b, t) in tops.items():
                if p in self.tops: continue
                self.tops[p] = ("top", a, t); stable = False
            for p, sh in segs.items():
                if sh[0] == "mid" and self.segs.get(p) is None:
                    self.segs[p] = sh; stable = False
                elif sh[0] == "mid" and self.segs.get(p) != sh:
                    old = self.segs[p]
                    # G already has the mid segment: shapes are relative to G
                    nl = min(old[1], sh[1]); nr = min(old[2], sh[2])
                    if (nl, nr) != (old[1], old[2]):
                        self.segs[p] = ("mid", nl, nr); stable = False
            if S.vars != G.vars or S.bools != G.bools: pass
        if not stable:
            return self.build(), False
        # numeric pass
        ok = True
        for S in backs:
            vals = self.leaves_of(S)
            cur = self.leaves_of(G)
            kk = P(self.k) if self.k is not None else None
            for p, (q, t) in vals.items():
                if p not in cur: continue
                tm = self.slots.get(p)
                if tm is None:
                    if q == cur[p][0] or S.proves_eq(q - cur[p][0]): continue
                    self.new_slot(p, t, cur[p][0], q, vals, cur, S)
                    ok = False
        if not ok: return self.build(), False
        for S in backs:
            vals = self.leaves_of(S)
            for p, tm in list(self.slots.items()):
                if p not in vals: continue
                q = vals[p][0]
                if tm["kind"] == "step":
                    want = tm["q0"] + P(tm["d"]) * (P(self.k) + 1)
                    if not S.proves_eq(q - want):
                        self.demote(p, q, vals, S); ok = False
                elif tm["kind"] == "rel":
                    r = tm["rep"]
                    want = vals[r][0] + tm["diff"] + P(tm["d"]) * (P(self.k) + 1)
                    if r not in vals or not S.proves_eq(q - want):
                        tm2 = {"kind": "free", "q0": tm["q0"], "t": tm["t"], "ge": True, "le": True}
                        self.slots[p] = tm2; ok = False
                elif tm["kind"] == "free":
                    if tm["ge"] and not S.proves_ge(q - tm["q0"]): tm["ge"] = False; ok = False
                    if tm["le"] and not S.proves_ge(tm["q0"] - q): tm["le"] = False; ok = False
        if not ok: return self.build(), False
        return G, True

    def new_slot(self, p, t, q0, q1, vals, cur, S):
        d = q1 - q0
        if self.k is None: self.k = fresh("k", 0, 2**64, imprecise=False)
        if d.is_const() and not self.brutal:
            self.slots[p] = {"kind": "step", "q0": q0, "d": d.c, "t": t}; return
        # difference to an existing free representative
        for r, tm in self.slots.items():
            if tm["kind"] == "free" and r in vals and not self.brutal:
                dd = (q1 - vals[r][0]) - (q0 - tm["q0"])
                if not dd.is_const():
                    # maybe equal modulo facts
                    for c in (0, 1, 2, 4, 8, -1, -2, -4, -8):
                        if S.proves_eq(dd - c): dd = P(c); break
                if dd.is_const():
                    self.slots[p] = {"kind": "rel", "rep": r, "diff": q0 - tm["q0"], "d": dd.c, "q0": q0, "t": t}; return
        self.slots[p] = {"kind": "free", "q0": q0, "t": t, "ge": True, "le": True}

    def demote(self, p, q, vals, S):
        tm = self.slots[p]
        q0 = tm["q0"]
        for r, t2 in self.slots.items():
            if t2["kind"] == "free" and r in vals and r != p and not self.brutal:
                g = t2.get("atom")
                if g is None: continue
                # q - rep should advance by a constant
                base = q0 - t2["q0"]
                for c in (0, 1, 2, 4, 8, -1, -2, -4, -8):
                    if S.proves_eq(q - vals[r][0] - base - P(c) * (P(self.k) + 1)):
                        self.slots[p] = {"kind": "rel", "rep": r, "diff": base, "d": c, "q0": q0, "t": tm["t"]}; return
        self.slots[p] = {"kind": "free", "q0": q0, "t": tm["t"], "ge": True, "le": True}

    def root_ty(self, root):
        if root[0] == "L" and root[1] == self.fr: return self.body["locals"][root[2]]
        return None

    def leaves_of(self, S):
        """integer leaves of a state, under the current shape decisions"""
        out = {}
        def go(path, v, t):
            if path in self.tops: return
            if isinstance(v, Poly): out[path] = (v, t)
            elif isinstance(v, Agg):
                for i, f in enumerate(v.fields): go(path + (("f", v.variant, i),), f, self.fty(v, i))
            elif isinstance(v, Slice):
                out[path + ("off",)] = (v.off, "usize"); out[path + ("len",)] = (v.len, "usize")
            elif isinstance(v, Ptr): out[path + ("off",)] = (v.off, "usize")
            elif isinstance(v, Buf):
                out[path + ("len",)] = (v.len, "usize")
                sh = self.segs.get(path, ("same", len(v.segs)))
                for i, l in enumerate(self.seglens(v, sh)): out[path + (("seg", i),)] = (l, "usize")
        for root, v in S.store.items():
            if (root,) in self.tops: continue
            go((root,), v, self.root_ty(root))
        return out

    def build(self):
        """generalised head state from the entry state and the templates"""
        I = self.I
        st = self.st0.copy()
        self.gid += 1
        exprs = {}
        facts = []
        if self.k is not None: self.k = fresh("k", 0, 2**64)
        def rng(t):
            if t == "usize": return (0, USIZE_MAX)
            if t is None or not isinstance(t, int): return (None, None)
            r = I.int_range(t)
            return r if r else (None, None)
        for p, tm in self.slots.items():
            if tm["kind"] == "free":
                lo, hi = rng(tm["t"])
                a = fresh("w", lo, hi, imprecise=True)
                tm["atom"] = a
                exprs[p] = P(a)
                if tm["ge"]: facts.append(P(a) - tm["q0"])
                if tm["le"]: facts.append(tm["q0"] - P(a))
        for p, tm in self.slots.items():
            if tm["kind"] == "step":
                exprs[p] = tm["q0"] + P(tm["d"]) * P(self.k)
            elif tm["kind"] == "rel":
                exprs[p] = exprs[tm["rep"]] + tm["diff"] + P(tm["d"]) * P(self.k)
            if p in exprs:
                lo, hi = rng(tm["t"])
                if lo is not None and not exprs[p].is_const():
                    facts.append(exprs[p] - lo)
        def go(path, v, t):
            if path in self.tops:
                tp = self.tops[path]
                if tp[0] == "drop": return TOP
                if isinstance(v, (Agg, Sym)) and v.ty is not None:
                    return I.sym(st, ("any", fresh("widen", imprecise=True).name), v.ty, True)
                if isinstance(v, B): return B("at", ("any", fresh("wb", imprecise=True).name), True)
                if isinstance(v, Buf): 
                    return I.symbuf(("any", fresh("wbuf", imprecise=True).name), v.ety, True)
                if isinstance(t, int): return I.sym(st, ("any", fresh("widen", imprecise=True).name), t, True)
                return TOP
            if isinstance(v, Poly): return exprs.get(path, v)
            if isinstance(v, Agg):
                return Agg(v.kind, v.variant, [go(path + (("f", v.variant, i),), f, self.fty(v, i)) for i, f in enumerate(v.fields)], v.ty)
            if isinstance(v, Slice):
                return Slice(v.place, exprs.get(path + ("off",), v.off), exprs.get(path + ("len",), v.len), v.str)
            if isinstance(v, Ptr): return Ptr(v.place, exprs.get(path + ("off",), v.off), v.ty)
            if isinstance(v, Buf):
                sh = self.segs.get(path, ("same", len(v.segs)))
                lens = self.seglens(v, sh)
                lens = [exprs.get(path + (("seg", i),), l) for i, l in enumerate(lens)]
                if sh[0] == "same": descs = [d for _, d in v.segs]
                else:
                    _, nl, nr = sh
                    n = len(v.segs)
                    descs = [d for _, d in v.segs[:nl]] + [I.any_desc("loop")] + ([d for _, d in v.segs[n - nr:]] if nr else [])
                return Buf(exprs.get(path + ("len",), v.len), list(zip(lens, descs)), v.ety)
            return v
        for root, v in list(st.store.items()):
            nv = go((root,), v, self.root_ty(root))
            if nv is TOP and (root,) in self.tops and self.tops[(root,)][0] == "drop": st.store.pop(root)
            else: st.store[root] = nv
        for f in facts:
            if not f.is_const() and f not in st.facts: st.facts.append(f)
        # segment lengths are never negative
        for v in st.store.values():
            if isinstance(v, Buf):
                for l, _ in v.segs:
                    if not l.is_const() and l not in st.facts: st.facts.append(l)
        return st
