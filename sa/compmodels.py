"""Summaries of the library functions the schema compiler calls."""
import re, functools
from comp import *

EXACT = {}; TRAIT = {}; RX = []
def m(*paths):
    def d(f):
        for p in paths: EXACT[p] = f
        return f
    return d
def mt(trait, *methods):
    def d(f):
        for x in methods: TRAIT[(trait, x)] = f
        return f
    return d
def rx(p):
    def d(f): RX.append((re.compile(p), f)); return f
    return d

def norm(p):
    return re.sub(r"<impl [^<>]*(?:<[^<>]*>)?[^<>]*>::", "", p or "")

def find(c):
    for p in (c.get("path"), c.get("orig")):
        if p in EXACT: return EXACT[p]
    if "std::path::" in (c.get("path") or ""):
        for r, f in RX:
            if r.search(c["path"]): return f
    if c.get("trait"):
        f = TRAIT.get((c["trait"], c.get("method")))
        if f: return f
    for p in (c.get("path"), c.get("orig")):
        if not p: continue
        for r, f in RX:
            if r.search(p): return f
    return None

# ------------------------------------------------------------------ helpers
ORD = "core::cmp::Ordering"
def ordering(n): return Adt(ORD, 0 if n < 0 else 1 if n == 0 else 2, [])
def n_of(o): return o.v - 1

def keyof(v):
    v = deref(v)
    if isinstance(v, (Text, StrObj)) : return ("s",) + text_of(v).key()
    if isinstance(v, Adt):
        if v.d == "alloc::borrow::Cow": return keyof(v.f[0])
        return (v.d, v.v) + tuple(keyof(x) for x in v.f)
    if isinstance(v, Tup): return ("t",) + tuple(keyof(x) for x in v.f)
    if isinstance(v, (Vec,)): return ("v",) + tuple(keyof(x) for x in v.l)
    if isinstance(v, Arr): return ("v",) + tuple(keyof(x) for x in v.f)
    if isinstance(v, Sl): return ("v",) + tuple(keyof(x) for x in v.l[v.a:v.b])
    if isinstance(v, SymInt): return ("i",) + v.t.key()
    if isinstance(v, SymFloat): return ("f",) + v.t.key()
    if isinstance(v, (int, float, bool)): return ("n", repr(v))
    if isinstance(v, Map): return ("m",) + tuple(sorted((repr(k), keyof(x[1])) for k, x in v.d.items()))
    if isinstance(v, Ext): return ("x", v.what, keyof(v.x) if isinstance(v.x, (Text, Adt)) else repr(v.x))
    if isinstance(v, Bytes): return ("b",) + v.t.key()
    raise Unmodelled("key of %r" % (v,))

def text_eq(I, a, b):
    if a.key() == b.key(): return True
    la, lb = a.lit(), b.lit()
    if la is not None and lb is not None: return False
    if any(not isinstance(p, str) and p.kind == "tokens" for t in (a, b) for p in t.p): raise Unmodelled("comparison of the text of a token stream")
    for x, y in ((la, b), (lb, a)):
        if x is not None:
            # could the atoms of y spell x?
            if spells(y, x): I.test("eq", x)
            return False
    return False

def spells(t, s):
    """may the abstract text be the literal s?"""
    pat = ""
    for x in t.p:
        if isinstance(x, str): pat += re.escape(x)
        else:
            al = x.alphabet()
            if al is None: pat += "(?:.|\n)*"
            elif x.kind == "H": pat += "[%s]" % re.escape(al)
            elif x.kind in MAYBE_EMPTY: pat += "[%s]*" % re.escape(al)
            else: pat += "[%s]+" % re.escape(al)
    return re.fullmatch(pat, s) is not None

def eq(I, a, b):
    a, b = deref(a), deref(b)
    if isinstance(a, (Text, StrObj, Bytes)) and isinstance(b, (Text, StrObj, Bytes)): return text_eq(I, text_of(a), text_of(b))
    ca, cb = isinstance(a, Adt) and a.d == "alloc::borrow::Cow", isinstance(b, Adt) and b.d == "alloc::borrow::Cow"
    if ca or cb: return eq(I, a.f[0] if ca else a, b.f[0] if cb else b)
    if isinstance(a, Adt) and isinstance(b, Adt):
        ks = I.p.impls.get(("core::cmp::PartialEq", a.d, "eq"), [])
        if len(ks) == 1: return I.run_body(ks[0], [Ref([a], 0), Ref([b], 0)])
        return a.d == b.d and a.v == b.v and all(eq(I, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Tup) and isinstance(b, Tup): return all(eq(I, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, (SymInt, SymFloat)) or isinstance(b, (SymInt, SymFloat)): return I.bin("Eq", a, b, 0)
    sa, sb = seq(a), seq(b)
    if sa is not None and sb is not None: return len(sa) == len(sb) and all(eq(I, x, y) for x, y in zip(sa, sb))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Ext) and x.what in ("ident", "path") and text_like(y): return text_eq(I, x.x, text_of(y))
    if isinstance(a, Ext) and isinstance(b, Ext) and a.what == b.what == "ident": return text_eq(I, a.x, b.x)
    if isinstance(a, Ext) and isinstance(b, Ext): return a.what == b.what and keyof(a) == keyof(b)
    if isinstance(a, (int, float, bool)) and isinstance(b, (int, float, bool)): return a == b
    if isinstance(a, TS) and isinstance(b, TS): return render(a) == render(b)
    if isinstance(a, Map) and isinstance(b, Map): return keyof(a) == keyof(b)
    raise Unmodelled("equality of %r and %r" % (a, b))

def cmp(I, a, b):
    a, b = deref(a), deref(b)
    if isinstance(a, (Text, StrObj)) or (isinstance(a, Adt) and a.d == "alloc::borrow::Cow"):
        x, y = text_of(a), text_of(b)
        if x.key() == y.key(): return 0
        x, y = x.rep(), y.rep()
        return -1 if x < y else 1 if x > y else 0
    if isinstance(a, Adt):
        for tr, me in (("core::cmp::Ord", "cmp"), ("core::cmp::PartialOrd", "partial_cmp")):
            ks = I.p.impls.get((tr, a.d, me), [])
            if len(ks) == 1:
                r = I.run_body(ks[0], [Ref([a], 0), Ref([b], 0)])
                if r.d == OPT: r = r.f[0]
                return n_of(r)
        if a.v != b.v: return -1 if a.v < b.v else 1
    fa = a.f if isinstance(a, (Adt, Tup, Arr)) else seq(a)
    if fa is not None:
        fb = b.f if isinstance(b, (Adt, Tup, Arr)) else seq(b)
        for x, y in zip(fa, fb):
            c = cmp(I, x, y)
            if c: return c
        return (len(fa) > len(fb)) - (len(fa) < len(fb))
    if isinstance(a, SymInt): a = a.rep
    if isinstance(b, SymInt): b = b.rep
    return (a > b) - (a < b)

def seq(v):
    v = deref(v)
    if isinstance(v, Vec): return v.l
    if isinstance(v, Arr): return v.f
    if isinstance(v, Sl): return v.l[v.a:v.b]
    if isinstance(v, Bytes) and v.t.lit() is not None: return v.arr().f
    return None

def refs(v):
    """references to the elements of a sequence"""
    v = deref(v)
    if isinstance(v, Vec): return [Ref(v.l, i) for i in range(len(v.l))]
    if isinstance(v, Arr): return [Ref(v.f, i) for i in range(len(v.f))]
    if isinstance(v, Sl): return [Ref(v.l, i) for i in range(v.a, v.b)]
    if isinstance(v, Bytes): l = v.arr().f; return [Ref(l, i) for i in range(len(l))]
    return None

def as_slice(v):
    v = deref(v)
    if isinstance(v, Vec): return Sl(v.l, 0, len(v.l))
    if isinstance(v, Arr): return Sl(v.f, 0, len(v.f))
    if isinstance(v, (Sl, Text, Bytes)): return v
    raise Unmodelled("slice of %r" % (v,))

def clone(I, v):
    """Clone::clone of the referenced value"""
    v = deref1(v)
    return deep(I, v)
def deref1(v): return v.get() if isinstance(v, Ref) else v
def deep(I, v):
    if isinstance(v, StrObj): return StrObj(v.t)
    if isinstance(v, Vec): return Vec([deep(I, x) for x in v.l], v.dq)
    if isinstance(v, Rc): return v
    if isinstance(v, Box): return Box(deep(I, v.s[0]))
    if isinstance(v, Map):
        r = Map(v.kind); r.d = {k: [deep(I, x[0]), deep(I, x[1])] for k, x in v.d.items()}; return r
    if isinstance(v, Adt):
        I.steps += 1
        return Adt(v.d, v.v, [deep(I, x) for x in v.f])
    if isinstance(v, Tup): return Tup([deep(I, x) for x in v.f])
    if isinstance(v, Arr): return Arr([deep(I, x) for x in v.f])
    if isinstance(v, Clo): return Clo(v.k, [deep(I, x) for x in v.f])
    if isinstance(v, TS): return TS(list(v.t))
    if isinstance(v, It):
        r = v.all(); v.g = iter(r)
        return It(list(r))
    return v   # references, texts, numbers, functions

def order(I, mp, span=None):
    """entries of a map in iteration order"""
    es = list(mp.d.values())
    if mp.kind.startswith("btree"):
        return sorted(es, key=functools.cmp_to_key(lambda a, b: cmp(I, a[0], b[0])))
    I.hash_iters.add(I.span)
    if I.cfg.get("hash") == "rev": es.reverse()
    elif I.cfg.get("hash") == "odd": es = es[1::2] + es[0::2]
    elif I.cfg.get("hash") == "rot2" and es: es = es[-1:] + es[:-1]
    elif I.cfg.get("hash") == "rot" and es: es = es[len(es) // 2:] + es[:len(es) // 2]
    return es

def iterate(I, v, c=None, t=None):
    """IntoIterator"""
    if isinstance(v, It): return v
    if isinstance(v, Ref):
        x = v.get()
        if isinstance(x, It): return x
        if isinstance(x, (Vec, Arr)): return It(refs(x))
        if isinstance(x, Sl): return It(refs(x))
        if isinstance(x, Map):
            if x.kind.endswith("set"): return It([Ref(e, 0) for e in order(I, x)])
            return It([Tup([Ref(e, 0), Ref(e, 1)]) for e in order(I, x)])
        if isinstance(x, Adt) and x.d == OPT: return It([Ref(x.f, 0)] if x.v == 1 else [])
        if isinstance(x, Adt) and x.d == RES: return It([Ref(x.f, 0)] if x.v == 0 else [])
        if isinstance(x, (Ref, Box)): return iterate(I, x)
        if isinstance(x, Adt) and x.d.startswith("core::ops::range"): return iterate(I, x)
    if isinstance(v, Box): return iterate(I, Ref(v.s, 0))
    if isinstance(v, Vec): return It(list(v.l))
    if isinstance(v, Arr): return It(list(v.f))
    if isinstance(v, Sl): return It(refs(v))
    if isinstance(v, Map):
        if v.kind.endswith("set"): return It([e[0] for e in order(I, v)])
        return It([Tup([e[0], e[1]]) for e in order(I, v)])
    if isinstance(v, Adt):
        if v.d == OPT: return It([v.f[0]] if v.v == 1 else [])
        if v.d == RES: return It([v.f[0]] if v.v == 0 else [])
        if v.d.endswith("range::Range"): return It(iter(range(v.f[0], v.f[1])))
        if v.d.endswith("range::RangeInclusive"): return It(iter(range(v.f[0], v.f[1] + 1)))
        if v.d.endswith("range::RangeFrom"):
            def g(a):
                while True:
                    yield a; a += 1
            return It(g(v.f[0]))
    if isinstance(v, TS): return It(list(v.t))
    raise Unmodelled("iteration over %r" % (v,))

def into_it(I, v):
    """the iterator behind a receiver (by value or &mut)"""
    x = v
    while isinstance(x, (Ref, Box)):
        y = x.get() if isinstance(x, Ref) else x.s[0]
        if isinstance(y, It): return y
        if isinstance(y, Adt) and "range::Range" in y.d:
            it = iterate(I, y)
            if isinstance(x, Ref): x.set(it)
            return it
        x = y
    return iterate(I, x)

def opt_of(gen):
    for x in gen: return some(x)
    return none()

# ------------------------------------------------------------------ iterators
IT = "core::iter::traits::iterator::Iterator"
def it_model(name):
    def d(f):
        TRAIT[(IT, name)] = f; return f
    return d

@mt("core::iter::traits::collect::IntoIterator", "into_iter")
def _(I, c, a, t): return iterate(I, a[0])
@mt("quote::__private::ext::RepIteratorExt", "quote_into_iter")
def _(I, c, a, t): return Tup([iterate(I, a[0]), Ext("hasiter")])
@rx(r"quote_into_iter$")
def _(I, c, a, t):
    it = iterate(I, a[0]) if not isinstance(a[0], It) else a[0]
    return Tup([it, Ext("hasiter")])
@rx(r"quote::__private::(ext::RepToTokensExt|RepToTokensExt).*next$")
def _(I, c, a, t): return some(a[0])
@it_model("next")
def _(I, c, a, t):
    try: return some(into_it(I, a[0]).next())
    except StopIteration: return none()
@mt("core::iter::traits::double_ended::DoubleEndedIterator", "next_back")
def _(I, c, a, t):
    it = into_it(I, a[0]); l = it.all()
    if not l: return none()
    r = l.pop(); it.g = iter(l); return some(r)
@it_model("map")
def _(I, c, a, t): return It(I.apply(a[1], [x]) for x in into_it(I, a[0]))
@it_model("filter")
def _(I, c, a, t): return It(x for x in into_it(I, a[0]) if I.apply(a[1], [Ref([x], 0)]))
@it_model("filter_map")
def _(I, c, a, t):
    def g(it):
        for x in it:
            r = I.apply(a[1], [x])
            if r.v == 1: yield r.f[0]
    return It(g(into_it(I, a[0])))
@it_model("map_while")
def _(I, c, a, t):
    def g(it):
        for x in it:
            r = I.apply(a[1], [x])
            if r.v != 1: return
            yield r.f[0]
    return It(g(into_it(I, a[0])))
@it_model("flat_map")
def _(I, c, a, t):
    def g(it):
        for x in it: yield from iterate(I, I.apply(a[1], [x]))
    return It(g(into_it(I, a[0])))
@it_model("flatten")
def _(I, c, a, t):
    def g(it):
        for x in it: yield from iterate(I, x)
    return It(g(into_it(I, a[0])))
@it_model("enumerate")
def _(I, c, a, t): return It(Tup([i, x]) for i, x in enumerate(into_it(I, a[0])))
@it_model("chain")
def _(I, c, a, t):
    b = iterate(I, a[1]); x = into_it(I, a[0])
    def g():
        yield from x
        yield from b
    return It(g())
@it_model("zip")
def _(I, c, a, t):
    b = iterate(I, a[1]); x = into_it(I, a[0])
    def g():
        while True:
            try: p = x.next(); q = b.next()
            except StopIteration: return
            yield Tup([p, q])
    return It(g())
@it_model("take")
def _(I, c, a, t):
    x = into_it(I, a[0])
    def g():
        for _ in range(a[1]):
            try: yield x.next()
            except StopIteration: return
    return It(g())
@it_model("skip")
def _(I, c, a, t):
    x = into_it(I, a[0])
    def g():
        for i, v in enumerate(x):
            if i >= a[1]: yield v
    return It(g())
@it_model("step_by")
def _(I, c, a, t):
    x = into_it(I, a[0])
    return It(v for i, v in enumerate(x) if i % a[1] == 0)
@it_model("take_while")
def _(I, c, a, t):
    x = into_it(I, a[0])
    def g():
        for v in x:
            if not I.apply(a[1], [Ref([v], 0)]): return
            yield v
    return It(g())
@it_model("skip_while")
def _(I, c, a, t):
    x = into_it(I, a[0])
    def g():
        on = False
        for v in x:
            if on or not I.apply(a[1], [Ref([v], 0)]): on = True; yield v
    return It(g())
@it_model("rev")
def _(I, c, a, t): return It(reversed(into_it(I, a[0]).all()))
@it_model("cloned")
def _(I, c, a, t): return It(call_clone(I, x) for x in into_it(I, a[0]))
@it_model("copied")
def _(I, c, a, t): return It(copyval(deref1(x)) for x in into_it(I, a[0]))
@it_model("peekable")
def _(I, c, a, t): return It(into_it(I, a[0]))
@it_model("fuse")
def _(I, c, a, t): return into_it(I, a[0])
@it_model("by_ref")
def _(I, c, a, t): return a[0]
@it_model("inspect")
def _(I, c, a, t):
    def g(it):
        for x in it: I.apply(a[1], [Ref([x], 0)]); yield x
    return It(g(into_it(I, a[0])))
@rx(r"peekable::Peekable<I>::peek$|Peekable::<I>::peek$")
def _(I, c, a, t):
    it = into_it(I, a[0])
    if not it.buf:
        try: it.buf.append(next(it.g))
        except StopIteration: return none()
    return some(Ref(it.buf, 0))
@it_model("fold")
def _(I, c, a, t):
    acc = a[1]
    for x in into_it(I, a[0]): acc = I.apply(a[2], [acc, x])
    return acc
@it_model("try_fold")
def _(I, c, a, t):
    acc = a[1]; r = None
    for x in into_it(I, a[0]):
        r = I.apply(a[2], [acc, x])
        if r.d == RES:
            if r.v == 1: return r
        elif r.d == OPT:
            if r.v == 0: return r
        else: raise Unmodelled("try_fold")
        acc = r.f[0]
    if r is None:
        d = I.T(t[6]) if t else {}
        return some(acc) if d.get("def") == OPT else ok(acc)
    return r
@it_model("try_for_each")
def _(I, c, a, t):
    for x in into_it(I, a[0]):
        r = I.apply(a[1], [x])
        if (r.d == RES and r.v == 1) or (r.d == OPT and r.v == 0): return r
    return some(UNIT) if t and I.T(t[6]).get("def") == OPT else ok(UNIT)
@it_model("for_each")
def _(I, c, a, t):
    for x in into_it(I, a[0]): I.apply(a[1], [x])
    return UNIT
@it_model("any")
def _(I, c, a, t): return any(I.apply(a[1], [x]) for x in into_it(I, a[0]))
@it_model("all")
def _(I, c, a, t): return all(I.apply(a[1], [x]) for x in into_it(I, a[0]))
@it_model("count")
def _(I, c, a, t): return len(into_it(I, a[0]).all())
@it_model("last")
def _(I, c, a, t):
    l = into_it(I, a[0]).all(); return some(l[-1]) if l else none()
@it_model("nth")
def _(I, c, a, t):
    it = into_it(I, a[0])
    for i in range(a[1] + 1):
        try: x = it.next()
        except StopIteration: return none()
    return some(x)
@it_model("find")
def _(I, c, a, t): return opt_of(x for x in into_it(I, a[0]) if I.apply(a[1], [Ref([x], 0)]))
@it_model("find_map")
def _(I, c, a, t):
    for x in into_it(I, a[0]):
        r = I.apply(a[1], [x])
        if r.v == 1: return r
    return none()
@it_model("position")
def _(I, c, a, t):
    for i, x in enumerate(into_it(I, a[0])):
        if I.apply(a[1], [x]): return some(i)
    return none()
@it_model("sum")
def _(I, c, a, t): return sum(deref(x) for x in into_it(I, a[0]))
@it_model("max")
def _(I, c, a, t):
    l = into_it(I, a[0]).all()
    return some(max(l, key=functools.cmp_to_key(lambda x, y: cmp(I, x, y)))) if l else none()
@it_model("min")
def _(I, c, a, t):
    l = into_it(I, a[0]).all()
    return some(min(l, key=functools.cmp_to_key(lambda x, y: cmp(I, x, y)))) if l else none()
@it_model("max_by_key")
def _(I, c, a, t):
    l = into_it(I, a[0]).all(); b = None
    for x in l:
        k = I.apply(a[1], [Ref([x], 0)])
        if b is None or cmp(I, k, b[0]) >= 0: b = (k, x)
    return some(b[1]) if b else none()
@it_model("min_by_key")
def _(I, c, a, t):
    l = into_it(I, a[0]).all(); b = None
    for x in l:
        k = I.apply(a[1], [Ref([x], 0)])
        if b is None or cmp(I, k, b[0]) < 0: b = (k, x)
    return some(b[1]) if b else none()
@it_model("size_hint")
def _(I, c, a, t):
    it = into_it(I, a[0]); l = it.all(); it.g = iter(l)
    return Tup([len(l), some(len(l))])
@mt("core::iter::traits::exact_size::ExactSizeIterator", "len")
def _(I, c, a, t):
    it = into_it(I, a[0]); l = it.all(); it.g = iter(l); return len(l)
@it_model("partition")
def _(I, c, a, t):
    l = into_it(I, a[0]).all(); x = []; y = []
    for v in l: (x if I.apply(a[1], [Ref([v], 0)]) else y).append(v)
    return Tup([Vec(x), Vec(y)])
@it_model("unzip")
def _(I, c, a, t):
    l = into_it(I, a[0]).all()
    return Tup([Vec([p.f[0] for p in l]), Vec([p.f[1] for p in l])])
@it_model("scan")
def _(I, c, a, t):
    st = [a[1]]
    def g(it):
        for x in it:
            r = I.apply(a[2], [Ref(st, 0), x])
            if r.v != 1: return
            yield r.f[0]
    return It(g(into_it(I, a[0])))
@it_model("product")
def _(I, c, a, t):
    r = 1
    for x in into_it(I, a[0]): r = I.bin("Mul", r, deref(x), t[6])
    return r
@it_model("eq")
def _(I, c, a, t):
    x, y = into_it(I, a[0]).all(), iterate(I, a[1]).all(); return len(x) == len(y) and all(eq(I, p, q) for p, q in zip(x, y))
@it_model("ne")
def _(I, c, a, t):
    x, y = into_it(I, a[0]).all(), iterate(I, a[1]).all(); return not (len(x) == len(y) and all(eq(I, p, q) for p, q in zip(x, y)))
def it_cmp(I, a):
    x, y = into_it(I, a[0]).all(), iterate(I, a[1]).all()
    for p, q in zip(x, y):
        n = cmp(I, p, q)
        if n: return n
    return (len(x) > len(y)) - (len(x) < len(y))
@it_model("cmp")
def _(I, c, a, t): return ordering(it_cmp(I, a))
@it_model("partial_cmp")
def _(I, c, a, t): return some(ordering(it_cmp(I, a)))
@it_model("lt")
def _(I, c, a, t): return it_cmp(I, a) < 0
@it_model("max_by")
def _(I, c, a, t):
    best = None
    for x in into_it(I, a[0]):
        if best is None or n_of(I.apply(a[1], [Ref([best[0]], 0), Ref([x], 0)])) <= 0: best = [x]
    return none() if best is None else some(best[0])
@it_model("min_by")
def _(I, c, a, t):
    best = None
    for x in into_it(I, a[0]):
        if best is None or n_of(I.apply(a[1], [Ref([best[0]], 0), Ref([x], 0)])) > 0: best = [x]
    return none() if best is None else some(best[0])
@it_model("reduce")
def _(I, c, a, t):
    acc = None
    for x in into_it(I, a[0]): acc = [x] if acc is None else [I.apply(a[1], [acc[0], x])]
    return none() if acc is None else some(acc[0])
@it_model("cycle")
def _(I, c, a, t):
    l = into_it(I, a[0]).all()
    def g():
        while l: yield from (deep(I, x) for x in l)
    return It(g())
@it_model("is_sorted")
def _(I, c, a, t):
    l = into_it(I, a[0]).all(); return all(cmp(I, p, q) <= 0 for p, q in zip(l, l[1:]))
@it_model("rposition")
def _(I, c, a, t):
    l = into_it(I, a[0]).all()
    for i in range(len(l) - 1, -1, -1):
        if I.apply(a[1], [l[i]]): return some(i)
    return none()
@mt("core::iter::traits::double_ended::DoubleEndedIterator", "rfold")
def _(I, c, a, t):
    acc = a[1]
    for x in reversed(into_it(I, a[0]).all()): acc = I.apply(a[2], [acc, x])
    return acc
@mt("core::iter::traits::double_ended::DoubleEndedIterator", "rfind")
def _(I, c, a, t): return opt_of(x for x in reversed(into_it(I, a[0]).all()) if I.apply(a[1], [Ref([x], 0)]))
@rx(r"^core::(option::Option::<T>|result::Result::<T, E>)::(iter|iter_mut)$")
def _(I, c, a, t): return iterate(I, a[0] if isinstance(a[0], Ref) else Ref([a[0]], 0))
@rx(r"Peekable::<I>::(next_if|next_if_eq|peek_mut)$|Peekable<I>::(next_if|next_if_eq|peek_mut)$")
def _(I, c, a, t):
    it = into_it(I, a[0]); nm = c["path"].split("::")[-1]
    if not it.buf:
        try: it.buf.append(next(it.g))
        except StopIteration: return none()
    if nm == "peek_mut": return some(Ref(it.buf, 0))
    x = it.buf[0]
    if (I.apply(a[1], [Ref([x], 0)]) if nm == "next_if" else eq(I, x, a[1])): return some(it.buf.pop(0))
    return none()
@it_model("collect")
def _(I, c, a, t): return collect(I, into_it(I, a[0]), t[6] if t else c["args"][-1])
@mt("core::iter::traits::collect::FromIterator", "from_iter")
def _(I, c, a, t): return collect(I, iterate(I, a[0]), t[6] if t else c["args"][0])
@mt("core::iter::traits::collect::Extend", "extend")
def _(I, c, a, t):
    x = deref(a[0]); extend(I, x, iterate(I, a[1])); return UNIT
def extend(I, x, it):
    if isinstance(x, Vec): x.l.extend(copy_if_ref(I, v) for v in it)
    elif isinstance(x, StrObj):
        for v in it: x.t = x.t + piece(I, v)
    elif isinstance(x, Map):
        for v in it:
            if x.kind.endswith("set"): x.d.setdefault(keyof(v), [v, UNIT])
            else: insert(x, v.f[0], v.f[1])
    elif isinstance(x, TS):
        for v in it: append(x, v)
    else: raise Unmodelled("extend of %r" % (x,))
def copy_if_ref(I, v): return v
def append(ts, v):
    if isinstance(v, TS): ts.t.extend(v.t)
    elif isinstance(v, tuple): ts.t.append(v)
    elif isinstance(v, Ext) and v.what == "ident": ts.t.append(("id", v.x))
    elif isinstance(v, Ext) and v.what == "token": ts.t.append(v.x)
    else: raise Unmodelled("append %r" % (v,))
def insert(mp, k, v):
    kk = keyof(k)
    old = mp.d.get(kk)
    if old is not None:
        o = old[1]; old[1] = v; return some(o)
    mp.d[kk] = [k, v]; return none()
def piece(I, v):
    v = deref(v)
    if isinstance(v, int): return lit(chr(v))
    return text_of(v)
def collect(I, it, tid):
    ty = I.T(tid); d = ty.get("def", "")
    if d == "alloc::vec::Vec": return Vec(it.all())
    if d.endswith("vec_deque::VecDeque"): return Vec(it.all(), True)
    if d == "alloc::string::String":
        s = StrObj(); extend(I, s, it); return s
    if d == "proc_macro2::TokenStream":
        s = TS(); extend(I, s, it); return s
    for nm, k in (("hash::map::HashMap", "hash"), ("btree::map::BTreeMap", "btree"), ("hash::set::HashSet", "hashset"), ("btree::set::BTreeSet", "btreeset")):
        if d.endswith(nm):
            r = Map(k); extend(I, r, it); return r
    if d == RES:
        l = []
        for x in it:
            if x.v == 1: return x
            l.append(x.f[0])
        return ok(collect(I, It(l), ty["args"][0]))
    if d == OPT:
        l = []
        for x in it:
            if x.v == 0: return x
            l.append(x.f[0])
        return some(collect(I, It(l), ty["args"][0]))
    if d == "alloc::boxed::Box": return Vec(it.all())
    if ty["k"] == "tuple" and not ty["elems"]:
        it.all(); return UNIT
    # a local collection
    ks = I.p.impls.get(("core::iter::traits::collect::FromIterator", d, "from_iter"), [])
    if len(ks) == 1: return I.run_body(ks[0], [it])
    raise Unmodelled("collect into %s" % ty["s"])

@m("core::iter::sources::once::once")
def _(I, c, a, t): return It([a[0]])
@m("core::iter::sources::empty::empty")
def _(I, c, a, t): return It([])
@m("core::iter::sources::repeat::repeat")
def _(I, c, a, t):
    def g():
        while True: yield deep(I, a[0])
    return It(g())
@m("core::iter::sources::repeat_n::repeat_n")
def _(I, c, a, t): return It([deep(I, a[0]) for _ in range(a[1])])
@m("core::iter::sources::successors::successors")
def _(I, c, a, t):
    def g():
        x = a[0]
        while x.v == 1:
            nx = I.apply(a[1], [Ref(x.f, 0)])
            yield x.f[0]
            x = nx
    return It(g())
@m("core::iter::sources::from_fn::from_fn")
def _(I, c, a, t):
    def g():
        while True:
            r = I.apply(a[0], [])
            if r.v != 1: return
            yield r.f[0]
    return It(g())
@rx(r"^itertools::.*Itertools::join$|^itertools::Itertools::join$")
def _(I, c, a, t):
    it = into_it(I, a[0]); sep = text_of(a[1]); out = Text(); first = True
    for x in it:
        if not first: out = out + sep
        out = out + display(I, x); first = False
    return StrObj(out)
@m("itertools::Itertools::into_group_map")
def _(I, c, a, t):
    r = Map("hash")
    for x in into_it(I, a[0]):
        k = keyof(x.f[0])
        r.d.setdefault(k, [x.f[0], Vec([])])[1].l.append(x.f[1])
    return r
@rx(r"Itertools::(sorted|sorted_by_key|sorted_by)$")
def _(I, c, a, t):
    l = into_it(I, a[0]).all()
    return It(sort_list(I, l, c, a[1] if len(a) > 1 else None))
def sort_list(I, l, c, f):
    nm = (c.get("path") or "").split("::")[-1]
    if "by_key" in nm or "by_cached_key" in nm:
        ks = [(I.apply(f, [Ref([x], 0)]), x) for x in l]
        return [x for _, x in sorted(ks, key=functools.cmp_to_key(lambda p, q: cmp(I, p[0], q[0])))]
    if f is not None: return sorted(l, key=functools.cmp_to_key(lambda p, q: n_of(I.apply(f, [Ref([p], 0), Ref([q], 0)]))))
    return sorted(l, key=functools.cmp_to_key(lambda p, q: cmp(I, p, q)))
@rx(r"Itertools::(format|format_with|interleave|multi_cartesian_product|group_by|chunks)$")
def _(I, c, a, t):
    if not c["path"].endswith("::format"): raise Unmodelled(c["path"])
    out = Text()
    for i, x in enumerate(into_it(I, a[0])): out = (out + text_of(a[1]) if i else out) + display(I, x)
    return StrObj(out)
@rx(r"Itertools::tuple_windows$")
def _(I, c, a, t):
    l = into_it(I, a[0]).all(); n = None
    for z in c.get("args", []):
        if isinstance(z, int) and I.T(z)["k"] == "tuple": n = len(I.T(z)["elems"])
    if n is None: raise Unmodelled("tuple_windows")
    return It([Tup([deep(I, x) for x in l[i:i + n]]) for i in range(len(l) - n + 1)])
@rx(r"Itertools::(intersperse)$")
def _(I, c, a, t):
    out = []
    for i, x in enumerate(into_it(I, a[0])):
        if i: out.append(deep(I, a[1]))
        out.append(x)
    return It(out)
@rx(r"Itertools::(fold_ok|fold_results|all_equal|exactly_one|all_unique|duplicates|find_position|partition_map|positions|counts)$")
def _(I, c, a, t):
    nm = c["path"].split("::")[-1]; it = into_it(I, a[0])
    if nm == "find_position":
        for i, x in enumerate(it):
            if I.apply(a[1], [Ref([x], 0)]): return some(Tup([i, x]))
        return none()
    if nm == "all_equal":
        l = it.all(); return all(eq(I, l[0], x) for x in l)
    if nm in ("all_unique", "duplicates"):
        l = it.all(); ks = [keyof(x) for x in l]
        if nm == "all_unique": return len(set(ks)) == len(ks)
        return It([x for i, x in enumerate(l) if ks[:i].count(ks[i]) == 1])
    raise Unmodelled(c["path"])
@rx(r"Itertools::dedup$")
def _(I, c, a, t):
    out = []
    for x in into_it(I, a[0]):
        if not out or not eq(I, out[-1], x): out.append(x)
    return It(out)
@rx(r"Itertools::(unique|unique_by)$")
def _(I, c, a, t):
    seen = set(); out = []
    for x in into_it(I, a[0]):
        k = keyof(I.apply(a[1], [Ref([x], 0)]) if len(a) > 1 else x)
        if k not in seen: seen.add(k); out.append(x)
    return It(out)
@rx(r"Itertools::collect_vec$")
def _(I, c, a, t): return Vec(into_it(I, a[0]).all())

# ------------------------------------------------------------------ Vec, slices
def rawseq(v):
    v = deref(v)
    if isinstance(v, Vec): return v.l
    if isinstance(v, Ref): return rawseq(v)
    raise Unmodelled("vector %r" % (v,))
@rx(r"^alloc::vec::Vec::<T(, A)?>::(new|new_in|with_capacity)$|^<alloc::vec::Vec<T> as core::default::Default>::default$")
def _(I, c, a, t): return Vec([])
@rx(r"VecDeque::<T(, A)?>::(new|with_capacity|new_in)$|^<alloc::collections::vec_deque::VecDeque<T> as core::default::Default>::default$")
def _(I, c, a, t): return Vec([], True)
@rx(r"(Vec|VecDeque)::<T(, A)?>::(push|push_back)$")
def _(I, c, a, t): rawseq(a[0]).append(a[1]); return UNIT
@rx(r"Vec::<T(, A)?>::push_mut$")
def _(I, c, a, t): l = rawseq(a[0]); l.append(a[1]); return Ref(l, len(l) - 1)
@m("alloc::vec::from_elem")
def _(I, c, a, t): return Vec([call_clone(I, a[0]) for _ in range(a[1])])
@rx(r"(Vec|VecDeque)::<T(, A)?>::split_off$")
def _(I, c, a, t):
    l = rawseq(a[0])
    if a[1] > len(l): I.panic("split_off: at > len")
    r = l[a[1]:]; del l[a[1]:]; return Vec(r)
@rx(r"(Vec|VecDeque)::<T(, A)?>::(resize|resize_with)$")
def _(I, c, a, t):
    l = rawseq(a[0])
    if a[1] < len(l): del l[a[1]:]
    while len(l) < a[1]: l.append(I.apply(a[2], []) if c["path"].endswith("with") else call_clone(I, a[2]))
    return UNIT
@rx(r"VecDeque::<T(, A)?>::(front|back|front_mut|back_mut|get|get_mut)$")
def _(I, c, a, t):
    l = rawseq(a[0]); nm = c["path"].split("::")[-1]
    i = 0 if nm.startswith("front") else len(l) - 1 if nm.startswith("back") else a[1]
    return some(Ref(l, i)) if 0 <= i < len(l) else none()
@rx(r"VecDeque::<T(, A)?>::contains$")
def _(I, c, a, t): return any(eq(I, x, a[1]) for x in refs(a[0]))
@rx(r"VecDeque::<T(, A)?>::remove$")
def _(I, c, a, t):
    l = rawseq(a[0]); return some(l.pop(a[1])) if a[1] < len(l) else none()
@rx(r"VecDeque::<T(, A)?>::(rotate_left|rotate_right)$|slice::<impl \[T\]>::(rotate_left|rotate_right)$")
def _(I, c, a, t):
    s = as_slice(a[0]); l = s.l[s.a:s.b]; k = a[1]
    if k > len(l): I.panic("rotate: mid > len")
    if c["path"].endswith("right"): k = len(l) - k
    s.l[s.a:s.b] = l[k:] + l[:k]; return UNIT
@rx(r"Vec::<T(, A)?>::(dedup_by_key)$")
def _(I, c, a, t):
    l = rawseq(a[0]); r = []; last = None
    for x in l:
        k = I.apply(a[1], [Ref([x], 0)])
        if not r or not eq(I, last, k): r.append(x); last = k
    l[:] = r; return UNIT
@rx(r"slice::<impl \[T\]>::(binary_search|binary_search_by|binary_search_by_key)$")
def _(I, c, a, t):
    s = as_slice(a[0]); nm = c["path"].split("::")[-1]
    def at(i):
        r = Ref(s.l, i)
        if nm == "binary_search": return cmp(I, r, a[1])
        if nm == "binary_search_by": return n_of(I.apply(a[1], [r]))
        return cmp(I, I.apply(a[2], [r]), a[1])
    cs = [at(i) for i in range(s.a, s.b)]
    for i, k in enumerate(cs):
        if k == 0 and cs.count(0) == 1 and all(z < 0 for z in cs[:i]) and all(z > 0 for z in cs[i + 1:]): return ok(i)
    if 0 in cs: raise Unmodelled("binary_search of an unsorted or ambiguous sequence")
    k = sum(1 for z in cs if z < 0)
    if any(z > 0 for z in cs[:k]): raise Unmodelled("binary_search of an unsorted sequence")
    return err(k)
@rx(r"slice::<impl \[T\]>::partition_point$")
def _(I, c, a, t):
    n = 0
    for x in refs(a[0]):
        if not I.apply(a[1], [x]): break
        n += 1
    return n
@rx(r"slice::<impl \[T\]>::(first_mut|last_mut)$")
def _(I, c, a, t):
    r = refs(a[0]); return some(r[0 if c["path"].endswith("first_mut") else -1]) if r else none()
@rx(r"slice::<impl \[T\]>::(split|splitn)$")
def _(I, c, a, t):
    s = as_slice(a[0]); out = []; lo = s.a
    if c["path"].endswith("splitn"): raise Unmodelled("slice::splitn")
    for i in range(s.a, s.b):
        if I.apply(a[1], [Ref(s.l, i)]): out.append(Sl(s.l, lo, i)); lo = i + 1
    out.append(Sl(s.l, lo, s.b)); return It(out)
@rx(r"slice::<impl \[T\]>::fill$")
def _(I, c, a, t):
    s = as_slice(a[0])
    for i in range(s.a, s.b): s.l[i] = call_clone(I, a[1])
    return UNIT
@rx(r"slice::<impl \[T\]>::(chunks_exact|rchunks|is_sorted)$")
def _(I, c, a, t): raise Unmodelled(c["path"])
@rx(r"vec::into_iter::IntoIter::<T(, A)?>::as_slice$|slice::iter::Iter::<'a, T>::as_slice$")
def _(I, c, a, t):
    it = deref(a[0]); r = it.all(); it.g = iter(list(r))
    if "slice::iter" in c["path"]: r = [deref1(x) for x in r]
    return Sl(r, 0, len(r))
@rx(r"VecDeque::<T(, A)?>::push_front$")
def _(I, c, a, t): rawseq(a[0]).insert(0, a[1]); return UNIT
@rx(r"(Vec::<T(, A)?>::pop|VecDeque::<T(, A)?>::pop_back)$")
def _(I, c, a, t):
    l = rawseq(a[0]); return some(l.pop()) if l else none()
@rx(r"VecDeque::<T(, A)?>::pop_front$")
def _(I, c, a, t):
    l = rawseq(a[0]); return some(l.pop(0)) if l else none()
@rx(r"(Vec|VecDeque)::<T(, A)?>::insert$")
def _(I, c, a, t):
    l = rawseq(a[0])
    if a[1] > len(l): I.panic("insertion index is out of bounds")
    l.insert(a[1], a[2]); return UNIT
@rx(r"Vec::<T(, A)?>::(remove|swap_remove)$")
def _(I, c, a, t):
    l = rawseq(a[0])
    if a[1] >= len(l): I.panic("removal index is out of bounds")
    return l.pop(a[1])
@rx(r"(Vec|VecDeque)::<T(, A)?>::(clear)$")
def _(I, c, a, t): del rawseq(a[0])[:]; return UNIT
@rx(r"(Vec|VecDeque)::<T(, A)?>::truncate$")
def _(I, c, a, t): del rawseq(a[0])[a[1]:]; return UNIT
@rx(r"(Vec|VecDeque)::<T(, A)?>::(reserve|shrink_to_fit|reserve_exact)$")
def _(I, c, a, t): return UNIT
@rx(r"(Vec|VecDeque)::<T(, A)?>::append$")
def _(I, c, a, t):
    b = rawseq(a[1]); rawseq(a[0]).extend(b); del b[:]; return UNIT
@rx(r"Vec::<T(, A)?>::extend_from_slice$")
def _(I, c, a, t): rawseq(a[0]).extend(deep(I, x) for x in seq(a[1])); return UNIT
@rx(r"(Vec|VecDeque)::<T(, A)?>::retain$")
def _(I, c, a, t):
    l = rawseq(a[0]); l[:] = [x for x in l if I.apply(a[1], [Ref([x], 0)])]; return UNIT
@rx(r"(Vec|VecDeque)::<T(, A)?>::drain$")
def _(I, c, a, t):
    l = rawseq(a[0]); lo, hi = rng(I, a[1], len(l)); r = l[lo:hi]; del l[lo:hi]; return It(r)
@rx(r"Vec::<T(, A)?>::dedup$")
def _(I, c, a, t):
    l = rawseq(a[0]); r = []
    for x in l:
        if not r or not eq(I, r[-1], x): r.append(x)
    l[:] = r; return UNIT
@rx(r"(Vec|VecDeque)::<T(, A)?>::len$|^core::slice::<impl \[T\]>::len$")
def _(I, c, a, t):
    v = deref(a[0])
    if isinstance(v, Bytes): return I.text_len(v.t)
    n = I.len_of(v)
    return n
@rx(r"(Vec|VecDeque)::<T(, A)?>::is_empty$|^core::slice::<impl \[T\]>::is_empty$")
def _(I, c, a, t):
    v = deref(a[0])
    if isinstance(v, Bytes): return is_empty(I, v.t)
    return I.len_of(v) == 0
@rx(r"Vec::<T(, A)?>::(as_slice|as_mut_slice)$|^<alloc::vec::Vec<T, A> as core::ops::deref::Deref(Mut)?>::deref(_mut)?$|VecDeque::<T(, A)?>::make_contiguous$")
def _(I, c, a, t): return as_slice(a[0])
@rx(r"Vec::<T(, A)?>::into_boxed_slice$|slice::<impl \[T\]>::into_vec$")
def _(I, c, a, t): return deref(a[0]) if isinstance(deref(a[0]), Vec) else Vec(seq(a[0]))
@rx(r"^(core|alloc)::slice::<impl \[T\]>::(iter|iter_mut)$|VecDeque::<T(, A)?>::(iter|iter_mut)$")
def _(I, c, a, t): return It(refs(a[0]))
@rx(r"slice::<impl \[T\]>::(to_vec|to_vec_in)$|ConvertVec>::to_vec$|<impl alloc::borrow::ToOwned for \[T\]>::to_owned$")
def _(I, c, a, t):
    v = deref(a[0])
    if isinstance(v, Bytes): return v
    return Vec([deep(I, x) for x in seq(a[0])])
@rx(r"slice::<impl \[T\]>::(first|last)$")
def _(I, c, a, t):
    r = refs(a[0]); return some(r[0 if c["path"].endswith("first") else -1]) if r else none()
@rx(r"slice::<impl \[T\]>::(split_first|split_last)$")
def _(I, c, a, t):
    s = as_slice(a[0])
    if s.a == s.b: return none()
    if c["path"].endswith("first"): return some(Tup([Ref(s.l, s.a), Sl(s.l, s.a + 1, s.b)]))
    return some(Tup([Ref(s.l, s.b - 1), Sl(s.l, s.a, s.b - 1)]))
@rx(r"slice::<impl \[T\]>::split_at$")
def _(I, c, a, t):
    s = as_slice(a[0])
    if a[1] > s.b - s.a: I.panic("split_at: mid > len")
    return Tup([Sl(s.l, s.a, s.a + a[1]), Sl(s.l, s.a + a[1], s.b)])
@rx(r"slice::<impl \[T\]>::contains$")
def _(I, c, a, t): return any(eq(I, x, a[1]) for x in refs(a[0]))
@rx(r"slice::<impl \[T\]>::(starts_with|ends_with)$")
def _(I, c, a, t):
    x, y = seq(a[0]), seq(a[1])
    if len(y) > len(x): return False
    return all(eq(I, p, q) for p, q in zip(x if "starts" in c["path"] else x[len(x) - len(y):], y))
@rx(r"slice::<impl \[T\]>::(get|get_mut)$")
def _(I, c, a, t):
    s = as_slice(a[0]); i = a[1]
    if isinstance(i, int): return some(Ref(s.l, s.a + i)) if 0 <= i < s.b - s.a else none()
    r = rng(I, i, s.b - s.a, True)
    return none() if r is None else some(Sl(s.l, s.a + r[0], s.a + r[1]))
@rx(r"slice::<impl \[T\]>::(sort|sort_unstable|sort_by|sort_by_key|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$|^alloc::slice::stable_sort$")
def _(I, c, a, t):
    s = as_slice(a[0]); l = s.l[s.a:s.b]
    f = a[1] if len(a) > 1 else None
    if c["path"].endswith("stable_sort"):
        l = sorted(l, key=functools.cmp_to_key(lambda p, q: -1 if I.apply(f, [Ref([p], 0), Ref([q], 0)]) else (1 if I.apply(f, [Ref([q], 0), Ref([p], 0)]) else 0)))
    else: l = sort_list(I, l, c, f)
    s.l[s.a:s.b] = l; return UNIT
@rx(r"slice::<impl \[T\]>::reverse$")
def _(I, c, a, t):
    s = as_slice(a[0]); s.l[s.a:s.b] = s.l[s.a:s.b][::-1]; return UNIT
@rx(r"slice::<impl \[T\]>::swap$")
def _(I, c, a, t):
    s = as_slice(a[0]); s.l[s.a + a[1]], s.l[s.a + a[2]] = s.l[s.a + a[2]], s.l[s.a + a[1]]; return UNIT
@rx(r"slice::<impl \[T\]>::(concat|join)$|alloc::slice::(Join|Concat).*::(join|concat)$")
def _(I, c, a, t):
    x = seq(a[0]); sep = a[1] if len(a) > 1 else None
    if all(not isinstance(deref(v), (Vec, Sl)) for v in x):
        out = Text()
        for i, v in enumerate(x):
            if i and sep is not None: out = out + text_of(sep)
            out = out + text_of(v)
        return StrObj(out)
    out = []
    for v in x: out.extend(deep(I, y) for y in seq(v))
    return Vec(out)
@rx(r"slice::<impl \[T\]>::(windows|chunks)$")
def _(I, c, a, t):
    s = as_slice(a[0]); n = a[1]
    if "windows" in c["path"]: return It([Sl(s.l, i, i + n) for i in range(s.a, s.b - n + 1)])
    return It([Sl(s.l, i, min(i + n, s.b)) for i in range(s.a, s.b, n)])
@rx(r"slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$")
def _(I, c, a, t):
    d = as_slice(a[0]); s = deref(a[1])
    if isinstance(s, Bytes):
        x = s.t.lit()
        if x is not None:
            b = list(x.encode())
            if len(b) != d.b - d.a: I.panic("copy_from_slice: source slice length does not match destination slice length")
            d.l[d.a:d.b] = b
        else: d.l[d.a:d.b] = [Ext("byte")] * (d.b - d.a)
        return UNIT
    x = seq(s)
    if len(x) != d.b - d.a: I.panic("copy_from_slice: source slice length does not match destination slice length")
    d.l[d.a:d.b] = list(x); return UNIT
@m("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(I, c, a, t): return Vec(list(seq(a[0])))
@m("alloc::boxed::Box::<T>::new_uninit", "alloc::boxed::Box::<T, A>::new_uninit_in")
def _(I, c, a, t): return Box(None)
@rx(r"^alloc::(rcs?::)*(rc::Rc|sync::Arc)::<T>::new$")
def _(I, c, a, t): return Rc(a[0])
@m("alloc::boxed::Box::<T>::new")
def _(I, c, a, t): return Box(a[0])
@rx(r"Box::<.*>::write$|MaybeUninit::<T>::write$")
def _(I, c, a, t):
    b = a[0]
    if isinstance(b, Box): b.s[0] = a[1]; return b
    b.set(a[1]); return b
@rx(r"::assume_init$")
def _(I, c, a, t): return a[0]
def rng(I, r, n, opt=False):
    r = deref(r)
    if isinstance(r, Adt):
        d = r.d
        if d.endswith("RangeFull"): lo, hi = 0, n
        elif d.endswith("RangeFrom"): lo, hi = r.f[0], n
        elif d.endswith("RangeToInclusive"): lo, hi = 0, r.f[0] + 1
        elif d.endswith("RangeTo"): lo, hi = 0, r.f[0]
        elif d.endswith("RangeInclusive"): lo, hi = r.f[0], r.f[1] + 1
        elif d.endswith("Range"): lo, hi = r.f[0], r.f[1]
        else: raise Unmodelled("range %s" % d)
        if lo > hi or hi > n:
            if opt: return None
            I.panic("range %d..%d out of range for a sequence of length %d" % (lo, hi, n))
        return lo, hi
    raise Unmodelled("range %r" % (r,))
@mt("core::ops::index::Index", "index")
@mt("core::ops::index::IndexMut", "index_mut")
def index(I, c, a, t):
    v = deref(a[0]); i = a[1]
    if isinstance(v, (StrObj, Text)): return str_slice(I, text_of(v), i)
    if isinstance(v, Map):
        e = v.d.get(keyof(i))
        if e is None: I.panic("key not found in the map")
        return Ref(e, 1)
    s = as_slice(v)
    if isinstance(s, Bytes):
        if isinstance(i, Adt) and i.d.endswith("RangeFull"): return s
        s = as_slice(s.arr())
    if isinstance(i, int):
        l, k = I.elem(s, i); return Ref(l, k)
    lo, hi = rng(I, i, s.b - s.a)
    return Sl(s.l, s.a + lo, s.a + hi)
@rx(r"SliceIndex<\[T\]>>::(index|index_mut)$")
def _(I, c, a, t): return index(I, c, [a[1], a[0]], t)
def str_slice(I, tx, r, opt=False):
    s = tx.lit()
    if s is None:
        if isinstance(r, Adt) and r.d.endswith("RangeFull"): return tx
        # positions inside an abstract text: only its ends are known
        x = tx.rep()
        n = len(x.encode())
        rr = rng(I, r, n, True)
        I.test("slice", "?")
        if rr is None:
            if opt: return None
            I.panic("byte index out of range of a text")
        if rr == (0, n): return tx
        if all(isinstance(p, str) or p.kind not in ("L", "C", "S", "J") for p in tx.p):
            # cut at a piece boundary
            pos = 0; out = []
            for p in tx.p:
                w = len((p if isinstance(p, str) else p.rep).encode())
                lo, hi = max(rr[0], pos), min(rr[1], pos + w)
                if lo < hi:
                    if isinstance(p, str): out.append(p.encode()[lo - pos:hi - pos].decode())
                    elif (lo, hi) == (pos, pos + w): out.append(p)
                    else: raise Unmodelled("cut inside %r" % (p,))
                pos += w
            return Text(out)
        if opt: raise Unmodelled("slice of a text")
        I.panic("byte index may not be a char boundary of a text")
    b = s.encode()
    rr = rng(I, r, len(b), opt)
    if rr is None: return None
    try: return lit(b[rr[0]:rr[1]].decode())
    except UnicodeDecodeError:
        if opt: return None
        I.panic("byte index is not a char boundary")

# ------------------------------------------------------------------ maps
def mapo(v):
    v = deref(v)
    if isinstance(v, Map): return v
    raise Unmodelled("map %r" % (v,))
MK = r"(hash::map::HashMap|btree::map::BTreeMap|hash::set::HashSet|btree::set::BTreeSet|HashMap|BTreeMap|HashSet|BTreeSet)::<[^>]*>::"
def kind_of(p):
    return ("hashset" if "HashSet" in p else "btreeset" if "BTreeSet" in p else "btree" if "BTreeMap" in p else "hash")
@rx(MK + r"(new|with_capacity|with_hasher|new_in|with_capacity_and_hasher)$")
def _(I, c, a, t): return Map(kind_of(c["path"]))
@rx(r"^<(std|alloc)::collections::.*(HashMap|HashSet|BTreeMap|BTreeSet).* as core::default::Default>::default$")
def _(I, c, a, t): return Map(kind_of(c["path"]))
@rx(MK + r"(insert|replace)$")
def _(I, c, a, t):
    x = mapo(a[0])
    if x.kind.endswith("set"):
        k = keyof(a[1])
        if k in x.d: return False
        x.d[k] = [a[1], UNIT]; return True
    return insert(x, a[1], a[2])
@rx(MK + r"(get|get_mut)$")
def _(I, c, a, t):
    e = lookup(I, mapo(a[0]), a[1])
    if e is None: return none()
    return some(Ref(e, 0 if mapo(a[0]).kind.endswith("set") else 1))
def lookup(I, x, k):
    kk = keyof(k)
    e = x.d.get(kk)
    if e is None:
        try:
            for o in x.d.values():
                if text_like(o[0]) and text_like(k): text_eq(I, text_of(o[0]), text_of(k))
        except Unmodelled: pass
    return e
def text_like(v):
    v = deref(v)
    return isinstance(v, (Text, StrObj)) or (isinstance(v, Adt) and v.d == "alloc::borrow::Cow")
@rx(MK + r"get_key_value$")
def _(I, c, a, t):
    e = lookup(I, mapo(a[0]), a[1]); return none() if e is None else some(Tup([Ref(e, 0), Ref(e, 1)]))
@rx(MK + r"(contains_key|contains)$")
def _(I, c, a, t): return lookup(I, mapo(a[0]), a[1]) is not None
@rx(MK + r"(remove|take)$")
def _(I, c, a, t):
    x = mapo(a[0]); e = x.d.pop(keyof(a[1]), None)
    if x.kind.endswith("set"): return e is not None if c["path"].endswith("remove") else (none() if e is None else some(e[0]))
    return none() if e is None else some(e[1])
@rx(MK + r"remove_entry$")
def _(I, c, a, t):
    e = mapo(a[0]).d.pop(keyof(a[1]), None); return none() if e is None else some(Tup(list(e)))
@rx(MK + r"len$")
def _(I, c, a, t): return len(mapo(a[0]).d)
@rx(MK + r"is_empty$")
def _(I, c, a, t): return not mapo(a[0]).d
@rx(MK + r"clear$")
def _(I, c, a, t): mapo(a[0]).d.clear(); return UNIT
@rx(MK + r"(reserve)$")
def _(I, c, a, t): return UNIT
@rx(MK + r"(iter|iter_mut)$")
def _(I, c, a, t): return iterate(I, Ref([mapo(a[0])], 0))
@rx(MK + r"(keys)$")
def _(I, c, a, t): return It([Ref(e, 0) for e in order(I, mapo(a[0]))])
@rx(MK + r"(values|values_mut)$")
def _(I, c, a, t): return It([Ref(e, 1) for e in order(I, mapo(a[0]))])
@rx(MK + r"(into_keys)$")
def _(I, c, a, t): return It([e[0] for e in order(I, mapo(a[0]))])
@rx(MK + r"(into_values)$")
def _(I, c, a, t): return It([e[1] for e in order(I, mapo(a[0]))])
@rx(MK + r"(drain)$")
def _(I, c, a, t):
    x = mapo(a[0]); r = iterate(I, x); x.d = {}; return r
@rx(MK + r"retain$")
def _(I, c, a, t):
    x = mapo(a[0])
    for k in list(x.d):
        e = x.d[k]
        if not (I.apply(a[1], [Ref(e, 0)]) if x.kind.endswith("set") else I.apply(a[1], [Ref(e, 0), Ref(e, 1)])): del x.d[k]
    return UNIT
@rx(MK + r"(first_key_value|last_key_value|first|last)$")
def _(I, c, a, t):
    x = mapo(a[0]); es = order(I, x)
    if not es: return none()
    e = es[0 if "first" in c["path"].split("::")[-1] else -1]
    return some(Ref(e, 0) if x.kind.endswith("set") else Tup([Ref(e, 0), Ref(e, 1)]))
@rx(MK + r"(range|range_mut)$")
def _(I, c, a, t):
    x = mapo(a[0]); r = deref(a[1]); out = []
    if not isinstance(r, Adt): raise Unmodelled("range of a map")
    for e in order(I, x):
        d = r.d.split("::")[-1]
        lo = r.f[0] if d in ("Range", "RangeFrom", "RangeInclusive") else None
        hi = r.f[1] if d in ("Range", "RangeInclusive") else r.f[0] if d in ("RangeTo", "RangeToInclusive") else None
        if lo is not None and cmp(I, e[0], lo) < 0: continue
        if hi is not None and (cmp(I, e[0], hi) > 0 or (cmp(I, e[0], hi) == 0 and "Inclusive" not in d)): continue
        out.append(Ref(e, 0) if x.kind.endswith("set") else Tup([Ref(e, 0), Ref(e, 1)]))
    return It(out)
@rx(MK + r"(pop_first|pop_last)$")
def _(I, c, a, t):
    x = mapo(a[0]); es = order(I, x)
    if not es: return none()
    e = es[0 if "first" in c["path"] else -1]; x.d.pop(keyof(e[0]))
    return some(e[0] if x.kind.endswith("set") else Tup(list(e)))
@rx(MK + r"entry$")
def _(I, c, a, t):
    x = mapo(a[0]); k = keyof(a[1]); e = Ext("entry", [x, k, a[1]])
    b = x.kind == "btree"
    d = ("alloc::collections::btree::map::entry::Entry" if b else "std::collections::hash::map::Entry")
    ty = I.p.adt.get(d)
    if lookup(I, x, a[1]) is None: pass
    occ = 0
    if ty: occ = [v["name"] for v in ty["variants"]].index("Occupied")
    elif b: occ = 1
    return Adt(d, occ if k in x.d else 1 - occ, [e])
def ent(e):
    e = deref(e)
    return e.f[0] if isinstance(e, Adt) else e
def entry_get(e): e = ent(e); return e.x[0].d.get(e.x[1])
def entry_put(e, v):
    e = ent(e)
    e.x[0].d[e.x[1]] = [e.x[2], v]; return Ref(e.x[0].d[e.x[1]], 1)
@rx(r"(OccupiedEntry|VacantEntry|[^a-z]Entry)::<.*>::(get|get_mut|into_mut|insert|insert_entry|remove|remove_entry|key|into_key)$")
def _(I, c, a, t):
    nm = c["path"].split("::")[-1]; e = ent(a[0]); cur = entry_get(e)
    if nm == "key": return Ref(cur, 0) if cur else Ref(e.x, 2)
    if nm == "into_key": return e.x[2]
    if nm == "insert" and "Occupied" in c["path"]: o = cur[1]; cur[1] = a[1]; return o
    if nm == "insert": return entry_put(e, a[1])
    if nm == "insert_entry": entry_put(e, a[1]); return a[0]
    if nm in ("get", "get_mut", "into_mut"): return Ref(cur, 1)
    e.x[0].d.pop(e.x[1]); return cur[1] if nm == "remove" else Tup(list(cur))
@rx(r"[Ee]ntry::<.*>::or_insert$")
def _(I, c, a, t):
    e = entry_get(a[0]); return Ref(e, 1) if e else entry_put(a[0], a[1])
@rx(r"[Ee]ntry::<.*>::or_insert_with$")
def _(I, c, a, t):
    e = entry_get(a[0]); return Ref(e, 1) if e else entry_put(a[0], I.apply(a[1], []))
@rx(r"[Ee]ntry::<.*>::or_insert_with_key$")
def _(I, c, a, t):
    e = entry_get(a[0]); return Ref(e, 1) if e else entry_put(a[0], I.apply(a[1], [Ref(ent(a[0]).x, 2)]))
@rx(r"[Ee]ntry::<.*>::or_default$")
def _(I, c, a, t):
    e = entry_get(a[0])
    return Ref(e, 1) if e else entry_put(a[0], default_of(I, I.T(t[6])["elem"]))
@rx(r"[Ee]ntry::<.*>::and_modify$")
def _(I, c, a, t):
    e = entry_get(a[0])
    if e: I.apply(a[1], [Ref(e, 1)])
    return a[0]
@rx(MK + r"(union|intersection|difference|is_subset|is_superset|is_disjoint)$")
def _(I, c, a, t):
    x, y = mapo(a[0]), mapo(a[1]); nm = c["path"].split("::")[-1]
    if nm == "is_subset": return all(k in y.d for k in x.d)
    if nm == "is_superset": return all(k in x.d for k in y.d)
    if nm == "is_disjoint": return not any(k in y.d for k in x.d)
    r = [Ref(e, 0) for e in order(I, x) if nm == "union" or (keyof(e[0]) in y.d) == (nm == "intersection")]
    if nm == "union": r += [Ref(e, 0) for e in order(I, y) if keyof(e[0]) not in x.d]
    return It(r)
def default_of(I, tid):
    ty = I.T(tid); d = ty.get("def", "")
    if d == "alloc::vec::Vec": return Vec([])
    if d.endswith("::VecDeque"): return Vec([], True)
    if d == "alloc::string::String": return StrObj()
    if d == OPT: return none()
    if "HashMap" in d or "BTreeMap" in d or "HashSet" in d or "BTreeSet" in d: return Map(kind_of(d))
    if ty["k"] == "int": return 0
    if ty["k"] == "bool": return False
    if ty["k"] == "float": return 0.0
    if ty["k"] == "tuple": return Tup([default_of(I, e) for e in ty["elems"]])
    if d == "proc_macro2::TokenStream": return TS()
    if "PhantomData" in d: return I.zst(tid)
    if ty["k"] == "ref" and I.T(ty["elem"])["k"] == "str": return Text()
    if "Cow" in d: return Adt("alloc::borrow::Cow", 0, [Text()])
    ks = I.p.impls.get(("core::default::Default", d, "default"), [])
    if len(ks) == 1: return I.run_body(ks[0], [])
    raise Unmodelled("default of %s" % ty["s"])
@mt("core::default::Default", "default")
def _(I, c, a, t):
    if c.get("key"): 
        ty = I.T(t[6])
        if ty["k"] == "adt" and (("core::default::Default", ty["def"], "default") in I.p.impls): return NotImplemented
    return default_of(I, t[6])

# ------------------------------------------------------------------ comparison, clone, conversion
@mt("core::cmp::PartialEq", "eq")
def _(I, c, a, t):
    v = deref(a[0])
    if isinstance(v, Adt) and c.get("local") and c.get("key") in I.bodies: return NotImplemented
    return eq(I, a[0], a[1])
@mt("core::cmp::PartialEq", "ne")
def _(I, c, a, t): return not eq(I, a[0], a[1])
@mt("core::cmp::Ord", "cmp")
def _(I, c, a, t):
    if c.get("local") and c.get("key") in I.bodies: return NotImplemented
    return ordering(cmp(I, a[0], a[1]))
@mt("core::cmp::PartialOrd", "partial_cmp")
def _(I, c, a, t):
    if c.get("local") and c.get("key") in I.bodies: return NotImplemented
    return some(ordering(cmp(I, a[0], a[1])))
@mt("core::cmp::PartialOrd", "lt", "le", "gt", "ge")
def _(I, c, a, t):
    n = cmp(I, a[0], a[1]); return {"lt": n < 0, "le": n <= 0, "gt": n > 0, "ge": n >= 0}[c["method"]]
@mt("core::cmp::Ord", "max", "min")
def _(I, c, a, t):
    n = cmp(I, a[0], a[1])
    return (a[1] if n <= 0 else a[0]) if c["method"] == "max" else (a[0] if n <= 0 else a[1])
def call_clone(I, x):
    v = deref1(x)
    if isinstance(v, Adt):
        ks = I.p.impls.get(("core::clone::Clone", v.d, "clone"), [])
        if len(ks) == 1: return I.run_body(ks[0], [x if isinstance(x, Ref) else Ref([x], 0)])
    return deep(I, v)
@mt("core::clone::Clone", "clone")
def _(I, c, a, t):
    if c.get("local") and c.get("key") in I.bodies: return NotImplemented
    return clone(I, a[0])
@mt("alloc::borrow::ToOwned", "to_owned")
def _(I, c, a, t):
    v = deref(a[0])
    if isinstance(v, Text): return StrObj(v)
    if isinstance(v, (Sl, Arr)): return Vec([deep(I, x) for x in seq(v)])
    return clone(I, a[0])
@mt("core::borrow::Borrow", "borrow")
@mt("core::convert::AsRef", "as_ref")
def as_ref(I, c, a, t):
    v = deref(a[0])
    if isinstance(v, Adt) and c.get("local") and c.get("key") in I.bodies: return NotImplemented
    if isinstance(v, StrObj): return v.t
    if isinstance(v, Adt) and v.d == "alloc::borrow::Cow": return text_of(v)
    if isinstance(v, Vec): return as_slice(v)
    if isinstance(v, Text):
        return v
    if isinstance(v, Adt):
        r = I.dyn(c["trait"], c["method"], a, c, t)
        if r is not NotImplemented: return r
    return a[0]
@mt("core::ops::deref::Deref", "deref")
@mt("core::ops::deref::DerefMut", "deref_mut")
def _(I, c, a, t):
    v = deref1(a[0])
    if isinstance(v, StrObj): return v.t
    if isinstance(v, Vec): return as_slice(v)
    if isinstance(v, Box): return Ref(v.s, 0)
    if isinstance(v, Adt) and v.d == "alloc::borrow::Cow":
        x = v.f[0]
        return text_of(x) if isinstance(deref(x), (Text, StrObj)) else x
    if isinstance(v, Ext): return v
    if isinstance(v, (Ref, Text, Sl)): return v
    r = I.dyn(c["trait"], c["method"], a, c, t)
    return r
@mt("core::convert::Into", "into")
@mt("core::convert::From", "from")
def from_(I, c, a, t):
    k = c.get("key")
    if k in I.bodies and (c.get("local") or not c["path"].startswith(("<T as", "alloc::", "std::", "<alloc", "anyhow"))): return NotImplemented
    v = a[0]
    ty = I.T(t[6]) if t else (I.T(c["args"][0]) if c.get("args") else {})
    if c.get("method") == "into" and k in I.bodies: return NotImplemented
    return convert(I, v, ty, c)
def convert(I, v, ty, c):
    d = ty.get("def", "")
    if d == "alloc::string::String":
        return StrObj(piece(I, v))
    if d == "alloc::vec::Vec":
        x = deref(v)
        if isinstance(x, (StrObj, Text)): return Bytes(text_of(x))
        if isinstance(x, (Vec,)): return x
        return Vec(list(seq(x)))
    if d == "alloc::borrow::Cow":
        return Adt(d, 1 if isinstance(v, StrObj) else 0, [v])
    if d == "anyhow::Error": return Ext("error", v)
    if d == "alloc::boxed::Box": return v if isinstance(v, Box) else Box(v)
    if d == OPT: return some(v)
    if d in ("std::path::PathBuf", "std::ffi::os_str::OsString"): return Ext("path", text_of(v))
    if d.endswith("process::Stdio"): return Ext("stdio")
    if ty.get("k") in ("int", "float", "char", "bool"):
        x = deref(v)
        if isinstance(x, bool): return int(x)
        if ty["k"] == "float" and isinstance(x, int): return float(x)
        return x
    if "HashMap" in d or "BTreeMap" in d or "HashSet" in d or "BTreeSet" in d:
        r = Map(kind_of(d)); extend(I, r, iterate(I, v)); return r
    if d.endswith("VecDeque"): return Vec(list(seq(v)), True)
    if d == "proc_macro2::TokenStream":
        r = TS(); append(r, v); return r
    ks = I.p.impls.get(("core::convert::From", d, "from"), [])
    if len(ks) == 1: return I.run_body(ks[0], [v])
    if isinstance(deref(v), Adt) and deref(v).d == d: return v
    raise Unmodelled("conversion to %s by %s" % (ty.get("s"), c.get("path")))
@mt("core::convert::TryFrom", "try_from")
@mt("core::convert::TryInto", "try_into")
def _(I, c, a, t):
    if c.get("local") and c.get("key") in I.bodies: return NotImplemented
    if c["method"] == "try_into" and c.get("key") in I.bodies: return NotImplemented
    ty = I.T(t[6]); et = ty["args"][0]; v = deref(a[0])
    if isinstance(v, int) and I.T(et)["k"] in ("int", "char"):
        r = I.int_range(et)
        return ok(v) if r[0] <= v <= r[1] else err(Ext("TryFromIntError"))
    if isinstance(v, SymInt): 
        r = I.int_range(et); I.test("int", r[1]); I.test("int", r[0])
        return ok(v) if r[0] <= v.rep <= r[1] else err(Ext("TryFromIntError"))
    d = I.T(et).get("def")
    ks = I.p.impls.get(("core::convert::TryFrom", d, "try_from"), [])
    if len(ks) == 1: return I.run_body(ks[0], [a[0]])
    if seq(v) is not None and I.T(et)["k"] == "array":
        l = seq(v)
        return ok(Arr(list(l))) if len(l) == I.T(et)["n"] else err(Ext("TryFromSliceError"))
    return ok(convert(I, a[0], I.T(et), c))
@mt("core::hash::Hash", "hash")
def _(I, c, a, t): return UNIT

# ------------------------------------------------------------------ calls of values
@mt("core::ops::function::Fn", "call")
@mt("core::ops::function::FnMut", "call_mut")
@mt("core::ops::function::FnOnce", "call_once")
def _(I, c, a, t):
    return I.apply(a[0], list(a[1].f) if isinstance(a[1], Tup) else [a[1]])

# ------------------------------------------------------------------ panics
@m("core::panicking::panic", "core::panicking::panic_fmt", "std::panicking::begin_panic", "core::panicking::unimplemented_default_msg",
   "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed", "core::panicking::panic_display", "core::panicking::unreachable_display",
   "core::panicking::panic_explicit", "core::panicking::panic_const", "core::panicking::assert_failed", "core::panicking::panic_str_2015")
def do_panic(I, c, a, t):
    ms = ""
    for x in a:
        try: ms = args_text(I, x).rep() if isinstance(x, Ext) and x.what == "fmt" else text_of(x).rep()
        except Exception: continue
        break
    I.panic("%s %s" % (c["path"].split("::")[-1], ms))
@rx(r"^core::panicking::|^std::panicking::begin_panic|_failed$|unwrap_failed::|slice_index_fail|^core::str::slice_error_fail")
def _(I, c, a, t): return do_panic(I, c, a, t)
@rx(r"^(std|core)::process::(abort|exit)$|^std::process::exit$")
def _(I, c, a, t): I.panic("process exit")
@rx(r"precondition_check$|^core::hint::(must_use|black_box)$|^core::hint::assert_unchecked$|^core::mem::(drop|forget)$|^core::intrinsics::(cold_path|assume)$")
def _(I, c, a, t): return a[0] if a else UNIT
@m("core::mem::take")
def _(I, c, a, t):
    r = a[0]; v = r.get(); r.set(default_of(I, t[6])); return v
@m("core::mem::replace")
def _(I, c, a, t):
    r = a[0]; v = r.get(); r.set(a[1]); return v
@m("core::mem::swap")
def _(I, c, a, t):
    x, y = a[0].get(), a[1].get(); a[0].set(y); a[1].set(x); return UNIT
@rx(r"^core::mem::(size_of|align_of)")
def _(I, c, a, t): return I.T(c["args"][0]).get("size" if "size_of" in c["path"] else "align", 8)

# ------------------------------------------------------------------ strings
def is_empty(I, t):
    if not t.p: return True
    if any(isinstance(x, str) or x.kind not in MAYBE_EMPTY for x in t.p): return False
    I.test("empty", "")
    return False
@rx(r"^alloc::string::String::(new|with_capacity)$|^<alloc::string::String as core::default::Default>::default$")
def _(I, c, a, t): return StrObj()
@rx(r"^alloc::string::String::(as_str|as_mut_str|into_boxed_str)$")
def _(I, c, a, t): return text_of(a[0])
@rx(r"(String::(as_bytes|into_bytes)|<impl str>::as_bytes)$")
def _(I, c, a, t): return Bytes(text_of(a[0]))
@rx(r"String::from_utf8$|^core::str::converts::from_utf8$|String::from_utf8_lossy$")
def _(I, c, a, t):
    v = deref(a[0])
    l = seq(v)
    if isinstance(v, (Vec, Sl)) and len(l) == 1 and isinstance(l[0], Bytes): v, l = l[0], None
    if l is not None and all(isinstance(deref(z), int) for z in l):
        try: v = Bytes(lit(bytes(deref(z) for z in l).decode()))
        except UnicodeDecodeError:
            if "lossy" in c["path"]: raise Unmodelled("from_utf8_lossy")
            return err(Ext("Utf8Error"))
    if not isinstance(v, Bytes): raise Unmodelled("from_utf8")
    if "lossy" in c["path"]: return Adt("alloc::borrow::Cow", 0, [v.t])
    return ok(StrObj(v.t) if "String" in c["path"] else v.t)
@m("alloc::string::String::push_str")
def _(I, c, a, t): x = deref(a[0]); x.t = x.t + text_of(a[1]); return UNIT
@m("alloc::string::String::push")
def _(I, c, a, t): x = deref(a[0]); x.t = x.t + lit(chr(a[1])); return UNIT
@rx(r"^alloc::string::String::(insert|insert_str)$")
def _(I, c, a, t):
    x = deref(a[0])
    ins = lit(chr(a[2])) if isinstance(a[2], int) else text_of(a[2])
    n = len(x.t.rep().encode())
    if a[1] == 0: x.t = ins + x.t
    elif a[1] == n: x.t = x.t + ins
    else:
        R = lambda lo, hi: Adt("core::ops::range::Range", 0, [lo, hi])
        x.t = str_slice(I, x.t, R(0, a[1])) + ins + str_slice(I, x.t, R(a[1], n))
    return UNIT
@rx(r"^alloc::string::String::(truncate|remove|retain|drain|split_off|replace_range)$")
def _(I, c, a, t):
    x = deref(a[0]); nm = c["path"].split("::")[-1]; n = len(x.t.rep().encode())
    R = lambda lo, hi: Adt("core::ops::range::Range", 0, [lo, hi])
    if nm == "truncate":
        if a[1] < n: x.t = str_slice(I, x.t, R(0, a[1]))
        return UNIT
    if nm == "split_off":
        r = str_slice(I, x.t, R(a[1], n)); x.t = str_slice(I, x.t, R(0, a[1])); return StrObj(r)
    if nm in ("drain", "replace_range"):
        lo, hi = rng(I, a[1], n)
        r = str_slice(I, x.t, R(lo, hi))
        x.t = str_slice(I, x.t, R(0, lo)) + (text_of(a[2]) if nm == "replace_range" else Text()) + str_slice(I, x.t, R(hi, n))
        return chars_of(I, r) if nm == "drain" else UNIT
    if nm == "remove":
        if a[1] >= n: I.panic("cannot remove a char from the end of a string")
        ch = str_slice(I, x.t, R(a[1], n)).rep()[0]; w = len(ch.encode())
        x.t = str_slice(I, x.t, R(0, a[1])) + str_slice(I, x.t, R(a[1] + w, n)); return ord(ch)
    out = []
    for p in x.t.p:
        if isinstance(p, str): out.append("".join(ch for ch in p if pred(I, a[1], ch))); continue
        hit = [bool(pred(I, a[1], ch)) for ch in (p.alphabet() or p.rep)]
        if all(hit): out.append(p)
        elif any(hit):
            I.test("chars", "?"); out.append("".join(ch for ch in p.rep if pred(I, a[1], ch)))
    x.t = Text(out); return UNIT
def chars_of(I, x):
    s = x.lit()
    if s is None: I.test("chars", "?"); s = x.rep()
    return It([ord(ch) for ch in s])
@m("alloc::string::String::clear")
def _(I, c, a, t): deref(a[0]).t = Text(); return UNIT
@m("alloc::string::String::pop")
def _(I, c, a, t):
    x = deref(a[0])
    if not x.t.p: return none()
    if isinstance(x.t.p[-1], str):
        ch = x.t.p[-1][-1]; x.t = Text(x.t.p[:-1] + (x.t.p[-1][:-1],)); return some(ord(ch))
    raise Unmodelled("String::pop")
@rx(r"(<impl str>|String)::is_empty$")
def _(I, c, a, t): return is_empty(I, text_of(a[0]))
@rx(r"(<impl str>|String)::len$")
def _(I, c, a, t): return I.text_len(text_of(a[0]))
@mt("core::ops::arith::Add", "add")
def _(I, c, a, t):
    v = deref(a[0])
    if isinstance(v, StrObj): return StrObj(v.t + text_of(a[1]))
    if isinstance(v, Adt) and v.d == "alloc::borrow::Cow":
        x = text_of(v)
        return Adt(v.d, 1, [StrObj(x + text_of(a[1]))])
    return I.bin("Add", v, deref(a[1]), t[6])
@mt("core::ops::arith::AddAssign", "add_assign")
def _(I, c, a, t):
    x = deref(a[0])
    if isinstance(x, StrObj): x.t = x.t + text_of(a[1])
    elif isinstance(x, Adt) and x.d == "alloc::borrow::Cow": x.v = 1; x.f[0] = StrObj(text_of(x) + text_of(a[1]))
    else: a[0].set(I.bin("Add", x, deref(a[1]), I.T(t[7][0])["elem"]))
    return UNIT
@mt("core::ops::arith::Neg", "neg")
def _(I, c, a, t):
    v = deref(a[0])
    if isinstance(v, SymInt): return SymInt(neg_text(v.t), -v.rep)
    if isinstance(v, SymFloat): return SymFloat(neg_text(v.t))
    return -v
@mt("alloc::string::ToString", "to_string")
def _(I, c, a, t): return StrObj(display(I, a[0], c["args"][0] if c.get("args") else None))
@rx(r"<impl str>::(to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase)$")
def _(I, c, a, t):
    x = text_of(a[0]); up = "upper" in c["path"]
    f = (lambda s: s.upper()) if up else (lambda s: s.lower())
    return StrObj(Text(f(p) if isinstance(p, str) else Atom("upper" if up else "lower", p.key(), f(p.rep)) for p in x.p))
@rx(r"^<str as heck::|^heck::")
def _(I, c, a, t):
    nm = c["path"].split("::")[-1]
    return StrObj(heck_text(nm, text_of(a[0])))
def heck_words(s):
    out = []; first = True
    for word in re.findall(r"\w+", s):
        n = len(word); init = 0; mode = 0; i = 0
        while i < n:
            ch = word[i]
            if ch == "_":
                if init == i: init += 1
                i += 1; continue
            if i + 1 < n:
                nx = word[i + 1]
                nm = 1 if ch.islower() else 2 if ch.isupper() else mode
                if nx == "_" or (nm == 1 and nx.isupper()):
                    out.append(word[init:i + 1]); init = i + 1; mode = 0
                elif mode == 2 and ch.isupper() and nx.islower():
                    out.append(word[init:i]); init = i; mode = 0
                else: mode = nm
            else:
                out.append(word[init:]); break
            i += 1
    return out
def heck_str(nm, s):
    w = heck_words(s)
    if nm == "to_snake_case": return "_".join(x.lower() for x in w)
    if nm == "to_shouty_snake_case": return "_".join(x.upper() for x in w)
    if nm == "to_kebab_case": return "-".join(x.lower() for x in w)
    cap = lambda x: x[:1].upper() + x[1:].lower()
    if nm == "to_camel_case": return "".join(cap(x) for x in w)
    if nm == "to_mixed_case": return "".join(x.lower() if i == 0 else cap(x) for i, x in enumerate(w))
    if nm == "to_title_case": return " ".join(cap(x) for x in w)
    raise Unmodelled("heck %s" % nm)
def heck_text(nm, x):
    s = x.lit()
    if s is not None: return lit(heck_str(nm, s))
    # of an identifier with atoms: a new identifier, a function of the old one
    return Text((Atom(nm, x.key(), heck_str(nm, x.rep())),))
@rx(r"<impl str>::(starts_with|ends_with|contains|strip_prefix|strip_suffix)$")
def _(I, c, a, t):
    x = text_of(a[0]); nm = c["path"].split("::")[-1]; p = a[1]
    pv = deref(p)
    if isinstance(pv, int): y = chr(pv)
    elif isinstance(pv, (Text, StrObj)): y = text_of(pv).lit()
    else:
        y = None
        if nm in ("contains", "starts_with", "ends_with"):
            ps = x.p if nm == "contains" else (x.p[:1] if nm == "starts_with" else x.p[-1:])
            for pc in ps:
                chars = (pc if isinstance(pc, str) else pc.alphabet() or pc.rep)
                if isinstance(pc, str) and nm == "starts_with": chars = pc[:1]
                if isinstance(pc, str) and nm == "ends_with": chars = pc[-1:]
                hit = [bool(pred(I, p, ch)) for ch in chars]
                if isinstance(pc, str):
                    if any(hit): return True
                elif all(hit): return True
                elif any(hit): I.test(nm, "predicate")
            return False
    if y is None: raise Unmodelled("str::%s" % nm)
    r = match_prefix(I, x, y) if nm in ("starts_with", "strip_prefix") else match_suffix(I, x, y) if nm in ("ends_with", "strip_suffix") else None
    if nm == "contains":
        if any(isinstance(q, str) and y in q for q in x.p): return True
        if x.lit() is None: I.test("contains", y)
        return False
    if nm.startswith("strip"): return none() if r is None else some(r)
    return r is not None
def pred(I, f, ch):
    f = deref(f)
    if isinstance(f, (Arr, Sl)): return ord(ch) in [deref(x) for x in seq(f)]
    return I.apply(f, [ord(ch)])
def match_prefix(I, x, y):
    """rest of x after the literal y, or None"""
    if y == "": return x
    if not x.p: return None
    h = x.p[0]
    if isinstance(h, str):
        if h.startswith(y): return Text((h[len(y):],) + x.p[1:])
        if y.startswith(h): 
            r = match_prefix(I, Text(x.p[1:]), y[len(h):])
            return r
        return None
    al = h.alphabet()
    if h.kind == "C" and y[0] == "/": al = ""
    if h.kind in MAYBE_EMPTY and (al is None or y[0] not in al):
        return match_prefix(I, Text(x.p[1:]), y)   # the atom must be empty: then the next piece decides
    if al is not None and y[0] not in al: return None
    if al is None and not h.rep.startswith(y[0]): return None
    I.test("prefix", y)
    return None
def match_suffix(I, x, y):
    if y == "": return x
    if not x.p: return None
    h = x.p[-1]
    if isinstance(h, str):
        if h.endswith(y): return Text(x.p[:-1] + (h[:len(h) - len(y)],))
        return None
    al = h.alphabet()
    if al is not None and y[-1] not in al: return None
    I.test("suffix", y)
    return None
@rx(r"<impl str>::(trim|trim_start|trim_end|trim_left|trim_right)$")
def _(I, c, a, t):
    x = text_of(a[0]); nm = c["path"].split("::")[-1]; ps = list(x.p)
    if nm in ("trim", "trim_start", "trim_left"):
        while ps:
            if isinstance(ps[0], str):
                ps[0] = ps[0].lstrip()
                if ps[0]: break
                ps.pop(0)
            elif ps[0].kind == "Sp": ps.pop(0)
            elif ps[0].kind in ("L", "C", "S"): ps[0] = Atom("trim_start", ps[0].key(), ps[0].rep.lstrip()); break
            else: break
    if nm in ("trim", "trim_end", "trim_right"):
        while ps:
            if isinstance(ps[-1], str):
                ps[-1] = ps[-1].rstrip()
                if ps[-1]: break
                ps.pop()
            elif ps[-1].kind == "Sp": ps.pop()
            elif ps[-1].kind in ("L", "C", "S"): ps[-1] = Atom("trim_end", ps[-1].key(), ps[-1].rep.rstrip()); break
            else: break
    return Text(ps)
@rx(r"<impl str>::(trim_start_matches|trim_end_matches|trim_matches)$")
def _(I, c, a, t):
    x = text_of(a[0]); pv = deref(a[1])
    y = chr(pv) if isinstance(pv, int) else text_of(pv).lit() if isinstance(pv, (Text, StrObj)) else None
    nm = c["path"].split("::")[-1]
    if y is None:
        ps = list(x.p)
        for on, at in ((nm != "trim_end_matches", 0), (nm != "trim_start_matches", -1)):
            while on and ps:
                p = ps[at]
                if isinstance(p, str):
                    q = p
                    while q and pred(I, pv, q[at]): q = q[1:] if at == 0 else q[:-1]
                    ps[at] = q
                    if q: break
                    ps.pop(at)
                else:
                    hit = [bool(pred(I, pv, ch)) for ch in (p.alphabet() or p.rep)]
                    if all(hit): ps.pop(at); continue
                    if any(hit):
                        I.test("trim", "?"); q = p.rep
                        while q and pred(I, pv, q[at]): q = q[1:] if at == 0 else q[:-1]
                        if q != p.rep: ps[at] = Atom(nm, p.key(), q)
                    break
        return Text(ps)
    if nm != "trim_end_matches":
        while True:
            r = match_prefix(I, x, y)
            if r is None: break
            x = r
    if nm != "trim_start_matches":
        while True:
            r = match_suffix(I, x, y)
            if r is None: break
            x = r
    return x
@rx(r"<impl str>::(split|lines|split_whitespace|split_ascii_whitespace|rsplit|splitn|rsplitn|split_terminator|split_inclusive)$")
def _(I, c, a, t):
    x = text_of(a[0]); nm = c["path"].split("::")[-1]
    y = None; f = None
    if nm.startswith(("split_ascii", "split_whitespace")): f = str.isspace
    elif nm == "lines": y = "\n"
    else:
        pv = deref(a[2 if nm.endswith("splitn") else 1]); y = chr(pv) if isinstance(pv, int) else text_of(pv).lit() if isinstance(pv, (Text, StrObj)) else None
        if y is None:
            if isinstance(pv, (Text, StrObj)): raise Unmodelled("str::split")
            f = lambda ch: bool(pred(I, pv, ch))
    if y == "": raise Unmodelled("str::split")
    out = [[]]; seps = []
    for p in x.p:
        if isinstance(p, str):
            if y is not None:
                q = p.split(y); out[-1].append(q[0])
                for z in q[1:]: out.append([z]); seps.append(y)
            else:
                w = ""
                for ch in p:
                    if f(ch): out[-1].append(w); w = ""; out.append([]); seps.append(ch)
                    else: w += ch
                out[-1].append(w)
        else:
            al = p.alphabet()
            if y is not None: hit = [al is None or any(ch in al for ch in y)]
            else: hit = [f(ch) for ch in (al or p.rep)]
            if y is None and p.kind == "Sp" and all(hit): out.append([]); seps.append(" "); continue
            if any(hit): I.test("split", y)
            out[-1].append(p)
    r = [Text(o) for o in out]
    if f is str.isspace: r = [o for o in r if o.p]
    if nm == "lines":
        if r and not r[-1].p: r.pop()
        r = [Text(o.p[:-1] + (o.p[-1][:-1],)) if o.p and isinstance(o.p[-1], str) and o.p[-1].endswith("\r") else o for o in r]
    if nm in ("split_terminator",) and not r[-1].p: r.pop()
    if nm == "split_inclusive":
        r = [o + lit(seps[i]) if i < len(seps) else o for i, o in enumerate(r)]
        if not r[-1].p: r.pop()
    if nm == "splitn" and len(r) > a[1]:
        n = a[1]; last = r[n - 1]
        for i in range(n, len(r)): last = last + lit(seps[i - 1]) + r[i]
        r = r[:n - 1] + [last] if n else []
    if nm in ("rsplit", "rsplitn"):
        if nm == "rsplitn" and len(r) > a[1]:
            k = len(r) - a[1]; first = r[0]
            for i in range(1, k + 1): first = first + lit(seps[i - 1]) + r[i]
            r = [first] + r[k + 1:] if a[1] else []
        r.reverse()
    return It(r)
@rx(r"<impl str>::(matches|match_indices)$")
def _(I, c, a, t):
    x = text_of(a[0]); s = x.lit(); pv = deref(a[1])
    if s is None: I.test("chars", "?"); s = x.rep()
    out = []; i = 0; y = chr(pv) if isinstance(pv, int) else text_of(pv).lit() if isinstance(pv, (Text, StrObj)) else None
    if y == "": raise Unmodelled("str::matches")
    while i < len(s):
        if (y is not None and s.startswith(y, i)) or (y is None and pred(I, pv, s[i])):
            w = y or s[i]; out.append(lit(w) if c["path"].endswith("matches") else Tup([len(s[:i].encode()), lit(w)])); i += len(w)
        else: i += 1
    return It(out)
@rx(r"<impl str>::eq_ignore_ascii_case$")
def _(I, c, a, t):
    x, y = text_of(a[0]), text_of(a[1])
    if x.lit() is not None and y.lit() is not None: return x.lit().lower() == y.lit().lower()
    if x.key() == y.key(): return True
    for p, q in ((x, y), (y, x)):
        if p.lit() is not None and (spells(q, p.lit()) or spells(q, p.lit().lower()) or spells(q, p.lit().upper())):
            for z in (p.lit(), p.lit().lower(), p.lit().upper()): I.test("eq", z)
    return False
@rx(r"<impl str>::(replace|replacen)$")
def _(I, c, a, t):
    x = text_of(a[0]); pv = deref(a[1])
    y = chr(pv) if isinstance(pv, int) else text_of(pv).lit() if isinstance(pv, (Text, StrObj)) else None
    z = text_of(a[2])
    if y is None: raise Unmodelled("str::replace")
    out = []
    for p in x.p:
        if isinstance(p, str):
            q = p.split(y)
            for i, w in enumerate(q):
                if i: out.extend(z.p)
                out.append(w)
        else:
            if p.alphabet() is None or all(ch in p.alphabet() for ch in y): I.test("contains", y)
            out.append(p)
    return StrObj(Text(out))
@rx(r"<impl str>::repeat$")
def _(I, c, a, t):
    r = Text()
    for _ in range(a[1]): r = r + text_of(a[0])
    return StrObj(r)
@rx(r"<impl str>::(chars|char_indices|bytes)$")
def _(I, c, a, t):
    x = text_of(a[0]); s = x.lit()
    if s is None: I.test("chars", "?"); s = x.rep()
    nm = c["path"].split("::")[-1]
    if nm == "bytes": return It(list(s.encode()))
    if nm == "chars": return It([ord(ch) for ch in s])
    out = []; p = 0
    for ch in s: out.append(Tup([p, ord(ch)])); p += len(ch.encode())
    return It(out)
@rx(r"<impl str>::is_char_boundary$")
def _(I, c, a, t):
    s = text_of(a[0]).rep().encode(); i = a[1]
    if text_of(a[0]).lit() is None: I.test("slice", "?")
    return i == 0 or i == len(s) or (i < len(s) and (s[i] & 0xC0) != 0x80)
@rx(r"<impl str>::(get)$")
def _(I, c, a, t):
    r = str_slice(I, text_of(a[0]), a[1], True); return none() if r is None else some(r)
@rx(r"<impl str>::(find|rfind)$")
def _(I, c, a, t):
    x = text_of(a[0]); pv = deref(a[1])
    if x.lit() is None: I.test("find", "?")
    s = x.rep()
    if isinstance(pv, (Clo, FnV)):
        rev = c["path"].endswith("rfind")
        for i, ch in (reversed(list(enumerate(s))) if rev else enumerate(s)):
            if I.apply(pv, [ord(ch)]): return some(len(s[:i].encode()))
        return none()
    if isinstance(pv, (Arr, Sl)):
        hits = [i for i, ch in enumerate(s) if pred(I, pv, ch)]
        return none() if not hits else some(len(s[:hits[-1 if c["path"].endswith("rfind") else 0]].encode()))
    y = chr(pv) if isinstance(pv, int) else text_of(pv).lit()
    i = s.find(y) if c["path"].endswith("::find") else s.rfind(y)
    return none() if i < 0 else some(len(s[:i].encode()))
@rx(r"<impl str>::(split_once|rsplit_once)$")
def _(I, c, a, t):
    x = text_of(a[0]); pv = deref(a[1]); y = chr(pv) if isinstance(pv, int) else text_of(pv).lit()
    for i, p in enumerate(x.p):
        if isinstance(p, str) and y in p:
            j = p.find(y)
            return some(Tup([Text(x.p[:i] + (p[:j],)), Text((p[j + len(y):],) + x.p[i + 1:])]))
    return none()
@rx(r"<impl str>::split_at$")
def _(I, c, a, t):
    x = text_of(a[0]); n = a[1]
    R = lambda lo, hi: Adt("core::ops::range::Range", 0, [lo, hi])
    return Tup([str_slice(I, x, R(0, n)), str_slice(I, x, R(n, len(x.rep().encode())))])
@rx(r"<impl str>::parse$")
def _(I, c, a, t): return parse_num(I, text_of(a[0]), I.T(t[6])["args"][0], 10)
@rx(r"FromStr for .*>::from_str$|^core::str::traits::FromStr::from_str$")
def _(I, c, a, t):
    rt = I.T(t[6])["args"][0] if t else None
    if rt is None:
        mm = re.search(r"FromStr for (\w+)>", c["path"])
        return parse_num(I, text_of(a[0]), None, 10, mm.group(1))
    return parse_num(I, text_of(a[0]), rt, 10)
@rx(r"<impl (\w+)>::from_str_radix$")
def _(I, c, a, t):
    mm = re.search(r"<impl (\w+)>", c["path"])
    return parse_num(I, text_of(a[0]), None, a[1], mm.group(1))
def parse_num(I, x, tid, radix, name=None):
    name = name or I.T(tid)["s"]
    s = x.lit()
    if name in ("f64", "f32"):
        if s is not None:
            try: return ok(float(s)) if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?|[+-]?(inf|infinity|nan)", s, re.I) else err(Ext("ParseFloatError"))
            except ValueError: return err(Ext("ParseFloatError"))
        if all(isinstance(p, str) or p.kind in ("D",) for p in x.p): return ok(SymFloat(x))
        return err(Ext("ParseFloatError"))
    if name == "bool":
        return ok(s == "true") if s in ("true", "false") else err(Ext("ParseBoolError"))
    bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}.get(name)
    if bits is None and name.endswith("TokenStream") and not re.search(r"[\"'/()\[\]{}]", x.rep()): return ok(TS([("lit", x)]))
    if bits is None and name.endswith("String"): return ok(StrObj(x))
    if bits is None and name == "char":
        r = x.rep()
        if s is None: I.test("len", "?")
        return ok(ord(r)) if len(r) == 1 else err(Ext("ParseCharError"))
    if bits is None: raise Unmodelled("parse to %s" % name)
    lo, hi = (0, (1 << bits) - 1) if name[0] == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    if s is not None:
        if not re.fullmatch(r"[+-]?[0-9a-zA-Z]+", s) or (s[0] == "-" and name[0] == "u"): return err(Ext("ParseIntError"))
        try: v = int(s, radix)
        except ValueError: return err(Ext("ParseIntError"))
        return ok(v) if lo <= v <= hi else err(Ext("ParseIntError"))
    sign = ""; ps = list(x.p)
    if ps and isinstance(ps[0], str) and ps[0] in ("+", "-"): sign = ps.pop(0)
    if len(ps) == 1 and not isinstance(ps[0], str) and (ps[0].kind == "D" or (ps[0].kind == "X" and radix == 16)):
        v = int(ps[0].rep, radix)
        if sign == "-": v = -v
        tx = Text((("-",) if sign == "-" else ()) + ((ps[0],) if radix == 10 and ps[0].kind == "D" else (Atom("num%d" % radix, ps[0].key(), str(abs(v))),)))
        return ok(SymInt(tx, v))
    return err(Ext("ParseIntError"))
@rx(r"<impl (\w+)>::(checked_neg|checked_add|checked_sub|checked_mul|saturating_add|saturating_sub|wrapping_add|wrapping_sub|wrapping_neg|abs|pow|wrapping_mul|overflowing_add|is_positive|is_negative|signum|unsigned_abs|min_value|max_value|saturating_mul|rem_euclid|abs_diff|checked_div|checked_rem|overflowing_sub|overflowing_mul|checked_pow|saturating_pow|leading_zeros|trailing_zeros|count_ones|to_le_bytes|to_be_bytes|to_ne_bytes|from_le_bytes|is_power_of_two|next_power_of_two|checked_abs|wrapping_abs|div_euclid|checked_shl|checked_next_power_of_two|div_ceil|checked_rem_euclid|midpoint|from_be_bytes|swap_bytes|wrapping_shl|wrapping_shr|isqrt|ilog2|ilog10|checked_ilog2|checked_shr|saturating_neg|saturating_abs|checked_div_euclid|next_multiple_of)$")
def _(I, c, a, t):
    mm = re.search(r"<impl (\w+)>::(\w+)$", c["path"]); nm = mm.group(2); ty = mm.group(1)
    bits = {"size": 64}.get(ty[1:]) or int(ty[1:])
    lo, hi = (0, (1 << bits) - 1) if ty[0] == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    x = deref(a[0]) if a else None
    if isinstance(x, SymInt):
        if nm == "checked_neg": return some(SymInt(neg_text(x.t), -x.rep))
        if nm in ("checked_add", "checked_sub"):
            r = I.bin("Add" if nm.endswith("add") else "Sub", x, deref(a[1]), 0); return some(r)
        if nm in ("is_negative", "is_positive"): I.test("int", 0); return x.rep < 0 if nm == "is_negative" else x.rep > 0
        if nm in ("wrapping_neg",): return SymInt(neg_text(x.t), -x.rep)
        raise Unmodelled(nm + " of a schema constant")
    y = deref(a[1]) if len(a) > 1 else None
    if isinstance(y, SymInt): raise Unmodelled(nm + " of a schema constant")
    if nm.startswith("overflowing"):
        v = x + y if nm.endswith("add") else x - y if nm.endswith("sub") else x * y
        w = v & ((1 << bits) - 1)
        if w > hi: w -= 1 << bits
        return Tup([w, w != v])
    u = x & ((1 << bits) - 1) if isinstance(x, int) else None
    if nm == "leading_zeros": return bits - u.bit_length()
    if nm == "trailing_zeros": return bits if u == 0 else (u & -u).bit_length() - 1
    if nm == "count_ones": return bin(u).count("1")
    if nm in ("to_le_bytes", "to_ne_bytes"): return Arr(list(u.to_bytes(bits // 8, "little")))
    if nm == "to_be_bytes": return Arr(list(u.to_bytes(bits // 8, "big")))
    if nm == "is_power_of_two": return u != 0 and u & (u - 1) == 0
    if nm == "next_power_of_two": return 1 << max(0, (u - 1).bit_length()) if u else 1
    if nm == "div_ceil": return -(-x // y)
    if nm == "min_value": return lo
    if nm == "max_value": return hi
    v = {"neg": lambda: -x, "add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "abs": lambda: abs(x), "pow": lambda: x ** y,
         "signum": lambda: (x > 0) - (x < 0), "unsigned_abs": lambda: abs(x), "is_positive": lambda: x > 0, "is_negative": lambda: x < 0, "abs_diff": lambda: abs(x - y),
         "rem_euclid": lambda: x % y, "div": lambda: None if y == 0 else abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), "rem": lambda: None if y == 0 else abs(x) % abs(y) * (1 if x >= 0 else -1)}.get(nm.split("_")[-1] if nm not in ("unsigned_abs", "is_positive", "is_negative", "abs_diff", "rem_euclid") else nm)
    if v is None: raise Unmodelled("integer function " + nm)
    v = v()
    if nm in ("abs", "pow") and not lo <= v <= hi: I.panic("attempt to %s with overflow" % nm)
    if nm.startswith("checked"): return none() if v is None or not lo <= v <= hi else some(v)
    if nm.startswith("saturating"): return max(lo, min(hi, v))
    if nm.startswith("wrapping"):
        v &= (1 << bits) - 1
        return v - (1 << bits) if v > hi else v
    return v
@rx(r"<impl f(32|64)>::(floor|ceil|trunc|round|fract)$")
def _(I, c, a, t):
    import math
    x = deref(a[0]); nm = c["path"].split("::")[-1]
    if isinstance(x, SymFloat): raise Unmodelled(nm + " of a schema constant")
    if not math.isfinite(x): return x
    return float({"floor": lambda: math.floor(x), "ceil": lambda: math.ceil(x), "trunc": lambda: math.trunc(x), "round": lambda: math.copysign(math.floor(abs(x) + 0.5), x), "fract": lambda: x - math.trunc(x)}[nm]())
@rx(r"<impl f(32|64)>::(is_nan|is_infinite|is_finite|is_sign_negative|is_sign_positive|abs|to_bits)$")
def _(I, c, a, t):
    x = deref(a[0]); nm = c["path"].split("::")[-1]
    if isinstance(x, SymFloat):
        return {"is_nan": False, "is_infinite": False, "is_finite": True, "is_sign_negative": x.t.rep().startswith("-"), "is_sign_positive": not x.t.rep().startswith("-")}.get(nm, x)
    import math
    if nm == "to_bits": return struct.unpack("<Q", struct.pack("<d", x))[0]
    return {"is_nan": x != x, "is_infinite": math.isinf(x), "is_finite": math.isfinite(x), "is_sign_negative": math.copysign(1, x) < 0, "is_sign_positive": math.copysign(1, x) > 0, "abs": abs(x)}[nm]
@rx(r"<impl char>::(to_uppercase|to_lowercase|from_digit|from_u32)$|^core::char::convert::from_digit$|^core::char::convert::from_u32$|^core::char::(from_digit|from_u32)$")
def _(I, c, a, t):
    nm = c["path"].split("::")[-1]
    if nm == "from_digit":
        if a[1] > 36: I.panic("from_digit: radix is too high")
        return some(ord("0123456789abcdefghijklmnopqrstuvwxyz"[a[0]])) if a[0] < a[1] else none()
    if nm == "from_u32": return none() if a[0] > 0x10ffff or 0xd800 <= a[0] < 0xe000 else some(a[0])
    ch = chr(deref(a[0])); w = ch.upper() if nm == "to_uppercase" else ch.lower()
    return It([ord(z) for z in w])
@rx(r"<impl char>::(eq_ignore_ascii_case)$")
def _(I, c, a, t): return chr(deref(a[0])).lower() == chr(deref(a[1])).lower()
@rx(r"<impl u8>::(is_ascii\w*|to_ascii_lowercase|to_ascii_uppercase)$")
def _(I, c, a, t):
    nm = c["path"].split("::")[-1]; n = deref(a[0]); ch = chr(n)
    if nm.startswith("to_"): return ord(ch.lower() if "lower" in nm else ch.upper()) if n < 128 else n
    f = {"is_ascii": n < 128, "is_ascii_alphabetic": ch.isalpha(), "is_ascii_alphanumeric": ch.isalnum(), "is_ascii_digit": ch in DIG, "is_ascii_hexdigit": ch in ALPHA["X"], "is_ascii_uppercase": ch.isupper(),
         "is_ascii_lowercase": ch.islower(), "is_ascii_whitespace": ch in " \t\n\r\x0c", "is_ascii_punctuation": ch.isprintable() and not ch.isalnum() and ch != " ", "is_ascii_graphic": ch.isprintable() and ch != " ", "is_ascii_control": n < 32 or n == 127}
    if nm not in f: raise Unmodelled("u8::" + nm)
    return n < 128 and f[nm]
@rx(r"<impl char>::(is_\w+|to_ascii_lowercase|to_ascii_uppercase|len_utf8|to_digit)$")
def _(I, c, a, t):
    ch = chr(deref(a[0])); nm = c["path"].split("::")[-1]
    f = {"is_alphabetic": ch.isalpha(), "is_alphanumeric": ch.isalnum() or ch.isnumeric(), "is_numeric": ch.isnumeric(), "is_whitespace": ch.isspace(), "is_uppercase": ch.isupper(), "is_lowercase": ch.islower(),
         "is_ascii": ch.isascii(), "is_ascii_alphabetic": ch.isascii() and ch.isalpha(), "is_ascii_alphanumeric": ch.isascii() and ch.isalnum(), "is_ascii_digit": ch in DIG,
         "is_ascii_hexdigit": ch in ALPHA["X"], "is_ascii_uppercase": ch.isascii() and ch.isupper(), "is_ascii_lowercase": ch.isascii() and ch.islower(), "is_ascii_whitespace": ch in " \t\n\r\x0c",
         "is_ascii_punctuation": ch.isascii() and ch.isprintable() and not ch.isalnum() and ch != " ", "is_control": ord(ch) < 32 or ord(ch) == 127, "is_ascii_graphic": ch.isascii() and ch.isprintable() and ch != " "}
    if nm in f: return f[nm]
    if nm == "len_utf8": return len(ch.encode())
    if nm == "to_ascii_lowercase": return ord(ch.lower()) if ch.isascii() else ord(ch)
    if nm == "to_ascii_uppercase": return ord(ch.upper()) if ch.isascii() else ord(ch)
    if nm == "is_digit":
        return ch.isalnum() and ch.isascii() and int(ch, 36) < a[1]
    if nm == "to_digit":
        return some(int(ch, 36)) if ch.isascii() and ch.isalnum() and int(ch, 36) < a[1] else none()
    raise Unmodelled("char::" + nm)
@rx(r"^<std::path::PathBuf as core::(convert::From<|ops::deref::Deref>|convert::AsRef<|borrow::Borrow<|clone::Clone>|str::traits::FromStr>)|^<std::path::Path as (core::convert::AsRef<|alloc::borrow::ToOwned>)|^std::path::PathBuf::(as_path|into_os_string|into_boxed_path)$|^<(alloc::string::String|str) as core::convert::AsRef<std::(path::Path|ffi)|std::path.*::as_ref$")
def _(I, c, a, t):
    r = Ext("path", text_of(a[0]))
    return ok(r) if "FromStr" in c["path"] else r
@rx(r"^std::path::PathBuf::(push|set_extension|set_file_name|new|pop)$")
def _(I, c, a, t):
    nm = c["path"].split("::")[-1]
    if nm == "new": return Ext("path", Text())
    x = deref(a[0])
    if nm == "pop": raise Unmodelled("PathBuf::pop")
    v = text_of(a[1])
    if nm == "push": x.x = x.x + lit("/") + v; return UNIT
    s = x.x.lit()
    if s is None: raise Unmodelled("PathBuf::" + nm)
    if nm == "set_extension": x.x = with_ext(x.x, v); return True
    x.x = lit((s.rsplit("/", 1)[0] + "/" if "/" in s else "")) + v; return UNIT
def with_ext(x, e):
    s = x.lit()
    if s is None or e.lit() is None: return Text((Atom("with_ext", (x.key(), e.key()), x.rep() + "." + e.rep()),))
    import posixpath
    return lit(posixpath.splitext(s)[0] + ("." + e.lit() if e.lit() else ""))
@m("std::path::Path::new")
def _(I, c, a, t): return Ext("path", text_of(a[0]))
@m("std::path::Path::file_stem", "std::path::Path::file_name", "std::path::Path::extension", "std::path::Path::parent")
def _(I, c, a, t):
    x = text_of(a[0]); nm = c["path"].split("::")[-1]
    s = x.lit()
    if s is None: return some(Ext("path", Text((Atom(nm, x.key(), "file"),))))
    import posixpath
    b = posixpath.basename(s.rstrip("/"))
    if b in ("", ".."): return none()
    if nm == "file_name": return some(Ext("path", lit(b)))
    st, ex = posixpath.splitext(b)
    if nm == "file_stem": return some(Ext("path", lit(st)))
    if nm == "extension": return some(Ext("path", lit(ex[1:]))) if ex else none()
    return some(Ext("path", lit(posixpath.dirname(s))))
@m("std::ffi::os_str::OsStr::to_str", "std::path::Path::to_str")
def _(I, c, a, t): return some(text_of(a[0]))
@rx(r"std::path::Path::(with_extension|join|to_path_buf|as_os_str|display|exists|is_file)$|std::ffi::os_str::OsStr::(to_os_string|to_string_lossy)$")
def _(I, c, a, t):
    nm = c["path"].split("::")[-1]
    x = text_of(a[0])
    if nm == "with_extension": return Ext("path", with_ext(x, text_of(a[1])))
    if nm == "join": return Ext("path", x + lit("/") + text_of(a[1]))
    if nm in ("exists", "is_file"): return True
    return Ext("path", x)

# ------------------------------------------------------------------ formatting
def float_text(v):
    import math
    if v != v: return "NaN"
    if math.isinf(v): return "inf" if v > 0 else "-inf"
    r = repr(v)
    if "e" in r or "E" in r:
        from decimal import Decimal
        r = format(Decimal(r), "f")
    if r.endswith(".0"): r = r[:-2]
    return r
def display(I, v, tid=None):
    ty = I.T(tid) if tid is not None else None
    while isinstance(v, (Ref, Box)):
        v = v.get() if isinstance(v, Ref) else v.s[0]
        if ty is not None and ty["k"] in ("ref",): ty = I.T(ty["elem"])
    if isinstance(v, (Text, StrObj, Bytes)): return text_of(v)
    if isinstance(v, bool): return lit("true" if v else "false")
    if isinstance(v, int):
        if ty is not None and ty["k"] == "char": return lit(chr(v))
        return lit(str(v))
    if isinstance(v, float): return lit(float_text(v))
    if isinstance(v, SymInt): return v.t
    if isinstance(v, SymFloat): return Text((Atom("flt", v.t.key(), norm_float(v.t.rep())),))
    if isinstance(v, Adt):
        if v.d == "alloc::borrow::Cow": return display(I, v.f[0])
        ks = I.p.impls.get(("core::fmt::Display", v.d, "fmt"), [])
        if len(ks) == 1:
            f = Ext("formatter", StrObj())
            I.run_body(ks[0], [Ref([v], 0), Ref([f], 0)])
            return f.x.t
    if isinstance(v, TS):
        k = toks(v)
        if len(k) == 1 and k[0][0] in ("id", "lit") and isinstance(k[0][1], Text): return k[0][1]
        if len(k) == 1 and k[0][0] == "str" and k[0][1].lit() is not None: return lit(rust_str(k[0][1].lit()))
        return Text((Atom("tokens", tkey(v), render(v), TS(list(v.t))),))
    if isinstance(v, Ext):
        if v.what in ("ident", "path"): return v.x
        if v.what == "token": return Text((Atom("tokens", tkey(TS([v.x])), render(TS([v.x])), TS([v.x])),)) if not isinstance(v.x[1], Text) else v.x[1]
        if v.what == "fmt": return args_text(I, v)
        if v.what == "error" and isinstance(deref(v.x), (Text, StrObj)): return text_of(v.x)
        return Text((Atom("opaque", v.what, "<%s>" % v.what),))
    if isinstance(v, Adt) and "IdentFragmentAdapter" in v.d: return display(I, v.f[0], None)
    raise Unmodelled("display of %r" % (v,))
def tkey(ts):
    """identity of a token stream by its content"""
    out = []
    for k in toks(ts):
        if k[0] == "g": out.append(("g", k[1], tkey(k[2])))
        else: out.append((k[0],) + tuple(z.key() if isinstance(z, Text) else z if isinstance(z, (str, int)) else repr(z) for z in k[1:]))
    return tuple(out)
def norm_float(s):
    return float_text(float(s))
def args_text(I, f):
    if f.x[0] == "str": return f.x[1]
    tmpl, args = f.x[1], f.x[2]
    out = []; i = 0; ai = 0
    while True:
        n = tmpl[i]; i += 1
        if n == 0: break
        if n < 128:
            out.append(bytes(tmpl[i:i + n]).decode()); i += n
        elif n == 128:
            ln = tmpl[i] | tmpl[i + 1] << 8; i += 2
            out.append(bytes(tmpl[i:i + ln]).decode()); i += ln
        else:
            opts = n & 0x3f
            # flags(4) width(2) precision(2) index(2)
            flags, width, prec = 0xe0000020, 0, None
            if opts & 1: flags = int.from_bytes(bytes(tmpl[i:i + 4]), "little"); i += 4
            if opts & 2: width = tmpl[i] | tmpl[i + 1] << 8; i += 2
            if opts & 4: prec = tmpl[i] | tmpl[i + 1] << 8; i += 2
            if opts & 8:
                ai = tmpl[i] | tmpl[i + 1] << 8; i += 2
            if opts & 16: width = width_arg(args[width])
            if opts & 32: prec = width_arg(args[prec])
            x = args[ai]; ai += 1
            if opts & 0x37: out.extend(padded(I, x, flags, width, prec).p)
            else: out.extend(x().p)
    return Text(out)
def width_arg(x):
    n = x().lit()
    if n is None or not n.isdigit(): raise Unmodelled("format width")
    return int(n)
def padded(I, x, flags, width, prec):
    """the effect of format options on one argument"""
    v = deref(getattr(x, "v", None)); nm = getattr(x, "nm", "")
    r = x()
    s = r.lit()
    num = isinstance(v, (int, float)) and not isinstance(v, bool) and not getattr(x, "char", False)
    if flags & (1 << 23) and nm == "debug" and not num and s is not None and not s.startswith('"'): raise Unmodelled("{:#?}")
    if prec is not None:
        if isinstance(v, float): r = lit("%.*f" % (prec, v)); s = r.lit()
        elif isinstance(v, (SymInt, SymFloat)): raise Unmodelled("format precision")
        elif not num:
            if s is None: raise Unmodelled("format precision")
            s = s[:prec]; r = lit(s)
    if num and s is not None:
        neg = s.startswith("-"); body = s[1:] if neg else s
        if flags & (1 << 23): body = {"lower_hex": "0x", "upper_hex": "0x", "octal": "0o", "binary": "0b"}.get(nm, "") + body
        sign = "-" if neg else "+" if flags & (1 << 21) else ""
        if flags & (1 << 24):
            pre = body[:2] if flags & (1 << 23) and nm in ("lower_hex", "upper_hex", "octal", "binary") else ""
            return lit(sign + pre + body[len(pre):].rjust(width - len(sign) - len(pre), "0"))
        s = sign + body; r = lit(s)
    if width:
        n = len(r.rep())
        if s is None: I.test("len", "?")
        fill = chr(flags & 0x1fffff); al = flags >> 29 & 3; pad = max(0, width - n)
        if al == 3: al = 1 if num else 0
        left = pad if al == 1 else pad // 2 if al == 2 else 0
        r = lit(fill * left) + r + lit(fill * (pad - left))
    return r
@rx(r"^core::fmt::Arguments::<'a>::new$")
def _(I, c, a, t):
    tm = deref(a[0]); tm = tm.f if isinstance(tm, Arr) else list(seq(tm))
    ar = deref(a[1]); ar = seq(ar)
    return Ext("fmt", ("tmpl", tm, list(ar)))
@rx(r"^core::fmt::Arguments::<'a>::(from_str|new_const|from_str_nonconst)")
def _(I, c, a, t): return Ext("fmt", ("str", text_of(a[0])))
@rx(r"^core::fmt::rt::Argument::<'_>::new_(\w+)$")
def _(I, c, a, t):
    v = a[0]; nm = c["path"].split("new_")[-1]
    ty = c["args"][0] if c.get("args") else None
    rt = ty
    while rt is not None and I.T(rt)["k"] == "ref": rt = I.T(rt)["elem"]
    if nm == "debug": f = lambda: debug(I, v, ty)
    elif nm == "display": f = lambda: display(I, v, ty)
    elif nm in ("lower_hex", "upper_hex", "octal", "binary") and isinstance(deref(v), int):
        def f():
            n = deref(v)
            if n < 0 and rt is not None: n += 1 << I.T(rt)["bits"]
            return lit(format(n, {"l": "x", "u": "X", "o": "o", "b": "b"}[nm[0]]))
    elif nm in ("usize", "from_usize"): f = lambda: lit(str(deref(v)))
    else: f = lambda: Text((Atom("fmtarg", nm, "?"),))
    f.v, f.nm, f.char = v, nm, rt is not None and I.T(rt)["k"] == "char"
    return f
def esc_debug(s, q):
    out = ""
    for ch in s:
        if ch in "\\" + q: out += "\\" + ch
        elif ch in "\n\r\t\0": out += {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0"}[ch]
        elif not ch.isprintable(): out += "\\u{%x}" % ord(ch)
        else: out += ch
    return out
def debug(I, v, tid=None):
    ty = I.T(tid) if tid is not None else None
    while isinstance(v, (Ref, Box)):
        v = v.get() if isinstance(v, Ref) else v.s[0]
        if ty is not None and ty["k"] == "ref": ty = I.T(ty["elem"])
    try:
        if isinstance(v, (Text, StrObj)):
            x = text_of(v)
            if any(not isinstance(p, str) and set((p.alphabet() or p.rep)) & set('"\\\n\r\t') for p in x.p): return Text((Atom("dbg", x.key(), '"' + esc_debug(x.rep(), '"') + '"'),))
            return lit('"') + Text(esc_debug(p, '"') if isinstance(p, str) else p for p in x.p) + lit('"')
        if isinstance(v, int) and not isinstance(v, bool) and ty is not None and ty["k"] == "char": return lit("'" + esc_debug(chr(v), "'") + "'")
        if isinstance(v, float):
            s = float_text(v); return lit(s if not s.lstrip("-").isdigit() else s + ".0")
        if isinstance(v, Adt) and v.d != "alloc::borrow::Cow":
            ks = I.p.impls.get(("core::fmt::Debug", v.d, "fmt"), [])
            ad = I.p.adt.get(v.d)
            if ad and not v.f and ad["adt"] == "enum": return lit(ad["variants"][v.v]["name"])
            raise Unmodelled("debug")
        if isinstance(v, Adt): return debug(I, v.f[0])
        if seq(v) is not None:
            r = lit("[")
            for i, z in enumerate(seq(v)): r = r + (lit(", ") if i else Text()) + debug(I, z)
            return r + lit("]")
        return display(I, v)
    except Unmodelled: return Text((Atom("dbg", "", "?"),))
@rx(r"^alloc::fmt::format$|^alloc::fmt::format::format_inner$")
def _(I, c, a, t): return StrObj(args_text(I, a[0]))
@rx(r"Formatter::<'a>::(write_fmt|write_str|pad)$|fmt::Formatter<'_> as core::fmt::Write>::write_(fmt|str|char)$")
def _(I, c, a, t):
    f = deref(a[0]); x = a[1]
    f.x.t = f.x.t + (args_text(I, x) if isinstance(x, Ext) else lit(chr(x)) if isinstance(x, int) else text_of(x)); return ok(UNIT)
@mt("core::fmt::Write", "write_str", "write_fmt", "write_char")
def _(I, c, a, t):
    f = deref(a[0]); x = a[1]
    s = f.x if isinstance(f, Ext) else f
    s.t = s.t + (args_text(I, x) if isinstance(x, Ext) else lit(chr(x)) if isinstance(x, int) else text_of(x)); return ok(UNIT)
@mt("core::fmt::Display", "fmt")
def _(I, c, a, t):
    if c.get("local") and c.get("key") in I.bodies: return NotImplemented
    f = deref(a[1]); f.x.t = f.x.t + display(I, a[0]); return ok(UNIT)
@mt("core::fmt::Debug", "fmt")
def _(I, c, a, t):
    f = deref(a[1]); f.x.t = f.x.t + debug(I, a[0]); return ok(UNIT)

# ------------------------------------------------------------------ tokens
def ident_ok(x):
    """may the text be made an identifier (proc_macro2::Ident::new accepts it)?"""
    s = x.lit()
    if s is not None:
        if s.startswith("r#"): return bool(re.fullmatch(r"[A-Za-z_]\w*", s[2:])) and s[2:] not in ("self", "Self", "super", "crate", "_")
        return bool(re.fullmatch(r"(?!\d)\w+", s)) and not any(ch.isnumeric() and ch not in DIG for ch in s)
    r = x.rep()
    return bool(re.fullmatch(r"(?!\d)\w+", r))
def mk_ident(I, x):
    if not ident_ok(x):
        if any(not isinstance(p, str) and p.kind in ("dbg", "fmtarg", "opaque", "hex") for p in x.p): raise Unmodelled("identifier from %r" % (x.rep(),))
        I.panic("%r is not a valid identifier" % (x.rep(),))
    I.idents.append((x, I.span))
    return Ext("ident", x)
Interp.idents = []
@m("quote::__private::mk_ident")
def _(I, c, a, t): return mk_ident(I, text_of(a[0]))
@rx(r"^proc_macro2::Ident::(new|new_raw)$")
def _(I, c, a, t):
    x = text_of(a[0])
    return mk_ident(I, lit("r#") + x if c["path"].endswith("raw") else x)
@rx(r"IdentFragmentAdapter::<T>::span$|^proc_macro2::Span::|Spanned>::span$|^syn::spanned::Spanned::span$|^proc_macro2::(Ident|TokenTree|Literal|Punct|Group)::span$")
def _(I, c, a, t): return none() if "IdentFragmentAdapter" in c["path"] else Ext("span")
@rx(r"^proc_macro2::TokenStream::new$")
def _(I, c, a, t): return TS()
@rx(r"^proc_macro2::TokenStream::is_empty$")
def _(I, c, a, t): return not deref(a[0]).t
@rx(r"^quote::__private::push_ident$")
def _(I, c, a, t): deref(a[0]).t.append(("id", text_of(a[1]))); return UNIT
@rx(r"^quote::__private::push_ident_spanned$")
def _(I, c, a, t): deref(a[0]).t.append(("id", text_of(a[2]))); return UNIT
@rx(r"^quote::__private::push_lifetime(_spanned)?$")
def _(I, c, a, t): deref(a[0]).t.append(("lt", text_of(a[-1]))); return UNIT
@rx(r"^quote::__private::push_group(_spanned)?$")
def _(I, c, a, t):
    if len(a) == 4: a = [a[0], a[2], a[3]]
    d = a[1]; deref(a[0]).t.append(("g", d.v if isinstance(d, Adt) else d, deref(a[2]))); return UNIT
@rx(r"^quote::__private::push_underscore")
def _(I, c, a, t): deref(a[0]).t.append(("id", lit("_"))); return UNIT
PUNCT = {"and": "&", "colon": ":", "colon2": "::", "comma": ",", "dot": ".", "dot2": "..", "dot3": "...", "dot_dot_eq": "..=", "eq": "=", "eq_eq": "==", "fat_arrow": "=>", "gt": ">", "lt": "<", "or": "|", "or_or": "||", "and_and": "&&",
         "pound": "#", "question": "?", "rarrow": "->", "larrow": "<-", "semi": ";", "shr": ">>", "shl": "<<", "star": "*", "bang": "!", "sub": "-", "add": "+", "div": "/", "rem": "%", "ne": "!=", "le": "<=", "ge": ">=", "at": "@", "caret": "^", "add_eq": "+=", "sub_eq": "-=", "or_eq": "|=", "and_eq": "&="}
@rx(r"^quote::__private::push_(\w+)$")
def _(I, c, a, t):
    nm = c["path"].split("push_")[-1]
    if nm.endswith("_spanned"): nm = nm[:-8]
    if nm not in PUNCT: raise Unmodelled("token " + nm)
    deref(a[0]).t.append(("p", PUNCT[nm])); return UNIT
@rx(r"^quote::__private::parse(_spanned)?$")
def _(I, c, a, t):
    s = text_of(a[-1]); deref(a[0]).t.append(("lit", s)); return UNIT
@rx(r"HasIterator|ThereIsNoIterator|CheckHasIterator")
def _(I, c, a, t): return Ext("hasiter")
QT = "quote::to_tokens::ToTokens"
def to_tokens(I, v, ts, tid=None):
    v0 = v
    while isinstance(v, (Ref, Box)): v = v.get() if isinstance(v, Ref) else v.s[0]
    if isinstance(v, TS): ts.t.extend(v.t); return
    if isinstance(v, (Text, StrObj)): ts.t.append(("str", text_of(v))); return
    if isinstance(v, bool): ts.t.append(("id", lit("true" if v else "false"))); return
    if isinstance(v, Ext):
        if v.what == "ident": ts.t.append(("id", v.x)); return
        if v.what == "token": ts.t.append(v.x); return
        if v.what == "lifetime": ts.t.append(("lt", v.x[0])); return
    if isinstance(v, Adt):
        if v.d == OPT:
            if v.v == 1: to_tokens(I, v.f[0], ts)
            return
        if v.d == "alloc::borrow::Cow": return to_tokens(I, v.f[0], ts)
        if v.d == "quote::__private::RepInterp": return to_tokens(I, v.f[0], ts)
        ks = I.p.impls.get((QT, v.d, "to_tokens"), [])
        if len(ks) == 1:
            I.run_body(ks[0], [Ref([v], 0), Ref([ts], 0)]); return
    if isinstance(v, int):
        suf = ""
        if tid is not None:
            ty = I.T(tid)
            while ty["k"] == "ref": ty = I.T(ty["elem"])
            if ty["k"] == "char": ts.t.append(("lit", lit(repr(chr(v))))); return
            suf = ty["s"]
        ts.t.append(("lit", lit("%d%s" % (v, suf)))); return
    if isinstance(v, float): ts.t.append(("lit", lit(float_text(v) + "f64"))); return
    if isinstance(v, SymInt): ts.t.append(("lit", v.t + lit(I.T(tid)["s"] if tid is not None else ""))); return
    raise Unmodelled("tokens of %r" % (v,))
@mt(QT, "to_tokens")
def _(I, c, a, t):
    if c.get("local") and c.get("key") in I.bodies: return NotImplemented
    to_tokens(I, a[0], deref(a[1]), c["args"][0] if c.get("args") else None); return UNIT
@rx(r"ToTokens.*::to_tokens$")
def _(I, c, a, t):
    if c.get("local") and c.get("key") in I.bodies: return NotImplemented
    to_tokens(I, a[0], deref(a[1])); return UNIT
@mt(QT, "to_token_stream", "into_token_stream")
def _(I, c, a, t):
    ts = TS(); to_tokens(I, a[0], ts, c["args"][0] if c.get("args") else None); return ts
INTS = ("i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize")
@m("syn::lit::LitInt::new")
def _(I, c, a, t):
    x = text_of(a[0]); r = x.rep()
    if not re.fullmatch(r"-?\d[\d_]*([A-Za-z_]\w*)?", r): I.panic("not an integer literal: `%s`" % r)
    return Ext("token", ("lit", x))
@m("syn::lit::LitFloat::new")
def _(I, c, a, t):
    x = text_of(a[0]); r = x.rep()
    if not re.fullmatch(r"-?\d[\d_]*(\.\d[\d_]*)?([eE][+-]?\d+)?([A-Za-z_]\w*)?", r): I.panic("not a float literal: `%s`" % r)
    return Ext("token", ("lit", x))
@rx(r"^syn::lit::Lit(Str|Bool|ByteStr)::new$")
def _(I, c, a, t):
    if "Bool" in c["path"]: return Ext("token", ("id", lit("true" if a[0] else "false")))
    return Ext("token", ("str", text_of(a[0])))
@rx(r"^proc_macro2::Literal::(\w+)$")
def _(I, c, a, t):
    nm = c["path"].split("::")[-1]
    if nm == "string": return Ext("token", ("str", text_of(a[0])))
    mm = re.fullmatch(r"([iuf]\w+)_(un)?suffixed", nm)
    if mm:
        v = a[0]
        x = v.t if isinstance(v, SymInt) else display(I, v)
        if mm.group(1)[0] == "f":
            f = v if isinstance(v, float) else None
            if f is not None and (f != f or abs(f) == float("inf")): I.panic("assertion failed: f.is_finite()")
            if f is not None and "." not in x.rep() and not mm.group(2): pass
            elif mm.group(2) and "." not in x.rep(): x = x + lit(".0")
        return Ext("token", ("lit", x + lit("" if mm.group(2) else mm.group(1))))
    raise Unmodelled("Literal::" + nm)
@rx(r"^proc_macro2::(Punct|Group)::new$")
def _(I, c, a, t):
    if "Punct" in c["path"]: return Ext("token", ("p", chr(a[0])))
    return Ext("token", ("g", a[0].v, a[1]))
KW = set("as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await abstract become box do final macro override priv try typeof unsized virtual yield".split())
PATHKW = {"self", "Self", "super", "crate"}
@rx(r"^syn::parse_str$")
def _(I, c, a, t):
    ty = I.T(t[6])["args"][0]; nm = I.T(ty)["s"]
    x = text_of(a[0])
    if nm.endswith("Path"):
        segs = [[]]
        for p in x.p:
            if isinstance(p, str):
                q = re.split(r"\s*::\s*", p); segs[-1].append(q[0])
                for z in q[1:]: segs.append([z])
            else: segs[-1].append(p)
        segs = [Text(s) for s in segs]
        ts = []
        for i, s in enumerate(segs):
            r = s.rep()
            if i == 0 and r == "" and len(segs) > 1: ts.append(("p", "::")); continue
            if not re.fullmatch(r"(?:r#)?[A-Za-z_]\w*", r) or (r in KW and r not in PATHKW) or r == "_":
                return err(Ext("syn error", lit("bad path segment %r" % r)))
            if i and ts[-1] != ("p", "::"): ts.append(("p", "::"))
            ts.append(("id", s)); I.idents.append((s, I.span))
        return ok(Ext("token", ("seq", TS(ts))))
    if nm.endswith("Ident"):
        r = x.rep()
        if not re.fullmatch(r"(?:r#)?[A-Za-z_]\w*", r) or r in KW or r == "_": return err(Ext("syn error"))
        return ok(mk_ident(I, x))
    if nm.endswith("Lifetime"):
        return ok(Adt("syn::lifetime::Lifetime", 0, [Ext("span"), Ext("ident", Text((x.p[0][1:],) + x.p[1:]))])) if x.rep().startswith("'") else err(Ext("syn error"))
    if nm.endswith(("TokenStream", "Type", "Expr")): return ok(Ext("token", ("lit", x)))
    raise Unmodelled("syn::parse_str to %s" % nm)
@rx(r"^syn::parse_quote::parse$|^syn::__private::parse_quote$")
def _(I, c, a, t):
    r = parse2(I, a, t[6])
    if r.v: I.panic("parse_quote!: not a %s" % I.T(t[6])["s"])
    return r.f[0]
@rx(r"^syn::parse2$")
def _(I, c, a, t): return parse2(I, a, I.T(t[6])["args"][0])
def parse2(I, a, ty):
    nm = I.T(ty)["s"]; ts = deref(a[0])
    if nm.endswith("Lifetime"):
        if len(ts.t) == 1 and ts.t[0][0] == "lt":
            tx = ts.t[0][1].rep()
            return ok(Adt("syn::lifetime::Lifetime", 0, [Ext("span"), Ext("ident", lit(tx[1:]))]))
        return err(Ext("syn error"))
    if nm.endswith("Path") or nm.endswith("Type"): return ok(Ext("token", ("seq", ts)))
    if nm.endswith("Ident"):
        return ok(Ext("ident", ts.t[0][1])) if len(ts.t) == 1 and ts.t[0][0] == "id" else err(Ext("syn error"))
    raise Unmodelled("syn::parse2 to %s" % nm)
@rx(r"^<proc_macro2::Ident as core::cmp::PartialEq<T>>::eq$")
def _(I, c, a, t): return text_eq(I, text_of(a[0]), text_of(a[1]))
@rx(r"proc_macro2::extra|proc_macro2::TokenStream as .*::extend$")
def _(I, c, a, t): extend(I, deref(a[0]), iterate(I, a[1])); return UNIT
@rx(r"quote::TokenStreamExt::append(_all|_separated|_terminated)?$|TokenStreamExt.*::append(_all)?$")
def _(I, c, a, t):
    ts = deref(a[0]); nm = c["path"].split("::")[-1]
    if nm == "append":
        append(ts, a[1] if not isinstance(a[1], Ref) else a[1].get()); return UNIT
    its = iterate(I, a[1]); first = True
    for x in its:
        if nm == "append_separated" and not first: to_tokens(I, a[2], ts)
        to_tokens(I, x, ts); first = False
        if nm == "append_terminated": to_tokens(I, a[2], ts)
    return UNIT

GD = {0: "()", 1: "{}", 2: "[]", 3: "  "}
def toks(ts):
    """flat list of (kind, text)"""
    out = []
    for k in ts.t:
        if k[0] == "g":
            d = GD.get(k[1], "  ")
            if d[0] != " ": out.append(("p", d[0]))
            out.extend(toks(k[2]))
            if d[1] != " ": out.append(("p", d[1]))
        elif k[0] == "seq": out.extend(toks(k[1]))
        else: out.append(k)
    return out
def rust_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") + '"'
def render(ts):
    o = []
    for k in toks(ts):
        x = k[1].rep() if isinstance(k[1], Text) else k[1]
        o.append(rust_str(x) if k[0] == "str" else x)
    return " ".join(o)

# ------------------------------------------------------------------ errors, io
@rx(r"^anyhow::|^<anyhow::")
def _(I, c, a, t):
    p = c["path"]
    if p.endswith(("format_err",)): return Ext("error", args_text(I, a[0]) if isinstance(a[0], Ext) and a[0].what == "fmt" else a[0])
    if p.endswith(("must_use",)): return a[0]
    if p.endswith("::not"): return not a[0]
    if p.endswith(("::is", "::downcast_ref", "::downcast", "::downcast_mut", "::chain", "::root_cause", "::source", "::backtrace")): raise Unmodelled(p)
    if p.endswith("::to_string"): return StrObj(display(I, a[0]))
    if p.endswith(("::context", "::with_context")):
        r = a[0]
        if r.d == RES: return r if r.v == 0 else err(Ext("error", r.f[0]))
        return ok(r.f[0]) if r.v == 1 else err(Ext("error"))
    return Ext("error", a[0] if a else None)
def fault(I, what):
    """an environment operation that may fail"""
    n = I.cfg.get("fault")
    I.events.append((what, I.span))
    if n is not None and n == len([1 for e in I.events if e[0] in FALLIBLE]) - 1 and what in FALLIBLE:
        I.failed = what
        return True
    return False
FALLIBLE = {"read", "spawn", "pipe", "wait", "status", "write", "feed", "flush"}
@rx(r"Read::read_to_string$|^std::io::read_to_string$|Read>::read_to_string$")
def _(I, c, a, t):
    if fault(I, "read"): return err(Ext("io error"))
    x = I.cfg["schema"]
    if len(a) > 1:
        s = deref(a[1]); s.t = s.t + x; return ok(I.text_len(x))
    return ok(StrObj(x))
@rx(r"Read::read_to_end$|Read>::read_to_end$")
def _(I, c, a, t):
    if fault(I, "read"): return err(Ext("io error"))
    deref(a[1]).l.append(Bytes(I.cfg["schema"])); return ok(Ext("count"))
@rx(r"BufWriter::<W>::(new|with_capacity)$|LineWriter::<W>::(new|with_capacity)$")
def _(I, c, a, t): return Adt("std::io::buffered::bufwriter::BufWriter", 0, [a[-1]])
@rx(r"(BufWriter|LineWriter)::<W>::(get_mut|get_ref)$")
def _(I, c, a, t): return Ref(deref(a[0]).f, 0)
@rx(r"(BufWriter|LineWriter)::<W>::into_inner$")
def _(I, c, a, t):
    if isinstance(sink(a[0]), Ext) and sink(a[0]).what == "output":
        if fault(I, "flush"): return err(Ext("io error"))
        I.unflushed = False if isinstance(deref(a[0]).f[0], Ext) and I.cfg.get("root") == "file" else getattr(I, "unflushed", False)
    return ok(deref(a[0]).f[0])
@rx(r"BufReader::<R>::(new|with_capacity)$")
def _(I, c, a, t): return a[-1]
def sink(v):
    v = deref(v)
    while isinstance(v, Adt) and len(v.f) >= 1 and v.d.startswith(("std::io", "alloc::io")): v = deref(v.f[0])
    return v
@rx(r"Write::write_all$|Write.*>::write_all$|Write::write_fmt$|Write.*>::write_fmt$|Write::write$|Write.*>::write$")
def _(I, c, a, t):
    s = sink(a[0]); x = a[1]
    if I.cfg.get("root", "generic") == "generic" or (isinstance(deref(a[0]), Adt) and "BufWriter" in deref(a[0]).d):
        if isinstance(s, Ext) and s.what == "output": I.unflushed = True
    tx = args_text(I, x) if isinstance(x, Ext) and x.what == "fmt" else bytes_text(x)
    short = I.cfg.get("short") and c["path"].endswith("::write")
    if isinstance(s, Ext) and s.what == "output":
        if fault(I, "write"): return err(Ext("io error"))
        if short: I.out.append(Text((Atom("part", "of the output", "..."),))); return ok(Ext("count"))
        I.out.append(tx)
    elif isinstance(s, Ext) and s.what == "childin":
        if fault(I, "feed"): return err(Ext("io error"))
        if short: I.fed = (getattr(I, "fed", None) or Text()) + Text((Atom("part", "of the code", "..."),)); return ok(Ext("count"))
        I.fed = (getattr(I, "fed", None) or Text()) + tx
    elif isinstance(s, StrObj): s.t = s.t + tx
    elif isinstance(s, Vec):
        s.l.append(Bytes(tx))
    else: raise Unmodelled("write to %r" % (s,))
    return ok(I.text_len(tx)) if c["path"].endswith("::write") else ok(UNIT)
def bytes_text(x):
    x = deref(x)
    if isinstance(x, Bytes): return x.t
    if isinstance(x, (Vec, Sl)):
        l = seq(x)
        if all(isinstance(y, Bytes) for y in l): return Text([p for y in l for p in y.t.p])
        if all(isinstance(y, int) for y in l): return lit(bytes(l).decode("latin1"))
    return text_of(x)
@rx(r"Write::flush$|Write.*>::flush$")
def _(I, c, a, t):
    s = sink(a[0])
    if isinstance(s, Ext) and s.what == "output":
        if fault(I, "flush"): return err(Ext("io error"))
        I.unflushed = False
    elif isinstance(s, Ext) and s.what == "childin":
        if fault(I, "feed"): return err(Ext("io error"))
    return ok(UNIT)
@rx(r"^std::process::Command::new$")
def _(I, c, a, t): I.cmd = [text_of(a[0])]; return Ext("command")
@rx(r"^std::process::Command::(arg|args|stdin|stdout|stderr|env|current_dir|env_clear)$")
def _(I, c, a, t):
    if c["path"].endswith("::arg"): I.cmd.append(text_of(a[1]))
    if c["path"].endswith("::args"): I.cmd.extend(text_of(x) for x in iterate(I, a[1]))
    return a[0]
@rx(r"^std::process::Stdio::(\w+)$")
def _(I, c, a, t): return Ext("stdio")
def struct_of(I, d, **kw):
    ty = I.p.adt.get(d)
    return Adt(d, 0, [kw.get(f[0], Ext(f[0])) for f in ty["variants"][0]["fields"]])
@rx(r"^std::process::Command::spawn$")
def _(I, c, a, t):
    if fault(I, "spawn"): return err(Ext("io error"))
    si = none() if fault(I, "pipe") else some(Ext("childin"))
    return ok(struct_of(I, "std::process::Child", stdin=si, stdout=some(Ext("childout")), stderr=none()))
@rx(r"^std::process::(Child::wait_with_output|Command::output)$")
def _(I, c, a, t):
    if fault(I, "wait"): return err(Ext("io error"))
    bad = fault(I, "status")
    out = Bytes(Text()) if bad else Bytes(formatted(I))
    return ok(struct_of(I, "std::process::Output", status=Ext("status", not bad), stdout=out, stderr=Bytes(Text((Atom("opaque", "stderr", "err"),)))))
@rx(r"^std::process::(Child::wait|Command::status|Child::try_wait)$")
def _(I, c, a, t):
    if fault(I, "wait"): return err(Ext("io error"))
    bad = fault(I, "status")
    r = Ext("status", not bad)
    return ok(some(r)) if c["path"].endswith("try_wait") else ok(r)
@rx(r"^std::process::ExitStatus::(success|code|exit_ok)$")
def _(I, c, a, t):
    s = deref(a[0]).x
    if c["path"].endswith("success"): return s
    if c["path"].endswith("code"): return some(0 if s else 1)
    return ok(UNIT) if s else err(Ext("ExitStatusError"))
def formatted(I):
    """rustfmt's output: the same code, laid out"""
    x = getattr(I, "fed", Text())
    if len(x.p) == 1 and not isinstance(x.p[0], str) and x.p[0].kind == "tokens": return x
    return x
@rx(r"^std::fs::File::(create|open|create_new)$|^std::fs::OpenOptions::open$")
def _(I, c, a, t):
    w = not c["path"].endswith("::open")
    I.paths.append(("create" if w else "open", text_of(a[0]).rep()))
    I.events.append(("create" if w else "open", I.span))
    n = I.cfg.get("fs_fault")
    if n == ("create" if w else "open"): return err(Ext("io error"))
    return ok(Ext("output" if w else "input"))
@rx(r"^std::fs::(write|rename|remove_file|read_to_string|copy|create_dir_all|create_dir)$")
def _(I, c, a, t):
    nm = c["path"].split("::")[-1]
    if nm == "read_to_string":
        if fault(I, "read"): return err(Ext("io error"))
        return ok(StrObj(I.cfg["schema"]))
    if nm == "write":
        I.paths.append(("create", text_of(a[0]).rep()))
        I.events.append(("create", I.span))
        if fault(I, "write"): return err(Ext("io error"))
        I.out.append(bytes_text(a[1])); return ok(UNIT)
    I.events.append((nm, I.span)); return ok(UNIT)
@rx(r"^std::env::(var|var_os|vars|args)$")
def _(I, c, a, t):
    I.events.append(("env", I.span))
    if c["path"].endswith("var"): return ok(StrObj(Text((Atom("env", "v", "/out"),)))) if I.cfg.get("fs_fault") != "env" else err(Ext("VarError"))
    if c["path"].endswith("var_os"): return some(Ext("path", Text((Atom("env", "v", "/out"),))))
    raise Unmodelled("environment")
@m("codegen::RpcGenerator::generate")
def _(I, c, a, t):
    I.rpcs.append(deref(a[1]))
    deref(a[2]).t.append(("id", lit("RPC%d" % len(I.rpcs))))
    return UNIT
@rx(r"^regex::regex::string::Regex::new$|^regex::.*Regex::new$")
def _(I, c, a, t): return ok(Ext("regex", text_of(a[0]).lit()))
@rx(r"Regex::(is_match)$")
def _(I, c, a, t):
    return re.search(deref(a[0]).x, text_of(a[1]).rep()) is not None
@rx(r"Regex::find$")
def _(I, c, a, t):
    mt_ = re.search(deref(a[0]).x, text_of(a[1]).rep())
    return none() if not mt_ else some(Ext("match", (text_of(a[1]), len(text_of(a[1]).rep()[:mt_.start()].encode()), len(text_of(a[1]).rep()[:mt_.end()].encode()))))
@rx(r"regex::.*Match.*::(start|end|as_str)$")
def _(I, c, a, t):
    x = deref(a[0]).x; nm = c["path"].split("::")[-1]
    if nm == "start": return x[1]
    if nm == "end": return x[2]
    return str_slice(I, x[0], Adt("core::ops::range::Range", 0, [x[1], x[2]]))
HEXF = re.compile(r"[+-]?0[xX](?=\.?[0-9a-fA-F])[0-9a-fA-F]*\.[0-9a-fA-F]*[pP][+-]?[0-9]+")
@m("hexf_parse::parse_hexf64")
def _(I, c, a, t):
    x = text_of(a[0]); s = x.lit()
    r = x.rep()      # the class is chosen by the shape, which the grammar fixes
    if not HEXF.fullmatch(r): return err(Ext("ParseHexfError"))
    try: v = float.fromhex(r)
    except (ValueError, OverflowError): return err(Ext("ParseHexfError"))
    import fractions
    mm = re.fullmatch(r"([+-]?)0[xX]([0-9a-fA-F]*)\.([0-9a-fA-F]*)[pP]([+-]?[0-9]+)", r)
    q = fractions.Fraction(int(mm.group(2) + mm.group(3) or "0", 16)) * fractions.Fraction(2) ** (int(mm.group(4)) - 4 * len(mm.group(3)))
    if fractions.Fraction(v) != (-q if mm.group(1) == "-" else q): return err(Ext("ParseHexfError"))  # not exact
    return ok(v) if s is not None else ok(SymFloat(Text((Atom("hexf", x.key(), repr(v)),))))

# ------------------------------------------------------------------ nom
NE = "nom::internal::Err"
OKP, ERRP, FAIL = 0, 1, 2
def nom_adt(I):
    for d in ("nom::internal::Err", "nom::Err"):
        if d in I.p.adt: return d
    return NE
def to_ires(I, r):
    if r[0] == OKP: return ok(Tup([r[1], r[2]]))
    d = nom_adt(I)
    # variants: Incomplete, Error, Failure
    return err(Adt(d, 1 if r[0] == ERRP else 2, [Tup([Text(), Ext("ErrorKind")])]))
def from_ires(I, v):
    if v.v == 0: return (OKP, v.f[0].f[0], v.f[0].f[1])
    e = v.f[0]
    if isinstance(e, Adt) and e.v == 1: return (ERRP,)
    return (FAIL,)
def parse(I, p, x):
    g = p
    while isinstance(g, (Ref, Box)): g = g.get() if isinstance(g, Ref) else g.s[0]
    if isinstance(g, Parser): return run_parser(I, g, x)
    if isinstance(g, FnV):
        f = find({"path": g.c.get("fpath"), "orig": g.c.get("forig")})
        if f is nom_char_fn: return CH[g.c["fpath"].split("::")[-1]](I, x)
    r = I.apply(g, [x])
    return from_ires(I, r)
def parser_call(I, p, args): return to_ires(I, run_parser(I, p, args[0]))
E_ = (ERRP,)
def take_class(I, x, ok_, lo, hi, name):
    """the longest prefix whose characters satisfy the predicate"""
    out = []; ps = list(x.p); n = 0
    while ps:
        if hi is not None and n >= hi: break
        p = ps[0]
        if isinstance(p, str):
            i = 0
            while i < len(p) and (hi is None or n < hi) and ok_(p[i]): i += 1; n += 1
            if i: out.append(p[:i])
            if i < len(p): ps[0] = p[i:]; break
            ps.pop(0)
        else:
            al = p.alphabet() or p.rep
            hit = [ok_(ch) for ch in al]
            if all(hit):
                if hi is not None and p.kind != "H":
                    if n >= 1 and hi == n: break
                    raise Unmodelled("bounded repetition over %r" % (p,))
                out.append(p); ps.pop(0); n += 1 if p.kind not in MAYBE_EMPTY else 0
            elif not any(hit):
                if p.kind in MAYBE_EMPTY:
                    # stops here unless the atom is empty
                    nxt = ps[1] if len(ps) > 1 else None
                    if isinstance(nxt, str) and ok_(nxt[0]): I.test("empty", name)
                break
            else: raise Unmodelled("%s splits %r" % (name, p))
    if n < lo: return E_
    return (OKP, Text(ps), Text(out))
def one_char(I, x, ok_, many=False):
    if not x.p: return E_
    p = x.p[0]
    if isinstance(p, str):
        return (OKP, Text((p[1:],) + x.p[1:]), ord(p[0])) if ok_(p[0]) else E_
    al = p.alphabet() or p.rep
    if p.kind == "C": al = al.replace("/", "")
    hit = [ok_(ch) for ch in al]
    if p.kind in MAYBE_EMPTY and not any(hit) and not many:
        return one_char(I, Text(x.p[1:]), ok_) if p.kind != "S" or True and not any(hit) and next_ok(x, ok_) else E_
    if not any(hit): return E_
    if all(hit):
        if p.kind == "H": return (OKP, Text(x.p[1:]), ord(p.rep[0]))
        if many: return (OKP, Text(x.p[1:]), ord((p.rep or "x")[0]))
        raise Unmodelled("one character of %r" % (p,))
    I.test("char", "?")
    return E_
def next_ok(x, ok_):
    return False
def starts_lineend(x):
    return x.p and isinstance(x.p[0], str) and (x.p[0].startswith("\n") or x.p[0].startswith("\r\n"))
def not_line_ending(I, x):
    out = []; ps = list(x.p)
    while ps:
        p = ps[0]
        if isinstance(p, str):
            i = 0
            while i < len(p) and p[i] not in "\r\n": i += 1
            out.append(p[:i])
            if i < len(p):
                if p[i] == "\r" and not p[i:].startswith("\r\n"): return E_
                ps[0] = p[i:]; break
            ps.pop(0)
        else:
            al = p.alphabet()
            if al is None or "\n" in al: raise Unmodelled("line over %r" % (p,))
            out.append(p); ps.pop(0)
    return (OKP, Text(ps), Text(out))
def line_ending(I, x):
    for e in ("\r\n", "\n"):
        if x.p and isinstance(x.p[0], str) and x.p[0].startswith(e): return (OKP, Text((x.p[0][len(e):],) + x.p[1:]), lit(e))
    return E_
isd = lambda ch: ch in DIG
ish = lambda ch: ch in ALPHA["X"]
CH = {
    "digit0": lambda I, x: take_class(I, x, isd, 0, None, "digit"), "digit1": lambda I, x: take_class(I, x, isd, 1, None, "digit"),
    "hex_digit0": lambda I, x: take_class(I, x, ish, 0, None, "hex"), "hex_digit1": lambda I, x: take_class(I, x, ish, 1, None, "hex"),
    "alpha0": lambda I, x: take_class(I, x, lambda c: c in LET, 0, None, "alpha"), "alpha1": lambda I, x: take_class(I, x, lambda c: c in LET, 1, None, "alpha"),
    "alphanumeric0": lambda I, x: take_class(I, x, lambda c: c in LET + DIG, 0, None, "alnum"), "alphanumeric1": lambda I, x: take_class(I, x, lambda c: c in LET + DIG, 1, None, "alnum"),
    "multispace0": lambda I, x: take_class(I, x, lambda c: c in " \t\r\n", 0, None, "space"), "multispace1": lambda I, x: take_class(I, x, lambda c: c in " \t\r\n", 1, None, "space"),
    "space0": lambda I, x: take_class(I, x, lambda c: c in " \t", 0, None, "space"), "space1": lambda I, x: take_class(I, x, lambda c: c in " \t", 1, None, "space"),
    "not_line_ending": not_line_ending, "line_ending": line_ending,
    "anychar": lambda I, x: one_char(I, x, lambda c: True),
    "newline": lambda I, x: one_char(I, x, lambda c: c == "\n"), "tab": lambda I, x: one_char(I, x, lambda c: c == "\t"),
    "crlf": lambda I, x: tagp(I, x, "\r\n"),
    "rest": lambda I, x: (OKP, Text(), x),
}
def nom_char_fn(I, c, a, t):
    nm = c["path"].split("::")[-1]
    return to_ires(I, CH[nm](I, a[0]))
for nm_ in CH:
    for pre in ("nom::character::complete::", "nom::combinator::", "nom::character::streaming::"): EXACT[pre + nm_] = nom_char_fn
def tagp(I, x, s):
    r = match_prefix(I, x, s)
    return E_ if r is None else (OKP, r, lit(s))
COMB = ("alt tuple map map_res map_opt value opt not peek recognize complete all_consuming verify cut preceded terminated delimited pair separated_pair many0 many1 many0_count many1_count many_m_n many_till "
        "separated_list separated_nonempty_list separated_list0 separated_list1 fold_many0 fold_many1 tag tag_no_case take take_while take_while1 take_while_m_n take_till take_till1 take_until is_a is_not char one_of none_of escaped cond flat_map iterator success context count permutation").split()
@rx(r"^nom::(branch|combinator|multi|sequence|bytes::complete|bytes::streaming|character::complete|character::streaming|error)::(%s)$" % "|".join(COMB))
def _(I, c, a, t):
    return Parser(c["path"].split("::")[-1], list(a))
@m("nom::error::make_error")
def _(I, c, a, t): return Tup([a[0], Ext("ErrorKind")])
@rx(r"nom::error::ParseError.*::(from_error_kind|from_char)$")
def _(I, c, a, t): return Tup([a[0], Ext("ErrorKind")])
@rx(r"nom::error::ParseError.*::(append|or|add_context)$")
def _(I, c, a, t): return a[-1]
@rx(r"nom::traits::InputLength>::input_len$")
def _(I, c, a, t): return Ext("endpos") if text_of(a[0]).lit() is None else I.text_len(text_of(a[0]))
@rx(r"nom::traits::Slice<.*>>::slice$")
def _(I, c, a, t):
    x = text_of(a[0]); r = a[1]
    if isinstance(r, Adt) and isinstance(r.f[0], Ext):
        return Text() if r.d.endswith("RangeFrom") else x
    return str_slice(I, x, r)
@rx(r"^<&'a str as nom::traits::\w+(<.*>)?>::(take_split|compare|find_substring|offset|iter_elements|take|position|slice_index|iter_indices)$")
def _(I, c, a, t): raise Unmodelled(c["path"])
def same(x, y): return x.key() == y.key()
def run_parser(I, p, x):
    x = text_of(x)
    op, a = p.op, p.a
    I.steps += 1
    if I.steps > I.maxsteps: raise Endless("steps")
    if op == "tag": return tagp(I, x, text_of(a[0]).lit())
    if op == "tag_no_case":
        s = text_of(a[0]).lit()
        if x.p and isinstance(x.p[0], str) and x.p[0][:len(s)].lower() == s.lower(): return (OKP, Text((x.p[0][len(s):],) + x.p[1:]), lit(x.p[0][:len(s)]))
        return tagp(I, x, s)
    if op == "char": return one_char(I, x, lambda ch, k=chr(a[0]): ch == k)
    if op in ("one_of", "none_of"):
        s = text_of(a[0]).lit() if not isinstance(deref(a[0]), (Arr, Sl)) else "".join(chr(deref(z)) for z in seq(a[0]))
        return one_char(I, x, (lambda ch: ch in s) if op == "one_of" else (lambda ch: ch not in s), I.__dict__.get("in_many", False))
    if op in ("is_a", "is_not"):
        s = text_of(a[0]).lit()
        return take_class(I, x, (lambda ch: ch in s) if op == "is_a" else (lambda ch: ch not in s), 1, None, op)
    if op in ("take_while", "take_while1", "take_till", "take_till1"):
        neg = "till" in op
        return take_class(I, x, lambda ch: bool(pred(I, a[0], ch)) != neg, 1 if op.endswith("1") else 0, None, op)
    if op == "take_while_m_n":
        return take_class(I, x, lambda ch: bool(pred(I, a[2], ch)), a[0], a[1], op)
    if op == "take":
        n = a[0]
        if x.lit() is None or True:
            out = []; ps = list(x.p)
            while n and ps:
                if isinstance(ps[0], str):
                    k = ps[0][:n]; out.append(k); n -= len(k)
                    ps[0] = ps[0][len(k):]
                    if not ps[0]: ps.pop(0)
                elif ps[0].kind == "H": out.append(ps.pop(0)); n -= 1
                else: raise Unmodelled("take over %r" % (ps[0],))
            return E_ if n else (OKP, Text(ps), Text(out))
    if op == "take_until":
        s = text_of(a[0]).lit(); out = []; ps = list(x.p)
        while ps:
            if isinstance(ps[0], str):
                i = ps[0].find(s)
                if i >= 0:
                    out.append(ps[0][:i]); ps[0] = ps[0][i:]
                    return (OKP, Text(ps), Text(out))
            out.append(ps.pop(0))
        return E_
    if op == "alt":
        for q in a[0].f:
            r = parse(I, q, x)
            if r[0] != ERRP: return r
        return E_
    if op == "tuple":
        vs = []; y = x
        for q in a[0].f:
            r = parse(I, q, y)
            if r[0] != OKP: return r
            y = r[1]; vs.append(r[2])
        return (OKP, y, Tup(vs))
    if op in ("preceded", "terminated", "pair"):
        r = parse(I, a[0], x)
        if r[0] != OKP: return r
        s = parse(I, a[1], r[1])
        if s[0] != OKP: return s
        return (OKP, s[1], s[2] if op == "preceded" else r[2] if op == "terminated" else Tup([r[2], s[2]]))
    if op in ("delimited", "separated_pair"):
        r = parse(I, a[0], x)
        if r[0] != OKP: return r
        s = parse(I, a[1], r[1])
        if s[0] != OKP: return s
        u = parse(I, a[2], s[1])
        if u[0] != OKP: return u
        return (OKP, u[1], s[2] if op == "delimited" else Tup([r[2], u[2]]))
    if op == "map":
        r = parse(I, a[0], x)
        if r[0] != OKP: return r
        return (OKP, r[1], I.apply(a[1], [r[2]]))
    if op in ("map_res", "map_opt"):
        r = parse(I, a[0], x)
        if r[0] != OKP: return r
        v = I.apply(a[1], [r[2]])
        if op == "map_res": return (OKP, r[1], v.f[0]) if v.v == 0 else E_
        return (OKP, r[1], v.f[0]) if v.v == 1 else E_
    if op == "flat_map":
        r = parse(I, a[0], x)
        if r[0] != OKP: return r
        return parse(I, I.apply(a[1], [r[2]]), r[1])
    if op == "value":
        r = parse(I, a[1], x)
        if r[0] != OKP: return r
        return (OKP, r[1], deep(I, a[0]))
    if op == "success": return (OKP, x, deep(I, a[0]))
    if op == "opt":
        r = parse(I, a[0], x)
        if r[0] == OKP: return (OKP, r[1], some(r[2]))
        return (OKP, x, none()) if r[0] == ERRP else r
    if op == "cond":
        if not a[0]: return (OKP, x, none())
        r = parse(I, a[1], x)
        return (OKP, r[1], some(r[2])) if r[0] == OKP else r
    if op == "not":
        r = parse(I, a[0], x)
        return E_ if r[0] == OKP else (OKP, x, UNIT) if r[0] == ERRP else r
    if op == "peek":
        r = parse(I, a[0], x)
        return (OKP, x, r[2]) if r[0] == OKP else r
    if op == "cut":
        r = parse(I, a[0], x)
        return (FAIL,) if r[0] == ERRP else r
    if op == "complete": return parse(I, a[0], x)
    if op == "context": return parse(I, a[1], x)
    if op == "all_consuming":
        r = parse(I, a[0], x)
        if r[0] != OKP: return r
        return r if is_empty(I, r[1]) else E_
    if op == "verify":
        r = parse(I, a[0], x)
        if r[0] != OKP: return r
        return r if I.apply(a[1], [Ref([r[2]], 0) if not isinstance(r[2], Text) else r[2]]) else E_
    if op == "recognize":
        r = parse(I, a[0], x)
        if r[0] != OKP: return r
        return (OKP, r[1], consumed(x, r[1]))
    if op in ("many0", "many1", "fold_many0", "fold_many1", "many0_count", "many1_count"):
        acc = []; y = x; one = op.endswith("1") or op == "many1_count"
        st = a[1] if op.startswith("fold") else None
        while True:
            r = parse(I, a[0], y)
            if r[0] == ERRP:
                if one and not acc: return E_
                break
            if r[0] == FAIL: return r
            if same(r[1], y): return E_
            y = r[1]; acc.append(r[2])
            if st is not None: st = I.apply(a[2], [st, r[2]])
        if op.startswith("fold"): return (OKP, y, st)
        return (OKP, y, len(acc) if op.endswith("count") else Vec(acc))
    if op == "count":
        acc = []; y = x
        for _ in range(a[1]):
            r = parse(I, a[0], y)
            if r[0] != OKP: return r
            y = r[1]; acc.append(r[2])
        return (OKP, y, Vec(acc))
    if op == "many_till":
        acc = []; y = x
        while True:
            r = parse(I, a[1], y)
            if r[0] == OKP: return (OKP, r[1], Tup([Vec(acc), r[2]]))
            r = parse(I, a[0], y)
            if r[0] != OKP: return r
            if same(r[1], y): return E_
            y = r[1]; acc.append(r[2])
    if op in ("separated_list", "separated_nonempty_list", "separated_list0", "separated_list1"):
        acc = []
        r = parse(I, a[1], x)
        if r[0] == ERRP: return (OKP, x, Vec([])) if op in ("separated_list", "separated_list0") else r
        if r[0] != OKP: return r
        if same(r[1], x): return E_
        acc.append(r[2]); y = r[1]
        while True:
            s = parse(I, a[0], y)
            if s[0] == ERRP: return (OKP, y, Vec(acc))
            if s[0] != OKP: return s
            if same(s[1], y): return E_
            r = parse(I, a[1], s[1])
            if r[0] == ERRP: return (OKP, y, Vec(acc))
            if r[0] != OKP: return r
            if same(r[1], y): return E_
            acc.append(r[2]); y = r[1]
    if op == "escaped":
        y = x
        ctl = chr(a[1])
        while y.p:
            old = I.__dict__.get("in_many", False); I.in_many = True
            try: r = parse(I, a[0], y)
            finally: I.in_many = old
            if r[0] == OKP:
                if not r[1].p: return (OKP, Text(), x)
                y = r[1]
            elif r[0] == ERRP:
                h = y.p[0]
                if not isinstance(h, str): raise Unmodelled("escaped at %r" % (h,))
                if h[0] == ctl:
                    z = Text((h[1:],) + y.p[1:])
                    if not z.p: return E_
                    r = parse(I, a[2], z)
                    if r[0] != OKP: return r
                    if not r[1].p: return (OKP, Text(), x)
                    y = r[1]
                else:
                    c_ = consumed(x, y)
                    return E_ if not c_.p else (OKP, y, c_)
            else: return r
        return (OKP, Text(), x)
    raise Unmodelled("combinator " + op)
def consumed(x, rest):
    """prefix of x in front of rest"""
    if not rest.p: return x
    # rest is a suffix of x
    n = len(rest.p)
    ps = list(x.p)
    tail = ps[len(ps) - n:]
    if tail and isinstance(tail[0], str) and isinstance(rest.p[0], str):
        head = tail[0][:len(tail[0]) - len(rest.p[0])]
        return Text(ps[:len(ps) - n] + [head])
    if len(ps) >= n and not isinstance(rest.p[0], str): return Text(ps[:len(ps) - n])
    # the first piece of rest is a new literal head
    raise Unmodelled("recognize")
@rx(r"^nom::.*::\{closure")
def _(I, c, a, t):
    return I.apply(a[0], list(a[1].f) if isinstance(a[1], Tup) else list(a[1:]))

# ------------------------------------------------------------------ shared and interior mutable values
@rx(r"^core::cell::(RefCell|Cell|OnceCell|UnsafeCell)::<T>::new$")
def _(I, c, a, t): return Ext("cell", [a[0]])
def cell(v):
    v = deref(v)
    if isinstance(v, Ext) and v.what == "cell": return v
    raise Unmodelled("cell %r" % (v,))
@rx(r"^core::cell::(RefCell|Cell|UnsafeCell)::<T>::(borrow|borrow_mut|get_mut|as_ptr)$")
def _(I, c, a, t): return Ref(cell(a[0]).x, 0)
@rx(r"^core::cell::(Cell|RefCell)::<T>::(get|set|replace|take|into_inner|update)$")
def _(I, c, a, t):
    x = cell(a[0]).x; nm = c["path"].split("::")[-1]; old = x[0]
    if nm == "get": return copyval(old)
    if nm == "into_inner": return old
    if nm == "update": x[0] = I.apply(a[1], [old]); return UNIT
    x[0] = a[1] if len(a) > 1 else default_of(I, t[6])
    return UNIT if nm == "set" else old
@rx(r"^alloc::(rcs?::)*(rc::Rc|sync::Arc)::<.*>::(ptr_eq|strong_count|try_unwrap|get_mut|make_mut)$")
def _(I, c, a, t):
    nm = c["path"].split("::")[-1]
    if nm == "ptr_eq":
        x, y = a[0], a[1]
        while isinstance(x, Ref): x = x.get()
        while isinstance(y, Ref): y = y.get()
        return x is y
    raise Unmodelled(c["path"])
