"""Numeric part of the abstract domain: polynomial value terms over interned
atoms, and convex-polyhedra entailment (exact rational simplex) over the
monomials.  No external solver is involved."""
from fractions import Fraction
import itertools

class Atom:
    """An interned symbolic quantity. `fn`/`args` describe where it comes from."""
    __slots__ = ("id", "name", "lo", "hi", "fn", "args", "imprecise")
    table = {}
    byid = []
    def __init__(self, name, lo, hi, fn, args, imprecise):
        self.id = len(Atom.byid); self.name = name; self.lo = lo; self.hi = hi
        self.fn = fn; self.args = args; self.imprecise = imprecise
        Atom.byid.append(self)
    def __repr__(self): return self.name
    def __lt__(self, o): return self.id < o.id

taint = [lambda args: False]
def atom(key, name, lo=None, hi=None, fn=None, args=(), imprecise=False):
    a = Atom.table.get(key)
    if a is None:
        # uninterpreted operations, and anything derived from an unknown value
        if fn in ("bin", "rdm") or (not imprecise and fn not in ("div", "mod") and taint[0](args)): imprecise = True
        a = Atom(name, lo, hi, fn, args, imprecise)
        Atom.table[key] = a
    return a

_fresh = itertools.count()
def fresh(name, lo=None, hi=None, imprecise=False):
    n = next(_fresh)
    nm = "%s#%d" % (name, n)
    return atom(("fresh", nm), nm, lo, hi, "fresh", (name,), imprecise)

class Poly:
    __slots__ = ("m", "c", "_h")
    def __init__(self, m, c):
        self.m = m      # tuple of ((atomid,...), coef) sorted, coef != 0
        self.c = c
        self._h = hash((m, c))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.c == o.c and self.m == o.m
    def __ne__(self, o): return not self == o
    @staticmethod
    def const(c): return Poly((), c)
    @staticmethod
    def of(a): return Poly((((a.id,), 1),), 0)
    def is_const(self): return not self.m
    def __add__(self, o):
        o = P(o)
        if not o.m: return Poly(self.m, self.c + o.c)
        if not self.m: return Poly(o.m, self.c + o.c)
        d = dict(self.m)
        for k, v in o.m:
            n = d.get(k, 0) + v
            if n: d[k] = n
            else: d.pop(k, None)
        return Poly(tuple(sorted(d.items())), self.c + o.c)
    __radd__ = __add__
    def __neg__(self): return Poly(tuple((k, -v) for k, v in self.m), -self.c)
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def __mul__(self, o):
        o = P(o)
        if not o.m:
            if o.c == 0: return ZERO
            return Poly(tuple((k, v * o.c) for k, v in self.m), self.c * o.c)
        if not self.m: return o * self
        d = {}
        for k1, v1 in itertools.chain(self.m, [((), self.c)]):
            if v1 == 0: continue
            for k2, v2 in itertools.chain(o.m, [((), o.c)]):
                if v2 == 0: continue
                k = tuple(sorted(k1 + k2))
                d[k] = d.get(k, 0) + v1 * v2
        c = d.pop((), 0)
        return Poly(tuple(sorted((k, v) for k, v in d.items() if v)), c)
    __rmul__ = __mul__
    def atoms(self):
        s = set()
        for k, _ in self.m: s.update(k)
        return s
    def bounds(self):
        """interval evaluation"""
        lo = hi = self.c
        for k, v in self.m:
            l, h = 1, 1
            for i in k:
                a = Atom.byid[i]
                if a.lo is None or a.lo < 0:
                    if len(k) > 1: l = h = None; break
                al, ah = a.lo, a.hi
                if l is not None: l = None if al is None else l * al
                if h is not None: h = None if ah is None else h * ah
            if v < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + v * l
            hi = None if hi is None or h is None else hi + v * h
        return lo, hi
    def __repr__(self):
        if not self.m: return str(self.c)
        out = []
        for k, v in self.m:
            n = "*".join(Atom.byid[i].name for i in k)
            out.append(("%s" % n) if v == 1 else ("-%s" % n) if v == -1 else "%d*%s" % (v, n))
        s = " + ".join(out).replace("+ -", "- ")
        if self.c: s += (" + %d" % self.c) if self.c > 0 else (" - %d" % -self.c)
        return s

ZERO = Poly((), 0)
ONE = Poly((), 1)
def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return Poly.of(x)
    if isinstance(x, bool): return ONE if x else ZERO
    return Poly((), x)

def div_(p, c):
    """floor division by a positive constant"""
    if c == 1: return p
    if p.is_const(): return P(p.c // c)
    if all(v % c == 0 for _, v in p.m):
        return Poly(tuple((k, v // c) for k, v in p.m), p.c // c)
    lo, hi = p.bounds()
    a = atom(("div", p, c), "(%s)/%d" % (p, c), None if lo is None else lo // c, None if hi is None else hi // c, "div", (p, c))
    return P(a)

def mod_(p, c):
    """mathematical p mod c, c > 0, in [0,c)"""
    if c == 1: return ZERO
    # strip inner mods: x mod a inside mod b where b | a
    changed = True
    while changed:
        changed = False
        for k, v in p.m:
            if len(k) == 1:
                a = Atom.byid[k[0]]
                if a.fn == "mod" and a.args[1] % c == 0:
                    p = p - Poly(((k, v),), 0) + a.args[0] * v
                    changed = True
                    break
                if a.fn == "pow2" and False: pass
    d = {k: v % c for k, v in p.m}
    # atoms known to be multiples of c drop out
    out = {}
    for k, v in d.items():
        mult = v
        for i in k:
            a = Atom.byid[i]
            if a.fn == "mul_of": mult *= a.args[0]
        if mult % c: out[k] = v
    q = Poly(tuple(sorted(out.items())), p.c % c)
    if q.is_const(): return P(q.c % c)
    lo, hi = q.bounds()
    if lo is not None and hi is not None and lo >= 0 and hi < c: return q
    a = atom(("mod", q, c), "(%s)%%%d" % (q, c), 0, c - 1, "mod", (q, c))
    return P(a)

# ---------------------------------------------------------------- entailment

class LP:
    """Feasibility of a conjunction  p_i >= 0  over the rationals, treating every
    monomial as a variable (exact arithmetic, Bland's rule)."""
    cache = {}
    queries = 0

def _side_facts(polys):
    """range facts of the monomials that occur (transitively through div/mod)."""
    facts = []
    seen = set()
    work = [p for p in polys]
    while work:
        p = work.pop()
        for k, _ in p.m:
            if k in seen: continue
            seen.add(k)
            if len(k) == 1:
                a = Atom.byid[k[0]]
                x = P(a)
                if a.lo is not None: facts.append(x - a.lo)
                if a.hi is not None: facts.append(P(a.hi) - x)
                if a.fn == "div":
                    q, c = a.args
                    f1 = q - x * c
                    facts.append(f1); facts.append(x * c + (c - 1) - q)
                    work.append(q)
                elif a.fn == "mod":
                    # value congruent to q modulo c: q - x = c*t
                    q, c = a.args
                    t = div_(q, c)
                    e = q - x - t * c
                    facts.append(e); facts.append(-e)
                    work.append(q)
                    work.append(t)
            else:
                x = Poly(((k, 1),), 0)
                lo, hi = x.bounds()
                if lo is not None: facts.append(x - lo)
                if hi is not None: facts.append(P(hi) - x)
    return facts

def feasible(polys):
    """Can all polys be >= 0 simultaneously (over Q)?  False is a proof of
    infeasibility; True means 'not excluded by the domain'."""
    ps = []
    for p in polys:
        if p.is_const():
            if p.c < 0: return False
            continue
        ps.append(p)
    if not ps: return True
    ps = list(dict.fromkeys(ps))
    ps += [f for f in _side_facts(ps)]
    ps2 = []
    for p in ps:
        if p.is_const():
            if p.c < 0: return False
            continue
        ps2.append(p)
    key = frozenset(ps2)
    r = LP.cache.get(key)
    if r is None:
        LP.queries += 1
        r = _simplex(list(key))
        LP.cache[key] = r
    return r

def _simplex(ps):
    # equality elimination: pairs p, -p
    ps = sorted(ps, key=lambda p: (len(p.m), p.m, p.c))
    s = set(ps)
    eqs = [p for p in ps if -p in s]
    ineqs = [p for p in ps if -p not in s]
    rows = [({k: Fraction(v) for k, v in p.m}, Fraction(p.c)) for p in ineqs]
    erows = [({k: Fraction(v) for k, v in p.m}, Fraction(p.c)) for p in eqs]
    done = []
    while erows:
        d, c = erows.pop()
        d = {k: v for k, v in d.items() if v}
        if not d:
            if c != 0: return False
            continue
        k0 = min(d, key=lambda k: (len(k), k))
        v0 = d[k0]
        sub = {k: -v / v0 for k, v in d.items() if k != k0}
        sc = -c / v0
        def repl(row):
            dd, cc = row
            if k0 not in dd: return row
            f = dd[k0]
            nd = {k: v for k, v in dd.items() if k != k0}
            for k, v in sub.items():
                n = nd.get(k, 0) + f * v
                if n: nd[k] = n
                else: nd.pop(k, None)
            return nd, cc + f * sc
        erows = [repl(r) for r in erows]
        rows = [repl(r) for r in rows]
    uniq = {}
    for d, c in rows:
        if not d:
            if c < 0: return False
            continue
        # normalise
        f = abs(next(iter(sorted(d.items())))[1])
        key = tuple(sorted((k, v / f) for k, v in d.items()))
        c = c / f
        if key not in uniq or c < uniq[key]: uniq[key] = c
    rows = [(dict(k), c) for k, c in uniq.items()]
    if not rows: return True
    # substitute lower bounds: variables with x - lo >= 0 become nonneg shifted
    lows = {}
    rest = []
    for d, c in rows:
        if len(d) == 1:
            (k, v), = d.items()
            if v > 0:
                lo = -c / v
                if k not in lows or lo > lows[k]: lows[k] = lo
                continue
        rest.append((d, c))
    vars_ = sorted({k for d, _ in rest for k in d})
    if not rest: return True
    # x = lo + y, y>=0 ; free x = y1 - y2
    cols = []
    for k in vars_:
        cols.append((k, 1))
        if k not in lows: cols.append((k, -1))
    # rows: sum a_j y_j + b >= 0  ->  -sum a_j y_j + s = b
    A = []; b = []
    for d, c in rest:
        bb = c
        for k, v in d.items():
            if k in lows: bb += v * lows[k]
        A.append([-(d.get(k, 0)) * sg for k, sg in cols])
        b.append(bb)
    m, n = len(A), len(cols)
    # dual-simplex style: need b >= 0 ; use phase 1 with one artificial x0
    if all(x >= 0 for x in b): return True
    # tableau with x0:  A y + s - x0 = b
    T = [A[i] + [Fraction(-1)] + [b[i]] for i in range(m)]
    basis = [n + 1 + i for i in range(m)]  # slack ids
    nonb = list(range(n)) + [n]            # columns: y.., x0
    # objective minimise x0  -> row: z = x0
    piv = min(range(m), key=lambda i: b[i])
    obj = [Fraction(0)] * n + [Fraction(1)] + [Fraction(0)]
    def pivot(r, c):
        p = T[r][c]
        row = T[r]
        inv = Fraction(1) / p
        newrow = [x * inv for x in row]
        newrow[c] = inv
        for i in range(m):
            if i == r: continue
            f = T[i][c]
            if f == 0: continue
            Ti = T[i]
            for j in range(n + 2):
                if j == c: Ti[j] = -f * inv
                else:
                    x = newrow[j]
                    if x: Ti[j] = Ti[j] - f * x
        f = obj[c]
        if f:
            for j in range(n + 2):
                if j == c: obj[j] = -f * inv
                else:
                    x = newrow[j]
                    if x: obj[j] = obj[j] - f * x
        T[r] = newrow
        basis[r], nonb[c] = nonb[c], basis[r]
    pivot(piv, n)
    it = 0
    while True:
        it += 1
        if it > 4000: return True
        # entering: smallest id with negative reduced cost
        ent = None
        for j in sorted(range(n + 1), key=lambda j: nonb[j]):
            if obj[j] < 0: ent = j; break
        if ent is None: break
        best = None; br = None
        for i in range(m):
            if T[i][ent] > 0:
                t = T[i][n + 1] / T[i][ent]
                if best is None or t < best or (t == best and basis[i] < basis[br]):
                    best = t; br = i
        if br is None: return True
        pivot(br, ent)
        if basis[br] != n and n in [nonb[ent]]:
            return True
    # value of x0
    for i in range(m):
        if basis[i] == n: return T[i][n + 1] <= 0
    return True

def reset_terms():
    """start a new analysis: atoms are named within one analysed root only"""
    global _fresh
    Atom.table.clear(); Atom.byid.clear(); LP.cache.clear(); _fresh = itertools.count()
    for f in on_reset: f()
on_reset = []
