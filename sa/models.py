"""Abstract transfer functions for the leaf functions of core/alloc/smallvec
used by the runtime crate.  Everything else is either inlined (its MIR is
analysed) or treated as an uninterpreted function."""
import re
from absint import *

M = {}
RX = []
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d
def rx(p):
    def d(f):
        RX.append((re.compile(p), f)); return f
    return d

def deref(I, st, v):
    while isinstance(v, Ref): v = I.get(st, v.place)
    return v

def as_slice(I, st, v):
    """value of type &[T] / &Vec / &[T;N] / &str -> Slice"""
    if isinstance(v, Slice): return v
    if isinstance(v, Str):
        root = ("K", "str", v.s)
        b = v.s.encode()
        st.store[root] = Buf(P(len(b)), [(P(len(b)), ("vals", tuple(P(x) for x in b)))] if b else [], I.p.ty_by_s.get("u8", -1))
        return Slice((root, ()), ZERO, P(len(b)), True)
    if isinstance(v, Ref):
        x = I.get(st, v.place)
        if isinstance(x, (Slice, Ref, Str)): return as_slice(I, st, x)
        if isinstance(x, Buf): return Slice(v.place, ZERO, x.len)
    return None

def some(dty, v): return Agg("adt:core::option::Option", 1, (v,), dty)
def none(dty): return Agg("adt:core::option::Option", 0, (), dty)
def ok(dty, v): return Agg("adt:core::result::Result", 0, (v,), dty)
def err(dty, v): return Agg("adt:core::result::Result", 1, (v,), dty)

def heap(I, st, v):
    I.nheap += 1
    root = ("H", I.nheap)
    st.store[root] = v
    return (root, ())

@rx(r"^<[ui]\w+ as core::iter::range::Step>::(forward|backward)(_unchecked)?$")
def _(I, st, a, c):
    if not (isinstance(a[0], Poly) and isinstance(a[1], Poly)): return None
    p = c["callee"].get("path") or ""
    r = a[0] + a[1] if "forward" in p else a[0] - a[1]
    return [(I.wrap(st, r, c["dty"]), st)]

# ---- identity conversions
@model("<T as core::convert::From<T>>::from")
def _(I, st, a, c): return [(a[0], st)]
@model("<I as core::iter::traits::collect::IntoIterator>::into_iter")
def _(I, st, a, c): return [(a[0], st)]

# ---- sizes
@model("core::mem::size_of", "core::intrinsics::size_of")
def _(I, st, a, c): return [(I.size_of(c["callee"]["args"][0]), st)]
@model("core::mem::align_of", "core::intrinsics::align_of", "core::intrinsics::min_align_of")
def _(I, st, a, c): return [(I.align_of(c["callee"]["args"][0]), st)]

# ---- slices
@model("core::slice::<impl [T]>::len", "core::str::<impl str>::len", "alloc::vec::Vec::<T, A>::len")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    return [(s.len, st)] if s else None

@model("core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty", "alloc::vec::Vec::<T, A>::is_empty")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    return [(beq(s.len), st)] if s else None

@model("core::str::<impl str>::as_bytes")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    return [(Slice(s.place, s.off, s.len), st)] if s else None

@model("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr", "alloc::vec::Vec::<T, A>::as_ptr", "alloc::vec::Vec::<T, A>::as_mut_ptr", "core::str::<impl str>::as_ptr")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    return [(Ptr(s.place, s.off, I.T(c["dty"])["elem"]), st)] if s else None

@rx(r"^<alloc::vec::Vec<T, A> as core::ops::deref::Deref(Mut)?>::deref|^alloc::vec::Vec::<T, A>::as_(mut_)?slice$|^<alloc::vec::Vec<T, A> as core::(convert::AsRef<\[T\]>>::as_ref|borrow::Borrow<\[T\]>>::borrow)|<impl core::convert::AsRef<\[T\]> for \[T\]>::as_ref|<impl core::convert::AsRef<\[T\]> for \[T; N\]>::as_ref|<smallvec::SmallVec<A> as core::ops::deref::Deref(Mut)?>::deref")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    return [(s, st)] if s else None

@rx(r"^<&T as core::convert::AsRef<U>>::as_ref|^core::convert::impls::<impl core::convert::AsRef<U> for &(mut )?T>::as_ref$")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    return [(s, st)] if s else None

def range_of(I, st, r, n):
    """(start, end, kind) of a range value on a sequence of length n"""
    if isinstance(r, Agg):
        k = r.kind
        if k.endswith("range::Range"): return r.fields[0], r.fields[1]
        if k.endswith("range::RangeFrom"): return r.fields[0], n
        if k.endswith("range::RangeTo"): return ZERO, r.fields[0]
        if k.endswith("range::RangeFull"): return ZERO, n
        if k.endswith("range::RangeToInclusive"): return ZERO, r.fields[0] + 1
        if k.endswith("range::RangeInclusive") and isinstance(r.fields[1], Poly): return r.fields[0], r.fields[1] + 1
    return None

def range_ok(lo, hi, n): return band(bge(hi - lo), bge(n - hi))

@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    if s is None: return None
    out = []
    if isinstance(a[1], Poly):
        cond = band(bge(a[1]), bge(s.len - a[1] - 1))
        for x in st.assume(cond): out.append((some(c["dty"], Ref((s.place[0], s.place[1] + (("e", s.off + a[1]),)))), x))
        for x in st.assume(bnot(cond)): out.append((none(c["dty"]), x))
        return out
    r = range_of(I, st, a[1], s.len)
    if r is None or not all(isinstance(x, Poly) for x in r): return None
    lo, hi = r
    cond = range_ok(lo, hi, s.len)
    for x in st.assume(cond): out.append((some(c["dty"], Slice(s.place, s.off + lo, hi - lo)), x))
    for x in st.assume(bnot(cond)): out.append((none(c["dty"]), x))
    return out

@rx(r"^core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \[T\]>::index|^<alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>::index|^<smallvec::SmallVec<A> as core::ops::index::Index(Mut)?<I>>::index|^core::array::<impl core::ops::index::Index(Mut)?<I> for \[T; N\]>::index")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    if s is None: return None
    out = []
    if isinstance(a[1], Poly):
        cond = band(bge(a[1]), bge(s.len - a[1] - 1))
        for x in (st.assume(bnot(cond)) if not st.proves(cond) else []): I.panic(x, "index", "index out of bounds", c["sp"], bnot(cond))
        for x in st.assume(cond): out.append((Ref((s.place[0], s.place[1] + (("e", s.off + a[1]),))), x))
        return out
    r = range_of(I, st, a[1], s.len)
    if r is None or not all(isinstance(x, Poly) for x in r): return None
    lo, hi = r
    cond = range_ok(lo, hi, s.len)
    if not st.proves(cond):
        for x in st.assume(bnot(cond)): I.panic(x, "index", "range %r..%r of length %r" % (lo, hi, s.len), c["sp"], bnot(cond))
    for x in st.assume(cond): out.append((Slice(s.place, s.off + lo, hi - lo), x))
    return out

@model("core::slice::<impl [T]>::split_at_mut", "core::slice::<impl [T]>::split_at")
def _(I, st, a, c):
    s = as_slice(I, st, a[0]); m = a[1]
    if s is None or not isinstance(m, Poly): return None
    cond = band(bge(m), bge(s.len - m))
    if not st.proves(cond):
        for x in st.assume(bnot(cond)): I.panic(x, "index", "split_at %r of %r" % (m, s.len), c["sp"], bnot(cond))
    return [(Agg("tuple", 0, (Slice(s.place, s.off, m), Slice(s.place, s.off + m, s.len - m)), c["dty"]), x) for x in st.assume(cond)]

@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def _(I, st, a, c):
    d = as_slice(I, st, a[0]); s = as_slice(I, st, a[1])
    if d is None or s is None: return None
    cond = beq(d.len - s.len)
    if not st.proves(cond):
        for x in st.assume(bnot(cond)): I.panic(x, "copy_from_slice", "length mismatch", c["sp"], bnot(cond))
    out = []
    for x in st.assume(cond):
        out += [(UNIT, y) for y in copy_range(I, x, d.place, d.off, s.place, s.off, s.len, c["sp"])]
    return out

def copy_range(I, st, dp, doff, sp_, soff, n, sp):
    """the states after the copy"""
    out = []
    for y in I.decide(st, sp_, soff, soff + n):
        for x in I.decide(y, dp, doff, doff + n):
            src = I.get(x, sp_); dst = I.get(x, dp)
            x = x.copy(); mid = None
            if isinstance(src, Buf): mid = I.cut(x, src, soff, n)
            if mid is None: mid = [(n, I.any_desc("copy"))]
            if isinstance(dst, Buf):
                r = I.replace(x, dst, doff, n, mid)
                if r is None:
                    I.imprecise_notes.append(("copy", sp))
                    r = I.blur(x, dst, doff, n, "copydst")
                I.put(x, dp, r)
            out.append(x)
    return out

@rx(r"^core::slice::<impl \[T\]>::copy_within$")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    if s is None: return None
    r = range_of(I, st, a[1], s.len)
    if r is None: return None
    lo, hi = r; d = a[2]
    cond = band(range_ok(lo, hi, s.len), bge(s.len - d - (hi - lo)))
    if not st.proves(cond):
        for x in st.assume(bnot(cond)): I.panic(x, "index", "copy_within", c["sp"], bnot(cond))
    out = []
    for x in st.assume(cond):
        out += [(UNIT, y) for y in copy_range(I, x, s.place, s.off + d, s.place, s.off + lo, hi - lo, c["sp"])]
    return out

@rx(r"^core::slice::(specialize::)?<impl \[T\]>::fill$")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    if s is None: return None
    return [(UNIT, x) for x in fill_range(I, st, s.place, s.off, s.len, a[1], c["sp"])]

def fill_range(I, st, place, off, n, v, sp):
    """the states after the fill"""
    if not isinstance(I.get(st, place), Buf): return [st]
    out = []
    for x in I.decide(st, place, off, off + n):
        x = x.copy(); b = I.get(x, place)
        r = I.replace(x, b, off, n, [(n, ("fill", v))])
        if r is None:
            I.imprecise_notes.append(("fill", sp))
            r = I.blur(x, b, off, n, "fill")
        I.put(x, place, r); out.append(x)
    return out

@model("core::ptr::write_bytes", "core::intrinsics::write_bytes", "core::ptr::mut_ptr::<impl *mut T>::write_bytes")
def _(I, st, a, c):
    p = a[0]
    if isinstance(p, Ptr) and isinstance(a[2], Poly):
        b = I.get(st, p.place)
        if isinstance(b, Buf):
            sz = I.ptr_scale(st, p)
            n = a[2] * sz
            I.oblige(st, "raw-fill-in-bounds", band(bge(p.off), bge(n), bge(b.len - p.off - n)), c["sp"],
                     "fill of %r bytes at %r of a buffer of %r" % (n, p.off, b.len))
            return [(UNIT, x) for x in fill_range(I, st, p.place, p.off, n, a[1], c["sp"])]
    return None

@model("core::ptr::copy_nonoverlapping", "core::intrinsics::copy_nonoverlapping", "core::ptr::copy", "core::intrinsics::copy")
def _(I, st, a, c):
    s, d, n = a
    if isinstance(s, Ref) and isinstance(d, Ptr) and isinstance(n, Poly):
        # the bytes of one local scalar
        v = I.get(st, s.place); db = I.get(st, d.place)
        t = v.ty if isinstance(v, (Sym, Agg)) else I.local_ty(s.place)
        if isinstance(db, Buf) and I.size_of(db.ety) == ONE and t is not None and isinstance(v, (Poly, B, Sym)):
            sz = I.size_of(t); nd = n * I.ptr_scale(st, d)
            I.oblige(st, "raw-copy-src-in-bounds", bge(sz - nd), c["sp"])
            I.oblige(st, "raw-copy-dst-in-bounds", band(bge(d.off), bge(nd), bge(db.len - d.off - nd)), c["sp"])
            if st.proves_eq(sz - nd):
                I.store_le(st, d.place, d.off, t, v, c["sp"])
                return [(UNIT, st)]
        return None
    if isinstance(s, Ptr) and isinstance(d, Ptr) and isinstance(n, Poly):
        sb = I.get(st, s.place); db = I.get(st, d.place)
        if isinstance(sb, Buf) and isinstance(db, Buf):
            ns = n * I.ptr_scale(st, s); nd = n * I.ptr_scale(st, d)
            I.oblige(st, "raw-copy-src-in-bounds", band(bge(s.off), bge(ns), bge(sb.len - s.off - ns)), c["sp"])
            I.oblige(st, "raw-copy-dst-in-bounds", band(bge(d.off), bge(nd), bge(db.len - d.off - nd)), c["sp"])
            for p in (s, d):
                if I.align_of(p.ty) != ONE: I.align_obl(st, p, I.align_of(p.ty), c["sp"], "copy")
            if sb.ety == db.ety or I.size_of(sb.ety) == I.size_of(db.ety):
                return [(UNIT, x) for x in copy_range(I, st, d.place, d.off, s.place, s.off, ns, c["sp"])]
    return None

@model("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut")
def _(I, st, a, c):
    p, n = a
    if isinstance(p, Ptr) and isinstance(n, Poly):
        b = I.get(st, p.place)
        if isinstance(b, Buf):
            el = I.T(I.T(c["dty"])["elem"])["elem"]
            sz = I.size_of(el); ce = I.size_of(b.ety)
            if ce == ONE and not (sz == ONE and I.T(b.ety)["s"] != I.T(el)["s"] and I.T(b.ety)["s"] != "u8"):
                nb = n * sz
                I.oblige(st, "raw-slice-in-bounds", band(bge(p.off), bge(nb), bge(b.len - p.off - nb)), c["sp"],
                         "slice of %r bytes at %r of a buffer of %r" % (nb, p.off, b.len))
                if I.align_of(el) != ONE: I.align_obl(st, Ptr(p.place, p.off, el), I.align_of(el), c["sp"], "slice")
                I.validity_obl(st, el, c["sp"])
                if sz == ONE and I.T(el)["k"] == "int": return [(Slice(p.place, p.off, n), st)]
                seg = I.cut(st, b, p.off, nb)
                nm = ("view", I.T(el)["s"], tuple((l, I.dkey(st, d, 0)) for l, d in seg)) if seg is not None else ("any", fresh("view", imprecise=True).name)
                v = Buf(n, [(n, ("orig", nm, ZERO))], el)
                h = heap(I, st, v)
                I.views[h] = (p.place, p.off, sz)
                return [(Slice(h, ZERO, n), st)]
            # bytes view of a typed sequence
            if I.size_of(el) == ONE:
                tot = b.len * ce
                I.oblige(st, "raw-slice-in-bounds", band(bge(p.off), bge(n), bge(tot - p.off * ce - n)), c["sp"],
                         "byte view of %r bytes over %r elements of size %r" % (n, b.len, ce))
                seg = I.cut(st, b, p.off, b.len - p.off)
                seg = I.norm_segs(st, seg) if seg is not None else None
                if seg is not None and len(seg) == 1 and seg[0][1][0] == "orig" and ce.is_const():
                    nm = ("bytesof", seg[0][1][1], seg[0][1][2], ce.c, b.ety)
                else: nm = ("bytesof", tuple((l, I.dkey(st, d, 0)) for l, d in seg) if seg is not None else p.off)
                v = Buf(n, [(n, ("orig", nm, ZERO))], el)
                return [(Slice(heap(I, st, v), ZERO, n), st)]
    return None

@model("core::ptr::read_unaligned", "core::ptr::const_ptr::<impl *const T>::read_unaligned", "core::ptr::mut_ptr::<impl *mut T>::read_unaligned")
def _(I, st, a, c):
    if isinstance(a[0], Ptr): return [(I.ptr_read(st, Ptr(a[0].place, a[0].off, c["callee"]["args"][0]), c["sp"], False), st)]
    return None
@model("core::ptr::read", "core::ptr::const_ptr::<impl *const T>::read", "core::ptr::mut_ptr::<impl *mut T>::read")
def _(I, st, a, c):
    if isinstance(a[0], Ptr): return [(I.ptr_read(st, Ptr(a[0].place, a[0].off, c["callee"]["args"][0]), c["sp"], True), st)]
    return None
@model("core::ptr::write_unaligned", "core::ptr::mut_ptr::<impl *mut T>::write_unaligned")
def _(I, st, a, c):
    if isinstance(a[0], Ptr):
        I.ptr_write(st, Ptr(a[0].place, a[0].off, c["callee"]["args"][0]), a[1], c["sp"], False); return [(UNIT, st)]
    return None
@model("core::ptr::write", "core::ptr::mut_ptr::<impl *mut T>::write")
def _(I, st, a, c):
    if isinstance(a[0], Ptr):
        I.ptr_write(st, Ptr(a[0].place, a[0].off, c["callee"]["args"][0]), a[1], c["sp"], True); return [(UNIT, st)]
    return None
@rx(r"<impl \*(const|mut) T>::is_aligned$")
def _(I, st, a, c):
    if isinstance(a[0], Ptr):
        al = I.align_of(c["callee"]["args"][0])
        if al == ONE: return [(TRUE, st)]
        return [(B("at", ("aligned", a[0].place, a[0].off, al), True), st)]
    return None
@rx(r"<impl \*(const|mut) T>::(cast|cast_mut|cast_const)$")
def _(I, st, a, c):
    if isinstance(a[0], Ptr): return [(Ptr(a[0].place, a[0].off, I.T(c["dty"])["elem"]), st)]
    return None
@rx(r"<impl \*(const|mut) T>::(add|wrapping_add)$")
def _(I, st, a, c):
    if isinstance(a[0], Ptr) and isinstance(a[1], Poly): return [(Ptr(a[0].place, a[0].off + a[1] * I.ptr_scale(st, a[0]), a[0].ty), st)]
    return None
@rx(r"<impl \*(const|mut) T>::align_offset$")
def _(I, st, a, c):
    return None
@rx(r"^core::slice::<impl \[T\]>::align_to$")
def _(I, st, a, c): return None

# ---- equality of sequences
def seq_eq(I, st, x, y, c):
    a = as_slice(I, st, x); b = as_slice(I, st, y)
    if a is None or b is None: return None
    out = []
    if not st.proves_eq(a.len - b.len):
        for s in st.assume(bnot(beq(a.len - b.len))): out.append((FALSE, s))
    for s in [z for x in st.assume(beq(a.len - b.len)) for y in I.decide(x, a.place, a.off, a.off + a.len) for z in I.decide(y, b.place, b.off, b.off + b.len)]:
        ca, cb = I.get(s, a.place), I.get(s, b.place)
        if (a.place, a.off) == (b.place, b.off): out.append((TRUE, s)); continue
        sa = I.cut(s, ca, a.off, a.len) if isinstance(ca, Buf) else None
        sb = I.cut(s, cb, b.off, a.len) if isinstance(cb, Buf) else None
        r = segs_eq(I, s, sa, sb) if sa is not None and sb is not None else None
        if r is None:
            n = min((concrete(s, a.len), concrete(s, b.len)), key=lambda q: (not q.is_const(), repr(q)))
            def canon(sg):
                sg = I.norm_segs(s, sg)
                if len(sg) == 1: return ("sl", n, I.dkey(s, sg[0][1], 0))
                return ("sl", n, tuple((l, I.dkey(s, d, 0)) for l, d in sg))
            ka, kb = sorted([canon(sa), canon(sb)], key=repr) if sa is not None and sb is not None else (0, 0)
            r = B("at", ("app", "seqeq", ka, kb), True) if sa is not None and sb is not None else B("at", ("any", fresh("seqeq", imprecise=True).name), True)
        if r.k == "c": out.append((r, s))
        else:
            for s2 in s.assume(r): out.append((TRUE, s2))
            for s2 in s.assume(bnot(r)): out.append((FALSE, s2))
    return out

def concrete(st, p):
    """the constant p is known to equal, or p"""
    if p.is_const(): return p
    for f in st.facts:
        if f.m == (p - p.c).m:
            c = p.c - f.c
            if st.proves_eq(p - c): return P(c)
    return p

def desc_vals(d, l):
    if d[0] == "vals": return list(d[1])
    if d[0] == "fill" and l.is_const(): return [d[1]] * l.c
    return None

def segs_eq(I, st, sa, sb):
    """B: the two segment lists (same total length) have equal contents; None if not decidable structurally"""
    sa = I.norm_segs(st, sa); sb = I.norm_segs(st, sb)
    conds = []
    sa = list(sa); sb = list(sb)
    while sa and sb:
        (la, da), (lb, db) = sa[0], sb[0]
        if la != lb and not st.proves_eq(la - lb):
            # split the longer one
            if st.proves_ge(la - lb):
                x = I.sub_desc(la, da, ZERO, lb); y = I.sub_desc(la, da, lb, la)
                if x is None or y is None: return None
                sa[0:1] = [(lb, x), (la - lb, y)]; continue
            if st.proves_ge(lb - la):
                x = I.sub_desc(lb, db, ZERO, la); y = I.sub_desc(lb, db, la, lb)
                if x is None or y is None: return None
                sb[0:1] = [(la, x), (lb - la, y)]; continue
            return None
        if da != db:
            if da[0] == "le" and db[0] == "le" and da[2] == db[2] and isinstance(da[1], Poly) and isinstance(db[1], Poly):
                m = 256 ** da[2]
                conds.append(beq(mod_(da[1] - db[1], m)) if not (st.proves_ge(da[1]) and st.proves_ge(db[1])) else beq(da[1] - db[1]))
            elif da[0] == "le" and db[0] == "fill" and isinstance(da[1], Poly) and db[1] == ZERO: conds.append(beq(da[1]))
            elif db[0] == "le" and da[0] == "fill" and isinstance(db[1], Poly) and da[1] == ZERO: conds.append(beq(db[1]))
            else:
                va, vb = desc_vals(da, la), desc_vals(db, lb)
                if va is not None and vb is not None and len(va) == len(vb):
                    for p, q in zip(va, vb):
                        if isinstance(p, Poly) and isinstance(q, Poly): conds.append(beq(p - q))
                        elif p == q: pass
                        else: return None
                else:
                    ka, kb = sorted([I.dkey(st, da, 0), I.dkey(st, db, 0)], key=repr)
                    n = min((concrete(st, la), concrete(st, lb)), key=lambda q: (not q.is_const(), repr(q)))
                    conds.append(B("at", ("app", "seqeq", n, ka, kb), True))
        sa.pop(0); sb.pop(0)
    return band(*conds)

@rx(r"^core::slice::cmp::<impl core::cmp::PartialEq<\[U\]> for \[T\]>::(eq|ne)$|^alloc::vec::partial_eq::<impl core::cmp::PartialEq<.*>::(eq|ne)$|^core::array::equality::<impl core::cmp::PartialEq<.*>::(eq|ne)$|^core::str::traits::<impl core::cmp::PartialEq for str>::(eq|ne)$")
def _(I, st, a, c):
    r = seq_eq(I, st, a[0], a[1], c)
    if r is None: return None
    if (c["callee"].get("path") or "").endswith("::ne"): r = [(bnot(v), s) for v, s in r]
    return r

@rx(r"^core::cmp::impls::<impl core::cmp::PartialEq<&B> for &A>::(eq|ne)$")
def _(I, st, a, c):
    x = I.get(st, a[0].place) if isinstance(a[0], Ref) else a[0]
    y = I.get(st, a[1].place) if isinstance(a[1], Ref) else a[1]
    if isinstance(x, (Slice, Str)) and isinstance(y, (Slice, Str)):
        r = seq_eq(I, st, x, y, c)
        if r is not None and c["callee"]["path"].endswith("::ne"): r = [(bnot(v), s) for v, s in r]
        return r
    return None

@rx(r"^core::cmp::impls::<impl core::cmp::PartialEq for (u|i|bool|char|f).*>::(eq|ne)$")
def _(I, st, a, c):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    if c["callee"]["path"].endswith("::ne"): return [(I.cmp(st, "Ne", x, y), st)]
    return [(I.cmp(st, "Eq", x, y), st)]

@rx(r"^core::cmp::impls::<impl core::cmp::PartialOrd for (u|i)\w*>::(lt|le|gt|ge)$")
def _(I, st, a, c):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    op = c["callee"]["path"][-2:].capitalize()
    return [(I.cmp(st, op, x, y), st)]

@rx(r"^core::cmp::impls::<impl core::cmp::Ord for (u|i)\w*>::cmp$")
def _(I, st, a, c):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    if not (isinstance(x, Poly) and isinstance(y, Poly)): return None
    out = []
    for i, cond in enumerate((bge(y - x - 1), beq(x - y), bge(x - y - 1))):
        for s in st.assume(cond): out.append((Agg("adt:core::cmp::Ordering", i, (), c["dty"]), s))
    return out

def minmax(I, st, x, y, mx):
    out = []
    for s in st.assume(bge(x - y)): out.append((x if mx else y, s))
    for s in st.assume(bge(y - x - 1)): out.append((y if mx else x, s))
    return out
@rx(r"^core::cmp::(max|min)$|^core::cmp::Ord::(max|min)$|^core::cmp::impls::<impl core::cmp::Ord for (u|i)\w*>::(max|min)$|^core::intrinsics::integer_(max|min)$")
def _(I, st, a, c):
    if isinstance(a[0], Poly) and isinstance(a[1], Poly):
        return minmax(I, st, a[0], a[1], "max" in (c["callee"].get("orig") or "")[-5:] or (c["callee"].get("path") or "").endswith("max"))
    return None

# ---- integer methods
def ity(c): return c["dty"]
@rx(r"^core::num::<impl [ui]\w+>::(wrapping_add|wrapping_sub|wrapping_mul|wrapping_neg)$")
def _(I, st, a, c):
    if not all(isinstance(x, Poly) for x in a): return None
    op = c["callee"]["path"].rsplit("_", 1)[1]
    r = {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1], "neg": lambda: -a[0]}[op]()
    return [(I.wrap(st, r, c["dty"]), st)]
@rx(r"^core::num::<impl [ui]\w+>::(saturating_add|saturating_sub|saturating_mul)$")
def _(I, st, a, c):
    if not all(isinstance(x, Poly) for x in a): return None
    op = c["callee"]["path"].rsplit("_", 1)[1]
    r = {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1]}[op]()
    lo, hi = I.int_range(c["dty"])
    out = []
    for s in st.assume(band(bge(r - lo), bge(P(hi) - r))): out.append((r, s))
    for s in st.assume(bge(P(lo) - r - 1)): out.append((P(lo), s))
    for s in st.assume(bge(r - hi - 1)): out.append((P(hi), s))
    return out
@rx(r"^core::num::<impl [ui]\w+>::(checked_add|checked_sub|checked_mul)$")
def _(I, st, a, c):
    if not all(isinstance(x, Poly) for x in a): return None
    op = c["callee"]["path"].rsplit("_", 1)[1]
    r = {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1]}[op]()
    it = I.T(c["dty"])["args"][0]
    lo, hi = I.int_range(it)
    cond = band(bge(r - lo), bge(P(hi) - r))
    out = []
    for s in st.assume(cond): out.append((some(c["dty"], r), s))
    for s in st.assume(bnot(cond)): out.append((none(c["dty"]), s))
    return out
@rx(r"^core::num::<impl [ui]\w+>::(overflowing_add|overflowing_sub|overflowing_mul)$")
def _(I, st, a, c):
    if not all(isinstance(x, Poly) for x in a): return None
    op = c["callee"]["path"].rsplit("_", 1)[1]
    r = {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1]}[op]()
    it = I.T(c["dty"])["elems"][0]
    lo, hi = I.int_range(it)
    cond = band(bge(r - lo), bge(P(hi) - r))
    out = []
    for s in st.assume(cond): out.append((Agg("tuple", 0, (r, FALSE), c["dty"]), s))
    for s in st.assume(bnot(cond)): out.append((Agg("tuple", 0, (I.wrap(s, r, it), TRUE), c["dty"]), s))
    return out
@rx(r"^core::num::<impl [ui]\w+>::(to_le|from_le)$")
def _(I, st, a, c): return [(a[0], st)]        # the analysed target is little-endian
@rx(r"^core::num::<impl [ui]\w+>::(to_be|from_be|swap_bytes)$")
def _(I, st, a, c):
    x = a[0]
    if isinstance(x, Poly) and x.is_const():
        lo, hi = I.int_range(c["dty"]); n = (hi - lo + 1).bit_length() // 8
        r = int.from_bytes((x.c & (hi - lo)).to_bytes(n, "little"), "big")
        return [(P(r - (hi - lo + 1) if r > hi else r), st)]
    if isinstance(x, Poly) and len(x.m) == 1 and x.c == 0 and x.m[0][1] == 1 and len(x.m[0][0]) == 1:
        at = Atom.byid[x.m[0][0][0]]
        if at.fn == "bswap": return [(at.args[0], st)]
    if isinstance(x, Poly):
        lo, hi = I.int_range(c["dty"])
        return [(P(atom(("bswap", x, c["dty"]), "bswap(%r)" % x, lo, hi, "bswap", (x,))), st)]
    return None
@rx(r"^core::f(32|64)::<impl f(32|64)>::(to_bits|from_bits)$")
def _(I, st, a, c):
    x = a[0]
    if c["callee"]["path"].endswith("to_bits"):
        return [(I.float_bits(st, x), st)] if isinstance(x, Sym) else None
    if isinstance(x, Poly) and len(x.m) == 1 and x.c == 0:
        at = Atom.byid[x.m[0][0][0]]
        if at.fn == "tobits" and x.m[0][1] == 1: return [(at.args[0], st)]
    return [(Sym(("frombits", x), c["dty"]), st)]
@rx(r"^core::num::<impl [ui]\w+>::(from_[ln]e_bytes|to_[ln]e_bytes)$|^core::f(32|64)::<impl f(32|64)>::(from_[ln]e_bytes|to_[ln]e_bytes)$")
def _(I, st, a, c):
    p = c["callee"]["path"]
    if "::to_" in p:
        t = c["atys"][0]; sz = I.size_of(t)
        ety = I.T(c["dty"])["elem"]
        if sz == ONE and isinstance(a[0], Poly): return [(Buf(ONE, [(ONE, ("vals", (I.wrap(st, a[0], ety),)))], ety), st)]
        return [(Buf(sz, [(sz, ("le", a[0], sz.c, I.T(t)["s"]))], ety), st)]
    b = a[0]
    if isinstance(b, Buf): return [(I.load_le(st, b, ZERO, c["dty"]), st)]
    return None
@rx(r"precondition_check$|^core::intrinsics::(assume|likely|unlikely|cold_path)$|^core::hint::assert_unchecked$")
def _(I, st, a, c): return [(a[0] if a and I.T(c["dty"])["k"] == "bool" else UNIT, st)]
@model("core::ub_checks::check_language_ub", "core::intrinsics::ub_checks")
def _(I, st, a, c): return [(FALSE, st)]

# ---- arrays from slices
@rx(r"^core::array::<impl core::convert::TryFrom<&(mut )?\[T\]> for (&(mut )?)?\[T; N\]>::try_from$")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    if s is None: return None
    at = I.T(c["dty"])["args"][0]
    ty = I.T(at)
    byref = ty["k"] == "ref"
    if byref: ty = I.T(ty["elem"])
    n = ty["n"]
    if not isinstance(n, int): return None
    cond = beq(s.len - n)
    out = []
    for x in st.assume(cond):
        b = I.get(x, s.place)
        segs = I.cut(x, b, s.off, P(n)) if isinstance(b, Buf) else None
        if segs is None: segs = [(P(n), I.any_desc("arr"))]
        v = Buf(P(n), I.norm_segs(x, segs), ty["elem"])
        if byref: v = Ref(heap(I, x, v))
        out.append((ok(c["dty"], v), x))
    for x in st.assume(bnot(cond)): out.append((err(c["dty"], Sym("TryFromSliceError", I.T(c["dty"])["args"][1])), x))
    return out

# ---- utf8
def const_utf8(I, st, s):
    """whether the known bytes of a slice are UTF-8; None if they are not all known"""
    b = I.get(st, s.place)
    segs = I.cut(st, b, s.off, s.len) if isinstance(b, Buf) else None
    if segs is None: return None
    o = []
    for l, d in I.norm_segs(st, segs):
        v = desc_vals(d, l)
        if v is None or any(not (isinstance(x, Poly) and x.is_const()) for x in v): return None
        o += [x.c & 255 for x in v]
    try: bytes(o).decode("utf8")
    except UnicodeDecodeError: return False
    return True
@model("core::str::converts::from_utf8")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    if s is None: return None
    u = const_utf8(I, st, s)
    if u is True: return [(ok(c["dty"], Slice(s.place, s.off, s.len, True)), st)]
    k = ("app", "utf8", I.termkey(st, s))
    if u is False: return [(err(c["dty"], Sym(("utf8err", k), I.T(c["dty"])["args"][1])), st)]
    out = []
    for x in st.assume(B("at", k, True)): out.append((ok(c["dty"], Slice(s.place, s.off, s.len, True)), x))
    for x in st.assume(B("at", k, False)): out.append((err(c["dty"], Sym(("utf8err", k), I.T(c["dty"])["args"][1])), x))
    return out
@model("core::str::converts::from_utf8_unchecked")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    if s is None: return None
    k = ("app", "utf8", I.termkey(st, s))
    I.oblige(st, "utf8-validated", TRUE if const_utf8(I, st, s) else B("at", k, True), c["sp"], "from_utf8_unchecked")
    return [(Slice(s.place, s.off, s.len, True), st)]

# ---- Vec
@model("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T, A>::new_in")
def _(I, st, a, c): return [(Buf(ZERO, [], I.T(c["dty"])["args"][0]), st)]
@model("alloc::vec::Vec::<T>::with_capacity")
def _(I, st, a, c): return [(Buf(ZERO, [], I.T(c["dty"])["args"][0]), st)]
@rx(r"^<alloc::vec::Vec<T> as core::default::Default>::default$")
def _(I, st, a, c): return [(Buf(ZERO, [], I.T(c["dty"])["args"][0]), st)]
@model("alloc::vec::from_elem")
def _(I, st, a, c):
    if isinstance(a[1], Poly):
        n = a[1]
        return [(Buf(n, I.norm_segs(st, [(n, ("fill", a[0]))]), I.T(c["dty"])["args"][0]), st)]
    return None
@model("alloc::vec::Vec::<T, A>::clear", "smallvec::SmallVec::<A>::clear")
def _(I, st, a, c):
    b = I.get(st, a[0].place) if isinstance(a[0], Ref) else None
    if isinstance(b, Buf):
        I.put(st, a[0].place, Buf(ZERO, [], b.ety)); return [(UNIT, st)]
    return None
@model("alloc::vec::Vec::<T, A>::push", "smallvec::SmallVec::<A>::push")
def _(I, st, a, c):
    b = I.get(st, a[0].place) if isinstance(a[0], Ref) else None
    if isinstance(b, Buf):
        I.put(st, a[0].place, Buf(b.len + 1, I.norm_segs(st, list(b.segs) + [(ONE, ("vals", (a[1],)))]), b.ety)); return [(UNIT, st)]
    return None
@model("alloc::vec::Vec::<T, A>::truncate")
def _(I, st, a, c):
    b = I.get(st, a[0].place) if isinstance(a[0], Ref) else None
    if isinstance(b, Buf) and isinstance(a[1], Poly):
        out = []
        for s in st.assume(bge(b.len - a[1])):
            r = I.cut(s, b, ZERO, a[1])
            I.put(s, a[0].place, Buf(a[1], r if r is not None else [(a[1], I.any_desc("trunc"))], b.ety)); out.append((UNIT, s))
        for s in st.assume(bge(a[1] - b.len - 1)): out.append((UNIT, s))
        return out
    return None
@model("alloc::vec::Vec::<T, A>::resize")
def _(I, st, a, c):
    b = I.get(st, a[0].place) if isinstance(a[0], Ref) else None
    if isinstance(b, Buf) and isinstance(a[1], Poly):
        n = a[1]; out = []
        for s in st.assume(bge(n - b.len)):
            I.put(s, a[0].place, Buf(n, I.norm_segs(s, list(b.segs) + [(n - b.len, ("fill", a[2]))]), b.ety)); out.append((UNIT, s))
        for s in st.assume(bge(b.len - n - 1)):
            r = I.cut(s, b, ZERO, n)
            I.put(s, a[0].place, Buf(n, r if r is not None else [(n, I.any_desc("resize"))], b.ety)); out.append((UNIT, s))
        return out
    return None
@rx(r"^alloc::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)$")
def _(I, st, a, c): return [(UNIT, st)]
@rx(r"^alloc::vec::Vec::<T, A>::extend_from_slice$")
def _(I, st, a, c):
    b = I.get(st, a[0].place) if isinstance(a[0], Ref) else None
    s = as_slice(I, st, a[1])
    if isinstance(b, Buf) and s is not None:
        src = I.get(st, s.place)
        mid = I.cut(st, src, s.off, s.len) if isinstance(src, Buf) else None
        if mid is None: mid = [(s.len, I.any_desc("extend"))]
        I.put(st, a[0].place, Buf(b.len + s.len, I.norm_segs(st, list(b.segs) + mid), b.ety)); return [(UNIT, st)]
    return None
@rx(r"^alloc::slice::<impl \[T\]>::to_vec|ConvertVec>::to_vec$|^<alloc::vec::Vec<T, A> as core::clone::Clone>::clone$|^alloc::slice::<impl alloc::borrow::ToOwned for \[T\]>::to_owned$")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    if s is None: return None
    src = I.get(st, s.place)
    if isinstance(src, Buf):
        mid = I.cut(st, src, s.off, s.len)
        if mid is None: mid = [(s.len, I.any_desc("clone"))]
        return [(Buf(s.len, mid, src.ety), st)]
    return None

# smallvec (used as a plain growable sequence)
@model("smallvec::SmallVec::<A>::with_capacity", "smallvec::SmallVec::<A>::new")
def _(I, st, a, c):
    arr = I.T(I.T(c["dty"])["args"][0])
    return [(Buf(ZERO, [], arr.get("elem", -1)), st)]
@model("smallvec::SmallVec::<A>::set_len")
def _(I, st, a, c):
    b = I.get(st, a[0].place) if isinstance(a[0], Ref) else None
    if isinstance(b, Buf):
        n = a[1]
        d = fresh("uninit", imprecise=False)
        segs = list(b.segs)
        if st.proves_ge(n - b.len): segs.append((n - b.len, ("orig", ("uninit", d.name), ZERO)))
        else: segs = [(n, ("orig", ("uninit", d.name), ZERO))]
        I.put(st, a[0].place, Buf(n, I.norm_segs(st, segs), b.ety)); return [(UNIT, st)]
    return None
@rx(r"^smallvec::SmallVec::<A>::len$")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    return [(s.len, st)] if s else None

# ---- slice iterators: Agg('iter', slice-place.., pos, end)
def mkiter(s, dty): return Agg("sliceiter", 0, (Slice(s.place, s.off, s.len), ZERO, s.len), dty)
@rx(r"^core::slice::<impl \[T\]>::iter(_mut)?$|^core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a (mut )?\[T\]>::into_iter$|^<&'a (mut )?alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter$|^core::array::<impl core::iter::traits::collect::IntoIterator for &'a \[T; N\]>::into_iter$|^<&'a smallvec::SmallVec<A> as core::iter::traits::collect::IntoIterator>::into_iter$")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    return [(mkiter(s, c["dty"]), st)] if s else None

def iter_at(I, st, a):
    if isinstance(a, Ref):
        v = I.get(st, a.place)
        if isinstance(v, Agg) and v.kind == "sliceiter": return v
    return None
@rx(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::iterator::Iterator>::next$|^core::slice::iter::.*Iterator.*::next$")
def _(I, st, a, c):
    it = iter_at(I, st, a[0])
    if it is None: return None
    s, pos, end = it.fields
    out = []
    for x in st.assume(bge(end - pos - 1)):
        I.put(x, a[0].place, Agg("sliceiter", 0, (s, pos + 1, end), it.ty))
        out.append((some(c["dty"], Ref((s.place[0], s.place[1] + (("e", s.off + pos),)))), x))
    for x in st.assume(bge(pos - end)): out.append((none(c["dty"]), x))
    return out
@rx(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back$")
def _(I, st, a, c):
    it = iter_at(I, st, a[0])
    if it is None: return None
    s, pos, end = it.fields
    out = []
    for x in st.assume(bge(end - pos - 1)):
        I.put(x, a[0].place, Agg("sliceiter", 0, (s, pos, end - 1), it.ty))
        out.append((some(c["dty"], Ref((s.place[0], s.place[1] + (("e", s.off + end - 1),)))), x))
    for x in st.assume(bge(pos - end)): out.append((none(c["dty"]), x))
    return out
@rx(r"^<core::slice::iter::Iter(Mut)?<'[a_]+, T> as core::iter::traits::exact_size::ExactSizeIterator>::len$")
def _(I, st, a, c):
    it = iter_at(I, st, a[0])
    if it is None: return None
    s, pos, end = it.fields
    return [(end - pos, st)]
@rx(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::iterator::Iterator>::size_hint$")
def _(I, st, a, c): 
    it = iter_at(I, st, a[0])
    if it is None: return None
    s, pos, end = it.fields
    ot = I.T(c["dty"])["elems"][1]
    return [(Agg("tuple", 0, (end - pos, some(ot, end - pos)), c["dty"]), st)]
@rx(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::iterator::Iterator>::fold$")
def _(I, st, a, c):
    """for_each element: interpreted as the equivalent loop, by partial unrolling or havoc"""
    it = a[0]
    if not (isinstance(it, Agg) and it.kind == "sliceiter"): return None
    s, pos, end = it.fields
    outs = []
    work = [(a[1], pos, st, 0)]
    while work:
        acc, p, x, n = work.pop()
        for y in x.assume(bge(p - end)): outs.append((acc, y if y is not x else x.copy()))
        more = x.assume(bge(end - p - 1))
        for y in more:
            if n >= (6 if not (end - p).is_const() else 300):
                outs.append((I.havoc(y, c["dty"], "fold"), y)); continue
            e = Ref((s.place[0], s.place[1] + (("e", s.off + p),)))
            y = y.copy()
            f = heap(I, y, a[2])
            r = I.call_value(y, Ref(f), Agg("tuple", 0, (acc, e)), c["dty"], c["sp"])
            if r is None: return None
            for v, z in r: work.append((v, p + 1, z, n + 1))
    return outs
@rx(r"^<core::slice::iter::Iter<'a, T> as core::clone::Clone>::clone$")
def _(I, st, a, c):
    it = iter_at(I, st, a[0])
    return [(it, st)] if it else None

# ---- panics
@rx(r"^core::panicking::|^std::panicking::begin_panic|^core::option::(expect_failed|unwrap_failed)|^core::result::unwrap_failed|slice_index_fail|^core::str::slice_error_fail|^alloc::raw_vec::(capacity_overflow|handle_error)|^std::process::(exit|abort)")
def _(I, st, a, c):
    p = c["callee"].get("path") or c["callee"].get("orig")
    if p.endswith("_default_msg"): return None
    msg = ""
    for x in a:
        if isinstance(x, Str): msg = x.s; break
    I.panic(st, "panic", msg or p, c["sp"])
    return []

# ---- formatting: opaque
@rx(r"^core::fmt::")
def _(I, st, a, c):
    if I.T(c["dty"])["k"] == "adt" and "Result" in I.T(c["dty"])["s"]: return None
    return [(Sym(("fmt",) + tuple(I.termkey(st, x) for x in a), c["dty"]), st)]

@model("core::mem::swap")
def _(I, st, a, c):
    if isinstance(a[0], Ref) and isinstance(a[1], Ref):
        x, y = I.get(st, a[0].place), I.get(st, a[1].place)
        I.put(st, a[0].place, y); I.put(st, a[1].place, x); return [(UNIT, st)]
    return None
@model("core::mem::replace")
def _(I, st, a, c):
    if isinstance(a[0], Ref):
        x = I.get(st, a[0].place); I.put(st, a[0].place, a[1]); return [(x, st)]
    return None
@model("core::intrinsics::discriminant_value", "core::mem::discriminant")
def _(I, st, a, c):
    v = deref(I, st, a[0])
    out = []
    for v2, s, vi in I.split_variants(st, v):
        if vi is None: return None
        d = vi
        if v2 is not None and v2.ty is not None and I.T(v2.ty).get("discrs"): d = int(I.T(v2.ty)["discrs"][vi])
        out.append((P(d), s))
    return out
@rx(r"^core::clone::impls::<impl core::clone::Clone for .*>::clone$")
def _(I, st, a, c):
    if isinstance(a[0], Ref): return [(I.get(st, a[0].place), st)]
    return [(a[0], st)]
@rx(r"^core::convert::num::<impl core::convert::From<\w+> for \w+>::from$|^core::convert::num::<impl core::convert::TryFrom<")
def _(I, st, a, c):
    p = c["callee"]["path"]
    if "TryFrom" in p and isinstance(a[0], Poly):
        t = I.T(c["dty"])["args"][0]
        lo, hi = I.int_range(t)
        cond = band(bge(a[0] - lo), bge(P(hi) - a[0]))
        out = [(ok(c["dty"], a[0]), s) for s in st.assume(cond)]
        out += [(err(c["dty"], Sym("TryFromIntError", I.T(c["dty"])["args"][1])), s) for s in st.assume(bnot(cond))]
        return out
    if isinstance(a[0], Poly): return [(a[0], st)]
    if isinstance(a[0], B) and I.T(c["dty"])["k"] == "int":
        if a[0].k == "c": return [(ONE if a[0].a[0] else ZERO, st)]
        return [(P(atom(("boolint", a[0]), "int%r" % a[0], 0, 1, "boolint", (a[0],))), st)]
    return None

# ---- specification markers of the harness crate
@rx(r"(^|::)spec_require$")
def _(I, st, a, c):
    cond = a[0] if isinstance(a[0], B) else FALSE
    msg = a[1].s if len(a) > 1 and isinstance(a[1], Str) else ""
    I.oblige(st, "require", cond, c["sp"], msg)
    return [(UNIT, x) for x in st.assume(cond)] or [(UNIT, st)] if False else [(UNIT, st)]
@rx(r"(^|::)spec_assume$")
def _(I, st, a, c):
    if isinstance(a[0], B): return [(UNIT, x) for x in st.assume(a[0])]
    return [(UNIT, st)]

@rx(r"(^|::)spec_zeroed$")
def _(I, st, a, c):
    """is every byte of the slice zero?"""
    s = as_slice(I, st, a[0])
    if s is None: return None
    return [zeroed(I, x, s) for x in I.decide(st, s.place, s.off, s.off + s.len)]

def zeroed(I, st, s):
    b = I.get(st, s.place)
    sg = I.cut(st, b, s.off, s.len) if isinstance(b, Buf) else None
    if sg is None: return (B("at", ("any", fresh("zeroed", imprecise=True).name), True), st)
    conds = []
    for l, d in I.norm_segs(st, sg):
        if d[0] == "fill" and isinstance(d[1], Poly): conds.append(beq(d[1]))
        elif d[0] == "vals" and all(isinstance(x, Poly) for x in d[1]): conds += [beq(x) for x in d[1]]
        elif d[0] == "le" and isinstance(d[1], Poly): conds.append(beq(mod_(d[1], 256 ** d[2])))
        else: conds.append(bor(beq(l), B("at", ("app", "zeroed", l, I.dkey(st, d, 0)), True)))
    return (band(*conds), st)

# ---- more of the slice, string and integer methods
def copies(states): return [s.copy() for s in states]
def only_orig(I, st, s):
    """is nothing known about the contents of the slice?"""
    b = I.get(st, s.place)
    sg = I.cut(st, b, s.off, s.len) if isinstance(b, Buf) else None
    return sg is not None and all(d[0] == "orig" and not deep_any(d[1]) for _, d in sg)
def const_bytes(I, st, s):
    if not s.len.is_const() or s.len.c > 4096: return None
    b = I.get(st, s.place)
    sg = I.cut(st, b, s.off, s.len) if isinstance(b, Buf) else None
    if sg is None: return None
    out = []
    for l, d in sg:
        v = desc_vals(d, l)
        if v is None or not all(isinstance(x, Poly) and x.is_const() for x in v): return None
        out += [x.c for x in v]
    return bytes(out)
@rx(r"^core::slice::<impl \[T\]>::(starts_with|ends_with)$")
def _(I, st, a, c):
    s, t = as_slice(I, st, a[0]), as_slice(I, st, a[1])
    if s is None or t is None: return None
    out = []
    for x in st.assume(bge(t.len - s.len - 1)): out.append((FALSE, x))
    for x in st.assume(bge(s.len - t.len)):
        u = Slice(s.place, s.off if c["callee"]["path"].endswith("starts_with") else s.off + s.len - t.len, t.len)
        r = seq_eq(I, x, u, t, c)
        if r is None: return None
        out += r
    return out
@rx(r"^core::slice::ascii::<impl \[u8\]>::eq_ignore_ascii_case$|^core::str::<impl str>::eq_ignore_ascii_case$")
def _(I, st, a, c):
    s, t = as_slice(I, st, a[0]), as_slice(I, st, a[1])
    if s is None or t is None: return None
    out = []
    for v, x in seq_eq(I, st, Slice(s.place, s.off, s.len), Slice(t.place, t.off, t.len), c) or []:
        if v is TRUE or (v.k == "c" and v.a[0]): out.append((v, x)); continue
        if x.may_ge(s.len - t.len) and x.may_ge(t.len - s.len):
            ca, cb = const_bytes(I, x, s), const_bytes(I, x, t)
            if ca is not None and cb is not None: out.append((TRUE if ca.lower() == cb.lower() else FALSE, x)); continue
            pre = () if only_orig(I, x, s) or only_orig(I, x, t) else ("any",)
            k = ("app", "eqcase") + pre + (I.termkey(x, s), I.termkey(x, t))
            if pre: k = ("any",) + k
            for y in x.assume(B("at", k, True)):
                for z in y.assume(beq(s.len - t.len)):
                    for w in z.assume(bge(s.len - 1)): out.append((TRUE, w))
            for y in x.assume(B("at", k, False)): out.append((FALSE, y))
        else: out.append((FALSE, x))
    return out or None
@rx(r"^core::str::<impl str>::(trim|trim_start|trim_end|trim_left|trim_right)$|^core::str::<impl str>::trim_(start_|end_|)matches$|^core::slice::ascii::<impl \[u8\]>::trim_ascii(_start|_end)?$")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    if s is None: return None
    p = c["callee"]["path"].rsplit("::", 1)[1]
    left, right = not re.search("end|right", p), not re.search("start|left", p)
    cb = const_bytes(I, st, s)
    if cb is not None and "matches" not in p:
        try: t = cb.decode()
        except UnicodeDecodeError: return None
        n0 = len(t) - len(t.lstrip()) if left else 0
        u = t.strip() if left and right else t.lstrip() if left else t.rstrip()
        off = len(t[:n0].encode()) if u else 0
        return [(Slice(s.place, s.off + off, P(len(u.encode())), s.str), st)]
    ok_ = only_orig(I, st, s)
    out = []
    n = P(fresh("trimmed", 0, None, imprecise=not ok_)); o = P(fresh("trimmed_from", 0, None, imprecise=not ok_)) if left else ZERO
    if not right: n = s.len - o
    y = st.copy()
    if not ok_: y.joined = True
    out.append((Slice(s.place, s.off, s.len, s.str), y))
    for x in st.assume(band(bge(n), bge(o), bge(s.len - n - o), bge(s.len - n - 1))): out.append((Slice(s.place, s.off + o, n, s.str), x))
    return out
@rx(r"^core::slice::<impl \[T\]>::(first|last|first_mut|last_mut)$")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    if s is None: return None
    i = s.off if "first" in c["callee"]["path"].rsplit("::", 1)[1] else s.off + s.len - 1
    return [(some(c["dty"], Ref((s.place[0], s.place[1] + (("e", i),)))), x) for x in st.assume(bge(s.len - 1))] + [(none(c["dty"]), x) for x in st.assume(beq(s.len))]
@rx(r"^core::slice::<impl \[T\]>::(split_first|split_last)$")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    if s is None: return None
    f = c["callee"]["path"].endswith("first")
    tt = I.T(c["dty"])["args"][0]
    v = Agg("tuple", 0, (Ref((s.place[0], s.place[1] + (("e", s.off if f else s.off + s.len - 1),))), Slice(s.place, s.off + 1 if f else s.off, s.len - 1)), tt)
    return [(some(c["dty"], v), x) for x in st.assume(bge(s.len - 1))] + [(none(c["dty"]), x) for x in st.assume(beq(s.len))]
def elements(I, st, s):
    """the element values of a slice of constant length"""
    b = I.get(st, s.place)
    if not isinstance(b, Buf) or not s.len.is_const() or s.len.c > 512: return None
    sg = I.cut(st, b, s.off, s.len)
    if sg is None: return None
    out = []
    for l, d in sg:
        if not l.is_const(): return None
        out += [I.desc_elem(st, l, d, P(i), b.ety) for i in range(l.c)]
    return out
@rx(r"^core::slice::<impl \[T\]>::contains$")
def _(I, st, a, c):
    s = as_slice(I, st, a[0]); v = deref(I, st, a[1])
    if s is None or not isinstance(v, Poly): return None
    return exists(I, st, s, c, lambda y, e: [(beq(e - v), y)] if isinstance(e, Poly) else None, lambda i: TRUE, FALSE)
def exists(I, st, s, c, pred, found, absent, back=False):
    """outcome of a search for the first element which satisfies pred; found(index)"""
    es = elements(I, st, s)
    out = []
    if es is not None and len(es) <= 64:
        cur = [st]
        for i in (range(len(es) - 1, -1, -1) if back else range(len(es))):
            nxt = []
            for x in cur:
                r = pred(x, es[i])
                if r is None: return None
                for v, y in r:
                    if not isinstance(v, B): return None
                    out += [(found(P(i)), z) for z in copies(y.assume(v))]
                    nxt += copies(y.assume(bnot(v)))
            cur = nxt
            if len(cur) > 64 or len(out) > 200: raise Limit("search")
        return out + [(absent, x) for x in cur]
    # some element satisfies it (any one may be the first), or none does, of which nothing more is known
    b = I.get(st, s.place)
    if not isinstance(b, Buf): return None
    i = P(fresh("index", 0, None, imprecise=True if s.len.is_const() and es is None and False else False))
    for x in st.assume(band(bge(i), bge(s.len - i - 1))):
        for x2 in I.decide(x, s.place, s.off + i, s.off + i + 1):
            bb = I.get(x2, s.place)
            e = I.buf_get(x2, bb, s.off + i)
            r = pred(x2, e)
            if r is None: return None
            for v, y in r:
                if not isinstance(v, B): return None
                out += [(found(i), z) for z in copies(y.assume(v))]
    y = st.copy(); y.joined = True
    out.append((absent, y))
    return out
@rx(r"^<core::slice::iter::Iter(Mut)?<'[a_]+, T> as core::iter::traits::iterator::Iterator>::(any|all|position)$|^<core::slice::iter::Iter(Mut)?<'[a_]+, T> as core::iter::traits::iterator::Iterator>::rposition$")
def _(I, st, a, c):
    it = iter_at(I, st, a[0])
    if it is None: return None
    s, pos, end = it.fields
    m = c["callee"]["path"].rsplit("::", 1)[1]
    u = Slice(s.place, s.off + pos, end - pos)
    root = heap(I, st, a[1])
    bt = I.T(c["dty"])
    def pred(y, e):
        h = heap(I, y, e)
        r = I.call_value(y, Ref(root), Agg("tuple", 0, (Ref(h),)), I.p.ty_by_s.get("bool", -1), c["sp"])
        if r is None: return None
        return [(bnot(v) if m == "all" else v, z) for v, z in r] if all(isinstance(v, B) for v, _ in r) else None
    I.put(st, a[0].place, Agg("sliceiter", 0, (s, end, end), it.ty))
    if m == "any": f, ab = (lambda i: TRUE), FALSE
    elif m == "all": f, ab = (lambda i: FALSE), TRUE
    else: f, ab = (lambda i: some(c["dty"], i)), none(c["dty"])
    return exists(I, st, u, c, pred, f, ab, m == "rposition")
@rx(r"^core::cmp::Ord::(max|min)$|^core::cmp::(max|min)$")
def _(I, st, a, c):
    if isinstance(a[0], Poly) and isinstance(a[1], Poly):
        return minmax(I, st, a[0], a[1], c["callee"]["path"].endswith("max"))
    return None
@rx(r"^core::cmp::Ord::clamp$|^core::cmp::impls::<impl core::cmp::Ord for (u|i)\w*>::clamp$")
def _(I, st, a, c):
    if not all(isinstance(x, Poly) for x in a): return None
    x, lo, hi = a; out = []
    for s in st.assume(bge(lo - x - 1)): out.append((lo, s))
    for s in st.assume(bge(x - hi - 1)): out.append((hi, s))
    for s in st.assume(band(bge(x - lo), bge(hi - x))): out.append((x, s))
    return out
@rx(r"^core::f(32|64)::<impl f(32|64)>::(is_nan|is_infinite|is_finite|is_sign_negative|is_sign_positive|abs|is_normal|is_subnormal)$")
def _(I, st, a, c):
    x = a[0]
    if not isinstance(x, Sym): return None
    n = I.T(x.ty)["bits"] if "bits" in I.T(x.ty) else (64 if "f64" in c["callee"]["path"] else 32)
    sign = 1 << (n - 1); inf = 0x7ff0000000000000 if n == 64 else 0x7f800000; mn = 1 << (52 if n == 64 else 23)
    b = I.float_bits(st, x); m = mod_(b, sign)
    k = c["callee"]["path"].rsplit("::", 1)[1]
    if k == "is_nan": return [(bge(m - inf - 1), st)]
    if k == "is_infinite": return [(beq(m - inf), st)]
    if k == "is_finite": return [(bge(P(inf) - m - 1), st)]
    if k == "is_normal": return [(band(bge(m - mn), bge(P(inf) - m - 1)), st)]
    if k == "is_subnormal": return [(band(bge(m - 1), bge(P(mn) - m - 1)), st)]
    if k == "is_sign_negative": return [(bge(b - sign), st)]
    if k == "is_sign_positive": return [(bge(P(sign) - b - 1), st)]
    return [(Sym(("frombits", m), c["dty"]), st)]
@rx(r"^core::num::<impl [ui]\w+>::(\w+)$")
def _(I, st, a, c):
    """the remaining integer methods"""
    m = c["callee"]["path"].rsplit("::", 1)[1]
    if not a or not all(isinstance(x, Poly) for x in a): return None
    t = c["atys"][0] if c.get("atys") else None
    if t is None: return None
    if I.T(t)["k"] != "int": return None
    lo, hi = I.int_range(t); bits = (hi - lo + 1).bit_length() - 1
    x = a[0]
    if m == "abs_diff":
        y = a[1]
        return [(x - y, s) for s in st.assume(bge(x - y))] + [(y - x, s) for s in st.assume(bge(y - x - 1))]
    if m == "unsigned_abs" or m == "wrapping_abs":
        return [(x, s) for s in st.assume(bge(x))] + [(I.wrap(s, -x, c["dty"]), s) for s in st.assume(bge(-x - 1))]
    if lo == 0 and len(a) == 2 and a[1].is_const() and a[1].c > 0:
        k = a[1].c
        if m == "next_multiple_of": 
            r = div_(x + (k - 1), k) * k
            if st.proves_ge(P(hi) - r): return [(r, st)]
            return None
        if m == "div_ceil": return [(div_(x + (k - 1), k), st)]
        if m in ("wrapping_div", "div_euclid"): return [(div_(x, k), st)]
        if m in ("wrapping_rem", "rem_euclid"): return [(mod_(x, k), st)]
        if m == "checked_div": return [(some(c["dty"], div_(x, k)), st)]
        if m == "checked_rem": return [(some(c["dty"], mod_(x, k)), st)]
        if m == "is_multiple_of": return [(beq(mod_(x, k)), st)]
    if not all(v.is_const() for v in a):
        if m == "is_power_of_two" and lo == 0:
            hits = [P(1 << i) for i in range(bits)]
            return None if not isinstance(x, Poly) else [(bor(*[beq(x - h) for h in hits]), st)] if bits <= 16 else None
        return None
    v = [y.c for y in a]; u = v[0] & (hi - lo)
    def val(r): return [(P(r), st)] if I.T(c["dty"])["k"] == "int" else None
    def wrapc(r):
        r &= (1 << bits) - 1
        return r - (1 << bits) if lo < 0 and r > hi else r
    if m == "count_ones": return val(bin(u).count("1"))
    if m == "count_zeros": return val(bits - bin(u).count("1"))
    if m == "leading_zeros": return val(bits - u.bit_length())
    if m == "trailing_zeros": return val((u & -u).bit_length() - 1 if u else bits)
    if m == "is_power_of_two": return [(TRUE if u and not u & (u - 1) else FALSE, st)]
    if m == "next_power_of_two":
        r = 1 << max(0, v[0] - 1).bit_length()
        return val(r) if r <= hi else None
    if m == "checked_next_power_of_two":
        r = 1 << max(0, v[0] - 1).bit_length()
        return [(some(c["dty"], P(r)) if r <= hi else none(c["dty"]), st)]
    if m == "swap_bytes": return val(wrapc(int.from_bytes(u.to_bytes(bits // 8, "little"), "big")))
    if m == "reverse_bits": return val(wrapc(int(bin(u)[2:].zfill(bits)[::-1], 2)))
    if m == "rotate_left": k = v[1] % bits; return val(wrapc((u << k) | (u >> (bits - k)))) if k else val(v[0])
    if m == "rotate_right": k = v[1] % bits; return val(wrapc((u >> k) | (u << (bits - k)))) if k else val(v[0])
    if m == "pow":
        r = v[0] ** min(v[1], 200)
        return val(r) if lo <= r <= hi else None
    if m in ("ilog2", "ilog10") and v[0] > 0: return val(v[0].bit_length() - 1 if m == "ilog2" else len(str(v[0])) - 1)
    if m == "signum": return val((v[0] > 0) - (v[0] < 0))
    if m == "abs" and v[0] > lo: return val(abs(v[0]))
    if m == "checked_shl": return [(some(c["dty"], P(wrapc(u << v[1]))) if v[1] < bits else none(c["dty"]), st)]
    if m == "checked_shr": return [(some(c["dty"], P(v[0] >> v[1])) if v[1] < bits else none(c["dty"]), st)]
    if m == "wrapping_shl": return val(wrapc(u << (v[1] % bits)))
    if m == "wrapping_shr": return val(v[0] >> (v[1] % bits))
    return None
# ---- sequences whose length is known
def seq_at(I, st, a):
    """(put, elements) of a Vec, SmallVec or slice of constant length"""
    if isinstance(a, Ref):
        b = I.get(st, a.place)
        if isinstance(b, Buf):
            es = elements(I, st, Slice(a.place, ZERO, b.len))
            if es is not None: return (lambda xs, s=st: I.put(s, a.place, Buf(P(len(xs)), I.norm_segs(s, [(P(len(xs)), ("vals", tuple(xs)))] if xs else []), b.ety))), es
    return None, None
SEQ = r"^(alloc::vec::Vec::<T, A>|smallvec::SmallVec::<A>)::"
@rx(SEQ + r"(pop|insert|remove|swap_remove|truncate)$")
def _(I, st, a, c):
    m = c["callee"]["path"].rsplit("::", 1)[1]
    if m == "pop":
        b = I.get(st, a[0].place) if isinstance(a[0], Ref) else None
        if not isinstance(b, Buf): return None
        out = []
        for x in st.assume(beq(b.len)): out.append((none(c["dty"]), x))
        for x in st.assume(bge(b.len - 1)):
            x = x.copy(); e = I.buf_get(x, b, b.len - 1)
            r = I.cut(x, b, ZERO, b.len - 1)
            I.put(x, a[0].place, Buf(b.len - 1, r if r is not None else [(b.len - 1, I.any_desc("pop"))], b.ety))
            out.append((some(c["dty"], e), x))
        return out
    put, es = seq_at(I, st, a[0])
    if es is None or not isinstance(a[1], Poly) or not a[1].is_const(): return None
    i = a[1].c; es = list(es)
    if m == "truncate": put(es[:i]); return [(UNIT, st)]
    if i > len(es) or (i == len(es) and m != "insert"):
        I.panic(st, "index", "%s index %d of %d" % (m, i, len(es)), c["sp"], TRUE); return []
    if m == "insert": put(es[:i] + [a[2]] + es[i:]); return [(UNIT, st)]
    v = es[i]
    if m == "swap_remove": es[i] = es[-1]; es.pop()
    else: es.pop(i)
    put(es)
    return [(v, st)]
@rx(r"^core::slice::<impl \[T\]>::(reverse|swap|rotate_left|rotate_right)$")
def _(I, st, a, c):
    s = as_slice(I, st, a[0])
    if s is None: return None
    m = c["callee"]["path"].rsplit("::", 1)[1]
    b = I.get(st, s.place)
    if m == "swap" and isinstance(b, Buf) and isinstance(a[1], Poly) and isinstance(a[2], Poly):
        for k in (a[1], a[2]):
            ok_ = band(bge(k), bge(s.len - k - 1))
            for x in (st.assume(bnot(ok_)) if not st.proves(ok_) else []): I.panic(x, "index", "index out of bounds", c["sp"], bnot(ok_))
        out = []
        for x in st.assume(band(bge(a[1]), bge(s.len - a[1] - 1), bge(a[2]), bge(s.len - a[2] - 1))):
            x = x.copy(); u, v = I.buf_get(x, b, s.off + a[1]), I.buf_get(x, b, s.off + a[2])
            I.put(x, s.place, I.buf_set(x, I.buf_set(x, b, s.off + a[1], v), s.off + a[2], u)); out.append((UNIT, x))
        return out
    es = elements(I, st, s)
    if es is None or m == "swap": return None
    if m == "reverse": es = es[::-1]
    else:
        if not isinstance(a[1], Poly) or not a[1].is_const() or a[1].c > len(es): return None
        k = a[1].c if m == "rotate_left" else len(es) - a[1].c
        es = es[k:] + es[:k]
    r = I.replace(st, b, s.off, s.len, [(s.len, ("vals", tuple(es)))] if es else [])
    if r is None: return None
    I.put(st, s.place, r)
    return [(UNIT, st)]

M["__rx__"] = RX
