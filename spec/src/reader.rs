use crate::{spec_assume as assume, spec_require as require};
use butte::*;
use std::convert::TryInto;

/// Locations a reader can get to: inside any allocation, plus one 32-bit offset.
pub const MAX_LOC: usize = (isize::MAX as usize) + (1 << 36);

pub fn le16(b: &[u8], at: usize) -> u16 { u16::from_le_bytes(b[at..at + 2].try_into().unwrap()) }
pub fn le32(b: &[u8], at: usize) -> u32 { u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) }
pub fn le64(b: &[u8], at: usize) -> u64 { u64::from_le_bytes(b[at..at + 8].try_into().unwrap()) }
pub fn fits(b: &[u8], at: usize, n: usize) -> bool { at <= b.len() && n <= b.len() - at }

/// A `Follow` type that reports where it was asked to read.
pub struct At<T>(T);
impl<'a, T> Follow<'a> for At<T> {
    type Inner = (&'a [u8], usize);
    fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> { Ok((buf, loc)) }
}
pub struct AtBuf;
impl FollowBuf for AtBuf {
    type Buf = Vec<u8>;
    type Inner = (Vec<u8>, usize);
    fn follow_buf(buf: Vec<u8>, loc: usize) -> Result<Self::Inner, Error> { Ok((buf, loc)) }
}

macro_rules! scalars { ($m:ident) => {
    $m!(u8, u8, 1, r_u8, s_u8); $m!(i8, u8, 1, r_i8, s_i8);
    $m!(u16, u16, 2, r_u16, s_u16); $m!(i16, u16, 2, r_i16, s_i16);
    $m!(u32, u32, 4, r_u32, s_u32); $m!(i32, u32, 4, r_i32, s_i32);
    $m!(u64, u64, 8, r_u64, s_u64); $m!(i64, u64, 8, r_i64, s_i64);
} }

// ---- scalars -------------------------------------------------------------
macro_rules! scalar_read { ($t:ident, $u:ident, $n:expr, $r:ident, $s:ident) => {
    pub fn $r(buf: &[u8], loc: usize) {
        assume(loc <= MAX_LOC);
        let got = <$t as Follow>::follow(buf, loc);
        if fits(buf, loc, $n) {
            let want = $t::from_le_bytes(buf[loc..loc + $n].try_into().unwrap());
            require(got == Ok(want), concat!("Follow for ", stringify!($t), " yields the little-endian value at loc"));
            require(read_scalar_at::<$t>(buf, loc) == Ok(want), concat!("read_scalar_at::<", stringify!($t), ">"));
            require(read_scalar::<$t>(&buf[loc..]) == Ok(want), concat!("read_scalar::<", stringify!($t), ">"));
        } else {
            require(got == Err(Error::OutOfBounds), concat!("Follow for ", stringify!($t), " rejects short buffers"));
            require(read_scalar_at::<$t>(buf, loc) == Err(Error::OutOfBounds), "read_scalar_at rejects short buffers");
        }
        if buf.len() < $n { require(read_scalar::<$t>(buf) == Err(Error::OutOfBounds), "read_scalar rejects short buffers"); }
    }
} }
scalars!(scalar_read);

pub fn r_bool(buf: &[u8], loc: usize) {
    assume(loc <= MAX_LOC);
    let got = <bool as Follow>::follow(buf, loc);
    if fits(buf, loc, 1) { require(got == Ok(buf[loc] != 0), "Follow for bool: any non-zero byte is true"); }
    else { require(got == Err(Error::OutOfBounds), "Follow for bool rejects short buffers"); }
}
pub fn r_f32(buf: &[u8], loc: usize) {
    assume(loc <= MAX_LOC);
    match <f32 as Follow>::follow(buf, loc) {
        Ok(v) => { require(fits(buf, loc, 4), "f32 in bounds"); require(v.to_bits() == le32(buf, loc), "f32 bits"); }
        Err(e) => { require(e == Error::OutOfBounds, "f32 error"); require(!fits(buf, loc, 4), "f32 rejected only when short"); }
    }
}
pub fn r_f64(buf: &[u8], loc: usize) {
    assume(loc <= MAX_LOC);
    match <f64 as Follow>::follow(buf, loc) {
        Ok(v) => { require(fits(buf, loc, 8), "f64 in bounds"); require(v.to_bits() == le64(buf, loc), "f64 bits"); }
        Err(e) => { require(e == Error::OutOfBounds, "f64 error"); require(!fits(buf, loc, 8), "f64 rejected only when short"); }
    }
}

// ---- strings -------------------------------------------------------------
pub fn string(buf: &[u8], loc: usize) {
    assume(loc <= MAX_LOC);
    let got = <&str as Follow>::follow(buf, loc);
    if !fits(buf, loc, 4) {
        require(matches!(got, Err(Error::OutOfBounds)), "a string whose length is out of the buffer is OutOfBounds");
        return;
    }
    let n = le32(buf, loc) as usize;
    if !fits(buf, loc + 4, n + 1) {
        require(matches!(got, Err(Error::OutOfBounds)), "a string that does not fit with its terminator is OutOfBounds");
        return;
    }
    if buf[loc + 4 + n] != 0 {
        require(matches!(got, Err(Error::NonNullTerminatedString)), "a string without terminator is rejected");
        return;
    }
    let bytes = &buf[loc + 4..loc + 4 + n];
    match std::str::from_utf8(bytes) {
        Err(_) => require(matches!(got, Err(Error::NonUtf8String)), "invalid UTF-8 is rejected"),
        Ok(want) => match got {
            Ok(s) => {
                require(s.len() == n, "the string has the stored length");
                require(s.as_ptr() == bytes.as_ptr(), "the string is the stored bytes");
            }
            Err(_) => require(false, "a well formed string is accepted"),
        },
    }
}

// ---- offsets -------------------------------------------------------------
pub fn forwards(buf: &[u8], loc: usize) {
    assume(loc <= MAX_LOC);
    let got = <ForwardsUOffset<At<u8>> as Follow>::follow(buf, loc);
    match got {
        Ok((b, at)) => {
            require(fits(buf, loc, 4), "an offset is read only in bounds");
            require(at == loc + le32(buf, loc) as usize, "ForwardsUOffset leads to loc + offset");
            require(b.len() == buf.len() && b.as_ptr() == buf.as_ptr(), "the same buffer is passed on");
        }
        Err(e) => { require(e == Error::OutOfBounds, "offset error"); require(!fits(buf, loc, 4), "an offset in bounds is followed"); }
    }
}
pub fn forwards_v(buf: &[u8], loc: usize) {
    assume(loc <= MAX_LOC);
    match <ForwardsVOffset<At<u8>> as Follow>::follow(buf, loc) {
        Ok((b, at)) => {
            require(fits(buf, loc, 2), "an offset is read only in bounds");
            require(at == loc + le16(buf, loc) as usize, "ForwardsVOffset leads to loc + offset");
            require(b.len() == buf.len() && b.as_ptr() == buf.as_ptr(), "the same buffer is passed on");
        }
        Err(e) => { require(e == Error::OutOfBounds, "offset error"); require(!fits(buf, loc, 2), "an offset in bounds is followed"); }
    }
}
pub fn backwards(buf: &[u8], loc: usize) {
    assume(loc <= MAX_LOC);
    let got = <BackwardsSOffset<At<u8>> as Follow>::follow(buf, loc);
    if !fits(buf, loc, 4) { require(matches!(got, Err(Error::OutOfBounds)), "soffset out of the buffer"); return; }
    let off = i32::from_le_bytes(buf[loc..loc + 4].try_into().unwrap()) as i64;
    let target = loc as i64 - off;
    match got {
        Ok((b, at)) => {
            require(target >= 0 && at as i64 == target, "BackwardsSOffset leads to loc - offset");
            require(b.len() == buf.len() && b.as_ptr() == buf.as_ptr(), "the same buffer is passed on");
        }
        Err(e) => { require(e == Error::OutOfBounds, "soffset error"); require(target < 0, "an soffset inside the address space is followed"); }
    }
}
pub fn skips(buf: &[u8], loc: usize) {
    assume(loc <= MAX_LOC);
    require(matches!(<SkipSizePrefix<At<u8>> as Follow>::follow(buf, loc), Ok((_, at)) if at == loc + 4), "SkipSizePrefix skips 4 bytes");
    require(matches!(<SkipRootOffset<At<u8>> as Follow>::follow(buf, loc), Ok((_, at)) if at == loc + 4), "SkipRootOffset skips 4 bytes");
    require(matches!(<SkipFileIdentifier<At<u8>> as Follow>::follow(buf, loc), Ok((_, at)) if at == loc + 4), "SkipFileIdentifier skips 4 bytes");
    require(matches!(<FollowStart<At<u8>> as Follow>::follow(buf, loc), Ok((_, at)) if at == loc), "FollowStart stays");
}

// ---- vectors -------------------------------------------------------------
macro_rules! vector_geometry { ($t:ident, $u:ident, $n:expr, $r:ident, $s:ident) => { pub mod $r {
    use super::*;
    type V<'a> = Vector<'a, At<$t>>;
    fn at(r: Result<(&[u8], usize), Error>) -> usize { match r { Ok((_, l)) => l, Err(_) => 1 } }
    pub fn vec_len(buf: &[u8], loc: usize) {
        assume(loc <= MAX_LOC);
        let v = V::new(buf, loc);
        if fits(buf, loc, 4) {
            let n = le32(buf, loc) as usize;
            require(v.len() == Ok(n), "Vector::len is the stored element count");
            require(v.is_empty() == Ok(n == 0), "Vector::is_empty");
            require(v.iter().len() == n, "the iterator has one step per element");
            require(v.iter().size_hint() == (n, Some(n)), "size_hint is exact");
            require(v.into_iter().len() == n, "into_iter has one step per element");
            require((&v).into_iter().len() == n, "into_iter of a reference has one step per element");
        } else {
            require(v.len() == Err(Error::OutOfBounds), "Vector::len out of the buffer");
            require(v.is_empty() == Err(Error::OutOfBounds), "Vector::is_empty out of the buffer");
            require(v.iter().len() == 0, "iterating an unreadable vector yields nothing");
        }
    }
    pub fn vec_get(buf: &[u8], loc: usize, idx: usize) {
        assume(loc <= MAX_LOC);
        assume(fits(buf, loc, 4));
        assume(idx < le32(buf, loc) as usize);
        match V::new(buf, loc).get(idx) {
            Ok((b, l)) => {
                require(l == loc + 4 + $n * idx, "element idx is at loc + 4 + idx * size");
                require(b.len() == buf.len() && b.as_ptr() == buf.as_ptr(), "elements are read from the same buffer");
            }
            Err(_) => require(false, "a readable element is returned"),
        }
    }
    pub fn vec_iter(buf: &[u8], loc: usize) {
        assume(loc <= MAX_LOC);
        assume(fits(buf, loc, 4));
        let n = le32(buf, loc) as usize;
        let v = V::new(buf, loc);
        let mut it = v.iter();
        let first = it.next();
        if n == 0 { require(first.is_none(), "an empty vector yields nothing"); require(it.len() == 0, "stays empty"); return; }
        match first { Some(r) => require(at(r) == loc + 4, "next yields element 0 first"), None => require(false, "a non-empty vector yields an element") }
        require(it.len() == n - 1, "next consumes one element");
        match it.next() {
            Some(r) => { require(n >= 2, "no more elements than stored"); require(at(r) == loc + 4 + $n, "next yields element 1 second"); require(it.len() == n - 2, "next consumes one element"); }
            None => { require(n == 1, "no element is skipped"); require(it.next().is_none(), "the iterator is fused"); }
        }
    }
    pub fn vec_iter_back(buf: &[u8], loc: usize) {
        assume(loc <= MAX_LOC);
        assume(fits(buf, loc, 4));
        let n = le32(buf, loc) as usize;
        let mut it = V::new(buf, loc).iter();
        match it.next_back() {
            Some(r) => { require(n > 0, "no more elements than stored"); require(at(r) == loc + 4 + $n * (n - 1), "next_back yields the last element first"); }
            None => { require(n == 0, "no element is skipped"); return; }
        }
        require(it.len() == n - 1, "next_back consumes one element");
        match it.next() {
            Some(r) => { require(n >= 2, "front and back meet"); require(at(r) == loc + 4, "next after next_back yields element 0"); require(it.len() == n - 2, "len after both ends"); }
            None => { require(n == 1, "front and back meet exactly"); }
        }
    }
    pub fn vec_nth(buf: &[u8], loc: usize, k: usize) {
        assume(loc <= MAX_LOC);
        assume(fits(buf, loc, 4));
        let n = le32(buf, loc) as usize;
        let mut it = V::new(buf, loc).iter();
        match it.nth(k) {
            Some(r) => {
                require(k < n, "nth beyond the end is None");
                require(at(r) == loc + 4 + $n * k, "nth(k) yields element k");
                require(it.len() == n - k - 1, "nth(k) consumes k + 1 elements");
                match it.next() {
                    Some(r) => { require(k + 1 < n, "next after nth stops at the end"); require(at(r) == loc + 4 + $n * (k + 1), "next after nth(k) yields element k + 1"); }
                    None => require(k + 1 == n, "next after nth skips nothing"),
                }
            }
            None => { require(k >= n, "nth yields every stored element"); require(it.next().is_none(), "exhausted after nth"); require(it.len() == 0, "exhausted after nth"); }
        }
    }
    pub fn vec_nth_back(buf: &[u8], loc: usize, k: usize) {
        assume(loc <= MAX_LOC);
        assume(fits(buf, loc, 4));
        let n = le32(buf, loc) as usize;
        let mut it = V::new(buf, loc).iter();
        match it.nth_back(k) {
            Some(r) => {
                require(k < n, "nth_back beyond the start is None");
                require(at(r) == loc + 4 + $n * (n - 1 - k), "nth_back(k) yields element n - 1 - k");
                require(it.len() == n - k - 1, "nth_back(k) consumes k + 1 elements");
                match it.next() {
                    Some(r) => { require(k + 1 < n, "next after nth_back"); require(at(r) == loc + 4, "next after nth_back yields element 0"); }
                    None => require(k + 1 == n, "next after nth_back skips nothing"),
                }
            }
            None => { require(k >= n, "nth_back yields every stored element"); require(it.next_back().is_none(), "exhausted after nth_back"); }
        }
    }
    pub fn vec_clone(buf: &[u8], loc: usize) {
        assume(loc <= MAX_LOC);
        assume(fits(buf, loc, 4));
        let n = le32(buf, loc) as usize;
        let mut it = V::new(buf, loc).iter();
        it.next();
        let mut c = it.clone();
        require(c.len() == it.len(), "a cloned iterator has the same length");
        match c.next() {
            Some(r) => require(at(r) == loc + 4 + $n && n > 1, "a cloned iterator is at the same position"),
            None => require(n <= 1, "a cloned iterator ends at the same position"),
        }
    }
    /// slice views
    pub fn vec_slice(buf: &[u8], loc: usize) {
        assume(loc <= MAX_LOC);
        let a = Vector::<$t>::new(buf, loc).safe_slice();
        let b = <&[$t] as Follow>::follow(buf, loc);
        let ok = fits(buf, loc, 4) && fits(buf, loc + 4, le32(buf, loc) as usize * $n);
        match a {
            Ok(s) => { require(ok, "safe_slice stays in the buffer"); require(s.len() == le32(buf, loc) as usize, "safe_slice has the stored length");
                       require(s.as_ptr() as *const u8 == buf[loc + 4..].as_ptr(), "safe_slice starts at the first element"); }
            Err(e) => require(!ok && e == Error::OutOfBounds || ok && $n > 1 && e != Error::OutOfBounds, "safe_slice rejects only vectors that do not fit or are misaligned"),
        }
        match b {
            Ok(s) => { require(ok, "a slice stays in the buffer"); require(s.len() == le32(buf, loc) as usize, "a slice has the stored length");
                       require(s.as_ptr() as *const u8 == buf[loc + 4..].as_ptr(), "a slice starts at the first element"); }
            Err(e) => require(!ok && e == Error::OutOfBounds || ok && $n > 1 && e != Error::OutOfBounds, "a slice is rejected only if it does not fit or is misaligned"),
        }
    }
} } }
pub mod vec { use super::*; scalars!(vector_geometry); }

pub fn vector_follow(buf: &[u8], loc: usize) {
    assume(loc <= MAX_LOC);
    match <Vector<At<u32>> as Follow>::follow(buf, loc) {
        Ok(v) => {
            if fits(buf, loc, 4) { require(v.len() == Ok(le32(buf, loc) as usize), "a followed vector is at loc"); }
            else { require(v.len() == Err(Error::OutOfBounds), "a followed vector is at loc"); }
        }
        Err(_) => require(false, "following a vector always succeeds"),
    }
}
pub fn vector_of_offsets(buf: &[u8], loc: usize, idx: usize) {
    assume(loc <= MAX_LOC);
    assume(fits(buf, loc, 4));
    assume(idx < le32(buf, loc) as usize);
    let at = loc + 4 + 4 * idx;
    match Vector::<ForwardsUOffset<At<u8>>>::new(buf, loc).get(idx) {
        Ok((_, l)) => require(fits(buf, at, 4) && l == at + le32(buf, at) as usize, "an offset element leads to its own location + offset"),
        Err(e) => { require(e == Error::OutOfBounds, "unreadable element"); require(!fits(buf, at, 4), "a readable offset element is followed"); }
    }
    let mut it = Vector::<ForwardsUOffset<At<u8>>>::new(buf, loc).iter();
    match it.nth(idx) {
        Some(Ok((_, l))) => require(fits(buf, at, 4) && l == at + le32(buf, at) as usize, "iterating an offset vector"),
        Some(Err(e)) => { require(e == Error::OutOfBounds, "unreadable element"); require(!fits(buf, at, 4), "errors of elements are reported in iteration"); }
        None => require(false, "an unreadable element is not the end of iteration"),
    }
}

// ---- vtables and tables ---------------------------------------------------
/// location of the vtable of the table at loc
fn vt(buf: &[u8], loc: usize) -> Option<usize> {
    if !fits(buf, loc, 4) { return None; }
    let off = i32::from_le_bytes(buf[loc..loc + 4].try_into().unwrap()) as i64;
    let t = loc as i64 - off;
    if t < 0 { None } else { Some(t as usize) }
}
pub fn vtable_header(buf: &[u8], loc: usize) {
    assume(loc <= MAX_LOC);
    let t = Table::new(buf, loc);
    match (t.vtable(), vt(buf, loc)) {
        (Ok(v), Some(at)) => {
            if fits(buf, at, 2) {
                let n = le16(buf, at) as usize;
                require(v.num_bytes() == Ok(n), "num_bytes is the first vtable entry");
                require(v.num_fields() == Ok(if n < 4 { 0 } else { n / 2 - 2 }), "num_fields counts the entries after the header");
                if fits(buf, at, n) {
                    match v.as_bytes() {
                        Ok(b) => { require(b.len() == n, "as_bytes has the stored length"); require(b.as_ptr() == buf[at..].as_ptr(), "as_bytes is the vtable itself"); }
                        Err(_) => require(false, "a vtable in bounds has bytes"),
                    }
                } else { require(v.as_bytes() == Err(Error::OutOfBounds), "as_bytes of a truncated vtable"); }
            } else {
                require(v.num_bytes() == Err(Error::OutOfBounds), "num_bytes out of the buffer");
                require(v.num_fields() == Err(Error::OutOfBounds), "num_fields out of the buffer");
                require(v.as_bytes() == Err(Error::OutOfBounds), "as_bytes out of the buffer");
            }
            if fits(buf, at, 4) { require(v.object_inline_num_bytes() == Ok(le16(buf, at + 2) as usize), "object_inline_num_bytes is the second entry"); }
            else { require(v.object_inline_num_bytes() == Err(Error::OutOfBounds), "object_inline_num_bytes out of the buffer"); }
        }
        (Err(e), None) => require(e == Error::OutOfBounds, "a vtable outside the buffer is OutOfBounds"),
        (Ok(_), None) => require(false, "a table whose vtable offset is unreadable has no vtable"),
        (Err(_), Some(_)) => require(false, "a readable vtable offset is followed"),
    }
}
pub fn vtable_get(buf: &[u8], loc: usize, slot: u16) {
    assume(loc <= MAX_LOC);
    let at = match vt(buf, loc) { Some(a) => a, None => return };
    let tab = Table::new(buf, loc);
    let v = match tab.vtable() { Ok(v) => v, Err(_) => { require(false, "a readable vtable offset is followed"); return } };
    let got = v.get(slot);
    if !fits(buf, at, 2) { require(got == Err(Error::OutOfBounds), "no vtable length, no field"); return; }
    let n = le16(buf, at);
    if slot >= n { require(got == Ok(None), "slots at or past the vtable length are absent"); return; }
    let p = at + slot as usize;
    if fits(buf, p, 2) { require(got == Ok(Some(le16(buf, p))), "a slot inside the vtable is its 16-bit entry"); }
    else { require(got == Err(Error::OutOfBounds), "a truncated vtable entry is OutOfBounds"); }
}
pub fn vtable_get_field(buf: &[u8], loc: usize, idx: usize) {
    assume(loc <= MAX_LOC);
    assume(idx <= 0x7fff_ffff_ffff);
    let at = match vt(buf, loc) { Some(a) => a, None => return };
    let tab = Table::new(buf, loc);
    let v = match tab.vtable() { Ok(v) => v, Err(_) => return };
    let got = v.get_field(idx);
    if !fits(buf, at, 2) { require(got == Err(Error::OutOfBounds), "no vtable length, no field"); return; }
    let n = le16(buf, at) as usize;
    let nf = if n < 4 { 0 } else { n / 2 - 2 };
    if idx >= nf { require(got == Ok(None), "fields past the vtable are absent"); return; }
    let p = at + 4 + 2 * idx;
    if fits(buf, p, 2) { require(got == Ok(Some(le16(buf, p))), "field idx is entry 2 + idx"); }
    else { require(got == Err(Error::OutOfBounds), "a truncated vtable entry is OutOfBounds"); }
}
/// what the vtable of the table at loc says about a slot
fn slot_of(buf: &[u8], loc: usize, slot: u16) -> Result<Option<u16>, Error> {
    let at = match vt(buf, loc) { Some(a) => a, None => return Err(Error::OutOfBounds) };
    if !fits(buf, at, 2) { return Err(Error::OutOfBounds); }
    if slot >= le16(buf, at) { return Ok(None); }
    if !fits(buf, at + slot as usize, 2) { return Err(Error::OutOfBounds); }
    Ok(Some(le16(buf, at + slot as usize)))
}
pub fn table_get_location(buf: &[u8], loc: usize, slot: u16) {
    assume(loc <= MAX_LOC);
    let t = Table::new(buf, loc);
    let got = t.get::<At<u32>>(slot, None);
    match slot_of(buf, loc, slot) {
        Err(_) => require(got == Err(Error::OutOfBounds), "an unreadable vtable is an error, not an absent field"),
        Ok(None) => require(got == Ok(None), "a slot past the vtable is absent"),
        Ok(Some(0)) => require(got == Ok(None), "a zero entry is absent"),
        Ok(Some(o)) => match got {
            Ok(Some((_, l))) => require(l == loc + o as usize, "a present field is at table + entry"),
            _ => require(false, "a present field is read"),
        },
    }
}
pub fn table_get_default(buf: &[u8], loc: usize, slot: u16, d: u32) {
    assume(loc <= MAX_LOC);
    let t = Table::new(buf, loc);
    let got = t.get::<u32>(slot, Some(d));
    match slot_of(buf, loc, slot) {
        Err(_) => require(got == Err(Error::OutOfBounds), "an unreadable vtable is an error, not the default"),
        Ok(None) | Ok(Some(0)) => require(got == Ok(Some(d)), "an absent field is the default"),
        Ok(Some(o)) => {
            let p = loc + o as usize;
            if fits(buf, p, 4) { require(got == Ok(Some(le32(buf, p))), "a present field is its stored value, never the default"); }
            else { require(got == Err(Error::OutOfBounds), "a present field out of the buffer is an error, not the default"); }
        }
    }
}
pub fn table_get_ref(buf: &[u8], loc: usize, slot: u16) {
    assume(loc <= MAX_LOC);
    let t = Table::new(buf, loc);
    let got = t.get::<ForwardsUOffset<At<u8>>>(slot, None);
    match slot_of(buf, loc, slot) {
        Err(_) => require(got == Err(Error::OutOfBounds), "an unreadable vtable is an error"),
        Ok(None) | Ok(Some(0)) => require(got == Ok(None), "an absent reference is None"),
        Ok(Some(o)) => {
            let p = loc + o as usize;
            if fits(buf, p, 4) { require(matches!(got, Ok(Some((_, l))) if l == p + le32(buf, p) as usize), "a reference field is followed from its own location"); }
            else { require(got == Err(Error::OutOfBounds), "a reference out of the buffer is an error"); }
        }
    }
}
pub fn table_get_string(buf: &[u8], loc: usize, slot: u16) {
    assume(loc <= MAX_LOC);
    let t = Table::new(buf, loc);
    let got = t.get::<ForwardsUOffset<&str>>(slot, None);
    match slot_of(buf, loc, slot) {
        Ok(None) | Ok(Some(0)) => require(matches!(got, Ok(None)), "an absent string is None"),
        Err(_) => require(got.is_err(), "an unreadable vtable is an error"),
        Ok(Some(o)) => {
            let p = loc + o as usize;
            require(fits(buf, p, 4) || got.is_err(), "a string reference out of the buffer is an error");
            if fits(buf, p, 4) {
                let q = p + le32(buf, p) as usize;
                match <&str as Follow>::follow(buf, q) {
                    Ok(_) => require(matches!(got, Ok(Some(_))), "a well formed string field is read"),
                    Err(e) => require(matches!(got, Err(e2) if e2 == e), "the error of a string field is reported, not swallowed"),
                }
            }
        }
    }
}

// ---- roots -----------------------------------------------------------------
pub fn root(buf: Vec<u8>) {
    let b = buf.clone();
    match get_root::<AtBuf, Vec<u8>>(buf) {
        Ok((_, l)) => require(fits(&b, 0, 4) && l == le32(&b, 0) as usize, "the root is at the first offset"),
        Err(e) => { require(e == Error::OutOfBounds, "root error"); require(!fits(&b, 0, 4), "a readable root offset is followed"); }
    }
}
pub fn size_prefixed_root(buf: Vec<u8>) {
    let b = buf.clone();
    match get_size_prefixed_root::<AtBuf, Vec<u8>>(buf) {
        Ok((_, l)) => require(fits(&b, 4, 4) && l == 4 + le32(&b, 4) as usize, "the size prefixed root is after the prefix"),
        Err(e) => { require(e == Error::OutOfBounds, "root error"); require(!fits(&b, 4, 4), "a readable root offset is followed"); }
    }
}
pub fn table_root(buf: &[u8]) {
    match Table::get_root(buf) {
        Ok(t) => require(fits(buf, 0, 4) && t.loc == le32(buf, 0) as usize && t.buf.as_ptr() == buf.as_ptr(), "Table::get_root is at the first offset"),
        Err(e) => { require(e == Error::OutOfBounds, "root error"); require(!fits(buf, 0, 4), "a readable root offset is followed"); }
    }
    match Table::get_size_prefixed_root(buf) {
        Ok(t) => require(fits(buf, 4, 4) && t.loc == 4 + le32(buf, 4) as usize, "Table::get_size_prefixed_root skips the prefix"),
        Err(e) => { require(e == Error::OutOfBounds, "root error"); require(!fits(buf, 4, 4), "a readable root offset is followed"); }
    }
}
pub fn identifier(buf: &[u8], ident: &str) {
    assume(ident.len() == 4);
    match buffer_has_identifier(buf, ident, false) {
        Ok(r) => { require(fits(buf, 4, 4), "the identifier is read in bounds"); require(r == (&buf[4..8] == ident.as_bytes()), "the identifier is bytes 4..8"); }
        Err(e) => { require(e == Error::OutOfBounds, "identifier error"); require(!fits(buf, 4, 4), "a buffer long enough has an identifier"); }
    }
    match buffer_has_identifier(buf, ident, true) {
        Ok(r) => { require(fits(buf, 8, 4), "the identifier is read in bounds"); require(r == (&buf[8..12] == ident.as_bytes()), "the identifier of a size prefixed buffer is bytes 8..12"); }
        Err(e) => { require(e == Error::OutOfBounds, "identifier error"); require(!fits(buf, 8, 4), "a buffer long enough has an identifier"); }
    }
}
/// the table accessors behave the same whatever owns the bytes
pub fn owned_table(buf: Vec<u8>, loc: usize, slot: u16) {
    assume(loc <= MAX_LOC);
    let b = buf.clone();
    let t = Table::new(buf, loc);
    let got = t.get::<u16>(slot, Some(7));
    match slot_of(&b, loc, slot) {
        Err(_) => require(got == Err(Error::OutOfBounds), "an unreadable vtable is an error"),
        Ok(None) | Ok(Some(0)) => require(got == Ok(Some(7)), "an absent field is the default"),
        Ok(Some(o)) => {
            let p = loc + o as usize;
            if fits(&b, p, 2) { require(got == Ok(Some(le16(&b, p))), "a present field is its stored value"); }
            else { require(got == Err(Error::OutOfBounds), "a present field out of the buffer is an error"); }
        }
    }
}

// ---- booleans from raw bytes ----------------------------------------------------------
pub fn bool_raw(buf: &[u8], loc: usize) {
    assume(loc <= MAX_LOC);
    let _ = read_scalar::<bool>(buf);
    let _ = read_scalar_at::<bool>(buf, loc);
}
pub fn bool_slice(buf: &[u8], loc: usize) {
    assume(loc <= MAX_LOC);
    let _ = <&[bool] as Follow>::follow(buf, loc);
}
