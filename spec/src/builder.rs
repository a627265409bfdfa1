use crate::{spec_assume as assume, spec_require as require, spec_zeroed as zeroed};
use crate::reader::{fits, le16, le32, le64, At};
use butte::*;

pub const DEBUG: bool = cfg!(debug_assertions);

/// A builder in an arbitrary state: any capacity, any number of bytes written
/// (so that `room` bytes are left before it has to grow).
pub fn arb<'f>(cap: usize, data: &[u8], room: usize) -> FlatBufferBuilder<'f> {
    assume(data.len() <= 1 << 29);
    assume(cap <= 1 << 30);
    assume(cap >= data.len() + 8 + room);
    let mut b = FlatBufferBuilder::new_with_capacity(cap);
    b.create_vector_direct(data);
    b
}
/// the same with an odd number of bytes written
pub fn arb_odd<'f>(cap: usize, data: &[u8], room: usize) -> FlatBufferBuilder<'f> {
    let mut b = arb(cap, data, room + 1);
    b.push(1u8);
    b
}
/// a builder whose buffer is exactly full
pub fn full<'f>(data: &[u8]) -> FlatBufferBuilder<'f> {
    assume(data.len() <= 1 << 29);
    assume(data.len() % 4 == 0);
    let mut b = FlatBufferBuilder::new_with_capacity(data.len() + 4);
    b.create_vector_direct(data);
    b
}
/// the same with an odd number of bytes written
pub fn full_odd<'f>(data: &[u8]) -> FlatBufferBuilder<'f> {
    assume(data.len() <= 1 << 29);
    assume(data.len() % 4 == 0);
    let mut b = FlatBufferBuilder::new_with_capacity(data.len() + 5);
    b.create_vector_direct(data);
    b.push(1u8);
    b
}
fn tail_is(after: &[u8], before: &[u8]) -> bool {
    after.len() >= before.len() && &after[after.len() - before.len()..] == before
}

macro_rules! scalars { ($m:ident) => {
    $m!(u8, 1, p_u8); $m!(i8, 1, p_i8); $m!(u16, 2, p_u16); $m!(i16, 2, p_i16);
    $m!(u32, 4, p_u32); $m!(i32, 4, p_i32); $m!(u64, 8, p_u64); $m!(i64, 8, p_i64);
} }

// ---- push ------------------------------------------------------------------
macro_rules! push_scalar { ($t:ident, $n:expr, $m:ident) => { pub mod $m {
    use super::*;
    fn check(mut b: FlatBufferBuilder, x: $t) {
        let before = b.unfinished_data().to_vec();
        let o = b.push(x);
        let after = b.unfinished_data();
        require(o.value() as usize == after.len(), "the offset returned by push is the used space");
        require(after.len() % $n == 0, "a pushed value is aligned relative to the end of the buffer");
        require(after.len() >= before.len() + $n, "push writes the value in front");
        require(after[..$n] == x.to_le_bytes()[..], "push writes the value in little-endian order");
        require(tail_is(after, &before), "push leaves the bytes written before untouched");
        require(zeroed(&after[$n..after.len() - before.len()]), "padding is zero");
        require(<$t as Follow>::follow(after, 0) == Ok(x), "a pushed value reads back");
    }
    pub fn push(cap: usize, data: &[u8], x: $t) { check(arb(cap, data, 64), x) }
    pub fn push_odd(cap: usize, data: &[u8], x: $t) { check(arb_odd(cap, data, 64), x) }
    pub fn push_grow(cap: usize, data: &[u8], x: $t) { check(arb(cap, data, 0), x) }
    pub fn push_grow_odd(cap: usize, data: &[u8], x: $t) { check(arb_odd(cap, data, 0), x) }
    pub fn push_full(data: &[u8], x: $t) { check(full(data), x) }
    pub fn push_full_odd(data: &[u8], x: $t) { check(full_odd(data), x) }
    pub fn push_first(cap: usize, x: $t) {
        assume(cap <= 1 << 24);
        check(FlatBufferBuilder::new_with_capacity(cap), x)
    }
    pub fn push_new(x: $t) { check(FlatBufferBuilder::new(), x) }
} } }
scalars!(push_scalar);

macro_rules! push_other { ($t:ident, $u:ident, $n:expr, $m:ident) => { pub mod $m {
    use super::*;
    pub fn push(cap: usize, data: &[u8], x: $t) {
        let mut b = arb_odd(cap, data, 64);
        let before = b.unfinished_data().to_vec();
        let o = b.push(x);
        let after = b.unfinished_data();
        require(o.value() as usize == after.len(), "the offset returned by push is the used space");
        require(after.len() % $n == 0, "a pushed float is aligned relative to the end of the buffer");
        require($u::from_le_bytes(std::convert::TryInto::try_into(&after[..$n]).unwrap()) == x.to_bits(), "push writes the float in little-endian order");
        require(tail_is(after, &before), "push leaves the bytes written before untouched");
        require(zeroed(&after[$n..after.len() - before.len()]), "padding is zero");
    }
} } }
push_other!(f32, u32, 4, p_f32);
push_other!(f64, u64, 8, p_f64);
pub fn push_bool(cap: usize, data: &[u8], x: bool) {
    let mut b = arb(cap, data, 64);
    let before = b.unfinished_data().to_vec();
    b.push(x);
    let after = b.unfinished_data();
    require(after.len() == before.len() + 1, "a bool is one byte");
    require(after[0] == x as u8, "a bool is written as 0 or 1");
    require(tail_is(after, &before), "push leaves the bytes written before untouched");
}

// ---- offsets: what the writer stores leads the reader to the object ---------------
pub fn push_offset(cap: usize, data: &[u8], more: &[u8]) {
    assume(more.len() <= 1 << 20);
    let mut b = arb(cap, data, more.len() + 64);
    let target = b.create_byte_string(more);
    b.push(7u8);
    let before = b.unfinished_data().to_vec();
    let o = b.push(target);
    let after = b.unfinished_data();
    require(o.value() as usize == after.len(), "the offset returned by push is the used space");
    require(after.len() % 4 == 0, "an offset is aligned");
    require(tail_is(after, &before), "push leaves the bytes written before untouched");
    require(zeroed(&after[4..after.len() - before.len()]), "padding is zero");
    match <ForwardsUOffset<At<u8>> as Follow>::follow(after, 0) {
        Ok((_, l)) => require(l == after.len() - target.value() as usize, "a stored offset leads to its object"),
        Err(_) => require(false, "a stored offset can be followed"),
    }
}
pub fn push_union_offset(cap: usize, data: &[u8], more: &[u8]) {
    assume(more.len() <= 1 << 20);
    let mut b = arb(cap, data, more.len() + 64);
    let target = b.create_byte_string(more);
    let u = target.as_union_value();
    require(u.value() == target.value(), "as_union_value keeps the location");
    b.push(u);
    let after = b.unfinished_data();
    match <ForwardsUOffset<At<u8>> as Follow>::follow(after, 0) {
        Ok((_, l)) => require(l == after.len() - target.value() as usize, "a stored union offset leads to its object"),
        Err(_) => require(false, "a stored offset can be followed"),
    }
}

// ---- strings and vectors -----------------------------------------------------------
fn string_check(mut b: FlatBufferBuilder, s: &str) {
    let before = b.unfinished_data().to_vec();
    let o = b.create_string(s);
    let after = b.unfinished_data();
    require(o.value() as usize == after.len(), "create_string returns the used space");
    require(after.len() % 4 == 0, "a string is aligned");
    require(tail_is(after, &before), "create_string leaves the bytes written before untouched");
    require(le32(after, 0) as usize == s.len(), "a string is prefixed by its length");
    require(&after[4..4 + s.len()] == s.as_bytes(), "a string is its bytes");
    require(after[4 + s.len()] == 0, "a string is zero terminated");
    require(zeroed(&after[5 + s.len()..after.len() - before.len()]), "padding is zero");
}
pub fn create_string(cap: usize, data: &[u8], s: &str) {
    assume(s.len() <= 1 << 20);
    string_check(arb_odd(cap, data, s.len() + 64), s)
}
pub fn create_string_grow(cap: usize, data: &[u8], s: &str) {
    assume(s.len() <= 1 << 20);
    string_check(arb(cap, data, 0), s)
}
pub fn create_string_read_back(cap: usize, data: &[u8], s: &str) {
    assume(s.len() <= 1 << 20);
    let mut b = arb(cap, data, s.len() + 64);
    b.create_string(s);
    let after = b.unfinished_data();
    match <&str as Follow>::follow(after, 0) {
        Ok(r) => { require(r.len() == s.len(), "a string reads back with its length"); require(r.as_ptr() == after[4..].as_ptr(), "a string reads back from its place"); }
        Err(e) => require(e == Error::NonUtf8String, "a written string is well formed"),
    }
}
pub fn create_byte_string(cap: usize, data: &[u8], s: &[u8]) {
    assume(s.len() <= 1 << 20);
    let mut b = arb_odd(cap, data, s.len() + 64);
    let before = b.unfinished_data().to_vec();
    let o = b.create_byte_string(s);
    let after = b.unfinished_data();
    require(o.value() as usize == after.len() && after.len() % 4 == 0, "create_byte_string returns the used space");
    require(tail_is(after, &before), "create_byte_string leaves the bytes written before untouched");
    require(le32(after, 0) as usize == s.len() && &after[4..4 + s.len()] == s && after[4 + s.len()] == 0, "length, bytes, terminator");
    require(zeroed(&after[5 + s.len()..after.len() - before.len()]), "padding is zero");
    require(Vector::<u8>::new(after, 0).len() == Ok(s.len()), "a byte string reads back as a vector of bytes");
}
pub fn create_bytes_direct(cap: usize, data: &[u8], s: &[u8]) {
    assume(s.len() <= 1 << 20);
    let mut b = arb_odd(cap, data, s.len() + 64);
    let before = b.unfinished_data().to_vec();
    let o = b.create_vector_direct(s);
    let after = b.unfinished_data();
    require(o.value() as usize == after.len() && after.len() % 4 == 0, "create_vector_direct returns the used space");
    require(tail_is(after, &before), "create_vector_direct leaves the bytes written before untouched");
    require(le32(after, 0) as usize == s.len() && &after[4..4 + s.len()] == s, "a byte vector is its length and bytes");
    require(zeroed(&after[4 + s.len()..after.len() - before.len()]), "padding is zero");
    match Vector::<u8>::new(after, 0).safe_slice() {
        Ok(r) => require(r == s, "a byte vector reads back"),
        Err(_) => require(false, "a byte vector reads back"),
    }
}
pub fn create_u64_direct(cap: usize, data: &[u8], s: &[u64]) {
    assume(s.len() <= 1 << 20);
    let mut b = arb_odd(cap, data, s.len() * 8 + 64);
    let before = b.unfinished_data().to_vec();
    let o = b.create_vector_direct(s);
    let after = b.unfinished_data();
    require(o.value() as usize == after.len(), "create_vector_direct returns the used space");
    require((after.len() - 4) % 8 == 0, "the elements of a vector are aligned to their size");
    require(after.len() % 4 == 0, "the length of a vector is aligned");
    require(tail_is(after, &before), "create_vector_direct leaves the bytes written before untouched");
    require(le32(after, 0) as usize == s.len(), "a vector is prefixed by its length");
    require(zeroed(&after[4 + 8 * s.len()..after.len() - before.len()]), "padding is zero");
}
pub fn create_u16_direct(cap: usize, data: &[u8], s: &[u16]) {
    assume(s.len() <= 1 << 20);
    let mut b = arb_odd(cap, data, s.len() * 2 + 64);
    let before = b.unfinished_data().to_vec();
    let o = b.create_vector_direct(s);
    let after = b.unfinished_data();
    require(o.value() as usize == after.len() && after.len() % 4 == 0, "create_vector_direct returns the used space");
    require(tail_is(after, &before), "create_vector_direct leaves the bytes written before untouched");
    require(le32(after, 0) as usize == s.len(), "a vector is prefixed by its length");
    require(zeroed(&after[4 + 2 * s.len()..after.len() - before.len()]), "padding is zero");
}
macro_rules! direct_content { ($t:ident, $n:expr, $m:ident) => { pub mod $m {
    use super::*;
    pub fn content(cap: usize, data: &[u8], s: &[$t]) {
        assume(s.len() >= 2 && s.len() <= 1 << 20);
        let mut b = arb(cap, data, $n * s.len() + 64);
        b.create_vector_direct(s);
        let after = b.unfinished_data();
        let v = Vector::<$t>::new(after, 0);
        require(v.len() == Ok(s.len()), "a direct vector reads back with its length");
        require(v.get(0) == Ok(s[0]), "the first element reads back");
        require(v.get(s.len() - 1) == Ok(s[s.len() - 1]), "the last element reads back");
    }
} } }
pub mod direct { use super::*; scalars!(direct_content); }
macro_rules! create_vec { ($t:ident, $n:expr, $m:ident) => { pub mod $m {
    use super::*;
    fn check(mut b: FlatBufferBuilder, items: &[$t]) {
        let before = b.unfinished_data().to_vec();
        let o = b.create_vector(items);
        let after = b.unfinished_data();
        let n = items.len();
        require(o.value() as usize == after.len(), "create_vector returns the used space");
        require(after.len() % 4 == 0 && (after.len() - 4) % $n == 0, "a vector and its elements are aligned");
        require(tail_is(after, &before), "create_vector leaves the bytes written before untouched");
        require(zeroed(&after[4 + $n * n..after.len() - before.len()]), "padding is zero");
        let v = Vector::<$t>::new(after, 0);
        require(v.len() == Ok(n), "a vector reads back with its length");
        if n > 0 { require(v.get(0) == Ok(items[0]), "element 0 reads back"); }
        if n > 1 { require(v.get(1) == Ok(items[1]), "element 1 reads back"); }
        if n > 2 { require(v.get(2) == Ok(items[2]), "element 2 reads back"); }
    }
    pub fn vec0(cap: usize, data: &[u8]) { check(arb_odd(cap, data, 64), &[]) }
    pub fn vec1(cap: usize, data: &[u8], x: $t) { check(arb_odd(cap, data, 64), &[x]) }
    pub fn vec2(cap: usize, data: &[u8], x: $t, y: $t) { check(arb(cap, data, 64), &[x, y]) }
    pub fn vec3(cap: usize, data: &[u8], x: $t, y: $t, z: $t) { check(arb_odd(cap, data, 64), &[x, y, z]) }
    /// any number of elements
    pub fn vec_any(cap: usize, data: &[u8], items: &[$t]) {
        assume(items.len() <= 1 << 20);
        let mut b = arb(cap, data, items.len() * $n + 64);
        let o = b.create_vector(items);
        let after = b.unfinished_data();
        require(o.value() as usize == after.len(), "create_vector returns the used space");
        require(after.len() % 4 == 0 && (after.len() - 4) % $n == 0, "a vector and its elements are aligned");
        require(Vector::<$t>::new(after, 0).len() == Ok(items.len()), "a vector reads back with its length");
    }
    /// built by hand
    pub fn manual(cap: usize, data: &[u8], x: $t, y: $t, z: $t) {
        let mut b = arb_odd(cap, data, 64);
        let before = b.unfinished_data().to_vec();
        b.start_vector::<$t>(3);
        b.push(z); b.push(y); b.push(x);
        let o = b.end_vector::<$t>(3);
        let after = b.unfinished_data();
        require(o.value() as usize == after.len(), "end_vector returns the used space");
        require(after.len() % 4 == 0 && (after.len() - 4) % $n == 0, "a vector and its elements are aligned");
        require(tail_is(after, &before), "building a vector leaves the bytes written before untouched");
        let v = Vector::<$t>::new(after, 0);
        require(v.len() == Ok(3) && v.get(0) == Ok(x) && v.get(1) == Ok(y) && v.get(2) == Ok(z), "a hand built vector reads back in order");
    }
} } }
pub mod vecs { use super::*; scalars!(create_vec); }

pub fn vector_of_offsets(cap: usize, data: &[u8], p: &[u8], q: &[u8]) {
    assume(p.len() <= 1 << 20 && q.len() <= 1 << 20);
    let mut b = arb(cap, data, p.len() + q.len() + 64);
    let x = b.create_byte_string(p);
    let y = b.create_byte_string(q);
    let before = b.unfinished_data().to_vec();
    let o = b.create_vector(&[x, y]);
    let after = b.unfinished_data();
    require(o.value() as usize == after.len() && after.len() % 4 == 0, "create_vector returns the used space");
    require(tail_is(after, &before), "create_vector leaves the bytes written before untouched");
    let v = Vector::<ForwardsUOffset<At<u8>>>::new(after, 0);
    require(v.len() == Ok(2), "a vector of offsets reads back with its length");
    require(matches!(v.get(0), Ok((_, l)) if l == after.len() - x.value() as usize), "offset element 0 leads to its object");
    require(matches!(v.get(1), Ok((_, l)) if l == after.len() - y.value() as usize), "offset element 1 leads to its object");
}
pub fn vector_of_strings(cap: usize, data: &[u8], p: &str, q: &str) {
    assume(p.len() <= 1 << 20 && q.len() <= 1 << 20);
    let mut b = arb(cap, data, p.len() + q.len() + 64);
    let before = b.unfinished_data().to_vec();
    let o = b.create_vector_of_strings(&[p, q]);
    let after = b.unfinished_data();
    require(o.value() as usize == after.len() && after.len() % 4 == 0, "create_vector_of_strings returns the used space");
    require(tail_is(after, &before), "create_vector_of_strings leaves the bytes written before untouched");
    let v = Vector::<ForwardsUOffset<At<u8>>>::new(after, 0);
    require(v.len() == Ok(2), "a vector of strings reads back with its length");
    match v.get(0) { Ok((_, l)) => require(le32(after, l) as usize == p.len() && &after[l + 4..l + 4 + p.len()] == p.as_bytes(), "string 0 is the first string"), Err(_) => require(false, "string 0 is readable") }
    match v.get(1) { Ok((_, l)) => require(le32(after, l) as usize == q.len() && &after[l + 4..l + 4 + q.len()] == q.as_bytes(), "string 1 is the second string"), Err(_) => require(false, "string 1 is readable") }
}
pub fn vector_of_strings_many(cap: usize, data: &[u8], p: &str, q: &str, r: &str) {
    assume(p.len() <= 1 << 20 && q.len() <= 1 << 20 && r.len() <= 1 << 20);
    let mut b = arb(cap, data, p.len() + q.len() + r.len() + 1024);
    let e = "";
    let o = b.create_vector_of_strings(&[p, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, q, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, e, r]);
    let after = b.unfinished_data();
    require(o.value() as usize == after.len() && after.len() % 4 == 0, "create_vector_of_strings returns the used space");
    let v = Vector::<ForwardsUOffset<At<u8>>>::new(after, 0);
    require(v.len() == Ok(40), "a vector of strings reads back with its length");
    match v.get(0) { Ok((_, l)) => require(le32(after, l) as usize == p.len() && &after[l + 4..l + 4 + p.len()] == p.as_bytes(), "string 0 is the first string"), Err(_) => require(false, "string 0 is readable") }
    match v.get(20) { Ok((_, l)) => require(le32(after, l) as usize == q.len() && &after[l + 4..l + 4 + q.len()] == q.as_bytes(), "string 20 is the one given"), Err(_) => require(false, "string 20 is readable") }
    match v.get(39) { Ok((_, l)) => require(le32(after, l) as usize == r.len() && &after[l + 4..l + 4 + r.len()] == r.as_bytes(), "string 39 is the one given"), Err(_) => require(false, "string 39 is readable") }
}
pub fn vector_of_strings_0(cap: usize, data: &[u8]) {
    let mut b = arb(cap, data, 64);
    b.create_vector_of_strings(&[]);
    let after = b.unfinished_data();
    require(Vector::<ForwardsUOffset<At<u8>>>::new(after, 0).len() == Ok(0), "an empty vector of strings reads back");
}

// ---- tables ----------------------------------------------------------------------
fn table_at<'a>(d: &'a [u8], o: WIPOffset<TableFinishedWIPOffset>) -> Table<&'a [u8]> { Table::new(d, d.len() - o.value() as usize) }

pub fn table_empty(cap: usize, data: &[u8], slot: u16) {
    assume(slot >= 4);
    let mut b = arb_odd(cap, data, 64);
    let before = b.unfinished_data().to_vec();
    let t = b.start_table();
    let o = b.end_table(t);
    let d = b.unfinished_data();
    require((o.value() as usize) % 4 == 0, "a table is aligned");
    require(tail_is(d, &before), "a table leaves the bytes written before untouched");
    require(table_at(d, o).get::<u32>(slot, None) == Ok(None), "an empty table has no fields");
    require(b.num_written_vtables() == 1, "one vtable is written");
}
macro_rules! table1 { ($t:ident, $n:expr, $m:ident) => { pub mod $m {
    use super::*;
    pub fn one(cap: usize, data: &[u8], x: $t) {
        let mut b = arb_odd(cap, data, 64);
        let before = b.unfinished_data().to_vec();
        let t = b.start_table();
        b.push_slot_always(8, x);
        let o = b.end_table(t);
        let d = b.unfinished_data();
        let loc = d.len() - o.value() as usize;
        let tab = Table::new(d, loc);
        require((o.value() as usize) % 4 == 0, "a table is aligned");
        require(tab.get::<$t>(8, None) == Ok(Some(x)), "a pushed field reads back");
        require(tab.get::<$t>(4, None) == Ok(None) && tab.get::<$t>(6, None) == Ok(None) && tab.get::<$t>(10, None) == Ok(None), "fields that were not pushed are absent");
        match tab.get::<At<$t>>(8, None) { Ok(Some((_, l))) => require((d.len() - l) % $n == 0, "a field is aligned to its size"), _ => require(false, "a pushed field is present") }
        match tab.vtable() { Ok(v) => {
            require(v.num_bytes() == Ok(10), "a vtable ends at the last field");
            match v.object_inline_num_bytes() { Ok(sz) => require(loc + sz <= d.len() - before.len() && sz >= 4 + $n, "the inline size covers exactly the table"), Err(_) => require(false, "the inline size is readable") }
        } Err(_) => require(false, "a written vtable is readable") }
        require(tail_is(d, &before), "a table leaves the bytes written before untouched");
    }
    pub fn slot_default(cap: usize, data: &[u8], x: $t, dflt: $t) {
        let mut b = arb(cap, data, 64);
        let t = b.start_table();
        b.push_slot(4, x, dflt);
        let o = b.end_table(t);
        let d = b.unfinished_data();
        let tab = table_at(d, o);
        require(tab.get::<$t>(4, Some(dflt)) == Ok(Some(x)), "a field reads back whether or not it equals the default");
        if x == dflt { require(tab.get::<$t>(4, None) == Ok(None), "a field equal to its default is not stored"); }
        else { require(tab.get::<$t>(4, None) == Ok(Some(x)), "a field different from its default is stored"); }
    }
} } }
pub mod tables { use super::*; scalars!(table1); }

pub fn table_three(cap: usize, data: &[u8], x: u8, y: u64, z: u16) {
    let mut b = arb_odd(cap, data, 128);
    let before = b.unfinished_data().to_vec();
    let t = b.start_table();
    b.push_slot_always(4, x);
    b.push_slot_always(8, y);
    b.push_slot_always(6, z);
    let o = b.end_table(t);
    let d = b.unfinished_data();
    let tab = table_at(d, o);
    require((o.value() as usize) % 4 == 0, "a table is aligned");
    require(tab.get::<u8>(4, None) == Ok(Some(x)), "field 0 reads back");
    require(tab.get::<u64>(8, None) == Ok(Some(y)), "field 2 reads back");
    require(tab.get::<u16>(6, None) == Ok(Some(z)), "field 1 reads back");
    require(tab.get::<u16>(10, None) == Ok(None), "field 3 is absent");
    match tab.get::<At<u64>>(8, None) { Ok(Some((_, l))) => require((d.len() - l) % 8 == 0, "a u64 field is aligned to 8"), _ => require(false, "present") }
    match tab.get::<At<u64>>(6, None) { Ok(Some((_, l))) => require((d.len() - l) % 2 == 0, "a u16 field is aligned to 2"), _ => require(false, "present") }
    require(tail_is(d, &before), "a table leaves the bytes written before untouched");
}
pub fn table_grow(cap: usize, data: &[u8], x: u64, z: u16) {
    let mut b = arb(cap, data, 0);
    let before = b.unfinished_data().to_vec();
    let t = b.start_table();
    b.push_slot_always(4, x);
    b.push_slot_always(6, z);
    let o = b.end_table(t);
    let d = b.unfinished_data();
    let tab = table_at(d, o);
    require(tab.get::<u64>(4, None) == Ok(Some(x)) && tab.get::<u16>(6, None) == Ok(Some(z)), "fields read back across growth");
    require(tail_is(d, &before), "growth leaves the bytes written before untouched");
}
pub fn table_reference(cap: usize, data: &[u8], s: &[u8]) {
    assume(s.len() <= 1 << 20);
    let mut b = arb(cap, data, s.len() + 128);
    let target = b.create_byte_string(s);
    let t = b.start_table();
    b.push_slot_always(4, target);
    b.push_slot_always(6, 1u8);
    let o = b.end_table(t);
    let d = b.unfinished_data();
    let tab = table_at(d, o);
    match tab.get::<ForwardsUOffset<At<u8>>>(4, None) {
        Ok(Some((_, l))) => require(l == d.len() - target.value() as usize, "a reference field leads to its object"),
        _ => require(false, "a reference field is present"),
    }
}
pub fn vtable_shared(cap: usize, data: &[u8], x1: u32, y1: u16, x2: u32, y2: u16) {
    let mut b = arb(cap, data, 256);
    let t = b.start_table();
    b.push_slot_always(4, x1); b.push_slot_always(6, y1);
    let o1 = b.end_table(t);
    let mid = b.unfinished_data().to_vec();
    require(b.num_written_vtables() == 1, "the first table writes its vtable");
    let t = b.start_table();
    b.push_slot_always(4, x2); b.push_slot_always(6, y2);
    let o2 = b.end_table(t);
    let d = b.unfinished_data();
    require(b.num_written_vtables() == 1, "a table of the same shape shares the vtable");
    require(o2.value() as usize == d.len(), "no space is spent on a shared vtable");
    require(tail_is(d, &mid), "sharing a vtable leaves the bytes written before untouched");
    let (a, c) = (table_at(d, o1), table_at(d, o2));
    require(a.get::<u32>(4, None) == Ok(Some(x1)) && a.get::<u16>(6, None) == Ok(Some(y1)), "the first table reads back");
    require(c.get::<u32>(4, None) == Ok(Some(x2)) && c.get::<u16>(6, None) == Ok(Some(y2)), "the second table reads back through the shared vtable");
    b.push(0xffu8);
    require(b.unfinished_data()[0] == 0xff, "writing goes on in front");
}
pub fn vtable_shared_padding(cap: usize, data: &[u8], x: u32) {
    // the space of the discarded vtable is zero again: padding written over it stays zero
    let mut b = arb(cap, data, 256);
    let t = b.start_table(); b.push_slot_always(4, x); b.push_slot_always(6, x); let _ = b.end_table(t);
    let t = b.start_table(); b.push_slot_always(4, x); b.push_slot_always(6, x); let _ = b.end_table(t);
    require(b.num_written_vtables() == 1, "a table of the same shape shares the vtable");
    let c = b.clone();
    b.push(1u8);
    let before = b.unfinished_data().to_vec();
    b.push(2u64);
    let d = b.unfinished_data();
    require(zeroed(&d[8..d.len() - before.len()]), "padding over a discarded vtable is zero");
    let (v, head) = c.collapse();
    require(zeroed(&v[..head]), "the space of a discarded vtable is zero");
}
pub fn vtable_distinct(cap: usize, data: &[u8], x1: u32, y1: u16, x2: u32, y2: u8) {
    let mut b = arb(cap, data, 256);
    let t = b.start_table();
    b.push_slot_always(4, x1); b.push_slot_always(6, y1);
    let o1 = b.end_table(t);
    let t = b.start_table();
    b.push_slot_always(4, x2); b.push_slot_always(10, y2);
    let o2 = b.end_table(t);
    let t = b.start_table();
    b.push_slot_always(4, x1); b.push_slot_always(6, y1);
    let o3 = b.end_table(t);
    let d = b.unfinished_data();
    require(b.num_written_vtables() == 2, "tables of different shapes have different vtables");
    let (p, q, r) = (table_at(d, o1), table_at(d, o2), table_at(d, o3));
    require(p.get::<u32>(4, None) == Ok(Some(x1)) && p.get::<u16>(6, None) == Ok(Some(y1)) && p.get::<u8>(10, None) == Ok(None), "the first table reads back");
    require(q.get::<u32>(4, None) == Ok(Some(x2)) && q.get::<u8>(10, None) == Ok(Some(y2)) && q.get::<u16>(6, None) == Ok(None), "the second table reads back");
    require(r.get::<u32>(4, None) == Ok(Some(x1)) && r.get::<u16>(6, None) == Ok(Some(y1)), "the third table reads back");
}
fn one_field(b: &mut FlatBufferBuilder, slot: u16, x: u32) -> WIPOffset<TableFinishedWIPOffset> { let t = b.start_table(); b.push_slot_always(slot, x); b.end_table(t) }
pub fn vtable_many(cap: usize, data: &[u8], x: u32, y: u32) {
    let mut b = arb(cap, data, 2048);
    let o1 = one_field(&mut b, 4, x);
    one_field(&mut b, 6, x); one_field(&mut b, 8, x); one_field(&mut b, 10, x); one_field(&mut b, 12, x); one_field(&mut b, 14, x);
    one_field(&mut b, 16, x); one_field(&mut b, 18, x); one_field(&mut b, 20, x); one_field(&mut b, 22, x); one_field(&mut b, 24, x);
    one_field(&mut b, 26, x); one_field(&mut b, 28, x); one_field(&mut b, 30, x); one_field(&mut b, 32, x); one_field(&mut b, 34, x);
    one_field(&mut b, 36, x); one_field(&mut b, 38, x);
    require(b.num_written_vtables() == 18, "tables of different shapes have different vtables");
    let o2 = one_field(&mut b, 4, y);
    require(b.num_written_vtables() == 18, "a table shares the vtable of any table of the same shape");
    let o3 = one_field(&mut b, 20, y);
    require(b.num_written_vtables() == 18, "a table shares the vtable of any table of the same shape");
    let d = b.unfinished_data();
    require(table_at(d, o1).get::<u32>(4, None) == Ok(Some(x)), "the first table reads back");
    require(table_at(d, o2).get::<u32>(4, None) == Ok(Some(y)), "a later table reads back through the shared vtable");
    require(table_at(d, o3).get::<u32>(20, None) == Ok(Some(y)), "a later table reads back through the shared vtable");
}
fn inline_size(d: &[u8], o: WIPOffset<TableFinishedWIPOffset>) -> Result<usize, Error> { table_at(d, o).vtable()?.object_inline_num_bytes() }
pub fn vtable_inline_size(cap: usize, data: &[u8], x: u32, y: u32) {
    // the second table has the same field offset but two bytes of padding at its end
    let mut b = arb(cap, data, 256);
    let t = b.start_table(); b.push_slot_always(4, x); let o1 = b.end_table(t);
    let start = b.unfinished_data().len();
    let t = b.start_table(); b.push_slot_always(4, y); let o2 = b.end_table(t);
    let d = b.unfinished_data();
    require(inline_size(d, o1) == Ok(8), "the inline size of the first table");
    require(inline_size(d, o2) == Ok(o2.value() as usize - start), "the inline size of a table is its own");
    require(table_at(d, o2).get::<u32>(4, None) == Ok(Some(y)), "the second table reads back");
}
pub fn vtable_shared_far(cap: usize, data: &[u8], mid: &[u8], x: u32, y: u32) {
    // the vtable is shared across other data
    assume(mid.len() <= 1 << 20 && mid.len() % 4 == 2);
    let mut b = arb(cap, data, mid.len() + 256);
    let t = b.start_table(); b.push_slot_always(4, x); let o1 = b.end_table(t);
    b.create_vector_direct(mid);
    let t = b.start_table(); b.push_slot_always(4, y); let o2 = b.end_table(t);
    let d = b.unfinished_data();
    require(b.num_written_vtables() == 1, "a table of the same shape shares the vtable");
    require(table_at(d, o1).get::<u32>(4, None) == Ok(Some(x)), "the first table reads back");
    require(table_at(d, o2).get::<u32>(4, None) == Ok(Some(y)), "the second table reads back through the shared vtable");
}
pub fn vtable_shared_grow(cap: usize, data: &[u8], x: u32, y: u32) {
    // the buffer grows between the two tables
    let mut b = arb(cap, data, 14);
    let t = b.start_table(); b.push_slot_always(4, x); let o1 = b.end_table(t);
    b.push(1u8); b.push(2u8);
    let t = b.start_table(); b.push_slot_always(4, y); let o2 = b.end_table(t);
    let d = b.unfinished_data();
    require(b.num_written_vtables() == 1, "a table of the same shape shares the vtable");
    require(table_at(d, o1).get::<u32>(4, None) == Ok(Some(x)), "the first table reads back");
    require(table_at(d, o2).get::<u32>(4, None) == Ok(Some(y)), "the second table reads back through the shared vtable");
}
pub fn vtable_prefix(cap: usize, data: &[u8], x: u32, y: u32, z: u32) {
    // one vtable is a prefix of the other
    let mut b = arb(cap, data, 256);
    let t = b.start_table(); b.push_slot_always(4, x); b.push_slot_always(6, y); let o1 = b.end_table(t);
    let t = b.start_table(); b.push_slot_always(6, z); let o2 = b.end_table(t);
    let t = b.start_table(); b.push_slot_always(4, z); let o3 = b.end_table(t);
    let d = b.unfinished_data();
    let (p, q, r) = (table_at(d, o1), table_at(d, o2), table_at(d, o3));
    require(p.get::<u32>(4, None) == Ok(Some(x)) && p.get::<u32>(6, None) == Ok(Some(y)), "the first table reads back");
    require(q.get::<u32>(4, None) == Ok(None) && q.get::<u32>(6, None) == Ok(Some(z)), "the second table reads back");
    require(r.get::<u32>(4, None) == Ok(Some(z)) && r.get::<u32>(6, None) == Ok(None), "the third table reads back");
}
pub fn vtable_empty(cap: usize, data: &[u8], x: u32) {
    let mut b = arb(cap, data, 256);
    let t = b.start_table(); let o1 = b.end_table(t);
    let t = b.start_table(); let o2 = b.end_table(t);
    require(b.num_written_vtables() == 1, "empty tables share the vtable");
    let t = b.start_table(); b.push_slot_always(4, x); let o3 = b.end_table(t);
    let d = b.unfinished_data();
    require(table_at(d, o1).get::<u32>(4, None) == Ok(None) && table_at(d, o2).get::<u32>(4, None) == Ok(None), "the empty tables have no fields");
    require(table_at(d, o3).get::<u32>(4, None) == Ok(Some(x)), "the third table reads back");
}
pub fn vtable_after_finish(cap: usize, data: &[u8], x: u32) {
    // vtables of a finished buffer are not shared with the next one
    let mut b = arb(cap, data, 256);
    let t = b.start_table(); b.push_slot_always(4, x); let o = b.end_table(t);
    b.finish_minimal(o);
    b.reset();
    let t = b.start_table(); b.push_slot_always(4, x); let o = b.end_table(t);
    let d = b.unfinished_data();
    require(b.num_written_vtables() == 1, "a reset builder writes its own vtables");
    require(table_at(d, o).get::<u32>(4, None) == Ok(Some(x)), "a table reads back after reset");
}

// ---- finish -----------------------------------------------------------------------
fn finish_check(d: &[u8], before: &[u8], at: usize, root: usize, hdr: usize) {
    require(fits(d, at, 4) && at + le32(d, at) as usize == d.len() - root, "the root offset leads to the root");
    require(tail_is(d, before), "finish leaves the bytes written before untouched");
    require(d.len() >= before.len() + hdr && zeroed(&d[hdr..d.len() - before.len()]), "padding is zero");
}
macro_rules! finish { ($m:ident, $x:expr, $al:expr) => { pub mod $m {
    use super::*;
    fn make<'f>(cap: usize, data: &[u8]) -> (FlatBufferBuilder<'f>, WIPOffset<TableFinishedWIPOffset>) {
        let mut b = arb(cap, data, 256);
        let t = b.start_table();
        b.push_slot_always(4, $x);
        let o = b.end_table(t);
        (b, o)
    }
    pub fn minimal(cap: usize, data: &[u8]) {
        let (mut b, o) = make(cap, data);
        let before = b.unfinished_data().to_vec();
        b.finish_minimal(o);
        let d = b.finished_data();
        finish_check(d, &before, 0, o.value() as usize, 4);
        require(d.len() % $al == 0, "a finished buffer is aligned to its largest value");
        require(b.unfinished_data().len() == d.len(), "finished data is all the data");
    }
    pub fn plain(cap: usize, data: &[u8]) {
        let (mut b, o) = make(cap, data);
        let before = b.unfinished_data().to_vec();
        b.finish(o, None);
        let d = b.finished_data();
        finish_check(d, &before, 0, o.value() as usize, 4);
        require(d.len() % $al == 0, "a finished buffer is aligned to its largest value");
    }
    pub fn ident(cap: usize, data: &[u8], id: &str) {
        assume(id.len() == 4);
        let (mut b, o) = make(cap, data);
        let before = b.unfinished_data().to_vec();
        b.finish(o, Some(id));
        let d = b.finished_data();
        finish_check(d, &before, 0, o.value() as usize, 8);
        require(d.len() % $al == 0, "a finished buffer is aligned to its largest value");
        require(&d[4..8] == id.as_bytes(), "the identifier is bytes 4..8");
        require(buffer_has_identifier(d, id, false) == Ok(true), "the identifier is found");
    }
    pub fn prefixed(cap: usize, data: &[u8]) {
        let (mut b, o) = make(cap, data);
        let before = b.unfinished_data().to_vec();
        b.finish_size_prefixed(o, None);
        let d = b.finished_data();
        finish_check(d, &before, 4, o.value() as usize, 8);
        require(d.len() % $al == 0, "a size prefixed buffer is aligned to its largest value");
        require(le32(d, 0) as usize == d.len() - 4, "the size prefix counts the bytes after it");
    }
    pub fn prefixed_ident(cap: usize, data: &[u8], id: &str) {
        assume(id.len() == 4);
        let (mut b, o) = make(cap, data);
        let before = b.unfinished_data().to_vec();
        b.finish_size_prefixed(o, Some(id));
        let d = b.finished_data();
        finish_check(d, &before, 4, o.value() as usize, 12);
        require(d.len() % $al == 0, "a size prefixed buffer is aligned to its largest value");
        require(le32(d, 0) as usize == d.len() - 4, "the size prefix counts the bytes after it");
        require(buffer_has_identifier(d, id, true) == Ok(true), "the identifier is found");
        require(&d[8..12] == id.as_bytes(), "the identifier is bytes 8..12");
    }
} } }
pub mod fin { use super::*; finish!(a4, 5u32, 4); finish!(a8, 5u64, 8); finish!(a1, 5u8, 4); }

pub fn finish_grow(cap: usize, data: &[u8]) {
    let mut b = arb(cap, data, 0);
    let before = b.unfinished_data().to_vec();
    let o = WIPOffset::<TableFinishedWIPOffset>::new(before.len() as u32);
    b.finish(o, None);
    let d = b.finished_data();
    finish_check(d, &before, 0, o.value() as usize, 4);
}
pub fn finish_root_reads(cap: usize, data: &[u8], x: u32) {
    let mut b = arb(cap, data, 256);
    let t = b.start_table(); b.push_slot_always(4, x); let o = b.end_table(t);
    let mut c = b.clone();
    b.finish_minimal(o);
    match Table::get_root(b.finished_data()) {
        Ok(t) => require(t.get::<u32>(4, None) == Ok(Some(x)), "the root of a finished buffer reads back"),
        Err(_) => require(false, "the root of a finished buffer is readable"),
    }
    c.finish_size_prefixed(o, None);
    match Table::get_size_prefixed_root(c.finished_data()) {
        Ok(t) => require(t.get::<u32>(4, None) == Ok(Some(x)), "the root of a size prefixed buffer reads back"),
        Err(_) => require(false, "the root of a size prefixed buffer is readable"),
    }
}
pub fn collapse(cap: usize, data: &[u8]) {
    let b = arb(cap, data, 16);
    let d = b.unfinished_data().to_vec();
    let (v, head) = b.collapse();
    require(head <= v.len() && &v[head..] == &d[..], "collapse returns the bytes written and where they start");
    require(zeroed(&v[..head]), "the unused part of the buffer is zero");
}
pub fn collapse_full(data: &[u8], x: u8, odd: bool) {
    let mut b = if odd { full_odd(data) } else { full(data) };
    b.push(x);
    let d = b.unfinished_data().to_vec();
    let (v, head) = b.collapse();
    require(head <= v.len() && &v[head..] == &d[..], "collapse returns the bytes written and where they start");
    require(zeroed(&v[..head]), "the unused part of the buffer is zero");
}
pub fn collapse_grown(cap: usize, data: &[u8], x: u64) {
    let mut b = arb(cap, data, 0);
    b.push(x);
    let d = b.unfinished_data().to_vec();
    let (v, head) = b.collapse();
    require(head <= v.len() && &v[head..] == &d[..], "collapse returns the bytes written and where they start");
    require(zeroed(&v[..head]), "the unused part of the buffer is zero");
}

// ---- reset ------------------------------------------------------------------------
fn script<'f>(b: &mut FlatBufferBuilder<'f>, x: u64, y: u8) -> WIPOffset<TableFinishedWIPOffset> {
    b.push(y);
    let t = b.start_table();
    b.push_slot_always(6, y);
    b.push_slot_always(4, x);
    b.end_table(t)
}
fn same_after_reset(mut b: FlatBufferBuilder, cap2: usize, x: u64, y: u8) {
    b.reset();
    require(b.unfinished_data().is_empty(), "a reset builder is empty");
    require(b.num_written_vtables() == 0, "a reset builder has no vtables");
    let mut c = FlatBufferBuilder::new_with_capacity(cap2);
    let (o1, o2) = (script(&mut b, x, y), script(&mut c, x, y));
    require(o1.value() == o2.value(), "a reset builder returns the offsets of a new one");
    require(b.unfinished_data() == c.unfinished_data(), "a reset builder writes the bytes of a new one");
    b.finish_minimal(o1); c.finish_minimal(o2);
    require(b.finished_data() == c.finished_data(), "a reset builder finishes as a new one");
    let (v, h) = b.collapse();
    require(zeroed(&v[..h]), "the unused part of a reset buffer is zero");
}
pub fn reset_unfinished(cap: usize, data: &[u8], cap2: usize, x: u64, y: u8) {
    assume(cap2 >= 256 && cap2 <= 1 << 24);
    same_after_reset(arb(cap, data, 256), cap2, x, y);
}
pub fn reset_finished(cap: usize, data: &[u8], cap2: usize, x: u64, y: u8) {
    assume(cap2 >= 256 && cap2 <= 1 << 24);
    let mut b = arb(cap, data, 256);
    let t = b.start_table(); b.push_slot_always(4, x); let o = b.end_table(t);
    b.finish(o, None);
    same_after_reset(b, cap2, x, y);
}
pub fn reset_nested(cap: usize, data: &[u8], cap2: usize, x: u64, y: u8) {
    assume(cap2 >= 256 && cap2 <= 1 << 24);
    let mut b = arb(cap, data, 256);
    b.start_table();
    b.push_slot_always(10, x);
    same_after_reset(b, cap2, x, y);
}
pub fn reset_grown(cap: usize, data: &[u8], cap2: usize, x: u64, y: u8) {
    assume(cap2 >= 256 && cap2 <= 1 << 24);
    assume(cap >= 256);
    let mut b = arb(cap, data, 0);
    b.push(x);
    same_after_reset(b, cap2, x, y);
}
pub fn reset_align(cap: usize, data: &[u8], cap2: usize, x: u64, y: u8) {
    // a builder that has seen 8-byte values before
    assume(cap2 >= 256 && cap2 <= 1 << 24);
    let mut b = arb(cap, data, 256);
    b.push(x);
    b.reset();
    let mut c = FlatBufferBuilder::new_with_capacity(cap2);
    let mut go = |b: &mut FlatBufferBuilder| { b.push(y); let t = b.start_table(); b.push_slot_always(4, y); let o = b.end_table(t); b.finish_minimal(o); };
    go(&mut b); go(&mut c);
    require(b.finished_data() == c.finished_data(), "a reset builder finishes as a new one");
}
pub fn reset_vtables(cap: usize, data: &[u8], cap2: usize, x: u64, y: u8) {
    // a builder that has written the same vtable before
    assume(cap2 >= 256 && cap2 <= 1 << 24);
    let mut b = arb(cap, data, 256);
    script(&mut b, x, y);
    same_after_reset(b, cap2, x, y);
}
pub fn new_is_empty(cap: usize) {
    assume(cap <= 1 << 31);
    let b = FlatBufferBuilder::new_with_capacity(cap);
    require(b.unfinished_data().is_empty() && b.num_written_vtables() == 0, "a new builder is empty");
    let d = FlatBufferBuilder::default();
    require(d.unfinished_data().is_empty() && d.num_written_vtables() == 0, "a default builder is empty");
}

// ---- misuse -----------------------------------------------------------------------
pub mod misuse {
    use super::*;
    // each function misuses the API; in builds with debug assertions the last
    // line must not be reachable
    fn undetected(what: &'static str) { if DEBUG { require(false, what); } }
    pub fn table_in_table(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.start_table(); b.start_table(); require(!DEBUG, "start_table inside a table is detected"); }
    pub fn vector_in_table(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.start_table(); b.start_vector::<u8>(1); require(!DEBUG, "start_vector inside a table is detected"); }
    pub fn table_in_vector(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.start_vector::<u8>(1); b.start_table(); require(!DEBUG, "start_table inside a vector is detected"); }
    pub fn vector_in_vector(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.start_vector::<u8>(1); b.start_vector::<u8>(1); require(!DEBUG, "start_vector inside a vector is detected"); }
    pub fn string_in_table(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.start_table(); b.create_string("a"); require(!DEBUG, "create_string inside a table is detected"); }
    pub fn bytes_in_table(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.start_table(); b.create_byte_string(&[1]); require(!DEBUG, "create_byte_string inside a table is detected"); }
    pub fn direct_in_table(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.start_table(); b.create_vector_direct(&[1u8]); require(!DEBUG, "create_vector_direct inside a table is detected"); }
    pub fn vec_in_table(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.start_table(); b.create_vector(&[1u8]); require(!DEBUG, "create_vector inside a table is detected"); }
    pub fn empty_vec_in_table(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.start_table(); b.create_vector::<u8>(&[]); require(!DEBUG, "create_vector of nothing inside a table is detected"); }
    pub fn strings_in_table(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.start_table(); b.create_vector_of_strings(&[]); require(!DEBUG, "create_vector_of_strings inside a table is detected"); }
    pub fn finish_in_table(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.start_table(); b.finish_minimal(WIPOffset::<u8>::new(4)); require(!DEBUG, "finish inside a table is detected"); }
    pub fn finish_in_vector(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.start_vector::<u8>(0); b.finish(WIPOffset::<u8>::new(4), None); require(!DEBUG, "finish inside a vector is detected"); }
    pub fn finish_twice(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.finish_minimal(WIPOffset::<u8>::new(4)); b.finish_minimal(WIPOffset::<u8>::new(4)); require(!DEBUG, "finishing twice is detected"); }
    pub fn finish_prefixed_twice(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.finish_size_prefixed(WIPOffset::<u8>::new(4), None); b.finish_size_prefixed(WIPOffset::<u8>::new(4), None); require(!DEBUG, "finishing twice is detected"); }
    pub fn finished_data_early(cap: usize, data: &[u8]) { let b = arb(cap, data, 256); b.finished_data(); require(!DEBUG, "finished_data before finish is detected"); }
    pub fn finished_data_after_reset(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.finish_minimal(WIPOffset::<u8>::new(4)); b.reset(); b.finished_data(); require(!DEBUG, "finished_data after reset is detected"); }
    pub fn end_table_outside(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); let n = b.unfinished_data().len(); b.end_table(WIPOffset::new(n as u32)); require(!DEBUG, "end_table outside a table is detected"); }
    pub fn end_table_twice(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); let t = b.start_table(); b.end_table(t); b.end_table(t); require(!DEBUG, "end_table twice is detected"); }
    pub fn end_vector_outside(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.end_vector::<u8>(0); require(!DEBUG, "end_vector outside a vector is detected"); }
    pub fn end_vector_twice(cap: usize, data: &[u8]) { let mut b = arb(cap, data, 256); b.start_vector::<u8>(0); b.end_vector::<u8>(0); b.end_vector::<u8>(0); require(!DEBUG, "end_vector twice is detected"); }
    pub fn slot_outside(cap: usize, data: &[u8], x: u32) { let mut b = arb(cap, data, 256); b.push_slot_always(4, x); require(!DEBUG, "push_slot_always outside a table is detected"); }
    pub fn slot_default_outside(cap: usize, data: &[u8], x: u32, d: u32) { let mut b = arb(cap, data, 256); b.push_slot(4, x, d); require(!DEBUG, "push_slot outside a table is detected, also for a default value"); }
    pub fn slot_twice(cap: usize, data: &[u8], x: u32, y: u32) { let mut b = arb(cap, data, 256); let t = b.start_table(); b.push_slot_always(4, x); b.push_slot_always(4, y); b.end_table(t); require(!DEBUG, "writing a field twice is detected"); }
    pub fn ident_length(cap: usize, data: &[u8], id: &str) { assume(id.len() <= 64); assume(id.len() != 4); let mut b = arb(cap, data, 256); b.finish(WIPOffset::<u8>::new(4), Some(id)); require(!DEBUG, "a file identifier that is not 4 bytes is detected"); }
    /// proper use is never taken for misuse
    pub fn proper(cap: usize, data: &[u8], x: u32) {
        let mut b = arb(cap, data, 256);
        let s = b.create_string("a");
        b.start_vector::<u8>(2); b.push(1u8); b.push(2u8); b.end_vector::<u8>(2);
        let t = b.start_table(); b.push_slot(4, x, 0); b.push_slot_always(6, s); let o = b.end_table(t);
        let t = b.start_table(); b.push_slot_always(4, o); let o = b.end_table(t);
        b.finish(o, Some("ABCD"));
        b.finished_data();
        b.reset();
        let t = b.start_table(); let o = b.end_table(t);
        b.finish_minimal(o);
        b.finished_data();
    }
}

// ---- required ----------------------------------------------------------------------
pub fn required_present(cap: usize, data: &[u8], x: u32) {
    let mut b = arb(cap, data, 256);
    let t = b.start_table(); b.push_slot_always(4, x); b.push_slot_always(8, x); let o = b.end_table(t);
    b.required(o, 4, "a");
    b.required(o, 8, "b");
}
pub fn required_zero_entry(cap: usize, data: &[u8], x: u32) {
    let mut b = arb(cap, data, 256);
    let t = b.start_table(); b.push_slot_always(4, x); b.push_slot_always(8, x); let o = b.end_table(t);
    b.required(o, 6, "missing");
    require(false, "required detects a field absent in the middle");
}
pub fn required_past_end(cap: usize, data: &[u8], x: u32) {
    let mut b = arb(cap, data, 256);
    let t = b.start_table(); b.push_slot_always(4, x); let o = b.end_table(t);
    b.required(o, 6, "missing");
    require(false, "required detects a field past the vtable");
}

// ---- limits ------------------------------------------------------------------------
pub const MAX: usize = FLATBUFFERS_MAX_BUFFER_SIZE;
pub fn limit_capacity(cap: usize) {
    FlatBufferBuilder::new_with_capacity(cap);
    require(cap <= MAX, "a capacity beyond 2 GiB is rejected");
}
pub fn limit_direct(cap: usize, data: &[u8], big: &[u8]) {
    let mut b = arb(cap, data, 0);
    let o = b.create_vector_direct(big);
    let d = b.unfinished_data();
    require(d.len() <= MAX, "a buffer never grows beyond 2 GiB");
    require(o.value() as usize == d.len(), "an offset is never truncated");
    require(le32(d, 0) as usize == big.len(), "a length is never truncated");
}
pub fn limit_string(cap: usize, data: &[u8], big: &str) {
    let mut b = arb(cap, data, 0);
    let o = b.create_string(big);
    let d = b.unfinished_data();
    require(d.len() <= MAX, "a buffer never grows beyond 2 GiB");
    require(o.value() as usize == d.len(), "an offset is never truncated");
    require(le32(d, 0) as usize == big.len(), "a length is never truncated");
}
pub fn limit_total(cap: usize, first: &[u8], second: &[u8]) {
    // two objects that fit alone but not together
    assume(first.len() <= MAX && second.len() <= MAX);
    assume(cap <= MAX && cap >= first.len() + 16);
    let mut b = FlatBufferBuilder::new_with_capacity(cap);
    b.create_vector_direct(first);
    let o = b.create_vector_direct(second);
    let d = b.unfinished_data();
    require(d.len() <= MAX, "a buffer never grows beyond 2 GiB in total");
    require(o.value() as usize == d.len(), "an offset is never truncated");
}
/// A user type written inline that is larger than a table can hold.
#[derive(Clone, Copy)]
pub struct Big;
impl Push for Big { type Output = [u8; 70000]; fn push(&self, dst: &mut [u8], _rest: &[u8]) {} }
pub fn limit_table(cap: usize, data: &[u8]) {
    let mut b = arb(cap, data, 80000);
    let t = b.start_table();
    b.push_slot_always(4, Big);
    b.end_table(t);
    require(false, "a table larger than 64 KiB is rejected");
}
#[derive(Clone, Copy)]
pub struct Small;
impl Push for Small { type Output = [u8; 60000]; fn push(&self, dst: &mut [u8], _rest: &[u8]) {} }
pub fn limit_table_ok(cap: usize, data: &[u8], x: u32) {
    let mut b = arb(cap, data, 80000);
    let t = b.start_table();
    b.push_slot_always(4, x);
    b.push_slot_always(6, Small);
    let o = b.end_table(t);
    let d = b.unfinished_data();
    let tab = table_at(d, o);
    require(tab.get::<u32>(4, None) == Ok(Some(x)), "a field 60000 bytes into a table reads back");
}
pub fn limit_slot(cap: usize, data: &[u8], x: u32, slot: u16) {
    assume(slot >= 4 && slot % 2 == 0);
    let mut b = arb(cap, data, 80000);
    let t = b.start_table();
    b.push_slot_always(slot, x);
    let o = b.end_table(t);
    let d = b.unfinished_data();
    let tab = table_at(d, o);
    require(tab.get::<u32>(slot, None) == Ok(Some(x)), "a field in any accepted slot reads back");
}
/// A field in any slot a vtable can describe.
pub fn table_any_slot(cap: usize, data: &[u8], x: u32, i: u16) {
    assume(i <= 32000);
    let slot = field_index_to_field_offset(i);
    let mut b = arb(cap, data, 80000);
    let t = b.start_table();
    b.push_slot_always(slot, x);
    let o = b.end_table(t);
    let d = b.unfinished_data();
    let tab = table_at(d, o);
    require(tab.get::<u32>(slot, None) == Ok(Some(x)), "a field in any slot reads back");
    require(tab.get::<u32>(slot + 2, None) == Ok(None), "a field past the last slot is absent");
    let loc = d.len() - o.value() as usize;
    let vt = (loc as i64 - le32(d, loc) as i32 as i64) as usize;
    require(le16(d, vt) as usize == slot as usize + 2, "the vtable ends with the last stored field");
}
/// Fields in any two slots, in any order.
pub fn table_any_two(cap: usize, data: &[u8], x: u32, y: u16, i: u16, j: u16) {
    assume(i <= 32000 && j <= 32000 && i != j);
    let (si, sj) = (field_index_to_field_offset(i), field_index_to_field_offset(j));
    let mut b = arb(cap, data, 80000);
    let t = b.start_table();
    b.push_slot_always(si, x);
    b.push_slot_always(sj, y);
    let o = b.end_table(t);
    let d = b.unfinished_data();
    let tab = table_at(d, o);
    require(tab.get::<u32>(si, None) == Ok(Some(x)), "the first of two fields reads back");
    require(tab.get::<u16>(sj, None) == Ok(Some(y)), "the second of two fields reads back");
}
pub fn slots(i: u16) {
    assume(i <= 32765);
    require(field_index_to_field_offset(i) as usize == 4 + 2 * i as usize, "field i has vtable slot 4 + 2 i");
}
