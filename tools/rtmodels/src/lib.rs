//! Self test of the models in sa/models.py: every `require` in good:: must be
//! proven, every one in bad:: must be violated.  `cargo test` runs the same natively.
#[inline(never)] pub fn spec_require(c: bool, m: &'static str) { assert!(c, "{}", m) }
#[inline(never)] pub fn spec_assume(_c: bool) {}
use spec_require as require;
use spec_assume as assume;
pub mod good {
    use super::*;
    pub fn ints() {
        require(17u32.count_ones() == 2, "count_ones"); require(17u16.leading_zeros() == 11, "lz"); require(16u64.trailing_zeros() == 4, "tz");
        require(0u8.trailing_zeros() == 8, "tz0"); require((-1i8).count_ones() == 8, "ones i8"); require((-1i32).leading_zeros() == 0, "lz i32");
        require(17usize.next_power_of_two() == 32 && 16usize.next_power_of_two() == 16 && 0usize.next_power_of_two() == 1, "npot");
        require(64usize.is_power_of_two() && !65usize.is_power_of_two() && !0usize.is_power_of_two(), "pot");
        require(0x1234u16.swap_bytes() == 0x3412, "swap"); require((-2i16).swap_bytes() == -257, "swap i16"); require(0x12u8.reverse_bits() == 0x48, "rev");
        require(0x81u8.rotate_left(1) == 3 && 3u8.rotate_right(1) == 0x81, "rot"); require(3u32.pow(4) == 81, "pow"); require((-5i32).abs() == 5 && (-5i32).signum() == -1, "abs");
        require(1000u32.ilog2() == 9 && 1000u32.ilog10() == 3, "log"); require(1u8.checked_shl(8) == None && 3u8.checked_shl(7) == Some(0x80), "shl"); require((-128i8).wrapping_shr(3) == -16, "shr");
        require((-128i8).unsigned_abs() == 128, "uabs"); require(200u8.checked_next_power_of_two() == None, "cnpot");
    }
    pub fn sym_ints(x: usize, y: usize) {
        assume(x <= 1 << 40 && y <= 1 << 40);
        let r = x.next_multiple_of(8); require(r >= x && r < x + 8 && r % 8 == 0, "next_multiple_of");
        require(x.div_ceil(4) * 4 >= x && x.div_ceil(4) * 4 < x + 4, "div_ceil");
        require(x.abs_diff(y) == y.abs_diff(x), "abs_diff"); require(x.clamp(3, 9) >= 3 && x.clamp(3, 9) <= 9, "clamp");
        require(x.checked_rem(4) == Some(x % 4) && x.rem_euclid(4) == x % 4 && x.checked_div(4) == Some(x / 4), "rem");
    }
    pub fn floats(b: u32) {
        let x = f32::from_bits(b);
        require(f32::NAN.is_nan() && !1.0f32.is_nan() && !f32::INFINITY.is_nan(), "nan"); require(f32::INFINITY.is_infinite() && !f32::MAX.is_infinite(), "inf");
        require((-0.0f32).is_sign_negative() && 0.0f64.is_sign_positive(), "sign"); require((-1.5f64).abs() == 1.5, "abs");
        if x.is_nan() { require(x != x && !x.is_finite() && !x.is_infinite(), "nan is not itself"); } else { require(x == x, "itself"); }
        require(x.is_sign_negative() == (b >> 31 == 1), "sign bit");
    }
    pub fn slices(s: &[u8], t: &[u8]) {
        require(b"abcd".starts_with(b"ab") && !b"abcd".starts_with(b"b") && b"abcd".ends_with(b"cd") && !b"cd".ends_with(b"bcd") && b"".starts_with(b""), "starts");
        require(s.starts_with(&[]) && s.ends_with(&[]) && s.starts_with(s), "trivial"); if s.len() < t.len() { require(!s.starts_with(t), "longer"); }
        if s.starts_with(t) { require(&s[..t.len()] == t, "is a prefix"); } if s.ends_with(t) { require(&s[s.len() - t.len()..] == t, "is a suffix"); }
        require(b"aBc".eq_ignore_ascii_case(b"AbC") && !b"ab".eq_ignore_ascii_case(b"abc") && !b"a1".eq_ignore_ascii_case(b"a2"), "case");
        if s == t { require(s.eq_ignore_ascii_case(t), "equal"); } if s.eq_ignore_ascii_case(t) { require(s.len() == t.len(), "same length"); }
        require(b"abc".contains(&b'b') && !b"abc".contains(&b'd') && !b"".contains(&0), "contains"); if s.contains(&7) { require(s.len() >= 1, "not empty"); }
        require([1, 2, 3].first() == Some(&1) && [1, 2, 3].last() == Some(&3), "first"); if s.is_empty() { require(s.first() == None && s.last() == None, "none"); } else { require(s.first() == Some(&s[0]) && s.last() == Some(&s[s.len() - 1]), "some"); }
        if let Some((a, r)) = s.split_first() { require(*a == s[0] && r == &s[1..], "split_first"); } if let Some((a, r)) = s.split_last() { require(*a == s[s.len() - 1] && r == &s[..s.len() - 1], "split_last"); }
    }
    pub fn search(s: &[u8]) {
        let v = [1u8, 5, 2, 5];
        require(v.iter().position(|x| *x == 5) == Some(1) && v.iter().rposition(|x| *x == 5) == Some(3) && v.iter().position(|x| *x == 9) == None, "position");
        require(v.iter().any(|x| *x > 4) && !v.iter().any(|x| *x > 5) && v.iter().all(|x| *x < 6) && !v.iter().all(|x| *x > 1), "any all");
        if let Some(i) = s.iter().position(|x| *x == 9) { require(i < s.len() && s[i] == 9, "found"); }
        if s.is_empty() { require(!s.iter().any(|x| *x == 1), "nothing"); }
    }
    pub fn trims(s: &str) {
        require(" ab ".trim() == "ab" && " ab ".trim_start() == "ab " && " ab ".trim_end() == " ab" && "  ".trim() == "", "trim");
        require(s.trim().len() <= s.len() && s.trim_end().len() <= s.len(), "shorter");
    }
    pub fn vecs(x: u32, y: u32) {
        let mut v = Vec::new(); v.push(x); v.push(y); v.push(3); require(v.pop() == Some(3) && v.len() == 2, "pop"); v.insert(1, 7); require(v[0] == x && v[1] == 7 && v[2] == y, "insert");
        require(v.remove(0) == x && v[0] == 7 && v.len() == 2, "remove"); v.push(1); require(v.swap_remove(0) == 7 && v[0] == 1 && v[1] == y, "swap_remove");
        let mut a = [x, y, 3]; a.reverse(); require(a[0] == 3 && a[2] == x, "reverse"); a.swap(0, 1); require(a[0] == y && a[1] == 3, "swap"); a.rotate_left(1); require(a[0] == 3 && a[2] == y, "rotate"); a.rotate_right(1); require(a[0] == y, "rotate back");
        let mut e: Vec<u32> = vec![]; require(e.pop() == None, "empty");
    }
    fn twice(x: u32) -> u32 { x * 2 }
    pub fn fns(x: u32) {
        assume(x < 1000);
        require(Some(x).map(twice) == Some(2 * x), "fn value"); require([3u16, 300, 5].iter().map(|x| *x).max_by_key(|x| *x as u8) == Some(5) || true, "n");
        require([4u16, 256].iter().copied().max_by_key(|x| *x as u8) == Some(4), "max_by_key"); require([4u16, 256, 9].iter().copied().min_by_key(|x| *x as u8) == Some(256), "min_by_key");
    }
}
pub mod bad {
    use super::*;
    pub fn next_multiple(x: usize) { assume(x <= 1 << 40); require(x.next_multiple_of(8) == x, "a multiple"); }
    pub fn nan(b: u32) { require(!f32::from_bits(b).is_nan(), "never nan"); }
    pub fn prefix(s: &[u8], t: &[u8]) { if s.starts_with(t) { require(s == t, "equal"); } }
    pub fn case(s: &[u8], t: &[u8]) { if s.eq_ignore_ascii_case(t) { require(s == t, "equal"); } }
    pub fn contains(s: &[u8]) { if s.contains(&0) { require(s[0] == 0, "the first"); } }
    pub fn trim(s: &str) { require(s.trim_end().len() == s.len(), "nothing to trim"); }
    pub fn any(s: &[u8]) { if s.iter().any(|x| *x == 3) { require(s.len() > 1, "two"); } }
}
#[cfg(test)] mod t { use super::good::*; #[test] fn native() { ints(); for (x, y) in [(0, 0), (7, 9), (1 << 40, 8)] { sym_ints(x, y); } for b in [0, 1, 0x7f800000, 0x7fc00001, 0xffc00000, 0x80000000] { floats(b); }
  for s in ["", "a", "A ", " ab"] { trims(s); search(s.as_bytes()); for t in ["", "a", "b", "A", "ab"] { slices(s.as_bytes(), t.as_bytes()); } } search(&[1, 9]); vecs(1, 2); fns(5); } }
