use std::borrow::Cow;
use std::collections::*;
use itertools::Itertools;
use heck::SnakeCase;
use quote::{quote, format_ident, ToTokens};
use proc_macro2::TokenStream;
use crate::ast::types as ast;
use crate::ir::types as ir;
fn v() -> Vec<i32> { vec![3, 1, 2] }
fn t_from_elem() { let x = vec![7; 3]; assert_eq!(x, [7, 7, 7]); let y: Vec<String> = vec![String::from("a"); 2]; assert_eq!(y.concat(), "aa"); }
fn t_vec1() { let mut x = v(); x.sort(); assert_eq!(x, vec![1, 2, 3]); x.reverse(); x.insert(1, 9); assert_eq!(x.remove(0), 3); x.swap(0, 1); assert_eq!(x, [2, 9, 1]); x.retain(|a| *a != 9); assert_eq!(x.len(), 2); x.extend(vec![4, 5]); x.extend(&[6]); x.extend_from_slice(&[7]); assert_eq!(x, [2, 1, 4, 5, 6, 7]); x.truncate(2); assert_eq!(x.split_off(1), [1]); x.resize(3, 0); assert_eq!(x, [2, 0, 0]); x.dedup(); assert_eq!(x, [2, 0]); assert_eq!(x.drain(..1).collect::<Vec<_>>(), [2]); assert_eq!(x.first(), Some(&0)); assert!(x.contains(&0)); x.clear(); assert!(x.is_empty()); assert_eq!(x.pop(), None); }
fn t_vec2() { let x = v(); assert_eq!(x.iter().max(), Some(&3)); assert_eq!(x.iter().copied().min().unwrap(), 1); assert_eq!(x.iter().sum::<i32>(), 6); assert_eq!(x.iter().product::<i32>(), 6); assert_eq!(x.iter().rev().cloned().collect::<Vec<i32>>(), [2, 1, 3]); assert_eq!(x.iter().position(|a| *a == 2), Some(2)); assert_eq!(x.binary_search(&9).is_err(), true); assert_eq!(&x[1..], &[1, 2]); assert_eq!(x.split_first(), Some((&3, &[1, 2][..]))); if let [a, rest @ ..] = &x[..] { assert_eq!((*a, rest.len()), (3, 2)); } else { panic!() } if let [.., z] = x.as_slice() { assert_eq!(*z, 2); } match &x[..] { [a, b, c] => assert_eq!(a + b + c, 6), _ => panic!() } }
fn t_iter1() { let x = v(); let mut it = x.iter().peekable(); let mut n = 0; while let Some(a) = it.next() { if it.peek().is_none() { n = *a; } } assert_eq!(n, 2); assert_eq!(x.iter().skip(1).step_by(2).count(), 1); assert_eq!(x.iter().take(2).map(|a| a * 2).fold(0, |a, b| a + b), 8); assert_eq!(x.iter().zip(1..).map(|(a, b)| a * b).collect::<Vec<i32>>(), [3, 2, 6]); assert!(x.iter().any(|a| *a > 2) && x.iter().all(|a| *a > 0)); assert_eq!(x.iter().find(|a| **a < 2), Some(&1)); assert_eq!(x.iter().filter_map(|a| if *a > 1 { Some(a + 1) } else { None }).last(), Some(3)); assert_eq!(x.iter().enumerate().map(|(i, _)| i).sum::<usize>(), 3); assert_eq!(x.iter().min_by_key(|a| **a), Some(&1)); assert_eq!(x.iter().max_by(|a, b| a.cmp(b)), Some(&3)); assert_eq!(x.chunks(2).map(|c| c.len()).collect::<Vec<_>>(), [2, 1]); assert_eq!(x.windows(2).filter(|w| w[0] > w[1]).count(), 1); }
fn t_iter2() { let (a, b): (Vec<i32>, Vec<i32>) = v().into_iter().partition(|a| *a > 1); assert_eq!((a.len(), b.len()), (2, 1)); let (a, b): (Vec<i32>, Vec<bool>) = v().into_iter().map(|a| (a, a > 1)).unzip(); assert_eq!(a.len() + b.len(), 6); let r: Result<Vec<i32>, String> = v().into_iter().map(|a| if a > 0 { Ok(a) } else { Err("x".to_string()) }).collect(); assert_eq!(r.unwrap().len(), 3); let o: Option<Vec<i32>> = v().into_iter().map(|a| if a > 1 { Some(a) } else { None }).collect(); assert_eq!(o, None); let s: String = vec!["a", "b"].into_iter().collect(); assert_eq!(s, "ab"); let s: String = "abc".chars().rev().collect(); assert_eq!(s, "cba"); assert_eq!(v().iter().map(|x| x.to_string()).collect::<Vec<_>>().join("-"), "3-1-2"); assert_eq!(v().iter().flat_map(|x| vec![*x; 2]).count(), 6); let mut c = 0; v().iter().for_each(|x| c += x); assert_eq!(c, 6); let z: Vec<i32> = std::iter::once(1).chain(Some(2)).chain(vec![3]).collect(); assert_eq!(z, [1, 2, 3]); assert_eq!(std::iter::successors(Some(1), |x| if *x < 9 { Some(x * 2) } else { None }).last(), Some(16)); assert_eq!(std::iter::repeat("a").take(3).collect::<String>(), "aaa"); }
fn t_iter3() { let x: Result<i32, ()> = v().iter().try_fold(0, |a, b| if *b > 0 { Ok(a + b) } else { Err(()) }); assert_eq!(x, Ok(6)); assert_eq!(v().into_iter().scan(0, |s, a| { *s += a; Some(*s) }).collect::<Vec<_>>(), [3, 4, 6]); assert_eq!(v().into_iter().take_while(|a| *a > 2).count(), 1); assert_eq!(v().into_iter().skip_while(|a| *a > 2).count(), 2); assert_eq!((0..3).rev().collect::<Vec<_>>(), [2, 1, 0]); assert_eq!((1..=3).len_(), 3); let mut i = v().into_iter(); i.next(); assert_eq!(i.len(), 2); assert_eq!(i.as_slice(), [1, 2]); assert_eq!(v().iter().nth(1), Some(&1)); let mut it = "a.b".split('.'); assert_eq!((it.next(), it.next(), it.next()), (Some("a"), Some("b"), None)); assert!(v().iter().eq([3, 1, 2].iter())); assert!(v().iter().cmp([3, 1].iter()) == std::cmp::Ordering::Greater); }
trait L { fn len_(self) -> usize; } impl<I: Iterator> L for I { fn len_(self) -> usize { self.count() } }
fn t_opt1() { let a = Some(3); assert_eq!(a.map(|x| x + 1), Some(4)); assert_eq!(a.and_then(|x| if x > 3 { Some(x) } else { None }), None); assert_eq!(a.map_or(0, |x| x), 3); assert_eq!(a.map_or_else(|| 0, |x| x), 3); assert_eq!(a.filter(|x| *x > 3).or(Some(1)), Some(1)); assert_eq!(a.ok_or("e"), Ok(3)); assert_eq!(a.ok_or_else(|| "e"), Ok(3)); assert_eq!(a.xor(None), Some(3)); assert_eq!(a.zip(Some(1)), Some((3, 1))); assert_eq!(a.unwrap_or_default(), 3); assert_eq!(None.unwrap_or(2), 2); assert_eq!(None.unwrap_or_else(|| 2), 2); assert!(a.is_some() && !a.is_none()); let mut b = Some(String::from("x")); assert_eq!(b.as_deref(), Some("x")); assert_eq!(b.as_ref().map(|s| s.len()), Some(1)); if let Some(s) = b.as_mut() { s.push('y'); } assert_eq!(b.take().as_deref(), Some("xy")); assert_eq!(b.replace("z".into()), None); assert_eq!(b.get_or_insert_with(|| "q".into()), "z"); assert_eq!(b.clone().unwrap(), "z"); assert_eq!(b.iter().count(), 1); assert_eq!(Some(Some(1)).flatten(), Some(1)); assert_eq!(Some(&1).copied(), Some(1)); assert_eq!(Some(&1).cloned(), Some(1)); let t: Result<Option<i32>, ()> = Some(Ok(1)).transpose(); assert_eq!(t, Ok(Some(1))); assert_eq!(b.insert("w".into()), "w"); assert!(Some(1) < Some(2) && None < Some(1)); assert!(matches!(a, Some(x) if x == 3)); assert_eq!(true.then(|| 1), Some(1)); assert_eq!(false.then_some(1), None); assert_eq!(a.is_some_and(|x| x > 2), true); }
fn t_res1() { let a: Result<i32, String> = Ok(3); assert_eq!(a.as_ref().ok(), Some(&3)); assert_eq!(a.clone().map(|x| x + 1), Ok(4)); assert_eq!(a.clone().and_then(|x| if x > 3 { Ok(x) } else { Err("e".to_string()) }), Err("e".into())); assert_eq!(a.clone().map_err(|e| e.len()), Ok(3)); assert_eq!(a.clone().unwrap_or(1), 3); assert_eq!(a.clone().unwrap_or_else(|_| 1), 3); assert_eq!(a.clone().unwrap_or_default(), 3); assert!(a.is_ok() && !a.is_err()); assert_eq!(a.clone().err(), None); assert_eq!(a.clone().or_else(|e| Err::<i32, String>(e)), Ok(3)); assert_eq!(a.iter().count(), 1); assert_eq!(a.clone().map_or(0, |x| x), 3); fn f(b: bool) -> Result<i32, String> { if b { Err("e")? } Ok(1) } assert_eq!(f(true), Err("e".to_string())); assert_eq!(f(false), Ok(1)); let t: Option<Result<i32, String>> = Ok(Some(1)).transpose(); assert_eq!(t, Some(Ok(1))); assert_eq!(a.is_ok_and(|x| x == 3), true); }
fn t_anyhow() { fn f(n: i32) -> anyhow::Result<i32> { if n == 0 { anyhow::bail!("zero {}", n); } anyhow::ensure!(n > 0, "neg"); Ok(n) } use anyhow::Context; assert!(f(0).is_err()); assert!(f(-1).is_err()); assert_eq!(f(1).unwrap(), 1); assert_eq!(f(0).unwrap_err().to_string(), "zero 0"); assert!(f(0).context("c").is_err()); assert!(None::<i32>.with_context(|| format!("x {}", 1)).is_err()); }
fn t_str1() { let s = "foo_Bar"; assert_eq!(s.to_uppercase(), "FOO_BAR"); assert_eq!(s.to_lowercase(), "foo_bar"); assert!(s.starts_with("foo") && s.ends_with('r') && s.contains('_')); assert_eq!(s.find('_'), Some(3)); assert_eq!(s.rfind('o'), Some(2)); assert_eq!(s.split('_').collect::<Vec<_>>(), ["foo", "Bar"]); assert_eq!(s.replace("foo", "x"), "x_Bar"); assert_eq!(s.trim_start_matches("foo"), "_Bar"); assert_eq!(s.strip_prefix("foo"), Some("_Bar")); assert_eq!(s.strip_suffix("Bar"), Some("foo_")); assert_eq!(&s[..3], "foo"); assert_eq!(s.get(3..), Some("_Bar")); assert_eq!(s.chars().count(), 7); assert_eq!(s.chars().next(), Some('f')); assert_eq!(s.split_at(3), ("foo", "_Bar")); assert_eq!(s.splitn(2, '_').last(), Some("Bar")); assert_eq!(s.len(), 7); assert_eq!(s.repeat(2).len(), 14); assert_eq!(s.char_indices().filter(|(_, c)| c.is_uppercase()).map(|(i, _)| i).next(), Some(4)); assert_eq!(s.split_once('_'), Some(("foo", "Bar"))); assert_eq!(s.rsplit('_').next(), Some("Bar")); assert!(s.eq_ignore_ascii_case("FOO_bar")); assert_eq!("a\nb\n".lines().count(), 2); assert_eq!(" x ".trim(), "x"); assert_eq!("a b".split_whitespace().count(), 2); assert_eq!(s.bytes().filter(|b| *b == b'o').count(), 2); assert_eq!(s.as_bytes()[0], b'f'); assert_eq!("abc".cmp("abd"), std::cmp::Ordering::Less); assert!("a" < "b"); assert_eq!(s.char_indices().rev().next(), Some((6, 'r'))); assert_eq!(s.matches('o').count(), 2); assert!(s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')); assert_eq!(s.trim_end_matches(|c: char| c == 'r'), "foo_Ba"); assert_eq!(s.split(|c: char| c == '_').count(), 2); assert!(!s.is_empty()); assert_eq!(s.parse::<i32>().is_err(), true); assert_eq!("12".parse::<i128>().unwrap(), 12); assert_eq!("1.5".parse::<f64>().unwrap(), 1.5); assert_eq!(i128::from_str_radix("ff", 16).unwrap(), 255); }
fn t_string() { let mut s = String::with_capacity(4); s.push_str("ab"); s.push('c'); s += "d"; s.insert(0, 'z'); s.insert_str(1, "yy"); assert_eq!(s, "zyyabcd"); assert_eq!(s.pop(), Some('d')); s.truncate(3); assert_eq!(s, "zyy"); assert_eq!(s.remove(0), 'z'); s.extend(vec!["a", "b"]); s.extend("c".chars()); assert_eq!(s, "yyabc"); s.retain(|c| c != 'y'); assert_eq!(s.as_str(), "abc"); let t = format!("{}-{:?}-{:>3}-{:03}-{:x}-{name}", s, s, 1, 2, 255, name = "n"); assert_eq!(t, "abc-\"abc\"-  1-002-ff-n"); assert_eq!(s.clone() + "x", "abcx"); assert_eq!(String::from('c'), "c"); assert_eq!('c'.to_string(), "c"); assert_eq!(1.5f32.to_string(), "1.5"); assert_eq!(true.to_string(), "true"); use std::fmt::Write; let mut o = String::new(); write!(o, "{}", 1).unwrap(); writeln!(o, "{}", 2).unwrap(); o.write_str("x").unwrap(); assert_eq!(o, "12\nx"); assert_eq!(String::from_utf8(vec![97, 98]).unwrap(), "ab"); assert_eq!(std::str::from_utf8(b"ab").unwrap(), "ab"); assert_eq!("ab".as_bytes().to_vec(), b"ab"); assert_eq!("ab".to_owned().into_bytes().len(), 2); assert_eq!(String::from_utf8_lossy(b"ab"), "ab"); s.clear(); assert!(s.is_empty()); assert_eq!(["a", "b"].concat(), "ab"); assert_eq!(["a", "b"].join(", "), "a, b"); let b: Box<str> = "x".into(); assert_eq!(&*b, "x"); assert_eq!(s.chars().rev().count(), 0); s.drain(..); }
fn t_cow() { let c: Cow<'_, str> = Cow::Borrowed("a"); let d: Cow<'_, str> = Cow::Owned("a".to_string()); assert_eq!(c, d); assert_eq!(c.clone().into_owned(), "a"); assert_eq!(c.len(), 1); assert!(matches!(d, Cow::Owned(_))); let mut e = c.clone(); e.to_mut().push('b'); assert_eq!(e, "ab"); assert_eq!(format!("{}", e), "ab"); let f: Cow<'_, str> = "x".into(); let g: Cow<'_, str> = String::from("x").into(); assert_eq!(f, g); assert_eq!(&*f, "x"); assert_eq!(f.as_ref(), "x"); assert_eq!(f.to_string(), "x"); assert!(f.starts_with('x')); let h = e + "c"; assert_eq!(h, "abc"); }
fn t_map() { let mut m = HashMap::new(); m.insert("a", 1); assert_eq!(m.insert("a", 2), Some(1)); *m.entry("b").or_insert(0) += 5; m.entry("c").or_insert_with(|| 7); m.entry("d").and_modify(|x| *x += 1).or_default(); assert_eq!(m["b"], 5); assert_eq!(m.get("c").copied(), Some(7)); assert!(m.contains_key("d") && !m.contains_key("e")); assert_eq!(m.remove("a"), Some(2)); if let Some(x) = m.get_mut("b") { *x = 9; } assert_eq!(m.values().sum::<i32>(), 16); assert_eq!(m.keys().count(), 3); assert_eq!(m.len(), 3); let mut k: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect(); k.sort(); assert_eq!(k, [("b", 9), ("c", 7), ("d", 0)]); for (_, v) in m.iter_mut() { *v += 1; } for v in m.values_mut() { *v += 1; } m.retain(|_, v| *v > 2); assert_eq!(m.len(), 2); let n: HashMap<_, _> = vec![("x", 1)].into_iter().collect(); m.extend(n); assert_eq!(m.into_iter().map(|(_, v)| v).sum::<i32>(), 21); let z: HashMap<&str, i32> = HashMap::from([("a", 1)]); assert_eq!(z.get_key_value("a"), Some((&"a", &1))); match m2().entry(1) { std::collections::hash_map::Entry::Occupied(e) => assert_eq!(*e.get(), 2), std::collections::hash_map::Entry::Vacant(_) => panic!() } match m2().entry(3) { std::collections::hash_map::Entry::Occupied(_) => panic!(), std::collections::hash_map::Entry::Vacant(e) => { e.insert(4); } } }
fn m2() -> HashMap<i32, i32> { let mut m = HashMap::new(); m.insert(1, 2); m }
fn t_bmap() { let mut m = BTreeMap::new(); for i in [3, 1, 2].iter() { m.insert(*i, i * 2); } assert_eq!(m.keys().copied().collect::<Vec<_>>(), [1, 2, 3]); assert_eq!(m.iter().next(), Some((&1, &2))); assert_eq!(m.range(2..).count(), 2); assert_eq!(m.values().copied().collect::<Vec<i32>>(), [2, 4, 6]); assert_eq!(m.first_key_value(), Some((&1, &2))); assert_eq!(m.into_iter().last(), Some((3, 6))); let mut s = BTreeSet::new(); assert!(s.insert(2) && s.insert(1) && !s.insert(2)); assert!(s.contains(&1)); assert_eq!(s.iter().copied().collect::<Vec<i32>>(), [1, 2]); assert!(s.remove(&1)); let t: BTreeSet<i32> = vec![2, 3].into_iter().collect(); assert_eq!(t.intersection(&s).count(), 1); assert_eq!(t.union(&s).count(), 2); assert_eq!(t.difference(&s).next(), Some(&3)); let mut b: BTreeMap<&str, Vec<i32>> = BTreeMap::new(); b.entry("a").or_default().push(1); b.entry("a").or_insert_with(Vec::new).push(2); assert_eq!(b["a"], [1, 2]); let mut h: HashSet<String> = HashSet::new(); assert!(h.insert("a".to_string())); assert!(!h.insert("a".into())); assert!(h.contains("a")); assert_eq!(h.len(), 1); assert_eq!(h.get("a").map(|s| s.as_str()), Some("a")); }
fn t_deque() { let mut d = VecDeque::new(); d.push_back(1); d.push_front(0); d.extend(vec![2, 3]); assert_eq!(d.iter().copied().collect::<Vec<_>>(), [0, 1, 2, 3]); assert_eq!(d.pop_front(), Some(0)); assert_eq!(d.pop_back(), Some(3)); assert_eq!(d.len(), 2); assert_eq!(d[1], 2); assert_eq!(d.front(), Some(&1)); assert_eq!(d.back(), Some(&2)); assert!(d.contains(&1)); let v: Vec<i32> = d.drain(..).collect(); assert_eq!(v, [1, 2]); let mut e: VecDeque<i32> = v.into_iter().collect(); e.append(&mut vec![5].into_iter().collect()); assert_eq!(e.into_iter().sum::<i32>(), 8); let f: VecDeque<i32> = VecDeque::from(vec![1]); assert!(!f.is_empty()); let g: Vec<i32> = f.into(); assert_eq!(g, [1]); }
fn t_num() { let x: i128 = 5; assert_eq!(x.checked_add(1), Some(6)); assert_eq!(x.wrapping_add(1), 6); assert_eq!(x.saturating_sub(9), -4); assert_eq!(x.pow(2), 25); assert_eq!((-5i128).abs(), 5); assert_eq!(x.max(7), 7); assert_eq!(x.min(7), 5); assert_eq!(x as u8, 5); assert_eq!(300i128 as u8, 44); use std::convert::{TryFrom, TryInto}; assert!(u8::try_from(x).is_ok()); assert!(u8::try_from(300i128).is_err()); let y: Result<u8, _> = 256i128.try_into(); assert!(y.is_err()); assert_eq!(i128::from(3u64), 3); assert_eq!(u64::from(3u8), 3); assert!((1..3).contains(&2) && !(1..=3).contains(&4)); assert_eq!(7 / 2 * 2 + 7 % 2, 7); assert_eq!(1u32 << 3 | 1, 9); assert_eq!(5i32.signum(), 1); assert_eq!(5u32.checked_sub(6), None); assert_eq!(250u8.overflowing_add(10), (4, true)); assert_eq!(x.clamp(0, 3), 3); assert_eq!(1.5f64.floor(), 1.0); assert_eq!((0.1f64 as f32) as f64 == 0.1, false); assert!(f64::NAN.is_nan() && !1f64.is_infinite()); assert_eq!(std::cmp::max(1, 2), 2); assert_eq!(1u16.to_le_bytes(), [1, 0]); assert_eq!(u8::MAX, 255); assert_eq!(i64::max_value(), std::i64::MAX); assert_eq!(3usize.leading_zeros(), 62); assert_eq!((-1i8) as u8, 255); assert_eq!(x.rem_euclid(3), 2); assert_eq!(5u8 as char, '\u{5}'); assert_eq!(x.is_negative(), false); assert_eq!(i128::MAX.checked_add(1), None); assert_eq!(x.cmp(&6), std::cmp::Ordering::Less); assert_eq!(x.partial_cmp(&5), Some(std::cmp::Ordering::Equal)); }
fn t_mem() { let mut a = vec![1]; let b = std::mem::take(&mut a); assert!(a.is_empty() && b == [1]); let c = std::mem::replace(&mut a, b); assert!(c.is_empty()); let mut d = vec![2]; std::mem::swap(&mut a, &mut d); assert_eq!((a, d), (vec![2], vec![1])); let b = Box::new(3); assert_eq!(*b + 1, 4); let c = std::rc::Rc::new(std::cell::RefCell::new(1)); *c.borrow_mut() += 1; assert_eq!(*c.borrow(), 2); let e = std::cell::Cell::new(1); e.set(e.get() + 1); assert_eq!(e.get(), 2); drop(e); let d = c.clone(); assert_eq!(std::rc::Rc::ptr_eq(&c, &d), true); }
fn t_quote() { let a = format_ident!("a{}", 1u8);
let xs = vec![quote!(x), quote!(y)];
let t = quote! { fn #a(#(#xs: u8),*) { #(#xs;)* } };
assert_eq!(t.to_string(), quote!(fn a1(x: u8, y: u8) { x;
y;
}).to_string());
let o: Option<TokenStream> = None;
assert!(quote!(#o).is_empty());
let mut s = TokenStream::new();
s.extend(quote!(a));
s.extend(vec![quote!(b), quote!(c)]);
assert_eq!(s.to_string(), quote!(a b c).to_string());
let c: TokenStream = xs.iter().map(|x| quote!(#x,)).collect();
assert_eq!(c.to_string(), quote!(x, y,).to_string());
let l = 5u16;
assert_eq!(quote!(#l).to_string(), "5u16");
let st = "q";
assert_eq!(quote!(#st).to_string(), "\"q\"");
assert_eq!(a.to_string(), "a1");
assert!(a == "a1");
let i = proc_macro2::Ident::new("zz", proc_macro2::Span::call_site());
assert_eq!(i.to_token_stream().to_string(), "zz");
let i2 = syn::Ident::new("zz", proc_macro2::Span::call_site());
assert!(i == i2);
let b = true;
assert_eq!(quote!(#b).to_string(), "true");
let mut u = TokenStream::default();
i.to_tokens(&mut u);
quote!(k).to_tokens(&mut u);
assert_eq!(u.to_string(), quote!(zz k).to_string());
let li = proc_macro2::Literal::u8_suffixed(3);
assert_eq!(quote!(#li).to_string(), "3u8");
let li = proc_macro2::Literal::string("s");
assert_eq!(quote!(#li).to_string(), "\"s\"");
let sli = syn::LitInt::new("3i8", proc_macro2::Span::call_site());
assert_eq!(quote!(#sli).to_string(), "3i8");
let sl = syn::LitStr::new("d", proc_macro2::Span::call_site());
let p: syn::Path = syn::parse_str("a::b").unwrap();
assert_eq!(quote!(#p).to_string(), quote!(a::b).to_string());
let q: TokenStream = "a :: b".parse().unwrap();
let pq: syn::Path = syn::parse_quote!(a::b);
let _ = pq;
let bx: Vec<Box<dyn ToTokens>> = vec![Box::new(quote!(a))];
assert_eq!(quote!(#(#bx)*).to_string(), quote!(a).to_string());
let mut segs = quote!(a);
for s in ["b", "c"].iter() { let i = format_ident!("{}", s);
segs = quote!(#segs::#i);
} assert_eq!(segs.to_string(), quote!(a::b::c).to_string());
}
fn t_ir() { let a = ir::Ident::from("type"); assert_eq!(a.as_ref(), "ty"); assert_eq!(a, ir::Ident::from("type")); let q = ir::QualifiedIdent::from("x"); assert_eq!(q.to_string(), "x"); assert_eq!(format!("{}_type", a), "ty_type"); assert_eq!("FooBar".to_snake_case(), "foo_bar"); let c: ast::Comment<'_> = vec!["a", "b"].into(); assert_eq!(c.lines.iter().join("\n"), "a\nb"); assert_eq!([3, 1].iter().sorted().collect_vec(), [&1, &3]); assert_eq!(["a", "b"].iter().format(",").to_string(), "a,b"); assert_eq!((1..4).tuple_windows().map(|(a, b): (i32, i32)| b - a).sum::<i32>(), 2); assert!(["a", "a"].iter().unique().count() == 1); let d = ast::DefaultValue::from(3); assert!(matches!(d, ast::DefaultValue::Scalar(ast::Scalar::Integer(3)))); let t = ir::Type::Array(Box::new(ir::Type::Bool)); assert_eq!(t.clone(), t); assert_eq!(format!("{:?}", ir::RpcStreaming::Bidi), "Bidi"); assert_eq!((1..4).group_by_(|x| x % 2), 2); }
trait G2 { fn group_by_(self, f: fn(&i32) -> i32) -> usize; } impl<I: Iterator<Item = i32>> G2 for I { fn group_by_(self, f: fn(&i32) -> i32) -> usize { self.map(|x| (f(&x), x)).into_group_map().len() } }
fn t_ctrl() { let mut n = 0; 'o: for i in 0..5 { for j in 0..5 { if j == 3 { continue 'o; } if i == 3 { break 'o; } n += 1; } } assert_eq!(n, 9); let k = loop { n -= 1; if n < 5 { break n * 2; } }; assert_eq!(k, 8); let f: Box<dyn Fn(i32) -> i32> = Box::new(move |x| x + k); assert_eq!(f(1), 9); let fs: Vec<fn(&str) -> String> = vec![str::to_lowercase, str::to_string]; assert_eq!(fs[0]("A"), "a"); let mut c = 0; let mut inc = || { c += 1; c }; inc(); assert_eq!(inc(), 2); struct D(i32); impl D { const Z: i32 = 4; fn new(x: i32) -> Self { Self(x) } } assert_eq!(D::new(D::Z).0, 4); const NAMES: &[(&str, &str)] = &[("a", "b"), ("c", "d")]; assert_eq!(NAMES.iter().find(|(k, _)| *k == "c").map(|(_, v)| *v), Some("d")); static S: [&str; 2] = ["x", "y"]; assert!(S.contains(&"y")); assert_eq!(S.binary_search(&"y"), Ok(1)); let t = (1, "a".to_string()); let (a, ref b) = t; assert_eq!((a, b.len()), (1, 1)); if let (1, s) = &t { assert_eq!(s, "a"); } let r = match "abc" { "x" => 1, s if s.len() == 3 => 2, _ => 3 }; assert_eq!(r, 2); assert_eq!(match 5 { 0..=4 => 1, 5 | 6 => 2, _ => 3 }, 2); let x: &dyn std::fmt::Display = &3; assert_eq!(x.to_string(), "3"); let arr = [[0u8; 2]; 2]; assert_eq!(arr.iter().flatten().count(), 4); assert_eq!(arr.len(), 2); let e: Box<dyn std::error::Error> = "x".into(); assert_eq!(e.to_string(), "x"); }
fn t_char() { let c = 'a'; assert!(c.is_ascii_alphabetic() && c.is_alphabetic() && !c.is_numeric() && c.is_ascii_lowercase() && c.is_lowercase()); assert_eq!(c.to_ascii_uppercase(), 'A'); assert_eq!(c.to_uppercase().next(), Some('A')); assert_eq!(c.to_digit(16), Some(10)); assert_eq!(c as u32, 97); assert_eq!(char::from(97u8), 'a'); assert!(('a'..='z').contains(&c)); assert!(c >= 'a' && c < 'b'); assert!(c.is_ascii_hexdigit() && !c.is_whitespace() && c.is_alphanumeric() && !c.is_ascii_digit()); assert_eq!(c.len_utf8(), 1); assert!(matches!(c, 'a'..='f' | 'A'..='F')); assert_eq!("héé".chars().map(|c| c.len_utf8()).sum::<usize>(), 5); assert_eq!(std::char::from_digit(3, 10), Some('3')); }
pub fn selftests() { for f in [CASES].iter() { f() } }
