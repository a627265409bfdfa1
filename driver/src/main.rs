//! MIR exporter used by every check in /verif.
//!
//! Acts as RUSTC_WORKSPACE_WRAPPER under `cargo check`.  For each workspace
//! crate it lets the real compilation proceed and writes the type-checked,
//! callee-resolved MIR of every function of the crate - together with the
//! (substituted) bodies of every function reachable from it inside the
//! workspace and inside the combinator part of core/alloc - as JSON.
//! Nothing of the program is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    bodies: BTreeMap<String, String>,
    seen: HashSet<String>,
    /// functions and closures used as values (exported when MIRDUMP_FNVALS is set)
    pending: Vec<Instance<'tcx>>,
    fnvals: bool,
}

#[derive(Clone)]
struct Ctx<'tcx> {
    env: ty::TypingEnv<'tcx>,
    root: String,
}

fn want_external(path: &str) -> bool {
    // Combinator code of core/alloc whose MIR is analysed rather than modelled.
    const OK: &[&str] = &[
        "core::option::", "core::result::", "core::iter::", "core::cmp::", "core::convert::",
        "core::ops::", "core::mem::take", "core::mem::replace", "core::mem::swap", "core::bool::",
        "core::tuple::", "core::default::", "core::clone::", "core::borrow::", "core::array::",
        "std::option::", "std::result::", "std::iter::", "std::cmp::", "std::convert::",
        "std::ops::", "std::mem::take", "std::mem::replace", "std::mem::swap", "std::bool::",
        "std::tuple::", "std::default::", "std::clone::", "std::borrow::", "alloc::borrow::",
        "std::array::",
        "<std::option::", "<std::result::", "<std::iter::", "<std::ops::", "<std::cmp::", "<std::convert::",
        "<core::option::", "<core::result::", "<core::iter::", "<core::ops::",
        "itertools::",
        "quote::__private::ext::", "quote::__private::has_iterator", "<quote::__private::HasIterator",
        "<quote::__private::ThereIsNoIterator", "<quote::__private::RepInterp", "quote::__private::RepInterp",
    ];
    // small functions of core, where there is no model of them
    const MORE: &[&str] = &["core::slice::", "core::str::", "<core::slice::", "<core::str::"];
    const NUM: &[&str] = &["core::num::", "core::char::", "core::ascii::", "<core::num::"];
    OK.iter().chain(NUM).any(|p| path.starts_with(p)) || std::env::var("MIRDUMP_FNVALS").is_ok() && MORE.iter().any(|p| path.starts_with(p))
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }

    fn ty(&mut self, cx: &Ctx<'tcx>, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.type_ids.insert(t, id);
        self.types.push(String::new());
        let s = ty::print::with_no_trimmed_paths!(format!("{}", t));
        let mut o = format!("{{\"s\":{}", q(&s));
        match t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Int(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":true", i.bit_width().unwrap_or(64));
            }
            ty::Uint(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":false", i.bit_width().unwrap_or(64));
            }
            ty::Float(f) => {
                let _ = write!(o, ",\"k\":\"float\",\"bits\":{}", f.bit_width());
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let a = self.args(cx, args);
                let _ = write!(o, ",\"k\":\"adt\",\"def\":{},\"args\":{}", q(&p), a);
                // field types, substituted
                let mut vs = vec![];
                for v in def.variants().iter() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = self.field_ty(cx, f.did, args);
                        let fid = match ft { Some(ft) => self.ty(cx, ft) as i64, None => -1 };
                        fs.push(format!("[{},{}]", q(f.name.as_str()), fid));
                    }
                    vs.push(format!("{{\"name\":{},\"fields\":{}}}", q(v.name.as_str()), arr(&fs)));
                }
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let _ = write!(o, ",\"adt\":{},\"variants\":{}", q(kind), arr(&vs));
                if def.is_enum() {
                    let ds: Vec<String> = def.discriminants(self.tcx).map(|(_, d)| {
                        q(&format!("{}", d.to_string()))
                    }).collect();
                    let _ = write!(o, ",\"discrs\":{}", arr(&ds));
                }
            }
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Array(e, n) => {
                let e = self.ty(cx, *e);
                let n = match n.try_to_target_usize(self.tcx) { Some(n) => n.to_string(), None => q(&format!("{}", n)) };
                let _ = write!(o, ",\"k\":\"array\",\"elem\":{},\"n\":{}", e, n);
            }
            ty::Slice(e) => {
                let e = self.ty(cx, *e);
                let _ = write!(o, ",\"k\":\"slice\",\"elem\":{}", e);
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(cx, *e);
                let _ = write!(o, ",\"k\":\"rawptr\",\"elem\":{},\"mut\":{}", e, m.is_mut());
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(cx, *e);
                let _ = write!(o, ",\"k\":\"ref\",\"elem\":{},\"mut\":{}", e, m.is_mut());
            }
            ty::FnDef(d, args) => {
                let p = self.path((*d).into());
                let a = self.args(cx, args.skip_binder());
                let _ = write!(o, ",\"k\":\"fndef\",\"def\":{},\"args\":{}", q(&p), a);
            }
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            ty::Closure(d, args) => {
                let p = self.path((*d).into());
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|u| self.ty(cx, u).to_string()).collect();
                let _ = write!(o, ",\"k\":\"closure\",\"def\":{},\"upvars\":{}", q(&p), arr(&ups));
            }
            ty::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(cx, t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"elems\":{}", arr(&v));
            }
            ty::Param(p) => {
                let _ = write!(o, ",\"k\":\"param\",\"name\":{}", q(p.name.as_str()));
            }
            ty::Alias(..) => o.push_str(",\"k\":\"alias\""),
            _ => o.push_str(",\"k\":\"other\""),
        }
        if !t.has_escaping_bound_vars() {
            if let Ok(l) = self.tcx.layout_of(cx.env.as_query_input(t)) {
                if l.is_sized() {
                    let _ = write!(o, ",\"size\":{},\"align\":{}", l.size.bytes(), l.align.abi.bytes());
                }
            }
        }
        o.push('}');
        self.types[id] = o;
        id
    }

    fn field_ty(&self, cx: &Ctx<'tcx>, f: DefId, args: GenericArgsRef<'tcx>) -> Option<Ty<'tcx>> {
        let raw = self.tcx.type_of(f).instantiate(self.tcx, args);
        match self.tcx.try_normalize_erasing_regions(cx.env, raw) {
            Ok(t) => Some(t),
            Err(_) => None,
        }
    }

    fn args(&mut self, cx: &Ctx<'tcx>, args: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(cx, t).to_string());
            } else if let Some(c) = a.as_const() {
                v.push(q(&format!("const {}", c)));
            }
        }
        arr(&v)
    }

    fn inst_name(&self, i: &Instance<'tcx>) -> String {
        let s = ty::print::with_no_trimmed_paths!(format!("{}", i));
        s
    }

    fn key(&self, cx: &Ctx<'tcx>, i: &Instance<'tcx>) -> String {
        let mut s = format!("{} {:?}", self.inst_name(i), match i.def { InstanceKind::Item(_) => "".to_string(), k => format!("{:?}", k).split('(').next().unwrap().to_string() });
        if i.args.has_param() {
            s = format!("{}|{}", cx.root, s);
        }
        s
    }

    fn place(&mut self, cx: &Ctx<'tcx>, p: &Place<'tcx>) -> String {
        let mut v = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(cx, t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "\"?\"".to_string(),
            });
        }
        arr(&v)
    }

    /// the memory behind an allocation (of a constant or of an immutable static)
    fn memory(&self, id: rustc_middle::mir::interpret::AllocId) -> Option<rustc_middle::mir::interpret::ConstAllocation<'tcx>> {
        use rustc_middle::mir::interpret::GlobalAlloc;
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => Some(a),
            GlobalAlloc::Static(d) if self.fnvals && !self.tcx.is_mutable_static(d) && !self.tcx.is_thread_local_static(d) && !self.tcx.is_foreign_item(d) => self.tcx.eval_static_initializer(d).ok(),
            _ => None,
        }
    }

    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: usize, len: Option<usize>) -> Option<Vec<u8>> {
        let a = self.memory(id)?;
        let a = a.inner();
        let total = a.len();
        let end = match len { Some(l) => off + l, None => total };
        if end > total { return None; }
        if a.provenance().ptrs().iter().any(|(o, _)| (o.bytes() as usize) + 8 > off && (o.bytes() as usize) < end) {
            return None;
        }
        Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
    }

    /// (alloc, offset) of the pointer stored at `off` in `id`
    fn alloc_ptr(&self, id: rustc_middle::mir::interpret::AllocId, off: usize) -> Option<(rustc_middle::mir::interpret::AllocId, usize)> {
        let a = self.memory(id)?;
        let a = a.inner();
        let pv = a.provenance().ptrs().iter().find(|(o, _)| o.bytes() as usize == off)?;
        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + 8);
        let o = u64::from_le_bytes(b.try_into().ok()?) as usize;
        Some((pv.1.alloc_id(), o))
    }

    /// JSON of a constant value of type `t` stored at (alloc, off)
    fn mem_val(&mut self, cx: &Ctx<'tcx>, t: Ty<'tcx>, id: rustc_middle::mir::interpret::AllocId, off: usize, depth: usize) -> String {
        if depth > 10 { return "null".into(); }
        let lay = match self.tcx.layout_of(cx.env.as_query_input(t)) { Ok(l) => l, Err(_) => return "null".into() };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let n = lay.size.bytes() as usize;
                match self.alloc_bytes(id, off, Some(n)) {
                    Some(b) => {
                        let mut x: u128 = 0;
                        for (i, c) in b.iter().enumerate() { x |= (*c as u128) << (8 * i); }
                        format!("{{\"k\":\"bits\",\"v\":\"{}\"}}", x)
                    }
                    None => "null".into(),
                }
            }
            ty::Ref(_, e, _) => {
                if let Some((a, o)) = self.alloc_ptr(id, off) {
                    match e.kind() {
                        ty::Str | ty::Slice(_) => {
                            let n = match self.alloc_bytes(id, off + 8, Some(8)) { Some(b) => u64::from_le_bytes(b.try_into().unwrap()) as usize, None => return "null".into() };
                            self.slice_val(cx, *e, a, o, n, depth + 1)
                        }
                        _ => {
                            let v = self.mem_val(cx, *e, a, o, depth + 1);
                            format!("{{\"k\":\"ref\",\"v\":{}}}", v)
                        }
                    }
                } else { "null".into() }
            }
            ty::FnPtr(..) if self.fnvals => {
                use rustc_middle::mir::interpret::GlobalAlloc;
                let a = match self.alloc_ptr(id, off) { Some((a, _)) => a, None => return "null".into() };
                match self.tcx.try_get_global_alloc(a) {
                    Some(GlobalAlloc::Function { instance: i }) if matches!(i.def, InstanceKind::Item(_)) => {
                        let p = self.path(i.def_id());
                        let mut o = format!("{{\"k\":\"fnv\",\"fpath\":{},\"forig\":{}", q(&p), q(&p));
                        let ia = self.args(cx, i.args);
                        let _ = write!(o, ",\"fiargs\":{}", ia);
                        if self.wanted(&i, &p) {
                            let key = self.key(cx, &i);
                            let _ = write!(o, ",\"fkey\":{}", q(&key));
                            self.pending.push(i);
                        }
                        o.push('}');
                        o
                    }
                    _ => "null".into(),
                }
            }
            ty::Array(e, n) => {
                let n = match n.try_to_target_usize(self.tcx) { Some(n) => n as usize, None => return "null".into() };
                if n > 1024 { return "null".into(); }
                let es = match self.tcx.layout_of(cx.env.as_query_input(*e)) { Ok(l) => l.size.bytes() as usize, Err(_) => return "null".into() };
                let vs: Vec<String> = (0..n).map(|i| self.mem_val(cx, *e, id, off + i * es, depth + 1)).collect();
                format!("{{\"k\":\"array\",\"v\":{}}}", arr(&vs))
            }
            ty::Tuple(ts) => {
                let vs: Vec<String> = ts.iter().enumerate().map(|(i, ft)| {
                    let fo = lay.fields.offset(i).bytes() as usize;
                    self.mem_val(cx, ft, id, off + fo, depth + 1)
                }).collect();
                format!("{{\"k\":\"tuple\",\"v\":{}}}", arr(&vs))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let fields: Vec<_> = def.non_enum_variant().fields.iter().map(|f| f.did).collect();
                let mut vs = vec![];
                for (i, f) in fields.iter().enumerate() {
                    let ft = match self.field_ty(cx, *f, args) { Some(t) => t, None => return "null".into() };
                    let fo = lay.fields.offset(i).bytes() as usize;
                    vs.push(self.mem_val(cx, ft, id, off + fo, depth + 1));
                }
                format!("{{\"k\":\"adt\",\"variant\":0,\"v\":{}}}", arr(&vs))
            }
            ty::Adt(def, args) if def.is_enum() => {
                // decode the variant for simple tag encodings
                use rustc_abi::{TagEncoding, Variants};
                let vi = match &lay.variants {
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding: TagEncoding::Direct, tag_field, .. } => {
                        let to = lay.fields.offset(tag_field.as_usize()).bytes() as usize;
                        let n = tag.size(&self.tcx).bytes() as usize;
                        let b = match self.alloc_bytes(id, off + to, Some(n)) { Some(b) => b, None => return "null".into() };
                        let mut x: u128 = 0;
                        for (i, c) in b.iter().enumerate() { x |= (*c as u128) << (8 * i); }
                        let mask: u128 = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                        match def.discriminants(self.tcx).find(|(_, d)| (d.val & mask) == x) { Some((vi, _)) => vi, None => return "null".into() }
                    }
                    Variants::Multiple { tag, tag_encoding: TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, tag_field, .. } => {
                        let to = lay.fields.offset(tag_field.as_usize()).bytes() as usize;
                        let n = tag.size(&self.tcx).bytes() as usize;
                        if n == 8 && self.alloc_ptr(id, off + to).is_some() { *untagged_variant } else {
                            let b = match self.alloc_bytes(id, off + to, Some(n)) { Some(b) => b, None => return "null".into() };
                            let mut x: u128 = 0;
                            for (i, c) in b.iter().enumerate() { x |= (*c as u128) << (8 * i); }
                            let mask: u128 = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                            let rel = x.wrapping_sub(*niche_start) & mask;
                            let (lo, hi) = (niche_variants.start.as_u32(), niche_variants.last.as_u32());
                            if rel <= (hi - lo) as u128 { rustc_abi::VariantIdx::from_u32(lo + rel as u32) } else { *untagged_variant }
                        }
                    }
                    _ => return "null".into(),
                };
                let vfields: Vec<_> = def.variant(vi).fields.iter().map(|f| f.did).collect();
                let vl = {
                    let c = ty::layout::LayoutCx::new(self.tcx, cx.env);
                    lay.for_variant(&c, vi)
                };
                let mut vs = vec![];
                for (i, f) in vfields.iter().enumerate() {
                    let ft = match self.field_ty(cx, *f, args) { Some(t) => t, None => return "null".into() };
                    let fo = vl.fields.offset(i).bytes() as usize;
                    vs.push(self.mem_val(cx, ft, id, off + fo, depth + 1));
                }
                format!("{{\"k\":\"adt\",\"variant\":{},\"v\":{}}}", vi.as_usize(), arr(&vs))
            }
            _ => "null".into(),
        }
    }

    fn slice_val(&mut self, cx: &Ctx<'tcx>, e: Ty<'tcx>, id: rustc_middle::mir::interpret::AllocId, off: usize, n: usize, depth: usize) -> String {
        match e.kind() {
            ty::Str => {
                let b = self.alloc_bytes(id, off, Some(n)).unwrap_or_default();
                format!("{{\"k\":\"str\",\"v\":{}}}", q(&String::from_utf8_lossy(&b)))
            }
            ty::Slice(et) => {
                if n > 256 { return "null".into(); }
                let es = match self.tcx.layout_of(cx.env.as_query_input(*et)) { Ok(l) => l.size.bytes() as usize, Err(_) => return "null".into() };
                let vs: Vec<String> = (0..n).map(|i| self.mem_val(cx, *et, id, off + i * es, depth + 1)).collect();
                format!("{{\"k\":\"slice\",\"v\":{}}}", arr(&vs))
            }
            _ => "null".into(),
        }
    }

    fn constant(&mut self, cx: &Ctx<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty(cx, t);
        let pretty = ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
        let mut o = format!("{{\"t\":{},\"p\":{}", tid, q(&pretty));
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(o, ",\"def\":{}", q(&self.path(u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{}", p.as_usize());
            }
        }
        if let ty::FnDef(d, args) = t.kind() {
            if self.fnvals {
                let d: DefId = (*d).into();
                let args: GenericArgsRef<'tcx> = args.skip_binder();
                let args = self.tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(i)) = Instance::try_resolve(self.tcx, cx.env, d, args) {
                    let p = self.path(i.def_id());
                    let _ = write!(o, ",\"fpath\":{},\"forig\":{}", q(&p), q(&self.path(d)));
                    if let Some(tr) = self.tcx.trait_of_assoc(d) {
                        let _ = write!(o, ",\"ftrait\":{},\"fmethod\":{}", q(&self.path(tr)), q(self.tcx.item_name(d).as_str()));
                    }
                    let ia = self.args(cx, i.args);
                    let _ = write!(o, ",\"fiargs\":{}", ia);
                    if matches!(i.def, InstanceKind::Item(_)) && self.wanted(&i, &p) {
                        let key = self.key(cx, &i);
                        let _ = write!(o, ",\"fkey\":{}", q(&key));
                        self.pending.push(i);
                    }
                }
            }
            o.push_str(",\"v\":{\"k\":\"fn\"}}");
            return o;
        }
        let ev = match c.const_ {
            Const::Unevaluated(u, _) if u.args.has_param() => None,
            _ => c.const_.eval(self.tcx, cx.env, c.span).ok(),
        };
        match ev {
            Some(ConstValue::Scalar(s)) => match s {
                rustc_middle::mir::interpret::Scalar::Int(i) => {
                    let _ = write!(o, ",\"v\":{{\"k\":\"bits\",\"v\":\"{}\"}}", i.to_bits(i.size()));
                }
                rustc_middle::mir::interpret::Scalar::Ptr(p, _) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    let aid = prov.alloc_id();
                    if let ty::Ref(_, e, _) = t.kind() {
                        let v = self.mem_val(cx, *e, aid, off.bytes() as usize, 0);
                        let _ = write!(o, ",\"v\":{{\"k\":\"ref\",\"v\":{}}}", v);
                    }
                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(aid) {
                        let _ = write!(o, ",\"static\":{}", q(&self.path(d)));
                    }
                }
            },
            Some(ConstValue::ZeroSized) => o.push_str(",\"v\":{\"k\":\"zst\"}"),
            Some(ConstValue::Slice { alloc_id, meta }) => {
                if let ty::Ref(_, e, _) = t.kind() {
                    let v = self.slice_val(cx, *e, alloc_id, 0, meta as usize, 0);
                    let _ = write!(o, ",\"v\":{}", v);
                }
            }
            Some(ConstValue::Indirect { alloc_id, offset }) => {
                let v = self.mem_val(cx, t, alloc_id, offset.bytes() as usize, 0);
                let _ = write!(o, ",\"v\":{}", v);
            }
            None => {}
        }
        o.push('}');
        o
    }

    fn operand(&mut self, cx: &Ctx<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(cx, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(cx, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(cx, c)),
            Operand::RuntimeChecks(k) => format!("[\"rc\",{}]", q(&format!("{:?}", k))),
        }
    }

    fn rvalue(&mut self, cx: &Ctx<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(cx, o)),
            Rvalue::Repeat(o, n) => {
                let n = match n.try_to_target_usize(self.tcx) { Some(n) => n.to_string(), None => q(&format!("{}", n)) };
                format!("[\"repeat\",{},{}]", self.operand(cx, o), n)
            }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(cx, p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", self.place(cx, p), q(&format!("{:?}", k))),
            Rvalue::Cast(k, o, t) => {
                let tid = self.ty(cx, *t);
                format!("[\"cast\",{},{},{}]", q(&format!("{:?}", k)), self.operand(cx, o), tid)
            }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",{},{},{}]", q(&format!("{:?}", b)), self.operand(cx, &ops.0), self.operand(cx, &ops.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", q(&format!("{:?}", u)), self.operand(cx, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(cx, p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(cx, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => format!("{{\"k\":\"array\",\"t\":{}}}", self.ty(cx, *t)),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a);
                        let t = match self.tcx.try_normalize_erasing_regions(cx.env, t) {
                            Ok(t) => self.ty(cx, t) as i64,
                            Err(_) => -1,
                        };
                        format!("{{\"k\":\"adt\",\"def\":{},\"variant\":{},\"t\":{}{}}}", q(&self.path(*d)), v.as_usize(), t,
                            match af { Some(f) => format!(",\"active\":{}", f.as_usize()), None => String::new() })
                    }
                    AggregateKind::Closure(d, a) => {
                        let inst = Instance::new_raw(*d, a);
                        let key = self.key(cx, &inst);
                        if self.fnvals { self.pending.push(inst); }
                        format!("{{\"k\":\"closure\",\"def\":{},\"key\":{}}}", q(&self.path(*d)), q(&key))
                    }
                    AggregateKind::RawPtr(t, _) => format!("{{\"k\":\"rawptr\",\"t\":{}}}", self.ty(cx, *t)),
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, arr(&os))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(cx, p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", self.place(cx, p), m.is_mut()),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", q(&self.path(*d))),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        // the outermost macro call site: that is where the construct is written
        let s0 = s.source_callsite();
        let l = sm.lookup_char_pos(s0.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        format!("{}:{}", f, l.line)
    }

    fn callee(&mut self, cx: &Ctx<'tcx>, func: &Operand<'tcx>, body: &Body<'tcx>, todo: &mut VecDeque<Instance<'tcx>>) -> String {
        let t = func.ty(&body.local_decls, self.tcx);
        if let ty::FnDef(d, args) = t.kind() {
            let d: DefId = (*d).into();
            let args: GenericArgsRef<'tcx> = args.skip_binder();
            let orig = self.path(d);
            let a = self.args(cx, args);
            let mut o = format!("{{\"orig\":{},\"args\":{}", q(&orig), a);
            if let Some(tr) = self.tcx.trait_of_assoc(d) {
                let _ = write!(o, ",\"trait\":{},\"method\":{}", q(&self.path(tr)), q(self.tcx.item_name(d).as_str()));
            }
            let sig = self.tcx.fn_sig(d).skip_binder();
            let _ = write!(o, ",\"unsafe\":{}", !sig.safety().is_safe());
            if self.tcx.intrinsic(d).is_some() {
                let _ = write!(o, ",\"intrinsic\":{}", q(self.tcx.item_name(d).as_str()));
            }
            let args = self.tcx.erase_and_anonymize_regions(args);
            match Instance::try_resolve(self.tcx, cx.env, d, args) {
                Ok(Some(i)) => {
                    let p = self.path(i.def_id());
                    let ia = self.args(cx, i.args);
                    let kind = match i.def {
                        InstanceKind::Item(_) => "item".to_string(),
                        InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
                        InstanceKind::Virtual(..) => "virtual".to_string(),
                        k => format!("{:?}", k).split('{').next().unwrap().trim().to_string(),
                    };
                    let _ = write!(o, ",\"path\":{},\"iargs\":{},\"kind\":{},\"local\":{}", q(&p), ia, q(&kind), i.def_id().is_local() );
                    let _ = write!(o, ",\"krate\":{}", q(self.tcx.crate_name(i.def_id().krate).as_str()));
                    if matches!(i.def, InstanceKind::Item(_)) {
                        let ok = self.wanted(&i, &p);
                        if ok {
                            let key = self.key(cx, &i);
                            let _ = write!(o, ",\"key\":{}", q(&key));
                            todo.push_back(i);
                        }
                    } else if let InstanceKind::Shim(sk) = i.def {
                        // closure-once shims: name the closure body
                        if let rustc_middle::ty::ShimKind::ClosureOnce { .. } = sk {
                            if let ty::Closure(cd, ca) = i.args.type_at(0).kind() {
                                let ci = Instance::new_raw((*cd).into(), ca);
                                let key = self.key(cx, &ci);
                                let _ = write!(o, ",\"key\":{}", q(&key));
                                todo.push_back(ci);
                            }
                        }
                    }
                }
                _ => {
                    o.push_str(",\"path\":null");
                }
            }
            o.push('}');
            o
        } else {
            let tid = self.ty(cx, t);
            format!("{{\"orig\":null,\"ptr\":{},\"fty\":{}}}", self.operand(cx, func), tid)
        }
    }

    fn wanted(&self, i: &Instance<'tcx>, p: &str) -> bool {
        let d = i.def_id();
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
            return false;
        }
        if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            return true;
        }
        let kn = self.tcx.crate_name(d.krate);
        let ws = std::env::var("MIRDUMP_CRATES").unwrap_or_default() + "," + &std::env::var("MIRDUMP_INCLUDE").unwrap_or_default();
        if d.is_local() || ws.split(',').any(|c| c == kn.as_str()) || want_external(p) || want_external(&p[p.find("as ").map(|x| x + 3).unwrap_or(0)..]) {
            return self.tcx.is_mir_available(d);
        }
        if self.tcx.is_closure_like(d) {
            let parent = self.tcx.typeck_root_def_id(d);
            let pp = self.path(parent);
            return (want_external(&pp)) && self.tcx.is_mir_available(d);
        }
        false
    }

    fn dump_instance(&mut self, cx: &Ctx<'tcx>, inst: Instance<'tcx>, todo: &mut VecDeque<Instance<'tcx>>) {
        let key = self.key(cx, &inst);
        if !self.seen.insert(key.clone()) {
            return;
        }
        let d = inst.def_id();
        if !self.tcx.is_mir_available(d) {
            return;
        }
        let raw = self.tcx.instance_mir(inst.def).clone();
        let body = inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, cx.env, EarlyBinder::bind(self.tcx, raw));
        let js = self.body(cx, &body, &inst, todo, None);
        self.bodies.insert(key.clone(), js);
        for i in std::mem::take(&mut self.pending) { todo.push_back(i); }
        let kn = self.tcx.crate_name(d.krate);
        let inc = std::env::var("MIRDUMP_INCLUDE").unwrap_or_default();
        if d.is_local() || inc.split(',').any(|c| c == kn.as_str()) {
            let prom = self.tcx.promoted_mir(d).clone();
            for (pi, pb) in prom.iter_enumerated() {
                let pb = inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, cx.env, EarlyBinder::bind(self.tcx, pb.clone()));
                let pk = format!("{}#promoted{}", key, pi.as_usize());
                let js = self.body(cx, &pb, &inst, todo, Some(pi.as_usize()));
                self.bodies.insert(pk, js);
                for i in std::mem::take(&mut self.pending) { todo.push_back(i); }
            }
        }
    }

    fn body(&mut self, cx: &Ctx<'tcx>, body: &Body<'tcx>, inst: &Instance<'tcx>, todo: &mut VecDeque<Instance<'tcx>>, promoted: Option<usize>) -> String {
        let d = inst.def_id();
        let mut o = String::new();
        let _ = write!(o, "{{\"def\":{},\"inst\":{},\"local\":{},\"argc\":{}", q(&self.path(d)), q(&self.inst_name(inst)), d.is_local(), body.arg_count);
        let _ = write!(o, ",\"krate\":{},\"span\":{}", q(self.tcx.crate_name(d.krate).as_str()), q(&self.span(body.span)));
        let _ = write!(o, ",\"closure\":{}", self.tcx.is_closure_like(d));
        if let Some(p) = promoted {
            let _ = write!(o, ",\"promoted\":{}", p);
        }
        if let Some(sa) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", sa.as_usize());
        }
        let ls: Vec<String> = body.local_decls.iter().map(|l| self.ty(cx, l.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":{}", arr(&ls));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(cx, &p);
                names.push(format!("[{},{}]", q(v.name.as_str()), pl));
            }
        }
        let _ = write!(o, ",\"names\":{}", arr(&names));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                bbs.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                let sp = q(&self.span(s.source_info.span));
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let r = self.rvalue(cx, &b.1);
                        let pl = self.place(cx, &b.0);
                        st.push(format!("[\"=\",{},{},{}]", pl, r, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(cx, place);
                        st.push(format!("[\"sd\",{},{},{}]", pl, variant_index.as_usize(), sp));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => {
                            let x = self.operand(cx, op);
                            st.push(format!("[\"assume\",{}]", x));
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(cx, &c.src);
                            let b = self.operand(cx, &c.dst);
                            let n = self.operand(cx, &c.count);
                            st.push(format!("[\"copy\",{},{},{},{}]", a, b, n, sp));
                        }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = q(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let tid = self.ty(cx, dt);
                    let dd = self.operand(cx, discr);
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{},{}]", dd, arr(&ts), targets.otherwise().as_usize(), tid, sp)
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    let tid = self.ty(cx, pt);
                    format!("[\"drop\",{},{},{}]", self.place(cx, place), target.as_usize(), tid)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let c = self.callee(cx, func, body, todo);
                    let a: Vec<String> = args.iter().map(|x| self.operand(cx, &x.node)).collect();
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, self.tcx); self.ty(cx, t).to_string() }).collect();
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    let dtid = self.ty(cx, dt);
                    let dp = self.place(cx, destination);
                    format!("[\"call\",{},{},{},{},{},{},{}]", c, arr(&a), dp,
                        match target { Some(b) => b.as_usize().to_string(), None => "null".into() }, sp, dtid, arr(&at))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cx, cond);
                    let m = format!("{:?}", msg);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "divzero",
                        AssertKind::MisalignedPointerDereference { .. } => "misaligned",
                        AssertKind::NullPointerDereference => "null",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", c, expected, q(kind), q(&m), target.as_usize(), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                _ => "[\"other\"]".to_string(),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{}}}", arr(&st), term));
        }
        let _ = write!(o, ",\"blocks\":{}}}", arr(&bbs));
        o
    }
}

struct Cb {
    out: String,
    variant: String,
    stop: bool,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut d = Dump { tcx, types: vec![], type_ids: HashMap::new(), adts: BTreeMap::new(), bodies: BTreeMap::new(), seen: HashSet::new(), pending: vec![], fnvals: std::env::var("MIRDUMP_FNVALS").is_ok() };
        let mut roots = vec![];
        let only = std::env::var("MIRDUMP_ROOTS").unwrap_or_default();
        for ld in tcx.mir_keys(()).iter() {
            let did = ld.to_def_id();
            let dk = tcx.def_kind(did);
            if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let path = d.path(did);
            let _ = &only;
            let env = ty::TypingEnv::codegen(tcx, did);
            let cx = Ctx { env, root: path.clone() };
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(did, args);
            let mut todo = VecDeque::new();
            let key = d.key(&cx, &inst);
            let is_closure = tcx.is_closure_like(did);
            if !is_closure {
                todo.push_back(inst);
            }
            let mut guard = 0;
            while let Some(i) = todo.pop_front() {
                guard += 1;
                if guard > 200000 { break; }
                d.dump_instance(&cx, i, &mut todo);
            }
            let mut r = format!("{{\"path\":{},\"key\":{},\"closure\":{}", q(&path), q(&key), is_closure);
            let _ = write!(r, ",\"span\":{}", q(&d.span(tcx.def_span(did))));
            if let Some(n) = tcx.opt_item_name(did) {
                let _ = write!(r, ",\"name\":{}", q(n.as_str()));
            }
            let vis = tcx.visibility(did);
            let _ = write!(r, ",\"pub\":{}", vis.is_public());
            let ev = tcx.effective_visibilities(());
            let _ = write!(r, ",\"reachable\":{}", ev.is_reachable(*ld));
            if !is_closure {
                let sig = tcx.fn_sig(did).skip_binder();
                let _ = write!(r, ",\"unsafe\":{}", !sig.safety().is_safe());
                if let Some(imp) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    let _ = write!(r, ",\"self_ty\":{}", q(&ty::print::with_no_trimmed_paths!(format!("{}", st))));
                    if let ty::Adt(ad, _) = st.kind() {
                        let _ = write!(r, ",\"self_adt\":{}", q(&d.path(ad.did())));
                    }
                    if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                        let _ = write!(r, ",\"trait\":{}", q(&d.path(tr)));
                    }
                } else if let Some(tr) = tcx.trait_of_assoc(did) {
                    let _ = write!(r, ",\"trait_default\":{}", q(&d.path(tr)));
                }
            } else {
                let _ = write!(r, ",\"parent\":{}", q(&d.path(tcx.typeck_root_def_id(did))));
            }
            r.push('}');
            roots.push(r);
        }
        // statics, trait impls, of the local crate
        let mut statics = vec![];
        let mut impls = vec![];
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Static { .. } => statics.push(q(&d.path(did))),
                DefKind::Impl { of_trait: true } => {
                    let env = ty::TypingEnv::codegen(tcx, did);
                    let cx = Ctx { env, root: d.path(did) };
                    let tr = tcx.impl_opt_trait_id(did).unwrap();
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut items = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        items.push(q(it.name().as_str()));
                    }
                    let mut assoc = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        if matches!(it.kind, ty::AssocKind::Type { .. }) {
                            let at = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            let at = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(at)).unwrap_or(at);
                            assoc.push(format!("[{},{}]", q(it.name().as_str()), d.ty(&cx, at)));
                        }
                    }
                    let sid = d.ty(&cx, st);
                    let tr_ref = ty::print::with_no_trimmed_paths!(format!("{}", tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip()));
                    impls.push(format!("{{\"trait\":{},\"ref\":{},\"self\":{},\"items\":{},\"assoc\":{},\"span\":{}}}", q(&d.path(tr)), q(&tr_ref), sid, arr(&items), arr(&assoc), q(&d.span(tcx.def_span(did)))));
                }
                _ => {}
            }
        }
        let mut out = String::new();
        let _ = write!(out, "{{\"crate\":{},\"variant\":{},\n\"roots\":{},\n\"statics\":{},\n\"impls\":{},\n\"types\":[\n", q(&krate), q(&self.variant), arr(&roots), arr(&statics), arr(&impls));
        out.push_str(&d.types.join(",\n"));
        out.push_str("\n],\n\"bodies\":{\n");
        let bs: Vec<String> = d.bodies.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        out.push_str(&bs.join(",\n"));
        out.push_str("\n}}\n");
        let _ = &d.adts;
        let f = format!("{}/{}.{}.json", self.out, krate, self.variant);
        let tmp = format!("{}.tmp{}", f, std::process::id());
        std::fs::write(&tmp, out).expect("write dump");
        std::fs::rename(&tmp, &f).expect("rename dump");
        if self.stop { Compilation::Stop } else { Compilation::Continue }
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the path of the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let crates = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let mut name = String::new();
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
    }
    let is_test = args.iter().any(|a| a == "--test");
    let bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let want = !out.is_empty() && crates.split(',').any(|c| c == name) && !is_test
        && !(bin && std::env::var("MIRDUMP_BINS").unwrap_or_default().split(',').all(|b| b != name));
    args.push("-Zalways-encode-mir".into());
    args.push("-Zmir-opt-level=0".into());
    if want {
        let mut cb = Cb { out: out.clone(), variant: "debug".into(), stop: false };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
        if std::env::var("MIRDUMP_RELEASE").is_ok() {
            let mut a2 = args.clone();
            a2.push("-Cdebug-assertions=off".into());
            a2.push("-Coverflow-checks=off".into());
            let mut cb = Cb { out, variant: "release".into(), stop: true };
            rustc_driver::compiler_entrypoint(&a2, &mut cb);
        }
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
