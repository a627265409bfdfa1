"""Client programs of generated code.

Every group is a set of schema classes (compiled by abstract interpretation of
the schema compiler; the identifiers are rendered by their representatives)
and client programs that state what a user of the generated code relies on.
The generated code and its clients are type checked and then analysed with the
abstract interpreter of the run-time library, for all arguments."""
from families import INTS, FLOATS, SCALARS

PRELUDE = '''#![allow(unused, non_snake_case, non_camel_case_types, clippy::all)]
use butte::*;
#[inline(never)] pub fn spec_require(_cond: bool, _msg: &'static str) {}
#[inline(never)] pub fn spec_zeroed(s: &[u8]) -> bool { s.iter().all(|b| *b == 0) }
#[inline(never)] pub fn spec_assume(_cond: bool) {}
use spec_require as require; use spec_assume as assume;
fn bb<'f>() -> FlatBufferBuilder<'f> { FlatBufferBuilder::new_with_capacity(4096) }
fn tab<'a, T>(d: &'a [u8], o: WIPOffset<T>) -> Table<&'a [u8]> { Table::new(d, d.len() - o.value() as usize) }
fn ts<T: PartialEq>(r: Result<Option<T>, Error>, x: T) -> bool { match r { Ok(Some(y)) => y == x, _ => false } }
fn is<T: PartialEq>(r: Result<T, Error>, x: T) -> bool { match r { Ok(y) => y == x, _ => false } }
fn absent<T>(r: Result<Option<T>, Error>) -> bool { match r { Ok(None) => true, _ => false } }
fn missing<T>(r: Result<T, Error>) -> bool { match r { Err(Error::RequiredFieldMissing(_)) => true, _ => false } }
'''

def lit_of(t, v):
    r = SCALARS[t]
    if t == "bool": return "true" if v else "false"
    if isinstance(v, str): return {"nan": "std::%s::NAN", "inf": "std::%s::INFINITY", "-inf": "std::%s::NEG_INFINITY"}[v] % r
    if t in FLOATS: return "(%r as %s)" % (float(v), r)
    return "(%d as i128 as %s)" % (v, r)

def eqv(t, a, b):
    return "%s == %s" % (a, b)

# ---------------------------------------------------------------- scalars
def scalars():
    mods, code = {}, []
    for t, r in SCALARS.items():
        if t in INTS: lo, hi, mid = INTS[t][1], INTS[t][2], 77
        elif t == "bool": lo, hi, mid = False, True, True
        else: lo, hi, mid = -2.5e3, 1e30, 1.5
        sch = lambda v: ("true" if v else "false") if t == "bool" else ("%d" % v if t in INTS else repr(float(v)).replace("e+", "e"))
        mods["s_" + t] = "table `Tt` { `aa` : %s ; `bb` : %s = %s ; `cc` : %s = %s ; `dd` : %s = %s ; `ee` : %s ( required ) ; `ffGg` : %s = %s ( required ) ; }" % (
            t, t, sch(mid), t, sch(lo), t, sch(hi), t, t, sch(mid))
        zero = lit_of(t, False if t == "bool" else 0)
        M, L, H = lit_of(t, mid), lit_of(t, lo), lit_of(t, hi)
        nan = "assume(x == x); assume(y == y);" if t in FLOATS else ""
        opt = [("aa", 4, zero), ("bb", 6, M), ("cc", 8, L), ("dd", 10, H)]
        c = "pub mod c_%s { use super::*; use crate::s_%s as g;\n" % (t, t)
        for (p, ps, pd), (q, qs, qd) in ((opt[0], opt[1]), (opt[2], opt[3])):
            c += '''pub fn write_{p}_{q}(x: {r}, y: {r}) {{ {nan}
    let mut b = bb();
    let o = g::Tt::create(&mut b, &g::TtArgs {{ {p}: x, {q}: y, ..Default::default() }});
    let d = b.unfinished_data();
    let t = g::Tt::from(tab(d, o));
    require(ts(t.{p}(), x), "{p} reads back"); require(ts(t.{q}(), y), "{q} reads back");
    require(ts(tab(d, o).get::<{r}>({ps}, Some({pd})), x), "slot of {p}"); require(ts(tab(d, o).get::<{r}>({qs}, Some({qd})), y), "slot of {q}");
}}
'''.format(p=p, q=q, ps=ps, qs=qs, pd=pd, qd=qd, r=r, nan=nan)
        c += '''pub fn write_required(x: {r}, y: {r}) {{ {nan}
    let mut b = bb();
    let o = g::Tt::create(&mut b, &g::TtArgs {{ ee: x, ffGg: y, ..Default::default() }});
    let d = b.unfinished_data();
    let t = g::Tt::from(tab(d, o));
    require(is(t.ee(), x), "required ee reads back"); require(is(t.ff_gg(), y), "required ffGg reads back");
    require(ts(tab(d, o).get::<{r}>(12, None), x), "slot of ee"); require(ts(tab(d, o).get::<{r}>(14, None), y), "slot of ffGg");
    require(ts(t.aa(), {z}) && ts(t.bb(), {M}) && ts(t.cc(), {L}) && ts(t.dd(), {H}), "fields of default arguments have the default value of the schema");
}}
pub fn read(x: {r}, y: {r}) {{ {nan}
    let mut b = bb(); let s = b.start_table();
    b.push_slot_always(4, x); b.push_slot_always(6, y); b.push_slot_always(8, x); b.push_slot_always(10, y); b.push_slot_always(12, x); b.push_slot_always(14, y);
    let o = b.end_table(s); let d = b.unfinished_data();
    let t = g::Tt::from(tab(d, o));
    require(ts(t.aa(), x), "aa is slot 0"); require(ts(t.bb(), y), "bb is slot 1"); require(ts(t.cc(), x), "cc is slot 2"); require(ts(t.dd(), y), "dd is slot 3");
    require(is(t.ee(), x), "ee is slot 4"); require(is(t.ff_gg(), y), "ffGg is slot 5");
}}
pub fn absent_fields() {{
    let mut b = bb(); let s = b.start_table(); let o = b.end_table(s); let d = b.unfinished_data();
    let t = g::Tt::from(tab(d, o));
    require(ts(t.aa(), {z}), "absent: zero"); require(ts(t.bb(), {M}), "absent: declared default"); require(ts(t.cc(), {L}), "absent: lowest default"); require(ts(t.dd(), {H}), "absent: highest default");
}}
pub fn args_default() {{
    let a = g::TtArgs::default();
    require(a.aa == {z} && a.bb == {M} && a.cc == {L} && a.dd == {H} && a.ee == {z} && a.ffGg == {M}, "default arguments are the defaults of the schema");
}}
}}
'''.format(r=r, z=zero, M=M, L=L, H=H, nan=nan)
        code.append(c)
    # literals
    f = [("nan", "nan"), ("-inf", "-inf"), ("inf", "inf"), ("+infinity", "inf"), ("-infinity", "-inf"), ("+inf", "inf"), ("1e300", 1e300), ("0x1.8p3", 12.0), ("-0x1.8p-1", -0.75), (".5", .5), ("5.", 5.0), ("3", 3.0), ("+1.25E2", 125.0), ("-0x.8p1", -1.0), ("1e-7", 1e-7), ("1E5", 1e5), ("1e+2", 100.0), ("1.e2", 100.0), (".5E-1", .05), ("0.1", .1), ("0x1p3", 8.0), ("0X1P-3", .125), ("-0X1.8P+3", -12.0), ("0x1.8", 1.5), ("0xa.Bp0", 10.6875), ("-0x.8", -.5), ("0x10.p-1", 8.0), ("0X1F", 31.0), ("-0x10", -16.0), ("16777217", 16777217.0), ("-9007199254740993", -9007199254740992.0), ("+3", 3.0), ("-0.0", -0.0), ("007.50", 7.5), ("340282350000000000000000000000000000001.0", 340282350000000000000000000000000000001.0)]
    mods["s_lits"] = "table `Ll` { " + " ".join("d%d : double = %s ; f%d : float = %s ;" % (i, s, i, s) for i, (s, v) in enumerate(f)) + " }"
    ints = [("0x1F", 31), ("-0x10", -16), ("+7", 7), ("-0", 0), ("0X0a", 10), ("007", 7), ("+0x7fffffff", 2**31 - 1), ("-0x80000000", -2**31)]
    mods["s_ints"] = "table `Ii` { " + " ".join("i%d : int = %s ;" % (i, s) for i, (s, v) in enumerate(ints)) + " }"
    c = "pub mod c_lits { use super::*;\npub fn floats() { let mut b = bb(); let s = b.start_table(); let o = b.end_table(s); let d = b.unfinished_data(); let t = crate::s_lits::Ll::from(tab(d, o)); let a = crate::s_lits::LlArgs::default();\n"
    for i, (s, v) in enumerate(f):
        for p, ty, bits in (("d", "double", 64), ("f", "float", 32)):
            vv = v
            if ty == "float" and v == 1e300: vv = "inf"
            x = lit_of(ty, vv)
            if vv == "nan": c += 'require(match t.%s%d() { Ok(Some(x)) => x != x, _ => false }, "nan default"); require(a.%s%d != a.%s%d, "nan default argument");\n' % (p, i, p, i, p, i)
            else: c += 'require(ts(t.%s%d(), %s), "the default written %s is read"); require(a.%s%d == %s, "the default argument written %s");\n' % (p, i, x, s, p, i, x, s)
    c += "}\npub fn ints() { let mut b = bb(); let s = b.start_table(); let o = b.end_table(s); let d = b.unfinished_data(); let t = crate::s_ints::Ii::from(tab(d, o)); let a = crate::s_ints::IiArgs::default();\n"
    for i, (s, v) in enumerate(ints): c += 'require(ts(t.i%d(), %d), "the default written %s is read"); require(a.i%d == %d, "the default argument written %s");\n' % (i, v, s, i, v, s)
    c += "}\n}\n"
    code.append(c)
    return {"name": "gen_scalars", "mods": mods, "code": code}

# ---------------------------------------------------------------- references
def refs():
    mods, code = {}, []
    mods["r_tab"] = ("table `Par` { ss : string ; sr : string ( required ) ; cc : `Chi` ; cr : `Chi` ( required ) ; ii : int = 9 ; vc : [ `Chi` ] ; vs : [ string ] ; bs : [ ubyte ] ; "
        "ee : `Ee` ; ed : `Ee` = `V2` ; er : `Ee` ( required ) ; ve : [ `Ee` ] ; vv : [ [ int ] ] ; vr : [ ushort ] ( required ) ; } "
        "table `Chi` { vv : int ; ww : ubyte = 3 ; } enum `Ee` : short { `V1` , `V2` = 5 , `V3` }")
    mods["r_opt"] = "table `Par` { ss : string ; cc : `Par` ; vc : [ `Par` ] ; vs : [ string ] ; bs : [ ubyte ] ; ee : `Ee` ; } enum `Ee` : short { `V1` , `V2` = 5 , `V3` }"
    mods["r_empty"] = "table `Em` { }"
    mods["r_vec1"] = "table `Vv` { " + " ".join("v_%s : [ %s ] ;" % (t, t) for t in SCALARS) + " }"
    code.append('''pub mod c_refs { use super::*; use crate::r_tab as g; use crate::r_opt as h;
fn req<'f>(b: &mut FlatBufferBuilder<'f>) -> (WIPOffset<&'f str>, WIPOffset<g::Chi<&'f [u8]>>, WIPOffset<Vector<'f, u16>>) {
    let sr = b.create_string("r"); let cr = g::Chi::create(b, &g::ChiArgs { vv: 1, ww: 2 }); let vr = b.create_vector(&[9u16, 8u16]); (sr, cr, vr) }
pub fn strings(x: i32) {
    let mut b = bb(); let (sr, cr, vr) = req(&mut b); let ss = b.create_string("abc");
    let o = g::Par::create(&mut b, &g::ParArgs { ss: Some(ss), sr, cc: None, cr, ii: x, vc: None, vs: None, bs: None, ee: g::Ee::V3, ed: g::Ee::V1, er: g::Ee::V2, ve: None, vv: None, vr });
    let d = b.unfinished_data(); let t = g::Par::from(tab(d, o));
    require(ts(t.ss(), "abc"), "optional string reads back"); require(is(t.sr(), "r"), "required string reads back"); require(ts(t.ii(), x), "int after references reads back");
    require(ts(t.ee(), g::Ee::V3), "enum reads back"); require(ts(t.ed(), g::Ee::V1), "enum with a default reads back"); require(is(t.er(), g::Ee::V2), "required enum reads back");
    require(absent(t.cc()) && absent(t.vc()) && absent(t.vs()) && absent(t.bs()) && absent(t.ve()) && absent(t.vv()), "what was not given is absent");
    let raw = tab(d, o);
    require(ts(raw.get::<ForwardsUOffset<&str>>(4, None), "abc"), "slot of ss"); require(ts(raw.get::<ForwardsUOffset<&str>>(6, None), "r"), "slot of sr");
    require(ts(raw.get::<i32>(12, Some(9)), x), "slot of ii"); require(ts(raw.get::<i16>(20, None), 6), "slot of ee"); require(ts(raw.get::<i16>(22, Some(5)), 0), "slot of ed"); require(ts(raw.get::<i16>(24, None), 5), "slot of er");
    require(absent(raw.get::<ForwardsUOffset<&str>>(8, None)) && absent(raw.get::<ForwardsUOffset<&str>>(14, None)) && absent(raw.get::<ForwardsUOffset<&str>>(16, None)) && absent(raw.get::<ForwardsUOffset<&str>>(18, None)) && absent(raw.get::<ForwardsUOffset<&str>>(26, None)) && absent(raw.get::<ForwardsUOffset<&str>>(28, None)), "slots of what was not given are empty");
}
pub fn tables(x: i32, y: u8) {
    let mut b = bb(); let (sr, cr, vr) = req(&mut b); let cc = g::Chi::create(&mut b, &g::ChiArgs { vv: x, ww: y }); let vc = b.create_vector(&[cr, cc]);
    let o = g::Par::create(&mut b, &g::ParArgs { ss: None, sr, cc: Some(cc), cr, ii: 9, vc: Some(vc), vs: None, bs: None, ee: g::Ee::V1, ed: g::Ee::V2, er: g::Ee::V1, ve: None, vv: None, vr });
    let d = b.unfinished_data(); let t = g::Par::from(tab(d, o));
    let c = t.cc(); require(match c { Ok(Some(c)) => ts(c.vv(), x) && ts(c.ww(), y), _ => false }, "child table reads back");
    require(match t.cr() { Ok(c) => ts(c.vv(), 1) && ts(c.ww(), 2), _ => false }, "required child table reads back");
    require(ts(t.ii(), 9), "default int"); require(ts(t.ed(), g::Ee::V2), "default enum"); require(absent(t.ss()), "absent string");
    require(match t.vc() { Ok(Some(v)) => v.len() == Ok(2), _ => false }, "vector of tables has its length");
    require(match t.vc() { Ok(Some(v)) => match v.get(1) { Ok(c) => ts(c.vv(), x) && ts(c.ww(), y), _ => false }, _ => false }, "vector of tables has its second element");
    require(match t.vc() { Ok(Some(v)) => match v.get(0) { Ok(c) => ts(c.vv(), 1) && ts(c.ww(), 2), _ => false }, _ => false }, "vector of tables has its first element");
    let raw = tab(d, o);
    require(match raw.get::<ForwardsUOffset<g::Chi<&[u8]>>>(8, None) { Ok(Some(c)) => ts(c.vv(), x), _ => false }, "slot of cc");
    require(match raw.get::<ForwardsUOffset<g::Chi<&[u8]>>>(10, None) { Ok(Some(c)) => ts(c.vv(), 1), _ => false }, "slot of cr");
    require(match raw.get::<ForwardsUOffset<Vector<ForwardsUOffset<g::Chi<&[u8]>>>>>(14, None) { Ok(Some(v)) => v.len() == Ok(2), _ => false }, "slot of vc");
}
pub fn vectors(x: i32, p: u8, q: u16) {
    let mut b = bb(); let sr = b.create_string("r"); let cr = g::Chi::create(&mut b, &g::ChiArgs { vv: 1, ww: 2 }); let vr = b.create_vector(&[q]);
    let s1 = b.create_string("one"); let vs = b.create_vector(&[s1, sr]); let bs = b.create_vector(&[p, 7u8]); let ve = b.create_vector(&[g::Ee::V3, g::Ee::V1]);
    let in1 = b.create_vector(&[x]); let in2 = b.create_vector(&[4i32, x]); let vv = b.create_vector(&[in1, in2]);
    let o = g::Par::create(&mut b, &g::ParArgs { ss: None, sr, cc: None, cr, ii: 9, vc: None, vs: Some(vs), bs: Some(bs), ee: g::Ee::V1, ed: g::Ee::V2, er: g::Ee::V1, ve: Some(ve), vv: Some(vv), vr });
    let d = b.unfinished_data(); let t = g::Par::from(tab(d, o));
    require(match t.vs() { Ok(Some(v)) => v.len() == Ok(2) && is(v.get(0), "one") && is(v.get(1), "r"), _ => false }, "vector of strings reads back");
    require(match t.bs() { Ok(Some(v)) => v.len() == Ok(2) && is(v.get(0), p) && is(v.get(1), 7), _ => false }, "vector of bytes reads back");
    require(match t.ve() { Ok(Some(v)) => v.len() == Ok(2) && is(v.get(0), g::Ee::V3) && is(v.get(1), g::Ee::V1), _ => false }, "vector of enums reads back");
    require(match t.vr() { Ok(v) => v.len() == Ok(1) && is(v.get(0), q), _ => false }, "required vector reads back");
    require(match t.vv() { Ok(Some(v)) => v.len() == Ok(2) && (match v.get(0) { Ok(w) => w.len() == Ok(1) && is(w.get(0), x), _ => false }) && (match v.get(1) { Ok(w) => w.len() == Ok(2) && is(w.get(1), x), _ => false }), _ => false }, "nested vector reads back");
    let raw = tab(d, o);
    require(match raw.get::<ForwardsUOffset<Vector<ForwardsUOffset<&str>>>>(16, None) { Ok(Some(v)) => is(v.get(0), "one"), _ => false }, "slot of vs");
    require(match raw.get::<ForwardsUOffset<Vector<u8>>>(18, None) { Ok(Some(v)) => is(v.get(0), p), _ => false }, "slot of bs");
    require(match raw.get::<ForwardsUOffset<Vector<i16>>>(26, None) { Ok(Some(v)) => is(v.get(0), 6), _ => false }, "slot of ve");
    require(match raw.get::<ForwardsUOffset<Vector<u16>>>(30, None) { Ok(Some(v)) => is(v.get(0), q), _ => false }, "slot of vr");
}
fn fieldname(e: Error, n: &str) -> bool { match e { Error::RequiredFieldMissing(m) => m == n, _ => false } }
pub fn missing_required() {
    let mut b = bb(); let s = b.start_table(); let o = b.end_table(s); let d = b.unfinished_data(); let t = g::Par::from(tab(d, o));
    require(match t.sr() { Err(e) => fieldname(e, "sr"), _ => false }, "missing required string is an error naming the field");
    require(match t.cr() { Err(e) => fieldname(e, "cr"), _ => false }, "missing required table is an error naming the field");
    require(match t.er() { Err(e) => fieldname(e, "er"), _ => false }, "missing required enum is an error naming the field");
    require(match t.vr() { Err(e) => fieldname(e, "vr"), _ => false }, "missing required vector is an error naming the field");
    require(absent(t.ss()) && absent(t.cc()) && absent(t.vc()) && absent(t.vs()) && absent(t.bs()) && absent(t.ve()) && absent(t.vv()), "absent optional references are None");
    require(ts(t.ii(), 9), "absent int has the declared default"); require(ts(t.ed(), g::Ee::V2), "absent enum has the declared default");
}
pub fn unknown_enum(x: i16) {
    assume(x != 0 && x != 5 && x != 6);
    let mut b = bb(); let s = b.start_table(); b.push_slot_always(20, x); b.push_slot_always(22, x); b.push_slot_always(24, x); let o = b.end_table(s); let d = b.unfinished_data(); let t = g::Par::from(tab(d, o));
    require(match t.ee() { Err(Error::UnknownEnumVariant) => true, _ => false }, "unknown enum value is an error");
    require(match t.ed() { Err(Error::UnknownEnumVariant) => true, _ => false }, "unknown enum value in a field with a default is an error");
    require(match t.er() { Err(Error::UnknownEnumVariant) => true, _ => false }, "unknown enum value in a required field is an error");
}
pub fn args_default() {
    let a = h::ParArgs::default();
    require(a.ss.is_none() && a.cc.is_none() && a.vc.is_none() && a.vs.is_none() && a.bs.is_none(), "optional references default to nothing");
    require(a.ee == h::Ee::V1 && h::Ee::default() == h::Ee::V1, "an enum defaults to its first variant");
}
pub fn nothing_given() {
    let mut b = bb(); let o = h::Par::create(&mut b, &h::ParArgs::default()); let d = b.unfinished_data(); let t = h::Par::from(tab(d, o));
    require(absent(t.ss()) && absent(t.cc()) && absent(t.vc()) && absent(t.vs()) && absent(t.bs()), "default arguments give absent references");
}
pub fn empty_table() {
    let mut b = bb(); let o = crate::r_empty::Em::create(&mut b, &crate::r_empty::EmArgs {}); let o2 = crate::r_empty::Em::create(&mut b, &Default::default());
    require(o.value() <= o2.value(), "tables without fields can be created");
}
pub fn finished(x: i32) {
    let mut b = bb(); let ss = b.create_string("root"); let o = h::Par::create(&mut b, &h::ParArgs { ss: Some(ss), ee: h::Ee::V3, ..Default::default() });
    b.finish_minimal(o); let d = b.finished_data();
    require(match h::Par::get_root(d) { Ok(t) => ts(t.ss(), "root") && ts(t.ee(), h::Ee::V3) && absent(t.cc()), _ => false }, "the root table reads back");
}
pub fn owned(v: Vec<u8>) {
    let r = h::Par::get_root(v);
    match r { Ok(t) => { let _ = t.ss(); let _ = t.cc(); let _ = t.ee(); } Err(_) => {} }
    require(true, "an owned buffer of any contents can be read");
}
pub fn follow_eq(d: &[u8], l: usize) {
    let a = <h::Par<&[u8]> as Follow>::follow(d, l); let c = <h::Par<&[u8]> as FollowBuf>::follow_buf(d, l);
    require(a.is_ok() && c.is_ok(), "following a table reference succeeds"); 
}
}
''')
    c = "pub mod c_vec { use super::*; use crate::r_vec1 as g;\n"
    for i, (t, r) in enumerate(SCALARS.items()):
        nan = "assume(x == x); assume(y == y);" if t in FLOATS else ""
        get = lambda v, i, x: "ts(%s.get(%d), %s)" % (v, i, x)
        c += '''pub fn v_{t}(x: {r}, y: {r}) {{ {nan}
    let mut b = bb(); let v = b.create_vector(&[x, y]); let o = g::Vv::create(&mut b, &g::VvArgs {{ v_{t}: Some(v), ..Default::default() }});
    let d = b.unfinished_data(); let t = g::Vv::from(tab(d, o));
    require(match t.v_{t}() {{ Ok(Some(v)) => v.len() == Ok(2) && is(v.get(0), x) && is(v.get(1), y), _ => false }}, "vector reads back");
    require(match tab(d, o).get::<ForwardsUOffset<Vector<{r}>>>({s}, None) {{ Ok(Some(v)) => is(v.get(1), y), _ => false }}, "slot of the vector");
}}
'''.format(t=t, r=r, s=4 + 2 * i, nan=nan)
    code.append(c + "}\n")
    return {"name": "gen_refs", "mods": mods, "code": code}

# ---------------------------------------------------------------- enums
def enum_table(t):
    lo, hi = INTS[t][1], INTS[t][2]
    neg = lo if lo < 0 else 100
    return [("V1", None, 0), ("V2", None, 1), ("V3", 7, 7), ("V4", None, 8), ("V5", hi, hi), ("V6", neg, neg), ("V7", None, neg + 1), ("v_8", "0x20", 32), ("V9", None, 33)]

def enums():
    mods, code = {}, []
    for t, (r, lo, hi) in INTS.items():
        vs = enum_table(t)
        mods["e_" + t] = ("enum `Ee` : %s { " % t + " , ".join("`%s`" % n + ("" if v is None else " = %s" % v) for n, v, _ in vs) + " } enum `Only` : %s { `One` = 3 } " % t
            + "table `Tt` { ee : `Ee` ; ed : `Ee` = `V4` ; xx : [ `Ee` ] ; er : `Ee` ( required ) ; eo : `Only` ; }")
        L = lambda v: "(%d as i128 as %s)" % (v, r)
        c = "pub mod c_e_%s { use super::*; use crate::e_%s as g; use std::convert::TryFrom;\n" % (t, t)
        c += "pub fn to_int() { " + " ".join('require(<%s>::from(g::Ee::%s) == %s && g::Ee::%s as %s == %s, "%s has its value");' % (r, n, L(v), n, r, L(v), n) for n, _, v in vs) + ' require(<%s>::from(g::Only::One) == 3, "single variant has its value"); }\n' % r
        c += "pub fn from_int(x: %s) { let e = g::Ee::try_from(x);\n" % r
        for n, _, v in vs: c += ' if x == %s { require(e == Ok(g::Ee::%s), "%s is read from its value"); return; }\n' % (L(v), n, n)
        c += ' require(match e { Err(Error::UnknownEnumVariant) => true, _ => false }, "every other value is an unknown variant"); }\n'
        c += "pub fn from_int_single(x: %s) { let e = g::Only::try_from(x); require(if x == 3 { e == Ok(g::Only::One) } else { match e { Err(Error::UnknownEnumVariant) => true, _ => false } }, \"only declared values are variants\"); }\n" % r
        c += "pub fn names() { " + " ".join('require(g::enum_name_ee(g::Ee::%s) == "%s", "name of %s");' % (n, n, n) for n, _, v in vs) + ' require(g::enum_name_only(g::Only::One) == "One", "name of a single variant"); }\n'
        c += 'pub fn order() { require(g::Ee::default() == g::Ee::V1 && g::Only::default() == g::Only::One, "the default is the first variant"); require(g::Ee::V1 < g::Ee::V2, "variants are ordered"); }\n'
        for n, _, v in vs:
            c += '''pub fn stored_{n}() {{
    let mut b = bb(); let xx = b.create_vector(&[g::Ee::{n}]); let o = g::Tt::create(&mut b, &g::TtArgs {{ ee: g::Ee::{n}, ed: g::Ee::{n}, xx: Some(xx), er: g::Ee::{n}, eo: g::Only::One }});
    let d = b.unfinished_data(); let t = g::Tt::from(tab(d, o)); let raw = tab(d, o);
    require(ts(t.ee(), g::Ee::{n}), "enum reads back"); require(ts(t.ed(), g::Ee::{n}), "enum with a default reads back"); require(is(t.er(), g::Ee::{n}), "required enum reads back"); require(ts(t.eo(), g::Only::One), "single variant reads back");
    require(match t.xx() {{ Ok(Some(v)) => v.len() == Ok(1) && is(v.get(0), g::Ee::{n}), _ => false }}, "enum in a vector reads back");
    require(ts(raw.get::<{r}>(4, None), {v}), "stored with its base type"); require(ts(raw.get::<{r}>(6, Some(8)), {v}), "stored with its base type, default"); require(ts(raw.get::<{r}>(10, None), {v}), "stored with its base type, required");
    require(match raw.get::<ForwardsUOffset<Vector<{r}>>>(8, None) {{ Ok(Some(v)) => is(v.get(0), {v}), _ => false }}, "stored with its base type in a vector");
    require(std::mem::size_of::<g::Ee>() == std::mem::size_of::<{r}>() && std::mem::align_of::<g::Ee>() == std::mem::align_of::<{r}>(), "has the size of its base type");
}}
'''.format(n=n, r=r, v=L(v))
        code.append(c + "}\n")
    # many variants
    N = 300
    mods["e_big"] = ("enum Ee : ushort { " + " , ".join("V%d" % i for i in range(N)) + " } table Tt { ee : Ee ; ed : Ee = V%d ; xx : [ Ee ] ; er : Ee ( required ) ; }" % (N - 1))
    c = """pub mod c_e_big { use super::*; use crate::e_big as g; use std::convert::TryFrom;
pub fn from_int(x: u16) { match g::Ee::try_from(x) { Ok(e) => require(x < %d && u16::from(e) == x, "variants have their values"), Err(Error::UnknownEnumVariant) => require(x >= %d, "only other values are unknown"), _ => require(false, "other errors") } }
pub fn defaults() { let a = g::TtArgs { ee: Default::default(), ed: g::Ee::V%d, xx: None, er: Default::default() }; let mut b = bb(); let o = g::Tt::create(&mut b, &a); let d = b.unfinished_data(); let t = g::Tt::from(tab(d, o)); require(a.er == g::Ee::V0, "the default is the first variant"); require(ts(t.ed(), g::Ee::V%d), "the declared default"); require(is(t.er(), g::Ee::V0), "required, equal to its default"); }
""" % (N, N, N - 1, N - 1)
    for i in (0, 1, 127, 128, 255, 256, N - 1):
        c += """pub fn stored_V%(i)d() { let mut b = bb(); let xx = b.create_vector(&[g::Ee::V%(i)d]); let o = g::Tt::create(&mut b, &g::TtArgs { ee: g::Ee::V%(i)d, ed: g::Ee::V%(i)d, xx: Some(xx), er: g::Ee::V%(i)d }); let d = b.unfinished_data(); let t = g::Tt::from(tab(d, o)); let raw = tab(d, o);
    require(ts(t.ee(), g::Ee::V%(i)d), "enum reads back"); require(ts(t.ed(), g::Ee::V%(i)d), "enum with a default reads back"); require(is(t.er(), g::Ee::V%(i)d), "required enum reads back"); require(match t.xx() { Ok(Some(v)) => v.len() == Ok(1) && is(v.get(0), g::Ee::V%(i)d), _ => false }, "enum in a vector reads back");
    require(ts(raw.get::<u16>(4, None), %(i)d) && ts(raw.get::<u16>(10, None), %(i)d), "stored with its base type"); require(g::Ee::V%(i)d as u16 == %(i)d && g::enum_name_ee(g::Ee::V%(i)d) == "V%(i)d", "value and name"); }
""" % {"i": i}
    code.append(c + "}\n")
    return {"name": "gen_enums", "mods": mods, "code": code}

# ---------------------------------------------------------------- unions
def unions():
    mods, code = {}, []
    body = ("table `Aa` { xx : int ; } table `Bb` { ss : string ; } table `Cc` { yy : ubyte = 4 ; uu : `Uu` ; } union `Uu` { `Aa` , `Bb` , `Cc` } "
        "table `Hold` { pre : short = 2 ; uu : `Uu` ; mid : int ; vV : `Uu` ; post : [ ubyte ] ; } table `Req` { uu : `Uu` ( required ) ; post : int ; } union `One` { `Bb` } table `Single` { oo : `One` ; }")
    # the same declarations, in another order and in a namespace
    mods["u_tab"] = body
    mods["u_fwd"] = ("table `Hold` { pre : short = 2 ; uu : `Uu` ; mid : int ; vV : `Uu` ; post : [ ubyte ] ; } table `Single` { oo : `One` ; } table `Req` { uu : `Uu` ( required ) ; post : int ; } union `One` { `Bb` } union `Uu` { `Aa` , `Bb` , `Cc` } "
        "table `Cc` { yy : ubyte = 4 ; uu : `Uu` ; } table `Bb` { ss : string ; } table `Aa` { xx : int ; }")
    mods["u_ns"] = "namespace `nn` ; " + body
    mods["u_doc"] = "namespace `nn` . `mm` ; " + body.replace("`Aa` , `Bb` , `Cc` }", "/// one\n`Aa` = 1 , /// two\n`Bb` , `Cc` , }")
    for m, p in (("u_tab", "crate::u_tab"), ("u_fwd", "crate::u_fwd"), ("u_ns", "crate::u_ns::nn"), ("u_doc", "crate::u_doc::nn::mm")):
        code.append('''pub mod c_%s { use super::*; use %s as g; use %s::butte_gen::UuType as K; use std::convert::TryFrom;
fn aa<'f>(b: &mut FlatBufferBuilder<'f>, x: i32) -> WIPOffset<UnionWIPOffset> { let o = g::Aa::create(b, &g::AaArgs { xx: x }); o.as_union_value() }
pub fn kinds(x: u8) {
    require(u8::from(K::None) == 0 && u8::from(K::Aa) == 1 && u8::from(K::Bb) == 2 && u8::from(K::Cc) == 3, "variants are numbered from 1 in the order of declaration, None is 0");
    require(u8::from(g::butte_gen::OneType::Bb) == 1 && g::butte_gen::OneType::default() == g::butte_gen::OneType::None, "a union of one variant numbers it 1");
    let k = K::try_from(x);
    require(match x { 0 => k == Ok(K::None), 1 => k == Ok(K::Aa), 2 => k == Ok(K::Bb), 3 => k == Ok(K::Cc), _ => match k { Err(Error::UnknownEnumVariant) => true, _ => false } }, "only declared kinds are kinds");
    require(K::default() == K::None, "the default kind is None"); require(std::mem::size_of::<K>() == 1, "a kind is a byte");
}
pub fn first(x: i32, m: i32) {
    let mut b = bb(); let u = aa(&mut b, x); let o = g::Hold::create(&mut b, &g::HoldArgs { uu_type: K::Aa, uu: Some(u), mid: m, ..Default::default() });
    let d = b.unfinished_data(); let t = g::Hold::from(tab(d, o)); let raw = tab(d, o);
    require(ts(t.uu_type(), K::Aa), "the kind reads back");
    require(match t.uu() { Ok(Some(g::Uu::Aa(a))) => ts(a.xx(), x), _ => false }, "the value reads back as the first variant");
    require(match t.uu() { Ok(Some(u)) => u.get_type() == K::Aa, _ => false }, "get_type of the first variant");
    require(match t.v_v() { Ok(None) => true, _ => false } && ts(t.v_v_type(), K::None), "the union that was not given is absent");
    require(ts(t.mid(), m) && ts(t.pre(), 2), "fields around a union keep their values");
    require(ts(raw.get::<u8>(6, None), 1) && ts(raw.get::<i32>(10, Some(0)), m) && ts(raw.get::<u8>(12, None), 0), "a union takes the slot of its kind and the one of its value");
    require(match raw.get::<ForwardsUOffset<g::Aa<&[u8]>>>(8, None) { Ok(Some(a)) => ts(a.xx(), x), _ => false }, "the value is in the slot after the kind");
    require(absent(raw.get::<ForwardsUOffset<g::Aa<&[u8]>>>(14, None)) && absent(raw.get::<ForwardsUOffset<g::Aa<&[u8]>>>(16, None)), "slots of what was not given are empty");
}
pub fn second(p: u8) {
    let mut b = bb(); let s = b.create_string("hello"); let o = g::Bb::create(&mut b, &g::BbArgs { ss: Some(s) }); let u = o.as_union_value(); let post = b.create_vector(&[p]);
    let o = g::Hold::create(&mut b, &g::HoldArgs { v_v_type: K::Bb, vV: Some(u), post: Some(post), ..Default::default() });
    let d = b.unfinished_data(); let t = g::Hold::from(tab(d, o)); let raw = tab(d, o);
    require(ts(t.v_v_type(), K::Bb), "the kind reads back");
    require(match t.v_v() { Ok(Some(g::Uu::Bb(a))) => ts(a.ss(), "hello"), _ => false }, "the value reads back as the second variant");
    require(match t.v_v() { Ok(Some(u)) => u.get_type() == K::Bb, _ => false }, "get_type of the second variant");
    require(match t.uu() { Ok(None) => true, _ => false }, "the union that was not given is absent");
    require(match t.post() { Ok(Some(v)) => is(v.get(0), p), _ => false }, "the field after a union reads back");
    require(ts(raw.get::<u8>(12, None), 2) && match raw.get::<ForwardsUOffset<Vector<u8>>>(16, None) { Ok(Some(v)) => is(v.get(0), p), _ => false }, "slots of the fields after unions");
}
pub fn third(x: i32, y: u8) {
    let mut b = bb(); let i = aa(&mut b, x); let o = g::Cc::create(&mut b, &g::CcArgs { yy: y, uu_type: K::Aa, uu: Some(i) }); let u = o.as_union_value();
    let o = g::Req::create(&mut b, &g::ReqArgs { uu_type: K::Cc, uu: u, post: 5 });
    let d = b.unfinished_data(); let t = g::Req::from(tab(d, o));
    require(is(t.uu_type(), K::Cc), "the kind of a required union reads back");
    require(match t.uu() { Ok(g::Uu::Cc(c)) => ts(c.yy(), y) && match c.uu() { Ok(Some(g::Uu::Aa(a))) => ts(a.xx(), x), _ => false }, _ => false }, "a union in a union reads back");
    require(match t.uu() { Ok(u) => u.get_type() == K::Cc, _ => false }, "get_type of the third variant"); require(ts(t.post(), 5), "the field after a required union reads back");
}
pub fn absent_unions() {
    let mut b = bb(); let s = b.start_table(); let o = b.end_table(s); let d = b.unfinished_data(); let t = g::Hold::from(tab(d, o)); let r = g::Req::from(tab(d, o));
    require(match t.uu() { Ok(None) => true, _ => false } && absent(t.uu_type()), "an absent union is None");
    require(match r.uu_type() { Err(Error::RequiredFieldMissing(n)) => n == "uu_type", _ => false }, "a missing required kind is an error naming the field");
    require(match r.uu() { Err(Error::RequiredFieldMissing(_)) => true, _ => false }, "a missing required union is an error");
}
pub fn kind_without_value() {
    let mut b = bb(); let s = b.start_table(); b.push_slot_always(6, 1u8); let o = b.end_table(s); let d = b.unfinished_data(); let t = g::Hold::from(tab(d, o));
    require(match t.uu() { Ok(None) => true, _ => false }, "a kind without a value is None");
    let mut b = bb(); let s = b.start_table(); b.push_slot_always(4, 2u8); let o = b.end_table(s); let d = b.unfinished_data(); let r = g::Req::from(tab(d, o));
    require(match r.uu() { Err(Error::RequiredFieldMissing(n)) => n == "uu", _ => false }, "a required union without a value is an error naming the field");
}
pub fn none_kind(x: i32) {
    let mut b = bb(); let u = aa(&mut b, x); let s = b.start_table(); b.push_slot_always(6, u); b.push_slot_always(4, 0u8); let o = b.end_table(s); let d = b.unfinished_data(); let r = g::Req::from(tab(d, o));
    require(match r.uu() { Err(Error::RequiredFieldMissing(n)) => n == "uu", _ => false }, "a required union of kind None is an error naming the field");
    let mut b = bb(); let u = aa(&mut b, x); let o = g::Hold::create(&mut b, &g::HoldArgs { uu_type: K::None, uu: Some(u), ..Default::default() }); let d = b.unfinished_data(); let t = g::Hold::from(tab(d, o));
    require(match t.uu() { Ok(None) => true, _ => false }, "a value of kind None is not read");
}
pub fn unknown_kind(k: u8, x: i32) {
    assume(k > 3);
    let mut b = bb(); let u = aa(&mut b, x); let s = b.start_table(); b.push_slot_always(6, k); b.push_slot_always(8, u); b.push_slot_always(4, k); let o = b.end_table(s); let d = b.unfinished_data(); let t = g::Hold::from(tab(d, o)); let r = g::Req::from(tab(d, o));
    require(match t.uu() { Err(Error::UnknownEnumVariant) => true, _ => false } && match t.uu_type() { Err(Error::UnknownEnumVariant) => true, _ => false }, "an unknown kind is an error");
    require(match r.uu() { Err(Error::UnknownEnumVariant) => true, _ => false }, "an unknown kind of a required union is an error");
}
pub fn args_default() {
    let a = g::HoldArgs::default(); require(a.uu.is_none() && a.vV.is_none() && a.uu_type == K::None && a.v_v_type == K::None && a.mid == 0 && a.pre == 2 && a.post.is_none(), "unions default to nothing");
}
pub fn single(x: i32) {
    let mut b = bb(); let s = b.create_string("s"); let o = g::Bb::create(&mut b, &g::BbArgs { ss: Some(s) }); let u = o.as_union_value();
    let o = g::Single::create(&mut b, &g::SingleArgs { oo_type: g::butte_gen::OneType::Bb, oo: Some(u) }); let d = b.unfinished_data(); let t = g::Single::from(tab(d, o));
    require(match t.oo() { Ok(Some(g::One::Bb(a))) => ts(a.ss(), "s"), _ => false }, "a union of one variant reads back");
    require(ts(tab(d, o).get::<u8>(4, None), 1), "kind of a union of one variant");
}
pub fn names() { require(g::butte_gen::enum_name_uu_type(K::None) == "None" && g::butte_gen::enum_name_uu_type(K::Cc) == "Cc" && g::butte_gen::enum_name_uu_type(K::Aa) == "Aa", "names of kinds"); }
}
''' % (m, p, p))
    mods["u_val"] = "table `Aa` { xx : int ; } table `Bb` { ss : string ; } table `Cc` { yy : ubyte ; } union `Uu` { `Aa` = 7 , `Bb` , `Cc` = 0x2 } table `Hold` { uu : `Uu` ; rr : `Uu` ( required ) ; } union `Top` { `Aa` = 255 }"
    code.append('''pub mod c_u_val { use super::*; use crate::u_val as g; use crate::u_val::butte_gen::UuType as K; use std::convert::TryFrom;
pub fn kinds(x: u8) {
    require(u8::from(K::None) == 0 && u8::from(K::Aa) == 7 && u8::from(K::Bb) == 8 && u8::from(K::Cc) == 2 && u8::from(g::butte_gen::TopType::Aa) == 255, "variants have their declared values");
    let k = K::try_from(x); require(match x { 0 => k == Ok(K::None), 7 => k == Ok(K::Aa), 8 => k == Ok(K::Bb), 2 => k == Ok(K::Cc), _ => match k { Err(Error::UnknownEnumVariant) => true, _ => false } }, "only declared kinds are accepted");
}
pub fn back(x: i32, y: u8) {
    let mut b = bb(); let u = g::Aa::create(&mut b, &g::AaArgs { xx: x }).as_union_value(); let v = g::Cc::create(&mut b, &g::CcArgs { yy: y }).as_union_value();
    let o = g::Hold::create(&mut b, &g::HoldArgs { uu_type: K::Aa, uu: Some(u), rr_type: K::Cc, rr: v }); let d = b.unfinished_data(); let t = g::Hold::from(tab(d, o));
    require(match t.uu() { Ok(Some(g::Uu::Aa(a))) => ts(a.xx(), x), _ => false } && match t.rr() { Ok(g::Uu::Cc(a)) => ts(a.yy(), y), _ => false }, "unions with declared values read back");
    require(ts(tab(d, o).get::<u8>(4, None), 7) && ts(tab(d, o).get::<u8>(8, None), 2), "the declared value is stored as the kind");
}
}
''')
    # many members
    N = 140
    mods["u_big"] = " ".join("table M%d { x : int ; }" % i for i in range(N)) + " union Uu { " + " , ".join("M%d" % i for i in range(N)) + " } table Hold { u : Uu ; r : Uu ( required ) ; x : int ; }"
    c = """pub mod c_u_big { use super::*; use crate::u_big as g; use crate::u_big::butte_gen::UuType as K; use std::convert::TryFrom;
pub fn kinds(x: u8) { match K::try_from(x) { Ok(k) => require(x <= %d && u8::from(k) == x, "kinds have their values"), Err(Error::UnknownEnumVariant) => require(x > %d, "only other values are unknown"), _ => require(false, "other errors") } }
""" % (N, N)
    for i in (0, 63, 126, 127, 128, N - 1):
        c += """pub fn member_M%(i)d(x: i32, y: i32) { let mut b = bb(); let o = g::M%(i)d::create(&mut b, &g::M%(i)dArgs { x }); let u = o.as_union_value(); let o = g::Hold::create(&mut b, &g::HoldArgs { u_type: K::M%(i)d, u: Some(u), r_type: K::M%(i)d, r: u, x: y }); let d = b.unfinished_data(); let t = g::Hold::from(tab(d, o)); let raw = tab(d, o);
    require(ts(t.u_type(), K::M%(i)d) && is(t.r_type(), K::M%(i)d) && ts(t.x(), y), "kinds and neighbours read back"); require(match t.u() { Ok(Some(g::Uu::M%(i)d(m))) => ts(m.x(), x), _ => false }, "the member reads back"); require(match t.r() { Ok(g::Uu::M%(i)d(m)) => ts(m.x(), x), _ => false }, "the member of a required union reads back");
    require(ts(raw.get::<u8>(4, None), %(k)d) && ts(raw.get::<u8>(8, None), %(k)d), "the kind is stored in its slot"); }
""" % {"i": i, "k": i + 1}
    code.append(c + "}\n")
    return {"name": "gen_unions", "mods": mods, "code": code}

# ---------------------------------------------------------------- names
KEYWORDS = ("as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while "
    "abstract become box do final macro override priv try typeof unsized virtual yield").split()
def sub(k): return "ty" if k == "type" else k + "_"
def low(k): return "self_" if k == "Self" else sub(k)
def names():
    mods, code = {}, []
    for k in KEYWORDS:
        n = "x_" + k + ("2" if k == "Self" else "")
        cap = k.capitalize() if k != "Self" else "SELF"
        d = "`V2`" if k in ("true", "false") else k
        mods[n] = ("namespace %s ; table %s { %s : int ; other : [ %s ] ; after : ushort = 3 ; } table `Cap` { %s : int ; } enum `En` : short { `V0` , %s , `V2` } table `Uses` { ee : `En` = %s ; tt : %s ; qq : %s . %s ; } " % (k, k, k, k, cap, k, d, k, k, k)
            + "union `Un` { `Uses` , %s } table `Hold` { %s : `Un` ; zz : int ; } namespace `Other` . %s ; table `Far` { a : %s . %s ; e : %s . `En` = `V2` ; } enum %s : byte { `V1` } table `Near` { e : %s ; f : `Other` . %s . `Far` ; } " % (k, k, cap, k, k, k, k, k, cap))
        S, L = sub(k), low(k)
        c = '''pub mod c_%s { use super::*; use crate::%s::%s as g; use crate::%s::other::%s as o;
''' % (n, n, L, n, L)
        c += '''pub fn table(x: i32, y: u16) {{
    let mut b = bb(); let o = g::{S}::create(&mut b, &g::{S}Args {{ {S}: x, other: None, after: y }}); let d = b.unfinished_data(); let t = g::{S}::from(tab(d, o));
    require(ts(t.{L}(), x) && ts(t.after(), y) && absent(t.other()), "a field named by a keyword reads back"); require(ts(tab(d, o).get::<i32>(4, Some(0)), x), "slot of a field named by a keyword");
    let a = g::{S}Args::default(); require(a.{S} == 0 && a.after == 3, "default arguments");
}}
pub fn enum_(x: i16) {{
    require(g::En::{S} as i16 == 1 && g::En::V2 as i16 == 2, "values of variants named by keywords");
    let mut b = bb(); let o = g::Uses::create(&mut b, &g::UsesArgs {{ ee: g::En::{S}, tt: None, qq: None }}); let d = b.unfinished_data(); let t = g::Uses::from(tab(d, o));
    require(ts(t.ee(), g::En::{S}) && absent(t.tt()) && absent(t.qq()), "a variant named by a keyword reads back");
    let a = g::UsesArgs::default(); require(a.ee == g::En::{D}, "default argument of an enum");
}}
pub fn union_(x: i32) {{
    let mut b = bb(); let u = g::{S}::create(&mut b, &g::{S}Args {{ {S}: x, other: None, after: 3 }}); let o = g::Hold::create(&mut b, &g::HoldArgs {{ {K}_type: g::butte_gen::UnType::{S}, {S}: Some(u.as_union_value()), zz: 4 }});
    let d = b.unfinished_data(); let t = g::Hold::from(tab(d, o)); require(match t.{L}() {{ Ok(Some(g::Un::{S}(a))) => ts(a.{L}(), x), _ => false }}, "a union field and variant named by a keyword reads back"); require(ts(t.zz(), 4), "field after it");
}}
pub fn far(x: i32) {{
    let mut b = bb(); let a = g::{S}::create(&mut b, &g::{S}Args {{ {S}: x, other: None, after: 3 }}); let f = o::Far::create(&mut b, &o::FarArgs {{ a: Some(a), e: g::En::V0 }});
    let d = b.unfinished_data(); let t: o::Far<&[u8]> = o::Far::from(tab(d, f)); require(match t.a() {{ Ok(Some(a)) => {{ let a: g::{S}<&[u8]> = a; ts(a.{L}(), x) }} _ => false }}, "a table of another namespace reads back"); require(ts(t.e(), g::En::V0), "an enum of another namespace reads back");
}}
pub fn near() {{ let a = o::NearArgs::default(); let e: o::{S} = a.e; require(e == o::{S}::V1 && a.f.is_none(), "an enum named by a keyword"); }}
}}
'''.format(S=S, L=L, D="V2" if d == "`V2`" else S, K="self" if k == "Self" else "ty" if k == "type" else k)
        code.append(c)
    # names of the schema grammar and its types, in every position of an identifier
    for k in ["table", "union", "namespace", "include", "root_type", "rpc_service", "attribute", "file_extension", "file_identifier", "required", "streaming", "None", "Some", "Vec", "butte", "std", "core", "nan", "inf", "infinity", "Table", "Vector", "Follow", "Push", "WIPOffset", "FlatBufferBuilder", "Error", "Default", "fbb", "start", "args", "builder", "buf", "loc", "x", "o", "value", "dst", "e", "a", "s", "create", "get_root", "new", "finish", "follow", "Option", "Result", "Ok", "Err", "B", "T", "u8", "i32", "usize", "str", "_x", "x_", "x__y", "Inner", "Output", "Buf"]:
        n = "w_" + k
        mods[n] = "table `Tt` { %s : int ; after : ushort = 3 ; } table `Ur` { %s : string ; %s2 : [ ubyte ] ( required ) ; } enum `En` : short { `V0` , %s , `V2` } table `Uses` { ee : `En` ; } " % (k, k, k, k)
        S = {"Table": "table", "Vector": "vector", "Follow": "follow", "Push": "push", "WIPOffset": "wip_offset", "FlatBufferBuilder": "flat_buffer_builder", "Error": "error", "Default": "default", "None": "none", "Some": "some", "Vec": "vec", "create": "create_", "get_root": "get_root_", "Option": "option", "Result": "result", "Ok": "ok", "Err": "err", "B": "b", "T": "t", "Inner": "inner", "Output": "output", "Buf": "buf", "_x": "x", "x_": "x", "x__y": "x_y"}.get(k, k)
        S2 = {"create": "create2", "get_root": "get_root2"}.get(k, {"_x": "x2", "x_": "x_2", "x__y": "x_y2"}.get(k, S + "2"))
        code.append('''pub mod c_{n} {{ use super::*; use crate::{n} as g;
pub fn table(x: i32, y: u16) {{
    let mut b = bb(); let o = g::Tt::create(&mut b, &g::TtArgs {{ {k}: x, after: y }}); let d = b.unfinished_data(); let t = g::Tt::from(tab(d, o));
    require(ts(t.{S}(), x) && ts(t.after(), y), "the field reads back"); require(ts(tab(d, o).get::<i32>(4, Some(0)), x), "slot of the field");
}}
pub fn refs(p: u8) {{
    let mut b = bb(); let s = b.create_string("x"); let v = b.create_vector(&[p]); let o = g::Ur::create(&mut b, &g::UrArgs {{ {k}: Some(s), {k}2: v }}); let d = b.unfinished_data(); let t = g::Ur::from(tab(d, o));
    require(ts(t.{S}(), "x"), "the string reads back"); require(match t.{S2}() {{ Ok(v) => is(v.get(0), p), _ => false }}, "the vector reads back");
}}
pub fn enum_() {{ require(g::En::{k} as i16 == 1 && g::enum_name_en(g::En::{k}) == "{k}", "the variant has its value and name"); }}
}}
'''.format(n=n, k=k, S=S, S2=S2))
    # names generated code refers to, as names of types and namespaces
    for k in ["B", "T", "Option", "Result", "Some", "None", "Ok", "Err", "Vec", "String", "From", "Into", "TryFrom", "AsRef", "Default", "Debug", "Copy", "Clone", "PartialEq", "Eq", "Ord", "Hash", "butte", "std", "core", "alloc",
              "Table", "Vector", "Follow", "FollowBuf", "Error", "Push", "FlatBufferBuilder", "WIPOffset", "UnionWIPOffset", "ForwardsUOffset", "VOffsetT", "Buf", "Inner", "Output", "create", "table", "new", "fbb", "self_"]:
        n = "y_" + k
        mods[n] = ("table `Root` { far : %s . `Aq` ; two : `Za` . %s . `Aq` ; } namespace `Ta` ; table %s { x : int ; s : string ; v : [ %s ] ; r : string ( required ) ; } table `Uq` { f : %s ; v : [ %s ] ; u : `Qq` ; } table `Bq` { x : int ; } union `Qq` { `Bq` %s } " % (k, k, k, k, k, k, "" if k == "None" else ", " + k)
            + "namespace `Ea` ; enum %s : byte { `Va` , `Vb` } table `Uq` { f : %s ; g : %s = `Vb` ; v : [ %s ] ; s : string ; } namespace `Ua` ; table `Bq` { x : int ; } union %s { `Bq` } table `Uq` { f : %s ; g : %s ( required ) ; s : string ; } " % (k, k, k, k, k, k, k)
            + "namespace %s ; table `Aq` { s : string ; v : [ `Aq` ] ; r : string ( required ) ; } enum `Eq` : byte { `Va` , `Vb` } union `Qu` { `Aq` } table `Uq` { e : `Eq` ; q : `Qu` ; } namespace `Za` . %s ; table `Aq` { x : int ; a : %s . `Aq` ; }" % (k, k, k))
        m = {"butte": "butte", "B": "b", "T": "t", "FlatBufferBuilder": "flat_buffer_builder", "WIPOffset": "wip_offset", "UnionWIPOffset": "union_wip_offset", "ForwardsUOffset": "forwards_u_offset", "VOffsetT": "v_offset_t", "FollowBuf": "follow_buf", "PartialEq": "partial_eq", "TryFrom": "try_from", "AsRef": "as_ref", "self_": "self_"}.get(k, k.lower())
        code.append('''pub mod c_{n} {{ use super::*; use crate::{n} as g;
pub fn table(x: i32) {{
    let mut b = bb(); let s = b.create_string("s"); let o = g::ta::{k}::create(&mut b, &g::ta::{k}Args {{ x, s: None, v: None, r: s }}); let v = b.create_vector(&[o]);
    let o = g::ta::Uq::create(&mut b, &g::ta::UqArgs {{ f: Some(o), v: Some(v), u_type: g::ta::butte_gen::QqType::None, u: None }}); let d = b.unfinished_data(); let t = g::ta::Uq::from(tab(d, o));
    require(match t.f() {{ Ok(Some(f)) => {{ let f: g::ta::{k}<&[u8]> = f; ts(f.x(), x) && is(f.r(), "s") && absent(f.s()) }} _ => false }}, "a table of the name reads back");
    require(match t.v() {{ Ok(Some(v)) => match v.get(0) {{ Ok(f) => ts(f.x(), x), _ => false }}, _ => false }}, "a vector of the table reads back");
}}
pub fn enum_() {{
    let mut b = bb(); let o = g::ea::Uq::create(&mut b, &g::ea::UqArgs {{ f: g::ea::{k}::Vb, g: g::ea::{k}::Va, v: None, s: None }}); let d = b.unfinished_data(); let t = g::ea::Uq::from(tab(d, o));
    require(ts(t.f(), g::ea::{k}::Vb) && ts(t.g(), g::ea::{k}::Va) && absent(t.v()) && absent(t.s()), "an enum of the name reads back");
    let a = g::ea::UqArgs::default(); require(a.f == g::ea::{k}::Va && a.g == g::ea::{k}::Vb, "default arguments of the enum");
}}
pub fn union_(x: i32) {{
    let mut b = bb(); let u = g::ua::Bq::create(&mut b, &g::ua::BqArgs {{ x }}).as_union_value(); let o = g::ua::Uq::create(&mut b, &g::ua::UqArgs {{ f_type: g::ua::butte_gen::{K}Type::None, f: None, g_type: g::ua::butte_gen::{K}Type::Bq, g: u, s: None }});
    let d = b.unfinished_data(); let t = g::ua::Uq::from(tab(d, o)); require(match t.g() {{ Ok(g::ua::{k}::Bq(a)) => ts(a.x(), x), _ => false }} && match t.f() {{ Ok(None) => true, _ => false }}, "a union of the name reads back");
}}
pub fn namespace(x: i32) {{
    let mut b = bb(); let s = b.create_string("s"); let a = g::{m}::Aq::create(&mut b, &g::{m}::AqArgs {{ s: None, v: None, r: s }}); let z = g::za::{m}::Aq::create(&mut b, &g::za::{m}::AqArgs {{ x, a: Some(a) }}); let o = g::Root::create(&mut b, &g::RootArgs {{ far: Some(a), two: Some(z) }});
    let d = b.unfinished_data(); let t = g::Root::from(tab(d, o)); require(match t.far() {{ Ok(Some(f)) => is(f.r(), "s") && absent(f.s()), _ => false }} && match t.two() {{ Ok(Some(f)) => ts(f.x(), x), _ => false }}, "tables of namespaces of the name read back");
}}
}}
'''.format(n=n, k=k, m=m, K=k))
    return {"name": "gen_names", "mods": mods, "code": code}

# ---------------------------------------------------------------- namespaces
def namespaces():
    mods, code = {}, []
    # the same type name in every namespace, with a different field type in each
    spaces = [("", "ubyte", "u8"), ("`aa`", "short", "i16"), ("`aa` . `bb` . `cc`", "long", "i64"), ("`dd` . `aa`", "float", "f32"), ("`eeFf` . `GgHh`", "ushort", "u16"), ("`aa` . `xx` . `cc`", "uint", "u32"), ("`dd` . `bb` . `cc` . `ii`", "int", "i32")]
    def q(ns, n): return (ns + " . " if ns else "") + n
    def path(ns): return "".join("::" + {"eeFf": "ee_ff", "GgHh": "gg_hh"}.get(x, x) for x in ns.replace("`", "").split(" . ")) if ns else ""
    def decl(i, ns, t):
        s = "table `Tt` { val : %s ; nxt : `Tt` ; } enum `Ee` : int { `V%d` = %d , `Vz` = 50 } union `Uu` { `Tt` } " % (t, i, i + 1)
        s += "table `Refs` { " + " ".join("t%d : %s ; v%d : [ %s ] ; e%d : %s ; d%d : %s = `Vz` ; u%d : %s ;" % (j, q(m, "`Tt`"), j, q(m, "`Tt`"), j, q(m, "`Ee`"), j, q(m, "`Ee`"), j, q(m, "`Uu`")) for j, (m, _, _) in enumerate(spaces) if m or not ns) + " } "
        return s
    def schema(order):
        return " ".join(("namespace %s ; " % spaces[i][0] if spaces[i][0] else "") + decl(i, spaces[i][0], spaces[i][1]) for i in order)
    mods["n_fwd"] = schema(range(len(spaces)))
    mods["n_rev"] = schema([0] + list(range(len(spaces) - 1, 0, -1)))
    # namespaces reopened, with what is used declared later
    mods["n_re"] = ("namespace `aa` ; table `Refs` { tt : `Tt` ; bb : `bb` . `Tt` ; ab : `aa` . `bb2` . `Tt` ; } namespace `bb` ; table `Tt` { val : uint ; } namespace `aa` ; table `Tt` { val : short ; } namespace `aa` . `bb2` ; table `Tt` { val : long ; } "
        "namespace `aa` ; table `More` { rr : `Refs` ; } namespace `bb` ; table `More` { rr : `aa` . `Refs` ; xx : `aa` . `More` ; }")
    for m in ("n_fwd", "n_rev"):
        c = "pub mod c_%s { use super::*;\n" % m
        for i, (ns, t, r) in enumerate(spaces):
            P = "crate::%s%s" % (m, path(ns))
            for j, (ms, mt, mr) in enumerate(spaces):
                if not (ms or not ns): continue
                Q = "crate::%s%s" % (m, path(ms))
                nan = "assume(x == x);" if mr == "f32" else ""
                nx = [k for k in range(len(spaces)) if spaces[k][0] or not ns]
                slot = 4 + 2 * 6 * nx.index(j)
                c += '''pub fn r_{i}_{j}(x: {mr}) {{ {nan}
    let mut b = bb(); let t = {Q}::Tt::create(&mut b, &{Q}::TtArgs {{ val: x, nxt: None }}); let v = b.create_vector(&[t]);
    let o = {P}::Refs::create(&mut b, &{P}::RefsArgs {{ t{j}: Some(t), v{j}: Some(v), e{j}: {Q}::Ee::Vz, d{j}: {Q}::Ee::V{j}, u{j}_type: {Q}::butte_gen::UuType::Tt, u{j}: Some(t.as_union_value()), ..Default::default() }});
    let d = b.unfinished_data(); let r = {P}::Refs::from(tab(d, o));
    require(match r.t{j}() {{ Ok(Some(t)) => {{ let t: {Q}::Tt<&[u8]> = t; ts(t.val(), x) && match t.nxt() {{ Ok(None) => true, _ => false }} }} _ => false }}, "a table is the one of its namespace");
    require(match r.v{j}() {{ Ok(Some(v)) => match v.get(0) {{ Ok(t) => {{ let t: {Q}::Tt<&[u8]> = t; ts(t.val(), x) }} _ => false }}, _ => false }}, "tables in a vector are of their namespace");
    require(ts(r.e{j}(), {Q}::Ee::Vz) && ts(r.d{j}(), {Q}::Ee::V{j}), "an enum is the one of its namespace");
    require(match r.u{j}() {{ Ok(Some({Q}::Uu::Tt(t))) => ts(t.val(), x), _ => false }}, "a union is the one of its namespace");
    let a = {P}::RefsArgs::default(); require(a.e{j} == {Q}::Ee::V{j} && a.d{j} == {Q}::Ee::Vz, "defaults of enums of their namespace");
    require(ts(tab(d, o).get::<i32>({es}, None), 50) && ts(tab(d, o).get::<i32>({ds}, None), {ev}), "slots of the enums");
}}
'''.format(i=i, j=j, mr=mr, nan=nan, P=P, Q=Q, es=slot + 4, ds=slot + 6, ev=j + 1)
        code.append(c + "}\n")
    code.append('''pub mod c_n_re { use super::*; use crate::n_re::{aa, bb as b2};
pub fn reopened(x: i16, y: u32, z: i64) {
    let mut b = bb(); let t = aa::Tt::create(&mut b, &aa::TtArgs { val: x }); let u = b2::Tt::create(&mut b, &b2::TtArgs { val: y }); let w = aa::bb2::Tt::create(&mut b, &aa::bb2::TtArgs { val: z });
    let r = aa::Refs::create(&mut b, &aa::RefsArgs { tt: Some(t), bb: Some(u), ab: Some(w) }); let m = aa::More::create(&mut b, &aa::MoreArgs { rr: Some(r) }); let o = b2::More::create(&mut b, &b2::MoreArgs { rr: Some(r), xx: Some(m) });
    let d = b.unfinished_data(); let o = b2::More::from(tab(d, o));
    require(match o.rr() { Ok(Some(r)) => match r.tt() { Ok(Some(t)) => ts(t.val(), x), _ => false }, _ => false }, "a type declared later in a reopened namespace");
    require(match o.rr() { Ok(Some(r)) => match r.bb() { Ok(Some(t)) => ts(t.val(), y), _ => false }, _ => false }, "a type of another namespace declared later");
    require(match o.xx() { Ok(Some(m)) => match m.rr() { Ok(Some(r)) => match r.ab() { Ok(Some(t)) => ts(t.val(), z), _ => false }, _ => false }, _ => false }, "a type of a nested namespace declared later");
}
}
''')
    # types of the same name outside any namespace, in the outer and in the current namespace, the last declared after their use
    def three(t, v): return "table `Tt` { val : %s ; } enum `Ee` : int { `Va` = %d , `Vb` } union `Uu` { `Tt` } " % (t, v)
    use = "table `Refs` { t : `Tt` ; v : [ `Tt` ] ; e : `Ee` ; d : `Ee` = `Vb` ; u : `Uu` ; s : [ `Ee` ] ; r : `Tt` ( required ) ; } "
    mods["n_late"] = three("ubyte", 10) + "namespace `nn` ; " + use + three("short", 20) + "namespace `nn` . `mm` ; " + use + three("long", 30) + "namespace `oo` ; " + three("uint", 40) + use
    mods["n_late2"] = three("ubyte", 10) + "namespace `nn` . `mm` ; " + use + "namespace `oo` ; " + three("uint", 40) + use + "namespace `nn` ; " + three("short", 20) + use + "namespace `nn` . `mm` ; " + three("long", 30)
    for m in ("n_late", "n_late2"):
        for ns, r, v in (("nn", "i16", 20), ("nn::mm", "i64", 30), ("oo", "u32", 40)):
            code.append('''pub mod c_{m}_{nm} {{ use super::*; use crate::{m}::{ns} as g;
pub fn late(x: {r}) {{
    let mut b = bb(); let t = g::Tt::create(&mut b, &g::TtArgs {{ val: x }}); let v = b.create_vector(&[t]);
    let o = g::Refs::create(&mut b, &g::RefsArgs {{ t: Some(t), v: Some(v), e: g::Ee::Vb, d: g::Ee::Va, u_type: g::butte_gen::UuType::Tt, u: Some(t.as_union_value()), s: None, r: t }});
    let d = b.unfinished_data(); let r = g::Refs::from(tab(d, o));
    require(match r.t() {{ Ok(Some(t)) => {{ let t: g::Tt<&[u8]> = t; ts(t.val(), x) }} _ => false }} && match r.r() {{ Ok(t) => {{ let t: g::Tt<&[u8]> = t; ts(t.val(), x) }} _ => false }}, "a table is the one of the current namespace");
    require(match r.v() {{ Ok(Some(v)) => match v.get(0) {{ Ok(t) => {{ let t: g::Tt<&[u8]> = t; ts(t.val(), x) }} _ => false }}, _ => false }}, "tables in a vector are of the current namespace");
    require(match r.u() {{ Ok(Some(g::Uu::Tt(t))) => ts(t.val(), x), _ => false }}, "a union is the one of the current namespace");
    require(ts(r.e(), g::Ee::Vb) && ts(r.d(), g::Ee::Va) && ts(tab(d, o).get::<i32>(8, None), {v} + 1) && ts(tab(d, o).get::<i32>(10, None), {v}), "an enum is the one of the current namespace");
}}
}}
'''.format(m=m, nm=ns.replace("::", "_"), ns=ns, r=r, v=v))
    return {"name": "gen_namespaces", "mods": mods, "code": code}

# ---------------------------------------------------------------- slots
def slots():
    """a table of many fields of all kinds: the slot of a field is its position, unions count twice"""
    kinds = ["int", "string", "uni", "bytes", "dflt", "table", "enum", "req"]
    n = 33
    fields, slot, f = [], 4, []
    for i in range(n):
        k = kinds[i % len(kinds)]; nm = "f%d" % i
        if k == "uni": fields.append((k, nm, slot)); slot += 4
        else: fields.append((k, nm, slot)); slot += 2
        f.append("%s : %s ;" % (nm, {"int": "int", "string": "string", "uni": "`Uu`", "bytes": "[ ubyte ]", "dflt": "ushort = 7", "table": "`Leaf`", "enum": "`Ee`", "req": "long ( required )"}[k]))
    mods = {"q_wide": "table `Leaf` { xx : int ; } union `Uu` { `Leaf` } enum `Ee` : byte { `V0` , `V1` } table `Wide` { " + " ".join(f) + " }"}
    c = "pub mod c_wide { use super::*; use crate::q_wide as g;\n"
    for k, nm, s in fields:
        if k in ("int", "dflt", "req"):
            r, d = {"int": ("i32", "0"), "dflt": ("u16", "7"), "req": ("i64", "0")}[k]
            acc = "is(t.%s(), x)" % nm if k == "req" else "ts(t.%s(), x)" % nm
            c += '''pub fn w_{nm}(x: {r}) {{ let mut b = bb(); let o = g::Wide::create(&mut b, &g::WideArgs {{ {nm}: x, ..Default::default() }}); let d = b.unfinished_data(); let t = g::Wide::from(tab(d, o)); require({acc}, "reads back"); require(ts(tab(d, o).get::<{r}>({s}, Some({d})), x), "slot of {nm}"); }}
pub fn r_{nm}(x: {r}) {{ let mut b = bb(); let s = b.start_table(); b.push_slot_always({s}, x); let o = b.end_table(s); let d = b.unfinished_data(); let t = g::Wide::from(tab(d, o)); require({acc}, "slot read by {nm}"); }}
'''.format(nm=nm, r=r, s=s, d=d, acc=acc)
        elif k == "enum":
            c += '''pub fn w_{nm}() {{ let mut b = bb(); let o = g::Wide::create(&mut b, &g::WideArgs {{ {nm}: g::Ee::V1, ..Default::default() }}); let d = b.unfinished_data(); let t = g::Wide::from(tab(d, o)); require(ts(t.{nm}(), g::Ee::V1), "reads back"); require(ts(tab(d, o).get::<i8>({s}, None), 1), "slot of {nm}"); }}
'''.format(nm=nm, s=s)
        else:
            mk = {"string": 'b.create_string("st")', "bytes": "b.create_vector(&[3u8])", "table": "g::Leaf::create(&mut b, &g::LeafArgs { xx: 6 })", "uni": "g::Leaf::create(&mut b, &g::LeafArgs { xx: 6 }).as_union_value()"}[k]
            chk = {"string": 'ts(t.%s(), "st")' % nm, "bytes": "match t.%s() { Ok(Some(v)) => is(v.get(0), 3), _ => false }" % nm, "table": "match t.%s() { Ok(Some(v)) => ts(v.xx(), 6), _ => false }" % nm, "uni": "match t.%s() { Ok(Some(g::Uu::Leaf(v))) => ts(v.xx(), 6), _ => false }" % nm}[k]
            arg = "%s: Some(v)" % nm + (", %s_type: g::butte_gen::UuType::Leaf" % nm if k == "uni" else "")
            vs = s + 2 if k == "uni" else s
            c += '''pub fn w_{nm}() {{ let mut b = bb(); let v = {mk}; let o = g::Wide::create(&mut b, &g::WideArgs {{ {arg}, ..Default::default() }}); let d = b.unfinished_data(); let t = g::Wide::from(tab(d, o)); require({chk}, "reads back"); {extra} }}
pub fn r_{nm}() {{ let mut b = bb(); let v = {mk}; let s = b.start_table(); b.push_slot_always({vs}, v); {push} let o = b.end_table(s); let d = b.unfinished_data(); let t = g::Wide::from(tab(d, o)); require({chk}, "slot read by {nm}"); }}
'''.format(nm=nm, mk=mk, arg=arg, chk=chk, vs=vs, push="b.push_slot_always(%d, 1u8);" % s if k == "uni" else "",
           extra='require(ts(tab(d, o).get::<u8>(%d, None), 1), "slot of the kind of %s");' % (s, nm) if k == "uni" else "")
    # more fields than a byte can number: most are left out, those around the limits are not
    big = 300
    mods["q_big"] = "table `Leaf` { xx : int ; } union `Uu` { `Leaf` } table `Big` { " + " ".join("f%d : %s ;" % (i, "`Uu`" if i == 258 else "string" if i == 257 else "short") for i in range(big)) + " }"
    c2 = "pub mod c_big { use super::*; use crate::q_big as g;\n"
    for i in (0, 1, 2, 43, 127, 128, 254, 255, 256, 259, 299):
        sl = 4 + 2 * (i if i < 259 else i + 1)
        c2 += '''pub fn w_f{i}(x: i16) {{ let mut b = bb(); let o = g::Big::create(&mut b, &g::BigArgs {{ f{i}: x, ..Default::default() }}); let d = b.unfinished_data(); let t = g::Big::from(tab(d, o)); require(ts(t.f{i}(), x), "reads back"); require(ts(tab(d, o).get::<i16>({s}, Some(0)), x), "slot of f{i}"); }}
pub fn r_f{i}(x: i16) {{ let mut b = bb(); let s = b.start_table(); b.push_slot_always({s}, x); let o = b.end_table(s); let d = b.unfinished_data(); let t = g::Big::from(tab(d, o)); require(ts(t.f{i}(), x), "slot read by f{i}"); }}
'''.format(i=i, s=sl)
    c2 += '''pub fn refs(x: i32) { let mut b = bb(); let s = b.create_string("st"); let v = g::Leaf::create(&mut b, &g::LeafArgs { xx: x }).as_union_value(); let o = g::Big::create(&mut b, &g::BigArgs { f257: Some(s), f258: Some(v), f258_type: g::butte_gen::UuType::Leaf, ..Default::default() });
    let d = b.unfinished_data(); let t = g::Big::from(tab(d, o)); require(ts(t.f257(), "st") && match t.f258() { Ok(Some(g::Uu::Leaf(v))) => ts(v.xx(), x), _ => false }, "reads back"); require(ts(tab(d, o).get::<u8>(520, None), 1) && ts(tab(d, o).get::<ForwardsUOffset<&str>>(518, None), "st"), "slot of the kind of f258"); }
}
'''
    sc = [i for i in range(big) if i not in (257, 258)]
    c2 = c2.rstrip()[:-1] + "pub fn all_fields(x: i16) { assume(x != 0); let mut b = bb(); let o = g::Big::create(&mut b, &g::BigArgs { " + ", ".join("f%d: %s" % (i, "x" if i % 7 == 0 else str(i + 1)) for i in sc) + ", ..Default::default() }); let d = b.unfinished_data(); let t = g::Big::from(tab(d, o));\n" + "".join(
        '    require(ts(t.f%d(), %s), "reads back");\n' % (i, "x" if i % 7 == 0 else str(i + 1)) for i in sc if i % 7 == 0 or i % 16 == 1) + '    require(absent(t.f257()) && match t.f258() { Ok(None) => true, _ => false }, "reads back");\n}\n}\n'
    return {"name": "gen_slots", "mods": mods, "code": [c + "}\n", c2]}

# ---------------------------------------------------------------- any buffer
def hostile():
    """accessors on any bytes: what the table holds in the slot, or the error the reading library reports"""
    sc = list(SCALARS.items())
    sch = "table `Leaf` { xx : int ; } table `Other` { yy : int ; } enum `Ee` : short { `V3` = 3 , `Vm` = -7 , `V9` = 9 } enum `Eu` : ubyte { `W0` , `W255` = 255 } union `Uu` { `Leaf` , `Other` } table `Any` { "
    sch += " ".join("s%d : %s ; d%d : %s = 1 ; r%d : %s ( required ) ;" % (i, t, i, t, i, t) if t != "bool" else "s%d : bool ; d%d : bool = true ; r%d : bool ( required ) ;" % (i, i, i) for i, (t, r) in enumerate(sc))
    sch += " str : string ; rstr : string ( required ) ; vec : [ ushort ] ; rvec : [ ubyte ] ( required ) ; vstr : [ string ] ; tab : `Leaf` ; rtab : `Leaf` ( required ) ; vtab : [ `Leaf` ] ; en : `Ee` ; den : `Ee` = `Vm` ; ren : `Eu` ( required ) ; uni : `Uu` ; runi : `Uu` ( required ) ; }"
    mods = {"h_any": sch}
    c = """pub mod c_any { use super::*; use crate::h_any as g;
fn same<T: PartialEq>(a: Result<Option<T>, Error>, b: Result<Option<T>, Error>) -> bool { match (a, b) { (Ok(Some(x)), Ok(Some(y))) => x == y, (Ok(None), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false } }
fn req<T: PartialEq>(a: Result<T, Error>, b: Result<Option<T>, Error>) -> bool { match (a, b) { (Ok(x), Ok(Some(y))) => x == y, (Err(Error::RequiredFieldMissing(_)), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false } }
pub fn root(d: &[u8]) { require(match (g::Any::get_root(d), Table::get_root(d)) { (Ok(a), Ok(t)) => { let u: Table<&[u8]> = a.into(); u.loc == t.loc && u.buf.len() == d.len() } (Err(x), Err(y)) => x == y, _ => false }, "the root is the one the buffer names"); }
pub fn sub(d: &[u8]) { if let (Ok(a), Ok(t)) = (g::Any::get_root(d), Table::get_root(d)) { require(match (a.tab(), t.get::<ForwardsUOffset<g::Leaf<&[u8]>>>(%(tab)d, None)) { (Ok(Some(x)), Ok(Some(y))) => { let x: Table<&[u8]> = x.into(); let y: Table<&[u8]> = y.into(); x.loc == y.loc && x.buf.len() == d.len() } (Ok(None), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false }, "a table is the one the slot names"); } }
pub fn rsub(d: &[u8]) { if let (Ok(a), Ok(t)) = (g::Any::get_root(d), Table::get_root(d)) { require(match (a.rtab(), t.get::<ForwardsUOffset<g::Leaf<&[u8]>>>(%(rtab)d, None)) { (Ok(x), Ok(Some(y))) => { let x: Table<&[u8]> = x.into(); let y: Table<&[u8]> = y.into(); x.loc == y.loc && x.buf.len() == d.len() } (Err(Error::RequiredFieldMissing(_)), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false }, "a required table is the one the slot names or an error"); } }
"""
    slot = {}; k = 4
    names = [n for i in range(len(sc)) for n in ("s%d" % i, "d%d" % i, "r%d" % i)] + "str rstr vec rvec vstr tab rtab vtab en den ren uni_type uni runi_type runi".split()
    for n in names: slot[n] = k; k += 2
    c = c % slot
    top = "if let (Ok(a), Ok(t)) = (g::Any::get_root(d), Table::get_root(d)) {"
    for i, (t, r) in enumerate(sc):
        z = "false" if t == "bool" else "0.0" if t in FLOATS else "0"; o = "true" if t == "bool" else "1.0" if t in FLOATS else "1"
        bits = ".map(|x| x.map(|x| x.to_bits()))" if t in FLOATS else ""; bit1 = ".map(|x| x.to_bits())" if t in FLOATS else ""
        c += "pub fn s_%s(d: &[u8]) { %s require(same(a.s%d()%s, t.get::<%s>(%d, Some(%s))%s), \"a scalar is what the slot holds or its default\"); } }\n" % (t, top, i, bits, r, slot["s%d" % i], z, bits)
        c += "pub fn d_%s(d: &[u8]) { %s require(same(a.d%d()%s, t.get::<%s>(%d, Some(%s))%s), \"a scalar is what the slot holds or its declared default\"); } }\n" % (t, top, i, bits, r, slot["d%d" % i], o, bits)
        c += "pub fn r_%s(d: &[u8]) { %s require(req(a.r%d()%s, t.get::<%s>(%d, Some(%s))%s), \"a required scalar is what the slot holds or an error\"); } }\n" % (t, top, i, bit1, r, slot["r%d" % i], z, bits)
    c += """pub fn str_(d: &[u8]) { %(top)s require(match (a.str(), t.get::<ForwardsUOffset<&str>>(%(str)d, None)) { (Ok(Some(x)), Ok(Some(y))) => x.len() == y.len() && x.as_ptr() as usize == y.as_ptr() as usize, (Ok(None), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false }, "a string is what the slot names or an error"); } }
pub fn rstr(d: &[u8]) { %(top)s require(match (a.rstr(), t.get::<ForwardsUOffset<&str>>(%(rstr)d, None)) { (Ok(x), Ok(Some(y))) => x.len() == y.len() && x.as_ptr() as usize == y.as_ptr() as usize, (Err(Error::RequiredFieldMissing(_)), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false }, "a required string is what the slot names or an error"); } }
pub fn vec_(d: &[u8], i: usize) { %(top)s require(match (a.vec(), t.get::<ForwardsUOffset<Vector<u16>>>(%(vec)d, None)) { (Ok(Some(x)), Ok(Some(y))) => x.len() == y.len() && match x.len() { Ok(n) if i < n => match (x.get(i), y.get(i)) { (Ok(x), Ok(y)) => x == y, (Err(x), Err(y)) => x == y, _ => false }, _ => true }, (Ok(None), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false }, "a vector is what the slot names or an error"); } }
pub fn rvec(d: &[u8]) { %(top)s require(match (a.rvec(), t.get::<ForwardsUOffset<Vector<u8>>>(%(rvec)d, None)) { (Ok(x), Ok(Some(y))) => x.len() == y.len(), (Err(Error::RequiredFieldMissing(_)), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false }, "a required vector is what the slot names or an error"); } }
pub fn vstr(d: &[u8]) { %(top)s require(match (a.vstr(), t.get::<ForwardsUOffset<Vector<ForwardsUOffset<&str>>>>(%(vstr)d, None)) { (Ok(Some(x)), Ok(Some(y))) => x.len() == y.len(), (Ok(None), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false }, "a vector of strings is what the slot names or an error"); } }
pub fn vtab(d: &[u8]) { %(top)s require(match (a.vtab(), t.get::<ForwardsUOffset<Vector<ForwardsUOffset<g::Leaf<&[u8]>>>>>(%(vtab)d, None)) { (Ok(Some(x)), Ok(Some(y))) => x.len() == y.len(), (Ok(None), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false }, "a vector of tables is what the slot names or an error"); } }
fn ee(v: i16) -> Result<g::Ee, Error> { if v == 3 { Ok(g::Ee::V3) } else if v == -7 { Ok(g::Ee::Vm) } else if v == 9 { Ok(g::Ee::V9) } else { Err(Error::UnknownEnumVariant) } }
pub fn en(d: &[u8]) { %(top)s require(match (a.en(), t.get::<i16>(%(en)d, None)) { (x, Ok(Some(y))) => match (x, ee(y)) { (Ok(Some(x)), Ok(y)) => x == y, (Err(x), Err(y)) => x == y, _ => false }, (Ok(None), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false }, "an enum is what the slot holds or an error"); } }
pub fn den(d: &[u8]) { %(top)s require(match (a.den(), t.get::<i16>(%(den)d, None)) { (x, Ok(Some(y))) => match (x, ee(y)) { (Ok(Some(x)), Ok(y)) => x == y, (Err(x), Err(y)) => x == y, _ => false }, (Ok(Some(g::Ee::Vm)), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false }, "an enum is what the slot holds, its default or an error"); } }
pub fn ren(d: &[u8]) { %(top)s require(match (a.ren(), t.get::<u8>(%(ren)d, None)) { (x, Ok(Some(y))) => match x { Ok(g::Eu::W0) => y == 0, Ok(g::Eu::W255) => y == 255, Err(e) => y != 0 && y != 255 && e == Error::UnknownEnumVariant }, (Err(Error::RequiredFieldMissing(_)), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false }, "a required enum is what the slot holds or an error"); } }
pub fn owned(d: Vec<u8>) { if let Ok(a) = g::Any::get_root(d) { let b: Table<Vec<u8>> = a.into(); let t: Table<&[u8]> = Table::new(&b.buf, b.loc); let l = b.loc; let a = g::Any::from(Table::new(t.buf, l));
    require(same(a.s4(), t.get::<%(s4t)s>(%(s4)d, Some(0))), "a scalar of an owned buffer is what the slot holds"); } }
pub fn owned2(d: Vec<u8>) { match g::Any::get_root(d) { Ok(a) => { let x = a.uni_type(); require(match x { Ok(Some(k)) => match a.uni() { Ok(Some(g::Uu::Leaf(_))) => k == g::butte_gen::UuType::Leaf, Ok(Some(g::Uu::Other(_))) => k == g::butte_gen::UuType::Other, _ => true }, Ok(None) => match a.uni() { Ok(None) => true, _ => false }, Err(e) => match a.uni() { Err(f) => e == f, _ => false } }, "a union of an owned buffer is of its kind"); } Err(_) => {} } }
pub fn owned_str(d: Vec<u8>) { match g::Any::get_root(d) { Ok(a) => { let _ = a.str(); require(true, "an owned buffer can be read"); } Err(_) => {} } }
pub fn owned_rvec(d: Vec<u8>) { match g::Any::get_root(d) { Ok(a) => { let _ = a.rvec(); require(true, "an owned buffer can be read"); } Err(_) => {} } }
pub fn owned_tab(d: Vec<u8>) { match g::Any::get_root(d) { Ok(a) => { let _ = a.tab(); require(true, "an owned buffer can be read"); } Err(_) => {} } }
pub fn owned_den(d: Vec<u8>) { match g::Any::get_root(d) { Ok(a) => { let _ = a.den(); require(true, "an owned buffer can be read"); } Err(_) => {} } }
pub fn uni(d: &[u8]) { %(top)s require(match (a.uni(), t.get::<u8>(%(uni_type)d, None)) {
    (x, Ok(Some(k))) if k == 1 || k == 2 => match (x, t.get::<ForwardsUOffset<g::Leaf<&[u8]>>>(%(uni)d, None).map(|x| x.map(|x| { let x: Table<&[u8]> = x.into(); x }))) { (Ok(Some(g::Uu::Leaf(x))), Ok(Some(y))) => { let x: Table<&[u8]> = x.into(); k == 1 && x.loc == y.loc } (Ok(Some(g::Uu::Other(x))), Ok(Some(y))) => { let x: Table<&[u8]> = x.into(); k == 2 && x.loc == y.loc } (Ok(None), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false },
    (Ok(None), Ok(None)) | (Ok(None), Ok(Some(0))) => true, (Err(e), Ok(Some(_))) => e == Error::UnknownEnumVariant || e == Error::UnknownUnionVariant, (Err(x), Err(y)) => x == y, _ => false }, "a union is what its slots hold, nothing or an error"); } }
pub fn runi(d: &[u8]) { %(top)s require(match (a.runi(), t.get::<u8>(%(runi_type)d, None)) {
    (x, Ok(Some(k))) if k == 1 || k == 2 => match (x, t.get::<ForwardsUOffset<g::Leaf<&[u8]>>>(%(runi)d, None).map(|x| x.map(|x| { let x: Table<&[u8]> = x.into(); x }))) { (Ok(g::Uu::Leaf(x)), Ok(Some(y))) => { let x: Table<&[u8]> = x.into(); k == 1 && x.loc == y.loc } (Ok(g::Uu::Other(x)), Ok(Some(y))) => { let x: Table<&[u8]> = x.into(); k == 2 && x.loc == y.loc } (Err(Error::RequiredFieldMissing(_)), Ok(None)) => true, (Err(x), Err(y)) => x == y, _ => false },
    (Err(Error::RequiredFieldMissing(_)), Ok(None)) | (Err(Error::RequiredFieldMissing(_)), Ok(Some(0))) => true, (Err(e), Ok(Some(_))) => e == Error::UnknownEnumVariant || e == Error::UnknownUnionVariant, (Err(x), Err(y)) => x == y, _ => false }, "a required union is what its slots hold or an error"); } }
}
""" % dict(slot, top=top, s4t=sc[4][1])
    return {"name": "gen_hostile", "mods": mods, "code": [c]}

GROUPS = {"hostile": hostile, "scalars": scalars, "refs": refs, "enums": enums, "unions": unions, "names": names, "namespaces": namespaces, "slots": slots}
