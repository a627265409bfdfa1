C='butte-build/src/codegen.rs'; T='butte-build/src/ir/transform.rs'; Y='butte-build/src/ir/types.rs'; P='butte-build/src/ast/parser.rs'; K='butte-build/src/ir/keywords.rs'; O='butte-build/src/compile.rs'
many=' '.join('f%d:int;'%i for i in range(300))
BUGS=[
dict(id='c01-slot-u8',property='C22',also=['C21'],edits=[(C,'butte::field_index_to_field_offset(index as VOffsetT);','butte::field_index_to_field_offset(VOffsetT::from(index as u8));')],
 needs='a table of more than 256 fields',breaks='field 256 is stored in the slot of field 0',schema='table A { %s }'%many,
 main='fn main(){ assert_eq!(g::A::VT_F299, 4+2*299); assert_eq!(g::A::VT_F256, 4+2*256); }'),
dict(id='c02-false-default',property='C21',edits=[(C,'''            let default_value = if let Some(default_value) = default_value {
                let default_value = to_default_value(&ty_wrapped, default_value);
                quote!(Some(#default_value))''','''            let default_value = if let Some(ast::DefaultValue::Scalar(ast::Scalar::Boolean(false))) =
                default_value
            {
                // false is what is read anyway
                quote!(None)
            } else if let Some(default_value) = default_value {
                let default_value = to_default_value(&ty_wrapped, default_value);
                quote!(Some(#default_value))''')],
 needs='a bool field without default or with default false that is absent or false',breaks='it reads as nothing instead of false',schema='table A { b:bool; c:bool=false; }',
 main='fn main(){ let mut b=butte::FlatBufferBuilder::new(); let o=g::A::create(&mut b,&g::AArgs{b:false,c:false}); b.finish_minimal(o); let t=g::A::get_root(b.finished_data()).unwrap(); assert_eq!(t.b(),Ok(Some(false))); assert_eq!(t.c(),Ok(Some(false))); }'),
dict(id='c03-double-args-default',property='C21',edits=[(C,'ast::Scalar::Float(f) => f.fmt_lit(arg_ty).to_token_stream(),','ast::Scalar::Float(f) => f64::from(*f as f32).fmt_lit(arg_ty).to_token_stream(),')],
 needs='a double field whose default is not exact in single precision, built from default arguments',breaks='the default arguments store another value than the declared default',schema='table A { d:double=0.1; }',
 main='fn main(){ let a=g::AArgs::default(); assert_eq!(a.d,0.1f64); }'),
dict(id='c04-enum-next',property='C23',edits=[(C,'next_value = scalar_value.wrapping_add(1);','next_value = scalar_value.max(next_value).wrapping_add(1);')],
 needs='an enum with an explicit value lower than one before, followed by a variant without value',breaks='the variant gets another value than the format says',schema='enum E:int { A = 10, B = -5, C }',
 main='fn main(){ assert_eq!(i32::from(g::E::C),-4); }'),
dict(id='c05-union-required-none',property='C24',edits=[(C,'''                                #enum_ident::#variant_ident => #union_ident::#variant_ident(self.table
                                    .get::<#variant_ty_wrapped>(#struct_id::#offset_name, None)?
                                    .ok_or(::butte::Error::RequiredFieldMissing(#snake_name_str))?)''','''                                #enum_ident::#variant_ident => #union_ident::#variant_ident(match self.table
                                    .get::<#variant_ty_wrapped>(#struct_id::#offset_name, None) {
                                        Ok(Some(value)) => value,
                                        _ => return Err(::butte::Error::RequiredFieldMissing(#snake_name_str)),
                                    })''')],
 needs='a required union whose value lies outside the buffer',breaks='a malformed buffer is reported as a missing field',schema='table B { x:int; } union U { B } table A { u:U (required); }',
 main='''fn main(){ let mut b=butte::FlatBufferBuilder::new(); let o=g::B::create(&mut b,&g::BArgs{x:5}); let o=g::A::create(&mut b,&g::AArgs{u_type:g::butte_gen::UType::B,u:o.as_union_value()}); b.finish_minimal(o); let d=b.finished_data().to_vec();
 for n in 0..d.len() { if let Ok(t)=g::A::get_root(&d[..n]) { let raw: butte::Table<&[u8]> = t.into(); if t.u_type().is_ok() && raw.get::<butte::ForwardsUOffset<g::B<&[u8]>>>(6,None).is_err() { assert!(matches!(t.u(),Err(butte::Error::OutOfBounds)),"{:?}",t.u()); } } }
 let v: Vec<u8> = vec![12,0,0,0, 8,0,8,0,4,0,0,0]; let _=v; let buf:[u8;17]=[12,0,0,0, 8,0,5,0,4,0,5,0, 8,0,0,0, 1]; let t=g::A::get_root(&buf[..]).unwrap(); assert_eq!(t.u_type(),Ok(g::butte_gen::UType::B)); assert!(matches!(t.u(),Err(butte::Error::OutOfBounds)),"{:?}",t.u()); }'''),
dict(id='c06-relative',property='C25',edits=[(Y,'.take_while(|(a, b)| a == b)','.filter(|(a, b)| a == b)')],
 needs='namespaces whose paths agree at a later part but not before it',breaks='references between such namespaces name the wrong module',schema='namespace a.x.b; table T { v:int; } namespace a.y.b; table S { t:a.x.b.T; }',
 main='fn main(){ let mut b=butte::FlatBufferBuilder::new(); let o=g::a::x::b::T::create(&mut b,&g::a::x::b::TArgs{v:3}); let o=g::a::y::b::S::create(&mut b,&g::a::y::b::SArgs{t:Some(o)}); b.finish_minimal(o); let s=g::a::y::b::S::get_root(b.finished_data()).unwrap(); assert_eq!(s.t().unwrap().unwrap().v(),Ok(Some(3))); }'),
dict(id='c07-keyword',property='C26',edits=[(K,'''        "override" => "override_",\n''','')],
 needs='a field or type named override',breaks='generated code does not compile',schema='table A { override:int; }',
 main='fn main(){ let mut b=butte::FlatBufferBuilder::new(); let o=g::A::create(&mut b,&g::AArgs{override_:3}); b.finish_minimal(o); assert_eq!(g::A::get_root(b.finished_data()).unwrap().override_(),Ok(Some(3))); }'),
dict(id='c08-comment-end',property='C27',edits=[(P,'value((), tuple((tag("//"), not(tag("/")), not_line_ending)))(input)','value((), tuple((tag("//"), not(tag("/")), take_till(|c| c == \'\\n\'), char(\'\\n\'))))(input)')],
 needs='a schema ending in a comment without line end',breaks='the schema is rejected',gen=1,main='fn main(){ assert!(gen("table A { } // end").is_ok()); }'),
dict(id='c09-doc-trim',property='C28',edits=[(C,'''        let doc = self.lines.iter().rev().fold(quote!(), |docs, line| {
            quote! {''','''        let doc = self.lines.iter().rev().fold(quote!(), |docs, line| {
            if line.is_empty() {
                return docs;
            }
            quote! {''')],
 needs='a documentation comment with an empty line between paragraphs',breaks='the paragraphs are joined',gen=1,
 main='fn main(){ let c=gen("/// one\\n///\\n/// two\\ntable A { }").unwrap(); assert_eq!(c.matches("doc =").count(),3,"{}",c); }'),
dict(id='c10-rpc-streaming',property='C29',edits=[(T,'Some(m) => match m.values.get(&ast::Ident::from("streaming")) {','Some(m) => match m.values.get(&ast::Ident::from("streaming")).filter(|_| m.values.len() == 1) {')],
 needs='a method with streaming and other metadata',breaks='the method is passed as not streaming',gen=1,rpc=1,
 main='''use butte_build::*; struct G(Arc<Mutex<Vec<String>>>); 
fn main(){ let s="table A { } rpc_service S { M(A):A (idempotent, streaming:\\"other\\"); }"; assert!(gen(s).is_err()); }'''),
dict(id='c11-dec-overflow',property='C18',edits=[(P,"""    map_res(
        recognize(preceded(opt(plus_or_minus), digit1)),
        IntegerConstant::from_str,
    )(input)""","""    map(
        recognize(preceded(opt(plus_or_minus), digit1)),
        |digits: &str| IntegerConstant::from_str(digits).expect("only digits"),
    )(input)""")],
 needs='an integer constant of more than 38 digits',breaks='the compiler panics',gen=1,main='fn main(){ let _=gen("table A { a:long = 999999999999999999999999999999999999999999999; }"); }'),
dict(id='c12-write',property='C19',edits=[(O,'    output.write_all(&text_output[..])?;\n','    output.write(&text_output[..])?;\n')],
 needs='an output that takes the code in parts',breaks='the generated code is cut off without an error',gen=1,
 main='''struct Half(Arc<Mutex<Vec<u8>>>); impl Write for Half { fn write(&mut self,b:&[u8])->std::io::Result<usize>{ let n=(b.len()+1)/2; self.0.lock().unwrap().extend_from_slice(&b[..n]); Ok(n) } fn flush(&mut self)->std::io::Result<()> {Ok(())} }
fn main(){ let o=Arc::new(Mutex::new(vec![])); butte_build::compile_fbs_generic(true,None,Box::new("table A { x:int; }".as_bytes()),Box::new(Half(o.clone()))).unwrap(); assert_eq!(String::from_utf8(o.lock().unwrap().clone()).unwrap(),gen("table A { x:int; }").unwrap()); }'''),
dict(id='c13-hash-order',property='C20',edits=[(T,'    namespaces: BTreeMap<ir::Ident<\'a>, NamespaceBuf<\'a>>,','    namespaces: HashMap<ir::Ident<\'a>, NamespaceBuf<\'a>>,'),(T,'            namespaces: BTreeMap::new(),','            namespaces: HashMap::new(),'),(T,'        let mut nodes = BTreeMap::new();','        let mut nodes = HashMap::new();')],
 needs='several namespaces next to each other',breaks='the order of the generated modules changes from run to run',gen=1,
 main='fn main(){ let s:String=(0..6).map(|i|format!("namespace a.n{}; table T{} {{ }} ",i,i)).collect(); let x=gen(&s).unwrap(); for _ in 0..20 { assert_eq!(gen(&s).unwrap(),x); } }'),
dict(id='c14-namespace-merge',property='C25',edits=[(T,'                n.nodes = ns.nodes;','                *n = ns;')],
 needs='a namespace declared with types of its own and a nested one',breaks='',gen=1,main='fn main(){ let c=gen("namespace a.b; table X { } namespace a; table Y { } namespace a.b.c; table Z { }").unwrap(); for n in &["struct X","struct Y","struct Z"] { assert!(c.contains(n)); } }'),
dict(id='c15-root-types',property='C25',edits=[(T,'            self.make_fully_qualified_ident(ir::Ident::from(qualified_ident.parts[0]))\n','            let local = self.make_fully_qualified_ident(ir::Ident::from(qualified_ident.parts[0]));\n            let global = ir::QualifiedIdent::from(qualified_ident.clone());\n            if self.types.contains_key(&local) || !self.types.contains_key(&global) {\n                local\n            } else {\n                global\n            }\n')],
 needs='a type of the current namespace declared after its use and one of the same name outside any namespace before',breaks='the reference resolves to the other type, depending on the order of declarations',schema='table T { g:int; } namespace n; table S { t:T; } table T { l:int; }',
 main='fn main(){ let mut b=butte::FlatBufferBuilder::new(); let o=g::n::T::create(&mut b,&g::n::TArgs{l:3}); let o=g::n::S::create(&mut b,&g::n::SArgs{t:Some(o)}); b.finish_minimal(o); assert_eq!(g::n::S::get_root(b.finished_data()).unwrap().t().unwrap().unwrap().l(),Ok(Some(3))); }'),
dict(id='c16-enum-byte',property='C23',edits=[(C,'            ir::EnumBaseType::UInt16 => quote!(u16),','            ir::EnumBaseType::UInt16 => quote!(u32),')],
 needs='an enum of base type uint16',breaks='it is stored with 4 bytes',schema='enum E:uint16 { A } table T { e:E; }',
 main='fn main(){ assert_eq!(std::mem::size_of::<g::E>(),2); }'),
dict(id='c17-finished-life',property='C17',edits=[('butte/src/builder.rs',"    pub fn finished_data(&self) -> &[u8] {\n        self.assert_finished(\"finished_bytes cannot be called when the buffer is not yet finished\");\n        &self.owned_buf[self.head..]","    pub fn finished_data(&self) -> &'fbb [u8] {\n        self.assert_finished(\"finished_bytes cannot be called when the buffer is not yet finished\");\n        let data = &self.owned_buf[self.head..];\n        unsafe { std::slice::from_raw_parts(data.as_ptr(), data.len()) }")],
 needs='a program that keeps the finished data after resetting the builder',breaks='it compiles and reads memory that changes or is freed',
 demo="""#!/bin/bash
# a program that uses finished data after resetting the builder must not compile
repo="$PWD"; d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2018"\\n[dependencies]\\nbutte = { path = "%s/butte" }\\n[workspace]\\n' "$repo" > "$d/Cargo.toml"
cat > "$d/src/main.rs" <<'EOF'
use butte::*;
fn main() { let mut b = FlatBufferBuilder::new(); let s = b.create_string("x"); b.finish_minimal(s); let d = b.finished_data(); b.reset(); println!("{:?}", d); }
EOF
cd "$d"; if cargo check --offline --quiet 2>err; then exit 1; fi; grep -q E0502 err
"""),
dict(id='c18-size-hint',property='C16',also=['C11'],edits=[('butte/src/builder.rs','        Self::new_with_capacity(0)\n    }\n\n    /// Create a FlatBufferBuilder that is ready for writing, with a','        // start with what the last buffer needed\n        Self::new_with_capacity(SIZE_HINT.load(std::sync::atomic::Ordering::Relaxed))\n    }\n\n    /// Create a FlatBufferBuilder that is ready for writing, with a'),
  ('butte/src/builder.rs',"    pub fn collapse(self) -> (Vec<u8>, usize) {\n","    pub fn collapse(self) -> (Vec<u8>, usize) {\n        SIZE_HINT.store(self.owned_buf.len(), std::sync::atomic::Ordering::Relaxed);\n"),
  ('butte/src/builder.rs',"impl<'fbb> FlatBufferBuilder<'fbb> {\n    /// Create a FlatBufferBuilder that is ready for writing.\n","static SIZE_HINT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nimpl<'fbb> FlatBufferBuilder<'fbb> {\n    /// Create a FlatBufferBuilder that is ready for writing.\n")],
 needs='a builder created after another one was collapsed',breaks='what a new builder returns depends on buffers built before, in any thread',
 main='use butte::*; fn go()->(Vec<u8>,usize){ let mut b=FlatBufferBuilder::new(); b.push(1u8); b.collapse() } fn main(){ let a=go(); let mut b=FlatBufferBuilder::new(); for _ in 0..100 { b.push(1u64); } b.collapse(); assert_eq!(go(),a); }'),
]
