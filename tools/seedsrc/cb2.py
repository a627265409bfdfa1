C='butte-build/src/codegen.rs'; T='butte-build/src/ir/transform.rs'; Y='butte-build/src/ir/types.rs'; P='butte-build/src/ast/parser.rs'; K='butte-build/src/ir/keywords.rs'; O='butte-build/src/compile.rs'; A='butte-build/src/ast/types.rs'
RPC='''use butte_build::ir::types as ir; 
'''
BUGS=[
dict(id='d01-escape',property='C27',edits=[(P,'                alt((backslash, double_quote)),','                double_quote,')],
 needs='a string with an escaped backslash',breaks='the schema is rejected',gen=1,main=r'fn main(){ gen("include \"a\\\\b\"; table A { }").unwrap(); }'),
dict(id='d02-meta-space',property='C27',edits=[(P,'                    opt(preceded(\n                        comment_or_space0,\n                        preceded(colon, preceded(comment_or_space0, single)),\n                    )),','                    opt(preceded(colon, preceded(comment_or_space0, single))),')],
 needs='white space before the colon of a metadata value',breaks='the schema is rejected',gen=1,main=r'fn main(){ gen("table A { x:int (id : 3); }").unwrap(); }'),
dict(id='d03-hex-upper',property='C27',edits=[(P,'preceded(zero, preceded(one_of("xX"), hex_digit1)),',"preceded(zero, preceded(char('x'), hex_digit1)),")],
 needs='a hexadecimal integer with an upper case X',breaks='the schema is rejected',gen=1,main=r'fn main(){ gen("table A { x:int = 0X1F; }").unwrap(); }'),
dict(id='d04-header',property='C20',edits=[(O,'    let code = format!("{}", generator.build_token_stream()?);','    let code = format!(\n        "// generated at {:?}\\n{}",\n        std::time::SystemTime::now(),\n        generator.build_token_stream()?\n    );')],
 needs='two compilations',breaks='the code differs',gen=1,main=r'fn main(){ assert_eq!(gen("table A { }").unwrap(),gen("table A { }").unwrap()); }'),
dict(id='d05-method-doc',property='C28',also=['C29'],edits=[(T,'                doc: m.doc.clone(),\n            });\n        }\n\n        let s = ir::Rpc {','                doc: rpc.doc.clone(),\n            });\n        }\n\n        let s = ir::Rpc {')],
 needs='a documented method',breaks='it gets the documentation of the service',gen=1,rpc=1,main=r'''use butte_build::codegen::RpcGenerator; use butte_build::compile_fbs_generic; struct G(Arc<Mutex<Vec<String>>>);
impl RpcGenerator for G { fn generate<'a>(&mut self, rpc:&butte_build::ir::types::Rpc<'a>, _:&mut proc_macro2::TokenStream){ for m in &rpc.methods { self.0.lock().unwrap().push(format!("{:?}",m.doc)); } } }
fn main(){ let v=Arc::new(Mutex::new(vec![])); compile_fbs_generic(true,Some(Box::new(G(v.clone()))),Box::new("table A { } /// S\nrpc_service S { /// M\nm(A):A; }".as_bytes()),Box::new(std::io::sink())).unwrap(); assert!(v.lock().unwrap()[0].contains("M"),"{:?}",v); }'''),
dict(id='d06-first-service',property='C29',edits=[(C,'                if let Some(gen) = rpc_gen {','                if let Some(mut gen) = rpc_gen.take() {')],
 needs='a schema with two services',breaks='only the first is generated',gen=1,rpc=1,main=r'''use butte_build::codegen::RpcGenerator; use butte_build::compile_fbs_generic; struct G(Arc<Mutex<Vec<String>>>);
impl RpcGenerator for G { fn generate<'a>(&mut self, rpc:&butte_build::ir::types::Rpc<'a>, _:&mut proc_macro2::TokenStream){ self.0.lock().unwrap().push(rpc.ident.to_string()); } }
fn main(){ let v=Arc::new(Mutex::new(vec![])); compile_fbs_generic(true,Some(Box::new(G(v.clone()))),Box::new("table A { } rpc_service S { m(A):A; } rpc_service R { m(A):A; }".as_bytes()),Box::new(std::io::sink())).unwrap(); assert_eq!(v.lock().unwrap().len(),2); }'''),
dict(id='d07-response',property='C29',also=['C25'],edits=[(T,'if !self.new_root_ident(&request_type)? || !self.new_root_ident(&response_type)? {','if !self.new_root_ident(&request_type)? && !self.new_root_ident(&response_type)? {')],
 needs='a method with an undeclared response type',breaks='it is accepted',gen=1,main=r'fn main(){ assert!(gen("table A { } rpc_service S { m(A):B; }").is_err()); }'),
dict(id='d08-unknown-default',property='C30',also=['C23'],edits=[(C,'''                        self.table
                            .get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)
                    }''','''                        match self.table.get::<#ty_wrapped>(#struct_id::#offset_name, #default_value) {
                            Err(::butte::Error::UnknownEnumVariant) => Ok(#default_value),
                            result => result,
                        }
                    }''')],
 needs='a buffer with an enum value the schema does not know',breaks='it reads as the default instead of an error',schema='enum E:ubyte { A, B } table T { e:E = B; }',
 main='fn main(){ let buf:[u8;20]=[12,0,0,0, 0,0,6,0,5,0,4,0, 6,0,0,0, 9,0,0,0]; let mut buf=buf; buf[4]=6;buf[5]=0;buf[6]=8;buf[7]=0;buf[8]=4;buf[9]=0; buf[12]=8; let t=g::T::get_root(&buf[..]).unwrap(); assert_eq!(t.e(),Err(butte::Error::UnknownEnumVariant)); }'),
dict(id='d09-read',property='C19',edits=[(O,'    input.read_to_string(&mut schema_text)?;','    let _ = input.read_to_string(&mut schema_text);')],
 needs='an input that fails to be read',breaks='an empty schema is compiled instead of the error',gen=1,main=r'''struct F; impl std::io::Read for F { fn read(&mut self,_:&mut [u8])->std::io::Result<usize>{ Err(std::io::Error::new(std::io::ErrorKind::Other,"x")) } }
fn main(){ assert!(butte_build::compile_fbs_generic(true,None,Box::new(F),Box::new(std::io::sink())).is_err()); }'''),
dict(id='d10-rest',property='C27',also=['C19'],edits=[(O,'    if !rest.is_empty() {',"    if !rest.trim_end_matches(';').is_empty() {")],
 needs='a stray semicolon at the end of the schema',breaks='it is accepted',gen=1,main=r'fn main(){ assert!(gen("table A { };").is_err()); }'),
dict(id='d11-implicit',property='C21',edits=[(A,'            Type::Array(..) | Type::Ident(..) | Type::String => None,','            Type::Array(..) | Type::Ident(..) | Type::String | Type::UInt64 => None,')],needs='a uint64 field without default that is left out',breaks='it reads as nothing instead of 0',schema='table A { x:uint64; y:int; }',main='fn main(){ let mut b=butte::FlatBufferBuilder::new(); let t=b.start_table(); let t=b.end_table(t); b.finish_minimal(t); assert_eq!(g::A::get_root(b.finished_data()).unwrap().x(),Ok(Some(0))); }'),
dict(id='d12-default-last',property='C23',also=['C21'],edits=[(C,'            .next();\n\n        // assign','            .last();\n\n        // assign')],
 needs='default arguments of a table with an enum field without default',breaks='the last variant is written instead of the first',schema='enum E:ubyte { A, B } table T { e:E; }',
 main='fn main(){ assert_eq!(g::E::default(),g::E::A); }'),
dict(id='d13-bidi',property='C29',edits=[(T,'Some(Some(ast::Single::String("bidi"))) => ir::RpcStreaming::Bidi,','Some(Some(ast::Single::String(s))) if s.starts_with("bidi") => ir::RpcStreaming::Bidi,')],
 needs='a streaming mode that begins with bidi',breaks='an unknown mode is accepted',gen=1,main=r'fn main(){ assert!(gen("table A { } rpc_service S { m(A):A (streaming: \"bidirectional\"); }").is_err()); }'),
dict(id='d14-union-doc',property='C28',edits=[(C,'''                quote! {
                    #doc
                    #variant_ident(#variant_ty_token)
                }''','''                let doc = doc.lines.first().map(|line| quote!(#[doc = #line]));
                quote! {
                    #doc
                    #variant_ident(#variant_ty_token)
                }''')],
 needs='a union member with several lines of documentation',breaks='all but the first are dropped',gen=1,main=r'fn main(){ let c=gen("table A { } union U { /// one\n/// two\nA }").unwrap(); assert_eq!(c.matches("two").count(),2,"{}",c); }'),
dict(id='d16-relative-short',property='C25',edits=[(Y,'.take(ns.len() - common_prefix_len)','.take(ns.len().min(self.len()) - common_prefix_len)')],
 needs='a reference from a namespace more deeply nested than the type it means',breaks='generated code names the wrong module',schema='table T { v:int; } namespace a; table S { v:int; } namespace a.b.c.d; table R { s:a.S; }',
 main='fn main(){ let mut b=butte::FlatBufferBuilder::new(); let o=g::a::S::create(&mut b,&g::a::SArgs{v:3}); let o=g::a::b::c::d::R::create(&mut b,&g::a::b::c::d::RArgs{s:Some(o)}); b.finish_minimal(o); assert_eq!(g::a::b::c::d::R::get_root(b.finished_data()).unwrap().s().unwrap().unwrap().v(),Ok(Some(3))); }'),
dict(id='d18-scalar-array',property='C21',also=['C25'],edits=[(T,'                if let Some(inner) = self.try_type(ty) {\n                    ir::Type::Array(Box::new(inner))','                if let Some(inner) = self.try_type(ty) {\n                    if let ir::Type::Array(_) = inner {\n                        return Some(inner);\n                    }\n                    ir::Type::Array(Box::new(inner))')],
 needs='a vector of vectors',breaks='it becomes a vector',schema='table A { v:[[int]]; }',
 main='fn main(){ let a=g::AArgs::default(); let _: Option<butte::WIPOffset<butte::Vector<butte::ForwardsUOffset<butte::Vector<i32>>>>> = a.v; }'),

]
