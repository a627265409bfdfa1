C='butte-build/src/codegen.rs'; T='butte-build/src/ir/transform.rs'; Y='butte-build/src/ir/types.rs'; P='butte-build/src/ast/parser.rs'; K='butte-build/src/ir/keywords.rs'; O='butte-build/src/compile.rs'; A='butte-build/src/ast/types.rs'
BUGS=[
dict(id='u01-union-keyword',property='C26',edits=[(C,'format_ident!("{}_type", field.ident.as_ref().to_snake_case());','format_ident!("{}_type", snake_name.as_ref());')],
 needs='a union field named by a keyword',breaks='generated code does not compile',schema='table A { v:int; } union U { A } table T { type:U; }',
 main='fn main(){ let b=[8u8,0,0,0, 4,0,4,0, 4,0,0,0]; let t=g::T::get_root(&b[..]).unwrap(); assert!(t.type_type().unwrap().is_none()); }'),
dict(id='u02-relative-parent',property='C25',edits=[(T,'''        } else {
            ir::QualifiedIdent::from(qualified_ident.clone())
        }''','''        } else {
            let full = ir::QualifiedIdent::from(qualified_ident.clone());
            // a path that starts at the innermost namespace
            let relative = self.current_namespace().and_then(|ns| {
                let mut parts = ir::QualifiedIdent::from(&ns.ident).parts;
                if parts.last() != full.parts.first() {
                    return None;
                }
                parts.extend(full.parts.iter().skip(1).cloned());
                let relative = ir::QualifiedIdent::from(parts);
                if self.types.contains_key(&relative) {
                    Some(relative)
                } else {
                    None
                }
            });
            relative.unwrap_or(full)
        }''')],
 needs='a namespace a.b with the type S next to the namespace b with the type S',breaks='b.S means a.b.S',schema='namespace b; table S { v:int; } namespace a.b; table S { w:string; } table T { s:b.S; }',
 main='fn main(){ let mut b=butte::FlatBufferBuilder::new(); let o=g::b::S::create(&mut b,&g::b::SArgs{v:3}); let o=g::a::b::T::create(&mut b,&g::a::b::TArgs{s:Some(o)}); b.finish_minimal(o); assert_eq!(g::a::b::T::get_root(b.finished_data()).unwrap().s().unwrap().unwrap().v(),Ok(Some(3))); }'),
dict(id='u03-enum-i64',property='C23',edits=[(C,'let formatted_value = scalar_value.fmt_lit(base_type.to_token_stream());','let formatted_value = ast::IntegerConstant::from(scalar_value as i64).fmt_lit(base_type.to_token_stream());')],
 needs='a value above the largest signed number',breaks='generated code does not compile',schema='enum E:ulong { A = 18446744073709551615 } table T { e:E; }',
 main='fn main(){ assert_eq!(u64::from(g::E::A),u64::max_value()); }'),
dict(id='u04-try-order',property='C23',also=['C30'],edits=[(C,'''                        _ => Err(::butte::Error::UnknownEnumVariant)
''','''                        value if value == <#base_type>::max_value() => Ok(Self::default()),
                        _ => Err(::butte::Error::UnknownEnumVariant)
''')],
 needs='the largest number of the base type in the buffer',breaks='it reads as the first variant',schema='enum E:byte { A } table T { e:E; }',
 main='use std::convert::TryFrom; fn main(){ assert!(g::E::try_from(127).is_err()); }'),
dict(id='u05-rustfmt-partial',property='C19',edits=[(O,'            .write_all(code.as_bytes())?;','            .write_all(code.trim_end_matches(char::is_alphabetic).as_bytes())?;')],
 needs='',breaks='',gen=1,main='fn main(){}'),
dict(id='u06-response-shadow',property='C29',also=['C25'],edits=[(T,'''            let response_type =
                self.make_fully_qualified_from_ast_qualified_ident(&m.response_type);
''','''            let response_type =
                self.make_fully_qualified_from_ast_qualified_ident(&m.response_type);
            let response_type = if response_type.simple() == request_type.simple() {
                request_type.clone()
            } else {
                response_type
            };
''')],
 needs='a method whose request and response types have the same name in different namespaces',breaks='the generator is given the request type twice',rpc=1,gen=1,
 main=r'''use std::rc::Rc; use std::cell::RefCell; struct G(Rc<RefCell<Vec<String>>>); impl butte_build::codegen::RpcGenerator for G { fn generate<'a>(&mut self, r:&butte_build::ir::types::Rpc<'a>, _t:&mut proc_macro2::TokenStream){ for m in &r.methods { self.0.borrow_mut().push(format!("{}",m.response_type)); } } }
fn main(){ let v=Rc::new(RefCell::new(vec![])); let o=Out(Arc::new(Mutex::new(vec![]))); butte_build::compile_fbs_generic(true,Some(Box::new(G(v.clone()))),Box::new(std::io::Cursor::new(b"table R { } rpc_service S { M(R):n.R; } namespace n; table R { }".to_vec())),Box::new(o)).unwrap(); assert_eq!(*v.borrow(),vec!["n.R".to_string()]); }'''),
dict(id='u07-default-bool',property='C21',edits=[(C,'                    quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #arg_name, #default_value))','                    if ty == &ir::Type::Bool {\n                        quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #arg_name, false))\n                    } else {\n                        quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #arg_name, #default_value))\n                    }')],
 needs='a bool with default true set to false',breaks='false reads as true',schema='table T { b:bool = true; }',
 main='fn main(){ let mut b=butte::FlatBufferBuilder::new(); let o=g::T::create(&mut b,&g::TArgs{b:false}); b.finish_minimal(o); assert_eq!(g::T::get_root(b.finished_data()).unwrap().b(),Ok(Some(false))); }'),
dict(id='u08-required-scalars',property='C21',also=['C14'],edits=[(C,'            .filter(|field| field.metadata.required)\n            .map(|field| {','            .filter(|field| field.metadata.required && !field.ty.is_scalar())\n            .map(|field| {')],
 needs='',breaks='',schema='table T { b:bool = true; }',main='fn main(){}'),
dict(id='u09-namespace-case',property='C25',also=['C26'],edits=[(C,'                _ => e.to_snake_case().to_string(),','                name if name.chars().all(char::is_lowercase) => e.to_string(),\n                _ => e.to_snake_case().to_string(),')],
 needs='',breaks='',schema='table T { b:bool = true; }',main='fn main(){}'),
dict(id='u10-union-mod',property='C25',also=['C24'],edits=[(T,'''        let enum_ident = format!("{}Type", u.id.raw);''','''        let enum_ident = format!("{}Type", u.id.raw.trim_end_matches('_'));''')],
 needs='two unions whose names differ in trailing underscores',breaks='the schema is rejected',gen=1,main='fn main(){ gen("table A { } union U { A } union U_ { A }").unwrap(); }'),
dict(id='u11-nested-vector',property='C21',edits=[(C,'''                &quote!(::butte::ForwardsUOffset),
                true,
            );
            let ty = quote!(::butte::Vector''','''                &quote!(::butte::ForwardsUOffset),
                !ty.is_array_of_enums(),
            );
            let ty = quote!(::butte::Vector''')],
 needs='',breaks='',schema='table T { b:bool = true; }',main='fn main(){}'),
dict(id='u12-doc-order',property='C28',edits=[(C,'        let doc = self.lines.iter().rev().fold(quote!(), |docs, line| {','        let doc = self.lines.iter().take(64).rev().fold(quote!(), |docs, line| {')],
 needs='more than 64 lines of documentation',breaks='the others are lost',gen=1,main=r'fn main(){ let s:String=(0..70).map(|i|format!("/// line{}\n",i)).collect(); assert!(gen(&(s+"table A { }")).unwrap().contains("line69")); }'),
dict(id='u13-flush',property='C19',edits=[(O,'    output.write_all(&text_output[..])?;','    for chunk in text_output.chunks(8192) {\n        output.write_all(chunk)?;\n        if chunk.len() < 8192 {\n            break;\n        }\n    }')],
 needs='',breaks='',gen=1,main='fn main(){}'),
dict(id='u14-chunks',property='C19',edits=[(O,'    output.write_all(&text_output[..])?;','    for chunk in text_output.chunks_exact(4096) {\n        output.write_all(chunk)?;\n    }\n    let rest = text_output.len() % 4095;\n    output.write_all(&text_output[text_output.len() - rest.min(text_output.len() % 4096)..])?;')],
 needs='output longer than 4096 bytes',breaks='a byte is lost',gen=1,main=r'fn main(){ let s:String=(0..60).map(|i|format!("table T{} {{ x:int; }}",i)).collect(); let o=gen(&s).unwrap(); for i in 0..60 { assert_eq!(o.matches(&format!("pub struct T{}Args ",i)).count(),1); } let mut n=0i32; for c in o.chars() { if c==char::from(123u8) { n+=1; } if c==char::from(125u8) { n-=1; } } assert_eq!(n,0); }'),
dict(id='u15-method-limit',property='C29',edits=[(T,'        for m in &rpc.methods {','        for m in rpc.methods.iter().take(32) {')],
 needs='a service of more than 32 methods',breaks='the others are lost',rpc=1,gen=1,
 main=r'''use std::rc::Rc; use std::cell::RefCell; struct G(Rc<RefCell<usize>>); impl butte_build::codegen::RpcGenerator for G { fn generate<'a>(&mut self, r:&butte_build::ir::types::Rpc<'a>, _t:&mut proc_macro2::TokenStream){ *self.0.borrow_mut()=r.methods.len(); } }
fn main(){ let v=Rc::new(RefCell::new(0)); let o=Out(Arc::new(Mutex::new(vec![]))); let s:String=(0..40).map(|i|format!("M{}(R):R;",i)).collect(); butte_build::compile_fbs_generic(true,Some(Box::new(G(v.clone()))),Box::new(std::io::Cursor::new(format!("table R {{ }} rpc_service S {{ {} }}",s).into_bytes())),Box::new(o)).unwrap(); assert_eq!(*v.borrow(),40); }'''),
dict(id='u16-ns-depth',property='C25',edits=[(Y,'                .take_while(|(a, b)| a == b)','                .take(4)\n                .take_while(|(a, b)| a == b)')],
 needs='',breaks='',gen=1,main='fn main(){}'),
]
