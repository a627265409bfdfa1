C='butte-build/src/codegen.rs'; T='butte-build/src/ir/transform.rs'; Y='butte-build/src/ir/types.rs'; P='butte-build/src/ast/parser.rs'; K='butte-build/src/ir/keywords.rs'; O='butte-build/src/compile.rs'; A='butte-build/src/ast/types.rs'
B='let mut b=butte::FlatBufferBuilder::new(); '
BUGS=[
dict(id='t01-endless',property='C18',edits=[(T,'if (context.nodes.len(), context.types.len()) == progress {','if (context.nodes.len(), context.types.len()) == progress && context.root_types.is_empty() {')],
 needs='an undeclared type in a schema with a root type',breaks='the compiler never ends',gen=1,main=r'fn main(){ std::thread::spawn(||{ std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(9); }); assert!(gen("table A { x:B; } table C { } root_type C;").is_err()); }'),
dict(id='t02-global-fallback',property='C25',also=['C27'],edits=[(T,'            _ => return None, // Type unsatisfied','            _ => match self.types.get(&ir::QualifiedIdent::from(vec![ident.simple().clone()])) {\n                Some(CustomTypeStatus::Defined(ty)) => ty.clone(),\n                _ => return None, // Type unsatisfied\n            },')],
 needs='an undeclared name of a namespace where the global namespace has a type of that name',breaks='it is accepted and code that does not compile is generated',gen=1,main=r'fn main(){ assert!(gen("table A { } table C { x:q.A; }").is_err()); }'),
dict(id='t03-hash-namespaces',property='C20',edits=[(T,'namespaces: BTreeMap<ir::Ident<\'a>, NamespaceBuf<\'a>>,','namespaces: HashMap<ir::Ident<\'a>, NamespaceBuf<\'a>>,'),(T,'            namespaces: BTreeMap::new(),','            namespaces: HashMap::new(),'),(T,'let mut nodes = BTreeMap::new();\n        // stack','let mut nodes = HashMap::new();\n        // stack')],
 needs='several namespaces',breaks='their order differs from run to run',gen=1,main=r'fn main(){ let s="namespace a; table A{} namespace b; table A{} namespace c; table A {} namespace d; table A {}"; let x=gen(s).unwrap(); for _ in 0..50 { assert!(x==gen(s).unwrap()); } }'),
dict(id='t04-many-fields',property='C22',also=['C21'],edits=[(C,'butte::field_index_to_field_offset(index as VOffsetT)','butte::field_index_to_field_offset(VOffsetT::from(index as u8))')],
 needs='a table of more than 256 fields',breaks='fields share slots',schema='table T { '+' '.join('f%d:int;'%i for i in range(258))+' }',
 main='fn main(){ assert_ne!(g::T::VT_F0,g::T::VT_F256); }'),
dict(id='t05-keyword-snake',property='C26',edits=[(C,'let snake_name_str = ident.as_ref().to_snake_case();','let snake_name_str = snake_name.as_ref();')],
 needs='',breaks='',schema='table T { type:string (required); }',
 main='fn main(){ let r=std::panic::catch_unwind(||{}); let _=r; let b=[8u8,0,0,0, 4,0,4,0, 4,0,0,0]; let t=g::T::get_root(&b[..]).unwrap(); assert_eq!(format!("{:?}",t.type_()),"Err(RequiredFieldMissing(\\"type\\"))"); }'),
dict(id='t06-relative',property='C25',edits=[(Y,'                .take_while(|(a, b)| a == b)','                .filter(|(a, b)| a == b)')],
 needs='two namespaces that differ in an inner part and agree in a later one',breaks='generated code names the wrong module',schema='namespace a.x.c; table S { v:int; } namespace a.y.c; table R { s:a.x.c.S; }',
 main='fn main(){ let mut b=butte::FlatBufferBuilder::new(); let o=g::a::x::c::S::create(&mut b,&g::a::x::c::SArgs{v:3}); let o=g::a::y::c::R::create(&mut b,&g::a::y::c::RArgs{s:Some(o)}); b.finish_minimal(o); }'),
dict(id='t07-companion-required',property='C24',also=['C22','C21'],edits=[(T,'                    let default_value = None;\n                    let metadata = ir::FieldMetadata::builder().required(required).build();','                    let default_value = Some(ast::DefaultValue::from("None"));\n                    let metadata = ir::FieldMetadata::builder().required(required).build();')],
 needs='a buffer written elsewhere in which the kind of a required union is absent',breaks='the kind reads as NONE instead of an error, or is not written',schema='table A { v:int; } union U { A } table T { u:U (required); }',
 main='fn main(){ let b=[8u8,0,0,0, 4,0,4,0, 4,0,0,0]; let t=g::T::get_root(&b[..]).unwrap(); assert!(t.u_type().is_err()); }'),
dict(id='t08-doc-empty',property='C28',edits=[(P,'    preceded(tag("///"), not_line_ending)(input)','    preceded(tag("///"), preceded(not(tag("/")), not_line_ending))(input)')],
 needs='a documentation line that begins with a slash',breaks='the schema is rejected',gen=1,main=r'fn main(){ assert!(gen("//// a\ntable A { }").unwrap().contains("/ a")); }'),
dict(id='t09-root-dup',property='C25',also=['C27'],edits=[(T,'            if def == &ir::CustomType::Table {\n                self.root_types','            if def == &ir::CustomType::Table || self.root_types.len() > 1 {\n                self.root_types')],
 needs='a third root type or service type that is no table',breaks='it is accepted',gen=1,main=r'fn main(){ assert!(gen("table A { } table B { } enum E:byte { X } root_type A; root_type B; root_type E;").is_err()); }'),
dict(id='t10-space',property='C27',edits=[(P,'    alt((complete(comment), value((), complete(multispace1))))(input)','    alt((complete(comment), value((), one_of(" \\t\\n")), value((), crlf)))(input)')],
 needs='a carriage return that is not followed by a line feed',breaks='the schema is rejected',gen=1,main=r'fn main(){ gen("table A {\r}").unwrap(); }'),
dict(id='t11-eof-comment',property='C27',edits=[(P,'    value((), tuple((tag("//"), not(tag("/")), not_line_ending)))(input)','    value((), tuple((tag("//"), not(tag("/")), not_line_ending, line_ending)))(input)')],
 needs='a comment at the very end of the schema',breaks='the schema is rejected',gen=1,main=r'fn main(){ gen("table A { } // end").unwrap(); }'),
dict(id='t12-float-f32',property='C21',edits=[(C,'                "f32" => format!("{}{}", *self as f32, float_ty),','                "f32" => format!("{:.9}{}", *self as f32, float_ty),')],
 needs='a float default with more than nine decimals',breaks='another default is used',schema='table T { f:float = 1.25e-11; }',
 main='fn main(){ assert_eq!(g::TArgs::default().f,1.25e-11f32); }'),
dict(id='t13-int-limit',property='C27',also=['C21'],edits=[(P,'        recognize(preceded(opt(plus_or_minus), digit1)),\n        IntegerConstant::from_str,','        recognize(preceded(opt(plus_or_minus), digit1)),\n        |digits: &str| i64::from_str(digits).map(IntegerConstant::from),')],
 needs='an unsigned default above the largest signed number',breaks='the schema is rejected',gen=1,main=r'fn main(){ gen("table A { x:ulong = 18446744073709551615; }").unwrap(); }'),
dict(id='t14-unsat-struct',property='C19',also=['C27'],edits=[(C,'            ir::Node::Struct(s) => return Err(anyhow!("structs are not supported: {}", s.ident)),','            ir::Node::Struct(s) if !s.fields.is_empty() => return Err(anyhow!("structs are not supported: {}", s.ident)),\n            ir::Node::Struct(_) => (),')],
 needs='a struct without fields',breaks='it is left out silently',gen=1,main=r'fn main(){ assert!(gen("struct S { }").is_err()); }'),
dict(id='t15-order',property='C26',edits=[(Y,'            Ident::from(snake_case)','            Ident {\n                raw: Cow::Owned(snake_case),\n            }')],
 needs='a field whose snake case name is a keyword',breaks='generated code does not compile',schema='table T { Type:int; }',
 main='fn main(){ let b=[8u8,0,0,0, 4,0,4,0, 4,0,0,0]; let t=g::T::get_root(&b[..]).unwrap(); assert_eq!(t.type_(),Ok(Some(0))); }'),
dict(id='t16-enum-name',property='C23',edits=[(C,'''            let raw_key = key.raw.as_ref();
            quote! {''','''            let raw_key = key.raw.trim_end_matches('_');
            quote! {''')],
 needs='a variant whose name ends in an underscore',breaks='its name is changed',schema='enum E:byte { A_, B }',
 main='fn main(){ assert_eq!(g::enum_name_e(g::E::A_),"A_"); }'),
dict(id='t17-args-default',property='C21',edits=[(C,'                        quote!(#field_id: <#arg_ty>::#default_name)\n','                        let default_name = if default_name.as_ref() == "None" {\n                            ir::Ident::from("default()")\n                        } else {\n                            default_name\n                        };\n                        quote!(#field_id: <#arg_ty>::#default_name)\n')],
 needs='',breaks='',gen=1,main='fn main(){}'),
dict(id='t18-union-none',property='C24',also=['C30'],edits=[(C,'                              None | Some(#enum_ident::None) => None','                              _ => None')],
 needs='',breaks='',gen=1,main='fn main(){}'),
dict(id='t19-late-namespace',property='C25',edits=[(T,'            .map(|(i, el)| {\n                if let ast::Element::Namespace(ref ns) = el {\n                    namespace = Some(ns.clone());\n                }','            .map(|(i, el)| {\n                if let ast::Element::Namespace(ref ns) = el {\n                    if namespace.as_ref() != Some(ns) {\n                        namespace = Some(ns.clone());\n                    }\n                }')],
 needs='',breaks='',gen=1,main='fn main(){}'),
dict(id='t20-ns-prefix',property='C25',edits=[(T,'            if let Some(n) = parent.get_mut(ns.ident.simple()) {\n                n.nodes = ns.nodes;','            if let Some(n) = parent.get_mut(ns.ident.simple()) {\n                n.nodes.extend(ns.nodes.into_iter().filter(|n| n.is_namespace()));')],
 needs='a namespace that contains another one declared before',breaks='its types are lost',gen=1,main=r'fn main(){ let c=gen("namespace a.b; table X { } namespace a; table Y { }").unwrap(); assert!(c.contains("struct Y")); }'),
dict(id='t21-streaming-none',property='C29',edits=[(T,'                    None => ir::RpcStreaming::None,\n                    Some(Some(s))','                    None | Some(Some(ast::Single::String(""))) | Some(Some(ast::Single::String("none"))) => ir::RpcStreaming::None,\n                    Some(Some(s))')],
 needs='an empty streaming mode',breaks='it is accepted',gen=1,main=r'fn main(){ assert!(gen("table A { } rpc_service S { m(A):A (streaming: \"\"); }").is_err()); }'),
dict(id='t22-snake-method',property='C29',edits=[(T,'let snake_ident = ir::Ident::from(m.id.as_ref().to_snake_case());','let snake_ident = ir::Ident::from(m.id.as_ref().to_lowercase());')],
 needs='a method name of several words',breaks='its snake case name has no underscores',gen=1,rpc=1,main=r'''use butte_build::codegen::RpcGenerator; use butte_build::compile_fbs_generic; struct G(Arc<Mutex<Vec<String>>>);
impl RpcGenerator for G { fn generate<'a>(&mut self, rpc:&butte_build::ir::types::Rpc<'a>, _:&mut proc_macro2::TokenStream){ for m in &rpc.methods { self.0.lock().unwrap().push(m.snake_ident.to_string()); } } }
fn main(){ let v=Arc::new(Mutex::new(vec![])); compile_fbs_generic(true,Some(Box::new(G(v.clone()))),Box::new("table A { } rpc_service S { sayHello(A):A; }".as_bytes()),Box::new(std::io::sink())).unwrap(); assert_eq!(v.lock().unwrap()[0],"say_hello"); }'''),
dict(id='t23-required-name',property='C21',edits=[(C,'.filter(|field| field.metadata.required)\n            .map(|field| {','.filter(|field| field.metadata.required && !field.ty.is_array())\n            .map(|field| {')],
 needs='',breaks='',gen=1,main='fn main(){}'),
dict(id='t24-vec-enum',property='C21',also=['C23'],edits=[(Y,'                CustomType::Table | CustomType::Union { .. } => false,\n                CustomType::Struct { .. } | CustomType::Enum { .. } => true,','                CustomType::Table | CustomType::Union { .. } => false,\n                CustomType::Enum { variants, .. } => variants.len() < 256,\n                CustomType::Struct { .. } => true,')],
 needs='an enum of more than 255 variants',breaks='its fields are treated as references',schema='enum E:ushort { '+', '.join('V%d'%i for i in range(260))+' } table T { e:E; }',
 main='fn main(){ let mut b=butte::FlatBufferBuilder::new(); let o=g::T::create(&mut b,&g::TArgs{e:g::E::V7}); b.finish_minimal(o); assert_eq!(g::T::get_root(b.finished_data()).unwrap().e(),Ok(Some(g::E::V7))); }'),
]
