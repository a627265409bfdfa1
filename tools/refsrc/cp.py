C='butte-build/src/codegen.rs'; T='butte-build/src/ir/transform.rs'; Y='butte-build/src/ir/types.rs'; P='butte-build/src/ast/parser.rs'; K='butte-build/src/ir/keywords.rs'; O='butte-build/src/compile.rs'; A='butte-build/src/ast/types.rs'
REF=[
('relative-loop',[(Y,'''            let common_prefix_len = self
                .parts
                .iter()
                .zip(ns.parts.iter())
                .take_while(|(a, b)| a == b)
                .count();
''','''            let mut common_prefix_len = 0;
            while common_prefix_len < self.parts.len()
                && common_prefix_len < ns.parts.len()
                && self.parts[common_prefix_len] == ns.parts[common_prefix_len]
            {
                common_prefix_len += 1;
            }
'''),(Y,'''            let parts = std::iter::repeat(Ident::keyword("super"))
                .take(ns.len() - common_prefix_len)
                .chain(self.parts[common_prefix_len..].to_vec())
                .collect();
            QualifiedIdent { parts }''','''            let mut parts = vec![Ident::keyword("super"); ns.len() - common_prefix_len];
            parts.extend_from_slice(&self.parts[common_prefix_len..]);
            QualifiedIdent { parts }''')]),
('namespace-split',[(Y,'''        if self.parts.len() > 1 {
            Some(Self {
                parts: self.parts[..self.parts.len() - 1].to_vec(),
            })
        } else {
            None
        }''','''        match self.parts.split_last() {
            Some((_, rest)) if !rest.is_empty() => Some(Self {
                parts: rest.to_vec(),
            }),
            _ => None,
        }''')]),
('simple-last',[(Y,'&self.parts[self.parts.len() - 1]','self.parts.last().expect("never empty")')]),
('required-helper',[(T,'''                let required = match &f.metadata {
                    Some(m) => matches!(m.values.get(&ast::Ident::from("required")), Some(None)),
                    None => false,
                };
''','''                let required = is_required(f);
'''),(T,'''impl<'a> Builder<'a> {
    fn new_element(''','''fn is_required(f: &ast::Field<'_>) -> bool {
    f.metadata.as_ref().map_or(false, |m| {
        m.values
            .iter()
            .any(|(key, value)| key.raw == "required" && value.is_none())
    })
}

impl<'a> Builder<'a> {
    fn new_element(''')]),
('push-field-helper',[(T,'''                let metadata = ir::FieldMetadata::builder().required(required).build();
                let doc = f.doc.clone();

                fields.push(ir::Field {
                    ident,
                    ty,
                    default_value,
                    metadata,
                    doc,
                });
            } else {
                // not satisfied yet, so we can't build the fields
                // we will try after having seen all other types.
                return Ok(false);
            }
        }

        // Accessors''','''                let mut field = ir::Field {
                    ident,
                    ty,
                    default_value,
                    metadata: ir::FieldMetadata::default(),
                    doc: ast::Comment::default(),
                };
                field.metadata.required = required;
                field.doc.lines.extend_from_slice(&f.doc.lines);
                fields.push(field);
            } else {
                // not satisfied yet, so we can't build the fields
                // we will try after having seen all other types.
                return Ok(false);
            }
        }

        // Accessors''')]),
('default-match',[(T,'let default_value = f.default_value.clone().or_else(|| (&f.ty).try_into().ok());','''let default_value = match &f.default_value {
                    Some(value) => Some(value.clone()),
                    None => ast::DefaultValue::try_from(&f.ty).ok(),
                };''')]),
('already-defined-helper',[(T,'''        if let Some(CustomTypeStatus::Defined(..)) = self.types.get(ident) {
            return Err(anyhow!("type already defined: {}", ident));
        };

        // We consider''','''        self.check_undefined(ident)?;

        // We consider'''),(T,'''    fn new_struct(&mut self''','''    fn check_undefined(&self, ident: &ir::QualifiedIdent<'a>) -> Result<()> {
        match self.types.get(ident) {
            Some(CustomTypeStatus::Defined(..)) => Err(anyhow!("type already defined: {}", ident)),
            Some(CustomTypeStatus::TableDeclared) | None => Ok(()),
        }
    }

    fn new_struct(&mut self''')]),
('enum-variants-loop',[(T,'''        let variants: Vec<_> = e
            .variants
            .iter()
            .map(|v| ir::EnumVariant {
                ident: ir::Ident::from(v.id),
                value: v.value,
                doc: v.doc.clone(),
            })
            .collect();
''','''        let mut variants = Vec::with_capacity(e.variants.len());
        for v in e.variants.iter() {
            variants.push(ir::EnumVariant {
                doc: v.doc.clone(),
                value: v.value,
                ident: ir::Ident::from(v.id),
            });
        }
''')]),
('union-variants-vec',[(T,'''        let variants: Vec<_> = std::iter::once(ir::EnumVariant {
            ident: ir::Ident::from("None"),
            value: Some(0.into()),
            doc: vec![].into(),
        })
        .chain(u.variants.iter().map(|v| ir::EnumVariant {
            ident: v.id.into(),
            value: v.value,
            doc: v.doc.clone(),
        }))
        .collect();
''','''        let mut variants = vec![ir::EnumVariant {
            ident: ir::Ident::from("None"),
            value: Some(0),
            doc: ast::Comment::default(),
        }];
        variants.extend(u.variants.iter().map(|v| ir::EnumVariant {
            ident: v.id.into(),
            value: v.value,
            doc: v.doc.clone(),
        }));
''')]),
('streaming-helper',[(T,'''            let streaming = match &m.metadata {
                Some(m) => match m.values.get(&ast::Ident::from("streaming")) {
                    Some(Some(ast::Single::String("client"))) => ir::RpcStreaming::Client,
                    Some(Some(ast::Single::String("server"))) => ir::RpcStreaming::Server,
                    Some(Some(ast::Single::String("bidi"))) => ir::RpcStreaming::Bidi,
                    None => ir::RpcStreaming::None,
                    Some(Some(s)) => return Err(anyhow!("Unknown streaming type: {:?}", s)),
                    Some(None) => {
                        return Err(anyhow!(
                        "Missing streaming type: possible values are `client`, `server` and `bidi`"
                    ))
                    }
                },
                None => ir::RpcStreaming::None,
            };
''','''            let streaming = Self::streaming(m)?;
'''),(T,'''    fn current_namespace(&self)''','''    fn streaming(m: &ast::RpcMethod<'a>) -> Result<ir::RpcStreaming> {
        let key = ast::Ident::from("streaming");
        let mode = match m.metadata.as_ref().and_then(|m| m.values.get(&key)) {
            None => return Ok(ir::RpcStreaming::None),
            Some(Some(ast::Single::String(s))) => *s,
            Some(Some(s)) => return Err(anyhow!("Unknown streaming type: {:?}", s)),
            Some(None) => {
                return Err(anyhow!(
                    "Missing streaming type: possible values are `client`, `server` and `bidi`"
                ))
            }
        };
        if mode == "client" {
            Ok(ir::RpcStreaming::Client)
        } else if mode == "server" {
            Ok(ir::RpcStreaming::Server)
        } else if mode == "bidi" {
            Ok(ir::RpcStreaming::Bidi)
        } else {
            Err(anyhow!("Unknown streaming type: {:?}", mode))
        }
    }

    fn current_namespace(&self)''')]),
('fqi-one',[(T,'''        let mut fqi = self
            .current_namespace()
            .map(|ns| ir::QualifiedIdent::from(&ns.ident))
            .unwrap_or_default();
        fqi.parts.push(ident);
        fqi''','''        self.make_fully_qualified_ident_relative(ir::QualifiedIdent { parts: vec![ident] })''')]),
('try-type-question',[(T,'''                if let Some(inner) = self.try_type(ty) {
                    ir::Type::Array(Box::new(inner))
                } else {
                    return None; // unsatisfied inner type
                }''','''                let inner = self.try_type(ty)?;
                ir::Type::Array(Box::new(inner))''')]),
('build-for',[(T,'''            while let Some(element) = input.pop_front() {
                if !context.new_element(&element)? {
                    unsatisfied.push_back(element);
                }
            }''','''            for element in input.drain(..) {
                if context.new_element(&element)? {
                    continue;
                }
                unsatisfied.push_back(element);
            }''')]),
('build-vec',[(T,'''        let mut namespace = None;
        let mut input: VecDeque<_> = schema
            .elements
            .into_iter()
            .enumerate()
            .map(|(i, el)| {
                if let ast::Element::Namespace(ref ns) = el {
                    namespace = Some(ns.clone());
                }
                IndexedElement(i, namespace.clone(), el)
            })
            .collect();
''','''        let mut namespace = None;
        let mut input = VecDeque::new();
        for (i, el) in schema.elements.into_iter().enumerate() {
            if let ast::Element::Namespace(ns) = &el {
                namespace = Some(ns.clone());
            }
            input.push_back(IndexedElement(i, namespace.clone(), el));
        }
''')]),
('root-mark-loop',[(T,'''        let nodes: Vec<_> = nodes
            .into_iter()
            .map(|(_, v)| v)
            .flatten()
            .map(|mut v| {
                if let ir::Node::Table(ref mut t) = &mut v {
                    if root_types.contains(&t.ident) {
                        t.root_type = true;
                    }
                };
                v
            })
            .collect();
''','''        let mut flat = Vec::new();
        for (_, group) in nodes {
            for mut node in group {
                if let ir::Node::Table(t) = &mut node {
                    t.root_type = root_types.contains(&t.ident);
                }
                flat.push(node);
            }
        }
        let nodes = flat;
''')]),
('group-entry',[(T,'''        let mut elements: HashMap<_, _> = nodes
            .into_iter()
            .map(|n| (n.namespace(), n))
            .into_group_map()
            .into_iter()
            .collect();
''','''        let mut elements: HashMap<Option<ir::QualifiedIdent<'_>>, Vec<ir::Node<'_>>> = HashMap::new();
        for n in nodes {
            elements.entry(n.namespace()).or_insert_with(Vec::new).push(n);
        }
''')]),
('idents-sort',[(T,'''        let namespaces_idents: BTreeSet<_> = elements.keys().cloned().flatten().collect();
''','''        let mut namespaces_idents: Vec<_> = elements.keys().flatten().cloned().collect::<BTreeSet<_>>().into_iter().collect();
        namespaces_idents.sort();
''')]),
('doc-for',[(C,'''        let doc = self.lines.iter().rev().fold(quote!(), |docs, line| {
            quote! {
                #[doc = #line]
                #docs
            }
        });
        doc.to_tokens(tokens)''','''        for line in &self.lines {
            tokens.extend(quote!(#[doc = #line]));
        }''')]),
('doc-repeat',[(C,'''        let doc = self.lines.iter().rev().fold(quote!(), |docs, line| {
            quote! {
                #[doc = #line]
                #docs
            }
        });
        doc.to_tokens(tokens)''','''        let lines = &self.lines;
        (quote! { #(#[doc = #lines])* }).to_tokens(tokens)''')]),
('args-lifetime-fn',[(C,'''        let args_lifetime = |lifetime_name| {
            if fields
                .iter()
                .any(|f| !(f.ty.is_scalar() || f.ty.is_union()))
            {
                quote!(<#lifetime_name>)
            } else {
                quote!()
            }
        };
        let args_lifetime_a = args_lifetime(quote!('a));
        let args_lifetime_args = args_lifetime(quote!('args));
''','''        let mut has_lifetime = false;
        for f in fields {
            if !f.ty.is_scalar() && !f.ty.is_union() {
                has_lifetime = true;
                break;
            }
        }
        let (args_lifetime_a, args_lifetime_args) = if has_lifetime {
            (quote!(<'a>), quote!(<'args>))
        } else {
            (quote!(), quote!())
        };
''')]),
('offsets-vec',[(C,'''        let field_offset_constants = fields.iter().enumerate().map(|(index, field)| {
            let offset_name = offset_id(field);
            let offset_value = butte::field_index_to_field_offset(index as VOffsetT);
            quote! {
                pub const #offset_name: ::butte::VOffsetT = #offset_value;
            }
        });
''','''        let mut field_offset_constants = Vec::new();
        let mut offset_value: VOffsetT = 4;
        for field in fields {
            let offset_name = offset_id(field);
            field_offset_constants.push(quote! {
                pub const #offset_name: ::butte::VOffsetT = #offset_value;
            });
            offset_value += 2;
        }
''')]),
('enum-scalars-vec',[(C,'''        let from_base_to_enum_variants =
            variants_and_scalars
                .clone()
                .map(|(variant_name, scalar_value, _)| {''','''        let variants_and_scalars: Vec<_> = variants_and_scalars.collect();
        let variants_and_scalars = variants_and_scalars.into_iter();
        let from_base_to_enum_variants =
            variants_and_scalars
                .clone()
                .map(|(variant_name, scalar_value, _)| {''')]),
('accessor-question',[(C,'''                        self.table
                            .get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)?
                            .ok_or(::butte::Error::RequiredFieldMissing(#snake_name_str))
''','''                        match self.table.get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)? {
                            Some(value) => Ok(value),
                            None => Err(::butte::Error::RequiredFieldMissing(#snake_name_str)),
                        }
''')]),
('accessor-let',[(C,'''                        self.table
                            .get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)
                    }''','''                        let value = self.table.get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)?;
                        Ok(value)
                    }''')]),
('lit-helper',[(C,'''                            let default_val = match default_value {
                                ast::DefaultValue::Scalar(s) => match s {
                                    ast::Scalar::Integer(i) => i.fmt_lit(arg_ty).to_token_stream(),
                                    ast::Scalar::Float(f) => f.fmt_lit(arg_ty).to_token_stream(),
                                    ast::Scalar::Boolean(b) => quote!(#b),
                                },
                                _ => panic!("expecting numeric default"),
                            };
                            quote!(#field_id: #default_val)''','''                            let default_val = to_default_value(&arg_ty, default_value);
                            quote!(#field_id: #default_val)''')]),
('rest-chars',[(O,'''    if !rest.is_empty() {
        return Err(anyhow!(
            "Parse was incomplete: not parsed: {}...",
            rest.chars().take(30).collect::<String>()
        ));
    }''','''    match rest.chars().next() {
        None => {}
        Some(_) => return Err(anyhow!("Parse was incomplete: not parsed: {:.30}...", rest)),
    }''')]),
('generate-split',[(O,'''    let text_output = if !ugly {
        let mut cmd''','''    if ugly {
        return Ok(code.into_bytes());
    }
    let text_output = {
        let mut cmd'''),(O,'''        formatted.stdout
    } else {
        Vec::from(code)
    };
    Ok(text_output)''','''        formatted.stdout
    };
    Ok(text_output)''')]),
('read-bytes',[(O,'''    let mut schema_text = String::new();
    input.read_to_string(&mut schema_text)?;
''','''    let mut bytes = Vec::new();
    input.read_to_end(&mut bytes)?;
    let schema_text = String::from_utf8(bytes)?;
''')]),
('ident-verify',[(P,'''    map(
        recognize(preceded(
            take_while_m_n(1, 1, |c: char| c.is_ascii_alphabetic() || c == '_'),
            take_while(|c: char| c.is_ascii_alphanumeric() || c == '_'),
        )),
        Ident::from,
    )(input)''','''    let is_start = |c: char| c.is_ascii_alphabetic() || c == '_';
    let is_rest = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let (rest, raw) = recognize(preceded(
        take_while_m_n(1, 1, is_start),
        take_while(is_rest),
    ))(input)?;
    Ok((rest, Ident { raw }))''')]),
('comment-order',[(P,'alt((complete(comment), value((), complete(multispace1))))(input)','alt((value((), multispace1), comment))(input)')]),
('space0-fold',[(P,'''pub fn comment_or_space0(input: &str) -> IResult<&str, ()> {
    value((), many0(comment_or_space))(input)
}''','''pub fn comment_or_space0(input: &str) -> IResult<&str, ()> {
    let mut rest = input;
    while let Ok((r, ())) = comment_or_space(rest) {
        rest = r;
    }
    Ok((rest, ()))
}''')]),
('hex-map',[(P,'''            if let Some('-') = sign {
                int_const
                    .checked_neg()
                    .ok_or_else(|| anyhow!("invalid value for negation {}", int_const))
            } else {
                Ok(int_const)
            }''','''            match sign {
                Some('-') => match int_const.checked_neg() {
                    Some(negated) => Ok(negated),
                    None => Err(anyhow!("invalid value for negation {}", int_const)),
                },
                _ => Ok(int_const),
            }''')]),
('keyword-early',[(Y,'''        if let Some(substitute) = super::keywords::substitute_keyword(ident.as_ref()) {
            Cow::Borrowed(substitute)
        } else {
            ident
        }''','''        match super::keywords::substitute_keyword(&ident) {
            Some(substitute) => substitute.into(),
            None => ident,
        }''')]),
('table-decl-helper',[(P,'''pub fn table_decl(input: &str) -> IResult<&str, Table<'_>> {
    map(
        tuple((doc_comment, preceded(tag("table"), product_type_body))),
        |(comment, (name, metadata, fields))| {
            Table::builder()
                .doc(comment)
                .id(name)
                .metadata(metadata)
                .fields(fields)
                .build()
        },
    )(input)''','''pub fn table_decl(input: &str) -> IResult<&str, Table<'_>> {
    let (input, doc) = doc_comment(input)?;
    let (input, _) = tag("table")(input)?;
    let (input, (id, metadata, fields)) = product_type_body(input)?;
    Ok((
        input,
        Table {
            id,
            fields,
            metadata,
            doc,
        },
    ))''')]),
]
