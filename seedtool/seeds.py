SEEDS = []
def S(id, prop, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

S('c08-vec-later-error', 'C08', [('src/containers.rs', "                Err(e) => ctx.emit_error(e),\n", "                Err(e) if result.is_empty() => ctx.emit_error(e),\n                Err(_) => {}\n")],
'''use knuffel::Decode;
#[derive(Decode, Debug)]
#[allow(dead_code)]
struct A { #[knuffel(argument)] x: i32 }
fn main() {
    assert!(knuffel::parse::<Vec<A>>("t", "a\\na 1").is_err());
    assert!(knuffel::parse::<Vec<A>>("t", "a 1\\na\\na 2").is_err());
}
''', 'a failing node after one that decoded', 'errors of later nodes are dropped and the document is accepted')

S('c13-oct-radix', 'C13', [('src/convert.rs', "Radix::Oct => <$typ>::from_str_radix(&val.1, 8)", "Radix::Oct => <$typ>::from_str_radix(&val.1, 10)")],
'''use knuffel::Decode;
#[derive(Decode, Debug)]
struct A { #[knuffel(argument)] x: i32 }
fn main() {
    let v = knuffel::parse::<Vec<A>>("t", "a 0o17").unwrap();
    assert_eq!(v[0].x, 15);
}
''', 'an octal literal with more than one digit', 'octal integers are read as decimal')

S('c16-base64-lenient', 'C16', [('src/decode.rs', """                                Err(e) => {
                                    ctx.emit_error(DecodeError::conversion(
                                        &value.literal, e));
                                    Default::default()
                                }""", """                                Err(base64::DecodeError::InvalidLength) => {
                                    // tolerate a truncated tail
                                    let n = s.len() - s.len() % 4;
                                    STANDARD.decode(&s.as_bytes()[..n])
                                        .unwrap_or_default()
                                }
                                Err(e) => {
                                    ctx.emit_error(DecodeError::conversion(
                                        &value.literal, e));
                                    Default::default()
                                }""")],
'''use knuffel::Decode;
#[derive(Decode, Debug)]
#[allow(dead_code)]
struct A { #[knuffel(argument, bytes)] x: Vec<u8> }
fn main() {
    assert!(knuffel::parse::<Vec<A>>("t", "a (base64)\\"AAAAA\\"").is_err());
    assert_eq!(knuffel::parse::<Vec<A>>("t", "a (base64)\\"AAAA\\"").unwrap()[0].x, vec![0, 0, 0]);
}
''', 'a base64 text with a dangling last character', 'malformed base64 is accepted, the tail silently dropped')

S('c17-rc-consumes-all', 'C17', [('src/containers.rs', """        Rc::get_mut(self).expect("no Rc clone yet")
            .insert_child(node, ctx)
""", """        Rc::get_mut(self).expect("no Rc clone yet")
            .insert_child(node, ctx)
            .map(|_| true)
""")],
'''use knuffel::Decode;
use std::rc::Rc;
#[derive(Decode, Debug, Default)]
#[allow(dead_code)]
struct In { #[knuffel(child)] x: bool }
#[derive(Decode, Debug)]
#[allow(dead_code)]
struct A { #[knuffel(flatten(child))] i: Rc<In> }
fn main() {
    assert!(knuffel::parse::<A>("t", "x").unwrap().i.x);
    assert!(knuffel::parse::<A>("t", "x\\nunknown").is_err());
}
''', 'a flattened struct behind Rc and an unknown child', 'a flattened struct behind Rc claims to consume children it does not know')

S('c15-date-time', 'C15', [('src/ast.rs', '"u16" => Ok(U16)', '"u16" | "ushort" => Ok(U16)')],
'''use knuffel::ast::TypeName;
fn main() {
    let t = "ushort".parse::<TypeName>().unwrap();
    assert_eq!(t.as_str(), "ushort");
    assert!(t.as_builtin().is_none());
}
''', 'a custom type name that happens to be the new alias', 'a custom type name is not preserved verbatim')

S('c20-ord', 'C20', [('src/span.rs', "        self.value.partial_cmp(&other.value)", "        other.value.partial_cmp(&self.value)")],
'''use knuffel::{ast, span::Span};
fn main() {
    let d = knuffel::parse_ast::<Span>("t", "a 1\\nb 2").unwrap();
    let x: &ast::SpannedName<Span> = &d.nodes[0].node_name;
    let y: &ast::SpannedName<Span> = &d.nodes[1].node_name;
    assert!(x < y);
    assert_eq!(x.partial_cmp(y), Some(x.cmp(y)));
}
''', 'comparing spanned values by the operators', 'partial ordering disagrees with ordering of the value')

# ---- grammar ----
G = 'src/grammar.rs'
AST = '''#[allow(unused)]
use knuffel::{ast::*, span::*};
#[allow(unused)]
fn ast(t: &str) -> Option<Document<Span>> { knuffel::parse_ast::<Span>("t", t).ok() }
#[allow(unused)]
fn arg(t: &str) -> Literal { (*ast(t).unwrap().nodes[0].arguments[0].literal).clone() }
#[allow(unused)]
fn int(t: &str) -> i64 { use knuffel::Decode; #[derive(Decode)] struct A { #[knuffel(argument)] x: i64 } knuffel::parse::<Vec<A>>("t", &format!("a {}", t)).unwrap()[0].x }
'''

S('c02-ws-200a', 'C02', [(G, """        '\\u{2000}'..='\\u{200A}' |
        '\\u{202F}' | '\\u{205F}' | '\\u{3000}' |
        '\\u{FEFF}'
""", """        '\\u{2000}'..'\\u{200A}' |
        '\\u{202F}' | '\\u{205F}' | '\\u{3000}' |
        '\\u{FEFF}'
""")], AST + '''fn main() { assert_eq!(ast("a\\u{200A}1").unwrap().nodes[0].arguments.len(), 1); }
''', 'a hair space (U+200A) between a node and its argument', 'one of the whitespace characters of the format is no longer whitespace')

S('c02-ident-1680', 'C02', [(G, """fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
    filter(|c| !matches!(c,
        '\\u{0000}'..='\\u{0020}' |
        '\\\\'|'/'|'('|')'|'{'|'}'|'<'|'>'|';'|'['|']'|'='|','|'"' |
        // whitespace, excluding 0x20
        '\\u{00a0}' | '\\u{1680}' |
""", """fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
    filter(|c| !matches!(c,
        '\\u{0000}'..='\\u{0020}' |
        '\\\\'|'/'|'('|')'|'{'|'}'|'<'|'>'|';'|'['|']'|'='|','|'"' |
        // whitespace, excluding 0x20
        '\\u{00a0}' |
""")], AST + '''fn main() { assert_eq!(ast("a\\u{1680}1").unwrap().nodes[0].arguments.len(), 1); assert!(ast("a 1").is_some()); }
''', 'an ogham space mark after an identifier', 'a whitespace character continues an identifier')

S('c03-exact-node-space', 'C03', [(G, """            .then(node_space().repeated()
                  .ignore_then(begin_comment('-')
                               .then_ignore(node_space().repeated())
                               .or_not())
""", """            .then(node_space().repeated()
                  .ignore_then(begin_comment('-')
                               .then_ignore(ws().repeated())
                               .or_not())
""")], AST + '''fn main() { assert!(ast("a /- \\\\\\n {\\n b\\n }").is_some()); assert!(ast("a /- {\\n b\\n }").is_some()); }
''', 'an escaped line end between a slashdash and the children it removes', 'a document of the grammar is rejected')

S('c04-raw-hash-min', 'C04', [(G, """                .ignore_then(just('#').repeated().exactly(sharp_num)
                             .ignored()))""", """                .ignore_then(just('#').repeated().at_least(sharp_num).at_most(sharp_num + 1)
                             .ignored()))""")],
AST + '''fn main() { assert!(ast("a r#\\"x\\"##").is_none()); assert_eq!(arg("a r#\\"x\\"y\\"#"), Literal::String("x\\"y".into())); }
''', 'a raw string closed with one hash mark more than it was opened with', 'text that is not a string literal is taken for one')


S('c04-crlf', 'C04', [(G, "        .map(|val| val.into_iter().collect::<String>().into())\n        .map_err_with_span(|e: Error<S>, span| {", "        .map(|val| val.into_iter().collect::<String>().replace(\"\\r\\n\", \"\\n\").into())\n        .map_err_with_span(|e: Error<S>, span| {")],
AST + '''fn main() { assert_eq!(arg("a \\"x\\r\\ny\\""), Literal::String("x\\r\\ny".into())); }
''', 'a carriage return and line feed inside of a quoted string', 'characters of a string change')

S('c05-neg-oct', 'C05', [(G, """        let mut s = String::with_capacity(value.len() + sign.map_or(0, |_| 1));
        sign.map(|c| s.push(c));
""", """        let mut s = String::with_capacity(value.len() + sign.map_or(0, |_| 1));
        if radix != Radix::Oct || value.len() > 1 {
            sign.map(|c| s.push(c));
        }
""")], AST + '''fn main() { assert_eq!(int("-0o7"), -7); assert_eq!(int("-0o10"), -8); assert_eq!(int("-0x7"), -7); }
''', 'a negative octal number of one digit', 'the sign is lost')

S('c06-comment-cr', 'C06', [(G, "    .then(take_until(newline().or(end()))).ignored()\n", "    .then(take_until(just('\\n').ignored().or(end()))).ignored()\n")],
AST + '''fn main() { assert_eq!(ast("a // x\\rb").unwrap().nodes.len(), 2); assert_eq!(ast("a // x\\nb").unwrap().nodes.len(), 2); }
''', 'a line comment ended by a carriage return or another rare line end', 'a comment swallows the following node')

S('c06-slashdash-prop', 'C06', [(G, """                        Ignore => {}
""", """                        Ignore => node.arguments.dedup_by(|b, a| a.literal == b.literal),
""")],
AST + '''fn main() { assert_eq!(ast("a 1 1 /- 2").unwrap().nodes[0].arguments.len(), 2); }
''', 'a removed argument after two equal ones', 'removing an element affects others')

S('c07-prop-first', 'C07', [(G, """                            node.properties.insert(name, value);""", """                            node.properties.entry(name).or_insert(value);""")],
AST + '''fn main() { let d = ast("a x=1 x=2").unwrap(); assert_eq!(**d.nodes[0].properties.values().next().unwrap().literal, arg("b 2")); }
'''.replace('**d', '*d'), 'a repeated property', 'the first instead of the last value of a repeated property counts')

S('c07-empty-children', 'C07', [(G, """                        Some((None, children)) => Some(children),
""", """                        Some((None, children)) => {
                            if no_nodes(&children) && ignores(&line_items) {
                                None
                            } else {
                                Some(children)
                            }
                        }
"""), (G, "enum PropOrArg<S> {", "fn no_nodes<S>(c: &Spanned<Vec<SpannedNode<S>>, S>) -> bool {\n    c.is_empty()\n}\n\nfn ignores<S>(items: &[PropOrArg<S>]) -> bool {\n    items.iter().any(|x| matches!(x, PropOrArg::Ignore))\n}\n\nenum PropOrArg<S> {")],
AST + '''fn main() { assert!(ast("a /-1 {}").unwrap().nodes[0].children.is_some()); }
''', 'an empty children block after a removed argument', 'a children block is lost')

S('c07-args-order', 'C07', [(G, """                            node.arguments.push(value);
""", """                            if node.properties.is_empty() || node.arguments.is_empty() {
                                node.arguments.push(value);
                            } else {
                                let i = node.arguments.len() - 1;
                                node.arguments.insert(i, value);
                            }
""")],
AST + '''fn main() { let d = ast("a 1 x=0 2").unwrap(); assert_eq!(*d.nodes[0].arguments[1].literal, arg("b 2")); }
''', 'an argument after a property and another argument', 'arguments change places')

S('c09-prop-span', 'C09', [(G, """        spanned(bare_ident()).then(just('=').ignore_then(value()).or_not())
            .validate(|(name, value), span, emit| {""", """        spanned(bare_ident()).then(just('=').ignore_then(value()).or_not())
            .map_with_span(|(name, value), span| (Spanned { span, value: name.value }, value))
            .validate(|(name, value), span, emit| {""")],
AST + '''fn main() { let t = "a xy=1"; let d = ast(t).unwrap(); let s = d.nodes[0].properties.keys().next().unwrap().span(); assert_eq!(&t[s.0..s.1], "xy"); }
''', 'the position of a property name', 'the span of a property name also covers its value')

S('c09-null-span', 'C09', [(G, """    .map(|(type_name, literal)| Value { type_name: Some(type_name), literal })
}""", """    .map_with_span(|(type_name, literal), span| Value {
        literal: match *literal {
            Literal::Null => Spanned { span, value: Literal::Null },
            _ => literal,
        },
        type_name: Some(type_name),
    })
}""")],
AST + '''fn main() { let t = "a (u)null"; let d = ast(t).unwrap(); let s = d.nodes[0].arguments[0].literal.span(); assert_eq!(&t[s.0..s.1], "null"); }
''', 'the position of an annotated null', 'the span of a value covers its annotation too')

# ---- positions and errors ----
S('c05-exp-plus', 'C05', [(G, """        let s: String = v.into_iter().filter(|c| c != &'_').collect();
        if is_decimal {""", """        let mut s: String = v.into_iter().filter(|c| c != &'_').collect();
        if is_decimal {
            s = s.replace("E+", "E");""")],
AST + """fn main() { match arg("a 1.5E+3") { Literal::Decimal(d) => { let v = format!("{:?}", d); assert!(v.contains("1.5E+3"), "{}", v) } _ => panic!() } }
""", 'a number with a capital exponent and a plus sign', 'the text of a number is not kept in the tree')

# ---- panics ----
D='src/decode.rs'; C='src/convert.rs'; K='src/containers.rs'; E='src/errors.rs'; A='src/convert_ast.rs'; SP='src/span.rs'; T='src/ast.rs'; W='src/wrappers.rs'
DER = """#[allow(unused)]
use knuffel::{ast::*, span::*, Decode, DecodeScalar};
#[allow(unused)]
fn err<T>(r: Result<T, knuffel::Error>) -> String { let e = r.err().expect("accepted"); let mut s = String::new(); miette::JSONReportHandler::new().render_report(&mut s, &e).unwrap(); s }
"""
S('c01-empty-type', 'C01', [(T, """        match BuiltinType::from_str(&val[..]) {
""", """        let lower = val.chars().next().unwrap().is_ascii_lowercase();
        match BuiltinType::from_str(&val[..]) {
            Ok(_) if !lower => TypeName(TypeNameInner::Custom(val)),
""")], AST + """fn main() { assert!(ast("a (\\"\\")1").is_some()); }
""", 'an empty string as a type name', 'the parser panics')

S('c01-source-cut', 'C01', [(W, """            source_code: NamedSource::new(file_name, text.to_string()),
            errors: errors.into_iter().map(Into::into).collect(),
        }
    })""", """            source_code: NamedSource::new(file_name, text[..text.len().min(4096)].to_string()),
            errors: errors.into_iter().map(Into::into).collect(),
        }
    })""")], AST + """fn main() { let mut t = String::from("a \\""); while t.len() < 5000 { t.push('é'); } assert!(ast(&t).is_none()); assert!(ast(&format!("x{}", t)).is_none()); }
""", 'a syntax error in a text of more than 4096 bytes with a multi-byte character across that limit', 'the error report panics')

S('c01-base64-empty', 'C01', [(D, """                            match STANDARD.decode(s.as_bytes()) {""", """                            let b = s.as_bytes();
                            // a line end after the data
                            let b = if b[b.len() - 1] == b'\\n' { &b[..b.len() - 1] } else { b };
                            match STANDARD.decode(b) {""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(argument, bytes)] b: Vec<u8> }
fn main() { assert!(knuffel::parse::<Vec<P>>("t", "p (base64)\\"\\"").unwrap()[0].b.is_empty()); }
""", 'an empty base64 text', 'decoding panics', feat=', features = ["base64"]')

S('c01-raw-hashes', 'C01', [(E, """                f.write_str("`r")?;
                for _ in 0..*n {
                    f.write_char('#')?;
                }""", """                f.write_str("`r")?;
                f.write_str(&"################"[..*n])?;""")],
AST + """fn main() { let e = knuffel::parse_ast::<Span>("t", &format!("a b=r{}\\"x", "#".repeat(20))).unwrap_err(); let mut s = String::new(); miette::JSONReportHandler::new().render_report(&mut s, &e).unwrap(); assert!(!s.is_empty());
 let e = knuffel::parse_ast::<Span>("t", &format!("r{}\\"x", "#".repeat(20))).unwrap_err(); let mut s = String::new(); miette::JSONReportHandler::new().render_report(&mut s, &e).unwrap(); }
""", 'an unclosed raw string with more than 16 hash marks', 'rendering the error report panics')

# ---- library ----
S('c10-next-line', 'C10', [(SP, """            '\\r'|'\\n'|'\\x0C'|'\\u{0085}'|'\\u{2028}'|'\\u{2029}' => {
                self.line += 1;
                self.column = 0;
            }""", """            '\\u{0085}' if self.caret_return => {}
            '\\r'|'\\n'|'\\x0C'|'\\u{0085}'|'\\u{2028}'|'\\u{2029}' => {
                self.line += 1;
                self.column = 0;
            }""")],
AST + """fn main() { let d = knuffel::parse_ast::<LineSpan>("t", "a\\r\\u{85}b").unwrap(); assert_eq!(d.nodes[1].span().0.line, 2); }
""", 'a carriage return followed by a next-line character', 'the two line ends count as one')

S('c12-bool-number', 'C12', [(C, """            Literal::Bool(value) => Ok(*value),
""", """            Literal::Bool(value) => Ok(*value),
            Literal::Int(ref v) if u8::try_from(v).map_or(false, |x| x < 2) => {
                Ok(u8::try_from(v) == Ok(1))
            }
""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(argument)] b: bool }
fn main() { assert!(knuffel::parse::<Vec<P>>("t", "p true").unwrap()[0].b); err(knuffel::parse::<Vec<P>>("t", "p 0b1")); }
""", 'an integer 0 or 1 where a boolean is expected', 'a boolean is decoded from a literal of another kind')

S('c13-saturate', 'C13', [(C, """                    Radix::Dec => <$typ>::from_str(&val.1),
                    Radix::Hex => <$typ>::from_str_radix(&val.1, 16),
                }
            }
        }

        impl<S: ErrorSpan> DecodeScalar<S> for $typ {
            fn raw_decode(val: &Spanned<Literal, S>, ctx: &mut Context<S>)
                -> Result<$typ, DecodeError<S>>
            {
                match &**val {
                    Literal::Int(ref value) => {
                        match value.try_into() {
                            Ok(val) => Ok(val),
""", """                    Radix::Dec => <$typ>::from_str(&val.1),
                    Radix::Hex => <$typ>::from_str_radix(&val.1, 16),
                }
            }
        }

        impl<S: ErrorSpan> DecodeScalar<S> for $typ {
            fn raw_decode(val: &Spanned<Literal, S>, ctx: &mut Context<S>)
                -> Result<$typ, DecodeError<S>>
            {
                match &**val {
                    Literal::Int(ref value) => {
                        let res: Result<$typ, <$typ as FromStr>::Err> = value.try_into();
                        match res {
                            Ok(val) => Ok(val),
                            Err(e) if *e.kind() == std::num::IntErrorKind::NegOverflow && value.0 == Radix::Hex => {
                                Ok(<$typ>::MIN)
                            }
""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(argument)] b: i8 }
fn main() { assert_eq!(knuffel::parse::<Vec<P>>("t", "p -0x80").unwrap()[0].b, -128); err(knuffel::parse::<Vec<P>>("t", "p -0x81")); }
""", 'a hexadecimal number below the range of its type', 'the number is silently changed to the smallest one')

S('c14-float-type', 'C14', [(C, """                if let Some(typ) = type_name {
                    if typ.as_builtin() != Some(&BuiltinType::$marker) {
                        ctx.emit_error(DecodeError::TypeName {
                            span: typ.span().clone(),
                            found: Some(typ.value.clone()),
                            expected: ExpectedType::optional(
                                BuiltinType::$marker),
                            rust_type: stringify!($typ),
                        });
                    }
                }
            }
        }
    }
}

impl_float!""", """                if let Some(typ) = type_name {
                    let wide = typ.as_builtin() == Some(&BuiltinType::F32);
                    if typ.as_builtin() != Some(&BuiltinType::$marker) && !wide {
                        ctx.emit_error(DecodeError::TypeName {
                            span: typ.span().clone(),
                            found: Some(typ.value.clone()),
                            expected: ExpectedType::optional(
                                BuiltinType::$marker),
                            rust_type: stringify!($typ),
                        });
                    }
                }
            }
        }
    }
}

impl_float!""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(argument)] b: f64 }
fn main() { assert_eq!(knuffel::parse::<Vec<P>>("t", "p (f64)1.5").unwrap()[0].b, 1.5); err(knuffel::parse::<Vec<P>>("t", "p (f32)1.5")); }
""", 'a 64-bit field with a value annotated as 32-bit float', 'a contradicting type annotation is accepted')

S('c16-base64-pad', 'C16', [(D, """                            match STANDARD.decode(s.as_bytes()) {""", """                            match STANDARD.decode(s.trim_end_matches('\\n').as_bytes()) {""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(argument, bytes)] b: Vec<u8> }
fn main() { assert_eq!(knuffel::parse::<Vec<P>>("t", "p (base64)\\"AA==\\"").unwrap()[0].b, [0]); err(knuffel::parse::<Vec<P>>("t", "p (base64)\\"AA==\\\\n\\"")); }
""", 'a base64 text followed by a newline', 'text that is not base64 is accepted', feat=', features = ["base64"]')

S('c17-option-type', 'C17', [(K, """                T::type_check(&value.type_name, ctx);
                Ok(None)""", """                if value.type_name.as_ref().map_or(false, |t| t.as_builtin().is_some()) {
                    T::type_check(&value.type_name, ctx);
                }
                Ok(None)""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(argument)] b: Option<i32> }
fn main() { assert!(knuffel::parse::<Vec<P>>("t", "p (i32)null").unwrap()[0].b.is_none()); err(knuffel::parse::<Vec<P>>("t", "p (other)null")); }
""", 'null with a type annotation that is not built in', 'the type annotation of null is not checked')

S('c18-empty-kids', 'C18', [(A, """            children: node.children.as_ref().map(|sc| {""", """            children: node.children.as_ref().filter(|sc| {
                !sc.is_empty() || node.arguments.is_empty()
            }).map(|sc| {""")],
AST + """fn main() { let v: Vec<Node<Span>> = knuffel::parse("t", "a {}\\nb 1 {}").unwrap(); assert!(v[0].children.is_some()); assert!(v[1].children.is_some()); }
""", 'a node with an argument and an empty children block', 'decoding to the tree loses the empty block')

S('c19-set-keeps', 'C19', [(D, """        self.extensions.insert(TypeId::of::<T>(), Box::new(value));""", """        self.extensions.entry(TypeId::of::<T>())
            .or_insert_with(|| Box::new(value));""")],
DER + """use knuffel::traits::ErrorSpan; use knuffel::decode::Context; use knuffel::errors::DecodeError;
struct V(u32); struct Name(u32);
impl<S: ErrorSpan> knuffel::traits::DecodeScalar<S> for V {
  fn type_check(_: &Option<Spanned<TypeName, S>>, _: &mut Context<S>) {}
  fn raw_decode(_: &Spanned<Literal, S>, ctx: &mut Context<S>) -> Result<Self, DecodeError<S>> { Ok(V(ctx.get::<Name>().unwrap().0)) } }
#[derive(Decode)] struct P { #[knuffel(argument)] v: V }
fn main() { let p = knuffel::parse_with_context::<Vec<P>, Span, _>("t", "p 1", |ctx| { ctx.set(Name(1)); ctx.set(Name(2)); }).unwrap(); assert_eq!(p[0].v.0, 2); }
""", 'a context value that is set twice', 'get returns the first instead of the last value')

S('c11-typename-swap', 'C11', [(E, """        if self.no_type {
                None
            } else {""", """        if self.no_type && self.types.len() < 2 {
                None
            } else {""")] if 0 else [(D, """                ctx.emit_error(DecodeError::TypeName {
                    span: typ.span().clone(),""", """                ctx.emit_error(DecodeError::TypeName {
                    span: value.literal.span().clone(),""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(argument, bytes)] b: Vec<u8> }
fn main() { let s = err(knuffel::parse::<Vec<P>>("t", "p (abc)\\"xx\\"")); assert!(s.contains("\\"offset\\": 2,"), "{}", s); }
""", 'bytes with a type name that is not base64', 'the report points at the value instead of the type name', feat=', features = ["base64"]')

# ---- derive ----
N='derive/src/node.rs'; DF='derive/src/definition.rs'; VA='derive/src/variants.rs'; DS='derive/src/scalar.rs'
S('c21-extra-typed', 'C21', [(N, """            if let Some(val) = #iter_args.next() {
                return""", """            if let Some(val) = #iter_args.next().filter(|v| v.type_name.is_none()) {
                return""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(argument)] b: i32 }
fn main() { assert!(knuffel::parse::<Vec<P>>("t", "p 1").is_ok()); err(knuffel::parse::<Vec<P>>("t", "p 1 (x)2")); }
""", 'an extra argument that has a type name', 'an unexpected argument is accepted')

S('c23-dup-first', 'C23', [(N, """quote!(#dest = Some(#value))""", """quote!(#dest = #dest.take().or(Some(#value)))""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct C { #[knuffel(argument)] x: i32 }
#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(property)] b: i32, #[knuffel(child)] c: C }
fn main() { let p = knuffel::parse::<Vec<P>>("t", "p b=1 b=2 { c 3; }").unwrap(); assert_eq!((p[0].b, p[0].c.x), (2, 3)); }
""" if 0 else DER + """#[derive(Decode)] #[allow(dead_code)] struct C { #[knuffel(argument)] x: i32 }
#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(child)] c: Option<C> }
fn main() { err(knuffel::parse::<Vec<P>>("t", "p { c 3; c 4; }")); }
""", 'x', 'x') if 0 else None

S('c24-typed-dup', 'C24', [(N, """                    if #dest.is_some() {
                        #ctx.emit_error(""", """                    if #dest.is_some() && #node.type_name.is_none() {
                        #ctx.emit_error(""")],
DER + """#[derive(Decode, Default)] #[allow(dead_code)] struct C { #[knuffel(child)] x: Option<X> }
#[derive(Decode)] #[allow(dead_code)] struct X { #[knuffel(type_name)] t: Option<String>, #[knuffel(argument)] v: i32 }
#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(flatten(child))] c: C }
fn main() { assert!(knuffel::parse::<Vec<P>>("t", "p { (t)x 1; }").is_ok()); err(knuffel::parse::<Vec<P>>("t", "p { (t)x 1; (t)x 2; }")); }
""", 'a repeated child of a flattened struct that has a type name', 'the duplicate is accepted')

S('c26-opt-prop', 'C26', [(VA, """                            #node.properties.len() > 0 ||""", """                            #node.properties.len() > 1 ||""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct X { #[knuffel(property)] v: i32 }
#[derive(Decode)] enum P { Some1(Option<X>) }
fn main() { let P::Some1(x) = &knuffel::parse::<Vec<P>>("t", "some1 v=7").unwrap()[0]; assert_eq!(x.as_ref().unwrap().v, 7); }
""", 'a variant with an optional node and exactly one property', 'the property of the variant is ignored')

S('c28-typed-null', 'C28', [(N, 'if matches!(&*#val.literal, ::knuffel::ast::Literal::Null) {\n                    Ok(None)', 'if matches!(&*#val.literal, ::knuffel::ast::Literal::Null) && #val.type_name.is_none() {\n                    Ok(None)')],
DER + """#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(argument, bytes)] b: Option<Vec<u8>> }
fn main() { assert!(knuffel::parse::<Vec<P>>("t", "p (base64)null").unwrap()[0].b.is_none()); }
""", 'a null with a type name for optional bytes', 'null is not decoded to None', feat=', features = ["base64"]')

S('c30-trim', 'C30', [(DS, 'match &s[..] {', 'match s.trim_end() {')],
DER + """#[derive(DecodeScalar, Debug)] enum V { One, TwoThree }
#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(argument)] v: V }
fn main() { assert!(knuffel::parse::<Vec<P>>("t", "p \\"two-three\\"").is_ok()); err(knuffel::parse::<Vec<P>>("t", "p \\"one \\"")); }
""", 'a string that ends with a space', 'a string that is no name of a variant is accepted')

S('c32-type-trim', 'C32', [(T, "d.str().and_then(|s| s.parse()", "d.str().and_then(|s| s.trim().parse()")],
AST + """fn main() { let d = ast("a (\\" x\\")1").unwrap(); let v = minicbor::to_vec(&d).unwrap(); let e: Document<Span> = minicbor::decode(&v).unwrap(); assert_eq!(format!("{:?}", d), format!("{:?}", e)); }
""", 'a type name with spaces around it', 'decoding the encoded tree yields another tree', feat=', features = ["minicbor"] }\nminicbor = { version = "0.19", features = ["std"]')

# ---- third batch ----
W='src/wrappers.rs'
S('c08-node-last-error', 'C08', [(D, """        Err(e) => {
            ctx.emit_error(e);
            Err(ctx.into_errors())
        }""", """        Err(e) => {
            if !ctx.has_errors() {
                ctx.emit_error(e);
            }
            Err(ctx.into_errors())
        }""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct A { #[knuffel(child)] f: bool, #[knuffel(child)] a: B }
#[derive(Decode)] #[allow(dead_code)] struct B { #[knuffel(argument)] x: i32 }
fn main() {
    let a = knuffel::parse_ast::<Span>("t", "x { f 1; }").unwrap();
    assert_eq!(knuffel::decode::node::<A, Span>(&a.nodes[0]).map(|_| ()).unwrap_err().len(), 2);
}
""", 'decoding a single node with an error reported to the context followed by one that is returned', 'the returned error is lost')

S('c22-empty-name', 'C22', [(N, """                return Err(::knuffel::errors::DecodeError::unexpected(
                    #name, "property",
                    format!("unexpected property `{}`",
                            #name_str.escape_default())));""", """                if !#name_str.is_empty() {
                    return Err(::knuffel::errors::DecodeError::unexpected(
                        #name, "property",
                        format!("unexpected property `{}`",
                                #name_str.escape_default())));
                }""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(property)] b: i32 }
fn main() { assert!(knuffel::parse::<Vec<P>>("t", "p b=1").is_ok()); err(knuffel::parse::<Vec<P>>("t", "p b=1 \\"\\"=2")); }
""", 'a property whose name is empty', 'an unknown property is accepted')

S('c22-props-rev', 'C22', [(N, """        postprocess.push(quote! {
            let #fld = #fld.into_iter().collect();
        });
    } else {
        match_branches.push(quote! {
            #name_str => {
                return""", """        postprocess.push(quote! {
            let #fld = #fld.into_iter().rev().collect();
        });
    } else {
        match_branches.push(quote! {
            #name_str => {
                return""")],
DER + """use std::collections::HashMap;
#[derive(Decode)] struct P { #[knuffel(properties)] b: HashMap<String, i32> }
fn main() { let p = knuffel::parse::<Vec<P>>("t", "p a=1 c=3 a=2").unwrap(); assert_eq!(p[0].b["c"], 3);
#[derive(Decode)] struct Q { #[knuffel(properties)] b: K }
let q = knuffel::parse::<Vec<Q>>("t", "p a=1 c=3").unwrap(); assert_eq!(q[0].b.0, vec![("a".to_string(), 1), ("c".to_string(), 3)]); }
struct K(Vec<(String, i32)>);
impl std::iter::FromIterator<(String, i32)> for K { fn from_iter<I: IntoIterator<Item=(String, i32)>>(i: I) -> K { K(i.into_iter().collect()) } }
""", 'a catch-all of properties in a collection that keeps the order', 'properties are collected in reverse order')

S('c28-arg-null', 'C28', [(N, """                    }).transpose()?.unwrap_or_else(|| {
                        #default
                    });""", """                    }).transpose()?.filter(|_| {
                        #node.arguments.iter().any(|a| !matches!(&*a.literal, ::knuffel::ast::Literal::Null))
                    }).unwrap_or_else(|| {
                        #default
                    });""")],
DER + """#[derive(Decode)] struct P { #[knuffel(argument, default=Some(3))] b: Option<i32> }
fn main() { let p = knuffel::parse::<Vec<P>>("t", "p\np null\np 4").unwrap(); assert_eq!(p.iter().map(|x| x.b).collect::<Vec<_>>(), vec![Some(3), None, Some(4)]); }
""", 'an explicit null for an optional argument with a default', 'null is replaced by the default')

S('c23-dup-childless', 'C23', [(N, """                        if #fld.is_some() {
                            Some(Err(""", """                        if #fld.is_some() && #child.children.is_none() {
                            Some(Err(""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct C { #[knuffel(argument)] x: i32, #[knuffel(children)] y: Vec<C> }
#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(child)] c: C }
fn main() { err(knuffel::parse::<Vec<P>>("t", "p { c 3; c 4; }")); err(knuffel::parse::<Vec<P>>("t", "p { c 3; c 4 { x 1; }; }")); }
""", 'a second single child that has a children block', 'the second child replaces the first instead of being an error')

S('c23-flag-children', 'C23', [(D, """    if let Some(children) = &node.children {
        for child in children.iter() {""", """    if let Some(children) = &node.children {
        for child in children.iter().filter(|c| c.children.is_none()) {""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(child)] c: bool }
fn main() { err(knuffel::parse::<Vec<P>>("t", "p { c { x; }; }")); err(knuffel::parse::<Vec<P>>("t", "p { c { x { y; }; }; }")); }
""", 'a presence flag with a child that has children', 'the children of the flag node are ignored')

S('c25-unwrap-block', 'C25', [(N, """            let #children = #node.children.as_ref()
                .map(|lst| &lst[..]).unwrap_or(&[]);
            #decode_children

            Ok(#name)""", """            let #children = #node.children.as_ref()
                .filter(|_| #node.arguments.is_empty())
                .map(|lst| &lst[..]).unwrap_or(&[]);
            #decode_children

            Ok(#name)""")],
DER + """#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(child, unwrap(argument))] c: i32 }
fn main() { assert!(knuffel::parse::<Vec<P>>("t", "p { c 1; }").is_ok()); err(knuffel::parse::<Vec<P>>("t", "p { c 1 { y; }; }")); }
""", 'an unwrapped argument node that also has children', 'the children are ignored')

S('c27-type-lenient', 'C27', [(N, """                let #fld = #node.type_name.as_ref().map(|tn| {
                    tn.as_str()
                        .parse()
                        .map_err(|e| {
                            ::knuffel::errors::DecodeError::conversion(tn, e)
                        })
                }).transpose()?;""", """                let #fld = #node.type_name.as_ref()
                    .filter(|tn| !tn.as_str().is_empty())
                    .map(|tn| {
                    tn.as_str()
                        .parse()
                        .map_err(|e| {
                            ::knuffel::errors::DecodeError::conversion(tn, e)
                        })
                }).transpose()?;""")],
DER + """#[derive(Decode)] struct P { #[knuffel(type_name)] t: Option<String> }
fn main() { let p = knuffel::parse::<Vec<P>>("t", "p\\n(a)p\\n(\\"\\")p").unwrap(); assert_eq!(p.iter().map(|x| x.t.as_deref()).collect::<Vec<_>>(), vec![None, Some("a"), Some("")]); }
""", 'an empty type name', 'an empty type name is treated as absent')

S('c29-nested-flatten', 'C29', [(N, """s.properties.iter().all(|x| x.option || x.flatten) &&""", """s.properties.iter().all(|x| x.option) &&""")],
DER + """#[derive(Decode, Default)] #[allow(dead_code)] struct A { #[knuffel(property)] x: Option<i32> }
#[derive(Decode, Default)] #[allow(dead_code)] struct B { #[knuffel(flatten(property))] a: A }
#[derive(Decode)] #[allow(dead_code)] struct P { #[knuffel(flatten(property))] b: B }
fn main() { assert_eq!(knuffel::parse::<Vec<P>>("t", "p x=1").unwrap()[0].b.a.x, Some(1)); }
""", 'a flattened struct that itself flattens properties', 'the struct can not be used as a flatten target', cf=True)

S('c31-derive-bom', 'C31', [(G, "        '\\t' | ' ' |", "        '\\u{200b}' if cfg!(not(feature=\"derive\")) => true,\n        '\\t' | ' ' |")] if 0 else [('src/span.rs', """#[cfg(feature="line-numbers")]
impl traits::DecodeSpan<LineSpan> for Span {""", """#[cfg(all(feature="line-numbers", feature="derive"))]
impl traits::DecodeSpan<LineSpan> for Span {""")],
"""use knuffel::span::{Span, LineSpan};
fn need<T: knuffel::traits::DecodeSpan<LineSpan>>() {}
fn main() { need::<Span>(); let _ = knuffel::parse_ast::<Span>("t", "a"); }
""", 'a crate that uses line spans without the derive feature', 'a line span can not be converted to a span', feat=', default-features = false, features = ["line-numbers"]', cf=True)

S('c33-span-clone', 'C33', [('src/traits.rs', "pub trait DecodeSpan<S: ErrorSpan>: Sized {", "pub trait DecodeSpan<S: ErrorSpan>: Sized + Clone {")],
"""use knuffel::{traits::DecodeSpan, span::Span, decode::Context};
struct Id(usize);
impl DecodeSpan<Span> for Id { fn decode_span(s: &Span, _: &mut Context<Span>) -> Self { Id(s.0) } }
#[derive(knuffel::Decode)] #[knuffel(span_type=Span)] struct P { #[knuffel(span)] s: Id }
fn main() { assert_eq!(knuffel::parse::<Vec<P>>("t", "p").unwrap()[0].s.0, 0); }
""", 'a user-defined span type that can not be cloned', 'such a span type can not be used', cf=True)


S('c34-type-once', 'C34', [('src/convert.rs', """                    if typ.as_builtin() != Some(&BuiltinType::$marker) {
                        ctx.emit_error(DecodeError::TypeName {
                            span: typ.span().clone(),
                            found: Some(typ.value.clone()),
                            expected: ExpectedType::optional(
                                BuiltinType::$marker),
                            rust_type: stringify!($typ),
                        });
                    }
                }
            }
        }
    }
}

impl_integer!(i8, I8);""", """                    // every wrong type is worth one report
                    thread_local! {
                        static SEEN: std::cell::RefCell<
                            std::collections::BTreeSet<String>>
                            = Default::default();
                    }
                    if typ.as_builtin() != Some(&BuiltinType::$marker) &&
                        SEEN.with(|s| s.borrow_mut()
                                  .insert(typ.as_str().to_string()))
                    {
                        ctx.emit_error(DecodeError::TypeName {
                            span: typ.span().clone(),
                            found: Some(typ.value.clone()),
                            expected: ExpectedType::optional(
                                BuiltinType::$marker),
                            rust_type: stringify!($typ),
                        });
                    }
                }
            }
        }
    }
}

impl_integer!(i8, I8);""")],
'''use knuffel::Decode;
#[derive(Decode, Debug)]
#[allow(dead_code)]
struct A { #[knuffel(argument)] x: i32 }
fn main() {
    for _ in 0..3 {
        assert!(knuffel::parse::<Vec<A>>("t", "a (u8)1").is_err());
    }
}
''', 'the same wrong type name twice in one thread', 'later calls accept a value with a wrong type name')

S('c34-hash-errors', 'C34', [('src/decode.rs', """    pub(crate) fn into_errors(self) -> Vec<DecodeError<S>> {
        self.errors""", """    pub(crate) fn into_errors(self) -> Vec<DecodeError<S>> {
        if self.errors.len() > 4 {
            // many errors: report equal ones once
            let mut by_text = HashMap::with_capacity(self.errors.len());
            for (n, e) in self.errors.into_iter().enumerate() {
                by_text.entry((n, e.to_string())).or_insert(e);
            }
            return by_text.into_values().collect();
        }
        self.errors""")],
'''use knuffel::Decode;
#[derive(Decode, Debug)]
#[allow(dead_code)]
struct A { #[knuffel(argument)] x: i32 }
fn main() {
    use miette::Diagnostic;
    let t: String = (0..16).map(|i| format!("a {{ c{}; }}\\n", i)).map(|s| s.replace("a {", "a \\"s\\" {")).collect();
    let report = || {
        let e = knuffel::parse::<Vec<A>>("t", &t).unwrap_err();
        let v: Vec<String> = e.related().unwrap().map(|e| e.labels().unwrap().map(|l| format!("{}", l.offset())).collect::<String>()).collect();
        v
    };
    let a = report();
    for _ in 0..8 { assert_eq!(a, report()); }
}
''', 'five or more errors in one document', 'errors are reported in a random order')
