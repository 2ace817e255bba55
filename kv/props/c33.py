import os

import build
import lib
import witness

FLOOR = 70
PRE = '''#![allow(dead_code, unused)]
use knuffel::ast::*; use knuffel::span::{Span, LineSpan, LinePos, Spanned};
use knuffel::errors::{DecodeError, Error, ExpectedType, ExpectedKind}; use knuffel::decode::{Context, Kind};
use knuffel::traits::{Decode, DecodeChildren, DecodePartial, DecodeScalar, DecodeSpan, ErrorSpan};
fn send<T: Send>() {} fn sync<T: Sync>() {} fn stat<T: 'static>() {} fn clone<T: Clone>() {} fn debug<T: std::fmt::Debug>() {}
fn eq<T: Eq + PartialEq>() {} fn ord<T: Ord>() {} fn hash<T: std::hash::Hash>() {} fn copy<T: Copy>() {} fn display<T: std::fmt::Display>() {}
fn err<T: std::error::Error + Send + Sync + 'static>() {} fn diag<T: miette::Diagnostic + Send + Sync + 'static>() {}
fn unpin<T: Unpin>() {} fn unwind<T: std::panic::UnwindSafe>() {}
'''
# a user's span with everything a parsing span could ask for in public traits
MINE = '''#[derive(Clone, Debug, PartialEq, Eq)] struct My(usize, usize);
impl Into<miette::SourceSpan> for My { fn into(self) -> miette::SourceSpan { (self.0, self.1).into() } }
'''
CH = '''impl chumsky::Span for My { type Context = (); type Offset = usize;
 fn new(_: (), r: std::ops::Range<usize>) -> My { My(r.start, r.end) } fn context(&self) {} fn start(&self) -> usize { self.0 } fn end(&self) -> usize { self.1 } }
'''


def fn(body, gen=''):
    return 'fn go%s() { %s }\n' % (gen, body)


def groups():
    g = []
    one = lambda name, src: g.append((name, src, None))
    no = lambda name, good, bad: g.append((name, good, bad))
    G = '<S: ErrorSpan>'
    # errors
    one('Error is a standard and diagnostic error, sendable and shareable', fn('err::<Error>(); diag::<Error>(); display::<Error>(); debug::<Error>();'))
    one('DecodeError is a standard and diagnostic error for every span', fn('err::<DecodeError<S>>(); diag::<DecodeError<S>>(); debug::<DecodeError<S>>();', G))
    one('parse results work with ? in diagnostic functions', 'fn go() -> miette::Result<()> { knuffel::parse::<Vec<X>>("a", "b")?; Ok(()) }\n' + X)
    one('parse results work with ? in standard functions', 'fn go() -> Result<(), Box<dyn std::error::Error + Send + Sync>> { knuffel::parse_ast::<Span>("a", "b")?; Ok(()) }')
    one('decode errors can be made by hand-written decoders', fn(
        'fn f<S: ErrorSpan>(n: &SpannedNode<S>, v: &Value<S>) { let _: Vec<DecodeError<S>> = vec![DecodeError::missing(n, "x"), DecodeError::unexpected(&n.node_name, "node", "x"), '
        'DecodeError::conversion(&v.literal, "x"), DecodeError::scalar_kind(Kind::Int, &v.literal), DecodeError::unsupported(&v.literal, "x"), '
        'DecodeError::TypeName { span: n.span().clone(), found: None, expected: ExpectedType::no_type(), rust_type: "x" }, DecodeError::MissingNode { message: "x".into() }]; }'))
    # tree and spans
    for t in ('Node<S>', 'Document<S>', 'Value<S>', 'SpannedNode<S>', 'SpannedName<S>', 'Spanned<Literal, S>'):
        one('%s can be sent, shared and cloned' % t, fn('send::<{0}>(); sync::<{0}>(); clone::<{0}>(); debug::<{0}>(); stat::<{0}>();'.format(t), G))
    for t in ('Literal', 'Integer', 'Decimal', 'TypeName', 'BuiltinType', 'Span', 'LineSpan'):
        one('%s can be sent, shared, cloned and compared' % t, fn('send::<{0}>(); sync::<{0}>(); clone::<{0}>(); debug::<{0}>(); stat::<{0}>(); eq::<{0}>(); unpin::<{0}>(); unwind::<{0}>();'.format(t)))
    one('line positions are plain values', fn('copy::<LinePos>(); eq::<LinePos>(); send::<LinePos>(); sync::<LinePos>();'))
    one('spanned values compare like what they hold', fn('eq::<Spanned<Box<str>, S>>(); ord::<Spanned<Box<str>, S>>(); hash::<Spanned<Box<str>, S>>();', G))
    one('spanned values give access to what they hold', 'fn go<S: ErrorSpan>(mut a: Spanned<String, S>) { let _: &str = &a; let _: &S = a.span(); a.push(\'x\'); let _: &str = AsRef::<str>::as_ref(&a); let b: Spanned<usize, S> = a.map(|s| s.len()); let _: Spanned<usize, u8> = b.map_span(|_| 1u8); }')
    one('the tree can be read', 'fn go<S: ErrorSpan>(d: &Document<S>) { for n in &d.nodes { let _: &str = &n.node_name; let _: Option<&str> = n.type_name.as_ref().map(|t| t.as_str()); '
        'for v in &n.arguments { match &*v.literal { Literal::Null | Literal::Bool(_) | Literal::Int(_) | Literal::Decimal(_) | Literal::String(_) => {} } } '
        'for (k, v) in &n.properties { let _: &str = k; let _: &Value<S> = v; } for c in n.children() { let _: &SpannedNode<S> = c; } } }')
    for t in ('Span', 'LineSpan'):
        one('%s is a parsing span, an error span and convertible' % t, fn(
            'fn p<S: knuffel::traits::Span>() {{}} fn e<S: ErrorSpan>() {{}} fn d<S: DecodeSpan<{0}>>() {{}} fn i<S: Into<miette::SourceSpan>>() {{}} p::<{0}>(); e::<{0}>(); d::<{0}>(); i::<{0}>();'.format(t)))
    one('a byte span can be taken from a line span', fn('fn d<S: DecodeSpan<LineSpan>>() {} d::<Span>();'))
    no('a line span from a byte span', fn('fn d<S: DecodeSpan<Span>>() {} d::<Span>();'), fn('fn d<S: DecodeSpan<Span>>() {} d::<LineSpan>();'))
    # parsing
    one('the parsing functions have their documented types', 'fn go() { let a: Result<Document<Span>, Error> = knuffel::parse_ast("f", "t"); let b: Result<Document<LineSpan>, Error> = knuffel::parse_ast::<LineSpan>("f", "t"); '
        'let c: Result<Vec<X>, Error> = knuffel::parse("f", "t"); let d: Result<Vec<X>, Error> = knuffel::parse_with_context("f", "t", |c: &mut Context<LineSpan>| { c.set(String::new()); }); }\n' + X)
    no('a parse with a foreign span', fn('let _ = knuffel::parse_ast::<Span>("f", "t");'), MINE + fn('let _ = knuffel::parse_ast::<My>("f", "t");'))
    no('a parse with a foreign span that has all public traits', 'extern crate chumsky;\n' + MINE + CH + fn('fn e<S: ErrorSpan + chumsky::Span>() {} e::<My>();'),
       'extern crate chumsky;\n' + MINE + CH + fn('let _ = knuffel::parse_ast::<My>("f", "t");'))
    no('an own parsing span', 'extern crate chumsky;\n' + MINE + CH, 'extern crate chumsky;\n' + MINE + CH + 'impl knuffel::traits::Span for My {}')
    no('naming the private half of a parsing span', MINE, MINE + 'impl knuffel::traits::sealed::Sealed for My { }')
    no('parsing into something that is not a document', fn('let _ = knuffel::parse::<Vec<X>>("f", "t");') + X, fn('let _ = knuffel::parse::<u32>("f", "t");'))
    no('parsing into a single node', fn('let _ = knuffel::parse::<Vec<X>>("f", "t");') + X, fn('let _ = knuffel::parse::<X>("f", "t");') + X)
    # user extensions
    one('own span types can be used in errors', MINE + fn('fn e<S: ErrorSpan>() {} e::<My>(); err::<DecodeError<My>>();'))
    one('own span conversions', MINE + 'impl DecodeSpan<Span> for My { fn decode_span(s: &Span, _: &mut Context<Span>) -> My { My(s.0, s.1) } }\nimpl DecodeSpan<LineSpan> for My { fn decode_span(s: &LineSpan, c: &mut Context<LineSpan>) -> My { let _: Option<&String> = c.get(); My(s.0.offset, s.1.offset) } }')
    one('own node decoders', X)
    one('own document decoders', 'struct Y; impl<S: ErrorSpan> DecodeChildren<S> for Y { fn decode_children(n: &[SpannedNode<S>], c: &mut Context<S>) -> Result<Y, DecodeError<S>> { for x in n { let _ = X::decode_node(x, c)?; } Ok(Y) } }\n' + X)
    one('own partial decoders', 'struct Y; impl<S: ErrorSpan> DecodePartial<S> for Y { fn insert_child(&mut self, n: &SpannedNode<S>, c: &mut Context<S>) -> Result<bool, DecodeError<S>> { Ok(false) } '
        'fn insert_property(&mut self, n: &Spanned<Box<str>, S>, v: &Value<S>, c: &mut Context<S>) -> Result<bool, DecodeError<S>> { Ok(true) } }')
    one('own scalar decoders', 'struct Y; impl<S: ErrorSpan> DecodeScalar<S> for Y { fn type_check(t: &Option<Spanned<TypeName, S>>, c: &mut Context<S>) {} '
        'fn raw_decode(v: &Spanned<Literal, S>, c: &mut Context<S>) -> Result<Y, DecodeError<S>> { c.emit_error(DecodeError::scalar_kind(Kind::Int, v)); Ok(Y) } }')
    # nothing more is asked of a user's type than what the trait itself says
    one('own decoders for types without any other capability', BARE + fn('bare::<S>();', G) +
        'fn bare<S: ErrorSpan>() { n::<S, Y>(); n::<S, Box<Y>>(); n::<S, std::rc::Rc<Y>>(); n::<S, std::sync::Arc<Y>>(); c::<S, Y>(); c::<S, Vec<Y>>(); c::<S, Box<Vec<Y>>>(); '
        'c::<S, std::rc::Rc<Y>>(); c::<S, std::sync::Arc<Y>>(); p::<S, Y>(); p::<S, Box<Y>>(); p::<S, std::rc::Rc<Y>>(); p::<S, std::sync::Arc<Y>>(); s::<S, Y>(); s::<S, Option<Y>>(); '
        's::<S, Box<Y>>(); s::<S, std::rc::Rc<Y>>(); s::<S, std::sync::Arc<Y>>(); }\n'
        'fn spanned<S: knuffel::traits::Span>() { s::<S, Spanned<Y, S>>(); s::<S, Spanned<Y, Z>>(); sp::<S, Z>(); }')
    one('documents of types without any other capability can be parsed', BARE + 'fn go() { let _: Result<Y, Error> = knuffel::parse("f", "t"); let _: Result<Vec<Y>, Error> = knuffel::parse("f", "t"); '
        'let k = Z::default(); let _: Result<Vec<Y>, Error> = knuffel::parse_with_context("f", "t", |c: &mut Context<LineSpan>| { c.set(k); }); }')
    one('nodes and documents of spans without any other capability', BARE + 'fn go(d: &Document<Span>, c: &mut Context<Span>) { let _: Result<Node<Z>, _> = Decode::decode_node(&d.nodes[0], c); let _: Result<SpannedNode<Z>, _> = Decode::decode_node(&d.nodes[0], c); '
        'let _: Result<Value<Z>, _> = DecodeScalar::decode(&d.nodes[0].arguments[0], c); let _: Result<Y, Vec<DecodeError<Span>>> = knuffel::decode::node(&d.nodes[0]); }')
    one('error spans need no more than their trait says', LEAN + fn('fn e<S: ErrorSpan>() {} e::<My>(); err::<DecodeError<My>>(); diag::<DecodeError<My>>(); send::<Node<My>>(); clone::<Document<My>>(); debug::<Context<My>>(); eq::<Spanned<u8, My>>();') +
        BARE + 'fn all() { n::<My, Y>(); c::<My, Vec<Y>>(); p::<My, Y>(); s::<My, Option<Y>>(); n::<My, Box<Y>>(); s::<My, u32>(); s::<My, String>(); sp::<My, My>(); }')
    one('decoders get settings from the context', 'fn go<S: ErrorSpan>(c: &mut Context<S>) { c.set::<u32>(5); let _: Option<&u32> = c.get::<u32>(); let _: bool = c.has_errors(); }')
    # things nobody can build or take apart
    no('building a context', fn('fn f(c: &mut Context<Span>) {}'), fn('let _ = Context::<Span>::new();'))
    no('building a context by default', fn('fn f(c: &mut Context<Span>) {}'), fn('let _: Context<Span> = Default::default();'))
    no('copying a context', fn('fn f(c: &mut Context<Span>) {}'), 'fn go(c: &Context<Span>) { let _: Context<Span> = c.clone(); }')
    no('taking the errors out of a context', 'fn go(c: Context<Span>) { let _ = c.has_errors(); }', 'fn go(c: Context<Span>) { let _ = c.into_errors(); }')
    no('touching the fields of a context', fn(''), 'fn go(c: &mut Context<Span>) { c.errors.clear(); }')
    no('building a spanned value', 'fn go(a: Spanned<u8, u8>) -> u8 { *a }', fn('let _ = Spanned { span: 1u8, value: 2u8 };'))
    no('building a spanned value with a function', 'fn go(a: Spanned<u8, u8>) -> u8 { *a }', fn('let _ = Spanned::new(1u8, 2u8);'))
    no('replacing the position of a spanned value', 'fn go(a: &mut Spanned<u8, u8>) { **a = 5; }', 'fn go(a: &mut Spanned<u8, u8>) { a.span = 5; }')
    no('building an error report', 'fn go(e: Error) -> String { e.to_string() }', 'fn go(e: &mut Error) { e.errors.clear(); }')
    no('building an integer literal', 'fn go(e: Integer) {}', fn('let _ = Integer(knuffel::ast::Radix::Dec, "xx".into());'))
    no('building a decimal literal', 'fn go(e: Decimal) {}', fn('let _ = Decimal("xx".into());'))
    no('building a type name past its normal form', 'fn go() { let t: TypeName = "u8".parse().unwrap(); let _: TypeName = BuiltinType::U8.into(); }', fn('let _ = TypeName("u8".into());'))
    no('listing all type names', 'fn go(b: BuiltinType) { match b { BuiltinType::U8 => {} _ => {} } }',
       'fn go(b: BuiltinType) { use BuiltinType::*; match b { U8|I8|U16|I16|U32|I32|U64|I64|Usize|Isize|F32|F64|Base64 => {} } }')
    no('listing all decode errors', 'fn go(b: DecodeError<Span>) { match b { DecodeError::MissingNode { .. } => {} _ => {} } }',
       'fn go(b: DecodeError<Span>) { use DecodeError::*; match b { TypeName { .. } | ScalarKind { .. } | Missing { .. } | MissingNode { .. } | Unexpected { .. } | Conversion { .. } | Unsupported { .. } | Custom(..) => {} } }')
    # scalar conversions
    sc = 'fn s<S: ErrorSpan, T: DecodeScalar<S>>() {}\n'
    nd = 'fn s<S: ErrorSpan, T: Decode<S>>() {}\n'
    base = sc + fn('s::<S, u32>();', G)
    for t in ('i8 u8 i16 u16 i32 u32 i64 u64 isize usize f32 f64 bool String std::path::PathBuf std::sync::Arc<str> std::sync::Arc<std::path::Path> '
              'Box<u32> std::rc::Rc<u32> std::sync::Arc<u32> Option<u32> Option<Box<String>> Spanned<u32,S> Option<Spanned<String,S>> Spanned<Option<u32>,S>').split():
        one('scalar %s' % t, sc + fn('s::<S, %s>();' % t, '<S: knuffel::traits::Span>' if 'Spanned' in t else G))
    one('scalar with its byte span from a line span', sc + fn('s::<LineSpan, Spanned<u32, Span>>();'))
    no('scalar with a line span from a byte span', base, sc + fn('s::<Span, Spanned<u32, LineSpan>>();'))
    for t in ('()', '(u32, u32)', "&'static str", 'Vec<u8>', 'Vec<u32>', 'X', 'Literal', 'Box<X>', 'Option<X>', 'Result<u32, u32>'):
        no('scalar %s' % t, base + X, sc + fn('s::<S, %s>();' % t, G) + X)
    for t in ('u32', 'String', 'Vec<X>', 'Option<X>', '()', 'Spanned<X, S>'):
        no('node %s' % t, nd + fn('s::<S, X>(); s::<S, Box<X>>(); s::<S, std::rc::Rc<X>>(); s::<S, std::sync::Arc<X>>();', G) + X, nd + fn('s::<S, %s>();' % t, G) + X)
    dc = 'fn s<S: ErrorSpan, T: DecodeChildren<S>>() {}\n'
    for t in ('X', 'u32', 'Vec<u32>', 'Option<Vec<X>>'):
        no('document %s' % t, dc + fn('s::<S, Vec<X>>(); s::<S, Box<Vec<X>>>();', G) + X, dc + fn('s::<S, %s>();' % t, G) + X)
    return g


# implements the traits and nothing else: not Clone, Debug, Default, Send, Sync or Unpin
BARE = '''struct Y(std::rc::Rc<std::cell::Cell<*const u8>>, std::marker::PhantomPinned);
struct Z(std::rc::Rc<std::cell::Cell<*const u8>>);
impl Z { fn default() -> Z { Z(std::rc::Rc::new(std::cell::Cell::new(std::ptr::null()))) } }
fn y() -> Y { Y(std::rc::Rc::new(std::cell::Cell::new(std::ptr::null())), std::marker::PhantomPinned) }
impl<S: ErrorSpan> Decode<S> for Y { fn decode_node(n: &SpannedNode<S>, c: &mut Context<S>) -> Result<Y, DecodeError<S>> { Ok(y()) } }
impl<S: ErrorSpan> DecodeChildren<S> for Y { fn decode_children(n: &[SpannedNode<S>], c: &mut Context<S>) -> Result<Y, DecodeError<S>> { Ok(y()) } }
impl<S: ErrorSpan> DecodePartial<S> for Y { fn insert_child(&mut self, n: &SpannedNode<S>, c: &mut Context<S>) -> Result<bool, DecodeError<S>> { Ok(false) }
 fn insert_property(&mut self, n: &Spanned<Box<str>, S>, v: &Value<S>, c: &mut Context<S>) -> Result<bool, DecodeError<S>> { Ok(true) } }
impl<S: ErrorSpan> DecodeScalar<S> for Y { fn type_check(t: &Option<Spanned<TypeName, S>>, c: &mut Context<S>) {} fn raw_decode(v: &Spanned<Literal, S>, c: &mut Context<S>) -> Result<Y, DecodeError<S>> { Ok(y()) } }
impl<S: ErrorSpan> DecodeSpan<S> for Z { fn decode_span(s: &S, c: &mut Context<S>) -> Z { Z::default() } }
fn n<S: ErrorSpan, T: Decode<S>>() {} fn c<S: ErrorSpan, T: DecodeChildren<S>>() {} fn p<S: ErrorSpan, T: DecodePartial<S>>() {} fn s<S: ErrorSpan, T: DecodeScalar<S>>() {} fn sp<S: ErrorSpan, T: DecodeSpan<S>>() {}
'''
LEAN = '''#[derive(Clone, Debug)] struct My(usize, usize);
impl Into<miette::SourceSpan> for My { fn into(self) -> miette::SourceSpan { (self.0, self.1).into() } }
'''
X = 'struct X; impl<S: ErrorSpan> Decode<S> for X { fn decode_node(_: &SpannedNode<S>, _: &mut Context<S>) -> Result<X, DecodeError<S>> { Ok(X) } }\n'


@build.locked
def run(ck):
    ck.prog = None
    f = os.environ.get('KV_DUMP') or build.dump_lib()
    t = os.path.join(build.BUILD, 't-lib')
    lb = witness.artefacts(t)
    ex = []
    for n in ('miette', 'chumsky'):
        c = [os.path.join(d, x) for d in lb[1] for x in os.listdir(d) if x.startswith('lib%s-' % n) and x.endswith('.rmeta')]
        if not c:
            ck.undecided('the contracts of the public types hold', n, 'metadata not found')
            return
        ex += ['--extern', '%s=%s' % (n, max(c, key=os.path.getmtime))]
    r = 'programs that rely on a contract of the public types compile, and programs that break one are rejected'
    ck.rule(r)
    witness.judge(ck, r, groups(), lb, PRE, ex)
