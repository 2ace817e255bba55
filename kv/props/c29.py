import os

import build
import lib
import props.derived as d
import witness

FLOOR = 100
PRE = '''#![allow(dead_code, unused)]
use knuffel::{Decode, DecodeScalar};
#[derive(Decode)] struct Leaf {}
#[derive(Decode, Default)] struct Part { #[knuffel(child)] x: Option<Leaf>, #[knuffel(property)] y: Option<u32> }
#[derive(Decode, Default)] struct Part2 { #[knuffel(child)] z: bool, #[knuffel(property)] w: Option<u32> }
'''


def st(*fields):
    return '#[derive(Decode)] struct X { %s }' % ', '.join('#[knuffel(%s)] f%d: %s' % (a, i, t) for i, (a, t) in enumerate(fields))


def tup(*fields):
    return '#[derive(Decode)] struct X(%s);' % ', '.join('#[knuffel(%s)] %s' % (a, t) for a, t in fields)


ARGS = ('arguments', 'Vec<u32>')
ARG = ('argument', 'u32')
PROPS = ('properties', 'std::collections::BTreeMap<String, u32>')
PROP = ('property', 'u32')
KIDS = ('children', 'Vec<Leaf>')
KID = ('child', 'Leaf')
NAMED = ('children(name="it")', 'Vec<Leaf>')
FC, FP = ('flatten(child)', 'Part'), ('flatten(property)', 'Part')
FC2, FP2 = ('flatten(child)', 'Part2'), ('flatten(property)', 'Part2')
U = 'u32'
PAIRS = [
    ('an argument after the catch-all', st(ARG, ARGS), st(ARGS, ARG)),
    ('an argument after the catch-all, with fields between', st(ARG, KID, ARGS), st(ARGS, KID, PROP, ARG)),
    ('an optional argument after the catch-all', st(('argument', 'Option<u32>'), ARGS), st(ARGS, ('argument', 'Option<u32>'))),
    ('two argument catch-alls', st(ARG, ARGS), st(ARGS, ARGS)),
    ('a property after the catch-all', st(PROP, PROPS), st(PROPS, PROP)),
    ('two property catch-alls', st(PROP, PROPS), st(PROPS, PROPS)),
    ('a flattened property after the catch-all', st(FP, PROPS), st(PROPS, FP)),
    ('a child after the catch-all', st(KID, KIDS), st(KIDS, KID)),
    ('a flag after the catch-all', st(('child', 'bool'), KIDS), st(KIDS, ('child', 'bool'))),
    ('named children after the catch-all', st(NAMED, KIDS), st(KIDS, NAMED)),
    ('two child catch-alls', st(KID, KIDS), st(KIDS, KIDS)),
    ('a flattened child after the catch-all', st(FC, KIDS), st(KIDS, FC)),
    ('a flattened both after the child catch-all', st(('flatten(child, property)', 'Part'), KIDS), st(KIDS, ('flatten(child, property)', 'Part'))),
    ('an unnamed property', tup(('property(name="p")', U)), tup(PROP)),
    ('an unnamed child', st(KID), tup(KID)),
    ('an unnamed flag', st(('child', 'bool')), tup(('child', 'bool'))),
    ('an unnamed child in an enum variant', '#[derive(Decode)] enum X { A(#[knuffel(children)] Vec<Leaf>) }',
     '#[derive(Decode)] enum X { A(#[knuffel(child)] Leaf) }'),
    ('an unnamed property in an enum variant', '#[derive(Decode)] enum X { A(#[knuffel(property(name="p"))] u32) }',
     '#[derive(Decode)] enum X { A(#[knuffel(property)] u32) }'),
    ('an optional flattened child', st(FC), st(('flatten(child)', 'Option<Part>'))),
    ('an optional flattened property', st(FP), st(('flatten(property)', 'Option<Part>'))),
    ('flattening a struct with required fields', st(FC), '#[derive(Decode, Default)] struct Y { #[knuffel(property)] x: u32 }\n' + st(('flatten(child)', 'Y'))),
    ('flattening a struct with an argument', st(FC), '#[derive(Decode, Default)] struct Y { #[knuffel(argument)] x: Option<u32> }\n' + st(('flatten(child)', 'Y'))),
    ('an unknown field attribute', st(ARG), st(('argumentt', U))),
    ('an unknown attribute beside a known one', st(ARG), st(('argument, foo', U))),
    ('a container attribute on a field', st(ARG), st(('argument, span_type = knuffel::span::Span', U))),
    ('a variant attribute on a field', st(ARG), st(('skip', U))),
    ('a field attribute on a container', st(ARG), '#[derive(Decode)] #[knuffel(argument)] struct X { #[knuffel(argument)] a: u32 }'),
    ('an unknown container attribute', st(ARG), '#[derive(Decode)] #[knuffel(foo)] struct X { #[knuffel(argument)] a: u32 }'),
    ('an unknown enum attribute', '#[derive(Decode)] enum X { A }', '#[derive(Decode)] #[knuffel(foo)] enum X { A }'),
    ('a field attribute on an enum', '#[derive(Decode)] enum X { A }', '#[derive(Decode)] #[knuffel(argument)] enum X { A }'),
    ('a field attribute on a variant', '#[derive(Decode)] enum X { #[knuffel(skip)] A, B }', '#[derive(Decode)] enum X { #[knuffel(argument)] A, B }'),
    ('an unknown variant attribute', '#[derive(Decode)] enum X { A }', '#[derive(Decode)] enum X { #[knuffel(foo)] A }'),
    ('an unknown flatten item', st(FC), st(('flatten(foo)', 'Part'))),
    ('an unknown property option', st(('property(name="x")', U)), st(('property(nam="x")', U))),
    ('an unknown children option', st(NAMED), st(('children(nam="it")', 'Vec<Leaf>'))),
    ('a property name that is not text', st(('property(name="x")', U)), st(('property(name=5)', U))),
    ('two modes on a field', st(ARG), st(('argument, property', U))),
    ('two modes in separate attributes', st(ARG), '#[derive(Decode)] struct X { #[knuffel(argument)] #[knuffel(property)] a: u32 }'),
    ('the same mode twice', st(ARG), st(('argument, argument', U))),
    ('two defaults', st(('argument, default', U)), st(('argument, default, default=3', U))),
    ('two scalar modes', st(('argument, str', U)), st(('argument, str, bytes', 'Vec<u8>'))),
    ('two unwraps', st(('child, unwrap(argument)', U)), st(('child, unwrap(argument), unwrap(argument)', U))),
    ('two modes in an unwrap', st(('child, unwrap(argument)', U)), st(('child, unwrap(argument, property)', U))),
    ('an unknown attribute in an unwrap', st(('child, unwrap(argument)', U)), st(('child, unwrap(argument, foo)', U))),
    ('a scalar mode on a child', st(KID), st(('child, str', 'Leaf'))),
    ('a scalar mode outside the unwrap', st(('child, unwrap(argument, str)', U)), st(('child, unwrap(argument), str', U))),
    ('a scalar mode on children', st(KIDS), st(('children, str', 'Vec<Leaf>'))),
    ('a scalar mode on named children', st(NAMED), st(('children(name="it"), bytes', 'Vec<Leaf>'))),
    ('a scalar mode on a flattened field', st(FC), st(('flatten(child), str', 'Part'))),
    ('a scalar mode on a node name', st(('node_name', 'String')), st(('node_name, str', 'String'))),
    ('a scalar mode on a type name', st(('type_name', 'String')), st(('type_name, bytes', 'String'))),
    ('a required child of a type that is not a node', st(KID), st(('child', 'u32'))),
    ('data in a scalar enum', '#[derive(DecodeScalar)] enum X { A, B }', '#[derive(DecodeScalar)] enum X { A, B(u32) }'),
    ('empty tuple data in a scalar enum', '#[derive(DecodeScalar)] enum X { A, B }', '#[derive(DecodeScalar)] enum X { A, B() }'),
    ('named data in a scalar enum', '#[derive(DecodeScalar)] enum X { A, B }', '#[derive(DecodeScalar)] enum X { A { x: u32 }, B }'),
    ('a scalar struct', '#[derive(DecodeScalar)] enum X { A }', '#[derive(DecodeScalar)] struct X;'),
    ('a union', st(ARG), '#[derive(Decode)] union X { a: u32, b: u8 }'),
    ('a default of the wrong type', st(('argument, default=3', U)), st(('argument, default="x"', U))),
]
# the span types a definition works with
SPANS = [('knuffel::span::Span', True), ('knuffel::span::LineSpan', True), ('u64', False)]


@build.locked
def run(ck):
    d.check(ck, 'C29')
    ck.prog = None
    r = 'contradictory definitions are rejected, and their corrected twins accepted, by the derive'
    ck.rule(r)
    lb = witness.artefacts(os.path.join(build.BUILD, 't-fx'))
    witness.judge(ck, r, PAIRS, lb, PRE)
    r = 'a derived definition decodes for every span type of the library and for user types with the same traits'
    ck.rule(r)
    g = []
    for what, src, tr in (
            ('struct', st(ARG, PROP, KID), 'Decode'), ('tuple struct', tup(ARG), 'Decode'), ('unit struct', '#[derive(Decode)] struct X;', 'Decode'),
            ('newtype', '#[derive(Decode)] struct X(Leaf);', 'Decode'), ('enum', '#[derive(Decode)] enum X { A, B(Leaf), C(#[knuffel(argument)] u32) }', 'Decode'),
            ('document', st(KID, KIDS), 'traits::DecodeChildren'), ('partial', st(('child', 'Option<Leaf>')), 'traits::DecodePartial'),
            ('scalar', '#[derive(DecodeScalar)] enum X { A }', 'DecodeScalar')):
        bound = 'fn need<T: knuffel::%s<P>, P: knuffel::traits::ErrorSpan>() {}\n' % tr
        g.append((what, src + '\n' + bound + 'fn all<P: knuffel::traits::ErrorSpan>() { need::<X, P>(); need::<X, knuffel::span::Span>(); need::<X, knuffel::span::LineSpan>(); }', None))
    for what, attr in (('struct', 'struct X { #[knuffel(argument)] a: u32, #[knuffel(child)] b: Option<Leaf> }'), ('newtype', 'struct X(Leaf);'),
                       ('enum', 'enum X { A, B(Leaf), C(#[knuffel(argument)] u32) }')):
        bound = '\nfn need<T: knuffel::Decode<P>, P: knuffel::traits::ErrorSpan>() {}\nfn all() { need::<X, %s>(); }'
        for mine, other in (('Span', 'LineSpan'), ('LineSpan', 'Span')):
            src = '#[derive(Decode)] #[knuffel(span_type = knuffel::span::%s)] %s' % (mine, attr)
            g.append(('span_type=%s on a %s' % (mine, what), src + bound % ('knuffel::span::' + mine), src + bound % ('knuffel::span::' + other)))
    gen = '#[derive(Decode)] struct X<T: %sTr> { #[knuffel(argument)] a: u32, x: std::marker::PhantomData<T> }\n'
    g.append(('a generic definition', 'trait Tr {}\n' + gen % '' + 'fn need<T: knuffel::Decode<P>, P: knuffel::traits::ErrorSpan>() {}\nfn all<Q: Tr, P: knuffel::traits::ErrorSpan>() { need::<X<Q>, P>(); }', None))
    witness.judge(ck, r, g, lb, PRE)
    r = 'a document root or flatten target is exactly a definition whose fields allow it'
    ck.rule(r)
    t = []
    docn = 'fn need<T: knuffel::traits::DecodeChildren<knuffel::span::Span>>() {}\nfn go() { need::<X>(); }'
    parn = 'fn need<T: knuffel::traits::DecodePartial<knuffel::span::Span>>() {}\nfn go() { need::<X>(); }'
    extra = '#[derive(Decode)] struct X { %s x: u8 }\n'
    sp = ('span', 'knuffel::span::Span')
    for name, f in (('an argument', ARG), ('an optional argument', ('argument', 'Option<u32>')), ('arguments', ARGS), ('a property', PROP),
                    ('properties', PROPS), ('a node name', ('node_name', 'String')), ('a type name', ('type_name', 'String')),
                    ('an optional type name', ('type_name', 'Option<String>')), ('a flattened property', FP)):
        t.append(('%s in a document' % name, st(KID) + docn, st(f, KID) + docn))
    for name, f in (('a child', KID), ('children', KIDS), ('named children', NAMED), ('a flag', ('child', 'bool')), ('a flattened child', FC),
                    ('an unwrapped argument', ('child, unwrap(argument)', U))):
        t.append(('%s in a document' % name, st(f) + docn, None))
    for name, f in (('an argument', ('argument', 'Option<u32>')), ('arguments', ARGS), ('a required property', PROP), ('properties', PROPS),
                    ('a required child', KID), ('children', KIDS), ('named children', NAMED), ('a node name', ('node_name', 'String')),
                    ('an optional type name', ('type_name', 'Option<String>'))):
        t.append(('%s in a flatten target' % name, st(('property', 'Option<u32>')) + parn, st(('property', 'Option<u32>'), f) + parn))
    for name, f in (('an optional child', ('child', 'Option<Leaf>')), ('an optional property', ('property', 'Option<u32>')), ('a flag', ('child', 'bool')),
                    ('a flattened child', FC), ('a flattened property', FP), ('a flattened both', ('flatten(child, property)', 'Part'))):
        t.append(('%s in a flatten target' % name, st(f) + parn, None))
    t.append(('an unannotated field in a flatten target', '#[derive(Decode)] struct X { #[knuffel(child)] k: Option<Leaf>, x: u8 }\n' + parn, None))
    t.append(('an unannotated field in a document', '#[derive(Decode)] struct X { #[knuffel(child)] k: Leaf, x: u8 }\n' + docn, None))
    witness.judge(ck, r, t, lb, PRE)
