"""Definitions from which the derived decoders under analysis are generated.

Each fixture is a Rust definition with its meaning, given as data; the crate made
from them is compiled against /repo's current tree."""

import os

# field kinds:  (name, type, attribute text, dict(meaning))


class F:
    def __init__(self, name, ty, mode, key=None, option=False, default=None, decode='normal', attrs='', bare=False,
                 partial=None, unwrap=None, inner=None):
        self.name, self.ty, self.mode, self.key = name, ty, mode, key
        self.option, self.default, self.decode, self.attrs = option, default, decode, attrs
        self.partial = partial
        self.unwrap = unwrap      # inner field (F) of an unwrapped child


class Fx:
    def __init__(self, id, kind, fields=(), tuple_=False, generics='', derive='Decode', variants=(), extra='', src=None,
                 topics=()):
        self.id, self.kind, self.fields, self.tuple = id, kind, list(fields), tuple_
        self.generics, self.derive, self.variants = generics, derive, variants
        self.extra, self.src, self.topics = extra, src, tuple(topics)

    def rust(self):
        if self.src:
            return self.src
        if self.kind == 'struct':
            fs = []
            for f in self.fields:
                a = '#[knuffel(%s)] ' % f.attrs if f.attrs else ''
                fs.append('    %s%s%s,' % (a, '' if self.tuple else 'pub %s: ' % f.name, f.ty))
            if self.tuple:
                body = '(\n%s\n);' % '\n'.join(fs)
            elif fs:
                body = ' {\n%s\n}' % '\n'.join(fs)
            else:
                body = ';'
            return '#[derive(%s)]\n%spub struct %s%s%s' % (self.derive, self.extra, self.id, self.generics, body)
        raise ValueError(self.kind)


OUT = []


def struct(id, topics, *fields, **kw):
    OUT.append(Fx(id, 'struct', fields, topics=topics.split(), **kw))


def opt(ty, o):
    return 'Option<%s>' % ty if o else ty


def _mk(mode, name, ty, o, d, decode, key, attr):
    at = [attr]
    if d is not None:
        at.append('default' if d is True else 'default = %s' % d)
    if decode != 'normal':
        at.append(decode)
    return F(name, opt(ty, o), mode, key=key, option=o, default=d, decode=decode, attrs=', '.join(at))


def arg(name='a', ty='u32', o=False, d=None, decode='normal'):
    return _mk('argument', name, ty, o, d, decode, name, 'argument')


def args(name='a', ty='Vec<u32>', decode='normal'):
    return F(name, ty, 'arguments', decode=decode, attrs='arguments' + ('' if decode == 'normal' else ', ' + decode))


def prop(name='a', ty='u32', o=False, d=None, decode='normal', key=None, rename=None):
    return _mk('property', name, ty, o, d, decode, rename or key or name,
               'property' if rename is None else 'property(name = "%s")' % rename.replace('"', '\\"'))


def props(name='a', ty='std::collections::HashMap<String, u32>', decode='normal'):
    return F(name, ty, 'properties', decode=decode, attrs='properties' + ('' if decode == 'normal' else ', ' + decode))


def child(name='a', ty='Leaf', o=False, d=None, key=None, unwrap=None):
    f = _mk('child', name, ty, o, d, 'normal', key or name, 'child' + (', unwrap(%s)' % unwrap.attrs if unwrap else ''))
    f.unwrap = unwrap
    return f


def flag(name='a', key=None):
    return F(name, 'bool', 'flag', key=key or name, attrs='child')


def multi(name='a', ty='Vec<Leaf>', key='item', d=None, unwrap=None):
    f = F(name, ty, 'multi', key=key, default=d, attrs='children(name = "%s")' % key +
          (', unwrap(%s)' % unwrap.attrs if unwrap else '') + ('' if d is None else ', default' if d is True else ', default = %s' % d))
    f.unwrap = unwrap
    return f


def children(name='a', ty='Vec<Any>', unwrap=None):
    f = F(name, ty, 'children', attrs='children' + (', unwrap(%s)' % unwrap.attrs if unwrap else ''))
    f.unwrap = unwrap
    return f


def flat(name='a', ty='Part', child_=False, prop_=False):
    return F(name, ty, 'flatten', attrs='flatten(%s)' % ', '.join((['child'] if child_ else []) + (['property'] if prop_ else [])),
             partial=(child_, prop_))


def span(name='sp', ty='Sp'):
    return F(name, ty, 'span', attrs='span')


def node_name(name='nn', ty='String'):
    return F(name, ty, 'node_name', attrs='node_name')


def type_name(name='tn', ty='String', o=False):
    return F(name, opt(ty, o), 'type_name', option=o, attrs='type_name')


def extra(name='x', ty='u8'):
    return F(name, ty, 'extra')

# support types every fixture may use; they are analysed as opaque
PRELUDE = '''#![allow(dead_code, unused)]
use knuffel::{Decode, DecodeScalar};
pub trait Sup {}
#[derive(Debug, Clone, PartialEq)]
pub struct Leaf(u8);
impl Default for Leaf { fn default() -> Leaf { Leaf(77) } }
impl<S: knuffel::traits::ErrorSpan> Decode<S> for Leaf {
    fn decode_node(_: &knuffel::ast::SpannedNode<S>, _: &mut knuffel::decode::Context<S>)
        -> Result<Self, knuffel::errors::DecodeError<S>> { Ok(Leaf(0)) }
}
pub type Any = Leaf;
#[derive(Debug, Clone, PartialEq)]
pub struct Part(u8);
impl Default for Part { fn default() -> Part { Part(77) } }
impl<S: knuffel::traits::ErrorSpan> knuffel::traits::DecodePartial<S> for Part {
    fn insert_child(&mut self, _: &knuffel::ast::SpannedNode<S>, _: &mut knuffel::decode::Context<S>)
        -> Result<bool, knuffel::errors::DecodeError<S>> { Ok(false) }
    fn insert_property(&mut self, _: &knuffel::span::Spanned<Box<str>, S>, _: &knuffel::ast::Value<S>,
        _: &mut knuffel::decode::Context<S>) -> Result<bool, knuffel::errors::DecodeError<S>> { Ok(false) }
}
#[derive(Debug, Clone, PartialEq)]
pub struct Part2(u8);
impl Default for Part2 { fn default() -> Part2 { Part2(88) } }
impl<S: knuffel::traits::ErrorSpan> knuffel::traits::DecodePartial<S> for Part2 {
    fn insert_child(&mut self, _: &knuffel::ast::SpannedNode<S>, _: &mut knuffel::decode::Context<S>)
        -> Result<bool, knuffel::errors::DecodeError<S>> { Ok(false) }
    fn insert_property(&mut self, _: &knuffel::span::Spanned<Box<str>, S>, _: &knuffel::ast::Value<S>,
        _: &mut knuffel::decode::Context<S>) -> Result<bool, knuffel::errors::DecodeError<S>> { Ok(false) }
}
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Sp(u8);
impl<S: knuffel::traits::ErrorSpan> knuffel::traits::DecodeSpan<S> for Sp {
    fn decode_span(_: &S, _: &mut knuffel::decode::Context<S>) -> Sp { Sp(0) }
}
#[derive(Debug, Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Txt(u8);
impl std::str::FromStr for Txt {
    type Err = std::fmt::Error;
    fn from_str(_: &str) -> Result<Txt, std::fmt::Error> { Ok(Txt(0)) }
}
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Raw(u8);
impl std::convert::TryFrom<Vec<u8>> for Raw {
    type Error = std::fmt::Error;
    fn try_from(_: Vec<u8>) -> Result<Raw, std::fmt::Error> { Ok(Raw(0)) }
}
'''

# --- arguments
struct('AReq', 'C21', arg())
struct('AOpt', 'C21 C28', arg(o=True))
struct('ADef', 'C21 C28', arg(d=True))
struct('ADefX', 'C21 C28', arg(d='7'))
struct('AOptDef', 'C21 C28', arg(o=True, d=True))
struct('AOptDefX', 'C21 C28', arg(o=True, d='Some(7)'))
struct('AStr', 'C21', arg(ty='Txt', decode='str'))
struct('AStrOpt', 'C21 C28', arg(ty='Txt', o=True, decode='str'))
struct('AStrDef', 'C21 C28', arg(ty='Txt', d=True, decode='str'))
struct('ABytes', 'C21', arg(ty='Raw', decode='bytes'))
struct('ABytesOpt', 'C21 C28', arg(ty='Raw', o=True, decode='bytes'))
struct('ABytesDef', 'C21 C28', arg(ty='Raw', d=True, decode='bytes'))
struct('ATwo', 'C21', arg('first_arg'), arg('second', ty='String', o=True))
struct('ATwoReq', 'C21', arg('a'), arg('b'))
struct('SSpan', 'C21 C22 C23 C29', arg('a'), prop('p', o=True), child('k', o=True), extra='#[knuffel(span_type = knuffel::span::Span)]\n')
struct('SSpanDoc', 'C23 C24 C29', child('k', o=True), extra='#[knuffel(span_type = knuffel::span::Span)]\n')
struct('SLine', 'C27 C29', span('sp', 'knuffel::span::LineSpan'), extra='#[knuffel(span_type = knuffel::span::LineSpan)]\n')
struct('AMix', 'C21 C28', arg('a'), arg('b', d='3'), arg('c', o=True))
struct('AVar', 'C21', args())
struct('AReqVar', 'C21', arg('a'), args('rest'))
struct('AVarStr', 'C21', args('a', ty='Vec<Txt>', decode='str'))
struct('AVarBytes', 'C21', args('a', ty='Vec<Raw>', decode='bytes'))
struct('ATup', 'C21', arg('0'), arg('1', o=True), tuple_=True)
struct('AExtra', 'C21', extra('y'), arg('a'), extra('x', 'String'))
struct('AUnit', 'C21 C22 C23')
# --- properties
struct('PReq', 'C22', prop())
struct('POpt', 'C22 C28', prop(o=True))
struct('PDef', 'C22 C28', prop(d=True))
struct('PDefX', 'C22 C28', prop(d='7'))
struct('POptDef', 'C22 C28', prop(o=True, d=True))
struct('POptDefX', 'C22 C28', prop(o=True, d='Some(7)'))
struct('PStr', 'C22', prop(ty='Txt', decode='str'))
struct('PStrOpt', 'C22 C28', prop(ty='Txt', o=True, decode='str'))
struct('PBytes', 'C22', prop(ty='Raw', decode='bytes'))
struct('PBytesOpt', 'C22 C28', prop(ty='Raw', o=True, decode='bytes'))
struct('PNames', 'C22', prop('r#type', key='type'), prop('two_words', key='two-words', o=True))
struct('PRename', 'C22', prop('a', rename='x y"z'), prop('b', key='b', o=True))
struct('PVar', 'C22', props())
struct('PReqVar', 'C22', prop('a'), props('rest', ty='std::collections::BTreeMap<Txt, u32>'))
struct('PVarStr', 'C22', props('a', ty='Vec<(Txt, Txt)>', decode='str'))
struct('PTup', 'C22', prop('0', rename='p'), tuple_=True)
struct('APMix', 'C21 C22', arg('a'), prop('p', o=True))
# --- children
struct('KReq', 'C23', child())
struct('KOpt', 'C23 C28', child(o=True))
struct('KDef', 'C23 C28', child(d=True))
struct('KDefX', 'C23 C28', child(d='Leaf(7)'))
struct('KOptDef', 'C23 C28', child(o=True, d='Some(Leaf(7))'))
struct('KOptDefD', 'C23 C28', child(o=True, d=True))
struct('KFlag', 'C23', flag('some_flag', key='some-flag'))
struct('KTwo', 'C23', child('a'), child('b_c', key='b-c', o=True))
struct('KMulti', 'C23', multi('a', key='item'))
struct('KMultiOpt', 'C23 C28', F('a', 'Option<Vec<Leaf>>', 'multi', key='item', option=True, attrs='children(name = "item")'))
struct('KMultiOptMix', 'C23 C28', F('a', 'Option<Vec<Leaf>>', 'multi', key='item', option=True, attrs='children(name = "item")'), child('b', o=True))
struct('KMultiDef', 'C23 C28', multi('a', key='item', d='vec![Leaf(1)]'))
struct('KMultiTwo', 'C23', multi('a', key='item'), multi('b', key='other'))
struct('KAll', 'C23', children())
struct('KReqAll', 'C23', child('a'), children('rest'))
struct('KFlagAll', 'C23', flag('a'), children('rest'))
struct('KRaw', 'C23', child('r#type', key='type'))
struct('AKMix', 'C21 C23', arg('x'), child('a'))
struct('PKMix', 'C22 C23', prop('x'), child('a', o=True))
# --- flatten
struct('FChild', 'C24', flat('a', child_=True))
struct('FProp', 'C24', flat('a', prop_=True))
struct('FChildAfter', 'C24', child('k', o=True), flat('a', child_=True))
struct('FChildBefore', 'C24', flat('a', child_=True), child('k', o=True))
struct('FPropMix', 'C24', prop('p', o=True), flat('a', prop_=True))
struct('FBoth', 'C24', flat('a', child_=True, prop_=True), child('k', o=True), prop('p', o=True))
struct('FTwo', 'C24', flat('a', child_=True), flat('b', ty='Part2', child_=True))
struct('FTwoProp', 'C24', flat('a', prop_=True), prop('p', o=True), flat('b', ty='Part2', prop_=True))
struct('FAll', 'C24', flat('a', child_=True), children('rest'))
struct('FVarP', 'C24', flat('a', prop_=True), props('rest'))
struct('FPartProp', 'C24', prop('p', o=True), prop('q_r', o=True, key='q-r', ty='Txt', decode='str'), derive='Decode, Default')
struct('FPartKid', 'C24', child('k', o=True), flag('on'), derive='Decode, Default')
struct('FPartExtra', 'C24', prop('p', o=True), extra('x'), derive='Decode, Default')
struct('FNone', 'C24', extra('x'), derive='Decode, Default')
struct('FPartUnwrap', 'C24', child('k', ty='u32', o=True, unwrap=arg('k')), derive='Decode, Default')
# --- unwrap
struct('UArg', 'C25', child('a', ty='u32', unwrap=arg('a')))
struct('UArgOpt', 'C25 C28', child('a', ty='u32', o=True, unwrap=arg('a')))
struct('UArgDef', 'C25 C28', child('a', ty='u32', d='9', unwrap=arg('a')))
struct('UArgOptDef', 'C25 C28', child('a', ty='u32', o=True, d='Some(9)', unwrap=arg('a')))
struct('UNest', 'C25', child('a', ty='u32', unwrap=child('a', ty='u32', unwrap=arg('a'))))
struct('UMultiProp', 'C25', multi('a', ty='Vec<u32>', key='item', unwrap=prop('a', rename='v')))
struct('UMultiOpt', 'C25', child('b', o=True), F('a', 'Option<Vec<u32>>', 'multi', key='item', option=True, attrs='children(name = "item"), unwrap(argument)', unwrap=arg('a')))
struct('UArgOptStr', 'C25 C28', child('a', ty='Txt', o=True, unwrap=arg('a', ty='Txt', decode='str')))
struct('UPartial', 'C24 C25', child('k', ty='Vec<u32>', o=True, unwrap=args('k')), flag('on'))
struct('UArgInnerDef', 'C25', child('a', ty='u32', unwrap=arg('a', d='4')))
struct('UArgStr', 'C25', child('a', ty='Txt', unwrap=arg('a', ty='Txt', decode='str')))
struct('UArgBytes', 'C25', child('a', ty='Raw', unwrap=arg('a', ty='Raw', decode='bytes')))
struct('UArgs', 'C25', child('a', ty='Vec<u32>', unwrap=args('a')))
struct('UProp', 'C25', child('a', ty='u32', unwrap=prop('a')))
struct('UPropName', 'C25', child('a', ty='u32', unwrap=prop('a', rename='zz')))
struct('UProps', 'C25', child('a', ty='std::collections::BTreeMap<String, u32>', unwrap=props('a')))
struct('UChild', 'C25', child('a', ty='Leaf', unwrap=child('a')))
struct('UChildren', 'C25', child('a', ty='Vec<Leaf>', unwrap=children('a')))
struct('UMulti', 'C25', child('a', ty='Vec<Leaf>', unwrap=multi('a', key='it')))
struct('UMultiArg', 'C25', multi('a', ty='Vec<u32>', key='item', unwrap=arg('a')))
struct('UAllArg', 'C25', children('a', ty='Vec<u32>', unwrap=arg('a')))
struct('UBoolArg', 'C25', child('a', ty='bool', unwrap=arg('a')))
# --- names and spans
struct('NSpan', 'C27', span())
struct('NName', 'C27', node_name(ty='Txt'))
struct('NType', 'C27', type_name(ty='Txt'))
struct('NTypeOpt', 'C27', type_name(ty='Txt', o=True))
struct('NAll', 'C27', span(), node_name(), type_name(o=True), arg('a'))
struct('NKid', 'C27', node_name(), child('k', o=True))


def enum(id, topics, variants, src):
    OUT.append(Fx(id, 'enum', (), variants=variants, src=src, topics=topics.split()))


class V:
    def __init__(self, name, key, kind, fields=()):
        self.name, self.key, self.kind, self.fields = name, key, kind, list(fields)


enum('EUnit', 'C26', [V('First', 'first', 'unit'), V('SecondOne', 'second-one', 'unit')],
     '#[derive(Decode)]\npub enum EUnit { First, SecondOne }')
enum('ENest', 'C26', [V('Alpha', 'alpha', 'nested'), V('BetaGamma', 'beta-gamma', 'nestopt'), V('Last', 'last', 'unit')],
     '#[derive(Decode)]\npub enum ENest { Alpha(Leaf), BetaGamma(Option<Leaf>), #[knuffel(skip)] Hidden, Last }')
enum('ETup', 'C26', [V('One', 'one', 'tuple', [arg('0')]), V('Two', 'two', 'tuple', [arg('0'), prop('1', rename='p', o=True)]),
                     V('Kids', 'kids', 'tuple', [children('0')])],
     '#[derive(Decode)]\npub enum ETup { One(#[knuffel(argument)] u32), '
     'Two(#[knuffel(argument)] u32, #[knuffel(property(name="p"))] Option<u32>), Kids(#[knuffel(children)] Vec<Any>) }')
enum('EMany', 'C26', [V(x, x.lower(), 'unit') for x in ('Aa', 'Bb', 'Cc', 'Dd')],
     '#[derive(Decode)]\npub enum EMany { Aa, Bb, #[knuffel(skip)] Skipped(u32, u32), Cc, Dd }')
enum('EGenSpan', 'C26', [V('One', 'one', 'tuple', [arg('0')])],
     '#[derive(Decode)]\n#[knuffel(span_type=knuffel::span::Span)]\npub enum EGenSpan { One(#[knuffel(argument)] u32) }')
OUT.append(Fx('WReq', 'newtype', topics=['C26'], src='#[derive(Decode)]\npub struct WReq(Leaf);'))
OUT.append(Fx('WOpt', 'newtype', topics=['C26'], src='#[derive(Decode)]\npub struct WOpt(Option<Leaf>);'))


def scalar(id, variants, src):
    OUT.append(Fx(id, 'scalar', (), variants=variants, src=src, topics=['C30']))


scalar('SOne', [('Only', 'only')], '#[derive(DecodeScalar)]\npub enum SOne { Only }')
scalar('SThree', [('Red', 'red'), ('DarkBlue', 'dark-blue'), ('HTTPServer', 'http-server')],
       '#[derive(DecodeScalar)]\npub enum SThree { Red, DarkBlue, HTTPServer }')
scalar('SMany', [('A1', 'a1'), ('Xy', 'xy'), ('r#Loop', 'loop'), ('Snake_case', 'snake-case'), ('Zz', 'zz')],
       '#[derive(DecodeScalar)]\npub enum SMany { A1, Xy, r#Loop, Snake_case, Zz }')


# --- the thorough tier adds definitions in which every two kinds of field meet in both orders
KINDS = {
    'a': ('A', lambda n: arg(n)), 'ao': ('A', lambda n: arg(n, o=True)), 'ad': ('A', lambda n: arg(n, d=True)),
    'ax': ('A', lambda n: arg(n, d='7')), 'aod': ('A', lambda n: arg(n, o=True, d='Some(7)')),
    'as': ('A', lambda n: arg(n, ty='Txt', decode='str')), 'abo': ('A', lambda n: arg(n, ty='Raw', o=True, decode='bytes')),
    'av': ('A', lambda n: args(n)), 'avs': ('A', lambda n: args(n, ty='Vec<Txt>', decode='str')),
    'p': ('P', lambda n: prop(n)), 'po': ('P', lambda n: prop(n, o=True)), 'pd': ('P', lambda n: prop(n, d=True)),
    'pod': ('P', lambda n: prop(n, o=True, d='Some(7)')), 'ps': ('P', lambda n: prop(n, ty='Txt', decode='str')),
    'pb': ('P', lambda n: prop(n, ty='Raw', o=True, decode='bytes')), 'pr': ('P', lambda n: prop(n, rename='named ' + n)),
    'pv': ('P', lambda n: props(n)), 'pvs': ('P', lambda n: props(n, ty='Vec<(Txt, Txt)>', decode='str')),
    'k': ('K', lambda n: child(n)), 'ko': ('K', lambda n: child(n, o=True)), 'kd': ('K', lambda n: child(n, d=True)),
    'kx': ('K', lambda n: child(n, d='Leaf(7)')), 'kf': ('K', lambda n: flag(n)), 'km': ('K', lambda n: multi(n, key='many-' + n)),
    'kmd': ('K', lambda n: multi(n, key='many-' + n, d='vec![Leaf(1)]')), 'kv': ('K', lambda n: children(n)),
    'kva': ('K', lambda n: children(n, ty='Vec<u32>', unwrap=arg(n))), 'ku': ('K', lambda n: child(n, ty='u32', unwrap=arg(n))),
    'kuo': ('K', lambda n: child(n, ty='u32', o=True, unwrap=arg(n))), 'kus': ('K', lambda n: child(n, ty='Vec<u32>', unwrap=args(n))),
    'kup': ('K', lambda n: child(n, ty='u32', unwrap=prop(n))), 'kum': ('K', lambda n: multi(n, ty='Vec<u32>', key='many-' + n, unwrap=arg(n))),
    'fk': ('K', lambda n: flat(n, child_=True)), 'fp': ('P', lambda n: flat(n, prop_=True)),
    'fb': ('PK', lambda n: flat(n, child_=True, prop_=True)),
    's': ('N', lambda n: span(n)), 'n': ('N', lambda n: node_name(n, ty='Txt')), 't': ('N', lambda n: type_name(n, ty='Txt')),
    'to': ('N', lambda n: type_name(n, ty='Txt', o=True)), 'x': ('X', lambda n: extra(n)),
}
UNWRAP = ('kva', 'ku', 'kuo', 'kus', 'kup', 'kum')
CATCH = {'av': 'A', 'avs': 'A', 'pv': 'P', 'pvs': 'P', 'kv': 'K', 'kva': 'K'}


def may(ks):
    """whether the derive accepts these kinds in this order"""
    for i, k_ in enumerate(ks):
        if k_ in CATCH and any(CATCH[k_] in KINDS[x][0] for x in ks[i + 1:]):
            return False
        if KINDS[k_][0] == 'N' and any(x[0] == k_[0] and KINDS[x][0] == 'N' for x in ks[i + 1:]):
            return False
    # two unwrapped children multiply the paths of the decoder
    return len([x for x in ks if x[0] == 'f']) < 3 and len([x for x in ks if x in UNWRAP]) < 2 and \
        not (set(ks) & set(UNWRAP) and set(ks) & {'pb', 'abo'})


def mixes(seed=1):
    import random
    r = random.Random(seed)
    ks = sorted(KINDS)
    want = set()
    for x in ks:
        for y in ks:
            # kinds that share a part of the node, and with everything unnamed or about the node itself
            if may((x, y)) and (set(KINDS[x][0]) & set(KINDS[y][0]) or 'N' in KINDS[x][0] + KINDS[y][0]):
                want.add((x, y))
    # every two groups meet as well
    for x in ks:
        for g in 'APK':
            if g not in KINDS[x][0]:
                y = r.choice([k_ for k_ in ks if g in KINDS[k_][0]])
                want.add((x, y) if r.random() < .5 else (y, x))
    want = {w for w in want if may(w)}
    out = []
    while want:
        best = None
        first = sorted(want)[r.randrange(len(want))]
        for _ in range(60):
            c = list(first)
            c.insert(r.randrange(3), r.choice(ks))
            if not may(c) or first not in [(c[i], c[j]) for i in range(3) for j in range(i + 1, 3)]:
                continue
            n = len({(c[i], c[j]) for i in range(3) for j in range(i + 1, 3)} & want)
            if best is None or n > best[0]:
                best = (n, c)
        c = best[1] if best else list(first)
        want -= {(c[i], c[j]) for i in range(len(c)) for j in range(i + 1, len(c))}
        out.append(c)
    return out


def thorough():
    for i, ks in enumerate(mixes()):
        fs, tops = [], set()
        nf = 0
        for n, k_ in zip('fgh', ks):
            f = KINDS[k_][1](n + '_' + k_)
            if f.mode == 'flatten':
                nf += 1
                if nf == 2:
                    f.ty = 'Part2'
            for g in (f, f.unwrap):
                if g and g.key == g.name:
                    g.key = g.key.replace('_', '-')
            fs.append(f)
            tops |= {'argument': {'C21'}, 'arguments': {'C21'}, 'property': {'C22'}, 'properties': {'C22'}, 'child': {'C23'}, 'flag': {'C23'},
                     'multi': {'C23'}, 'children': {'C23'}, 'flatten': {'C24'}, 'span': {'C27'}, 'node_name': {'C27'}, 'type_name': {'C27'}}.get(f.mode, set())
            if f.unwrap:
                tops.add('C25')
            if f.default is not None or f.option:
                tops.add('C28')
        struct('Mix%d' % i, ' '.join(sorted(tops)), *fs)


if os.environ.get('VERIF_TIER') == 'thorough':
    thorough()


def crate(without=()):
    return PRELUDE + '\n'.join('// fixture %s\n%s' % (f.id, f.rust()) for f in OUT if f.id not in without) + '\n'
