"""What the encoder of a tree type writes, its decoder reads back as the same value.

The encoder of every type is taken apart into the items it writes on each of
its paths (array headers, numbers, text, and the encodings of its parts); the
decoder is followed over exactly those items. Parts are themselves values of a
tree type or of a type of the binary format's library, so the property of the
whole tree follows by induction over the types."""
import re

import build
import interp
import spec
from interp import RET, PANIC, Interp, Unsupported, new_state
from props.common import *
from models import clean

FLOOR = 30
RESULT_ = 'std::result::Result'
OPT = 'std::option::Option'
TYPES = ['ast::Node', 'ast::Document', 'ast::Radix', 'ast::Integer', 'ast::Decimal', 'ast::Value', 'ast::Literal',
         'ast::TypeName', 'span::Spanned', 'span::Span', 'span::LinePos', 'span::LineSpan']
NUM = {'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'int'}


def ok(v):
    return mk('adt', RESULT_, 0, 'Ok', (v,))


def some(v):
    return mk('adt', OPT, 1, 'Some', (v,))


NONE = mk('adt', OPT, 0, 'None', ())


def K(n):
    return mk('k', n)


def bare(t):
    t = clean(t)
    while True:
        u = re.sub(r'^(&(mut )?|std::boxed::Box<(?=str>))', '', t)
        if u == t:
            break
        t = u
        if t == 'str>':
            t = 'str'
    return t


class Mismatch(Exception):
    pass


class Codec(Interp):
    """follows one codec function; `items` is what is read (None: writing)"""

    def __init__(self, prog, items=None):
        super().__init__(prog, max_paths=4000)
        self.unroll = True
        self.items = items

    def pos(self, st):
        t = st.mem.get(('X', 'pos'))
        return t.a[0] if t is not None else 0

    def take(self, st, kinds, what):
        i = self.pos(st)
        if i >= len(self.items):
            raise Mismatch('%s is read past the end of what is written' % what)
        it = self.items[i]
        if it[0] not in kinds:
            raise Mismatch('%s is read where %s is written' % (what, name(it)))
        st.mem[('X', 'pos')] = K(i + 1)
        return it

    def skip(self, st):
        """one whole item"""
        it = self.take(st, ('arr', 'map', 'num', 'enc', 'str', 'nil', 'bool'), 'an item')
        if it[0] == 'arr':
            for _ in range(it[1]):
                self.skip(st)
        elif it[0] == 'map':
            for _ in range(2 * it[1]):
                self.skip(st)

    def val(self, st, v):
        n = 0
        while v.op in ('ref', 'vref') and n < 8:
            v = self.load(st, v)
            n += 1
        return self.freeze(st, v)

    def num(self, st, v):
        v = self.val(st, v)
        if v.op != 'k' or isinstance(v.a[0], bool) or not isinstance(v.a[0], int):
            raise Unsupported('a computed item')
        return v.a[0]

    def call(self, cal, args, st, site, dty=None):
        d = cal.get('decl') or ''
        n = cal.get('name') or d
        m = cal.get('m') or d.rsplit('::', 1)[-1]
        sf = bare(self.p.tys(cal['self'])) if 'self' in cal else ''
        tr = cal.get('trait')
        if tr == 'minicbor::Encode':
            if m == 'is_nil':
                if sf.startswith(OPT + '<'):
                    v = self.val(st, args[0])
                    return self.fork_opt(st, v)
                return [(st, RET, mk('k', False))]
            if m == 'encode':
                v = self.val(st, args[0])
                if not self.stack:
                    raise Unsupported('nothing analysed')
                st.ev('item', 'enc', sf, v)
                return [(st, RET, ok(UNIT))]
        if tr == 'minicbor::Decode':
            if m == 'nil':
                return [(st, RET, some(NONE) if sf.startswith(OPT + '<') else NONE)]
            if m == 'decode':
                it = self.take(st, ('enc',), 'a ' + short(sf))
                if it[1] != sf:
                    raise Mismatch('%s is read where %s is written' % (short(sf), name(it)))
                return [(st, RET, ok(it[2]))]
        if n.startswith('minicbor::Encoder::') or d.startswith('minicbor::Encoder::'):
            me = args[0]
            if m in ('array', 'map'):
                st.ev('item', {'array': 'arr', 'map': 'map'}[m], self.num(st, args[1]))
            elif m in NUM:
                v = self.val(st, args[1])
                if v.op == 'k':
                    st.ev('item', 'num', v.a[0])
                else:
                    st.ev('item', 'enc', m, v)
            elif m == 'str':
                st.ev('item', 'enc', 'str', self.val(st, args[1]))
            elif m == 'bool':
                st.ev('item', 'enc', 'bool', self.val(st, args[1]))
            elif m == 'null':
                st.ev('item', 'nil')
            elif m == 'encode':
                st.ev('item', 'enc', bare(self.p.tys(cal['targs'][-1])), self.val(st, args[1]))
            elif m == 'ok':
                return [(st, RET, ok(UNIT))]
            else:
                raise Unsupported('Encoder::' + m)
            return [(st, RET, ok(me))]
        if n.startswith('minicbor::Decoder::') or d.startswith('minicbor::Decoder::'):
            if m == 'position':
                return [(st, RET, mk('sym', 'position'))]
            if self.items is None:
                raise Unsupported('reads while writing')
            if m in ('array', 'map'):
                it = self.take(st, ({'array': 'arr', 'map': 'map'}[m],), 'an array' if m == 'array' else 'a map')
                return [(st, RET, ok(some(K(it[1]))))]
            if m in NUM:
                it = self.take(st, ('num', 'enc'), 'a number')
                if it[0] == 'enc':
                    if it[1] not in NUM | {'usize', 'isize'}:
                        raise Mismatch('a number is read where %s is written' % name(it))
                    if it[1] != m:
                        raise Unsupported('numbers of different widths')
                    return [(st, RET, ok(it[2]))]
                return [(st, RET, ok(K(it[1])))]
            if m in ('str', 'bool'):
                it = self.take(st, ('enc',), m)
                if it[1] not in (m, 'std::string::String') or (m == 'bool' and it[1] != m):
                    raise Mismatch('%s is read where %s is written' % (m, name(it)))
                return [(st, RET, ok(it[2]))]
            if m == 'skip':
                self.skip(st)
                return [(st, RET, ok(UNIT))]
            if m == 'decode':
                t = bare(self.p.tys(cal['targs'][-1]))
                it = self.take(st, ('enc',), 'a ' + short(t))
                if it[1] != t:
                    raise Mismatch('%s is read where %s is written' % (short(t), name(it)))
                return [(st, RET, ok(it[2]))]
            raise Unsupported('Decoder::' + m)
        if tr == 'std::str::FromStr' and cal.get('key') in self.p.funcs:
            fn = self.p.funcs[cal['key']]
            if fn.body is not None and self.is_local(cal):
                return self.call_fn(fn, args, st, site, cal)
        if m == 'parse' and n.endswith('str::parse') or n.endswith('<impl str>::parse'):
            fn = one(self.p, '<%s as std::str::FromStr>::from_str' % clean(self.p.tys(cal['targs'][-1])), '')
            if fn is not None:
                return self.call_fn(fn, args, st, site)
        if m == 'into_iter' and tr == 'std::iter::IntoIterator' and args[0].op == 'adt' and args[0].a[0] == 'std::ops::Range':
            return [(st, RET, args[0])]
        if m == 'next' and tr == 'std::iter::Iterator' and args[0].op == 'ref':
            r = self.load(st, args[0])
            if r.op == 'adt' and r.a[0] == 'std::ops::Range':
                lo, hi = r.a[3]
                if lo.op == 'k' and hi.op == 'k':
                    if lo.a[0] >= hi.a[0]:
                        return [(st, RET, NONE)]
                    self.store(st, args[0], mk('adt', 'std::ops::Range', 0, r.a[2], (K(lo.a[0] + 1), hi)))
                    return [(st, RET, some(lo))]
        if self.nsteps > 200000:
            raise Unsupported('too many steps')
        return super().call(cal, args, st, site, dty)

    def fork_opt(self, st, v):
        if v.op == 'adt' and v.a[0] == OPT:
            return [(st, RET, mk('k', v.a[1] == 0))]
        out = []
        for i, b in ((0, True), (1, False)):
            s = st.fork()
            if self.refine(s, v, IN(i)):
                out.append((s, RET, mk('k', b)))
        return out


def short(t):
    return re.sub(r'\b(\w+::)+', '', t)


def name(it):
    if it[0] == 'enc':
        return 'a %s (%s)' % (short(it[1]), show(it[2])[:60])
    return {'arr': 'an array of %s', 'map': 'a map of %s', 'num': 'the number %s', 'nil': 'null%.0s'}[it[0]] % (it + ('',))[1]


def same(p, st, v, t, texts):
    """is the value v what t is, under the facts"""
    if v is t:
        return None
    if v.op == 'adt':
        a = p.adts.get(v.a[0])
        if a is None:
            return 'is %s instead of %s' % (show(v)[:80], show(t)[:80])
        if a['kind'] == 'enum' and st.facts.get(t) != IN(v.a[1]):
            if v.a[0] == TNI:
                return None if builtin_text(p, st, v, t, texts) else 'is another type name'
            return 'is %s whatever %s is' % (show(v)[:80], show(t)[:80])
        vn = a['v'][v.a[1]]
        for i, (x, f) in enumerate(zip(v.a[3], vn['f'])):
            r = same(p, st, x, mk('fld', t, v.a[0], vn['n'], f['n']), texts)
            if r:
                return 'in %s %s' % (f['n'], r)
        return None
    if v.op == 'k' and t.op != 'k' and st.facts.get(t) in (IN(v.a[0]), ('iv', ((v.a[0], v.a[0]),))):
        return None
    return 'is %s instead of %s' % (show(v)[:80], show(t)[:80])


def builtin_text(p, st, v, t, texts):
    """v is the built-in of which t, a free-form name, spells the text: no such
    free-form name is ever made (type names are made from text only)"""
    cu = vidx(p, TNI, 'Custom')
    if st.facts.get(t) != IN(cu) or v.a[2] != 'Builtin':
        return False
    w = texts.get(v.a[3][0])
    if w is None:
        return False
    inner = mk('fld', t, TNI, 'Custom', '0')
    return st.facts.get(inner) == IN(w)


def run_fn(I, fn, argn, st):
    args = []
    for i, a in enumerate(argn):
        v = mk('sym', a)
        ty = I.p.ty(fn.locals[i + 1])
        if ty['k'] == 'ref':
            if ty['m']:
                loc = ('A', i)
                st.mem[loc] = v
                v = mk('ref', loc, ())
            else:
                v = vref(v)
        args.append(v)
    return I.call_fn(fn, args, st, 'root')


def one(p, n, m):
    fs = [p.funcs[k_] for k_ in p.roots if p.funcs[k_].name == n and p.funcs[k_].body is not None]
    if len(fs) != 1:
        return None
    return fs[0]


def items_of(s):
    out = []
    for e in s.trace:
        if e.a[0] == 'item':
            out.append(tuple(e.a[1:]))
    return out


def codec(ck, p, t, r):
    path = 'knuffel::' + t
    enc = one(p, '<%s as minicbor::Encode>::encode' % path, 'encode')
    dec = one(p, '<%s as minicbor::Decode>::decode' % path, 'decode')
    if enc is None or dec is None:
        ck.bad(r, t, 'has no single encoder and decoder')
        return
    for m, ty in (('is_nil', 'Encode'), ('nil', 'Decode')):
        if one(p, '<%s as minicbor::%s>::%s' % (path, ty, m), m) is not None:
            ck.undecided(r, t, 'has its own notion of being nil')
            return
    I = Codec(p)
    st = new_state()
    outs = run_fn(I, enc, ['self', 'e', 'ctx'], st)
    ck.funcs |= {p.funcs[k_].name for k_ in I.funcs_seen}
    ck.paths_n += len(outs)
    ck.calls_n += I.calls_seen
    ck.steps += I.nsteps
    me = mk('sym', 'self')
    texts = {}
    good = []
    for s, kd, v in outs:
        its = items_of(s)
        if kd == PANIC:
            ck.bad(r, t, 'the encoder panics')
            continue
        if not (v.op == 'adt' and v.a[1] == 0) or s.notes:
            ck.undecided(r, t, 'an outcome of the encoder is not understood: %s %s' % (show(v)[:100], list(s.notes)[:2]))
            continue
        good.append((s, its))
        if t == 'ast::TypeName':
            for x, d in s.facts.items():
                if d[0] == 'in' and len(d[1]) == 1 and x.op == 'fld' and x.a[2] == 'Builtin' and len(its) == 1 and its[0][0] == 'enc' and its[0][2].op == 'str':
                    (i,) = d[1]
                    texts[mk('adt', BT, i, p.adts[BT]['v'][i]['n'], ())] = its[0][2].a[0]
    for s, its in good:
        site = '%s [%s]' % (t, '; '.join(name(i) for i in its)[:160])
        J = Codec(p, its)
        s2 = new_state()
        s2.facts.update(s.facts)
        try:
            res = run_fn(J, dec, ['d', 'ctx'], s2)
        except Mismatch as e:
            ck.bad(r, site, str(e))
            continue
        except Unsupported as e:
            ck.undecided(r, site, 'decoder: ' + str(e)[:150])
            continue
        finally:
            ck.funcs |= {p.funcs[k_].name for k_ in J.funcs_seen}
            ck.steps += J.nsteps
            ck.calls_n += J.calls_seen
        ck.paths_n += len(res)
        st_, why = 'ok', ''
        for s3, kd, v in res:
            if kd == PANIC:
                st_, why = 'bad', 'the decoder panics on what the encoder writes'
                break
            if not (v.op == 'adt' and v.a[0] == RESULT_):
                st_, why = 'und', 'outcome ' + show(v)[:100]
                continue
            if v.a[1] != 0:
                st_, why = 'bad', 'the decoder rejects what the encoder writes: ' + show(v)[:150]
                break
            if any(f.op != 'sym' and not mentions(f, lambda x: x.op == 'sym') for f in s3.facts if f not in s.facts):
                # a condition on constants that is not evaluated: may never hold
                st_, why = 'und', 'a condition on constants is not evaluated'
                continue
            w = same(p, s3, J.freeze(s3, v.a[3][0]), me, texts)
            if w:
                st_, why = ('und' if s3.notes else 'bad'), 'reads back another value: ' + w
                if st_ == 'bad':
                    break
                continue
            if J.pos(s3) != len(its):
                st_, why = 'bad', 'the decoder leaves %s unread' % name(its[J.pos(s3)])
                break
        if st_ == 'ok':
            ck.good(r, site, '%d decoder paths' % len(res))
        elif st_ == 'bad':
            ck.bad(r, site, why)
        else:
            ck.undecided(r, site, why)


def run(ck):
    p = ck.prog = lib.library()
    r = 'for every path of an encoder, the decoder reads what it wrote back as the encoded value, completely'
    ck.rule(r)
    # every local implementation, and those of the tree in any case
    found = {re.match(r'<knuffel::([\w:]+)', p.funcs[k_].name).group(1) for k_ in p.roots
             if re.match(r'<knuffel::[\w:]+ as minicbor::(En|De)code>::(en|de)code$', p.funcs[k_].name)}
    for t in sorted(found | set(TYPES)):
        try:
            codec(ck, p, t, r)
        except Unsupported as e:
            ck.undecided(r, t, 'encoder: ' + str(e)[:200])
        except Mismatch as e:
            ck.bad(r, t, str(e))
