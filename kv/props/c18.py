from props.common import *

FLOOR = 8
TR = 'knuffel::traits::'
OPAQUE = opq(TR + 'DecodeScalar::decode', TR + 'Decode::decode_node', TR + 'DecodeSpan::decode_span')


def dsp(s):
    return mk('app', TR + 'DecodeSpan::decode_span', (s, MUT))


def spanned_copy(p, q, v, t):
    if not adt_is(v, SP):
        return False
    f = adt_fields(p, v)
    return f['span'] is dsp(ss(t)) and same(p, q.facts, f['value'], sv(t))


def opt(p, q, v, t, f):
    d = q.facts.get(t)
    if adt_is(v, OPTION, 'None'):
        return d == IN(0)
    if adt_is(v, OPTION, 'Some'):
        return d == IN(1) and f(v.a[3][0], somev(t))
    return False


def run(ck):
    p = ck.prog = lib.library()
    n = sym('node')

    def each(r, fn, argn, okf, may_fail=()):
        ck.rule(r)
        try:
            ps = ck.paths(fn, argn, opaque=OPAQUE)
        except Unsupported as e:
            return ck.undecided(r, fn.name, str(e))
        bad = n_ok = 0
        for q in ps:
            m = None
            if q.kind == 'panic':
                m = 'panics'
            elif q.emits() or q.dirty:
                m = 'reports an error'
            elif q.kind == 'err':
                if not (q.val.op == 'fld' and q.val.a[2] == 'Err' and q.facts.get(q.val.a[0]) == IN(1) and
                        q.val.a[0].op == 'app' and q.val.a[0].a[0] in may_fail):
                    m = 'fails although no part failed to decode'
            else:
                n_ok += 1
                m = okf(q)
            if m:
                bad += 1
                if q.notes:
                    ck.undecided(r, fn.name, m + ' (%s)' % ', '.join(sorted(q.notes)))
                else:
                    ck.bad(r, fn.name, m + ': ' + q.show())
        if not n_ok:
            ck.bad(r, fn.name, 'never succeeds')
        elif not bad:
            ck.good(r, fn.name, '%d paths' % len(ps))

    dec = TR + 'DecodeScalar::decode'
    dn = TR + 'Decode::decode_node'

    def loop_ok(q, v, src, elem):
        cs = seqmap(q, v, src)
        if cs is None:
            return 'not built from every item in order'
        for fs, push in cs:
            if len(push) != 1 or push[0].op != 'one':
                return 'an item is dropped or duplicated'
            cur = [t for x in list(fs) + [push[0]] for t in atoms(x)]
            cur = [t for t in cur if src in t.a]
            if not cur or not elem(fs, push[0].a[0], cur[0]):
                return 'an item is changed'
        return None

    parts = {}

    def node_ok(part):
        def f(q):
            v = q.val
            if not adt_is(v, NODE):
                return 'not a node'
            fl = adt_fields(p, v)
            if part == 'type_name':
                if not opt(p, q, fl['type_name'], nodef(n, 'type_name'), lambda x, t: spanned_copy(p, q, x, t)):
                    return 'the type name is not preserved'
            elif part == 'node_name':
                if not spanned_copy(p, q, fl['node_name'], nodef(n, 'node_name')):
                    return 'the node name is not preserved'
            elif part == 'arguments':
                m = loop_ok(q, fl['arguments'], nodef(n, 'arguments'),
                            lambda fs, x, c: x is okv(mk('app', dec, (c, MUT))))
                return m and 'arguments: ' + m
            elif part == 'properties':
                mp = fl['properties']
                if mp.op != 'map':
                    return 'properties: not a map'
                src = mk('entries', nodef(n, 'properties'))

                def el(fs, x, c):
                    if x.op != 'tup':
                        return False
                    kk, vv = x.a if len(x.a) == 2 else x.a[0]
                    ck_, cv = mk('fld', c, None, None, '0'), mk('fld', c, None, None, '1')
                    if not adt_is(kk, SP) or not (vv.op == 'fld' and vv.a[2] == 'Ok' and vv.a[0].op == 'app' and vv.a[0].a[0] == dec):
                        return False
                    return show(vv.a[0].a[1][0]) == show(c) + '.1' and \
                        show(adt_fields(p, kk)['value']) == show(c) + '.0.value' and \
                        show(adt_fields(p, kk)['span']) == 'decode_span(' + show(c) + '.0.span, mut())' or \
                        prop_same(kk, vv, c)

                def prop_same(kk, vv, c):
                    arg = vv.a[0].a[1][0]
                    f = adt_fields(p, kk)
                    if arg.op not in ('tfld', 'fld', 'proj') or arg.a[0] is not c:
                        return False
                    val, sp = f['value'], f['span']
                    if not (sp.op == 'app' and sp.a[0] == TR + 'DecodeSpan::decode_span' and sp.a[1][1] is MUT):
                        return False
                    key = sp.a[1][0].a[0]
                    return sp.a[1][0] is ss(key) and val is sv(key) and key.op == arg.op and key.a[0] is c and \
                        arg.a[-1] == '1' and key.a[-1] == '0'
                m = loop_ok(q, mp.a[0], src, el)
                return m and 'properties: ' + m
            elif part == 'children':
                def ch(x, t):
                    if not adt_is(x, SP):
                        return False
                    f = adt_fields(p, x)
                    if f['span'] is not dsp(ss(t)):
                        return False

                    def el(fs, y, c):
                        if y is okv(mk('app', dn, (c, MUT))):
                            return True    # the decoder of spanned nodes
                        if not adt_is(y, SP):
                            return False
                        g = adt_fields(p, y)
                        return g['span'] is dsp(ss(c)) and g['value'] is okv(mk('app', dn, (c, MUT)))
                    return loop_ok(q, f['value'], sv(t), el) is None
                if not opt(p, q, fl['children'], nodef(n, 'children'), ch):
                    return 'the children are not preserved'
        return f
    fn = ck.impl('Decode', r'knuffel::ast::Node<T>', 'decode_node')
    for part in ('type_name', 'node_name', 'arguments', 'properties', 'children'):
        each('decoding a node into the tree keeps its ' + part, fn, ['node', 'ctx'], node_ok(part), (dec, dn))

    fn = ck.impl('Decode', r'knuffel::span::Spanned<knuffel::ast::Node<T>, T>', 'decode_node')

    def spn(q):
        v = q.val
        if not adt_is(v, SP):
            return 'not spanned'
        f = adt_fields(p, v)
        if f['span'] is not dsp(ss(n)):
            return 'span is not the converted span of the node'
        if f['value'] is not okv(mk('app', dn, (n, MUT))):
            return 'value is not the decoded node'
    each('decoding a spanned node adds the converted span of the node', fn, ['node', 'ctx'], spn, (dn,))

    fn = ck.impl('DecodeScalar', r'knuffel::ast::Value<T>', 'decode')
    v = sym('val')

    def vl(q):
        x = q.val
        if not adt_is(x, VALUE):
            return 'not a value'
        f = adt_fields(p, x)
        if not opt(p, q, f['type_name'], mk('fld', v, VALUE, 'Value', 'type_name'), lambda x, t: spanned_copy(p, q, x, t)):
            return 'the type name is not preserved'
        if not spanned_copy(p, q, f['literal'], mk('fld', v, VALUE, 'Value', 'literal')):
            return 'the literal is not preserved'
    each('decoding a value into the tree keeps type name, literal and spans', fn, ['val', 'ctx'], vl)

    fn = ck.impl('DecodeScalar', r'knuffel::ast::Literal', 'raw_decode')

    def lt(q):
        if not same(p, q.facts, q.val, sv(sym('lit'))):
            return 'the literal is changed'
    each('decoding a literal into the tree keeps it', fn, ['lit', 'ctx'], lt)
    for ty in (r'knuffel::ast::Literal', r'knuffel::ast::Value<T>'):
        r = 'every annotation is accepted when decoding into the tree'
        ck.rule(r)
        fn = ck.impl('DecodeScalar', ty, 'type_check')
        try:
            ps = ck.paths(fn, ['tn', 'ctx'])
        except Unsupported as e:
            ck.undecided(r, fn.name, str(e))
            continue
        b = [q for q in ps if q.kind == 'panic' or q.dirty or q.emits()]
        if b:
            ck.bad(r, fn.name, b[0].show())
        else:
            ck.good(r, fn.name)
