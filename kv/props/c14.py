from props.common import *

FLOOR = 18


def type_check_rows(p, marker):
    tn = sym('tn')
    name = sv(somev(tn))
    inner = mk('fld', name, TN, 'TypeName', '0')
    bt = mk('fld', inner, TNI, 'Builtin', '0')
    bi = vidx(p, TNI, 'Builtin')
    ci = vidx(p, TNI, 'Custom')

    def quiet(q):
        if q.kind == 'panic':
            return 'panics'
        if q.dirty or q.emits():
            return 'reports an error for an accepted annotation'
        if q.calls():
            return 'calls something else'

    def noisy(q):
        if q.kind == 'panic':
            return 'panics'
        if not q.emits():
            return 'accepts a wrong type annotation silently'
    rows = [([(tn, IN(0))], quiet)]
    n = len(p.adts[BT]['v'])
    for i in range(n):
        rows.append(([(tn, IN(1)), (inner, IN(bi)), (bt, IN(i))], quiet if i == marker else noisy))
    rows.append(([(tn, IN(1)), (inner, IN(ci))], noisy))
    return rows


def run(ck):
    p = ck.prog = lib.library()
    r = 'an annotation is accepted exactly if it names the type itself (numbers) or is absent'
    ck.rule(r)
    for ty in INTS + FLOATS:
        fn = ck.impl('DecodeScalar', ty, 'type_check')
        mi = vidx(p, BT, ty.capitalize())
        ck.table(r, fn, ['tn', 'ctx'], type_check_rows(p, mi))
    for n, ty in list(STRS.items()) + [('bool', 'bool')]:
        fn = ck.impl('DecodeScalar', ty, 'type_check')
        ck.table(r, fn, ['tn', 'ctx'], type_check_rows(p, None))
    # the provided method checks the annotation, then decodes the literal
    r2 = 'decoding a value checks its annotation and its literal, always both'
    ck.rule(r2)
    fn = ck.fn('knuffel::traits::DecodeScalar::decode')
    whole(ck, r2, fn)
    # an override must do the same
    for ty in INTS + FLOATS + list(STRS.values()) + ['bool']:
        try:
            fn = ck.impl('DecodeScalar', ty, 'decode')
        except Missing:
            continue
        whole(ck, r2, fn)


def whole(ck, r2, fn):
    TR = 'knuffel::traits::DecodeScalar::'
    v = sym('val')
    t = mk('fld', v, VALUE, 'Value', 'type_name')
    l = mk('fld', v, VALUE, 'Value', 'literal')
    nb = 0
    try:
        ps = ck.paths(fn, ['val', 'ctx'], opaque=opq(TR + 'type_check', TR + 'raw_decode'))
        for q in ps:
            cs = q.calls()
            m = None
            if q.kind == 'panic':
                m = 'panics'
            elif [c.a[1].split('::')[-1].split('<')[0] for c in cs] != ['type_check', 'raw_decode']:
                m = 'does not check the annotation exactly once before the literal'
            elif cs[0].a[2] != (t, MUT) or cs[1].a[2] != (l, MUT):
                m = 'passes other parts of the value'
            else:
                a = mk('app', cs[1].a[1], cs[1].a[2])
                if q.val not in (okv(a), errv(a)) or q.emits():
                    m = 'does not return the decoded literal'
            if m:
                nb += 1
                ck.bad(r2, fn.name, m + ': ' + q.show())
        if not nb:
            ck.good(r2, fn.name, '%d paths' % len(ps))
    except Unsupported as e:
        ck.undecided(r2, fn.name, str(e))
