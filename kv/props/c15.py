from props.common import *

FLOOR = 22


def run(ck):
    p = ck.prog = lib.library()
    n = len(p.adts[BT]['v'])
    names = {i: v['n'].lower() for i, v in enumerate(p.adts[BT]['v'])}
    if len(set(names.values())) != n:
        ck.bad('names are distinct', BT, 'two built-in types share a name')
    s = sym('s')
    bi, ci = vidx(p, TNI, 'Builtin'), vidx(p, TNI, 'Custom')
    r1 = 'each built-in type prints its own name'
    r2 = 'parsing a built-in name yields that type, any other name the custom type verbatim'
    ck.rule(r1)
    ck.rule(r2)

    def is_str(t, want):
        while t.op == 'vref':
            t = t.a[0]
        return t is string(want)

    def prints(want, writes=False):
        def f(q):
            if q.kind == 'panic':
                return 'panics'
            if writes:
                ws = [e.a[1] for e in q.evs if e.a[0] == 'write']
                if q.kind == 'err':
                    return None
                ok_ = len(ws) >= 1 and is_str(cat_all(ws), want) if isinstance(want, str) else cat_all(ws) is want
                return None if ok_ else 'prints something else than %s' % (want,)
            if isinstance(want, str):
                return None if is_str(q.val, want) else 'is not "%s"' % want
            v = q.val
            while v.op == 'vref':
                v = v.a[0]
            return None if v is want else 'is not the custom name itself'
        return f

    def cat_all(ws):
        if len(ws) == 1:
            return ws[0]
        r = EMPTY
        for w in ws:
            r = cat(r, chars_of(w))
        return of_chars(r)
    fn = ck.fn('knuffel::ast::BuiltinType::as_str')
    for i in range(n):
        ck.table(r1 + ' (%s)' % names[i], fn, ['s'], [([(s, IN(i))], prints(names[i]))])
    inner = mk('fld', s, TN, 'TypeName', '0')
    bt = mk('fld', inner, TNI, 'Builtin', '0')
    cust = mk('fld', inner, TNI, 'Custom', '0')
    for nm, wr in (('knuffel::ast::TypeName::as_str', False), ('<knuffel::ast::TypeName as std::ops::Deref>::deref', False),
                   ('<knuffel::ast::TypeName as std::fmt::Display>::fmt', True)):
        fn = ck.fn(nm)
        rows = [([(inner, IN(bi)), (bt, IN(i))], prints(names[i], wr)) for i in range(n)]
        rows.append(([(inner, IN(ci))], prints(cust, wr)))
        ck.table(r1, fn, ['s', 'f'][:fn.nargs], rows)
    # parsing
    def yields_bt(i):
        def f(q):
            if q.kind != 'ok' or not adt_is(q.val, BT) or q.val.a[1] != i:
                return 'name %s does not parse to its type' % names[i]
        return f

    def fails(q):
        if q.kind != 'err':
            return 'an unknown name is accepted'
    fn = ck.fn('<knuffel::ast::BuiltinType as std::str::FromStr>::from_str')
    rows = [([(s, ('in', frozenset([names[i]])))], yields_bt(i)) for i in range(n)]
    rows.append(([(s, ('out', frozenset(names.values())))], fails))
    ck.table(r2, fn, ['s'], rows)

    def yields_tn(i):
        def f(q):
            v = q.val
            if q.kind not in ('ok', 'ret') or not adt_is(v, TN):
                return 'does not yield a type name'
            x = v.a[3][0]
            if i is None:
                if not adt_is(x, TNI, 'Custom') or x.a[3][0] is not s:
                    return 'an unknown name is not kept verbatim'
            elif not adt_is(x, TNI, 'Builtin') or not adt_is(x.a[3][0], BT) or x.a[3][0].a[1] != i:
                return 'name %s does not parse to its type' % names[i]
        return f
    fs = [ck.fn('<knuffel::ast::TypeName as std::str::FromStr>::from_str')]
    fs += [f for f in ck.find('::from_string', 'knuffel::ast::TypeName')]
    for fn in fs:
        rows = [([(s, ('in', frozenset([names[i]])))], yields_tn(i)) for i in range(n)]
        rows.append(([(s, ('out', frozenset(names.values())))], yields_tn(None)))
        ck.table(r2, fn, ['s'], rows)
    # as_builtin / as_type / into
    r3 = 'conversions between built-in types and type names keep the type'
    ck.rule(r3)
    fn = ck.fn('knuffel::ast::TypeName::as_builtin')

    def some_bt(q):
        v = q.val
        if not adt_is(v, OPTION, 'Some'):
            return 'a built-in name is not reported as built-in'
        x = v.a[3][0]
        if x.op == 'vref':
            x = x.a[0]
        return None if x is bt else 'another type is reported'

    def none_(q):
        return None if q.val is NONE else 'a custom name is reported as built-in'
    ck.table(r3, fn, ['s'], [([(inner, IN(bi))], some_bt), ([(inner, IN(ci))], none_)])
    for fn in [ck.fn('knuffel::ast::BuiltinType::as_type')] + ck.find('Into<knuffel::ast::TypeName>>::into'):
        def tnb(q):
            v = q.val
            if adt_is(v, TN) and adt_is(v.a[3][0], TNI, 'Builtin') and v.a[3][0].a[3][0] is s:
                return None
            return 'does not wrap the same built-in type'
        ck.table(r3, fn, ['s'], [([], tnb)])
