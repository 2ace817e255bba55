from props.common import *

FLOOR = 26
TR = 'knuffel::traits::'


def run(ck):
    p = ck.prog = lib.library()
    r = 'a smart pointer forwards every decoding operation once, with the same arguments, and returns its result unchanged'
    ck.rule(r)
    a, b = sym('a'), sym('b')
    for P in (r'std::boxed::Box<T>', r'std::sync::Arc<T>', r'std::rc::Rc<T>'):
        for tr, m, args in (('Decode', 'decode_node', ['a', 'ctx']), ('DecodeChildren', 'decode_children', ['a', 'ctx']),
                            ('DecodeScalar', 'type_check', ['a', 'ctx']), ('DecodeScalar', 'raw_decode', ['a', 'ctx']),
                            ('DecodeScalar', 'decode', ['a', 'ctx'])):
            fn = ck.impl(tr, P, m)
            ck.delegates(r, fn, args, TR + tr + '::' + m + '<T>', (a, MUT))
        for m, args, cargs in (('insert_child', ['self', 'a', 'ctx'], (MUT, a, MUT)),
                               ('insert_property', ['self', 'a', 'b', 'ctx'], (MUT, a, b, MUT))):
            fn = ck.impl('DecodePartial', P, m)
            forward_partial(ck, r, fn, args, TR + 'DecodePartial::' + m + '<T>', cargs)
    # option
    O = r'std::option::Option<T>'
    ck.rule('an optional scalar is None exactly for null')
    ck.delegates(r, ck.impl('DecodeScalar', O, 'type_check'), ['a', 'ctx'], TR + 'DecodeScalar::type_check<T>', (a, MUT))
    nul = vidx(p, LIT, 'Null')
    rest = frozenset(range(len(p.adts[LIT]['v']))) - {nul}
    for m, lit in (('raw_decode', sv(a)), ('decode', sv(mk('fld', a, VALUE, 'Value', 'literal')))):
        fn = ck.impl('DecodeScalar', O, m)
        callee = TR + 'DecodeScalar::' + m + '<T>'
        t = mk('app', callee, (a, MUT))

        def none(q, m=m):
            if q.kind != 'ok' or not adt_is(q.val, OPTION, 'None'):
                return 'null does not decode to None'
            cs = q.calls()
            if m == 'decode':
                tn = mk('fld', a, VALUE, 'Value', 'type_name')
                if [c.a[1:3] for c in cs] != [(TR + 'DecodeScalar::type_check<T>', (tn, MUT))]:
                    return 'the annotation of null is not checked exactly once'
            elif cs:
                return 'null reaches the wrapped decoder'
            if q.emits():
                return 'null is reported as an error'

        def some(q, t=t, callee=callee):
            cs = q.calls()
            if [c.a[1:3] for c in cs] != [(callee, (a, MUT))]:
                return 'does not forward to the wrapped type once'
            if q.kind == 'ok':
                if q.facts.get(t) != IN(0) or not adt_is(q.val, OPTION, 'Some') or q.val.a[3][0] is not okv(t):
                    return 'a value other than null does not decode as the wrapped type'
            elif q.kind == 'err':
                if q.facts.get(t) != IN(1) or q.val is not errv(t):
                    return 'changes the error'
            else:
                return 'panics'
            if q.emits():
                return 'reports an extra error'
        ck.table('an optional scalar is None exactly for null', fn, ['a', 'ctx'],
                 [([(lit, IN(nul))], none), ([(lit, ('in', rest))], some)])
    # spanned
    Q = r'knuffel::span::Spanned<T, Q>'
    r = 'a spanned scalar decodes as the wrapped scalar and carries the span of its literal'
    ck.rule(r)
    ck.delegates(r, ck.impl('DecodeScalar', Q, 'type_check'), ['a', 'ctx'], TR + 'DecodeScalar::type_check<T>', (a, MUT))
    dsp = TR + 'DecodeSpan::decode_span<Q>'
    for m, l in (('raw_decode', a), ('decode', mk('fld', a, VALUE, 'Value', 'literal'))):
        fn = ck.impl('DecodeScalar', Q, m)
        sp = mk('app', dsp, (ss(l), MUT))
        ck.delegates(r, fn, ['a', 'ctx'], TR + 'DecodeScalar::' + m + '<T>', (a, MUT),
                     wrap=lambda v, sp=sp: mk('adt', SP, 0, 'Spanned', (sp, v)),
                     post=lambda e, l=l: e.a[0] == 'call' and e.a[1] == dsp and e.a[2] == (ss(l), MUT))
    # vector of nodes
    r = 'a vector decodes every node once in order, reports each failure and goes on'
    ck.rule(r)
    fn = ck.impl('DecodeChildren', r'std::vec::Vec<T>', 'decode_children')
    vec(ck, r, fn)


def forward_partial(ck, r, fn, args, callee, cargs):
    try:
        ps = ck.paths(fn, args)
    except Unsupported as e:
        return ck.undecided(r, fn.name, str(e))
    t = mk('app', callee, cargs)
    n = bad = 0
    for q in ps:
        if q.kind == 'panic':
            # a shared pointer cannot be filled (documented)
            gm = [x for x in q.facts if x.op in ('app', 'get_mut') and 'get_mut' in show(x)]
            if not (gm and all(q.facts[x] == IN(0) for x in gm)):
                bad += 1
                ck.bad(r, fn.name, 'panics: ' + q.show())
            continue
        n += 1
        m = None
        if [c.a[1:3] for c in q.calls()] != [(callee, cargs)]:
            m = 'does not forward exactly once'
        elif q.emits():
            m = 'reports an extra error'
        elif q.val is not (okv(t) if q.kind == 'ok' else errv(t)):
            m = 'changes the result'
        if m:
            bad += 1
            ck.bad(r, fn.name, m + ': ' + q.show())
    if not n:
        ck.bad(r, fn.name, 'never returns')
    elif not bad:
        ck.good(r, fn.name, '%d paths' % len(ps))


def vec(ck, r, fn):
    try:
        ps = ck.paths(fn, ['nodes', 'ctx'])
    except Unsupported as e:
        return ck.undecided(r, fn.name, str(e))
    src = sym('nodes')
    c = TR + 'Decode::decode_node<T>'
    bad = 0
    seen = set()
    for q in ps:
        m = None
        if q.kind == 'panic':
            m = 'panics'
        elif q.kind == 'err':
            m = 'stops at the first failing node'
        elif not q.dirty:
            cs = seqmap(q, q.val, src)
            if cs is None:
                m = 'result is not built from all nodes in order'
            else:
                for fs, push in cs:
                    fl = {t: d for t, d in fs.items() if t.op == 'app' and t.a[0] == c}
                    if len(fl) != 1 or list(fl.values()) != [IN(0)] or push != (mk('one', okv(list(fl)[0])),):
                        m = 'an element is not the decoded node'
                    else:
                        arg = list(fl)[0].a[1][0]
                        if not is_cur(arg, src):
                            m = 'decodes something else than the current node'
                seen.add(len(cs))
        for e in q.loops():
            for rec in e.a[2]:
                calls = [x for x in rec[1] if x.a[0] == 'call']
                if len(calls) != 1 or calls[0].a[1] != c:
                    m = m or 'a node is not decoded exactly once'
                else:
                    t = mk('app', c, calls[0].a[2])
                    if dict(rec[0]).get(t) == IN(1):
                        em = [x.a[1] for x in rec[1] if x.a[0] == 'emit']
                        if em != [errv(t)]:
                            m = m or 'the error of a failing node is not reported exactly once'
        if m:
            bad += 1
            ck.bad(r, fn.name, m + ': ' + q.show())
    if not bad:
        if 1 not in seen:
            ck.bad(r, fn.name, 'no path decodes nodes')
        else:
            ck.good(r, fn.name, '%d paths' % len(ps))
