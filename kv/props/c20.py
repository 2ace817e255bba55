from props.common import *

FLOOR = 10


def run(ck):
    p = ck.prog = lib.library()
    a, b = sym('a'), sym('b')
    S = '<knuffel::span::Spanned<T, S> as std::'

    def get(pref):
        r = [f for f in p.roots if f.split('|')[0].startswith(pref)]
        if len(r) != 1:
            raise Lost('%d definitions of %s' % (len(r), pref))
        return p.funcs[r[0]]

    def one(rule, fn, args, f):
        ck.rule(rule)
        try:
            ps = ck.paths(fn, args, split=False)
        except Unsupported as e:
            return ck.undecided(rule, fn.name, str(e))
        bad = 0
        if not ps:
            return ck.bad(rule, fn.name, 'never returns')
        for q in ps:
            m = 'panics' if q.kind == 'panic' else f(q)
            if m:
                bad += 1
                if q.notes:
                    ck.undecided(rule, fn.name, m + ' (%s)' % ', '.join(sorted(q.notes)))
                else:
                    ck.bad(rule, fn.name, m + ': ' + q.show())
        if not bad:
            ck.good(rule, fn.name, '%d paths' % len(ps))
    spans = {ss(a), ss(b)}

    def nospan(q):
        for t in [q.val] + list(q.facts) + [x for e in q.evs for x in (e.a[2] if e.a[0] == 'call' else ())]:
            for x in walk(t) if isinstance(t, T) else ():
                if x in spans:
                    return 'depends on the span'

    def same(op):
        def f(q):
            m = nospan(q)
            if m:
                return m
            want = {'eq': ('eq',), 'partial_cmp': ('partial_cmp',), 'cmp': ('cmp',)}[op]
            v = q.val
            if v.op == 'k' or v.op == 'adt':
                fs = [t for t in q.facts if t.op == 'app']
                return 'is not the result of comparing the values' if not fs else chk(fs[0]) or None
            return chk(v)

        def chk(v):
            if v.op == 'app' and v.a[0].split('<')[0].split('::')[-1].split(':')[0] in (op,) and tuple(v.a[1]) == (sv(a), sv(b)):
                return None
            if v.op in ('cmp',) and op == 'eq' and v.a[0] == 'Eq' and {v.a[1], v.a[2]} == {sv(a), sv(b)}:
                return None
            return 'is not %s of the values: %s' % (op, short(v))
        return f
    one('equality compares the values and nothing else', get(S + 'cmp::PartialEq>::eq'), ['a', 'b'], same('eq'))
    one('partial ordering compares the values and nothing else', get(S + 'cmp::PartialOrd>::partial_cmp'), ['a', 'b'], same('partial_cmp'))
    one('ordering compares the values and nothing else', get(S + 'cmp::Ord>::cmp'), ['a', 'b'], same('cmp'))

    def hsh(q):
        m = nospan(q)
        if m:
            return m
        hs = [e for e in q.evs if e.a[0] == 'hash']
        if len(hs) != len(q.evs) or len(hs) != 1 or hs[0].a[2] is not sv(a):
            return 'does not feed exactly the value to the hasher'
    one('hashing feeds the value and nothing else', get(S + 'hash::Hash>::hash'), ['a', 'h'], hsh)

    def bor(q):
        v = q.val
        while v.op == 'vref':
            v = v.a[0]
        if v is not sv(a):
            return 'does not borrow the value: ' + short(q.val)
    one('the borrowed form is the value', get(S + 'borrow::Borrow<T>>::borrow'), ['a'], bor)
    one('the borrowed form of a boxed value is its content', get('<knuffel::span::Spanned<std::boxed::Box<T>, S> as std::borrow::Borrow<T>>::borrow'), ['a'], bor)
    one('dereferencing gives the value', get(S + 'ops::Deref>::deref'), ['a'], bor)

    M = 'knuffel::span::Spanned::<T, S>::'

    def mp(q):
        if q.val is not mk('adt', SP, 0, 'Spanned', (ss(a), mk('app', 'apply', (b, sv(a))))) or len(q.calls()) != 1:
            return 'is not (same span, mapped value): ' + short(q.val)

    def mps(q):
        if q.val is not mk('adt', SP, 0, 'Spanned', (mk('app', 'apply', (b, ss(a))), sv(a))) or len(q.calls()) != 1:
            return 'is not (mapped span, same value): ' + short(q.val)
    one('map keeps the span and maps the value once', get(M + 'map::<'), ['a', 'b'], mp)
    one('map_span keeps the value and maps the span once', get(M + 'map_span::<'), ['a', 'b'], mps)

    def ca(q):
        v = q.val
        if not adt_is(v, SP):
            return 'unexpected value'
        f = adt_fields(p, v)
        if f['value'] is not sv(a):
            return 'changes the value'
        s = f['span']
        if s.op != 'app' or 'decode_span' not in s.a[0] or s.a[1][0] is not ss(a):
            return 'span is not converted from the own span'
    one('clone_as keeps the value and converts the span', get(M + 'clone_as'), ['a', 'ctx'], ca)

    def spn(q):
        v = q.val
        while v.op == 'vref':
            v = v.a[0]
        if v is not ss(a):
            return 'is not the span'
    one('span() is the span', get(M + 'span'), ['a'], spn)
    # provided comparison methods are not overridden with something else
    r = 'no other comparison or hashing method is defined'
    ck.rule(r)
    for k_ in p.roots:
        h = k_.split('|')[0]
        if h.startswith('<knuffel::span::Spanned<T, S> as std::cmp::') and h.split('::')[-1] in ('ne', 'lt', 'le', 'gt', 'ge', 'max', 'min', 'clamp'):
            fn = p.funcs[k_]
            def ov(q):
                return nospan(q)
            one(r, fn, ['a', 'b'], ov)
    ck.good(r, 'knuffel::span::Spanned')
