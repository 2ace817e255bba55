from props.common import *

FLOOR = 34


def run(ck):
    p = ck.prog = lib.library()
    own = {}
    for t in INTS:
        own[t] = ('Int', t)
    for t in FLOATS:
        own[t] = ('Decimal', t)
    for n, t in STRS.items():
        own[n] = ('String', t)
    own['bool'] = ('Bool', 'bool')
    val = sym('val')
    lit = sv(val)
    ra = 'a clean Ok comes only from the own literal kind and is that value'
    rb = 'a literal of the own kind fails only if the standard conversion fails'
    ck.rule(ra)
    ck.rule(rb)
    for name, (kind, ty) in own.items():
        fn = ck.impl('DecodeScalar', ty, 'raw_decode')
        ki = vidx(p, LIT, kind)
        try:
            ps = ck.paths(fn, ['val', 'ctx'])
        except Unsupported as e:
            ck.undecided(ra, fn.name, str(e))
            continue
        content = lit_field(lit, kind)
        na = nb = 0
        okpaths = 0
        for q in ps:
            if q.kind == 'panic':
                ck.bad(ra, fn.name, 'panics: ' + q.show())
                na += 1
                continue
            d = q.facts.get(lit)
            if clean(q):
                okpaths += 1
                m = None
                if not implied(d, IN(ki)):
                    m = 'accepts a literal that is not of kind ' + kind
                elif kind in ('String', 'Bool'):
                    if q.val is not content:
                        m = 'the value is not the content of the literal'
                else:
                    dig = mk('fld', content, INTEGER, 'Integer', '1') if kind == 'Int' else \
                        mk('fld', content, DECIMAL, 'Decimal', '0')
                    v = q.val
                    if not (v.op == 'fld' and v.a[1] == RESULT and v.a[2] == 'Ok' and
                            parse_of(v.a[0], ty, dig) is not None):
                        m = 'the value is not the standard reading of the literal'
                    elif q.facts.get(v.a[0]) != IN(0):
                        m = 'the conversion is not known to have succeeded'
                if m:
                    na += 1
                    if q.notes:
                        ck.undecided(ra, fn.name, m + ': ' + q.show())
                    else:
                        ck.bad(ra, fn.name, m + ': ' + q.show())
            else:
                if dom_ok(d, IN(ki)):
                    fl = [t for t in failed_apps(q)]
                    if kind in ('String', 'Bool') or not fl:
                        nb += 1
                        ck.bad(rb, fn.name, 'rejects a literal of its own kind: ' + q.show())
        if not okpaths:
            na += 1
            ck.bad(ra, fn.name, 'no path accepts anything')
        if not na:
            ck.good(ra, fn.name, '%d paths' % len(ps))
        if not nb:
            ck.good(rb, fn.name, '%d paths' % len(ps))
