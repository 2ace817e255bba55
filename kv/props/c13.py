from props.common import *

FLOOR = 24


def run(ck):
    p = ck.prog = lib.library()
    r1 = 'digits are read in the radix of the literal with the checked standard parser of the target type'
    r2 = 'a failing conversion is an error and never a value'
    ck.rule(r1)
    ck.rule(r2)
    val = sym('val')
    rad = {vidx(p, 'knuffel::ast::Radix', n): v for n, v in RADIX.items()}
    if len(p.adts['knuffel::ast::Radix']['v']) != 4:
        ck.bad(r1, 'knuffel::ast::Radix', 'unexpected set of radixes')
    for ty in INTS + FLOATS:
        isint = ty in INTS
        src = 'Integer' if isint else 'Decimal'
        cands = []
        for f in p.funcs.values():
            if f.key in p.rootset and 'TryFrom<&knuffel::ast::%s> for %s>::try_from' % (src, ty) in f.key:
                cands.append((f, ['val'], val, None))
        if len(cands) != 1:
            raise Missing('TryFrom<&%s> for %s' % (src, ty))
        fn = ck.impl('DecodeScalar', ty, 'raw_decode')
        kind = 'Int' if isint else 'Decimal'
        cands.append((fn, ['val', 'ctx'], lit_field(sv(val), kind), vidx(p, LIT, kind)))
        for fn, args, num, ki in cands:
            try:
                ps = ck.paths(fn, args)
            except Unsupported as e:
                ck.undecided(r1, fn.name, str(e))
                continue
            nb = 0
            seen = set()
            for q in ps:
                if ki is not None and not dom_ok(q.facts.get(sv(val)), IN(ki)):
                    continue
                if isint:
                    dig = mk('fld', num, INTEGER, 'Integer', '1')
                    rt = mk('fld', num, INTEGER, 'Integer', '0')
                    rd = q.facts.get(rt)
                    rs = [i for i in rad if dom_ok(rd, IN(i))]
                else:
                    dig = mk('fld', num, DECIMAL, 'Decimal', '0')
                    rs = [None]
                m = None
                if clean(q):
                    v = q.val
                    if not (v.op == 'fld' and v.a[1] == RESULT and v.a[2] == 'Ok'):
                        m = 'the value is not the outcome of a checked conversion'
                    else:
                        x = parse_of(v.a[0], ty, dig)
                        if x is None:
                            m = 'the value is not the standard reading of the digits'
                        elif q.facts.get(v.a[0]) != IN(0):
                            m = 'the conversion is not known to have succeeded'
                        elif isint:
                            for i in rs:
                                seen.add(i)
                                if rad[i] != x:
                                    m = 'radix %d literal is read in radix %d' % (rad[i], x)
                elif q.kind == 'panic':
                    m = 'panics'
                else:
                    fl = failed_apps(q)
                    good = [t for t in fl if parse_of(t, ty, dig) is not None or
                            any(parse_of(t, w, dig) is not None for w in RANGE)]
                    if not good:
                        m = 'rejected although no conversion failed'
                    elif isint:
                        for t in good:
                            x = next(z for z in [parse_of(t, w, dig) for w in RANGE] if z is not None)
                            for i in rs:
                                if rad[i] != x:
                                    m = 'radix %d literal is read in radix %d' % (rad[i], x)
                if m:
                    nb += 1
                    (ck.undecided if q.notes else ck.bad)(r1, fn.name, m + ': ' + q.show())
            if isint and not nb and seen != set(rad):
                nb += 1
                ck.bad(r1, fn.name, 'no successful path for some radix')
            if not nb:
                ck.good(r1, fn.name, '%d paths' % len(ps))
