from props.common import *

FLOOR = 22
SPAN = 'knuffel::span::Span'
LSPAN = 'knuffel::span::LineSpan'
LPOS = 'knuffel::span::LinePos'
NL = (0x0A, 0x0D, 0x0C, 0x85, 0x2028, 0x2029)
GRID = (0, 1, 2, 5, 9)


def run(ck):
    p = ck.prog = lib.library()
    a, b = sym('a'), sym('b')

    def get(ty, trait, m):
        import re
        r = [k_ for k_ in p.roots if k_.split('|')[0].split('::')[-1] == m and trait in k_.split('|')[0] and
             re.search(r'(<|for )%s( as |>::)' % re.escape(ty), k_.split('|')[0])]
        if len(r) != 1:
            raise Lost('%d definitions of %s::%s for %s' % (len(r), trait, m, ty))
        return p.funcs[r[0]]

    def paths(rule, fn, argn):
        ck.rule(rule)
        try:
            ps = ck.paths(fn, argn, split=False)
        except Unsupported as e:
            ck.undecided(rule, fn.name, str(e))
            return None
        if not ps:
            ck.bad(rule, fn.name, 'never returns')
            return None
        return ps

    def leaf(ty, i, part=None):
        x = mk('fld', a, ty, ty.split('::')[-1], str(i))
        if part:
            x = mk('fld', x, LPOS, 'LinePos', part)
        return x

    def pos(v, part):
        """component of a position term"""
        if v.op == 'adt':
            if v.a[0] == LPOS:
                return adt_fields(p, v)[part]
            return None
        if v.op in ('fld', 'upd'):
            return fieldof(v, LPOS, 'LinePos', part)
        return None

    def ends(ty, v):
        if v.op == 'adt' and v.a[0] == ty:
            return v.a[3]
        if v is a:
            return (leaf(ty, 0), leaf(ty, 1))
        return None

    def arith(rule, fn, argn, ty, comps, want, valid=lambda e: True):
        """comps(value) -> {name: term}; want(env)-> {name: int}; all over a grid"""
        ps = paths(rule, fn, argn)
        if ps is None:
            return
        bad = None
        n = 0
        import itertools
        if ty == SPAN:
            leaves = {'s': leaf(ty, 0), 'e': leaf(ty, 1)}
        else:
            leaves = {'s': leaf(ty, 0, 'offset'), 'e': leaf(ty, 1, 'offset'), 'sl': leaf(ty, 0, 'line'), 'el': leaf(ty, 1, 'line'),
                      'sc': leaf(ty, 0, 'column'), 'ec': leaf(ty, 1, 'column')}
        names = list(leaves) + (['n'] if len(argn) > 1 else [])
        for vals in itertools.product(GRID, repeat=len(names)):
            e = dict(zip(names, vals))
            if e['s'] > e['e'] or not valid(e):
                continue
            env = {leaves[x]: e[x] for x in leaves}
            if 'n' in e:
                env[b] = e['n']
            hit = 0
            for q in ps:
                if not holds(q, env):
                    continue
                hit += 1
                if q.kind == 'panic':
                    bad = ('panics', q)
                    break
                try:
                    cs = comps(q.val)
                    if cs is None:
                        bad = ('unexpected value', q)
                        break
                    w = want(e)
                    for x in w:
                        v = evaln(cs[x], env) if cs.get(x) is not None else None
                        if v is None:
                            ck.undecided(rule, fn.name, 'cannot evaluate ' + short(q.val))
                            return
                        if v != w[x]:
                            bad = ('%s is %d instead of %d for %s' % (x, v, w[x], e), q)
                except Overflow as o:
                    bad = ('overflows for %s' % e, q)
                if bad:
                    break
            if bad:
                break
            if hit:
                n += 1
            if not hit:
                bad = ('no path for %s' % e, ps[0])
                break
        if bad:
            ck.bad(rule, fn.name, bad[0] + ': ' + bad[1].show())
        else:
            ck.good(rule, fn.name, '%d paths, %d grid points of the extracted formulas' % (len(ps), n))

    def span_comps(ty):
        def f(v):
            en = ends(ty, v)
            if en is None:
                return None
            if ty == SPAN:
                return {'s': en[0], 'e': en[1]}
            return {x + y[0] if y != 'offset' else x: pos(t, y) for x, t in (('s', en[0]), ('e', en[1])) for y in ('offset', 'line', 'column')}
        return f
    SL = 'knuffel::traits::sealed::Sealed'
    for ty in (SPAN, LSPAN):
        line = ty == LSPAN
        sc = span_comps(ty)
        ok = (lambda e: e['sl'] <= e['el']) if line else (lambda e: True)
        arith('at_start covers the first n characters', get(ty, SL, 'at_start'), ['a', 'b'], ty, sc,
              lambda e: dict({'s': e['s'], 'e': e['s'] + e['n']}, **({'sl': e['sl'], 'el': e['sl'], 'sc': e['sc'], 'ec': e['sc'] + e['n']} if line else {})), ok)
        arith('at_end is the empty position after the element', get(ty, SL, 'at_end'), ['a'], ty, sc,
              lambda e: dict({'s': e['e'], 'e': e['e']}, **({'sl': e['el'], 'el': e['el'], 'sc': e['ec'], 'ec': e['ec']} if line else {})), ok)
        arith('before_start covers the n characters before the element, clamped at the start of the text', get(ty, SL, 'before_start'), ['a', 'b'], ty, sc,
              lambda e: dict({'s': max(0, e['s'] - e['n']), 'e': e['s']}, **({'sl': e['sl'], 'el': e['sl'], 'sc': max(0, e['sc'] - e['n']), 'ec': e['sc']} if line else {})), ok)
        arith('length is the distance of the offsets', get(ty, SL, 'length'), ['a'], ty, lambda v: {'len': v}, lambda e: {'len': e['e'] - e['s']}, ok)

        def ss_comps(v):
            if v.op == 'adt' and v.a[0].endswith('SourceSpan') and len(v.a[3]) == 2:
                return {'off': v.a[3][0], 'len': v.a[3][1]}
            if v.op == 'app' and len(v.a[1]) == 2:
                return {'off': v.a[1][0], 'len': v.a[1][1]}
            return None
        arith('conversion to a report span keeps offset and length', get(ty, 'std::convert::Into<miette::SourceSpan>', 'into'), ['a'], ty,
              ss_comps, lambda e: {'off': e['s'], 'len': e['e'] - e['s']}, ok)
        # chumsky's view
        r = 'the parser library sees start and end of the span unchanged'
        for m, want in (('start', leaf(ty, 0)), ('end', leaf(ty, 1))):
            fn = get(ty, 'chumsky::Span', m)
            ps = paths(r, fn, ['a'])
            if ps:
                b_ = [q for q in ps if q.val is not want]
                ck.bad(r, fn.name, b_[0].show()) if b_ else ck.good(r, fn.name)
        fn = get(ty, 'chumsky::Span', 'new')
        ps = paths(r, fn, ['c', 'b'])
        if ps:
            R = 'std::ops::Range'
            st = {mk('fld', b, R, 'Range', 'start'), mk('app', 'span_start', (b,)), mk('span_start', b)}
            en = {mk('fld', b, R, 'Range', 'end'), mk('app', 'span_end', (b,)), mk('span_end', b)}
            b_ = [q for q in ps if not (adt_is(q.val, ty) and q.val.a[3][0] in st and q.val.a[3][1] in en)]
            ck.bad(r, fn.name, b_[0].show()) if b_ else ck.good(r, fn.name)
        tracker(ck, p, ty, line, get, paths, pos)
    arith('conversion of a line span to a plain span keeps the offsets',
          get(SPAN, 'DecodeSpan<knuffel::span::LineSpan>', 'decode_span'), ['a', 'ctx'], LSPAN,
          lambda v: {'s': v.a[3][0], 'e': v.a[3][1]} if adt_is(v, SPAN) else None, lambda e: {'s': e['s'], 'e': e['e']})
    # the stream feeds every character once, with its own position
    r = 'the token stream pairs each character with the position the tracker gives it'
    fn = get('knuffel::traits::sealed::Map<I, T>', 'std::iter::Iterator', 'next')
    ps = paths(r, fn, ['self'])
    if ps:
        bad = None
        some = 0
        for q in ps:
            if q.kind == 'panic':
                bad = ('panics', q)
            elif adt_is(q.val, OPTION, 'None'):
                if q.calls():
                    bad = ('advances the tracker at the end', q)
            elif adt_is(q.val, OPTION, 'Some'):
                some += 1
                cs = q.calls()
                v = q.val.a[3][0]
                if len(cs) != 1 or not cs[0].a[1].split('<')[0].endswith('SpanTracker::next_span'):
                    bad = ('the tracker is not advanced exactly once', q)
                else:
                    el = v.a if len(v.a) == 2 else v.a[0]
                    if v.op != 'tup' or el[0] is not cs[0].a[2][1] or el[1] is not mk('app', cs[0].a[1], cs[0].a[2]):
                        bad = ('pairs the character with something else', q)
                    elif el[0].op != 'elem' or el[0].a[1] is not k(0):
                        if show(el[0]) != 'elem(items(self.0), 0)':
                            bad = ('does not take the next character', q)
            else:
                bad = ('unexpected value', q)
            if bad:
                break
        if bad:
            ck.bad(r, fn.name, bad[0] + ': ' + bad[1].show())
        elif not some:
            ck.bad(r, fn.name, 'never yields a character')
        else:
            ck.good(r, fn.name)


def tracker(ck, p, ty, line, get, paths, pos):
    import re
    r0 = 'the token stream starts at position zero and ends at the length of the text'
    fn = get(ty, 'knuffel::traits::sealed::Sealed', 'stream')
    ps = paths(r0, fn, ['text'])
    trk = None
    init = None
    if ps:
        bad = None
        for q in ps:
            v = q.val
            m = None
            if q.kind == 'panic':
                m = 'panics'
            elif v.op != 'stream' and not (v.op == 'app' and v.a[0] == 'stream'):
                ck.undecided(r0, fn.name, 'unexpected stream ' + short(v))
                return
            else:
                x = v.a if v.op == 'stream' else v.a[1]
                eoi, mp = x[0], x[1]
                ln = mk('len', sym('text'))
                es = eoi.a[3] if adt_is(eoi, ty) else (None, None)
                if line:
                    es = tuple(pos(y, 'offset') if y is not None else None for y in es)
                if es != (ln, ln):
                    m = 'the end of input is not at the length of the text'
                elif not mp.op == 'adt' or len(mp.a[3]) != 2:
                    m = 'unexpected token source'
                elif show(mp.a[3][0]) != "it(chars(text), (0, 'at', 0), 'val', 0)":
                    m = 'does not feed all characters of the text in order: ' + short(mp.a[3][0])
                else:
                    init = mp.a[3][1]
            if m:
                bad = (m, q)
        if bad:
            ck.bad(r0, fn.name, bad[0] + ': ' + bad[1].show())
            return
        ck.good(r0, fn.name, '%d paths' % len(ps))
    if init is None or init.op != 'adt':
        ck.undecided(r0, fn.name, 'tracker state unknown')
        return
    trk = init.a[0]
    ini = adt_fields(p, init)
    rule = 'the tracker gives each character its own start and end position'
    fns = [k_ for k_ in p.roots if k_.split('|')[0].endswith('::next_span') and ('for ' + trk + '>') in k_.split('|')[0] or
           k_.split('|')[0].startswith('<' + trk + ' as') and k_.split('|')[0].endswith('::next_span')]
    if len(fns) != 1:
        raise Lost('%d trackers %s' % (len(fns), trk))
    fn = p.funcs[fns[0]]
    ps = paths(rule, fn, ['self', 'c'])
    if ps is None:
        return
    self_, c = sym('self'), sym('c')
    vn = trk.split('::')[-1]

    # which field plays which role: from the start position returned
    role = {}
    for q in ps:
        if q.kind == 'panic':
            ck.bad(rule, fn.name, 'panics: ' + q.show())
            return
        if not adt_is(q.val, ty):
            ck.bad(rule, fn.name, 'unexpected value: ' + q.show())
            return
        s = q.val.a[3][0]
        cs = {'offset': s} if not line else {x: pos(s, x) for x in ('offset', 'line', 'column')}
        for x, t in cs.items():
            if t is None or t.op != 'fld' or t.a[0] is not self_:
                ck.bad(rule, fn.name, 'the start %s is not the tracked one: %s' % (x, q.show()))
                return
            role.setdefault(x, t)
            if role[x] is not t:
                ck.bad(rule, fn.name, 'the start %s varies: %s' % (x, q.show()))
                return
    if len(set(role.values())) != len(role):
        ck.bad(rule, fn.name, 'two components share one counter')
        return
    for x, t in role.items():
        z = ini.get(t.a[3])
        if z is None or z.op != 'k' or z.a[0] != 0:
            ck.bad(r0, fn.name, 'initial %s is not zero' % x)
            return
    rest = [f for f in p.fnames(trk, 0) if f not in {t.a[3] for t in role.values()}]
    flag = None
    if line:
        if len(rest) == 1 and [f['t'] for f in p.adts[trk]['v'][0]['f'] if f['n'] == rest[0]] == ['bool']:
            flag = mk('fld', self_, trk, vn, rest[0])
        else:
            ck.undecided(rule, fn.name, 'tracker state %s not understood' % rest)
            return
        z = ini[rest[0]]
        if z.op != 'k' or z.a[0]:
            ck.bad(r0, fn.name, 'starts as if behind a carriage return')
            return
    w = [t for q in ps for t in q.facts if 'width' in show(t) and c in walk(t)]
    cls = [('newline', [x]) for x in NL] + [('tab', [9])] + [('other', [0x20, 0x41, 0, 0xb, 0x1f, 0xe9, 0x84, 0x86, 0x2027, 0x202a, 0x4e2d, 0x1f600, 0x10ffff, 0xd7ff, 0xe000, 0x300])]
    import itertools
    bad = None
    n = 0
    for kind, cps in cls:
        for cp in cps:
            for fl in ((False, True) if line else (False,)):
                lens = 1 if cp < 0x80 else 2 if cp < 0x800 else 3 if cp < 0x10000 else 4
                for wd in (None, 0, 1, 2) if kind == 'other' and line else (1,):
                    env = {c: cp, mk('app', 'len_utf8', (c,)): lens, mk('len_utf8', c): lens}
                    env[role['offset']] = 100
                    if line:
                        env[role['line']] = 7
                        env[role['column']] = 30
                        env[flag] = fl
                    for t in {x for q in ps for y in list(q.facts) + [q.val] for x in walk(y)}:
                        if t.op in ('width', 'app') and 'width' in (t.op if t.op != 'app' else t.a[0]) and \
                                (t.a[0] is c or t.op == 'app' and t.a[1] == (c,)):
                            env[t] = 0 if wd is None else 1
                            if wd is not None:
                                env[somev(t)] = wd
                    want = {'offset': 100 + lens}
                    if line:
                        want.update(line=7, column=30)
                        if kind == 'newline':
                            if not (cp == 0x0A and fl):
                                want.update(line=8, column=0)
                        elif kind == 'tab':
                            want['column'] += 8
                        else:
                            want['column'] += wd or 0
                    hit = 0
                    for q in ps:
                        if not holds(q, env):
                            continue
                        hit += 1
                        e = q.val.a[3][1]
                        st = q.st.mem.get(('A', 0))
                        for x in want:
                            t = e if not line else pos(e, x)
                            got = evaln(t, env) if t is not None else None
                            t2 = fieldof(st, trk, vn, role[x].a[3])
                            got2 = evaln(t2, env) if t2 is not None else None
                            if got is None or got2 is None:
                                ck.undecided(rule, fn.name, 'cannot evaluate %s: %s' % (x, q.show()))
                                return
                            if got != want[x]:
                                bad = ('the end %s of U+%04X is wrong' % (x, cp), q)
                            elif got2 != want[x]:
                                bad = ('the tracked %s after U+%04X is wrong' % (x, cp), q)
                        if line:
                            f2 = fieldof(st, trk, vn, rest[0])
                            g = evaln(f2, env) if f2 is not None else None
                            if g is None:
                                ck.undecided(rule, fn.name, 'cannot evaluate carriage return state')
                                return
                            if bool(g) != (cp == 0x0D):
                                bad = ('the carriage return state after U+%04X is wrong' % cp, q)
                    n += 1
                    if not hit:
                        bad = ('no path for U+%04X' % cp, ps[0])
                    if bad:
                        ck.bad(rule, fn.name, bad[0] + ': ' + bad[1].show())
                        return
    # the character classes of the paths are exactly the ones above
    if line:
        for q in ps:
            d = q.facts.get(c)
            if d is None or d[0] != 'iv':
                continue
            pts = {x for iv in d[1] for x in iv}
            odd = [x for iv in d[1] for x in iv if not any(abs(x - y) <= 1 for y in (0, 8, 9, 10, 11, 12, 13, 0x84, 0x85, 0x2027, 0x2028, 0x2029, 0x202a, 0xd7ff, 0xe000, 0x10ffff))]
            for x in odd:
                env = {c: x, mk('app', 'len_utf8', (c,)): 1, mk('len_utf8', c): 1, role['offset']: 0, role['line']: 7, role['column']: 30, flag: False}
                # an additional special case: it must behave as any other character
                e = q.val.a[3][1]
                t = pos(e, 'line')
                if evaln(t, env) != 7:
                    ck.bad(rule, fn.name, 'U+%04X is treated as a newline: %s' % (x, q.show()))
                    return
                col = pos(e, 'column')
                if not any('width' in show(y) for y in walk(col)) and not any('width' in show(y) for y in q.facts):
                    wc = evaln(col, env)
                    ck.undecided(rule, fn.name, 'column of U+%04X does not come from its width' % x) if not 0x20 <= x < 0x7f or wc != 31 else None
    ck.good(rule, fn.name, '%d paths, %d cases' % (len(ps), n))
