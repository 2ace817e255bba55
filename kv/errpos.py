"""Where syntax errors point: the parsers that build errors of their own, with the
text that surrounds them."""
import peg
from peg import Undecided, Defect, ALL, Conv
from terms import *
from interp import RET, iv_and, iv_not

PE = 'knuffel::errors::ParseError'
TF = 'knuffel::errors::TokenFormat'
NUM = tuple((ord(c), ord(c)) for c in sorted('+-.0123456789ABCDEF_abcdefox'))


def literal(t):
    """the text of an element that always matches the same text"""
    if t.op == 'C' and len(t.a[0]) == 1 and t.a[0][0][0] == t.a[0][0][1]:
        return chr(t.a[0][0][0])
    if t.op == 'Rep' and t.a[2] == t.a[3] and t.a[2] is not None:
        w = [literal(x[0] if isinstance(x, tuple) else x) for x in items(t.a[1])]
        if None not in w:
            return ''.join(w) * t.a[2]
    if t.op in ('SO', 'SC', 'Item', 'Not', 'And'):
        if t.op == 'Item':
            w = [literal(x) for x in t.a[1]]
            return None if None in w else ''.join(w)
        return ''
    return None


def items(x):
    return x if isinstance(x, tuple) else (x,)


def tail(e):
    """(known text at the end, is it everything)"""
    s = ''
    for x in reversed(e):
        w = literal(x)
        if w is None:
            return s, False
        s = w + s
    return s, True


def head(e):
    s = ''
    for x in e:
        w = literal(x)
        if w is None:
            return s
        s += w
    return s


class Positions(Conv):
    def __init__(self, prog):
        Conv.__init__(self, prog)
        self.before = ''
        self.wraps = []      # (closure, elements, text before)
        self.errors = []     # (closure, error, elements restricted to the case, state)

    def conv(self, P):
        while P.op == 'vref':
            P = P.a[0]
        key = (P, self.before)
        r = self.memo.get(key)
        if r is None:
            if P.op != 'P':
                raise Undecided('not a parser: ' + show(P)[:80])
            f = getattr(self, 'c_' + P.a[0], None)
            if f is None:
                raise Undecided('parser combinator ' + P.a[0])
            if P.a[0] in ('repeated', 'at_least', 'at_most', 'exactly', 'separated_by', 'take_until', 'allow_trailing', 'allow_leading'):
                keep, self.before = self.before, ''
                try:
                    r = f(*P.a[1])
                finally:
                    self.before = keep
            else:
                r = f(*P.a[1])
            self.memo[key] = r
        return self.renew(*r)

    def after(self, e, f):
        keep = self.before
        s, all_ = tail(e)
        self.before = (keep + s if all_ else s)[-16:]
        try:
            return f()
        finally:
            self.before = keep

    def c_then(self, a, b):
        ea, oa = self.conv(a)
        eb, ob = self.after(ea, lambda: self.conv(b))
        return ea + eb, tup(oa, ob)

    def c_ignore_then(self, a, b):
        e, o = self.c_then(a, b)
        return e, o.a[1]

    def c_then_ignore(self, a, b):
        e, o = self.c_then(a, b)
        return e, o.a[0]

    def c_delimited_by(self, a, l, r):
        el, _ = self.conv(l)
        e, o = self.after(el, lambda: self.conv(a))
        er, _ = self.after(el + e, lambda: self.conv(r))
        return el + e + er, o

    def c_then_with(self, a, cl):
        e, o = self.conv(a)
        if o.op == 'len' and o.a[0].op == 'plist':
            al = []
            i = o.a[0].a[0]
            for n in range(peg.MAXHASH + 1):
                e2 = peg.retimes(e, i, n)
                f, fo = self.after(e2, lambda: self.follow(cl, [k(n)], n))
                al.append((e2 + f, fo))
            return self.alt(al)
        e2, o2 = self.after(e, lambda: self.follow(cl, [o], None))
        return e + e2, tup(o, o2)

    def c_map_err_with_span(self, a, cl):
        e, o = self.conv(a)
        self.wraps.append((cl, e, self.before))
        return e, o

    def c_filter_map(self, cl):
        s = peg.fresh()
        self.sites[s] = ALL
        ch = peg.chr_(s)
        sp = mk('span', peg.fresh())
        for asg, it, st, kd, v in self.run(cl, [sp, ch]):
            if v.op == 'adt' and v.a[2] == 'Err':
                d = it.dom(st, ch)
                self.errors.append((cl, v.a[3][0], (mk('SO', sp.a[0]), peg.C(iv_and(ALL, d[1] if d else ALL), s), mk('SC', sp.a[0])), st))
        return Conv.c_filter_map(self, cl)

    def apply(self, e, cl, args, mode='map'):
        if mode in ('try', 'validate'):
            for asg, it, st, kd, v in self.run(cl, args):
                es = [x.a[1] for x in st.trace if x.a[0] == 'emit']
                if mode == 'try' and v.op == 'adt' and v.a[2] == 'Err':
                    es.append(v.a[3][0])
                if es:
                    r = self.restrict(peg.spec(e, dict(asg)), st, it)
                    if r is not None:
                        for x in es:
                            self.errors.append((cl, x, r, st))
        return Conv.apply(self, e, cl, args, mode)


def name(cl):
    return cl.a[0].split('|')[0] if cl.op == 'closure' else show(cl)[:80]


def noref(t):
    while t.op == 'vref':
        t = t.a[0]
    return t


def token(t):
    """the text of a token with fixed text"""
    t = noref(t)
    if t.op != 'adt' or t.a[0] != TF:
        return None
    x = noref(t.a[3][0]) if t.a[3] else None
    if t.a[2] == 'Char' and x.op == 'k':
        return chr(x.a[0])
    if t.a[2] == 'Token' and x.op == 'str':
        return x.a[0]
    if t.a[2] == 'OpenRaw' and x.op == 'k':
        return 'r' + '#' * x.a[0] + '"'
    if t.a[2] == 'CloseRaw' and x.op == 'k':
        return '"' + '#' * x.a[0]
    return None


def call(t, m):
    return t.op == 'app' and t.a[0].split('<')[0].split('::')[-1] == m


def fields(p, E):
    v = p.adts[E.a[0]]['v'][E.a[1]]
    return {f['n']: x for f, x in zip(v['f'], E.a[3])}


def eoi(p, st, E):
    """is E known to be an unexpected end of input: True, False, None (open)"""
    vs = [v['n'] for v in p.adts[PE]['v']]
    d = st.facts.get(E)
    ui = vs.index('Unexpected')
    if d is not None and d[0] == 'in' and ui not in d[1] or d is not None and d[0] == 'out' and ui in d[1]:
        return False
    f = st.facts.get(mk('fld', E, PE, 'Unexpected', 'found'))
    ei = [v['n'] for v in p.adts[TF]['v']].index('Eoi')
    if f is not None and (f[0] == 'in' and ei not in f[1] or f[0] == 'out' and ei in f[1]):
        return False
    if d == ('in', frozenset([ui])) and f == ('in', frozenset([ei])):
        return True
    return None


def closes(e, w):
    """does the text matched by e always end in w"""
    t, _ = tail(e)
    return t.endswith(w)


def wrap(p, conv, cl, e, before):
    """problem with an error wrapper, or None"""
    E, S = mk('sym', 'e'), mk('sym', 'span')
    it, outs = conv.interp(cl, [E, S], set())
    n = 0
    for st, kd, v in outs:
        if kd != RET:
            return 'the closure panics', n
        if v is E or v.op == 'upd' and v.a[0] is E and v.a[2] != 'span':
            x = eoi(p, st, E)
            if x is False:
                continue
            opener = head(e)
            # the opener itself may be what is missing
            lens = [d for t, d in st.facts.items() if call(t, 'length')]
            if opener and len(lens) == 1 and lens[0][0] == 'iv' and lens[0][1][-1][1] < len(opener.encode()):
                continue
            if not opener and x and e and not lens and not st.facts.keys() - {E, mk('fld', E, PE, 'Unexpected', 'found')} and n == 0 and all(
                    o[2] is E for o in outs):
                return None, 0        # leaves errors alone
            if all(o[2].op == 'upd' or o[2] is E for o in outs):
                return None, 0        # only changes expectations
            return 'an end of input is not always reported as the unclosed delimiter', n
        if v.op == 'adt' and v.a[0] == PE and v.a[2] == 'Unclosed':
            n += 1
            if eoi(p, st, E) is not True:
                return 'reports an unclosed delimiter where something else was found', n
            f = fields(p, v)
            op, cz = token(f['opened']), token(f['expected'])
            if op is None or cz is None:
                raise Undecided('the delimiters %s %s' % (show(f['opened']), show(f['expected'])))
            at = f['opened_at']
            if at.op == 'app' and len(at.a[1]) == 2 and noref(at.a[1][0]) is S and noref(at.a[1][1]).op == 'k':
                m = noref(at.a[1][1]).a[0]
                if call(at, 'at_start'):
                    if m != len(op) or not head(e).startswith(op):
                        return 'the opening delimiter %s is said to be the first %d characters of %r…' % (op, m, head(e)), n
                elif call(at, 'before_start'):
                    if m != len(op) or not before.endswith(op):
                        return 'the opening delimiter %s is said to be the %d characters after …%r' % (op, m, before), n
                else:
                    raise Undecided('position ' + show(at)[:80])
            elif at is S or call(at, 'at_end') or (call(at, 'at_start') or call(at, 'before_start')) and any(
                    call(x, 'length') and noref(x.a[1][0]) is S for x in walk(at.a[1][1])):
                return 'the opening delimiter is said to be at %s' % show(at)[:80], n
            else:
                raise Undecided('position ' + show(at)[:80])
            ea = f['expected_at']
            if not (call(ea, 'at_end') and noref(ea.a[1][0]) is S):
                if ea is S or call(ea, 'at_start') or call(ea, 'before_start'):
                    return 'the closing delimiter is expected at %s' % show(ea)[:80], n
                raise Undecided('position ' + show(ea)[:80])
            if not closes(e, cz):
                return 'the closing delimiter is said to be %s' % cz, n
            fd = noref(f['found'])
            if not (fd.op == 'adt' and fd.a[2] == 'Eoi') and fd is not mk('fld', E, PE, 'Unexpected', 'found'):
                return 'the error says that %s was found' % show(fd)[:60], n
            continue
        if v.op == 'adt' and v.a[0] == PE:
            f = fields(p, v)
            sp = f.get('span')
            if sp is not None and sp is not S and sp is not mk('fld', E, PE, v.a[2], 'span'):
                raise Undecided('error at ' + show(sp)[:80])
            continue
        raise Undecided('error becomes ' + show(v)[:120])
    return None, n


def inside(e, s):
    """the elements between the marks of region s, None if it is not there"""
    def go(q):
        for i, t in enumerate(q):
            if t.op == 'SO' and t.a[0] == s:
                for j in range(i, len(q)):
                    if q[j].op == 'SC' and q[j].a[0] == s:
                        return q[i + 1:j]
                return None
            for a in t.a:
                if isinstance(a, tuple):
                    subs = a if a and isinstance(a[0], tuple) else (a,)
                    for x in subs:
                        if x and isinstance(x[0], T):
                            r = go(x)
                            if r is not None:
                                return r
        return None
    return go(tuple(e))


def chars(e):
    """classes of the characters consumed, None in front of lookahead"""
    out = []

    def go(q):
        for t in q:
            if t.op == 'C':
                out.append(t.a[0])
            elif t.op in ('And', 'Not', 'Mon'):
                continue
            else:
                for a in t.a:
                    if isinstance(a, tuple):
                        for x in (a if a and isinstance(a[0], tuple) else (a,)):
                            if x and isinstance(x[0], T):
                                go(x)
    go(e)
    return out


def within(cs, iv):
    return all(iv_and(c, iv_not(iv)) == () for c in map(tuple, cs))


def only(text):
    from peg import iv_of_chars
    return iv_of_chars(''.join(sorted(set(text))))


def error(p, conv, cl, E, e, st):
    """problem with an error a parser builds itself, or None"""
    if E.op != 'adt' or E.a[0] != PE:
        raise Undecided('error ' + show(E)[:80])
    f = fields(p, E)
    sp = noref(f.get('span', f.get('opened_at')))
    if sp.op != 'span':
        return 'the error points at %s' % show(sp)[:80]
    r = inside(e, sp.a[0])
    if r is None:
        raise Undecided('the error points at %s' % show(sp)[:80])
    cs = chars(r)
    if not cs:
        return None
    fd = noref(f['found']) if 'found' in f else None
    lb = noref(f['label']) if 'label' in f else None
    lb = noref(lb.a[3][0]) if lb is not None and lb.op == 'adt' and lb.a[2] == 'Some' else lb
    lb = lb.a[0] if lb is not None and lb.op == 'str' else ''
    what = None
    if fd is not None and fd.op == 'adt':
        if fd.a[2] == 'Char':
            x = noref(fd.a[3][0])
            if x.op == 'chr' and not any(t.op == 'C' and t.a[1] == x.a[0] for t in r):
                return 'the character found is not the one pointed at'
            return None
        if fd.a[2] == 'Kind':
            what = noref(fd.a[3][0]).a[0]
    what = what or (lb if fd is None else '')
    if 'number' in what and not within(cs, NUM):
        return 'the text pointed at is not a number'
    if 'keyword' in what and not within(cs, only('nulltruefalse')):
        return 'the text pointed at is not a keyword'
    if 'identifier' in what and any(tuple(c) == ((61, 61),) for c in cs):
        return 'the text pointed at is not an identifier'
    return None
