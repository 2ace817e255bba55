from props.common import *
import props.derived as derived

FLOOR = 90
ERR = 'knuffel::errors::'
KW = {'Int': 'int', 'Decimal': 'dec', 'String': 'str', 'Bool': 'bool', 'Null': 'null'}
BUILTIN = {'i8': 'I8', 'u8': 'U8', 'i16': 'I16', 'u16': 'U16', 'i32': 'I32', 'u32': 'U32', 'i64': 'I64',
           'u64': 'U64', 'isize': 'Isize', 'usize': 'Usize', 'f32': 'F32', 'f64': 'F64'}


def enum(prog, path, n):
    """the unit variant n of an enum"""
    i = vidx(prog, path, n)
    return mk('adt', path, i, n, ())


def adt(t, path, vn=None):
    return t.op == 'adt' and t.a[0] == path and (vn is None or t.a[2] == vn)


def noref(t):
    while t.op in ('vref', 'str_ref') and len(t.a) == 1 and isinstance(t.a[0], T):
        t = t.a[0]
    return t


def text(t):
    t = noref(t)
    return t.a[0] if t.op == 'str' else None


def message(v):
    """the pieces of a formatted text: literal strings and displayed terms;
    None if the format is not understood"""
    v = noref(v)
    if v.op == 'str':
        return [v.a[0]]
    if v.op == 'app' and v.a[0] == 'format' and len(v.a[1]) == 1:
        return message(v.a[1][0])
    if v.op == 'format':
        return message(v.a[0])
    if v.op == 'k':
        return [chr(v.a[0])] if v.a[1] == 'char' else None
    name, args = (v.a[0], v.a[1]) if v.op == 'app' else (v.op, v.a)
    if name != 'fmtargs':
        return [v]
    tpl, fa = noref(args[0]), noref(args[1])

    def items(x):
        if x.op in ('list', 'arr', 'array', 'tup', 'bytes'):
            y = x.a
            return list(y[0]) if len(y) == 1 and isinstance(y[0], (tuple, bytes)) else list(y)
        if x.op == 'seq':
            return [noref(e.a[0]) if e.op == 'one' else None for e in x.a]
        return None
    bs, fs = items(tpl), items(fa)
    if bs is None or fs is None:
        return None
    bs = [b if isinstance(b, int) else b.a[0] if isinstance(b, T) and b.op == 'k' else None for b in bs]
    out, i, n = [], 0, 0
    while i < len(bs):
        b = bs[i]
        if b is None:
            return None
        i += 1
        if b == 0:
            break
        if b == 0xc0:
            f = noref(fs[n])
            n += 1
            if f.op == 'app' and f.a[0] == 'farg:display':
                out += message(f.a[1][0]) or [f]
            elif f.op.startswith('farg:display'):
                out += message(f.a[0]) or [f]
            else:
                out.append(f)
        elif b < 0x80:
            if any(x is None for x in bs[i:i + b]):
                return None
            out.append(bytes(bs[i:i + b]).decode('utf-8', 'replace'))
            i += b
        else:
            return None
    return out


def found_name(p, q, fd, tn):
    """`fd` is Some of the type name tn on this path"""
    if not adt(fd, OPTION, 'Some'):
        return False
    return same(p, q.facts, fd.a[3][0], tn)


class Rule:
    def __init__(self, ck, text):
        self.ck, self.text = ck, text
        ck.rule(text)

    def each(self, fn, argn, judge, opaque=None, need=1):
        """judge every path; judge returns None (fine), a message, or False (not concerned)"""
        ck = self.ck
        try:
            ps = ck.paths(fn, argn, opaque=opaque)
        except Unsupported as e:
            return ck.undecided(self.text, fn.name, str(e))
        nb = hit = 0
        for q in ps:
            m = judge(q)
            if m is False:
                continue
            hit += 1
            if m:
                nb += 1
                if q.notes or m[:1] == '?':
                    ck.undecided(self.text, fn.name, m + ': ' + q.show())
                else:
                    ck.bad(self.text, fn.name, m + ': ' + q.show())
        if nb:
            return
        if hit < need:
            ck.bad(self.text, fn.name, 'no path reports an error')
        else:
            ck.good(self.text, fn.name, '%d paths, %d with errors' % (len(ps), hit))


def run(ck):
    p = ck.prog = lib.library()
    types(ck, p)
    byt(ck, p)
    constructors(ck, p)
    wording(ck, p)
    labels(ck, p)
    syntax(ck, p)
    derived.check(ck, 'C11')


def errs(q):
    return q.emits() + ([q.val] if q.kind == 'err' else [])


def scalar_error(p, q, E, lit, span, kind, tys=()):
    """E describes the failure to read the literal"""
    if not adt(E, DE):
        return 'reports %s' % short(E, 160)
    f = adt_fields(p, E)
    if E.a[2] in ('Conversion', 'ScalarKind') and f['span'] is not span:
        return 'the error points at %s' % short(f['span'], 160)
    if E.a[2] == 'ScalarKind':
        d = q.facts.get(lit)
        k_ = f['found']
        if k_.op != 'adt':
            return '?the kind found is %s' % short(k_)
        if not implied(d, IN(vidx(p, LIT, k_.a[2]))):
            return 'the literal is described as %s' % k_.a[2]
        ex = f['expected']
        if ex.op == 'adt' and len(ex.a[3]) == 1:
            ex = ex.a[3][0]
        if not adt(ex, KIND, kind):
            return 'the error expects %s' % short(ex)
        if k_.a[2] == kind:
            return 'the literal is of the kind expected'
        return None
    if E.a[2] == 'Conversion':
        e = f['source']
        while e.op in ('box', 'vref') or e.op == 'app' and len(e.a[1]) == 1 and e.a[0].split('<')[0].split('::')[-1] in ('from', 'into', 'new'):
            e = e.a[0] if e.op != 'app' else e.a[1][0]
        if not any(x.op == 'fld' and x.a[1] == RESULT and x.a[2] == 'Err' and q.facts.get(x.a[0]) == IN(1) for x in walk(e)):
            return 'the error does not carry the reason of the failed conversion'
        return None
    return 'reports %s' % short(E, 160)


def type_error(p, q, E, tn, expected, names):
    if not adt(E, DE, 'TypeName'):
        return 'reports %s' % short(E, 160)
    f = adt_fields(p, E)
    if f['span'] is not ss(tn):
        return 'the error points at %s' % short(f['span'], 160)
    if not found_name(p, q, f['found'], sv(tn)):
        return 'the type name found is described as %s' % short(f['found'], 160)
    if f['expected'] is not expected:
        x = f['expected']
        if x.op == 'adt':
            return 'the error expects %s' % short(x, 160)
        return '?the error expects %s' % short(x, 160)
    t = text(f['rust_type'])
    if t is None:
        return '?the type is called %s' % short(f['rust_type'])
    if t.replace(' ', '').split('::')[-1] not in names:
        return 'the type decoded is called %s' % t
    return None


def expected_of(p, names, no_type):
    ET = ERR + 'ExpectedType'
    fs = {'types': seq(*[one(mk('adt', TN, 0, 'TypeName', (mk('adt', TNI, vidx(p, TNI, 'Builtin'), 'Builtin', (enum(p, BT, n),)),))) for n in names]),
          'no_type': boolc(no_type)}
    return mk('adt', ET, 0, 'ExpectedType', tuple(fs[x['n']] for x in p.adts[ET]['v'][0]['f']))


def types(ck, p):
    r = Rule(ck, 'a literal that cannot be decoded is reported at the literal, with the kind found and the kind needed, or the reason of the failed conversion')
    rt = Rule(ck, 'a type name that does not fit is reported at the type name, with that name, what would have been accepted and the type decoded')
    val, tn = sym('val'), somev(sym('tn'))
    own = {t: ('Int', t, t) for t in INTS}
    own.update({t: ('Decimal', t, t) for t in FLOATS})
    own.update({n: ('String', t, n) for n, t in STRS.items()})
    own['bool'] = ('Bool', 'bool', 'bool')
    for ty, (kind, rty, name) in own.items():
        def judge(q):
            if q.kind == 'panic':
                return 'panics'
            es = errs(q)
            if not es:
                return False
            if len(es) > 1:
                return 'reports %d errors for one literal' % len(es)
            return scalar_error(p, q, es[0], sv(val), ss(val), kind)
        r.each(ck.impl('DecodeScalar', rty, 'raw_decode'), ['val', 'ctx'], judge, need=4)
        ex = expected_of(p, [BUILTIN[ty]] if ty in BUILTIN else [], True)

        def judge(q):
            if q.kind == 'panic':
                return 'panics'
            es = errs(q)
            if not es:
                return False
            if len(es) > 1:
                return 'reports %d errors for one type name' % len(es)
            return type_error(p, q, es[0], tn, ex, (name, rty.split('::')[-1]))
        rt.each(ck.impl('DecodeScalar', rty, 'type_check'), ['tn', 'ctx'], judge)


def byt(ck, p):
    r = Rule(ck, 'binary values: a bad literal is reported at the literal, a bad type name at the type name')
    a = sym('val')
    lit = mk('fld', a, VALUE, 'Value', 'literal')
    tn = somev(mk('fld', a, VALUE, 'Value', 'type_name'))
    ex = expected_of(p, ['Base64'], True)

    def judge(q):
        if q.kind == 'panic':
            return 'panics'
        es = errs(q)
        if not es:
            return False
        if len(es) > 1:
            return 'reports %d errors for one value' % len(es)
        E = es[0]
        if adt(E, DE, 'TypeName'):
            return type_error(p, q, E, tn, ex, ('bytes',))
        return scalar_error(p, q, E, sv(lit), ss(lit), 'String')
    r.each(ck.fn('knuffel::decode::bytes'), ['val', 'ctx'], judge, need=5)
    pn = lib.variant(())
    fn = ck.fn('knuffel::decode::bytes', prog=pn)
    keep = ck.prog
    ck.prog = pn

    def judge0(q):
        es = errs(q)
        if q.kind != 'panic' and len(es) == 1 and adt(es[0], DE, 'Unsupported'):
            sp = adt_fields(pn, es[0])['span']
            if sp is not ss(lit) and sp is not ss(tn):
                return 'the error points at %s' % short(sp, 160)
            return None
        return judge(q)
    r.each(fn, ['val', 'ctx'], judge0, need=5)
    ck.prog = keep


def constructors(ck, p):
    r = Rule(ck, 'the error constructors keep the position and description they are given')
    a, b, c = sym('a'), sym('b'), sym('c')

    def tt(want):
        def judge(q):
            if q.kind == 'panic':
                return 'panics'
            if not adt(q.val, DE):
                return 'builds %s' % short(q.val, 160)
            f = adt_fields(p, q.val)
            for n, w in want.items():
                x = f.get(n)
                if x is None:
                    return 'builds %s' % short(q.val, 160)
                if callable(w):
                    if not w(x, q):
                        return '%s is %s' % (n, short(x, 160))
                elif not any(y is w for y in walk(x)):
                    return '%s is %s' % (n, short(x, 160))
            return None
        return judge

    def is_(w):
        return lambda x, q: noref(x) is noref(w)

    def kind_of(x, q):
        return x.op == 'adt' and implied(q.facts.get(sv(b)), IN(vidx(p, LIT, x.a[2])))
    tab = {'conversion': (['a', 'b'], 'Conversion', {'span': is_(ss(a)), 'source': b}),
           'scalar_kind': (['a', 'b'], 'ScalarKind', {'span': is_(ss(b)), 'expected': a, 'found': kind_of}),
           'missing': (['a', 'b'], 'Missing', {'span': is_(ss(nodef(a, 'node_name'))), 'message': b}),
           'unexpected': (['a', 'b', 'c'], 'Unexpected', {'span': is_(ss(a)), 'kind': is_(b), 'message': c}),
           'unsupported': (['a', 'b'], 'Unsupported', {'span': is_(ss(a)), 'message': b})}
    for n, (args, vn, want) in tab.items():
        fs = [f for f in (p.funcs[k_] for k_ in p.roots) if f.name.split('::<')[0] in (DE + '::' + n,)]
        if len(fs) != 1:
            raise Missing('DecodeError::%s' % n)
        j = tt(want)
        r.each(fs[0], args, lambda q: j(q) or (None if q.val.a[2] == vn else 'builds the error %s' % q.val.a[2]))
    # ExpectedType
    ET = ERR + 'ExpectedType'
    for n, nt, k_ in (('no_type', True, 0), ('required', False, 1), ('optional', True, 1)):
        fs = [f for f in (p.funcs[x] for x in p.roots) if f.name.split('::<')[0] == ET + '::' + n]
        if len(fs) != 1:
            raise Missing('ExpectedType::%s' % n)

        def judge(q):
            if not adt(q.val, ET):
                return '?builds %s' % short(q.val)
            f = adt_fields(p, q.val)
            if f['no_type'] is not boolc(nt):
                return 'no_type is %s' % short(f['no_type'])
            ts = f['types']
            if k_ == 0:
                return None if ts is EMPTY else 'accepts %s' % short(ts)
            if ts.op == 'seq' and len(ts.a) == 1 and ts.a[0].op == 'one' and any(y is a for y in walk(ts)):
                return None
            return 'accepts %s' % short(ts)
        r.each(fs[0], ['a'] if k_ else [], judge)
    # positions of syntax errors
    S = PE

    def meth(n):
        fs = [f for f in (p.funcs[x] for x in p.roots) if f.key.split('|')[0].endswith('::' + n) and 'ParseError' in f.key.split('|')[0] or
              f.name == '<knuffel::errors::ParseError as chumsky::Error>::' + n]
        if len(fs) != 1:
            raise Lost('ParseError::%s' % n)
        return fs[0]
    TF = ERR + 'TokenFormat'

    def tok(x, c_, q):
        """x is the token of the character c_, or end of input if it is None"""
        if not x.op == 'adt' or x.a[0] != TF:
            return None
        if x.a[2] == 'Char':
            return x.a[3][0] is c_ or x.a[3][0] is somev(c_) and q.facts.get(c_) == IN(1)
        if x.a[2] == 'Eoi':
            return q.facts.get(c_) == IN(0)
        return False

    def judge(q):
        if q.kind == 'panic':
            return 'panics'
        if not adt(q.val, PE, 'Unclosed'):
            return 'builds %s' % short(q.val, 160)
        f = adt_fields(p, q.val)
        for n, w in (('opened_at', sym('at')), ('expected_at', sym('here'))):
            if f[n] is not w:
                return '%s is %s' % (n, short(f[n]))
        for n, w in (('opened', sym('open')), ('expected', sym('close')), ('found', sym('found'))):
            t = tok(f[n], w, q)
            if t is False or t is None:
                return '%s%s is %s' % ('?' if t is None else '', n, short(f[n]))
    r.each(meth('unclosed_delimiter'), ['at', 'open', 'here', 'close', 'found'], judge, need=2)

    def judge(q):
        if q.kind == 'panic':
            return 'panics'
        if not adt(q.val, PE, 'Unexpected'):
            return 'builds %s' % short(q.val, 160)
        f = adt_fields(p, q.val)
        if f['span'] is not sym('at'):
            return 'the error points at %s' % short(f['span'])
        t = tok(f['found'], sym('found'), q)
        if t is False or t is None:
            return '%sfound is %s' % ('?' if t is None else '', short(f['found']))
        if not any(x is sym('exp') for x in walk(f['expected'])) and not any(
                t.op == 'len' and d == ('iv', ((0, 0),)) and any(x is sym('exp') for x in walk(t)) for t, d in q.facts.items()):
            return 'the expected characters are dropped'
    r.each(meth('expected_input_found'), ['at', 'exp', 'found'], judge)
    E, D = sym('e'), sym('d')

    def var(q, t):
        d = q.facts.get(t)
        return [v['n'] for i, v in enumerate(p.adts[PE]['v']) if dom_ok(d, IN(i))]

    def judge(q):
        if q.kind == 'panic':
            return False              # C01 is about these
        v = q.val
        if v is D:
            if 'Unclosed' in var(q, E):
                return 'an unclosed delimiter is forgotten'
            return None
        if v is E:
            if 'Unclosed' in var(q, D) and var(q, E) != ['Unclosed']:
                return 'an unclosed delimiter is forgotten'
            return None
        if v.op == 'upd' and v.a[0] is E and v.a[2] == 'expected':
            if 'Unclosed' in var(q, D):
                return 'an unclosed delimiter is forgotten'
            a1 = mk('fld', D, PE, 'Unexpected', 'expected')
            a0 = mk('fld', E, PE, 'Unexpected', 'expected')
            for x in (a0, a1):
                if any(t.op == 'len' and any(y is x for y in walk(t)) and d == ('iv', ((0, 0),)) for t, d in q.facts.items()):
                    continue
                if not any(y is x for y in walk(v.a[3])):
                    return 'expectations are lost'
            return None
        return '?merges to %s' % short(v, 160)
    r.each(meth('merge'), ['e', 'd'], judge, need=3)
    for n, tk in (('with_expected_token', 'Token'), ('with_expected_kind', 'Kind'), ('with_no_expected', None)):
        fs = [f for f in (p.funcs[x] for x in p.roots) if f.name.split('::<')[0] == PE + '::' + n]
        if len(fs) != 1:
            continue      # an internal helper

        def judge(q):
            if q.kind == 'panic':
                return 'panics'
            v = q.val
            if v is E:
                return 'the expectation is dropped' if 'Unexpected' in var(q, E) else None
            if v.op == 'upd' and v.a[0] is E and v.a[2] == 'expected':
                if tk and not any(x.op == 'adt' and x.a[0] == TF and x.a[2] == tk and noref(x.a[3][0]) is sym('t') for x in walk(v.a[3])):
                    return 'the expectation is %s' % short(v.a[3])
                return None
            return '?the error becomes %s' % short(v, 160)
        r.each(fs[0], ['e', 't'] if tk else ['e'], judge)


def wording(ck, p):
    r = Rule(ck, 'the message of an error names what was found and what was expected')

    def disp(path):
        fs = [f for f in (p.funcs[x] for x in p.roots) if f.name == '<%s as std::fmt::Display>::fmt' % path]
        if len(fs) != 1:
            raise Missing('Display for %s' % path)
        return fs[0]

    def pieces(q):
        out = []
        for e in q.evs:
            if e.a[0] != 'write':
                return None
            m = message(e.a[1])
            if m is None:
                return None
            out += m
        return out

    def txt(ps):
        return ''.join(x if isinstance(x, str) else '\0' for x in ps)
    me = sym('e')

    def judge(q):
        if q.kind != 'ok':
            return False
        ps = pieces(q)
        if ps is None:
            return '?message not understood'
        v = [x['n'] for i, x in enumerate(p.adts[KIND]['v']) if dom_ok(q.facts.get(me), IN(i))]
        t = txt(ps).lower()
        for n in v:
            if KW[n] not in t or any(KW[m] in t for m in KW if m != n):
                return 'the kind %s is called `%s`' % (n, t)
        return None
    r.each(disp(KIND), ['e', 'f'], judge, need=5)

    def field(vn, n, path=DE):
        return mk('fld', me, path, vn, n)

    def mentions(ps, t):
        return any(isinstance(x, T) and any(y is t for y in walk(x)) for x in ps)

    def judge(q):
        if q.kind != 'ok':
            return False
        ps = pieces(q)
        if ps is None:
            return '?message not understood'
        d = q.facts.get(me)
        v = [x['n'] for i, x in enumerate(p.adts[DE]['v']) if dom_ok(d, IN(i))]
        if len(v) != 1:
            return '?several variants share a message'
        n = v[0]
        if n in ('Missing', 'MissingNode', 'Unexpected', 'Unsupported'):
            return None if mentions(ps, field(n, 'message')) else 'the message is lost'
        if n == 'Conversion':
            return None if mentions(ps, field(n, 'source')) else 'the reason is lost'
        if n == 'Custom':
            return None if mentions(ps, field(n, '0')) else 'the custom error is lost'
        if n in ('ScalarKind', 'TypeName'):
            fd, ex = field(n, 'found'), field(n, 'expected')
            last = ''
            seen = set()
            for x in ps:
                if isinstance(x, str):
                    last += x
                    continue
                if any(y is fd for y in walk(x)):
                    if 'found' not in last:
                        return 'what was found is not said to be found'
                    seen.add('found')
                elif any(y is ex for y in walk(x)):
                    if 'found' in last:
                        return 'what was expected is said to be found'
                    if last.strip() == 'for':
                        return 'what was expected is said to be the type decoded'
                    seen.add('expected')
                last = ''
            if 'found' not in seen:
                f = q.facts.get(fd)
                t = txt(ps)
                tail = t.split('found ')[-1] if 'found ' in t else ''
                if n == 'TypeName' and f == IN(0) and 'no type' in tail:
                    seen.add('found')
                elif n == 'TypeName' and f == IN(1):
                    b = mk('fld', mk('fld', somev(fd), TN, 'TypeName', '0'), TNI, 'Builtin', '0')
                    k_ = [x['n'].lower() for i, x in enumerate(p.adts[BT]['v']) if dom_ok(q.facts.get(b), IN(i))]
                    if b in q.facts and k_ == [tail]:
                        seen.add('found')
            if seen != {'found', 'expected'}:
                return 'the message does not say what was %s' % ' and '.join(sorted({'found', 'expected'} - seen))
            return None
        return None
    r.each(disp(DE), ['e', 'f'], judge, need=8)

    def judge(q):
        if q.kind != 'ok':
            return False
        ps = pieces(q)
        if ps is None:
            return '?message not understood'
        d = q.facts.get(me)
        v = [x['n'] for i, x in enumerate(p.adts[PE]['v']) if dom_ok(d, IN(i))]
        for n in v:
            need = {'Unexpected': ('found', 'expected'), 'Unclosed': ('opened',), 'Message': ('message',),
                    'MessageWithHelp': ('message',)}.get(n, ())
            for f in need:
                if not mentions(ps, field(n, f, PE)):
                    return 'the message of %s does not mention `%s`' % (n, f)
        for x in ps:      # found and expected are handed over in their roles
            if isinstance(x, T):
                for y in walk(x):
                    if y.op == 'adt' and y.a[0] == ERR + 'FormatUnexpected':
                        if [noref(z) for z in y.a[3]] != [field('Unexpected', 'found', PE), field('Unexpected', 'expected', PE)]:
                            return '?the message is built from %s' % short(y)
        return None
    r.each(disp(PE), ['e', 'f'], judge, need=4)

    # lists of alternatives
    def listed(q, src):
        """message: which elements of src are displayed; ('all'|None, text, loose pieces)"""
        got, t, other = set(), '', []
        ln = q.facts.get(mk('len', src))
        for e in q.evs:
            if e.a[0] == 'loop':
                for run_ in e.a[2]:
                    srcs = run_[3] if len(run_) > 3 else ()
                    for s, k0, k1 in srcs:
                        base, drop = s, k1
                        while base.op == 'init':
                            base, drop = base.a[0], drop + 1
                        if base is not src:
                            return None
                        ok_ = any(w.a[0] == 'write' and (message(w.a[1]) or []) and
                                  any(isinstance(x, T) and is_cur(noref(x), s) for x in message(w.a[1])) for w in run_[1])
                        if not ok_:
                            return None
                        got |= {('from', k0, drop)}
                continue
            if e.a[0] != 'write':
                return None
            m = message(e.a[1])
            if m is None:
                return None
            for x in m:
                if isinstance(x, str):
                    t += x
                    continue
                t += '\0'
                x = noref(x)
                if x.op == 'elem' and x.a[0] is src:
                    got.add(('at', x.a[1]))
                elif x.op == 'elemb' and x.a[0] is src:
                    got.add(('back', x.a[1]))
                else:
                    other.append(x)
        lo, hi = ln[1][0][0], ln[1][-1][1]
        # enough to look at lists up to a small length: positions are constants
        for n in range(lo, min(hi, 8) + 1):
            pos = []
            for g in got:
                if g[0] == 'at':
                    i = g[1].a[0] if isinstance(g[1], T) else g[1]
                    pos.append(i)
                elif g[0] == 'back':
                    i = g[1].a[0] if isinstance(g[1], T) else g[1]
                    pos.append(n - i)
                else:
                    pos += range(g[1], n - g[2])
            if sorted(x for x in pos if 0 <= x < n) != list(range(n)):
                return (False, n, t, other)
        return (True, None, t, other)
    types_ = mk('fld', me, ERR + 'ExpectedType', 'ExpectedType', 'types')
    nt = mk('fld', me, ERR + 'ExpectedType', 'ExpectedType', 'no_type')

    def judge(q):
        if q.kind != 'ok':
            return False
        try:
            l = listed(q, types_)
        except (TypeError, AttributeError, IndexError):
            l = None
        if l is None:
            return '?message not understood'
        ok_, n, t, other = l
        if not ok_:
            return 'of %d type names accepted not each is named once' % n
        no = 'no type' in t
        d = q.facts.get(nt)
        if d == IN(0) and no and q.facts.get(mk('len', types_)) != ('iv', ((0, 0),)):
            return 'claims that no type name is accepted'
        if d == IN(1) and not no:
            return 'does not say that no type name is accepted'
        return None
    r.each(disp(ERR + 'ExpectedType'), ['e', 'f'], judge, need=3)
    FU = ERR + 'FormatUnexpected'
    if FU in p.adts:
        fd, ex = mk('fld', me, FU, 'FormatUnexpected', '0'), mk('fld', me, FU, 'FormatUnexpected', '1')

        def judge(q):
            if q.kind != 'ok':
                return False
            try:
                l = listed(q, ex)
            except (TypeError, AttributeError, IndexError):
                l = None
            if l is None:
                return '?message not understood'
            ok_, n, t, other = l
            if not ok_:
                return 'of %d expected tokens not each is named once' % n
            if other != [fd]:
                return 'what was found is not mentioned' if fd not in other else '?other parts'
            if not t.startswith('found \0'):
                return '?wording %r' % t
            if '\0' in t[7:] and 'expected' not in t[7:]:
                return 'the expected tokens are not said to be expected'
            return None
        r.each(disp(FU), ['e', 'f'], judge, need=2)
    TF = ERR + 'TokenFormat'

    def judge(q):
        if q.kind != 'ok':
            return False
        d = q.facts.get(me)
        v = [x['n'] for i, x in enumerate(p.adts[TF]['v']) if dom_ok(d, IN(i))]
        if len(v) != 1:
            return '?several tokens share a text'
        n = v[0]
        t = ''
        arg = mk('fld', me, TF, n, '0')
        fa = q.facts.get(arg)
        for e in q.evs:
            if e.a[0] == 'loop':
                for run_ in e.a[2]:
                    if run_[1] and any(w.a[0] != 'write' or message(w.a[1]) != ['#'] for w in run_[1]):
                        return '?token not understood'
                    if run_[1] and t[-1:] != '\1':
                        if any(not (s.op == 'range' and s.a[1] is arg and s.a[0].op == 'k') for s, k0, k1 in run_[3]):
                            return '?token not understood'
                        t += '\1' if all(s.a[0] is k(0) and k0 == k1 == 0 for s, k0, k1 in run_[3]) else '\2'
                continue
            m = message(e.a[1]) if e.a[0] == 'write' else None
            if m is None:
                return '?token not understood'
            for x in m:
                if isinstance(x, str):
                    t += x
                elif x.op == 'app' and x.a[0].split('<')[0].split('::')[-1] == 'repeat' and text(x.a[1][0]) == '#' and x.a[1][1] is arg:
                    t += '\1'
                elif any(y is arg for y in walk(x)):
                    t += '\0'
                else:
                    return '?token not understood'
        if n == 'Char':
            if fa and fa[0] == 'iv' and fa[1][0][0] == fa[1][-1][1]:
                c = chr(fa[1][0][0])
                return None if t in ('`%s`' % c, '`\0`') else 'the character %r is called %s' % (c, t)
            return None if '\0' in t else 'the character is not named'
        if n in ('Token', 'Kind'):
            return None if '\0' in t else 'the token is not named'
        if n == 'Eoi':
            return None if 'end' in t else 'the end of input is called %s' % t
        want = {'OpenRaw': '`r\1"`', 'CloseRaw': '`"\1`'}[n]
        if fa == ('iv', ((0, 0),)):
            want = want.replace('\1', '')
            t = t.replace('\1', '')
        if '\0' in t:
            return '?token not understood'
        return None if t == want else 'the delimiter is called %s' % t.replace('\1', '#*').replace('\2', '…')
    r.each(disp(TF), ['e', 'f'], judge, need=6)


def labels(ck, p):
    r = Rule(ck, 'every position an error carries is shown, under its own label')
    me = sym('e')
    for path in (DE, PE):
        fs = [f for f in (p.funcs[x] for x in p.roots) if f.name == '<%s as miette::Diagnostic>::labels' % path]
        if len(fs) != 1:
            raise Lost('labels of %s' % path)
        full = set()

        def judge(q):
            if q.kind == 'panic':
                return 'panics'
            d = q.facts.get(me)
            v = [x for i, x in enumerate(p.adts[path]['v']) if dom_ok(d, IN(i))]
            want = [[f['n'] for f in x['f'] if f['n'] in ('span', 'opened_at', 'expected_at')] for x in v]
            if any(w != want[0] for w in want):
                return 'a position is not shown'
            want = want[0]
            if adt(q.val, OPTION, 'None'):
                return 'a position is not shown' if want else None
            if len(v) != 1:
                return '?labels not understood'
            n = v[0]['n']
            got = []
            for x in walk(q.val):
                if x.op == 'app' and x.a[0].split('::')[-1] == 'new_with_span' or x.op == 'new_with_span':
                    args = x.a[1] if x.op == 'app' else x.a
                    fl = [y.a[3] for y in walk(args[1]) if y.op == 'fld' and y.a[0] is me and y.a[1] == path and y.a[2] == n]
                    if len(fl) != 1:
                        return '?labels not understood'
                    lb = args[0].a[3][0] if adt(args[0], OPTION, 'Some') else None
                    m = message(lb) if lb is not None else None
                    if m is None:
                        return '?label not understood'
                    got.append((fl[0], m))
            gs = [g for g, m in got]
            if len(set(gs)) != len(gs) or not set(gs) <= set(want):
                return 'labels are shown at %s' % ', '.join(gs)
            for w in want:
                if w not in gs:
                    # only if the span cannot be shown at all
                    pos = mk('fld', me, path, n, w)
                    if not any(any(y is pos for y in walk(t)) and d == IN(0) for t, d in q.facts.items()):
                        return 'the position `%s` is not shown' % w
            full.update((n, g) for g in gs)
            for g, m in got:
                t = ''.join(x for x in m if isinstance(x, str))
                ts = [y.a[3] for x in m if isinstance(x, T) for y in walk(x) if y.op == 'fld' and y.a[0] is me and y.a[2] == n]
                if g == 'opened_at' and 'open' not in t:
                    return 'the opening delimiter is labelled `%s`' % t
                if g == 'expected_at' and ts != ['expected']:
                    return 'the place of the closing delimiter is labelled %s' % m
                if n == 'ScalarKind' and ts != ['found'] and 'unexpected' in t:
                    return 'the literal is labelled unexpected %s' % ', '.join(ts)
                if n == 'Unexpected' and path == DE and ts and ts != ['kind']:
                    return 'the element is labelled %s' % ', '.join(ts)
            return None
        r.each(fs[0], ['e'], judge, need=4)
        for x in p.adts[path]['v']:
            for f in x['f']:
                if f['n'] in ('span', 'opened_at', 'expected_at') and (x['n'], f['n']) not in full and \
                        not any(o[2] != 'ok' and o[1] == fs[0].name for o in ck.obl):
                    ck.bad(r.text, fs[0].name, 'the position `%s` of %s is never shown' % (f['n'], x['n']))


def syntax(ck, p):
    import errpos
    import gram
    r = 'an unclosed delimiter is reported exactly at an end of input, at the opening delimiter, with the closing one that is missing'
    r2 = 'an error built by the grammar points at the text it describes'
    ck.rule(r)
    ck.rule(r2)
    try:
        g = gram.Grammar(ck, ck.tier)
        g.conv = c = errpos.Positions(p)
        P, fn = g.root()
        c.conv(P)
        for h in list(c.handles.values()):
            c.inline(h)
    except (gram.Undecided, Unsupported) as e:
        return ck.undecided(r, 'knuffel::grammar', str(e))
    seen = {}
    opened = 0
    for cl, e, before in c.wraps:
        site = errpos.name(cl)
        try:
            m, n = errpos.wrap(p, c, cl, e, before)
        except (gram.Undecided, Unsupported) as x:
            m, n = '?' + str(x), 0
        opened += n
        if m is None:
            seen.setdefault((r, site), 0)
            if isinstance(seen[r, site], int):
                seen[r, site] += 1
        else:
            seen[r, site] = m
    for cl, E, e, st in c.errors:
        site = errpos.name(cl)
        try:
            m = errpos.error(p, c, cl, E, e, st)
        except (gram.Undecided, Unsupported) as x:
            m = '?' + str(x)
        if m is None:
            seen.setdefault((r2, site), 0)
            if isinstance(seen[r2, site], int):
                seen[r2, site] += 1
        else:
            seen[r2, site] = m
    for (rule, site), m in sorted(seen.items()):
        if isinstance(m, int):
            ck.good(rule, site, '%d uses' % m)
        elif m[0] == '?':
            ck.undecided(rule, site, m[1:])
        else:
            ck.bad(rule, site, m)
    if opened < 4 and not any(isinstance(m, str) for m in seen.values()):
        ck.bad(r, 'knuffel::grammar', 'only %d kinds of unclosed delimiters are reported' % opened)
