"""Hash-consed terms of the abstract domain."""

class T:
    __slots__ = ('op', 'a', 'id', 'm')

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError


_table = {}


def mk(op, *a):
    key = (op,) + a
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_table)
        t.m = None
        _table[key] = t
    return t


def k(v, kind='int'):
    return mk('k', int(v), kind)


TRUE = k(1, 'bool')
FALSE = k(0, 'bool')
UNINIT = mk('uninit')
EMPTY = mk('seq')


def boolc(b):
    return TRUE if b else FALSE


def string(s):
    return mk('str', s)


UNIT = mk('tup')


def tup(*xs):
    return mk('tup', *xs)


def adt(path, vi, vn, fields, fnames=None):
    """constructor with eta contraction: rebuilding a value from all of its own
    fields is that value"""
    fields = tuple(fields)
    if fields and fnames:
        x = None
        ok = True
        for f, n in zip(fields, fnames):
            if f.op == 'fld' and f.a[1] == path and f.a[2] == vn and f.a[3] == n and (x is None or f.a[0] is x):
                x = f.a[0]
            else:
                ok = False
                break
        if ok:
            return x
    return mk('adt', path, vi, vn, fields)


OPTION = 'std::option::Option'
RESULT = 'std::result::Result'


def some(v):
    return adt(OPTION, 1, 'Some', (v,), ('0',))


NONE = mk('adt', OPTION, 0, 'None', ())


def ok(v):
    return adt(RESULT, 0, 'Ok', (v,), ('0',))


def err(v):
    return adt(RESULT, 1, 'Err', (v,), ('0',))


def vref(v):
    return mk('vref', v)


def app(name, *args):
    return mk('app', name, args)


def one(v):
    return mk('one', v)


def all_(s):
    return mk('all', s)


def parts(s):
    """the parts of a sequence term"""
    if s.op == 'seq':
        return s.a
    return (all_(s),)


def seq(*ps):
    out = []
    for p in ps:
        if p.op == 'all':
            if p.a[0].op == 'seq':
                out.extend(p.a[0].a)
                continue
        out.append(p)
    if len(out) == 1 and out[0].op == 'all':
        return out[0].a[0]
    return mk('seq', *out)


def seqof(vals):
    return seq(*[one(v) for v in vals])


def cat(a, b):
    return seq(*(parts(a) + parts(b)))


def chars_of(s):
    """sequence of characters of a string term"""
    if s.op == 'str':
        return seqof([k(ord(c), 'char') for c in s.a[0]])
    if s.op == 'ofchars':
        return s.a[0]
    return mk('chars', s)


def of_chars(q):
    if q.op == 'chars':
        return q.a[0]
    if q.op == 'seq' and all(p.op == 'one' and p.a[0].op == 'k' for p in q.a):
        return string(''.join(chr(p.a[0].a[0]) for p in q.a))
    return mk('ofchars', q)


def subst(t, m, memo=None):
    """substitute terms in a term"""
    if memo is None:
        memo = {}
    if not m:
        return t
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(_subst(x, m, memo) for x in t)
        if isinstance(t, frozenset):
            return frozenset(_subst(x, m, memo) for x in t)
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    ch = False
    na = []
    for x in t.a:
        if isinstance(x, (T, tuple, frozenset)):
            y = _subst(x, m, memo)
            if y is not x and y != x:
                ch = True
            na.append(y)
        else:
            na.append(x)
    if ch:
        if t.op == 'seq':
            r = seq(*na)
        elif t.op == 'all':
            r = all_(na[0])
        else:
            r = mk(t.op, *na)
    else:
        r = t
    memo[t] = r
    return r


def walk(t, seen=None):
    """all subterms"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


def mentions(t, pred):
    return any(pred(x) for x in walk(t))


def atoms(t):
    """memoised set of cur-atoms in a term"""
    if t.m is None:
        s = frozenset()
        if t.op == 'cur':
            s = frozenset([t])
        for x in t.a:
            s = s | _atoms(x)
        t.m = s
    return t.m


def _atoms(x):
    if isinstance(x, T):
        return atoms(x)
    if isinstance(x, (tuple, frozenset)):
        s = frozenset()
        for y in x:
            s = s | _atoms(y)
        return s
    return frozenset()


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        if isinstance(t, frozenset):
            return '{' + ', '.join(sorted(show(x, d + 1) for x in t)) + '}'
        return repr(t) if isinstance(t, str) else str(t)
    if d > 14:
        return '…'
    o = t.op
    a = t.a
    if o == 'k':
        if a[1] == 'bool':
            return 'true' if a[0] else 'false'
        if a[1] == 'char':
            return repr(chr(a[0])) if not 0xD800 <= a[0] < 0xE000 else 'u+%x' % a[0]
        return str(a[0])
    if o == 'str':
        return '"' + a[0] + '"'
    if o == 'adt':
        n = a[0].split('::')[-1]
        if a[2] and a[2] != n:
            n = a[2] if n in ('Option', 'Result') else n + '::' + a[2]
        if not a[3]:
            return n
        return n + '(' + ', '.join(show(x, d + 1) for x in a[3]) + ')'
    if o == 'tup':
        return '(' + ', '.join(show(x, d + 1) for x in a) + ')'
    if o == 'fld':
        n = a[1].split('::')[-1] if a[1] else ''
        v = '' if a[2] in ('', n) else '::' + a[2]
        return show(a[0], d + 1) + '.' + (v + '.' if v else '') + a[3]
    if o == 'sym':
        return a[0]
    if o == 'vref':
        return '&' + show(a[0], d + 1)
    if o == 'app':
        return a[0].split('::')[-1] + '(' + ', '.join(show(x, d + 1) for x in a[1]) + ')'
    if o == 'seq':
        return '[' + ', '.join(show(x, d + 1) for x in a) + ']'
    if o == 'one':
        return show(a[0], d + 1)
    if o == 'all':
        return '..' + show(a[0], d + 1)
    if o == 'cur':
        return 'cur%s<%s>' % ('' if not a[3] else a[3], show(a[1], d + 1))
    if o == 'me':
        return 'me'
    if o == 'past':
        return 'past<%s|%s>' % (show(a[1], d + 1), show_facts(a[4], d + 1))
    if o == 'closure':
        return 'closure(%s)' % a[0].split('|')[1].split('::', 1)[-1]
    return o + '(' + ', '.join(show(x, d + 1) for x in a) + ')'


def show_facts(fs, d=0):
    return ', '.join(sorted(show(t, d) + '~' + show_dom(v) for t, v in fs))


def show_dom(v):
    if v[0] == 'iv':
        r = ','.join(('%s..%s' % (a, b)) if a != b else str(a) for a, b in v[1][:6])
        return 'iv[' + r + ('…' if len(v[1]) > 6 else '') + ']'
    return v[0] + '{' + ','.join(sorted(map(str, v[1]))) + '}'
