from terms import *
from spec import *
import lib

INTS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'isize', 'usize']
FLOATS = ['f32', 'f64']
RANGE = {}
for _n, _b in (('8', 8), ('16', 16), ('32', 32), ('64', 64), ('size', 64), ('128', 128)):
    RANGE['u' + _n] = (0, (1 << _b) - 1)
    RANGE['i' + _n] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
STRS = {'String': r'std::string::String', 'PathBuf': r'std::path::PathBuf',
        'Arc<Path>': r'std::sync::Arc<std::path::Path>', 'Arc<str>': r'std::sync::Arc<str>'}
RADIX = {'Bin': 2, 'Oct': 8, 'Dec': 10, 'Hex': 16}
INTEGER = 'knuffel::ast::Integer'
DECIMAL = 'knuffel::ast::Decimal'


def vidx(prog, path, name):
    for i, v in enumerate(prog.adts[path]['v']):
        if v['n'] == name:
            return i
    raise Lost('variant %s::%s' % (path, name))


def lit_field(lit, vn):
    return mk('fld', lit, LIT, vn, '0')


def parse_of(t, ty, digits):
    """radix if t is the Result of reading `digits` as `ty`, else None"""
    if t.op != 'app':
        return None
    if t.a[0] == 'from_str:' + ty and t.a[1] == (digits,):
        return 10
    if t.a[0] == 'from_str_radix:' + ty and t.a[1][0] is digits and t.a[1][1].op == 'k':
        return t.a[1][1].a[0]
    if t.a[0] == 'try_from:' + ty:
        x = t.a[1][0]
        if x.op == 'fld' and x.a[1] == RESULT and x.a[2] == 'Ok':
            y = x.a[0]
            if y.op == 'app' and ':' in y.a[0]:
                w = y.a[0].split(':', 1)[1]
                if w in RANGE and RANGE[w][0] <= RANGE[ty][0] and RANGE[w][1] >= RANGE[ty][1]:
                    return parse_of(y, w, digits)
    return None


def failed_apps(p_):
    """fallible operations the path assumes to have failed"""
    return [t for t, d in p_.facts.items() if t.op == 'app' and d == IN(1)]


def clean(p_):
    return p_.kind in ('ok', 'ret') and not p_.dirty and not p_.emits()


def seqmap(q, v, src):
    """cases of v if v is built by visiting every element of src once in order;
    None if it is not; [] if src is empty on this path"""
    if v.op == 'list' or (v.op == 'seq' and not v.a):
        pass
    f = q.facts.get(mk('len', src))
    if v is EMPTY:
        if f == ('iv', ((0, 0),)):
            return []
        return None
    if v.op != 'compr':
        return None
    L, srcs, cases, full = v.a
    if not full or srcs != frozenset([(src, 0, 0)]):
        return None
    return [(dict(c[0]), c[1]) for c in cases]


def flat_evs(evs):
    """events including those of loop bodies"""
    for e in evs:
        if e.a[0] == 'loop':
            for r in e.a[2]:
                for x in flat_evs(r[1]):
                    yield x
        else:
            yield e


def evalb(t, env):
    """value of a boolean/integer term under an assignment, None if unknown"""
    if t in env:
        return env[t]
    if t.op == 'k':
        return t.a[0]
    if t.op == 'not':
        x = evalb(t.a[0], env)
        return None if x is None else not x
    if t.op == 'cmp':
        x, y = evalb(t.a[1], env), evalb(t.a[2], env)
        if x is None or y is None:
            return None
        return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[t.a[0]]
    return None


def is_cur(t, src):
    return t.op == 'cur' and src in t.a


def same(p, facts, v, t):
    """v denotes the same value as t on a path with these facts"""
    if v is t:
        return True
    if v.op == 'adt':
        vs = p.adts.get(v.a[0])
        if vs is None:
            return False
        if len(vs['v']) > 1:
            f = facts.get(t)
            if t.op == 'adt':
                if t.a[1] != v.a[1]:
                    return False
            elif f != IN(v.a[1]):
                return False
        names = p.fnames(v.a[0], v.a[1])
        if t.op == 'adt':
            return all(same(p, facts, x, y) for x, y in zip(v.a[3], t.a[3]))
        return all(same(p, facts, x, mk('fld', t, v.a[0], v.a[2], n)) for n, x in zip(names, v.a[3]))
    if v.op == 'k':
        f = facts.get(t)
        return f == ('iv', ((v.a[0], v.a[0]),))
    return False


class Overflow(Exception):
    pass


def evaln(t, env):
    """value of an arithmetic term under an assignment of its leaves; None if unknown"""
    if t in env:
        return env[t]
    o = t.op
    if o == 'k':
        return t.a[0]
    if o == 'not':
        x = evaln(t.a[0], env)
        return None if x is None else not x
    if o in ('bin', 'cmp', 'satsub', 'satadd', 'min', 'max') or o == 'app' and t.a[0] in ('satsub', 'satadd', 'min', 'max'):
        op, xs = (t.a[0], t.a[1:3]) if o in ('bin', 'cmp') else (o, t.a[:2])
        if o == 'app':
            op, xs = t.a[0], t.a[1][:2]
        x, y = (evaln(z, env) for z in xs)
        if x is None or y is None:
            return None
        if op == 'Add':
            return x + y
        if op == 'Sub':
            if x < y:
                raise Overflow('%d - %d' % (x, y))
            return x - y
        if op == 'Mul':
            return x * y
        if op == 'satsub':
            return max(0, x - y)
        if op == 'satadd':
            return x + y
        if op == 'min':
            return min(x, y)
        if op == 'max':
            return max(x, y)
        if o == 'cmp':
            return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}.get(op)
    return None


def holds(q, env):
    """does the path apply under the assignment (unknown facts: yes)"""
    for t, d in q.facts.items():
        v = evaln(t, env)
        if v is None:
            continue
        if d[0] == 'iv':
            if not any(lo <= int(v) <= hi for lo, hi in d[1]):
                return False
        elif d[0] == 'in' and int(v) not in d[1]:
            return False
    return True


def fieldof(v, path, vn, f):
    """field of a possibly updated structure"""
    while v.op == 'upd':
        if v.a[2] == f:
            return v.a[3]
        v = v.a[0]
    if v.op == 'adt':
        return None
    return mk('fld', v, path, vn, f)
