"""Path-sensitive abstract interpreter over MIR.

Values are terms; unknown values are symbols; branches on unknown values
partition the paths and leave facts.  Loops over unknown sequences are
abstracted: one arbitrary iteration is analysed from every abstract state that
can reach the loop head until no new abstract state appears."""
from terms import *
from mir import analyse, Program

TRANSPARENT = {
    'std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'core::mem::MaybeUninit',
    'core::mem::ManuallyDrop', 'std::mem::MaybeDangling', 'core::mem::MaybeDangling',
}
BOX = 'std::boxed::Box'

CHAR_U = ((0, 0xD7FF), (0xE000, 0x10FFFF))


class Unsupported(Exception):
    pass


def iv_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


INF = 1 << 130


def iv_not(a):
    out = []
    lo = -INF
    for x, y in a:
        if lo <= x - 1:
            out.append((lo, x - 1))
        lo = y + 1
    if lo <= INF:
        out.append((lo, INF))
    return tuple(out)


def iv_or(a, b):
    rs = sorted(a + b)
    out = []
    for lo, hi in rs:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def universe(ty):
    kd = ty['k']
    if kd == 'char':
        return CHAR_U
    if kd == 'bool':
        return ((0, 1),)
    if kd == 'uint':
        b = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128}[ty['n']]
        return ((0, (1 << b) - 1),)
    if kd == 'int':
        b = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}[ty['n']]
        return ((-(1 << (b - 1)), (1 << (b - 1)) - 1),)
    return ((-INF, INF),)


class State:
    __slots__ = ('mem', 'facts', 'trace', 'loops', 'dirty', 'notes', 'pulls', 'flags', 'hn', 'exits')

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.loops = self.loops
        s.dirty = self.dirty
        s.notes = self.notes
        s.pulls = self.pulls
        s.flags = self.flags
        s.hn = self.hn
        s.exits = self.exits
        return s

    def ev(self, *e):
        self.trace = self.trace + (mk('ev', *e),)

    def note(self, n):
        self.notes = self.notes | {n}

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.dirty,
                self.notes, self.flags)


def new_state():
    s = State()
    s.mem = {}
    s.facts = {}
    s.trace = ()
    s.loops = ()
    s.dirty = False
    s.notes = frozenset()
    s.pulls = frozenset()
    s.flags = frozenset()
    s.hn = 0
    s.exits = None
    return s


RET, PANIC = 'ret', 'panic'


class Interp:
    def __init__(self, prog, opaque=None, max_paths=20000):
        self.p = prog
        self.opaque = opaque or (lambda callee: None)
        self.stack = []          # call stack: (fn key, site)
        self.max_paths = max_paths
        self.npaths = 0
        self.nsteps = 0
        self.funcs_seen = set()
        self.calls_seen = 0
        import models
        self.models = models.Models(self)
        self.assumed_add = set()
        self.local_crates = ('knuffel',) + ((prog.crate,) if prog.crate != 'knuffel' else ())
        self.closure_hook = None
        self.unroll = False      # loops with known bounds are run as they are

    # ---------- facts ----------
    def dom(self, st, t):
        f = st.facts.get(t)
        return past_fact(t) if f is None else f

    def refine(self, st, t, d):
        """intersects the fact about t in place; False if contradictory"""
        o = self.dom(st, t)
        if o is None:
            if d[0] == 'in' and not d[1]:
                return False
            if d[0] == 'iv' and not d[1]:
                return False
            st.facts[t] = d
            return True
        if o[0] == 'iv' or d[0] == 'iv':
            if o[0] != 'iv' or d[0] != 'iv':
                return True
            r = iv_and(o[1], d[1])
            if not r:
                return False
            st.facts[t] = ('iv', r)
            return True
        if o[0] == 'in':
            r = (o[1] & d[1]) if d[0] == 'in' else (o[1] - d[1])
            if not r:
                return False
            st.facts[t] = ('in', r)
            return True
        # o out
        if d[0] == 'in':
            r = d[1] - o[1]
            if not r:
                return False
            st.facts[t] = ('in', r)
        else:
            st.facts[t] = ('out', o[1] | d[1])
        return True

    def ivof(self, st, t, ty=None):
        if t.op == 'k':
            return ((t.a[0], t.a[0]),)
        f = self.dom(st, t)
        u = universe(ty) if ty else ((-INF, INF),)
        if t.op == 'len':
            u = iv_and(u, ((0, (1 << 63) - 1),))
        if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
            x = self.ivof(st, t.a[1])
            y = self.ivof(st, t.a[2])
            if t.a[0] == 'Add':
                r = ((x[0][0] + y[0][0], x[-1][1] + y[-1][1]),)
            else:
                r = ((x[0][0] - y[-1][1], x[-1][1] - y[0][0]),)
            u = iv_and(u, r)
        if t.op == 'cnt':
            lo = self.ivof(st, t.a[2])[0][0]
            u = iv_and(u, ((lo, INF),))
        if f and f[0] == 'iv':
            u = iv_and(u, f[1])
        return u

    def assume(self, st, t, val, ty=None):
        """states in which the boolean term t has value val (forks st)"""
        o = t.op
        if o == 'k':
            return [st] if bool(t.a[0]) == val else []
        if o == 'not':
            return self.assume(st, t.a[0], not val)
        if o == 'and' or o == 'or':
            x, y = t.a
            if (o == 'and') == val:
                r = []
                for s in self.assume(st, x, val):
                    r += self.assume(s, y, val)
                return r
            r = self.assume(st.fork(), x, val)
            for s in self.assume(st, x, not val):
                r += self.assume(s, y, val)
            return r
        if o == 'cmp':
            op, x, y, tyi = t.a
            ty = self.p.ty(tyi) if tyi is not None else None
            if y.op == 'k' or x.op == 'k':
                if x.op == 'k':
                    x, y = y, x
                    op = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(op, op)
                c = y.a[0]
                if x.op == 'discr':
                    return self.assume_discr(st, x, c, (op == 'Eq') == val)
                s = {'Eq': ((c, c),), 'Ne': iv_not(((c, c),)), 'Lt': ((-INF, c - 1),),
                     'Le': ((-INF, c),), 'Gt': ((c + 1, INF),), 'Ge': ((c, INF),)}[op]
                if not val:
                    s = iv_not(s)
                r = iv_and(self.ivof(st, x, ty), s)
                if not r:
                    return []
                if x.op == 'bin' and x.a[0] == 'Add' and x.a[2].op == 'k':
                    # x + c <op> k refines x as well
                    c2 = x.a[2].a[0]
                    sh = tuple((a - c2, b - c2) for a, b in r)
                    base = iv_and(self.ivof(st, x.a[1]), sh)
                    if not base:
                        return []
                    st.facts[x.a[1]] = ('iv', base)
                    return [st]
                st.facts[x] = ('iv', r)
                return [st]
            # ordering of two unknowns
            d = self.cmp_known(st, op, x, y)
            if d is not None:
                return [st] if d == val else []
            if op in ('Ne', 'Ge', 'Gt'):
                op2, v2 = {'Ne': 'Eq', 'Ge': 'Lt', 'Gt': 'Le'}[op], not val
            else:
                op2, v2 = op, val
            if op2 == 'Le':  # x<=y  ==  !(y<x)
                op2, x, y, v2 = 'Lt', y, x, not v2
            if op2 == 'Eq' and x.id > y.id:
                x, y = y, x
            kt = mk('cmp', op2, x, y, None)
            if self.refine(st, kt, ('in', frozenset([int(v2)]))):
                return [st]
            return []
        if o == 'inset':
            x, iv = t.a
            r = iv_and(self.ivof(st, x), iv if val else iv_not(iv))
            if self.dom(st, x) is None:
                r = iv_and(r, CHAR_U)
            if not r:
                return []
            st.facts[x] = ('iv', r)
            return [st]
        if o == 'eqs':
            x, c = t.a
            if c.op == 'str':
                d = ('in' if val else 'out', frozenset([c.a[0]]))
                if self.refine(st, x, d):
                    return [st]
                return []
        if self.refine(st, t, ('in', frozenset([int(val)]))):
            return [st]
        return []

    def cmp_known(self, st, op, x, y):
        a, b = self.ivof(st, x), self.ivof(st, y)
        if x is y:
            return op in ('Eq', 'Le', 'Ge')
        alo, ahi, blo, bhi = a[0][0], a[-1][1], b[0][0], b[-1][1]
        r = {'Lt': (ahi < blo, alo >= bhi), 'Le': (ahi <= blo, alo > bhi),
             'Gt': (alo > bhi, ahi <= blo), 'Ge': (alo >= bhi, ahi < blo),
             'Eq': (alo == ahi == blo == bhi, not iv_and(a, b)),
             'Ne': (not iv_and(a, b), alo == ahi == blo == bhi)}[op]
        if r[0]:
            return True
        if r[1]:
            return False
        return None

    def variant_idx(self, path, discr):
        for i, v in enumerate(self.p.adts[path]['v']):
            if v['d'] == discr:
                return i
        return None

    def assume_discr(self, st, x, c, val):
        v, path = x.a
        i = self.variant_idx(path, c)
        if i is None:
            return [] if val else [st]
        return self.assume_variant(st, v, path, [i], val)

    def assume_variant(self, st, v, path, idxs, val=True):
        n = len(self.p.adts[path]['v'])
        s = frozenset(idxs)
        if not val:
            s = frozenset(range(n)) - s
        if v.op == 'adt':
            return [st] if v.a[1] in s else []
        if self.refine(st, v, ('in', s)):
            return [st]
        return []

    def known_variant(self, st, v, path=None):
        if v.op == 'adt':
            return v.a[1]
        f = self.dom(st, v)
        if f and f[0] == 'in' and len(f[1]) == 1:
            x = next(iter(f[1]))
            if isinstance(x, int):
                return x
        return None

    # ---------- memory ----------
    def heap(self, st, v):
        loc = ('H', st.hn)
        st.hn += 1
        st.mem[loc] = v
        return mk('ref', loc, ())

    def project(self, st, v, step):
        kd = step[0]
        if kd == 'f':
            _, vi, idx, fname, path, vname = step
            o = v.op
            if o == 'adt':
                if path and v.a[0] != path:
                    raise Unsupported('projection %s of %s' % (path, show(v)[:80]))
                return v.a[3][idx]
            if o == 'tup':
                return v.a[idx]
            if o == 'closure':
                return v.a[2][idx]
            if o == 'upd':
                if v.a[1] == vname and v.a[2] == fname:
                    return v.a[3]
                return self.project(st, v.a[0], step)
            if o == 'uninit':
                return UNINIT
            if o in ('map', 'seq', 'str', 'it'):
                raise Unsupported('field of ' + o)
            return mk('fld', v, path or '', vname or '', fname)
        if kd == 'i':
            return self.index(st, v, step[1])
        if kd == 'ci':
            off, fe = step[1], step[2]
            if v.op == 'seq' and all(p.op == 'one' for p in v.a):
                return v.a[-off if fe else off].a[0]
            if v.op == 'adt' or v.op == 'tup':
                raise Unsupported('ci')
            if not fe:
                return self.index(st, v, k(off))
            return mk('elemb', v, off)
        if kd == 'ss':
            fr, to, fe = step[1:]
            if v.op == 'seq' and all(p.op == 'one' for p in v.a):
                ps = v.a[fr:(len(v.a) - to if fe else to)]
                return seq(*ps)
            if fe and to == 0:
                return self.drop_n(v, fr)
            return mk('sub', v, fr, to, fe)
        raise Unsupported(kd)

    def drop_n(self, v, n):
        if n == 0:
            return v
        if v.op == 'drop':
            return mk('drop', v.a[0], v.a[1] + n)
        return mk('drop', v, n)

    def index(self, st, v, i):
        if i.op == 'k':
            n = i.a[0]
            if v.op == 'seq':
                q = []
                for p in v.a:
                    if p.op != 'one':
                        break
                    q.append(p.a[0])
                if n < len(q):
                    return q[n]
            if v.op == 'drop':
                return mk('elem', v.a[0], n + v.a[1])
            return mk('elem', v, n)
        return mk('elemi', v, i)

    def read(self, st, base, path):
        if base[0] == 'loc':
            v = st.mem.get(base[1])
            if v is None:
                v = UNINIT
        else:
            v = base[1]
        for s in path:
            v = self.project(st, v, s)
        return v

    def update(self, st, v, path, nv):
        if not path:
            return nv
        s = path[0]
        if s[0] == 'f':
            _, vi, idx, fname, apath, vname = s
            if v.op == 'adt':
                fs = list(v.a[3])
                fs[idx] = self.update(st, fs[idx], path[1:], nv)
                return mk('adt', v.a[0], v.a[1], v.a[2], tuple(fs))
            if v.op == 'tup':
                fs = list(v.a)
                fs[idx] = self.update(st, fs[idx], path[1:], nv)
                return mk('tup', *fs)
            if v.op == 'closure':
                fs = list(v.a[2])
                fs[idx] = self.update(st, fs[idx], path[1:], nv)
                return mk('closure', v.a[0], v.a[1], tuple(fs))
            old = self.project(st, v, s) if v.op != 'uninit' else UNINIT
            new = self.update(st, old, path[1:], nv)
            if new is old:
                return v
            # replace earlier update of the same field
            chain = []
            b = v
            while b.op == 'upd':
                if not (b.a[1] == vname and b.a[2] == fname):
                    chain.append(b)
                b = b.a[0]
            for c in reversed(chain):
                b = mk('upd', b, c.a[1], c.a[2], c.a[3])
            return mk('upd', b, vname, fname, new)
        if s[0] == 'i' and s[1].op == 'k' and v.op == 'seq' and all(p.op == 'one' for p in v.a):
            ps = list(v.a)
            n = s[1].a[0]
            ps[n] = one(self.update(st, ps[n].a[0], path[1:], nv))
            return seq(*ps)
        if s[0] == 'i':
            return mk('setelem', v, s[1], nv)
        raise Unsupported('write ' + s[0])

    def write(self, st, base, path, v):
        if base[0] != 'loc':
            raise Unsupported('write through shared value')
        loc = base[1]
        if not path:
            st.mem[loc] = v
        else:
            st.mem[loc] = self.update(st, st.mem.get(loc, UNINIT), path, v)

    def deref(self, st, v):
        """place denoted by a pointer value"""
        if v.op == 'vref':
            return ('val', v.a[0]), ()
        if v.op == 'ref':
            return ('loc', v.a[0]), v.a[1]
        if v.op == 'uninit':
            raise Unsupported('deref of uninitialised')
        return ('val', mk('deref', v)), ()

    def load(self, st, v):
        """value behind a pointer"""
        b, p = self.deref(st, v)
        return self.read(st, b, p)

    def store(self, st, ptr, v):
        b, p = self.deref(st, ptr)
        self.write(st, b, p, v)

    def mkvref(self, v):
        if v.op == 'deref':
            return v.a[0]
        return vref(v)

    def dest(self, st, fr, pl):
        if isinstance(pl, int):
            return ('loc', ('L', fr.depth, pl)), ()
        return self.resolve(st, fr, pl)[:2]

    def resolve(self, st, fr, pl):
        if isinstance(pl, int):
            al = st.mem.get(('L', fr.depth, pl))
            if al is not None and al.op == 'alias':
                return ('loc', al.a[0].a[0]), al.a[0].a[1], fr.fn.locals[pl]
            return ('loc', ('L', fr.depth, pl)), (), fr.fn.locals[pl]
        local, projs = pl
        base = ('loc', ('L', fr.depth, local))
        path = ()
        ty = fr.fn.locals[local]
        var = None
        al = st.mem.get(base[1])
        if al is not None and al.op == 'alias':
            base, path = ('loc', al.a[0].a[0]), al.a[0].a[1]
        for e in projs:
            kd = e[0]
            t = self.p.ty(ty)
            nty = e[-1]['t']
            if kd == '*':
                if t.get('p') == BOX:
                    pass
                else:
                    v = self.read(st, base, path)
                    base, path = self.deref(st, v)
            elif kd == 'f':
                p = t.get('p')
                if p in TRANSPARENT:
                    pass
                elif p == BOX:
                    if base[0] == 'loc':
                        v = mk('ref', base[1], path)
                    else:
                        v = self.mkvref(self.read(st, base, path))
                    base, path = ('val', v), ()
                elif p in ('std::ptr::Unique', 'std::ptr::NonNull', 'core::ptr::Unique', 'core::ptr::NonNull'):
                    pass
                else:
                    if t['k'] == 'adt':
                        vi = var if var is not None else 0
                        vn = self.p.adts[p]['v'][vi]['n']
                        path = path + (('f', vi, e[2], e[1], p, vn),)
                    else:
                        path = path + (('f', 0, e[2], e[1], None, None),)
                var = None
            elif kd == 'd':
                var = e[2]
            elif kd == 'i':
                path = path + (('i', st.mem[('L', fr.depth, e[1])]),)
            elif kd == 'ci':
                path = path + (('ci', e[1], e[3]),)
            elif kd == 'ss':
                path = path + (('ss', e[1], e[2], e[3]),)
            else:
                raise Unsupported('projection ' + kd)
            ty = nty
        return base, path, ty

    # ---------- operands ----------
    def const(self, st, c):
        kd = c['c']
        ty = self.p.ty(c['t']) if 't' in c else None
        if kd == 'int':
            tk = ty['k']
            return k(c['v'], tk if tk in ('bool', 'char', 'float') else 'int')
        if kd == 'str':
            return vref(string(c['v']))
        if kd == 'bytes':
            return vref(mk('bytes', tuple(c['v'])))
        if kd == 'ref':
            return vref(self.const(st, c['v']))
        if kd == 'fn':
            return self.fnval(c['v'])
        if kd == 'agg':
            fs = [self.const(st, f) for f in c['f']]
            if ty['k'] == 'tuple':
                return tup(*fs)
            if ty['k'] == 'array':
                return seqof(fs)
            v = self.p.adts[ty['p']]['v'][c['v']]
            if ty['p'] in TRANSPARENT:
                return fs[0] if fs else UNINIT
            return adt(ty['p'], c['v'], v['n'], fs, [f['n'] for f in v['f']])
        if kd == 'zst':
            if ty['k'] == 'tuple':
                return UNIT
            if ty['k'] == 'adt':
                v = self.p.adts[ty['p']]['v'][0]
                if not v['f']:
                    return adt(ty['p'], 0, v['n'], ())
            if ty['k'] == 'array':
                return EMPTY
            if ty['k'] == 'closure':
                ks = [f for f in self.p.funcs.values() if f.raw == ty['p']]
                if ks:
                    return mk('closure', ks[0].key, ty.get('ck'), ())
            return mk('zst', ty['s'])
        if kd == 'promoted':
            fn = self.p.funcs.get(c['v'])
            if fn is None:
                return mk('sym', 'const:' + c['v'])
            r = self.call_fn(fn, [], st.fork(), 'promoted')
            if len(r) == 1 and r[0][1] == RET:
                s2, _, v = r[0]
                return self.freeze(s2, v)
            raise Unsupported('promoted')
        if kd == 'param':
            return mk('sym', 'constparam:' + str(c['v']))
        if ty and ty.get('p') == OPTION and str(c.get('v')).startswith('Scalar(0x') and \
                int(str(c['v'])[7:-1], 16) == 0:
            return NONE      # null pointer niche
        return mk('opq', str(c.get('v')), self.p.tys(c['t']) if 't' in c else '')

    def freeze(self, st, v):
        """snapshot pointers into values"""
        if v.op == 'ref':
            return vref(self.freeze(st, self.load(st, v)))
        if v.op == 'vref':
            return vref(self.freeze(st, v.a[0]))
        if v.op == 'tup':
            return mk('tup', *[self.freeze(st, x) for x in v.a])
        if v.op == 'adt':
            return mk('adt', v.a[0], v.a[1], v.a[2], tuple(self.freeze(st, x) for x in v.a[3]))
        if v.op in ('seq', 'one'):
            return mk(v.op, *[self.freeze(st, x) for x in v.a])
        if v.op == 'closure':
            return mk('closure', v.a[0], v.a[1], tuple(self.freeze(st, x) for x in v.a[2]))
        return v

    def fnval(self, cal):
        key = id(cal)
        d = self.__dict__.setdefault('_fnv', {})
        if key not in d:
            n = cal.get('key') or cal.get('name') or cal['decl']
            t = mk('fn', n, tuple(self.p.tys(x) for x in cal['targs']))
            d[key] = t
            self.p.__dict__.setdefault('_fnc', {})[t] = cal
        return d[key]

    def operand(self, st, fr, o):
        if o[0] == 'k':
            return self.const(st, o[1])
        b, p, _ = self.resolve(st, fr, o[1])
        return self.read(st, b, p)

    # ---------- rvalues ----------
    def rvalue(self, st, fr, r):
        kd = r[0]
        if kd == 'use':
            if r[1][0] == 'cp':
                # only a dereferenced box is ever copied: the copy is the same place
                b, p, ty = self.resolve(st, fr, r[1][1])
                if b[0] == 'loc' and self.p.ty(ty).get('p') == BOX:
                    return mk('alias', mk('ref', b[1], p))
                return self.read(st, b, p)
            return self.operand(st, fr, r[1])
        if kd == 'ref':
            b, p, ty = self.resolve(st, fr, r[2])
            if r[1]:
                if b[0] == 'loc':
                    return mk('ref', b[1], p)
                v = self.read(st, b, p)
                if v.op == 'deref':
                    return v.a[0]
                return self.heap(st, v)
            return self.mkvref(self.read(st, b, p))
        if kd == 'agg':
            fs = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            if a[0] == 'tuple':
                return self.mktup(fs)
            if a[0] == 'array':
                return seqof(fs)
            if a[0] == 'adt':
                if a[1] in TRANSPARENT:
                    return fs[0] if fs else UNINIT
                if a[5] is not None:
                    raise Unsupported('union')
                return adt(a[1], a[2], a[3], fs, a[4])
            if a[0] == 'closure':
                return mk('closure', a[1], a[2], tuple(fs))
            if a[0] == 'rawptr':
                return fs[0]
            raise Unsupported('aggregate ' + a[0])
        if kd == 'discr':
            b, p, ty = self.resolve(st, fr, r[1])
            v = self.read(st, b, p)
            return self.discr(st, v, self.p.ty(r[2]))
        if kd == 'bin':
            x = self.operand(st, fr, r[2])
            y = self.operand(st, fr, r[3])
            return self.binop(st, r[1], x, y, r[4])
        if kd == 'un':
            x = self.operand(st, fr, r[2])
            op = r[1]
            if op == 'Not':
                ty = self.p.ty(r[3])
                if ty['k'] == 'bool':
                    return self.tnot(x)
                return app('bitnot', x)
            if op == 'Neg':
                if x.op == 'k' and x.a[1] == 'int':
                    return k(-x.a[0])
                return app('neg', x)
            if op == 'PtrMetadata':
                return self.seqlen(st, self.load(st, x))
            raise Unsupported(op)
        if kd == 'cast':
            ck = r[1]
            x = self.operand(st, fr, r[2])
            to, frm = self.p.ty(r[3]), self.p.ty(r[4])
            if ck == 'IntToInt':
                tu = universe(to)
                if x.op == 'k':
                    n = x.a[0]
                    if not any(a <= n <= b for a, b in tu):
                        w = tu[-1][1] - tu[0][0] + 1
                        n = (n - tu[0][0]) % w + tu[0][0]
                    return k(n, 'char' if to['k'] == 'char' else 'int')
                iv = self.ivof(st, x, frm if frm['k'] in ('int', 'uint', 'char', 'bool') else None)
                if iv_and(iv, iv_not(tu)) == ():
                    return x
                if frm['k'] == 'adt':
                    return x
                return app('cast:' + to['s'], x)
            if ck.startswith('FloatTo') or ck.startswith('IntToFloat'):
                return app('cast:' + to['s'], x)
            return x
        if kd == 'rep':
            x = self.operand(st, fr, r[1])
            if r[2] is not None and r[2] <= 64:
                return seqof([x] * r[2])
            return app('repeat', x)
        raise Unsupported('rvalue ' + kd + ' ' + str(r[1:])[:100])

    def mktup(self, fs):
        if fs:
            x = None
            for i, f in enumerate(fs):
                if f.op == 'fld' and f.a[1] == '' and f.a[3] == str(i) and (x is None or f.a[0] is x):
                    x = f.a[0]
                else:
                    x = None
                    break
            # a tuple rebuilt from a pair element (only safe when complete, pairs)
            if x is not None and len(fs) == 2:
                return x
        return mk('tup', *fs)

    def tnot(self, x):
        if x.op == 'k':
            return boolc(not x.a[0])
        if x.op == 'not':
            return x.a[0]
        return mk('not', x)

    def discr(self, st, v, ty):
        path = ty.get('p')
        if path is None:
            raise Unsupported('discriminant of ' + ty['s'])
        if v.op == 'adt':
            return k(self.p.adts[path]['v'][v.a[1]]['d'])
        i = self.known_variant(st, v)
        if i is not None:
            return k(self.p.adts[path]['v'][i]['d'])
        return mk('discr', v, path)

    def seqlen(self, st, v):
        if v.op == 'seq' and all(p.op == 'one' for p in v.a):
            return k(len(v.a))
        if v.op == 'seq':
            n = sum(1 for p in v.a if p.op == 'one')
            r = k(n)
            for p in v.a:
                if p.op == 'all':
                    r = self.binop(st, 'Add', self.seqlen(st, p.a[0]), r, None)
            return r
        if v.op == 'map':
            if v.a[0].op == 'seq' and not v.a[0].a:
                return k(0)
            return mk('len', v)
        if v.op == 'str':
            return k(len(v.a[0].encode()))
        if v.op == 'bytes':
            return k(len(v.a[0]))
        if v.op == 'drop':
            return self.binop(st, 'Sub', self.seqlen(st, v.a[0]), k(v.a[1]), None)
        if v.op == 'rev':
            return self.seqlen(st, v.a[0])
        if v.op == 'compr' and v.a[3] and len(v.a[1]) == 1 and all(
                len(it) == 1 and it[0].op == 'one' for _, it in v.a[2]):
            (src, k0, n), = v.a[1]
            r = self.seqlen(st, src)
            return r if k0 == 0 else self.binop(st, 'Sub', r, k(k0), None)
        f = st.facts.get(mk('len', v))
        if f and f[0] == 'iv' and len(f[1]) == 1 and f[1][0][0] == f[1][0][1]:
            return k(f[1][0][0])
        return mk('len', v)

    def binop(self, st, op, x, y, tyi):
        ty = self.p.ty(tyi) if tyi is not None else None
        if op.endswith('WithOverflow'):
            base = op[:-len('WithOverflow')]
            if x.op == 'k' and y.op == 'k':
                n = {'Add': x.a[0] + y.a[0], 'Sub': x.a[0] - y.a[0], 'Mul': x.a[0] * y.a[0]}[base]
                u = universe(ty)
                o = not any(a <= n <= b for a, b in u)
                return tup(k(n), boolc(o))
            r = self.binop(st, base, x, y, tyi)
            return tup(r, mk('ovf', base, x, y, tyi))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if x.op == 'k' and y.op == 'k':
                a, b = x.a[0], y.a[0]
                return boolc({'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op])
            if ty is not None and ty['k'] == 'bool':
                if y.op == 'k':
                    r = x if y.a[0] else self.tnot(x)
                    return r if op == 'Eq' else self.tnot(r)
            if x.op in ('fn', 'closure') or y.op in ('fn', 'closure'):
                return mk('app', 'ptr_eq', (x, y))
            d = self.cmp_known(st, op, x, y) if x.op not in ('discr',) and y.op not in ('discr',) and \
                (ty is None or ty['k'] in ('int', 'uint', 'char', 'bool')) else None
            if d is not None:
                return boolc(d)
            return mk('cmp', op, x, y, tyi)
        if ty is not None and ty['k'] == 'bool':
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                if op == 'BitXor':
                    if y.op == 'k':
                        return self.tnot(x) if y.a[0] else x
                    if x.op == 'k':
                        return self.tnot(y) if x.a[0] else y
                    return mk('or', mk('and', x, self.tnot(y)), mk('and', self.tnot(x), y))
                z = op == 'BitAnd'
                for a, b in ((x, y), (y, x)):
                    if a.op == 'k':
                        if bool(a.a[0]) == z:
                            return b
                        return a
                return mk('and' if z else 'or', x, y)
        op = op.replace('Unchecked', '')
        if x.op == 'k' and y.op == 'k' and x.a[1] != 'float':
            a, b = x.a[0], y.a[0]
            try:
                n = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'BitAnd': lambda: a & b,
                     'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b, 'Shl': lambda: a << b, 'Shr': lambda: a >> b,
                     'Div': lambda: a // b, 'Rem': lambda: a % b}[op]()
                if ty is not None:
                    u = universe(ty)
                    if not any(p <= n <= q for p, q in u):
                        w = u[-1][1] - u[0][0] + 1
                        n = (n - u[0][0]) % w + u[0][0]
                return k(n)
            except (KeyError, ZeroDivisionError):
                pass
        if op == 'Add':
            if x.op == 'k' and x.a[0] == 0:
                return y
            if y.op == 'k' and y.a[0] == 0:
                return x
            if x.op == 'k':
                x, y = y, x
            if y.op == 'k' and x.op == 'bin' and x.a[0] == 'Add' and x.a[2].op == 'k':
                return self.binop(st, 'Add', x.a[1], k(x.a[2].a[0] + y.a[0]), tyi)
            if y.op == 'k' and x.op == 'bin' and x.a[0] == 'Sub' and x.a[2].op == 'k':
                d = y.a[0] - x.a[2].a[0]
                if d == 0:
                    return x.a[1]
                return self.binop(st, 'Add' if d > 0 else 'Sub', x.a[1], k(abs(d)), tyi)
            if y.op != 'k' and x.id > y.id:
                x, y = y, x
            return mk('bin', 'Add', x, y)
        if op == 'Sub':
            if y.op == 'k' and y.a[0] == 0:
                return x
            if x is y:
                return k(0)
            if y.op == 'k' and x.op == 'bin' and x.a[0] == 'Add' and x.a[2].op == 'k':
                d = x.a[2].a[0] - y.a[0]
                if d == 0:
                    return x.a[1]
                return self.binop(st, 'Add' if d > 0 else 'Sub', x.a[1], k(abs(d)), tyi)
            if x.op == 'bin' and x.a[0] == 'Add' and y in (x.a[1], x.a[2]):
                return x.a[2] if y is x.a[1] else x.a[1]
            return mk('bin', 'Sub', x, y)
        return mk('bin', op, x, y)

    # ---------- calls ----------
    def norm_args(self, st, args):
        out = []
        for a in args:
            if a.op == 'vref':
                out.append(a.a[0])
            elif a.op == 'ref':
                loc = a.a[0]
                v = self.load(st, a)
                w = v.a[1] if v.op == 'hv' else v
                if loc[0] == 'A' and not a.a[1] or w.op == 'adt' and w.a[0] == 'knuffel::decode::Context':
                    out.append(mk('mut'))
                else:
                    # which place, and whether a callee may have changed it before
                    out.append(mk('mut', mk('at', a), v if v.op == 'hv' else UNIT))
            else:
                out.append(a)
        return tuple(self.snap(st, a) for a in out)

    def snap(self, st, a):
        if a.op in ('tup', 'adt', 'closure'):
            return self.freeze(st, a)
        return a

    def opaque_call(self, st, name, args, site, cal=None):
        na = self.norm_args(st, args)
        st.ev('call', name, na, site)
        for a in args:
            self.havoc(st, a, name)
        return [(st, RET, mk('app', name, na))]

    def havoc(self, st, a, name):
        if a.op == 'ref':
            old = self.load(st, a)
            names = frozenset([name])
            if old.op == 'hv':
                names |= old.a[0]
                old = old.a[1]
            if old.op == 'sym' and old.a[0] == 'ctx':
                return
            self.store(st, a, mk('hv', names, old))
        elif a.op in ('tup',):
            for x in a.a:
                self.havoc(st, x, name)
        elif a.op == 'closure':
            for x in a.a[2]:
                self.havoc(st, x, name)

    def is_local(self, cal):
        raw = cal.get('raw')
        return raw is not None and raw.split('::', 1)[0] in self.local_crates

    def call(self, cal, args, st, site, dty=None):
        """all outcomes of a call"""
        self.calls_seen += 1
        if 'ctor' in cal:
            path, vi = cal['ctor']
            v = self.p.adts[path]['v'][vi]
            return [(st, RET, adt(path, vi, v['n'], args, [f['n'] for f in v['f']]))]
        tr = cal.get('trait')
        if tr in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn'):
            a = args[1]
            fs = list(a.a) if a.op == 'tup' else self.untuple(cal, a)
            return self.apply(st, args[0], fs, site)
        oname = self.opaque(cal)
        if oname:
            return self.opaque_call(st, oname, args, site, cal)
        key = cal.get('key')
        if key is not None and self.is_local(cal):
            m = self.models.local(cal)
            if m is not None:
                r = m(st, cal, args, site, dty)
                if r is not None:
                    return r
            fn = self.p.funcs.get(key)
            if fn is not None and fn.body is not None:
                return self.call_fn(fn, args, st, site, cal)
        r = self.models.call(st, cal, args, site, dty)
        if r is not None:
            return r
        if key is not None:
            fn = self.p.funcs.get(key)
            if fn is not None and fn.body is not None:
                return self.call_fn(fn, args, st, site, cal)
        if cal.get('kind') in ('unresolved', 'virtual'):
            nm = cal['decl'] + '<' + (self.p.tys(cal['self']) if 'self' in cal else '') + '>'
            return self.opaque_call(st, nm, args, site, cal)
        nm = cal.get('name') or cal['decl']
        st.note('unmodelled ' + nm)
        return self.opaque_call(st, nm, args, site, cal)

    def untuple(self, cal, a):
        t = self.p.ty(cal['targs'][1])
        n = len(t.get('a', []))
        return [mk('fld', a, '', '', str(i)) for i in range(n)]

    def apply(self, st, f, args, site):
        g = f
        ptr = None
        while g.op in ('vref', 'ref'):
            ptr = g
            g = self.load(st, g)
        if g.op == 'closure':
            fn = self.p.funcs.get(g.a[0])
            if fn is None or fn.body is None:
                raise Unsupported('closure body ' + g.a[0])
            lt = self.p.ty(fn.locals[1])
            if lt['k'] == 'ref':
                if ptr is None:
                    ptr = self.heap(st, g)
                me = ptr
            else:
                me = g
            return self.call_fn(fn, [me] + list(args), st, site)
        if g.op == 'fn':
            cal = self.p._fnc[g]
            return self.call(cal, list(args), st, site)
        if g.op == 'pyfn':
            return g.a[0](st, args, site)
        return self.opaque_call(st, 'apply', [g] + list(args), site)

    def call_fn(self, fn, args, st, site, cal=None):
        if any(kx == fn.key for kx, _ in self.stack):
            return self.opaque_call(st, 'rec:' + fn.name, args, site)
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        if fn.loops is None:
            analyse(fn)
        self.funcs_seen.add(fn.key)
        fr = Frame(fn, len(self.stack))
        if fn.nargs != len(args):
            raise Unsupported('arity of ' + fn.key[:80])
        for i, a in enumerate(args):
            st.mem[('L', fr.depth, i + 1)] = a
        self.stack.append((fn.key, site))
        try:
            backs, exits, outs = self.region(fr, st, 0, None, None)
        finally:
            self.stack.pop()
        res = []
        for s, kd, v in outs:
            self.drop_frame(s, fr.depth)
            res.append((s, kd, v))
        return res

    def drop_frame(self, st, depth):
        for l in [l for l in st.mem if l[0] == 'L' and l[1] >= depth]:
            del st.mem[l]

    def prune(self, st, fr, bb):
        """drop dead locals of the frame at block entry"""
        live = set(fr.fn.livein[bb])
        # locals behind live pointers stay
        work = [st.mem[('L', fr.depth, l)] for l in live if ('L', fr.depth, l) in st.mem]
        for l, v in st.mem.items():
            if not (l[0] == 'L' and l[1] == fr.depth):
                work.append(v)
        seen = set()
        while work:
            v = work.pop()
            for x in refs_in(v):
                l = x.a[0]
                if l in seen:
                    continue
                seen.add(l)
                if l[0] == 'L' and l[1] == fr.depth:
                    live.add(l[2])
                if l in st.mem:
                    work.append(st.mem[l])
        for l in [l for l in st.mem if l[0] == 'L' and l[1] == fr.depth and l[2] not in live]:
            del st.mem[l]
        # garbage on the heap
        work = [v for l, v in st.mem.items() if l[0] != 'H']
        seen = set()
        while work:
            v = work.pop()
            for x in refs_in(v):
                l = x.a[0]
                if l[0] == 'H' and l not in seen:
                    seen.add(l)
                    if l in st.mem:
                        work.append(st.mem[l])
        for l in [l for l in st.mem if l[0] == 'H' and l not in seen]:
            del st.mem[l]

    # ---------- control flow ----------
    def region(self, fr, st, bb, header, body):
        """executes from bb; returns back-edge states, (state, block) exits from
        the loop body, and function outcomes"""
        fn = fr.fn
        work = [(st, bb, True)]
        backs, exits, outs = [], [], []
        joined = {}
        while work:
            st, bb, first = work.pop()
            if not first:
                if bb == header:
                    backs.append(st)
                    continue
                if body is not None and bb not in body:
                    exits.append((st, bb))
                    continue
            first_in = first and bb == header
            if bb in fn.loops and not first_in and not self.unroll:
                ex, ou = self.loop(fr, st, bb)
                outs.extend(ou)
                for s, b in ex:
                    work.append((s, b, False))
                continue
            if len(fn.preds[bb]) > 1 and not first_in:
                self.prune(st, fr, bb)
                ky = (st.key(), st.trace, st.pulls)
                js = joined.setdefault(bb, set())
                if ky in js:
                    continue
                js.add(ky)
            self.nsteps += 1
            blk = fn.blocks[bb]
            try:
                for s in blk['s']:
                    if s[0] == '=':
                        v = self.rvalue(st, fr, s[2])
                        b, p = self.dest(st, fr, s[1])
                        self.write(st, b, p, v)
                    elif s[0] == 'setd':
                        raise Unsupported('setd')
                t = blk['t']
                o = t[0]
                if o == 'goto':
                    work.append((st, t[1], False))
                elif o == 'ret':
                    self.npaths += 1
                    if self.npaths > self.max_paths:
                        raise Unsupported('too many paths')
                    outs.append((st, RET, st.mem.get(('L', fr.depth, 0), UNIT)))
                elif o == 'sw':
                    for s, b in self.switch(st, fr, t):
                        work.append((s, b, False))
                elif o == 'call':
                    f = t[1]
                    args = [self.operand(st, fr, a) for a in t[2]]
                    site = '%s#%d' % (t[5], bb)
                    if f['c'] == 'fn':
                        rs = self.call(f['v'], args, st, site, t[6])
                    elif f['c'] == 'dynfn':
                        rs = self.apply(st, self.operand(st, fr, f['v']), args, site)
                    else:
                        raise Unsupported('callee ' + f['c'])
                    for s, kd, v in rs:
                        if kd == RET:
                            if t[4] is None:
                                outs.append((s, PANIC, mk('panic', 'diverge', f.get('v', {}).get('name', '') if f['c'] == 'fn' else '', site)))
                                continue
                            b, p = self.dest(s, fr, t[3])
                            self.write(s, b, p, v)
                            work.append((s, t[4], False))
                        else:
                            outs.append((s, kd, v))
                elif o == 'assert':
                    for s, okk in self.do_assert(st, fr, t):
                        if okk is None:
                            work.append((s, t[4], False))
                        else:
                            outs.append((s, PANIC, okk))
                elif o == 'unreach':
                    pass
                elif o == 'unwind':
                    pass
                else:
                    raise Unsupported('terminator ' + str(t)[:80])
            except KeyError as e:
                raise Unsupported('%s bb%d: KeyError %s' % (fn.name, bb, e))
        return backs, exits, outs

    def do_assert(self, st, fr, t):
        cond = self.operand(st, fr, t[1])
        exp = t[2]
        msg = t[3]
        res = []
        if cond.op == 'ovf':
            op, x, y, tyi = cond.a
            if op in ('Add', 'Mul') and self.p.ty(tyi)['k'] == 'uint' and self.p.ty(tyi)['n'] in ('usize', 'u64'):
                self.assumed_add.add((fr.fn.name, t[5]))
                return [(st, None)]
            if op == 'Sub':
                d = self.cmp_known(st, 'Ge', x, y)
                if d is None:
                    f = st.facts.get(mk('cmp', 'Lt', x, y, None))
                    if f == ('in', frozenset([0])):
                        d = True
                if d:
                    return [(st, None)]
            s2 = st.fork()
            return [(st, None), (s2, mk('panic', 'overflow', op, t[5]))]
        for s in self.assume(st.fork(), cond, not exp):
            res.append((s, mk('panic', msg[0], '', t[5])))
        for s in self.assume(st, cond, exp):
            res.append((s, None))
        return res

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        ty = self.p.ty(t[4])
        if v.op == 'k':
            for c, b in t[2]:
                if c == v.a[0]:
                    return [(st, b)]
            return [(st, t[3])]
        res = []
        if v.op == 'discr':
            x, path = v.a
            rest = set(range(len(self.p.adts[path]['v'])))
            for c, b in t[2]:
                i = self.variant_idx(path, c)
                if i is None:
                    continue
                rest.discard(i)
                for s in self.assume_variant(st.fork(), x, path, [i]):
                    res.append((s, b))
            if rest:
                for i in sorted(rest):
                    if fr.fn.blocks[t[3]]['t'][0] == 'unreach':
                        break
                    for s in self.assume_variant(st.fork(), x, path, [i]):
                        res.append((s, t[3]))
            return res
        if ty['k'] == 'bool':
            for c, b in t[2]:
                for s in self.assume(st.fork(), v, bool(c)):
                    res.append((s, b))
            cs = {bool(c) for c, _ in t[2]}
            for c in (True, False):
                if c not in cs:
                    for s in self.assume(st.fork(), v, c):
                        res.append((s, t[3]))
            return res
        iv = self.ivof(st, v, ty)
        rest = iv
        for c, b in t[2]:
            r = iv_and(iv, ((c, c),))
            if r:
                s = st.fork()
                s.facts[v] = ('iv', r)
                res.append((s, b))
            rest = iv_and(rest, iv_not(((c, c),)))
        if rest:
            s = st.fork()
            s.facts[v] = ('iv', rest)
            res.append((s, t[3]))
        return res

    # ---------- loops ----------
    def loop_id(self, tag):
        return '/'.join([str(s) for _, s in self.stack] + [str(tag)])

    def loop(self, fr, st, header):
        body = fr.fn.loops[header]
        L = self.loop_id('bb%d' % header)

        def run(h):
            b, e, o = self.region(fr, h, header, header, body)
            return b, e, o
        ex, ou = self.fix(st, L, run, lambda s: self.prune(s, fr, header))
        return ex, ou

    def fix(self, st, L, run, prune):
        # forget an earlier execution of the same loop
        stale = set()
        for tm in list(st.mem.values()) + list(st.facts):
            for c in atoms(tm):
                if c.a[0] == L:
                    stale.add(c)
        if stale:
            m = {c: mk('old', c.a[0], c.a[1], c.a[2], c.a[3]) for c in stale}
            self.subst_state(st, m)
        if any(f[0] == 'exh' and f[1] == L for f in st.flags):
            st.flags = frozenset(f for f in st.flags if not (f[0] == 'exh' and f[1] == L))
        st.loops = st.loops + (L,)
        pulls0 = st.pulls
        st.pulls = frozenset()
        prune(st)
        heads = [st]
        hid = {(st.key(), st.trace): 0}
        recs = {}
        exits, outs = [], []
        count = 0
        while heads:
            h = heads.pop()
            count += 1
            if count > 300:
                raise Unsupported('loop does not converge ' + L)
            h0 = h.fork()
            me = hid[(h.key(), h.trace)]
            b, e, o = run(h)
            for s in b:
                s, rec = self.close(h0, s, L)
                s.pulls = frozenset()
                prune(s)
                self.rename_heap(h0, s)
                ky = (s.key(), s.trace)
                if ky not in hid:
                    hid[ky] = len(hid)
                    heads.append(s)
                if rec is not None:
                    # head the iteration starts from and the one it leads to
                    recs[rec + (me, hid[ky])] = True
            for s, tgt in e:
                exits.append((h0, s, tgt, me))
            for s, kd, v in o:
                outs.append((h0, s, kd, v, me))
        rset = frozenset(recs)
        # build comprehension values for accumulators
        rexits, routs = [], []
        base = st.loops[:-1]
        for h0, s, tgt, me in exits:
            self.leave(h0, s, L, rset, base, pulls0, None, me)
            rexits.append((s, tgt))
        for h0, s, kd, v, me in outs:
            m = self.leave(h0, s, L, rset, base, pulls0, kd, me)
            routs.append((s, kd, subst(v, m)))
        return rexits, routs

    def leave(self, h0, s, L, rset, base, pulls0, kd=None, me=0):
        n = len(h0.trace)
        full = any(f == ('exh', L) for f in s.flags)
        if not s.dirty:
            # no iteration before a clean exit reported an error
            rset = frozenset(r for r in rset if not r[6])
        if rset:
            lev = mk('ev', 'loop', L, rset, full, me)
            s.trace = s.trace[:n] + (lev,) + s.trace[n:]
        s.loops = base
        s.pulls = pulls0
        accs = set()
        for v in list(s.mem.values()) + list(s.facts):
            for x in walk(v):
                if x.op in ('acc', 'cnt') and x.a[0] == L:
                    accs.add(x)
        for e in s.trace[n:]:
            for x in walk(e):
                if x.op in ('acc', 'cnt') and x.a[0] == L:
                    accs.add(x)
        m = {}
        for x in accs:
            _, lp, init = x.a
            if x.op == 'acc':
                m[x] = cat(init, self.compr(L, lp, rset, full))
            else:
                cases = frozenset((r[0], dict(r[2]).get(lp, k(0))) for r in rset)
                m[x] = mk('count', L, init, self.loop_srcs(rset), cases, full)
        if m:
            memo = {}
            for l in list(s.mem):
                s.mem[l] = subst(s.mem[l], m, memo)
            s.facts = {subst(t, m, memo): v for t, v in s.facts.items()}
            s.trace = s.trace[:n] + tuple(subst(e, m, memo) for e in s.trace[n:])
        return m

    def rename_heap(self, h, s):
        new = sorted(l for l in s.mem if l[0] == 'H' and l not in h.mem)
        if new:
            # drop heap cells of this iteration nothing refers to any more
            ns = set(new)
            todo = [v for l, v in s.mem.items() if l not in ns]
            todo += list(s.facts) + list(s.trace[len(h.trace):])
            live = set()
            while todo:
                v = todo.pop()
                for x in refs_in(v):
                    l = x.a[0]
                    if l in ns and l not in live:
                        live.add(l)
                        todo.append(s.mem[l])
            for l in new:
                if l not in live:
                    del s.mem[l]
            new = [l for l in new if l in live]
        used = {l[1] for l in s.mem if l[0] == 'H'} - {l[1] for l in new}
        m = {}
        n = 0
        for l in new:
            while n in used:
                n += 1
            used.add(n)
            m[l] = ('H', n)
        s.hn = max(used) + 1 if used else 0
        m = {a: b for a, b in m.items() if a != b}
        if m:
            tm = {}
            for v in s.mem.values():
                for x in refs_in(v):
                    if x.a[0] in m:
                        tm[x] = mk('ref', m[x.a[0]], x.a[1])
            memo = {}
            s.mem = {m.get(l, l): subst(v, tm, memo) for l, v in s.mem.items()}

    def loop_srcs(self, rset):
        srcs = set()
        for r in rset:
            srcs |= set(r[3])
        return frozenset(srcs)

    def compr(self, L, lp, rset, full):
        cases = frozenset((r[0], dict(r[2]).get(lp, ())) for r in rset)
        srcs = self.loop_srcs(rset)
        if all(not it for _, it in cases):
            return EMPTY
        if len(srcs) == 1:
            (src, k0, n), = srcs
            c = mk('cur', L, src, k0, n)
            if full and all(len(it) == 1 and it[0].op == 'one' and it[0].a[0] is c for _, it in cases):
                return self.drop_n(src, k0)
        return mk('compr', L, srcs, cases, full)

    def close(self, h, s, L):
        """ends one iteration: s at the back edge, h the state at the head"""
        n = len(h.trace)
        evs = s.trace[n:]
        curs = set()
        for tm in s.facts:
            for c in atoms(tm):
                if c.a[0] == L:
                    curs.add(c)
        for tm in s.mem.values():
            for c in atoms(tm):
                if c.a[0] == L:
                    curs.add(c)
        for tm in evs:
            for c in atoms(tm):
                if c.a[0] == L:
                    curs.add(c)
        if not s.pulls:
            # concrete iteration: nothing unknown was consumed; keep the history
            return s, None
        cls = []
        for tm, d in list(s.facts.items()):
            if any(c.a[0] == L for c in atoms(tm)) or any(c[0].op == 'plist' for c in s.pulls) and any(
                    x.op == 'acc' and x.a[0] == L for x in walk(tm)):
                cls.append((tm, d))
                del s.facts[tm]
        cls = frozenset(cls)
        pushes = {}
        stored = []
        for loc in list(s.mem):
            old = h.mem.get(loc)
            if old is None:
                continue
            new = s.mem[loc]
            s.mem[loc] = self.diff(old, new, L, (loc,), pushes)
            if s.mem[loc] is new and new is not old:
                stored.append((loc, new))
        pre = frozenset(x for v in h.mem.values() for x in walk(v) if x.op == 'past' and x.a[0] == L)
        srcs = frozenset((c.a[1], c.a[2], c.a[3]) for c in curs) | s.pulls
        rec = (cls, evs, tuple(sorted(pushes.items(), key=lambda kv: repr(kv[0]))), srcs, pre, h.dirty, s.dirty)
        # what is known about an element of an earlier iteration, told about 'me'
        me = {c: mk('me', *c.a) for c in curs}
        pcls = frozenset((subst(tm, me), d) for tm, d in cls if not any(x.op == 'past' and x.a[0] == L for x in walk(tm)))
        m = {c: mk('past', c.a[0], c.a[1], c.a[2], c.a[3], pcls) for c in curs}
        if m:
            self.subst_state(s, m)
        s.trace = h.trace
        # values overwritten by this iteration, as seen now and later on
        rec += (frozenset((loc, v, subst(v, m) if m else v) for loc, v in stored),)
        return s, rec

    def subst_state(self, s, m):
        memo = {}
        for l in list(s.mem):
            s.mem[l] = subst(s.mem[l], m, memo)
        s.facts = {subst(t, m, memo): v for t, v in s.facts.items()}

    def diff(self, old, new, L, lp, pushes):
        if old is new:
            return new
        op = parts(old) if old.op != 'seq' else old.a
        if new.op == 'seq' and len(new.a) > len(op) and new.a[:len(op)] == op:
            pushes[lp] = new.a[len(op):]
            if old.op == 'acc' and old.a[0] == L:
                return old
            return mk('acc', L, lp, old)
        if new.op == 'seq' and op and len(new.a) > len(op) and new.a[-len(op):] == op:
            pushes[lp] = (mk('front', *new.a[:-len(op)]),)
            if old.op == 'acc' and old.a[0] == L:
                return old
            return mk('acc', L, lp, old)
        if new.op == old.op and new.op in ('adt', 'tup', 'map', 'ofchars', 'closure', 'upd', 'box'):
            if new.op == 'adt':
                if new.a[:3] == old.a[:3]:
                    fs = tuple(self.diff(o, w, L, lp + (i,), pushes) for i, (o, w) in enumerate(zip(old.a[3], new.a[3])))
                    return mk('adt', *new.a[:3], fs)
                return new
            if new.op == 'closure':
                if new.a[:2] == old.a[:2]:
                    fs = tuple(self.diff(o, w, L, lp + (i,), pushes) for i, (o, w) in enumerate(zip(old.a[2], new.a[2])))
                    return mk('closure', *new.a[:2], fs)
                return new
            if new.op == 'upd':
                if new.a[0] is old.a[0] and new.a[1:3] == old.a[1:3]:
                    return mk('upd', *new.a[:3], self.diff(old.a[3], new.a[3], L, lp + ('u',), pushes))
                return new
            if len(new.a) == len(old.a):
                return mk(new.op, *[self.diff(o, w, L, lp + (i,), pushes) if isinstance(o, T) else w
                                    for i, (o, w) in enumerate(zip(old.a, new.a))])
            return new
        if new.op == 'upd' and old.op != 'upd':
            # first update of a field of an unknown record
            base = new.a[0]
            if base is old and isinstance(new.a[2], str):
                fo = None
                for x in walk(new.a[3]):
                    if x.op == 'fld' and x.a[0] is old and x.a[3] == new.a[2]:
                        fo = x
                        break
                if fo is not None:
                    return mk('upd', *new.a[:3], self.diff(fo, new.a[3], L, lp + ('u',), pushes))
            return new
        if new.op == 'ofchars' and old.op == 'str':
            q = chars_of(old)
            return mk('ofchars', self.diff(q, new.a[0], L, lp + (0,), pushes))
        if new.op == 'bin' and new.a[0] == 'Add':
            inc = None
            if new.a[1] is old:
                inc = new.a[2]
            elif new.a[2] is old:
                inc = new.a[1]
            if inc is not None:
                pushes[lp] = inc
                if old.op == 'cnt' and old.a[0] == L:
                    return old
                return mk('cnt', L, lp, old)
        if new.op == 'k' and old.op == 'k' and new.a[1] == 'int' == old.a[1] and new.a[0] > old.a[0]:
            pushes[lp] = k(new.a[0] - old.a[0])
            return mk('cnt', L, lp, old)
        return new


_past = {}


def past_fact(t):
    """the fact about a term over one element of an earlier iteration, from what
    is known of that element"""
    if t in _past:
        return _past[t]
    r = None
    if t.op != 'past':
        ps = [x for x in walk(t) if x.op == 'past']
        if len(ps) > 1:   # nested ones are parts of the outermost
            inner = {y for x in ps for c in (x.a[1], x.a[4]) for y in walk_any(c) if y.op == 'past'}
            ps = [x for x in ps if x not in inner]
        if len(ps) == 1 and len(ps[0].a) > 4:
            q = subst(t, {ps[0]: mk('me', *ps[0].a[:4])})
            for tm, d in ps[0].a[4]:
                if tm is q:
                    r = d
                    break
    _past[t] = r
    return r


def walk_any(x):
    if isinstance(x, T):
        yield from walk(x)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            yield from walk_any(y)


def refs_in(v):
    """pointers contained in a value (memoised by term)"""
    r = _refs.get(v)
    if r is None:
        r = tuple(x for x in walk(v) if x.op == 'ref')
        _refs[v] = r
    return r


_refs = {}


class Frame:
    __slots__ = ('fn', 'depth')

    def __init__(self, fn, depth):
        self.fn = fn
        self.depth = depth
