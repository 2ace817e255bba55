"""Rules about derived decoders: every abstract path of the code the derive macros
generate for a definition is compared with the meaning of that definition."""
import os

from terms import *
from interp import past_fact, iv_and, INF, Unsupported
from spec import *
import fixtures

T_ = 'knuffel::traits::'
DEC = T_ + 'DecodeScalar::decode'
DN = T_ + 'Decode::decode_node'
DC = T_ + 'DecodeChildren::decode_children'
IC = T_ + 'DecodePartial::insert_child'
IP = T_ + 'DecodePartial::insert_property'
DS = T_ + 'DecodeSpan::decode_span'
BYTES = 'knuffel::decode::bytes'
FLAG = 'knuffel::decode::check_flag_node'
AS_STR = 'knuffel::ast::TypeName::as_str'
TNC = '<knuffel::ast::TypeName as std::clone::Clone>::clone'
DECODERS = (DEC, DN, DC, IC, IP, BYTES, FLAG)
_names = {DEC, DN, DC, IC, IP, DS, BYTES, FLAG, AS_STR, TNC,
          T_ + 'DecodeScalar::raw_decode', T_ + 'DecodeScalar::type_check'}


def opaque(cal):
    n = cal.get('name')
    if n in _names:
        return n
    if n == '<kvfix::Txt as std::str::FromStr>::from_str':
        return 'from_str:kvfix::Txt'
    if n and n.startswith('<kvfix::Raw as std::convert::TryFrom'):
        return 'try_from:kvfix::Raw'
    d = cal.get('decl')
    return d if d in _names else None


LOCAL = ('Txt', 'Raw', 'Leaf', 'Part', 'Part2', 'Sp')


class Env:
    """what is known at some point about terms, and what was done up to there"""

    def __init__(self, facts, evs, up=None):
        self.facts = dict(facts)
        self.evs = tuple(evs)
        self.up = up
        self.stopped = False

    def f(self, t):
        if t.op == 'adt':
            return IN(t.a[1])
        if t.op == 'k':
            return ('iv', ((t.a[0], t.a[0]),))
        if t.op == 'str':
            return IN(t.a[0])
        r = self.facts.get(t)
        if r is None:
            r = past_fact(t)
        if r is None and self.up is not None:
            r = self.up.f(t)
        return r

    def len(self, q):
        """bounds on the length of a sequence"""
        if q.op == 'seq' and all(x.op == 'one' for x in q.a):
            return len(q.a), len(q.a)
        lo, hi = 0, INF
        qs = [q]
        if q.op == 'app' and q.a[0] == 'entries':
            qs.append(q.a[1][0])
        elif q.op == 'entries':
            qs.append(q.a[0])
        for x in qs:
            r = self.f(mk('len', x))
            if r and r[0] == 'iv':
                lo = max(lo, r[1][0][0])
                hi = min(hi, r[1][-1][1])
        if hi >= (1 << 62):
            hi = INF
        return lo, hi

    def is_(self, t, i):
        r = self.f(t)
        return r is not None and r == IN(i)

    def calls(self):
        return [e for e in self.evs if e.a[0] == 'call']

    def loops(self, src):
        return [e for e in self.evs if e.a[0] == 'loop' and any(s[0] is src for r in e.a[2] for s in r[3])]


def entries(n):
    return mk('entries', nodef(n, 'properties'))


def kids_src(n):
    return sv(somev(nodef(n, 'children')))


def kid_name(c):
    return sv(nodef(c, 'node_name'))


def tupf(c, i):
    if c.op == 'tup':
        return c.a[i]
    return mk('fld', c, '', '', str(i))


def litof(x):
    return sv(mk('fld', x, VALUE, 'Value', 'literal'))


def litspan(x):
    return ss(mk('fld', x, VALUE, 'Value', 'literal'))


def tnof(x):
    return mk('fld', x, VALUE, 'Value', 'type_name')


def unone(t):
    return t.a[0] if t.op == 'one' else t


class Bad(Exception):
    def __init__(self, prop, msg):
        Exception.__init__(self, msg)
        self.prop, self.msg = prop, msg


class Undecided(Exception):
    pass


KIDM = ('child', 'flag', 'multi', 'children')
PROPM = ('property', 'properties')
BASE_LIT = ['Null', 'Bool', 'Int', 'Decimal', 'String']


def base_ty(ty):
    """the element type of Option<..>, Vec<..>"""
    for w in ('Option<', 'Vec<'):
        if ty.startswith(w):
            return base_ty(ty[len(w):-1])
    return ty


def map_tys(ty):
    if 'Map<' in ty:
        k_, v = ty[ty.index('Map<') + 4:-1].split(',', 1)
        return k_.strip(), v.strip()
    if ty.startswith('Vec<('):
        k_, v = ty[5:-2].split(',', 1)
        return k_.strip(), v.strip()
    raise ValueError(ty)


class Derive:
    def __init__(self, ck, prog):
        self.ck, self.p = ck, prog
        self.lit = {v['n']: i for i, v in enumerate(prog.adts[LIT]['v'])}
        self.bads = []

    # ----- scalars
    def parse_val(self, ty, s):
        """(term of the parsed value, the fallible operation) of a string"""
        if ty == 'String':
            return s, None
        t = mk('app', 'from_str:' + ('kvfix::' + ty if ty in LOCAL else ty), (s,))
        return okv(t), t

    def scalar(self, prop, F, v, x, env, ty=None):
        """v is the value of the scalar x decoded in the mode of F, and x was valid"""
        ty = ty or base_ty(F.ty)
        if F.decode == 'normal':
            a = mk('app', DEC, (x, MUT))
            if v is not okv(a):
                raise Bad(prop, 'field `%s` receives %s instead of the decoded %s' % (F.name, short(v, 160), short(x, 100)))
            if not env.is_(a, 0):
                raise Bad(prop, 'a value that failed to decode is accepted')
            return
        l = litof(x)
        if F.decode == 'str':
            if not env.is_(tnof(x), 0):
                raise Bad(prop, 'field `%s` (str) accepts a type annotation' % F.name)
            if F.option and env.is_(l, self.lit['Null']):
                if v is not NONE:
                    raise Bad('C28', 'field `%s`: null gives %s' % (F.name, short(v, 160)))
                return
            if not env.is_(l, self.lit['String']):
                raise Bad(prop, 'field `%s` (str) accepts something other than a string' % F.name)
            e, t = self.parse_val(ty, mk('fld', l, LIT, 'String', '0'))
        else:
            if F.option and env.is_(l, self.lit['Null']):
                if v is not NONE:
                    raise Bad('C28', 'field `%s`: null gives %s' % (F.name, short(v, 160)))
                return
            if F.option and env.f(l) is None:
                raise Bad('C28', 'field `%s` (bytes) does not depend on the value being null' % F.name)
            t = mk('app', 'try_from:kvfix::' + ty, (mk('app', BYTES, (x, MUT)),))
            e = okv(t)
        if t is not None and not env.is_(t, 0):
            raise Bad(prop, 'field `%s` accepts a value whose conversion failed' % F.name)
        if v is not (some(e) if F.option else e):
            raise Bad(prop, 'field `%s` receives %s instead of %s' % (F.name, short(v, 160), short(e, 160)))

    # ----- defaults
    def type_default(self, ty):
        if ty.startswith('Option<'):
            return NONE
        if ty in ('u32', 'u8'):
            return k(0)
        if ty == 'bool':
            return FALSE
        if ty == 'String':
            return string('')
        if ty.startswith('Vec<') or 'Map<' in ty:
            return EMPTY
        d = {'Leaf': 77, 'Part': 77, 'Part2': 88, 'Any': 77, 'Txt': 0, 'Raw': 0, 'Sp': 0}[ty]
        ty = 'Leaf' if ty == 'Any' else ty
        return mk('adt', 'kvfix::' + ty, 0, ty, (k(d),))

    def expr(self, s):
        if s.isdigit():
            return k(int(s))
        if s.startswith('Some('):
            return some(self.expr(s[5:-1]))
        if s.startswith('Leaf('):
            return mk('adt', 'kvfix::Leaf', 0, 'Leaf', (self.expr(s[5:-1]),))
        if s.startswith('vec!['):
            return seqof([self.expr(s[5:-1])])
        raise ValueError(s)

    def absent(self, prop, F, v):
        if F.default is not None:
            w = self.type_default(F.ty) if F.default is True else self.expr(F.default)
            prop = 'C28'
        elif F.mode == 'flag':
            w = FALSE
        elif F.option:
            w = NONE
        elif F.mode in ('arguments', 'properties', 'multi', 'children'):
            w = EMPTY
        elif F.mode == 'flatten':
            w = self.type_default(F.ty)
        else:
            raise Bad(prop, 'required field `%s` is absent and the node is accepted' % F.name)
        if not self.eq_default(v, w):
            raise Bad(prop, 'absent field `%s` receives %s instead of %s' % (F.name, short(v, 160), show(w)))

    def eq_default(self, v, w):
        if v is w:
            return True
        if v.op == 'map' and w is EMPTY:
            return v.a[0] is EMPTY
        if v.op == 'k' and w.op == 'k':
            return v.a[0] == w.a[0]
        if v.op == 'adt' and w.op == 'adt' and v.a[:3] == w.a[:3]:
            return all(self.eq_default(a, b) for a, b in zip(v.a[3], w.a[3]))
        if v.op == 'ofchars' and w.op == 'str':
            return v.a[0] is EMPTY and w.a[0] == ''
        if v.op == 'seq' and w.op == 'seq' and len(v.a) == len(w.a):
            return all(a.op == b.op and self.eq_default(a.a[0], b.a[0]) for a, b in zip(v.a, w.a))
        return False

    # ----- nodes
    def node_ok(self, prop, fs, N, env, vals):
        """the node N is valid for the fields on this path, and vals are its values"""
        if any(x.a[1] == FLAG and x.a[2] and x.a[2][0] is N for x in env.calls()):
            # the library's own check for a bare node, held to these rules in flag_node
            if fs:
                raise Bad(prop or 'C21', 'a node with fields is checked as a flag')
            return
        self.names_ok(fs, N, env, vals)
        self.args_ok(prop or 'C21', [f for f in fs if f.mode in ('argument', 'arguments')], N, env, vals)
        q = entries(N)
        done = set()
        self.coll_ok(prop or 'C22', [f for f in fs if f.mode in PROPM or (f.mode == 'flatten' and f.partial[1])],
                     'prop', q, env.len(q), env, vals, done)
        kf = [f for f in fs if f.mode in KIDM or (f.mode == 'flatten' and f.partial[0])]
        ch = nodef(N, 'children')
        d = env.f(ch)
        src = kids_src(N)
        if d == IN(0):
            b = (0, 0)
        else:
            b = env.len(src)
            if d is None and not env.loops(src):
                raise Bad(prop or 'C23', 'the node is accepted without looking at its children')
        self.coll_ok(prop or 'C23', kf, 'child', src, b, env, vals, done)
        self.rest_ok(fs, env, vals, done)

    def rest_ok(self, fs, env, vals, done):
        for f in fs:
            if f.mode == 'extra' and not self.eq_default(vals[f.name], self.type_default(f.ty)):
                raise Bad('C28', 'unannotated field `%s` is %s' % (f.name, short(vals[f.name], 160)))

    def names_ok(self, fs, N, env, vals):
        tn = nodef(N, 'type_name')
        tf = [f for f in fs if f.mode == 'type_name']
        if not tf:
            if not env.is_(tn, 0):
                raise Bad('C27', 'a node with a type name is accepted')
        for f in tf:
            v = vals[f.name]
            if env.is_(tn, 0):
                if not f.option:
                    raise Bad('C27', 'a missing type name is accepted')
                if v is not NONE:
                    raise Bad('C27', 'no type name gives %s' % short(v))
            elif env.is_(tn, 1):
                e, t = self.parse_val(base_ty(f.ty), mk('app', AS_STR, (sv(somev(tn)),)))
                if t is not None and not env.is_(t, 0):
                    raise Bad('C27', 'a type name that does not parse is accepted')
                if v is not (some(e) if f.option else e):
                    raise Bad('C27', 'the type name field receives %s' % short(v))
            else:
                raise Bad('C27', 'the type name field receives %s whatever the type name' % short(v))
        for f in fs:
            if f.mode == 'node_name':
                e, t = self.parse_val(base_ty(f.ty), kid_name(N))
                if t is not None and not env.is_(t, 0):
                    raise Bad('C27', 'a node name that does not parse is accepted')
                if vals[f.name] is not e:
                    raise Bad('C27', 'the node name field receives %s' % short(vals[f.name]))
            if f.mode == 'span' and vals[f.name] is not mk('app', DS, (ss(N), MUT)):
                raise Bad('C27', 'the span field receives %s' % short(vals[f.name]))

    def args_ok(self, prop, fs, N, env, vals):
        A = nodef(N, 'arguments')
        lo, hi = env.len(A)
        pos = [f for f in fs if f.mode == 'argument']
        var = [f for f in fs if f.mode == 'arguments']
        for i, f in enumerate(pos):
            v = vals[f.name]
            if lo > i:
                self.scalar(prop, f, v, self.elem(A, i, v, f), env)
            elif hi <= i:
                self.absent(prop, f, v)
            else:
                raise Bad(prop, 'argument field `%s` does not depend on the number of arguments' % f.name)
        n = len(pos)
        if not var:
            if hi > n:
                raise Bad(prop, 'more than %d arguments are accepted' % n)
            return
        f = var[0]
        v = vals[f.name]
        if v is EMPTY:
            if hi > n:
                raise Bad(prop, 'field `%s` is empty although there may be further arguments' % f.name)
            return
        self.compr_ok(prop, f, v, A, n, env, lambda x, w, e2: self.scalar(prop, f, w, x, e2))

    def elem(self, A, i, v, f):
        return mk('elem', A, i)

    def compr_ok(self, prop, f, v, src, k0, env, each):
        """v is made by visiting all of src[k0..] in order and keeping each() of every element"""
        if v.op == 'map':
            v = v.a[0]
        if v.op != 'compr':
            raise Bad(prop, 'field `%s` receives %s' % (f.name, short(v, 200)))
        L, srcs, cases, full = v.a
        if srcs != frozenset([(src, k0, 0)]) or not full:
            raise Bad(prop, 'field `%s` does not collect all elements: %s' % (f.name, short(srcs, 200)))
        rs = [r for e in env.evs if e.a[0] == 'loop' and e.a[1] == L for r in e.a[2]]
        for r in rs:
            if not r[6] and not any(c[0] == r[0] and len(c[1]) == 1 for c in cases):
                raise Bad(prop, 'field `%s` drops elements with {%s}' % (f.name, short_facts(r[0])))
        for c in cases:
            if len(c[1]) != 1:
                raise Bad(prop, 'field `%s` receives %d values for one element' % (f.name, len(c[1])))
            ev = next((r[1] for r in rs if r[0] == c[0]), ())
            each(mk('cur', L, src, k0, 0), unone(c[1][0]), Env(c[0], ev, env))

    # ----- properties and children
    def ename(self, kind, c):
        return kid_name(c) if kind == 'child' else sv(tupf(c, 0))

    def classes(self, fs, kind, c, env):
        keys = [f.key for f in fs if f.key is not None and f.mode in ('child', 'flag', 'multi', 'property')]
        d = env.f(self.ename(kind, c))
        out = []
        for k_ in keys + [None]:
            if d is None:
                ok_ = True
            elif k_ is None:
                ok_ = d[0] == 'out' or any(x not in keys for x in d[1])
            else:
                ok_ = (k_ in d[1]) == (d[0] == 'in')
            if ok_:
                out.append(k_)
        return out

    def route(self, prop, fs, kind, c, key, env):
        """(field the element goes to, flattened fields asked); field None if nobody takes it.
        Stops with 'err' if a flattened decoder reports an error"""
        asked = []
        name = IC if kind == 'child' else IP
        ca = None
        for f in fs:
            if f.mode in ('children', 'properties'):
                ca = f
            elif f.mode == 'flatten':
                own, up = [], env
                while up is not None and not own:       # maybe asked in the iteration around an inner loop
                    own = [e for e in up.calls() if e.a[1] == name and self.flat_of(e) == f.ty and
                           (c in e.a[2] if kind == 'child' else tupf(c, 0) in e.a[2] and tupf(c, 1) in e.a[2])]
                    up = up.up
                if len(own) != 1:
                    if not own and env.stopped:
                        return 'stop', asked
                    raise Bad('C24', 'the flattened field `%s` is offered the %s %d times' % (f.name, kind, len(own)))
                asked.append(f)
                a = mk('app', name, own[0].a[2])
                if env.is_(a, 1):
                    return 'err', asked
                d = env.f(okv(a))
                if d is None or not (env.is_(a, 0)):
                    raise Bad('C24', 'the answer of the flattened field `%s` is ignored' % f.name)
                if self.truth(d):
                    return f, asked
            elif f.key == key:
                return f, asked
        return ca, asked

    def truth(self, d):
        if d[0] == 'iv':
            return d[1] == ((1, 1),)
        return d[1] == frozenset([1])

    def learn(self, paths):
        """which flattened decoder lives at which place, from what the places hold"""
        from props.common import flat_evs
        self.places = {}
        for q in paths:
            for e in flat_evs(q.evs):
                if e.a[0] == 'call' and e.a[1] in (IC, IP):
                    t = e.a[2][0]
                    for x in walk(t):
                        if x.op == 'adt' and x.a[0].startswith('kvfix::Part'):
                            self.places[t.a[0]] = x.a[0].split('::')[-1]

    def flat_of(self, e):
        """type of the flattened field an insert_* call works on"""
        if e.a[2][0].a and e.a[2][0].a[0] in self.places:
            return self.places[e.a[2][0].a[0]]
        for x in walk(e.a[2][0]):
            if x.op == 'adt' and x.a[0].startswith('kvfix::Part'):
                return x.a[0].split('::')[-1]
        for x in walk(e.a[2][0]):
            if x.op == 'fld' and x.a[1].startswith('kvfix::'):
                return self.fx_field_ty(x.a[3])
        for x in walk(e.a[2][0]):
            if x.op == 'ref' and x.a[0] == ('A', 0) and x.a[1]:
                return self.fx_field_ty(x.a[1][0][3])
        return None

    def fx_field_ty(self, n):
        for f in self.fx.fields:
            if f.name == n:
                return f.ty
        return None

    def cur_of(self, r, L, src):
        cs = {s for s in r[3] if s[0] is src}
        if len(r[3]) != 1 or len(cs) != 1 or next(iter(cs))[2] != 0:
            raise Undecided('an iteration takes %d elements' % len(r[3]))
        s = next(iter(cs))
        if s[1] != 0:
            raise Bad('C23', 'the first %s elements of %s are skipped' % (s[1], short(src, 100)))
        return mk('cur', L, src, s[1], 0)

    def reach(self, prop, fs, kind, src, e, env, clean=True):
        """reachable (loop state, fields seen) pairs; checks the routing of clean iterations"""
        L = e.a[1]
        todo = [(0, frozenset())]
        seen = set(todo)
        info = {}
        while todo:
            h, got = todo.pop()
            for r in e.a[2]:
                if r[8] != h or r[6]:
                    continue
                if r not in info:
                    c = self.cur_of(r, L, src)
                    e2 = Env(r[0], r[1], env)
                    info[r] = c, e2, [(key,) + self.route(prop, fs, kind, c, key, e2)
                                      for key in self.classes(fs, kind, c, e2)]
                    for key, f, asked in info[r][2]:
                        self.elem_events(prop, fs, kind, c, f, asked, e2)
                c, e2, rts = info[r]
                for key, f, asked in rts:
                    if f == 'err':
                        raise Bad('C24', 'an error of a flattened decoder is ignored')
                    if f is None:
                        raise Bad(prop, 'a%s %s that no field takes is accepted' % ('n unknown' if key is None else '', kind))
                    if f.mode in ('child', 'flag', 'property') and f.name in got:
                        if kind == 'prop':
                            continue      # the keys of a map are distinct
                        raise Bad(prop, 'a second %s `%s` is accepted' % (kind, f.key))
                    new = {f.name} | {('asked', g.name) for g in asked}
                    if f.mode in ('child', 'property'):
                        new.add(('by', f.name, r))
                    s = (r[9], got | new)
                    if s not in seen:
                        seen.add(s)
                        todo.append(s)
        return seen, info

    def elem_events(self, prop, fs, kind, c, f, asked, env):
        """the element is decoded by its own field only, once"""
        for x in env.calls():
            n = x.a[1]
            if n in (DN, FLAG) and kind == 'child' and c in x.a[2]:
                if f in (None, 'err') or f.mode == 'flatten' or f.unwrap is not None or (n == FLAG) != (f.mode == 'flag'):
                    raise Bad(prop, 'the %s is decoded by %s although it belongs to %s' % (
                        kind, n.split('::')[-1], getattr(f, 'name', 'no field')))
        if f not in (None, 'err') and kind == 'child' and f.mode != 'flatten' and f.unwrap is None:
            n = len([x for x in env.calls() if x.a[1] in (DN, FLAG) and c in x.a[2]])
            if n != 1:
                raise Bad(prop, 'a child of field `%s` is decoded %d times' % (f.name, n))

    def coll_ok(self, prop, fs, kind, src, bounds, env, vals, done):
        lo, hi = bounds
        ls = env.loops(src)
        states = None
        info = {}
        L = None
        if hi == 0:
            states = {frozenset()}
        else:
            if not ls:
                raise Bad(prop, 'the node is accepted without looking at each %s' % kind)
            if len(ls) > 1:
                raise Undecided('%d loops over the same elements' % len(ls))
            e = ls[0]
            L = e.a[1]
            if not e.a[3]:
                raise Bad(prop, 'not every %s is looked at' % kind)
            seen, info = self.reach(prop, fs, kind, src, e, env)
            states = {got for h, got in seen if h == e.a[4]}
            if lo > 0:
                states = {s for s in states if s} or states
        # collections known to be empty or not on this path
        for f in fs:
            if f.mode in ('multi', 'children', 'properties'):
                v = vals[f.name]
                for t, d in env.facts.items():
                    if t.op == 'len' and t.a[0].op == 'compr' and t.a[0].a[0] == L and \
                            self.compr_is(prop, f, t.a[0], kind, src, info, env):
                        z = d[0] == 'iv' and d[1] == ((0, 0),)
                        nz = d[0] == 'iv' and d[1][0][0] > 0
                        states = {s for s in states if not (z and f.name in s) and not (nz and f.name not in s)}
        if not states:
            return            # no run of the decoder gets here
        for f in fs:
            v = vals[f.name]
            has = {f.name in s for s in states}
            if f.mode in ('multi', 'children', 'properties'):
                self.many_ok(prop, f, v, kind, src, has, info, env, L)
                continue
            if f.mode == 'flatten':
                asked = {('asked', f.name) in s for s in states}
                done.add(f.name)
                base = self.type_default(f.ty)
                if v.op == 'hv':
                    if not (v.a[0] <= {IC, IP}) or v.a[1] is not base:
                        raise Bad('C24', 'the flattened field `%s` receives %s' % (f.name, short(v, 160)))
                elif v is not base and not self.eq_default(v, base):
                    raise Bad('C24', 'the flattened field `%s` receives %s' % (f.name, short(v, 160)))
                elif True in asked:
                    raise Bad('C24', 'what the flattened field `%s` decoded is dropped' % f.name)
                continue
            if False in has:
                self.absent(prop, f, v)
            if True in has:
                if f.mode == 'flag':
                    if v is not TRUE:
                        raise Bad(prop, 'flag `%s` stays %s although the child is present' % (f.name, short(v, 100)))
                else:
                    self.single_ok(prop, f, v, kind, src, info, env, L,
                                   {x[2] for s in states for x in s if isinstance(x, tuple) and x[:2] == ('by', f.name)})

    def unopt(self, prop, f, v):
        """the decoded child inside an optional field"""
        if f.option:
            if v is NONE:
                raise Bad(prop, 'field `%s` is absent although the element is present' % f.name)
            if v.op == 'adt' and v.a[0] == OPTION and v.a[2] == 'Some':
                return v.a[3][0]
            raise Bad(prop, 'field `%s` receives %s' % (f.name, short(v, 160)))
        return v

    def single_ok(self, prop, f, v, kind, src, info, env, L, by):
        """v is made from the element in every iteration that may have supplied it"""
        w = v if kind == 'prop' else self.unopt(prop, f, v)
        ps = {x for x in walk(v) if x.op == 'past' and x.a[0] == L and x.a[1] is src}
        if len(ps) > 1:
            raise Bad(prop, 'field `%s` receives %s, made from several elements' % (f.name, short(v, 160)))
        P = next(iter(ps)) if ps else None
        hit = False
        for r in by:
            c, e2, rts = info[r]
            if P is not None:
                me = {c: mk('me', *c.a)}
                fs = frozenset((subst(tm, me), d) for tm, d in r[0]
                               if not any(x.op == 'past' and x.a[0] == L for x in walk(tm)))
                if fs != P.a[4]:
                    continue
            if len(rts) != 1:
                raise Undecided('one iteration for several names')
            hit = True
            self.elem_val(prop, f, subst(w, {P: c}) if P is not None else w, c, kind, e2)
        if not hit:
            raise Bad(prop, 'field `%s` receives %s, which no accepted %s gives' % (f.name, short(v, 160), kind))

    def elem_val(self, prop, f, w, c, kind, env):
        if kind == 'prop':
            self.scalar(prop, f, w, tupf(c, 1), env)
        elif f.unwrap is not None:
            u = f.unwrap
            self.node_ok('C25', [u], c, env, {u.name: w})
        else:
            a = mk('app', DN, (c, MUT))
            if w is not okv(a):
                raise Bad(prop, 'field `%s` receives %s instead of the decoded child' % (f.name, short(w, 160)))
            if not env.is_(a, 0):
                raise Bad(prop, 'a child that failed to decode is accepted')

    def many_val(self, prop, f, w, c, kind, env):
        if kind == 'prop':
            if w.op != 'tup' or len(w.a) != 2:
                raise Bad(prop, 'field `%s` receives %s' % (f.name, short(w, 160)))
            kt, vt = map_tys(f.ty)
            e, t = self.parse_val(kt, sv(tupf(c, 0)))
            if w.a[0] is not e:
                raise Bad(prop, 'a property of `%s` is filed under %s' % (f.name, short(w.a[0], 160)))
            if t is not None and not env.is_(t, 0):
                raise Bad(prop, 'a property name that does not parse is accepted')
            self.scalar(prop, f, w.a[1], tupf(c, 1), env, vt)
        else:
            self.elem_val(prop, f, w, c, kind, env)

    def compr_is(self, prop, f, v, kind, src, info, env):
        try:
            self.compr_cases(prop, f, v, kind, src, info, env)
            return True
        except Bad:
            return False

    def compr_cases(self, prop, f, v, kind, src, info, env):
        L, srcs, cases, full = v.a
        if srcs != frozenset([(src, 0, 0)]) or not full:
            raise Bad(prop, 'field `%s` does not collect all elements: %s' % (f.name, short(srcs, 160)))
        for r, (c, e2, rts) in info.items():
            mine = any(g is f for _, g, _ in rts)
            if mine and len(rts) > 1 and any(g is not f for _, g, _ in rts):
                raise Undecided('one iteration for several fields')
            cs = [x for x in cases if x[0] == r[0] and x[1]]
            if not mine:
                if cs:
                    raise Bad(prop, 'field `%s` also receives %s from {%s}' % (f.name, short(cs[0][1], 100), short_facts(r[0], 200)))
                continue
            if any(x[0] == r[0] and not x[1] for x in cases):
                raise Bad(prop, 'field `%s` does not always receive the %s with {%s}' % (f.name, kind, short_facts(r[0], 200)))
            if len(cs) != 1 or len(cs[0][1]) != 1:
                raise Bad(prop, 'field `%s` receives %s for the %s with {%s}' % (
                    f.name, 'nothing' if not cs else 'several values', kind, short_facts(r[0], 200)))
            self.many_val(prop, f, unone(cs[0][1][0]), c, kind, e2)

    def many_ok(self, prop, f, v, kind, src, has, info, env, L):
        if has == {False} or v is NONE or v is EMPTY:
            if v.op == 'map':
                v = v.a[0]
            if True in has:
                raise Bad(prop, 'field `%s` receives %s although it has elements' % (f.name, short(v, 100)))
            if v.op == 'compr' and v.a[0] == L and f.default is None and not f.option:
                return      # collects none
            return self.absent(prop, f, v)
        if False in has and (f.default is not None or f.option):
            raise Bad('C28', 'field `%s` receives %s whether or not elements are present' % (f.name, short(v, 160)))
        if f.option:
            v = self.unopt(prop, f, v)
        if v.op == 'map':
            v = v.a[0]
        if v.op != 'compr' or v.a[0] != L:
            raise Bad(prop, 'field `%s` receives %s' % (f.name, short(v, 160)))
        self.compr_cases(prop, f, v, kind, src, info, env)

    # ----- errors: every error reported for a node that was fine so far has its reason
    def explain(self, E, fs, N, env):
        """None if the error E is justified by what is known; else why not.
        Raises Bad('C11') if it is justified but points elsewhere or misdescribes"""
        why = pos = None
        for o in self.outcomes(E, fs, N, env):
            if o is None:
                return None
            if o[:4] == 'C11:':
                pos = pos or o[4:]
            else:
                why = o
        if pos is not None:
            raise Bad('C11', pos)
        return why or 'reports %s' % short(E, 160)

    def outcomes(self, E, fs, N, env):
        if E.op == 'fld' and E.a[1] == RESULT and E.a[2] == 'Err':
            A = E.a[0]
            if A.op == 'app' and A.a[0] in DECODERS and env.is_(A, 1):
                yield None
            return
        if not adt_is(E, DE):
            return
        x = {'Conversion': self.x_conversion, 'TypeName': self.x_typename, 'ScalarKind': self.x_kind,
             'Missing': self.x_missing, 'MissingNode': self.x_missing, 'Unexpected': self.x_unexpected}.get(E.a[2])
        if x is None:
            return
        for o in x(E, fs, N, env):
            yield o
        for o in self.nested(E, fs, N, env):
            yield o

    def at(self, E, *spans):
        if E.a[3][0] not in spans:
            return 'C11:the error %s is reported at %s' % (E.a[2], short(E.a[3][0], 160))
        return None

    def x_conversion(self, E, fs, N, env):
        e = E.a[3][1]
        if not (e.op == 'fld' and e.a[2] == 'Err' and e.a[0].op == 'app' and env.is_(e.a[0], 1)):
            yield 'reports a conversion error %s that did not happen' % short(e, 100)
            return
        x = e.a[0].a[1][0]
        if x.op == 'app' and x.a[0] == BYTES:
            yield self.at(E, litspan(x.a[1][0]))
            return
        if x.op == 'app' and x.a[0] == AS_STR:
            y = x.a[1][0]
            yield self.at(E, ss(y.a[0]) if y.op == 'fld' else None)
            return
        if x.op == 'fld' and x.a[1] == LIT:
            y = x.a[0]                      # the literal; its Spanned is one up
            yield self.at(E, ss(y.a[0]))
            return
        if x.op == 'fld' and x.a[1] == SP:
            yield self.at(E, ss(x.a[0]))
            return
        yield 'reports a conversion error of %s' % short(x, 100)

    def values_in(self, E, env):
        """scalar values the error may be about"""
        out = set()
        e = env
        terms = [E]
        while e is not None:
            terms += list(e.facts)
            e = e.up
        for t in terms:
            for x in walk(t):
                if x.op == 'fld' and x.a[1] == VALUE and x.a[2] == 'Value':
                    out.add(x.a[0])
        return out

    def elems_in(self, src, E, env):
        out = set()
        e = env
        terms = [E]
        while e is not None:
            terms += list(e.facts)
            e = e.up
        for t in terms:
            for x in walk(t):
                if (x.op == 'elem' and x.a[0] is src) or (x.op == 'cur' and x.a[1] is src):
                    out.add(x)
        return out

    def field_of(self, fs, N, x, env):
        """field a scalar value belongs to"""
        A = nodef(N, 'arguments')
        pos = [f for f in fs if f.mode == 'argument']
        var = [f for f in fs if f.mode == 'arguments']
        if x.op == 'elem' and x.a[0] is A:
            return pos[x.a[1]] if x.a[1] < len(pos) else var[0] if var else None
        if x.op == 'cur' and x.a[1] is A:
            return var[0] if var else None
        mine = self.pair is not None and x is self.pair.a[1]
        if mine or (x.op == 'fld' and x.a[3] == '1'):
            c = self.pair if mine else x.a[0]
            src = entries(N)
            if mine or (x.a[0].op == 'elem' and c.a[0] is src) or (c.op == 'cur' and c.a[1] is src) or c is self.pair:
                sub = [f for f in fs if f.mode in PROPM or (f.mode == 'flatten' and f.partial[1])]
                rs = {self.route('C22', sub, 'prop', c, key, env)[0] for key in self.classes(sub, 'prop', c, env)}
                if len(rs) == 1:
                    r = next(iter(rs))
                    return r if isinstance(r, fixtures.F) else None
        return None

    pair = None

    def nested(self, E, fs, N, env):
        """an unwrapped child reports the error"""
        src = kids_src(N) if not self.docmode else N
        sub = [f for f in fs if f.mode in KIDM or (f.mode == 'flatten' and f.partial[0])]
        if not any(f.unwrap for f in sub):
            return
        for c in self.elems_in(src, E, env) | ({self.one} if self.one is not None else set()):
            for key in self.classes(sub, 'child', c, env):
                f, _ = self.route('C23', sub, 'child', c, key, env)
                if isinstance(f, fixtures.F) and f.unwrap is not None:
                    d = self.docmode, self.one, self.pair
                    self.docmode, self.one, self.pair = False, None, None
                    try:
                        outs = list(self.outcomes(E, [f.unwrap], c, env))
                    finally:
                        self.docmode, self.one, self.pair = d
                    for o in outs:
                        yield o

    docmode = False
    one = None

    def x_typename(self, E, fs, N, env):
        for x in self.values_in(E, env):
            t = tnof(x)
            if env.is_(t, 1):
                f = self.field_of(fs, N, x, env)
                if f is not None and f.decode == 'str':
                    yield self.at(E, ss(somev(t)))
                    fd = E.a[3][1]
                    if E.a[3][0] is ss(somev(t)) and fd is not some(mk('app', TNC, (sv(somev(t)),))) and fd is not somev(t):
                        raise Bad('C11', 'the error about a type name describes %s' % short(fd, 120))

    def x_kind(self, E, fs, N, env):
        for x in self.values_in(E, env):
            f = self.field_of(fs, N, x, env)
            if f is None or f.decode != 'str' or E.a[3][0] is not litspan(x):
                continue
            d = env.f(litof(x))
            if d is None or d[0] != 'in' or self.lit['String'] in d[1] or (f.option and self.lit['Null'] in d[1]):
                yield 'reports the wrong literal kind for a valid value of `%s`' % f.name
                continue
            ex, fd = E.a[3][1], E.a[3][2]
            kn = [v['n'] for v in self.p.adts[LIT]['v']]
            if not (adt_is(fd, KIND) and [fd.a[2]] == [kn[i] for i in d[1]]):
                raise Bad('C11', 'the error about %s describes the literal as %s' % (
                    [kn[i] for i in d[1]], short(fd, 60)))
            if not (ex.op == 'adt' and ex.a[3] and adt_is(ex.a[3][0], KIND, 'String')):
                raise Bad('C11', 'the error expects %s for a string' % short(ex, 60))
            yield None

    def text(self, t):
        """the constant parts of a message, None if unknown"""
        while t.op in ('vref', 'map', 'box'):
            t = t.a[0]
        if t.op == 'str':
            return t.a[0]
        return None

    def x_missing(self, E, fs, N, env):
        m = self.text(E.a[3][-1])
        if not self.docmode:
            A = nodef(N, 'arguments')
            lo, hi = env.len(A)
            pos = [f for f in fs if f.mode == 'argument']
            spans = (ss(N), ss(nodef(N, 'node_name')))
            for i, f in enumerate(pos):
                if hi <= i and not f.option and f.default is None and (m is None or 'argument' in m):
                    yield self.at(E, *spans)
            for f in fs:
                if f.mode == 'type_name' and not f.option and env.is_(nodef(N, 'type_name'), 0) and (m is None or 'type' in m):
                    yield self.at(E, *spans)
        for kind, modes, i in (('prop', ('property',), 1), ('child', ('child',), 0)):
            sub = [f for f in fs if f.mode in (PROPM if kind == 'prop' else KIDM) or (f.mode == 'flatten' and f.partial[i])]
            req = [f for f in sub if f.mode in modes and not f.option and f.default is None]
            if not req or (self.docmode and kind == 'prop'):
                continue
            st = self.states(sub, kind, N, env)
            for f in req:
                if m is None or '`%s`' % f.key in m:
                    if all(f.name not in s for s in st):
                        if self.docmode:
                            yield None if E.a[2] == 'MissingNode' else 'reports %s for a document' % E.a[2]
                        else:
                            yield self.at(E, ss(N), ss(nodef(N, 'node_name')))
                    else:
                        yield 'reports `%s` as missing although it is present' % f.key

    def states(self, sub, kind, N, env):
        """fields seen by the time all elements have been looked at"""
        src = N if self.docmode else entries(N) if kind == 'prop' else kids_src(N)
        lo, hi = env.len(src)
        if kind == 'child' and not self.docmode and env.is_(nodef(N, 'children'), 0):
            hi = 0
        if hi == 0:
            return {frozenset()}
        ls = env.loops(src)
        if len(ls) != 1:
            return set() if not ls and self.dirty else {frozenset([f.name for f in sub])}
        if not ls[0].a[3]:
            return {frozenset([f.name for f in sub])}
        seen, _ = self.reach('C22' if kind == 'prop' else 'C23', sub, kind, src, ls[0], env)
        return {got for h, got in seen if h == ls[0].a[4]}

    def before(self, sub, kind, src, c, env):
        """fields seen before the element c of a loop"""
        if c is self.one or c is self.pair:
            return {self.held}
        if c.op != 'cur':
            return {frozenset()} if c.a[1] == 0 else set()
        e = env
        while e is not None:
            h = getattr(e, 'head', None)
            if h is not None and h[0].a[1] == c.a[0]:
                break
            e = e.up
        if e is None:
            ls = [x for x in self.loops_up(env) if x.a[1] == c.a[0]]
            if len(ls) != 1:
                return set()
            ev, at, up = ls[0], ls[0].a[4], env
        else:
            ev, at = h
            up = e.up
        seen, _ = self.reach('C23', sub, kind, src, ev, up)
        return {got for hd, got in seen if hd == at}

    def loops_up(self, env):
        out = []
        while env is not None:
            out += [e for e in env.evs if e.a[0] == 'loop']
            env = env.up
        return out

    def x_unexpected(self, E, fs, N, env):
        w = self.text(E.a[3][1])
        if not self.docmode and self.one is None and self.pair is None:
            tn = nodef(N, 'type_name')
            if w == 'type name' and env.is_(tn, 1) and not any(f.mode == 'type_name' for f in fs):
                yield self.at(E, ss(somev(tn)))
            A = nodef(N, 'arguments')
            n = len([f for f in fs if f.mode == 'argument'])
            if w == 'argument' and not any(f.mode == 'arguments' for f in fs) and env.len(A)[0] > n:
                xs = [x for x in walk(E.a[3][0]) if (x.op == 'elem' and x.a[0] is A and x.a[1] >= n) or
                      (x.op == 'cur' and x.a[1] is A and x.a[2] >= n)]
                if not xs:
                    yield 'C11:an extra argument is reported at %s' % short(E.a[3][0], 160)
                else:
                    yield self.at(E, litspan(xs[0]))
        for kind, ks, i in (('prop', PROPM, 1), ('child', KIDM, 0)):
            if w != {'prop': 'property', 'child': 'node'}[kind] or (self.docmode and kind == 'prop'):
                continue
            src = N if self.docmode else entries(N) if kind == 'prop' else kids_src(N)
            sub = [f for f in fs if f.mode in ks or (f.mode == 'flatten' and f.partial[i])]
            cs = self.elems_in(src, E, env)
            one = self.pair if kind == 'prop' else self.one
            if one is not None:
                cs = {one}
            for c in cs:
                good, y = True, None
                for key in self.classes(sub, kind, c, env):
                    f, _ = self.route('C23', sub, kind, c, key, env)
                    if f is None:
                        continue
                    if isinstance(f, fixtures.F) and f.mode in ('child', 'flag', 'property'):
                        st = self.before(sub, kind, src, c, env)
                        if all(f.name in s for s in st):
                            continue
                        y = 'reports a first `%s` as unexpected' % f.key
                    else:
                        y = 'reports a %s that belongs to `%s` as unexpected' % (kind, getattr(f, 'name', f))
                    good = False
                if good:
                    if kind == 'prop':
                        yield self.at(E, ss(tupf(c, 0)))
                    else:
                        yield self.at(E, ss(c), ss(nodef(c, 'node_name')))
                elif y:
                    yield y

    def errors(self, fs, N, q, env, evs, go, dirty=False):
        """calls go(error, env) for every error reported while the input was fine"""
        for e in evs:
            if e.a[0] == 'emit':
                go(e.a[1], env)
            elif e.a[0] == 'loop':
                for r in e.a[2]:
                    if r[5]:
                        continue
                    e2 = Env(r[0], r[1], env)
                    e2.head = (e, r[8])
                    self.errors(fs, N, q, e2, r[1], go)

    # ----- entry points
    def method(self, fx, trait, m):
        pat = '<kvfix::%s as knuffel::traits::%s' % (fx.id, trait)
        r = [self.p.funcs[x] for x in self.p.roots if x.startswith(pat) and x.split('|')[0].endswith('>::' + m) and
             x[len(pat):len(pat) + 1] in '< >']
        if len(r) == 1:
            self.visited.add((fx.id, '%s::%s' % (fx.id, m)))
            return r[0]
        return None

    visited = set()

    def vals(self, fx, v, fields=None):
        fields = fields or fx.fields
        names = self.p.fnames(v.a[0], v.a[1])
        d = dict(zip(names, v.a[3]))
        return {f.name: d[f.name[2:] if f.name[:2] == 'r#' else f.name] for f in fields}

    def struct_node(self, fx, report):
        self.fx = fx
        fn = self.method(fx, 'Decode', 'decode_node')
        N = sym('node')
        self.learn(self.ck.paths(fn, ['node', 'ctx'], opaque))
        for q in self.ck.paths(fn, ['node', 'ctx'], opaque):
            env = Env(q.facts, q.evs)
            if q.kind == 'ok' and not q.dirty:
                self.guard(report, fn, q, lambda: self.node_ok(None, fx.fields, N, env, self.vals(fx, q.val)))
            self.path_errors(report, fn, fx, fx.fields, N, q, env)

    def struct_doc(self, fx, report):
        self.fx = fx
        fn = self.method(fx, 'DecodeChildren', 'decode_children')
        if fn is None:
            return
        N = sym('nodes')
        self.learn(self.ck.paths(fn, ['nodes', 'ctx'], opaque))
        for q in self.ck.paths(fn, ['nodes', 'ctx'], opaque):
            env = Env(q.facts, q.evs)
            if q.kind == 'ok' and not q.dirty:
                def go():
                    vals = self.vals(fx, q.val)
                    self.coll_ok('C23', [f for f in fx.fields if f.mode in KIDM or (f.mode == 'flatten' and f.partial[0])],
                                 'child', N, env.len(N), env, vals, set())
                    self.rest_ok(fx.fields, env, vals, set())
                self.guard(report, fn, q, go)
            self.docmode = True
            try:
                self.path_errors(report, fn, fx, fx.fields, N, q, env)
            finally:
                self.docmode = False

    def path_errors(self, report, fn, fx, fields, N, q, env):
        self.dirty = q.dirty
        if q.kind == 'panic':
            report((fx.topics or ('C21',))[0], fn, 'a path of the decoder panics: %s' % (str(q.val)[:200],), q)
            return
        self.memo = getattr(self, 'memo', {})

        def go(E, env):
            def x():
                why = self.explain(E, fields, N, env)
                if why is not None:
                    raise Bad(self.topic(fx, E), why + ' without a reason')
            self.guard(report, fn, q, x)
        self.errors(fields, N, q, env, q.evs, go)
        if q.kind == 'err':
            env.stopped = True
            go(q.val, env)

    def topic(self, fx, E):
        return fx.topics[0]

    # ----- partial decoding
    def partial(self, fx, report):
        self.fx = fx
        for m, kind, argn in (('insert_child', 'child', ['self', 'node', 'ctx']),
                              ('insert_property', 'prop', ['self', 'name', 'value', 'ctx'])):
            fn = self.method(fx, 'DecodePartial', m)
            if fn is None:
                continue
            ks, i = (KIDM, 0) if kind == 'child' else (PROPM, 1)
            sub = [f for f in fx.fields if f.mode in ks or (f.mode == 'flatten' and f.partial[i])]
            c = sym('node') if kind == 'child' else mk('tup', sym('name'), sym('value'))
            for q in self.ck.paths(fn, argn, opaque):
                self.learn([])
                env = Env(q.facts, q.evs)
                held = frozenset(f.name for f in sub if self.holds(fx, f, env))
                if q.kind == 'ok' and not q.dirty:
                    self.guard(report, fn, q, lambda: self.insert_ok(fx, sub, kind, c, q, env))
                self.docmode = False
                if kind == 'child':
                    self.one = c
                else:
                    self.pair = c
                self.held = held
                try:
                    self.path_errors(report, fn, fx, fx.fields, sym('parent'), q, env)
                finally:
                    self.one = self.pair = None

    def selff(self, fx, f):
        n = f.name[2:] if f.name[:2] == 'r#' else f.name
        return mk('fld', sym('self'), 'kvfix::' + fx.id, fx.id, n)

    def holds(self, fx, f, env):
        d = env.f(self.selff(fx, f))
        return d is not None and self.truth(d)

    def insert_ok(self, fx, sub, kind, c, q, env):
        prop = 'C24'
        st = q.st.mem[('A', 0)]
        new = {}
        while st.op == 'upd':
            new.setdefault(st.a[2], st.a[3])
            st = st.a[0]
        if st is not sym('self'):
            raise Bad(prop, 'the partial value becomes %s' % short(st, 160))
        env.stopped = False
        for key in self.classes(sub, kind, c, env):
            f, asked = self.route(prop, sub, kind, c, key, env)
            if f == 'err':
                raise Bad(prop, 'an error of a flattened decoder is ignored')
            took = f is not None
            if q.val is not (TRUE if took else FALSE):
                raise Bad(prop, '%s answers %s for an item that belongs to %s' % (
                    'insert_child' if kind == 'child' else 'insert_property', short(q.val, 60),
                    '`%s`' % f.name if took else 'nobody'))
            self.elem_events(prop, sub, kind, c, f, asked, env)
            for g in fx.fields:
                n = g.name[2:] if g.name[:2] == 'r#' else g.name
                v = new.get(n)
                was = self.selff(fx, g)
                if g in asked:
                    if v is None or v.op != 'hv' or v.a[1] is not was or not v.a[0] <= {IC, IP}:
                        raise Bad(prop, 'what the flattened field `%s` decoded is dropped' % g.name)
                elif g is f:
                    if g.mode in ('child', 'flag') and not env.is_(was, 0) and env.f(was) != ('iv', ((0, 0),)):
                        raise Bad('C23', 'a second node `%s` is accepted' % g.key)
                    if v is None:
                        raise Bad(prop, 'field `%s` is not filled' % g.name)
                    if g.mode == 'flag':
                        if v is not TRUE:
                            raise Bad(prop, 'flag `%s` becomes %s' % (g.name, short(v, 100)))
                    else:
                        self.elem_val(prop, g, v if kind == 'prop' else self.unopt(prop, g, v), c, kind, env)
                elif v is not None and v is not was:
                    raise Bad(prop, 'field `%s` is changed by an item that does not belong to it' % g.name)

    # ----- enums and newtypes
    def bare(self, N, env):
        """True if the node is known to have nothing, False if known to have something"""
        fs = (env.f(nodef(N, 'type_name')), env.f(nodef(N, 'children')))
        ls = (env.len(nodef(N, 'arguments')), env.len(entries(N)))
        if IN(1) in fs or any(lo > 0 for lo, hi in ls):
            return False
        if all(x == IN(0) for x in fs) and all(hi == 0 for lo, hi in ls):
            return True
        return None

    def inner_ok(self, prop, v, N, env, opt):
        a = mk('app', DN, (N, MUT))
        if opt:
            b = self.bare(N, env)
            if v is NONE:
                if b is not True:
                    raise Bad(prop, 'a node that is not bare decodes as None')
                return
            if b is not False:
                raise Bad(prop, 'a bare node does not decode as None')
            if v.op != 'adt' or v.a[2] != 'Some':
                raise Bad(prop, 'the content is %s' % short(v, 160))
            v = v.a[3][0]
        if v is not okv(a):
            raise Bad(prop, 'the content is %s instead of the decoded node' % short(v, 160))
        if not env.is_(a, 0):
            raise Bad(prop, 'a node that failed to decode is accepted')

    def newtype(self, fx, report):
        self.fx = fx
        fn = self.method(fx, 'Decode', 'decode_node')
        N = sym('node')
        opt = fx.id == 'WOpt'
        for q in self.ck.paths(fn, ['node', 'ctx'], opaque):
            env = Env(q.facts, q.evs)
            if q.kind == 'ok' and not q.dirty:
                self.guard(report, fn, q, lambda: self.inner_ok('C26', q.val.a[3][0], N, env, opt))
            self.path_errors(report, fn, fx, (), N, q, env)

    def enum(self, fx, report):
        self.fx = fx
        fn = self.method(fx, 'Decode', 'decode_node')
        N = sym('node')
        name = kid_name(N)
        made = set()
        self.learn([])
        by = {v.name: v for v in fx.variants}
        for q in self.ck.paths(fn, ['node', 'ctx'], opaque):
            env = Env(q.facts, q.evs)
            d = env.f(name)
            if q.kind == 'ok' and not q.dirty:
                def go():
                    V = by.get(q.val.a[2])
                    if V is None:
                        raise Bad('C26', 'a node decodes as the skipped variant %s' % q.val.a[2])
                    made.add(V.name)
                    if d != IN(V.key):
                        raise Bad('C26', 'variant %s is produced for node names {%s}' % (V.name, short_facts([(name, d)]) if d else 'any'))
                    if V.kind == 'unit':
                        self.node_ok('C26', [], N, env, {})
                    elif V.kind == 'tuple':
                        self.node_ok('C26', V.fields, N, env, {f.name: x for f, x in zip(V.fields, q.val.a[3])})
                    else:
                        self.inner_ok('C26', q.val.a[3][0], N, env, V.kind == 'nestopt')
                self.guard(report, fn, q, go)

            def err(E, env):
                def x():
                    dd = env.f(name)
                    ks = [v for v in fx.variants if dd is None or (v.key in dd[1]) == (dd[0] == 'in')]
                    if adt_is(E, DE, 'Conversion') and not ks:
                        if E.a[3][0] is not ss(nodef(N, 'node_name')):
                            raise Bad('C11', 'an unknown variant is reported at %s' % short(E.a[3][0], 160))
                        return
                    for v in ks:
                        why = self.explain(E, [] if v.kind != 'tuple' else v.fields, N, env)
                        if why is not None:
                            raise Bad('C26', 'variant `%s` %s without a reason' % (v.key, why))
                    if not ks and not adt_is(E, DE, 'Conversion'):
                        raise Bad('C26', 'an unknown name is reported as %s' % short(E, 160))
                self.guard(report, fn, q, x)
            self.dirty = q.dirty
            self.errors(None, N, q, env, q.evs, err)
            if q.kind == 'err':
                env.stopped = True
                err(q.val, env)
        for n in by:
            if n not in made:
                report('C26', fn, 'variant %s is never produced' % n, None)

    # ----- scalar enums
    def scalar_enum(self, fx, report):
        fn = self.method(fx, 'DecodeScalar', 'raw_decode')
        L = sym('lit')
        lv = sv(L)
        s = mk('fld', lv, LIT, 'String', '0')
        keys = {k_: n.replace('r#', '') for n, k_ in fx.variants}
        made = set()
        kn = [v['n'] for v in self.p.adts[LIT]['v']]

        def one(q):
            d, e = self.ck.fact(q, lv), self.ck.fact(q, s)
            if q.kind == 'ok' and not q.dirty:
                if d != IN(self.lit['String']):
                    raise Bad('C30', 'a literal that is not a string decodes as %s' % short(q.val))
                if e is None or e[0] != 'in' or len(e[1]) != 1 or keys.get(next(iter(e[1]))) != q.val.a[2]:
                    raise Bad('C30', '%s is produced for {%s}' % (short(q.val), short_facts([(s, e)]) if e else 'any string'))
                made.add(q.val.a[2])
                return
            if q.kind == 'panic':
                raise Bad('C30', 'panics')
            for E in q.emits() + ([q.val] if q.kind == 'err' else []):
                if not adt_is(E, DE):
                    raise Bad('C30', 'reports %s' % short(E))
                if E.a[3][0] is not ss(L):
                    raise Bad('C11', 'an error of a scalar enum is reported at %s' % short(E.a[3][0]))
                if E.a[2] == 'ScalarKind':
                    ex, fd = E.a[3][1], E.a[3][2]
                    if d is None or d[0] != 'in' or self.lit['String'] in d[1]:
                        raise Bad('C30', 'a string is rejected as the wrong kind')
                    if not (adt_is(fd, KIND) and [fd.a[2]] == [kn[i] for i in d[1]]):
                        raise Bad('C11', 'the literal is described as %s' % short(fd))
                    if not (ex.op == 'adt' and ex.a[3] and adt_is(ex.a[3][0], KIND, 'String')):
                        raise Bad('C11', 'the error expects %s for a string' % short(ex))
                elif not (d == IN(self.lit['String']) and e is not None and
                          not any((k_ in e[1]) == (e[0] == 'in') for k_ in keys)):
                    raise Bad('C30', 'a valid name is rejected with %s' % short(E, 160))
        for q in self.ck.paths(fn, ['lit', 'ctx'], opaque):
            self.guard(report, fn, q, lambda: one(q))
        for n in keys.values():
            if n not in made:
                report('C30', fn, 'variant %s is never produced' % n, None)
        fn = self.method(fx, 'DecodeScalar', 'type_check')
        t = sym('ty')

        def tc(q):
            d = self.ck.fact(q, t)
            if q.kind == 'panic':
                raise Bad('C30', 'panics')
            if not q.dirty and d != IN(0):
                raise Bad('C30', 'a type annotation is accepted')
            if q.dirty and d != IN(1):
                raise Bad('C30', 'a value without type annotation is rejected')
            for E in q.emits():
                if not adt_is(E, DE, 'TypeName') or E.a[3][0] is not ss(somev(t)):
                    raise Bad('C11', 'a type annotation is reported as %s' % short(E, 160))
        for q in self.ck.paths(fn, ['ty', 'ctx'], opaque):
            self.guard(report, fn, q, lambda: tc(q))

    # ----- the check for presence flags
    def flag_node(self, report):
        fn = [f for f in self.p.funcs.values() if f.name.split('::<')[0] == FLAG][0]
        self.fx = fixtures.Fx('flag', 'struct', topics=('C23',))
        N = sym('node')
        for q in self.ck.paths(fn, ['node', 'ctx'], lambda c: None if c.get('name') == FLAG else opaque(c)):
            env = Env(q.facts, q.evs)
            if q.kind == 'ret' and not q.dirty:
                self.guard(report, fn, q, lambda: self.node_ok('C23', [], N, env, {}))
            self.path_errors(report, fn, self.fx, (), N, q, env)

    def traits(self, fx, report):
        fs = fx.fields
        ms = {f.mode for f in fs}
        doc = not (ms & {'argument', 'arguments', 'property', 'properties', 'span', 'node_name', 'type_name'}) and \
            not any(f.mode == 'flatten' and f.partial[1] for f in fs)
        par = not (ms & {'argument', 'arguments', 'properties', 'children', 'multi', 'span', 'node_name', 'type_name'}) and \
            all(f.option for f in fs if f.mode in ('property', 'child'))
        fn = self.method(fx, 'Decode', 'decode_node')
        for tr, m, want in (('DecodeChildren', 'decode_children', doc), ('DecodePartial', 'insert_child', par),
                            ('Decode', 'decode_node', True)):
            have = self.method(fx, tr, m) is not None
            if have != want:
                report('C29', fn, '%s %s %s' % (fx.id, 'implements' if have else 'does not implement', tr), None)

    def run(self, report, only=None):
        fxs = [fx for fx in fixtures.OUT if not only or only(fx)]
        if len(fxs) > 150:
            return self.run_many(report, fxs)
        for fx in fxs:
            rep = lambda prop, fn, msg, q: report(prop, fx, fn, msg, q)
            try:
                self.one_fixture(fx, rep)
            except Exception as e:   # a limit of the rules, never a verdict
                rep(None, None, 'internal: %r' % (e,), None)
        return len(fxs)

    def run_many(self, report, fxs):
        """the same on several processors"""
        import multiprocessing
        global _job
        _job = self, fxs
        with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
            for i, msgs, seen, funcs, n in pool.imap(_one, range(len(fxs))):
                self.visited |= seen
                self.ck.funcs |= funcs
                self.ck.paths_n += n
                for pr, name, msg, kind in msgs:
                    report(pr, fxs[i], None if name is None else Named(name, None), msg, None if kind is None else Named('', kind))
        return len(fxs)

    def one_fixture(self, fx, rep):
        if fx.kind == 'struct':
            self.struct_node(fx, rep)
            self.struct_doc(fx, rep)
            self.partial(fx, rep)
            self.traits(fx, rep)
        elif fx.kind == 'enum':
            self.enum(fx, rep)
        elif fx.kind == 'newtype':
            self.newtype(fx, rep)
        elif fx.kind == 'scalar':
            self.scalar_enum(fx, rep)

    def guard(self, report, fn, q, go):
        try:
            go()
        except Bad as e:
            if q is not None and q.tainted():     # a path through a call without a model proves nothing
                report(None, fn, '%s; path uses %s' % (e.msg, ', '.join(sorted(q.notes))), q)
            else:
                report(e.prop, fn, e.msg, q)
        except (Undecided, Unsupported) as e:
            report(None, fn, str(e), q)
        except Exception as e:   # a limit of the rules, never a verdict
            report(None, fn, 'internal: %r' % (e,), q)


class Named:
    """what is left of a function or a path in another process"""

    def __init__(self, name, kind):
        self.name, self.kind = name, kind


_job = None


def _one(i):
    d, fxs = _job
    ck = d.ck
    ck.funcs, ck.paths_n, d.visited, ck._cache = set(), 0, set(), {}
    msgs = []
    rep = lambda prop, fn, msg, q: msgs.append((prop, fn.name if fn is not None else None, msg, getattr(q, 'kind', None)))
    try:
        d.one_fixture(fxs[i], rep)
    except Exception as e:   # a limit of the rules, never a verdict
        rep(None, None, 'internal: %r' % (e,), None)
    return i, msgs, d.visited, ck.funcs, ck.paths_n
