"""The grammar as a language: parser values computed by the interpreter are
turned into parsing expressions with outputs (what each closure does with the
text is found by interpreting the closure symbolically)."""
import itertools
from terms import *
from interp import Interp, Unsupported, new_state, RET, PANIC, iv_and, iv_not, iv_or

ALL = ((0, 0xD7FF), (0xE000, 0x10FFFF))
NIL = mk('nil')
EOI = mk('EOI')
DIRTY = mk('DIRTY')
FAIL = mk('FAIL')
MAXHASH = 3
MAXLEN = 300
MANY = 1 << 31


class NeedSplit(Exception):
    def __init__(self, t):
        self.t = t


class Undecided(Exception):
    pass


class Defect(Exception):
    """the grammar can panic or loop"""


_n = [0]


def fresh():
    _n[0] += 1
    return _n[0]


def C(iv, site):
    return mk('C', tuple(iv), site)


def iv_of_chars(s):
    out = ()
    for c in s:
        out = iv_or(out, ((ord(c), ord(c)),))
    return out


def phi(i, outs):
    """one of several outputs, by the alternative taken"""
    if all(o is outs[0] for o in outs):
        return outs[0]
    return mk('phi', i, tuple(outs))


def chr_(site):
    return mk('chr', site)


class Mixed(Exception):
    """items of a repetition influence each other"""


def name(t):
    return t.a[2] if t.op == 'adt' else t.op


def choices(ts, done=()):
    """values terms may have"""
    ph = next((x for t in ts for x in walk(t) if x.op == 'phi'), None)
    if ph is None:
        yield ts
        return
    both = any(x.op == 'adt' and x.a[0] == OPTION for x in ph.a[1]) and len(done) < 6
    for x in (ph.a[1] if both else ph.a[1][:1]):
        for r in choices([subst(t, {ph: x}) for t in ts], done + (1,) * both):
            yield r


def variants(t):
    """the shapes an output may have"""
    r = {}
    work = [t]
    while work:
        x = work.pop()
        if x.op == 'phi':
            work += x.a[1]
        else:
            r.setdefault(x.a[:3] if x.op == 'adt' else x.op, x)
    return tuple(r.values())


def homo(v, exp, node=False):
    """(is, should be) where a result is not put together from those of its items"""
    if all(v is e for e in exp):
        return None
    if v.op == 'seq' and all(e.op == 'seq' for e in exp):
        b = parts(exp[0])
        want = tuple(b)
        for e in exp[1:]:
            ps = parts(e)
            if ps[:len(b)] != b:
                return None
            want += ps[len(b):]
        return None if parts(v) == want else (v, mk('seq', *want))
    if v.op == 'app' and v.a[0].startswith(('vec_dedup', 'vec_sort')) and v.a[1][0].op == 'seq' and all(e.op == 'seq' for e in exp):
        # applied to different items in the order of the text
        b = parts(exp[0])
        want = tuple(b) + sum([parts(e)[len(b):] for e in exp[1:]], ())
        return (v, mk('seq', *want)) if v.a[1][0].a == want else None
    if v.op in ('adt', 'tup') and all(e.op == v.op for e in exp):
        if v.op == 'adt':
            if node and v.a[0] == OPTION and v.a[2] == 'None' and exp[0].a[2] == 'Some':
                return v, exp[0]
            if any(e.a[:3] != v.a[:3] for e in exp):
                return None
            return next((w for w in (homo(x, [e.a[3][i] for e in exp], v.a[0].endswith('ast::Node')) for i, x in enumerate(v.a[3])) if w), None)
        return next((w for w in (homo(x, [e.a[i] for e in exp]) for i, x in enumerate(v.a)) if w), None)
    return None


class PInterp(Interp):
    """interpreter that asks for a case distinction when it meets an
    alternative"""

    def need(self, v):
        if v.op == 'phi':
            raise NeedSplit(v)

    def behind(self, st, v):
        while v.op in ('vref', 'ref'):
            v = self.load(st, v)
        return v

    def discr(self, st, v, ty):
        self.need(self.behind(st, v))
        return Interp.discr(self, st, v, ty)

    def project(self, st, v, step):
        self.need(v)
        return Interp.project(self, st, v, step)

    def known_variant(self, st, v, path=None):
        self.need(v)
        return Interp.known_variant(self, st, v, path)

    def assume_variant(self, st, v, path, idxs, val=True):
        self.need(v)
        return Interp.assume_variant(self, st, v, path, idxs, val)

    def seqlen(self, st, v):
        self.need(v)
        return Interp.seqlen(self, st, v)


    def items(self, st, c, src):
        """one item of a repeated parser's output"""
        out = src.a[1]
        if out.op == 'chr':
            self.refine(st, c, ('iv', self.conv.sites[out.a[0]]))
            return [(st, c)]
        r = []
        work = [(st, out)]
        while work:
            s, o = work.pop()
            ph = [x for x in walk(o) if x.op == 'phi' and x.a[0] in self.explode and not self.nested(o, x)]
            if not ph:
                r.append((s, o))
                continue
            x = ph[0]
            for n, y in enumerate(x.a[1]):
                s2 = s.fork()
                s2.facts[mk('alt', c, x.a[0])] = ('in', frozenset([n]))
                work.append((s2, subst(o, {x: y})))
        return r

    def nested(self, o, x):
        return any(y.op == 'plist' and mentions(y, lambda z: z is x) for y in walk(o))


class Conv:
    def __init__(self, prog):
        self.p = prog
        self.memo = {}
        self.handles = {}       # recursive closure -> name
        self.bodies = {}        # name -> P term of the body
        self.funcs = set()
        self.panics = []        # (closure, elements on which it panics, state, panic)
        self.runs = 0
        self.listed = {}        # closures over repetitions and what they are given
        self.npaths = 0
        self.sites = {}         # char site -> class
        self.texts = {}         # plist id -> character sites
        self.items = {}         # plist id -> item output

    # ---------- running closures ----------
    def interp(self, cl, args, explode):
        it = PInterp(self.p, opq_tn)
        it.conv = self
        it.explode = explode
        st = new_state()
        for t in args:
            inl = {y for x in walk(t) if x.op == 'plist' for y in walk(x)}
            for x in walk(t):
                if x.op == 'chr' and x not in inl:
                    it.refine(st, x, ('iv', self.sites[x.a[0]]))
        self.runs += 1
        try:
            outs = it.apply(st, cl, list(args), None)
        finally:
            self.funcs |= it.funcs_seen
        self.npaths += len(outs)
        return it, outs

    def run(self, cl, args, asg=()):
        """[(assignment, interpreter, state, kind, value)] of a closure over outputs"""
        explode = set()
        if not asg and any(q.op == 'plist' and q.a[1].op in ('phi', 'adt', 'tup') for a in args for q in walk(a)):
            self.listed.setdefault(cl, args)
        while True:
            try:
                it, outs = self.interp(cl, args, explode)
                break
            except (Unsupported, Undecided):
                self.refute(cl, args)
                raise
            except NeedSplit as e:
                i, os_ = e.t.a
                if any(x.op == 'plist' and mentions(x, lambda z: z is e.t) for a in args for x in walk(a)):
                    if i in explode:
                        raise Undecided('case distinction inside a repetition')
                    explode.add(i)
                    continue
                r = []
                for n, o in enumerate(os_):
                    r += self.run(cl, [subst(a, {e.t: o}) for a in args], asg + ((i, n),))
                return r
        for s, kd, v in outs:
            for t in s.facts:
                x = self.splits(t)
                if x is not None and not any(mentions(q, lambda z: z is x) for a in args for q in walk(a) if q.op == 'plist'):
                    i, os_ = x.a
                    r = []
                    for n, o in enumerate(os_):
                        r += self.run(cl, [subst(a, {x: o}) for a in args], asg + ((i, n),))
                    return r
        ps = []
        for s, kd, v in outs:
            z = [t for t, d in s.facts.items() if t.op == 'len' and t.a[0].op == 'plist' and d == ('iv', ((0, 0),))]
            ps.append((s, kd, v, z))
        keep = []
        gen = []
        for s, kd, v, z in ps:
            s.exits = {}
            for e in s.trace:
                if e.a[0] == 'loop':
                    s.exits[e.a[1]] = {e.a[4]}
        for x in ps:
            by = [y for y in ps if y is not x and self.general(y, x)]
            if not by:
                gen.append(x)
            for y in by:
                self.join(y, x)
        ps = gen
        for x in ps:
            by = [y for y in ps if y is not x and len(y[3]) < len(x[3]) and self.covers(y, x)] if x[3] else []
            if not by:
                keep.append(x)
            for y in by:
                self.join(y, x)
        return [(asg, it, s, kd, v) for s, kd, v, z in keep]

    def refute(self, cl, args):
        """a loop over a repetition that cannot be summarised: is there a short
        list whose items do not each contribute the same as alone?"""
        lists = [q for a in args for q in walk(a) if q.op == 'plist' and q.a[1].op in ('phi', 'adt', 'tup')]
        for q in lists:
            if any(mentions(y, lambda z: z is q) for y in lists if y is not q):
                continue
            alts = variants(q.a[1])
            if len(alts) > 4:
                continue
            hole = mk('sym', 'items')
            rest = {y: EMPTY for a in args for y in walk(subst(a, {q: hole})) if y.op == 'plist'}
            for n, ch in enumerate(itertools.islice(choices([subst(subst(a, {q: hole}), rest) for a in args]), 64)):
                try:
                    self.short(cl, ch, hole, alts, 3 if not n else 2)
                except (Unsupported, Undecided, NeedSplit):
                    pass

    def short(self, cl, args, hole, alts, most):
        def item(n, m):
            def go(t, path):
                if t.op == 'adt':
                    return mk('adt', t.a[0], t.a[1], t.a[2], tuple(go(x, path + (i,)) for i, x in enumerate(t.a[3])))
                if t.op == 'tup':
                    return mk('tup', *(go(x, path + (i,)) for i, x in enumerate(t.a)))
                return mk('sym', '%d/%d/%s' % (n, m, '.'.join(map(str, path))))
            return go(alts[m], ())

        def result(ix):
            q = seq(*(one(item(n, m)) for n, m in ix))
            it = PInterp(self.p, opq_tn)
            it.conv = self
            it.explode = set()
            it.unroll = True
            it.max_paths = 300
            return [(s, kd, v) for s, kd, v in it.apply(new_state(), cl, [subst(a, {hole: q}) for a in args], None)]
        alone = {}
        base = result([])
        for m in range(len(alts)):
            alone[m] = result([(0, m)])
        for k_ in range(1, most + 1):
            for ms in itertools.product(range(len(alts)), repeat=k_):
                ix = list(enumerate(ms))
                cs = [base]
                for n, m in ix:
                    ren = {x: mk('sym', '%d%s' % (n, x.a[0][1:])) for s, kd, v in alone[m] for t in [v] + list(s.facts) for x in walk(t)
                           if x.op == 'sym' and isinstance(x.a[0], str) and x.a[0].startswith('0/')}
                    cs.append([(s, kd, subst(v, ren), {subst(t, ren): d for t, d in s.facts.items()}) for s, kd, v in alone[m]])
                cs[0] = [(s, kd, v, s.facts) for s, kd, v in base]
                for s, kd, v in result(ix):
                    if kd != RET:
                        continue
                    exp = [[y for y in c if not any(t in s.facts and apart(d, s.facts[t]) for t, d in y[3].items())] for c in cs]
                    if any(len(c) != 1 or c[0][1] != RET for c in exp):
                        continue
                    w = homo(v, [c[0][2] for c in exp])
                    if w:
                        raise Mixed('an item of a repetition (%s) is treated differently after other items: %s instead of %s' % (
                            ', '.join(name(alts[m]) for n, m in ix), show(w[0])[:160], show(w[1])[:160]))

    def join(self, y, x):
        for L in y[0].exits:
            y[0].exits[L] |= x[0].exits.get(L, {0})

    def splits(self, t):
        """alternative on which a condition depends directly"""
        while t.op in ('fld', 'vref', 'freeze') and isinstance(t.a[0], T):
            t = t.a[0]
        return t if t.op == 'phi' else None

    def general(self, y, x):
        """x is y with some lists, collected by a loop over all items, empty"""
        (s1, k1, v1, z1), (s0, k0, v0, z0) = y, x
        if k1 != k0 or not isinstance(v1, T) or not isinstance(v0, T) or s1.facts != s0.facts or v1 is v0:
            return False
        if [e for e in s1.trace if e.a[0] != 'loop'] != [e for e in s0.trace if e.a[0] != 'loop']:
            return False
        old = set(walk(v0))
        m = {q: EMPTY for q in walk(v1) if q.op == 'compr' and q.a[3] and q not in old}
        return bool(m) and restr(subst(v1, m)) is restr(v0)

    def covers(self, y, x):
        """x is the case of y in which some lists are empty"""
        (s1, k1, v1, z1), (s0, k0, v0, z0) = y, x
        if k1 != k0 or not set(z1) <= set(z0):
            return False
        new = [t.a[0] for t in z0 if t not in z1]
        m = {}
        for t in [v1] + list(s1.facts) + list(s1.trace):
            for q in walk(t):
                if q.op == 'compr' and any(sr[0] in new for sr in q.a[1]):
                    m[q] = EMPTY
        for t in new:
            m[t] = EMPTY
        f1 = {restr(subst(t, m)): d for t, d in s1.facts.items()}
        f0 = {restr(t): d for t, d in s0.facts.items() if t not in z0 or t in z1}
        return f1 == f0 and restr(subst(v1, m)) is restr(v0)

    # ---------- conversion ----------
    def conv(self, P):
        """(elements, output) with fresh identities"""
        while P.op == 'vref':
            P = P.a[0]
        r = self.memo.get(P)
        if r is None:
            if P.op != 'P':
                raise Undecided('not a parser: ' + show(P)[:80])
            f = getattr(self, 'c_' + P.a[0], None)
            if f is None:
                raise Undecided('parser combinator ' + P.a[0])
            r = self.memo[P] = f(*P.a[1])
        return self.renew(*r)

    def renew(self, e, out):
        m = {}

        def nid(i):
            j = m.get(i)
            if j is None:
                j = m[i] = fresh()
                if i in self.sites:
                    self.sites[j] = self.sites[i]
            return j
        memo = {}

        def go(t):
            if not isinstance(t, T):
                return tuple(go(x) for x in t) if isinstance(t, tuple) else \
                    frozenset(go(x) for x in t) if isinstance(t, frozenset) else t
            r = memo.get(t)
            if r is not None:
                return r
            op, a = t.op, t.a
            if op == 'alt':
                r = mk(op, go(a[0]), nid(a[1]))
            elif op in ('Alt', 'phi', 'Rep', 'plist', 'Item', 'SO', 'SC', 'span', 'chr', 'sub', 'recovered'):
                r = mk(op, nid(a[0]), *[go(x) for x in a[1:]])
            elif op in ('C', 'L'):
                r = mk(op, a[0], nid(a[1]))
            elif op == 'Mon':
                r = mk(op, a[0], tuple(nid(x) for x in a[1]), go(a[2]))
            elif a:
                r = mk(op, *[go(x) for x in a])
            else:
                r = t
            memo[t] = r
            return r
        e2, o2 = go(e), go(out)
        for i, j in list(m.items()):
            if i in self.texts:
                self.texts[j] = tuple(nid(x) for x in self.texts[i])
            if i in self.items:
                self.items[j] = go(self.items[i][0]), go(self.items[i][1])
        return e2, o2

    def lit(self, c):
        s = fresh()
        iv = ((c, c),)
        self.sites[s] = iv
        return C(iv, s), chr_(s)

    def c_just(self, x):
        if x.op == 'k':
            e, o = self.lit(x.a[0])
            return (e,), o
        t = x
        while t.op in ('vref',):
            t = t.a[0]
        if t.op == 'str':
            return tuple(self.lit(ord(c))[0] for c in t.a[0]), t
        raise Undecided('just ' + show(x))

    def char_set(self, x):
        t = x
        while t.op == 'vref':
            t = t.a[0]
        if t.op == 'str':
            return iv_of_chars(t.a[0])
        if t.op == 'k':
            return ((t.a[0], t.a[0]),)
        if t.op == 'seq' and all(p.op == 'one' and p.a[0].op == 'k' for p in t.a):
            return iv_of_chars(''.join(chr(p.a[0].a[0]) for p in t.a))
        raise Undecided('character set ' + show(x))

    def one_char(self, iv):
        s = fresh()
        self.sites[s] = iv
        return (C(iv, s),), chr_(s)

    def c_none_of(self, x):
        return self.one_char(iv_and(ALL, iv_not(self.char_set(x))))

    def c_one_of(self, x):
        return self.one_char(self.char_set(x))

    def c_any(self):
        return self.one_char(ALL)

    def c_end(self):
        return (EOI,), UNIT

    def c_empty(self):
        return (), UNIT

    def c_filter(self, cl):
        s = fresh()
        self.sites[s] = ALL
        ch = chr_(s)
        yes, no = (), ()
        for asg, it, st, kd, v in self.run(cl, [mk('vref', ch)]):
            if kd != RET:
                self.panics.append((cl, (C(iv_and(ALL, it.dom(st, ch)[1] if it.dom(st, ch) else ALL), s),), st, v))
                continue
            for val in (True, False):
                for x in it.assume(st.fork(), v, val) if v.op != 'k' else ([st] if bool(v.a[0]) == val else []):
                    d = it.dom(x, ch)
                    d = d[1] if d else ALL
                    if val:
                        yes = iv_or(yes, d)
                    else:
                        no = iv_or(no, d)
                    for t in x.facts:
                        if t is not ch and mentions(t, lambda y: y is ch):
                            raise Undecided('character filter depends on ' + show(t))
        yes = iv_and(ALL, yes)
        if iv_and(yes, no):
            raise Undecided('character filter is not a set of characters')
        self.sites[s] = yes
        return (C(yes, s),), ch

    def c_filter_map(self, cl):
        s = fresh()
        self.sites[s] = ALL
        ch = chr_(s)
        alts = []
        for asg, it, st, kd, v in self.run(cl, [mk('span', fresh()), ch]):
            if kd != RET:
                self.panics.append((cl, (C(iv_and(ALL, it.dom(st, ch)[1] if it.dom(st, ch) else ALL), s),), st, v))
                continue
            d = it.dom(st, ch)
            d = iv_and(ALL, d[1] if d else ALL)
            if v.op == 'adt' and v.a[0] == RESULT:
                if v.a[2] == 'Err':
                    continue
                alts.append((d, v.a[3][0]))
            else:
                raise Undecided('filter_map result ' + show(v)[:80])
        # merge equal outputs
        m = {}
        for d, o in alts:
            if o.op == 'k' and d == ((o.a[0], o.a[0]),):
                o = ch
            m[o] = iv_or(m.get(o, ()), d)
        al = []
        for o, d in m.items():
            n = fresh()
            self.sites[n] = d
            al.append(((C(d, n),), simp(subst(o, {ch: chr_(n)}))))
        return self.alt(al)

    def alt(self, al):
        """exclusive alternatives"""
        if not al:
            return (FAIL,), UNIT
        if len(al) == 1:
            return al[0]
        i = fresh()
        return (mk('Alt', i, tuple(e for e, o in al)),), phi(i, [o for e, o in al])

    # ---- sequencing
    def c_then(self, a, b):
        ea, oa = self.conv(a)
        eb, ob = self.conv(b)
        return ea + eb, tup(oa, ob)

    def c_ignore_then(self, a, b):
        ea, oa = self.conv(a)
        eb, ob = self.conv(b)
        return ea + eb, ob

    def c_then_ignore(self, a, b):
        ea, oa = self.conv(a)
        eb, ob = self.conv(b)
        return ea + eb, oa

    def c_delimited_by(self, a, l, r):
        el, _ = self.conv(l)
        e, o = self.conv(a)
        er, _ = self.conv(r)
        return el + e + er, o

    def c_padded_by(self, a, p):
        return self.c_delimited_by(a, p, p)

    def c_ignored(self, a):
        return self.conv(a)[0], UNIT

    def c_to(self, a, v):
        return self.conv(a)[0], v

    c_map_err = c_labelled = c_boxed = lambda self, a, *x: self.conv(a)
    c_map_err_with_span = c_or_else_err = c_debug = c_map_err

    def first(self, e):
        """(characters, letters, may match nothing) of an expression"""
        iv, ls = (), set()
        for x in e:
            if x.op == 'C':
                return iv_or(iv, x.a[0]), ls, False
            if x.op == 'L':
                return iv, ls | {x.a[0]}, False
            if x.op == 'FAIL':
                return (), set(), False
            if x.op == 'EOI':
                return iv, ls | {'EOI'}, False
            sub = None
            if x.op == 'Alt':
                sub = [self.first(y) for y in x.a[1]]
            elif x.op in ('Rep',):
                sub = [self.first(x.a[1])]
                if x.a[2] == 0:
                    sub.append(((), set(), True))
            elif x.op == 'Item':
                sub = [self.first(x.a[1])]
            elif x.op == 'Mon':
                sub = [self.first(x.a[2])]
            if sub is not None:
                for a, b, c in sub:
                    iv, ls = iv_or(iv, a), ls | b
                if not any(c for a, b, c in sub):
                    return iv, ls, False
        return iv, ls, True

    def guard(self, ea, eb, mode='any'):
        """what eb needs to come after ea has failed"""
        a, b = self.first(ea), self.first(eb)
        if not a[2] and not b[2] and not iv_and(a[0], b[0]) and (a[1] | b[1]) <= {'EOI'} and not (a[1] & b[1]):
            return ()
        return (mk('Not', mode, self.copy(ea)),)

    def copy(self, e):
        return self.renew(e, UNIT)[0]

    # ---- choice
    def succ(self, e, mode='any'):
        return mk('Not', mode, self.copy(e))

    def c_choice(self, t):
        ps = t.a if t.op == 'tup' else [p.a[0] for p in parts(t)]
        al = []
        prev = []
        for p in ps:
            e, o = self.conv(p)
            g = ()
            for q in prev:
                g += self.guard(q, e)
            al.append((g + e, o))
            prev.append(e)
        return self.alt(al)

    def c_or(self, a, b):
        ea, oa = self.conv(a)
        eb, ob = self.conv(b)
        da, db = self.dirty(ea), self.dirty(eb)
        g = self.guard(ea, eb)
        if (not da and not db) or not g:
            return self.alt([(ea, oa), (g + eb, ob)])
        # a clean success of either side is preferred
        ca, cb = self.copy(ea), self.copy(eb)
        nca, ncb = mk('Not', 'clean', ca), mk('Not', 'clean', cb)
        al = [((mk('And', 'clean', ca),) + ea, oa), ((nca, mk('And', 'clean', cb)) + eb, ob)]
        if da:
            al.append(((nca, ncb) + ea, oa))
        if db:
            al.append(((nca, ncb, mk('Not', 'any', ca)) + eb, ob))
        return self.alt(al)

    def dirty(self, e):
        return any(mentions(x, lambda y: y is DIRTY) for x in e)

    def c_or_not(self, a):
        e, o = self.conv(a)
        return self.alt([(e, some(o)), ((mk('Not', 'any', self.copy(e)),), NONE)])

    def c_rewind(self, a):
        e, o = self.conv(a)
        if self.dirty(e):
            raise Undecided('rewind of a recovering parser')
        # the output of a lookahead is only its shape
        return self.look(e, o)

    def look(self, e, o):
        al = []
        if o.op == 'phi':
            i, os_ = o.a
            for n, x in enumerate(os_):
                al.append(((mk('And', 'any', self.copy(spec(e, {i: n}))),), x))
            return self.alt(al)
        return (mk('And', 'any', e),), o

    def c_not(self, a):
        e, o = self.conv(a)
        return (mk('Not', 'any', self.copy(e)),) + self.one_char(ALL)[0], UNIT

    # ---- repetition
    def rep(self, e, o, lo, hi):
        if self.empty(e):
            raise Defect('a repeated parser can match nothing')
        i = fresh()
        self.items[i] = (e, o)
        return (mk('Rep', i, (mk('Item', i, e),), lo, hi, True),), mk('plist', i, o)

    def empty(self, e):
        for x in e:
            if x.op in ('C', 'L', 'FAIL'):
                return False
            if x.op == 'Alt' and not any(self.empty(y) for y in x.a[1]):
                return False
            if x.op == 'Rep' and x.a[2] > 0 and not self.empty(x.a[1]):
                return False
            if x.op == 'Item' and not self.empty(x.a[1]):
                return False
            if x.op == 'Mon' and not self.empty(x.a[2]):
                return False
        return True

    def c_repeated(self, a):
        e, o = self.conv(a)
        return self.rep(e, o, 0, None)

    def relimit(self, a, lo, hi):
        P = a
        while P.op == 'P' and P.a[0] in ('at_least', 'at_most', 'exactly'):
            P = P.a[1][0]
        if P.op == 'P' and P.a[0] == 'repeated':
            (r,), out = self.conv(a)
            assert r.op == 'Rep'
            n = mk('Rep', r.a[0], r.a[1], r.a[2] if lo is None else lo, r.a[3] if hi is None else hi, True)
            return (n,), out
        raise Undecided('limits of a separated list')

    def num(self, n):
        if n.op != 'k':
            raise NeedSplitNum(n)
        return n.a[0]

    def c_at_least(self, a, n):
        return self.relimit(a, self.num(n), None)

    def c_at_most(self, a, n):
        return self.relimit(a, None, self.num(n))

    def c_exactly(self, a, n):
        return self.relimit(a, self.num(n), self.num(n))

    def c_chain(self, a, b):
        ea, oa = self.conv(a)
        eb, ob = self.conv(b)
        return ea + eb, self.text(self.chars(oa) + self.chars(ob))

    c_chain_c = c_chain

    def chars(self, o):
        """character sites of a text, in order"""
        if o.op == 'chr':
            return (o.a[0],)
        if o.op == 'plist':
            if o.a[0] in self.texts:
                return self.texts[o.a[0]]
            if o.a[1].op in ('chr', 'phi'):
                return self.chars(o.a[1])
        if o.op == 'seq':
            return sum([self.chars(p.a[0]) for p in o.a], ())
        if o.op == 'phi':
            return sum([self.chars(x) for x in o.a[1]], ())
        if o.op == 'adt' and o.a[0] == OPTION:
            return () if o.a[2] == 'None' else self.chars(o.a[3][0])
        raise Undecided('text ' + show(o)[:60])

    def text(self, sites):
        if not sites:
            return EMPTY
        i, s = fresh(), fresh()
        self.texts[i] = sites
        iv = ()
        for x in sites:
            iv = iv_or(iv, self.sites[x])
        self.sites[s] = iv
        return mk('plist', i, chr_(s))

    def c_flatten(self, a):
        e, o = self.conv(a)
        return e, self.text(self.chars(o))

    def c_collect(self, a, how=None):
        e, o = self.conv(a)
        if how is not None and how.a[0] == 'string':
            return e, of_chars(o)
        return e, o

    def c_take_until(self, a):
        e, o = self.conv(a)
        s = fresh()
        self.sites[s] = ALL
        i = fresh()
        body = (mk('Not', 'any', self.copy(e)), mk('Item', i, (C(ALL, s),)))
        self.items[i] = (body[1].a[1], chr_(s))
        r = mk('Rep', i, body, 0, None, True)
        return (r,) + e, tup(mk('plist', i, chr_(s)), o)

    def sep_flags(self, P):
        fl = set()
        while P.op == 'P' and P.a[0] in ('allow_trailing', 'allow_leading'):
            fl.add(P.a[0])
            P = P.a[1][0]
        if P.op != 'P' or P.a[0] != 'separated_by':
            raise Undecided('separated list')
        return fl, P

    def c_allow_trailing(self, a):
        return self.sep(mk('P', 'allow_trailing', (a,)))

    def c_allow_leading(self, a):
        return self.sep(mk('P', 'allow_leading', (a,)))

    def c_separated_by(self, a, d):
        return self.sep(mk('P', 'separated_by', (a, d)))

    def sep(self, P):
        fl, Q = self.sep_flags(P)
        e, o = self.conv(Q.a[1][0])
        d, _ = self.conv(Q.a[1][1])
        opt = self.alt([(d, UNIT), ((mk('Not', 'any', self.copy(d)),), UNIT)])[0]
        if self.empty(e) and self.empty(d):
            raise Defect('a separated list can loop without progress')
        i = fresh()
        # item (delimiter item)*
        self.items[i] = (e, o)
        e = (mk('Item', i, e),)
        more = (mk('Rep', i, d + e, 0, None, True),)
        lead = opt if 'allow_leading' in fl else ()
        trail = opt if 'allow_trailing' in fl else ()
        j = fresh()
        body = (mk('Alt', j, (e + more + trail, (mk('Not', 'any', self.copy(e)),))),)
        return lead + body, phi(j, [mk('plist', i, o), EMPTY])

    # ---- functions
    def region(self, e):
        s = fresh()
        return (mk('SO', s),) + e + (mk('SC', s),), mk('span', s)

    def c_map(self, a, cl):
        e, o = self.conv(a)
        return self.apply(e, cl, [o])

    def c_map_with_span(self, a, cl):
        e, o = self.conv(a)
        e, sp = self.region(e)
        return self.apply(e, cl, [o, sp])

    def c_try_map(self, a, cl):
        e, o = self.conv(a)
        e, sp = self.region(e)
        return self.apply(e, cl, [o, sp], 'try')

    def c_validate(self, a, cl):
        e, o = self.conv(a)
        e, sp = self.region(e)
        em = mk('pyfn', _emit)
        return self.apply(e, cl, [o, sp, em], 'validate')

    def c_then_with(self, a, cl):
        e, o = self.conv(a)
        if o.op == 'len' and o.a[0].op == 'plist':
            al = []
            i = o.a[0].a[0]
            for n in range(MAXHASH + 1):
                e2 = retimes(e, i, n)
                al.append((e2 + self.follow(cl, [k(n)], n)[0], None))
                al[-1] = (al[-1][0], self._fo)
            return self.alt(al)
        e2, o2 = self.follow(cl, [o], None)
        return e + e2, tup(o, o2)

    def follow(self, cl, args, n):
        r = self.run(cl, args)
        if len(r) != 1 or r[0][0]:
            raise Undecided('parser chosen by a condition')
        P = r[0][4]
        e, o = self.conv(P)
        self._fo = o
        return e, o

    def c_recover_with(self, a, strat):
        e, o = self.conv(a)
        if strat.op != 'P' or strat.a[0] != 'skip_until':
            raise Undecided('recovery strategy')
        stop = self.char_set(strat.a[1][0])
        go = iv_and(ALL, iv_not(stop))
        one, x = self.one_char(go), fresh()
        sk = lambda lo: mk('Rep', fresh(), one[0], lo, None, True)
        look = lambda iv: mk('And', 'any', (C(iv, 0),))
        rec = (mk('Not', 'any', self.copy(e)), mk('Alt', fresh(), (
            (sk(0), look(stop), DIRTY), (sk(1), EOI, DIRTY))))
        return self.alt([(e, o), (rec, mk('recovered', x))])

    def c_recursive(self, cl):
        nm = self.handles.get(cl)
        if nm is None:
            nm = self.handles[cl] = 'R%dR' % len(self.handles)
            r = self.run(cl, [mk('P', 'rec', (string(nm),))])
            if len(r) != 1:
                raise Undecided('recursive parser chosen by a condition')
            self.bodies[nm] = r[0][4]
        return self.inline(nm)

    def c_rec(self, h):
        s = fresh()
        return (mk('L', h.a[0], s),), mk('sub', s)

    def inline(self, nm):
        return self.conv(self.bodies[nm])


    def apply(self, e, cl, args, mode='map'):
        al = []
        leaves = []
        for asg, it, st, kd, v in self.run(cl, args):
            if mode == 'try' and kd == RET and (v.op != 'adt' or v.a[0] != RESULT):
                for n, nm in ((0, 'Ok'), (1, 'Err')):
                    for s2 in it.assume_variant(st.fork(), v, RESULT, [n]):
                        w = it.project(s2, v, ('f', n, 0, '0', RESULT, nm))
                        leaves.append((asg, it, s2, kd, mk('adt', RESULT, n, nm, (w,))))
                continue
            leaves.append((asg, it, st, kd, v))
        rs = {}
        for l in list(leaves):
            asg, it, st, kd, v = l
            if kd != RET and v.a[0] == 'slice index':
                # not a condition the path carries: see cuts()
                try:
                    r = self.restrict(spec(e, dict(asg)), st, it)
                except Undecided as x:
                    r = x
                if r is not None:
                    self.panics.append((cl, r, st, v))
                leaves.remove(l)
        for l in list(leaves):
            asg, it, st, kd, v = l
            try:
                rs[st] = self.restrict(spec(e, dict(asg)), st, it)
            except Undecided as x:
                if kd == RET:
                    raise
                self.panics.append((cl, x, st, v))
                leaves.remove(l)
        leaves = [l for l in leaves if rs[l[2]] is not None]
        autos = self.apart(leaves, cl)
        for asg, it, st, kd, v in leaves:
            r = rs[st]
            for L in sorted(autos.get(st, ())):
                r = self.auto(r, st, L)
            if kd != RET:
                self.panics.append((cl, r, st, v))
                continue
            if mode == 'try':
                if v.a[2] == 'Err':
                    continue        # the alternative fails
                v = v.a[3][0]
            if mode == 'validate' and any(x.a[0] == 'emit' for x in st.trace):
                r = r + (DIRTY,)
            al.append((r, self.same(r, v)))
        al = list(dict.fromkeys(al))
        if DEBUG:
            print('----', cl.a[0].split('|')[0][:60], len(al))
            for x, o in al[:16]:
                print('      ', show(o)[:200])
        return self.alt(al)

    def apart(self, leaves, cl):
        """the outcomes of a closure must be told apart by what is known on their
        paths; returns the loops whose history is needed for that"""
        need = {}
        for i, (a1, i1, s1, k1, v1) in enumerate(leaves):
            for a2, i2, s2, k2, v2 in leaves[:i]:
                if v1 is v2 and k1 == k2 or any(dict(a1).get(i, n) != n for i, n in a2):
                    continue
                if any(t in s2.facts and apart(d, s2.facts[t]) for t, d in s1.facts.items()):
                    continue
                for L, me in s1.exits.items():
                    if L in s2.exits and not me & s2.exits[L]:
                        for s in (s1, s2):
                            need.setdefault(s, set()).add(L)
                        break
                else:
                    raise Undecided('outcomes that are not told apart in ' + cl.a[0].split('|')[0])
        return need

    def auto(self, e, st, L):
        ev, = [x for x in st.trace if x.a[0] == 'loop' and x.a[1] == L]
        rset, full = ev.a[2], ev.a[3]
        if not full:
            raise Undecided('loop left early')
        tr, srcs = set(), set()
        for r in rset:
            cls, evs, pushes, sr = r[:4]
            iv = ALL
            for t, d in cls:
                if t.op != 'cur' or d[0] != 'iv':
                    raise Undecided('condition on an item of a loop: ' + show(t)[:80])
                iv = iv_and(iv, d[1])
            tr.add((r[-2], iv, r[-1]))
            srcs |= {x[0] for x in sr}
        if len(srcs) != 1:
            raise Undecided('loop over several lists')
        for a, i, b in tr:
            for a2, i2, b2 in tr:
                if a == a2 and b != b2 and iv_and(i, i2):
                    raise Undecided('loop with an unclear history: %s' % sorted(tr))
        return (mk('Mon', mk('dfa', 'auto', frozenset(tr), frozenset(st.exits[L])), tuple(self.chars(srcs.pop())), e),)

    def same(self, e, v):
        """a constant character of the output that is a character of the text"""
        ks = {x for y in walk(v) if y.op == 'seq' for x in y.a if x.op == 'one' and x.a[0].op == 'k'}
        if not ks:
            return v
        used = {x.a[0] for x in walk(v) if x.op == 'chr'}
        for x in walk(v):
            if x.op == 'plist' and x.a[0] in self.texts:
                used |= set(self.texts[x.a[0]])
        here = {}
        for t in e:
            for x in walk(t):
                if x.op == 'C' and len(x.a[0]) == 1 and x.a[0][0][0] == x.a[0][0][1]:
                    here.setdefault(x.a[0][0][0], set()).add(x.a[1])
        m = {}
        for q in ks:
            s = here.get(q.a[0].a[0], set()) - used
            if len(s) == 1 and not self.repeated(e, list(s)[0]):
                m[q] = mk('one', chr_(list(s)[0]))
        return subst(v, m) if m else v

    def restrict(self, e, st, it):
        """the part of e on which the facts of a path hold; None if there is none"""
        ex = [t for t in st.facts if t.op == 'exists']
        mons = []
        for t, d in st.facts.items():
            if d[0] == 'iv' and not (iv_and(d[1], ((1, MANY),)) and iv_and(iv_not(d[1]), ((1, MANY),))):
                y = t.a[0] if t.op == 'len' else t.a[1][0] if t.op == 'P' and t.a[0] == 'len' and len(t.a[1]) == 1 else None
                while y is not None and y.op in ('vref', 'ofchars'):
                    y = y.a[0]
                if y is not None and y.op == 'compr' and y.a[3] and len(y.a[1]) == 1 and \
                        len(y.a[2]) == 1 and not list(y.a[2])[0][0] and list(y.a[1])[0][1:] == (0, 0):
                    t = mk('len', list(y.a[1])[0][0])      # one character for every item
            if t.op == 'elem' and t.a[0].op == 'compr' and plain(t.a[0]) is not None:
                t = mk('elem', plain(t.a[0]), t.a[1])
            if t.op == 'chr':
                iv = iv_and(self.sites[t.a[0]], d[1])
                if not iv:
                    return None
                if iv != tuple(self.sites[t.a[0]]):
                    if self.repeated(e, t.a[0]):
                        raise Undecided('fact about one of many characters')
                    e = narrow(e, t.a[0], iv)
            elif t.op == 'cur':
                if not any(mentions(x, lambda y: y is t) for x in ex):
                    raise Undecided('fact about an item: ' + show(t)[:80])
            elif t.op == 'len' and t.a[0].op == 'plist' and d == ('iv', ((0, 0),)):
                try:
                    s = self.chars(t.a[0])
                except Undecided:
                    e = self.relen(e, t.a[0].a[0], 0)
                    continue
                if sum(minlen(x, set(s)) for x in e):
                    return None
                mons.append((mk('dfa', 'len', ((0, 0),)), s))
            elif t.op == 'len' and t.a[0].op == 'sub' and d[0] == 'iv':
                lo, hi = bool(iv_and(d[1], ((0, 0),))), bool(iv_and(d[1], ((1, MANY),)))
                if hi and iv_and(iv_not(d[1]), ((1, MANY),)):
                    raise Undecided('condition on the number of nodes')
                if lo and hi:
                    continue
                e = resub(e, t.a[0].a[0], '0' if lo else '+')
            elif t.op == 'len' and t.a[0].op == 'plist' and d == ('iv', ((1, d[1][0][1]),)) and d[1][0][1] >= MANY:
                try:
                    s = self.chars(t.a[0])
                except Undecided:
                    e = self.relen(e, t.a[0].a[0], 1)
                    continue
                mons.append((mk('dfa', 'len', ((0, 0),)), s, False))
            elif self.strlen(t) is not None and d[0] == 'iv' and all(b <= MAXLEN or b >= MANY for a, b in d[1]) and all(a <= MAXLEN for a, b in d[1]):
                how, x = self.strlen(t)
                mons.append((mk('dfa', how, tuple((a, min(b, MAXLEN + 1)) for a, b in d[1])), self.text_sites(x)))
            elif t.op == 'elem' and t.a[0].op == 'plist' and isinstance(t.a[1], int) and t.a[1] <= MAXLEN and d[0] == 'iv':
                mons.append((mk('dfa', 'at', t.a[1], d[1]), self.chars(t.a[0])))
            elif t.op == 'exists':
                mons.append((mk('dfa', 'any', self.any_class(t)), self.chars(self.srcs(t)), d == ('in', frozenset([1]))))
            elif d[0] in ('in', 'out') and all(isinstance(x, str) for x in d[1]):
                mons.append((mk('dfa', 'word', tuple(sorted(d[1]))), self.text_sites(t), d[0] == 'in'))
            elif t.op == 'app' and t.a[0] == 'from_str_radix:u32' and t.a[1][1].op == 'k':
                mons.append((mk('dfa', 'num', t.a[1][1].a[0], ((0, 0xFFFFFFFF),)), self.text_sites(t.a[1][0]), d == ('in', frozenset([0]))))
            elif t.op == 'app' and t.a[0] == 'try_from:char' and okof(t.a[1][0]) is not None and okof(t.a[1][0]).op == 'app' and \
                    okof(t.a[1][0]).a[0] == 'from_str_radix:u32':
                x = okof(t.a[1][0])
                mons.append((mk('dfa', 'num', x.a[1][1].a[0], ALL), self.text_sites(x.a[1][0]), d == ('in', frozenset([0]))))
            else:
                raise Undecided('condition on the text: %s %s' % (show(t)[-160:] if DEBUG else show(t)[:120], d))
        for m in dict.fromkeys(mons):
            dfa, s = m[0], m[1]
            if len(m) > 2 and not m[2]:
                dfa = mk('dfa', 'not', dfa)
            e = (mk('Mon', dfa, tuple(s), e),)
        return e

    def strlen(self, t):
        if t.op == 'P' and t.a[0] == 'len' and len(t.a[1]) == 1:
            x = t.a[1][0]
            while x.op in ('vref', 'ofchars'):
                x = x.a[0]
            return 'blen', x
        if t.op == 'len' and t.a[0].op in ('plist', 'compr'):
            return 'len', t.a[0]
        if t.op == 'len' and t.a[0].op == 'ofchars':
            x = t.a[0].a[0]
            while x.op in ('vref', 'ofchars'):
                x = x.a[0]
            return 'blen', x
        return None

    def cuts(self, e, v):
        """the part of e on which slicing at constant offsets is out of bounds or cuts a character"""
        x, r = v.a[1].a[1]
        ns = offsets(x, r)
        if ns is None:
            raise Undecided('slice at computed offsets')
        if len(ns) > 1 and ns[0][0] > ns[1][0] and not ns[0][1]:
            return [e]
        return [(mk('Mon', mk('dfa', 'cut', n, short), tuple(self.text_sites(x)), e),) for n, short in ns if n]

    def relen(self, e, i, lo):
        """the part of e in which repetition i has no items / some items"""
        hit = []

        def f(t):
            if t.op == 'Rep' and t.a[0] == i:
                hit.append(t)
                if lo:
                    return mk('Rep', i, t.a[1], max(lo, t.a[2]), *t.a[3:])
                if t.a[2] > 0:
                    return FAIL
                return mk('Not', 'any', self.copy(t.a[1]))
            return t
        if any(x.op == 'Rep' and x.a[0] != i and mentions(x, lambda y: y.op == 'Rep' and y.a[0] == i) for t in e for x in walk(t)):
            raise Undecided('condition on a nested repetition')
        e = rebuild(e, f, {})
        if len(hit) != 1:
            raise Undecided('condition on the number of items')
        return e

    def srcs(self, t):
        r = {x.a[1] for x in walk(t) if x.op == 'cur'}
        if len(r) != 1:
            raise Undecided('condition on several texts')
        return r.pop()

    def any_class(self, t):
        iv = ()
        for facts, vals in t.a[0]:
            facts = dict(facts)
            if len(facts) != 1 or list(facts)[0].op != 'cur' or list(facts.values())[0][0] != 'iv':
                if not facts and not vals:
                    continue
                raise Undecided('condition on characters: ' + show(t)[:100])
            iv = iv_or(iv, list(facts.values())[0][1])
        return iv

    def text_sites(self, t):
        """sites of a text whose characters are taken unchanged"""
        while t.op in ('ofchars', 'vref'):
            t = t.a[0]
        if t.op == 'phi':
            return sum([self.text_sites(x) for x in t.a[1]], ())
        if t.op == 'compr' and plain(t) is not None:
            return self.text_sites(plain(t))
        return self.chars(t)

    def repeated(self, e, s):
        return any(x.op == 'Rep' and mentions(x, lambda y: y.op == 'C' and y.a[1] == s) for t in e for x in walk(t))


def apart(a, b):
    """two pieces of knowledge about a value exclude each other"""
    if a[0] == 'iv' and b[0] == 'iv':
        return not iv_and(a[1], b[1])
    if a[0] == 'in':
        return not (a[1] & b[1]) if b[0] == 'in' else a[1] <= b[1] if b[0] == 'out' else False
    if b[0] == 'in':
        return b[1] <= a[1] if a[0] == 'out' else False
    return False


def offsets(x, r):
    """[(byte offset, are shorter texts fine)] at which a text is sliced; None if unknown"""
    if r.op != 'adt':
        return None
    ns = []
    for y in r.a[3]:
        if y.op == 'k' and y.a[1] != 'bool':
            ns.append((y.a[0], False))
            continue
        if y.op == 'app' and y.a[0].split(':')[0] == 'min':
            u = [z for z in y.a[1] if z.op == 'k']
            w = [z for z in y.a[1] if z.op != 'k']
            if len(u) == 1 and len(w) == 1 and islen(w[0], x):
                ns.append((u[0].a[0], True))
                continue
        return None
    if r.a[0].endswith('Inclusive'):
        ns[-1] = (ns[-1][0] + 1, ns[-1][1])
    return ns


def islen(t, x):
    y = t.a[0] if t.op == 'len' else t.a[1][0] if t.op == 'P' and t.a[0] == 'len' else None
    while y is not None and y.op == 'vref':
        y = y.a[0]
    while x.op == 'vref':
        x = x.a[0]
    return y is x or y is not None and mk('vref', y) is x


def plain(t):
    """the list a comprehension copies"""
    L, srcs, cases, full = t.a
    if full and len(srcs) == 1 and len(cases) == 1:
        (src, k0, n), = srcs
        (facts, vals), = cases
        if src.op == 'plist' and k0 == 0 and not facts and len(vals) == 1 and vals[0].op == 'one':
            v = vals[0].a[0]
            if v is src.a[1] or (v.op == 'cur' and v.a[1] is src):
                return src
    return None


def okof(t):
    if t.op == 'fld' and t.a[1] == RESULT and t.a[2] == 'Ok':
        return t.a[0]
    return None


def minlen(x, sites):
    if x.op == 'C':
        return 1 if x.a[1] in sites else 0
    if x.op == 'Alt':
        return min(sum(minlen(y, sites) for y in z) for z in x.a[1])
    if x.op == 'Rep':
        return x.a[2] * sum(minlen(y, sites) for y in x.a[1])
    if x.op == 'Item':
        return sum(minlen(y, sites) for y in x.a[1])
    if x.op == 'Mon':
        return sum(minlen(y, sites) for y in x.a[2])
    return 0


DEBUG = False


def opq_tn(cal):
    n = cal.get('name') or ''
    return n if n.startswith('knuffel::ast::TypeName::') else None


def _emit(st, args, site):
    st.ev('emit', args[0])
    return [(st, RET, UNIT)]


class NeedSplitNum(Exception):
    pass


def rebuild(t, f, memo):
    """bottom-up rewriting of elements"""
    if isinstance(t, tuple):
        out = []
        for x in t:
            y = rebuild(x, f, memo)
            if isinstance(y, tuple) and isinstance(x, T):
                out.extend(y)
            else:
                out.append(y)
        return tuple(out)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is None:
        if t.op in ('Alt', 'Rep', 'Item', 'Mon', 'Not', 'And'):
            if t.op == 'Alt':
                n = mk('Alt', t.a[0], tuple(rebuild(x, f, memo) for x in t.a[1]))
            elif t.op in ('Rep', 'Item', 'Not', 'And'):
                n = mk(t.op, t.a[0], rebuild(t.a[1], f, memo), *t.a[2:])
            else:
                n = mk('Mon', t.a[0], t.a[1], rebuild(t.a[2], f, memo))
        else:
            n = t
        r = memo[t] = f(n)
    return r


def spec(e, asg):
    """take the given alternatives"""
    if not asg:
        return e

    def f(t):
        if t.op == 'Alt' and t.a[0] in asg:
            return t.a[1][asg[t.a[0]]]
        return t
    return rebuild(e, f, {})


def narrow(e, site, iv):
    return rebuild(e, lambda t: C(iv_and(t.a[0], iv), site) if t.op == 'C' and t.a[1] == site else t, {})


def resub(e, site, how):
    return rebuild(e, lambda t: mk('L', t.a[0] + how if t.a[0][-1] not in '0+' else t.a[0], *t.a[1:])
                   if t.op == 'L' and t.a[1] == site else t, {})


def retimes(e, i, n):
    return rebuild(e, lambda t: mk('Rep', i, t.a[1], n, n, True) if t.op == 'Rep' and t.a[0] == i else t, {})


def restr(t):
    """renormalise strings after a substitution"""
    m = {}
    for q in walk(t):
        if q.op == 'ofchars' and of_chars(q.a[0]) is not q:
            m[q] = of_chars(q.a[0])
    return subst(t, m) if m else t


def simp(t):
    return t
