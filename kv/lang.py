"""Languages with annotations: parsing expressions whose characters are marked
with the place in the syntax tree they end up in, decided by derivatives."""
from terms import *
import peg
from peg import Undecided, DIRTY, FAIL, EOI, ALL, iv_of_chars
from interp import iv_and, iv_not, iv_or


# ------------------------------------------------------------------ annotation
def _case(f):
    iv = []
    for c in range(0x110000):
        if 0xd800 <= c < 0xe000 or f(chr(c)) == chr(c):
            continue
        if iv and iv[-1][1] == c - 1:
            iv[-1][1] = c
        else:
            iv.append([c, c])
    return tuple(tuple(x) for x in iv)


SPACES = iv_of_chars('\t\n\x0b\x0c\r \x85\xa0\u1680' + ''.join(chr(c) for c in range(0x2000, 0x200b)) + '\u2028\u2029\u202f\u205f\u3000')
# functions of strings with the characters a text must contain for them to change it
CHANGES = {'str::replace': None, 'str::replacen': None,
           'str::trim': SPACES, 'str::trim_start': SPACES, 'str::trim_end': SPACES,
           'str::to_ascii_lowercase': ((65, 90),), 'str::to_ascii_uppercase': ((97, 122),),
           'str::to_lowercase': _case(str.lower), 'str::to_uppercase': _case(str.upper)}


class NeedPhi(Exception):
    def __init__(self, i):
        self.i = i


def phis(t, memo={}):
    """alternatives an output depends on"""
    r = memo.get(t)
    if r is None:
        r = frozenset([t.a[0]]) if t.op == 'phi' else frozenset()
        for x in t.a:
            r |= phis_(x)
        memo[t] = r
    return r


def phis_(x):
    if isinstance(x, T):
        return phis(x)
    r = frozenset()
    if isinstance(x, (tuple, frozenset)):
        for y in x:
            r |= phis_(y)
    return r


def history(t):
    return any(x.op in ('acc', 'compr', 'past') for x in walk(t)) and t.op in ('len', 'app')


def istext(lab):
    return lab.endswith('$') or lab.endswith('$!order')


class Annot:
    """gives every character, span end and recursive use of a grammar its role"""

    def __init__(self, conv):
        self.c = conv
        self.p = conv.p
        self.nsplit = 0
        self.pmemo = {}
        self.amemo = {}

    def top(self, E, out, label):
        self.pos = {}
        self.amemo = {}
        self.order(E)
        return self.ann(E, self.leaves(label, out))

    def order(self, E, path=()):
        """places of every character; paths alternate sequence index and branch"""
        for n, x in enumerate(E):
            if x.op in ('C', 'L'):
                self.pos.setdefault(x.a[1], []).append(path + (n,))
            elif x.op == 'Alt':
                for m, y in enumerate(x.a[1]):
                    self.order(y, path + (n, m))
            elif x.op in ('Rep', 'Item'):
                self.order(x.a[1], path + (n, 0))
            elif x.op == 'Mon':
                self.order(x.a[2], path + (n, 0))

    def inorder(self, s1, s2):
        """False if s1 only ever comes after s2"""
        late = False
        for p in self.pos.get(s1, ()):
            for q in self.pos.get(s2, ()):
                for d, (i, j) in enumerate(zip(p, q)):
                    if i != j:
                        if d % 2 == 0:
                            if i < j:
                                return True
                            late = True
                        break
        return not late

    # ---- outputs
    def fnames(self, t):
        d = self.p.adts.get(t.a[0])
        if not d:
            return [str(i) for i in range(len(t.a[3]))], False
        v = d['v'][t.a[1]]
        return [f['n'] for f in v['f']], d['kind'] == 'struct'

    def leaves(self, lab, t):
        o = t.op
        if o == 'adt':
            n = t.a[0]
            if n.endswith('span::Spanned'):
                f = dict(zip(self.fnames(t)[0], t.a[3]))
                if f['span'].op != 'span':
                    raise Undecided('span ' + show(f['span'])[:80])
                return [(lab, mk('use', f['span'].a[0], f['value']))] + self.leaves(lab, f['value'])
            if n == OPTION:
                return self.leaves(lab, t.a[3][0]) if t.a[3] else []
            fs, struct = self.fnames(t)
            r = []
            for f, x in zip(fs, t.a[3]):
                r += self.leaves(lab + '.' + f if not f.isdigit() else lab, x)
            return r
        if o == 'tup':
            r = []
            for i, x in enumerate(t.a):
                r += self.leaves('%s.%d' % (lab, i), x)
            return r
        if o == 'app' and t.a[0].endswith('from_string'):
            return self.leaves(lab, t.a[1][0])
        if o == 'app' and t.a[0] in CHANGES:
            how = self.changes(t)
            return self.leaves(lab + how, t.a[1][0])
        if o == 'map':
            return self.leaves(lab, t.a[0])
        if o == 'ifnew':
            return self.leaves(lab + '!unless seen before', t.a[0])
        if o == 'ofchars':
            return self.text(lab + '$', t.a[0])
        if o == 'seq':
            r = []
            for p in t.a:
                r += self.leaves(lab + '[]', p.a[0]) if p.op == 'one' else self.leaves(lab, p.a[0])
            return r
        if o in ('plist', 'compr', 'phi', 'sub', 'span', 'chr', 'recovered'):
            return [(lab, t)]
        if o in ('str', 'k'):
            return []
        raise Undecided('result ' + show(t)[:120])

    def text(self, lab, q):
        r = []
        sites = []
        for p in parts(q):
            x = p.a[0]
            l = self.tleaf(lab, x)
            for _, y in l:
                if y.op == 'tx':
                    sites += y.a[0]
                elif y.op == 'chr':
                    sites.append(y.a[0])
                elif y.op == 'phi':
                    try:
                        sites += self.c.chars(y)
                    except Undecided:
                        pass
            r += l
        if not all(self.inorder(x, y) for x, y in zip(sites, sites[1:]) if x != y):
            r = [(lab + '!order', y) for _, y in r]
        return r

    def tleaf(self, lab, x):
        if x.op == 'plist':
            try:
                return [(lab, mk('tx', tuple(self.c.chars(x)), ((None, 'copy'),)))]
            except Undecided:
                return [(lab, x)]
        if x.op == 'compr':
            p = peg.plain(x)
            if p is not None:
                return self.tleaf(lab, p)
            L, srcs, cases, full = x.a
            if not full or len(srcs) != 1:
                raise Undecided('text ' + show(x)[:100])
            (src, k0, n), = srcs
            if src.op != 'plist' or k0 != 0:
                raise Undecided('text ' + show(x)[:100])
            cs = []
            for facts, vals in cases:
                facts = dict(facts)
                iv = ALL
                for f, d in facts.items():
                    if f.op != 'cur' or d[0] != 'iv':
                        raise Undecided('text filter ' + show(f)[:100])
                    iv = iv_and(iv, d[1])
                if not vals:
                    cs.append((iv, 'drop'))
                elif len(vals) == 1 and vals[0].op == 'one' and (vals[0].a[0] is src.a[1] or vals[0].a[0].op == 'cur'):
                    cs.append((iv, 'copy'))
                elif len(vals) == 1 and vals[0].op == 'one' and vals[0].a[0].op == 'k':
                    cs.append((iv, '=%d' % vals[0].a[0].a[0]))
                else:
                    raise Undecided('text map ' + show(vals)[:100])
            for i, (iv, how) in enumerate(cs):
                if any(h != how and iv_and(iv, v) for v, h in cs[:i]):
                    raise Undecided('text that depends on earlier characters')
            return [(lab, mk('tx', tuple(self.c.chars(src)), tuple(sorted(cs))))]
        if x.op in ('chr', 'phi', 'k'):
            return [(lab, x)]
        if x.op == 'seq':
            r = []
            for p in x.a:
                r += self.tleaf(lab, p.a[0])
            return r
        h = self.hexval(x)
        if h:
            return [(lab, mk('tx', tuple(self.c.text_sites(h[1])), ((None, '#%d' % h[0]),)))]
        if x.op == 'recovered':
            return [(lab, x)]
        if x.op == 'adt' and x.a[0] == OPTION:
            return self.tleaf(lab, x.a[3][0]) if x.a[3] else []
        raise Undecided('text ' + show(x)[:100])

    def hexval(self, x):
        y = peg.okof(x)
        if y is None or y.op != 'app' or y.a[0] != 'try_from:char':
            return None
        z = peg.okof(y.a[1][0])
        if z is None or z.op != 'app' or not z.a[0].startswith('from_str_radix:u32') or z.a[1][1].op != 'k':
            return None
        return z.a[1][1].a[0], z.a[1][0]

    def changes(self, t):
        """'' if a string function returns the text unchanged for every text it is given"""
        name, args = t.a[0].split('::')[-1], t.a[1]
        al = ()
        for x in walk(args[0]):
            if x.op == 'chr':
                al = iv_or(al, tuple(self.c.sites[x.a[0]]))
            elif x.op == 'k' and isinstance(x.a[0], int):
                al = iv_or(al, ((x.a[0], x.a[0]),))
            elif x.op == 'app' and x.a[0] == 'try_from:char':
                al = ALL
        if name in ('replace', 'replacen'):
            pat = args[1]
            while pat.op in ('vref', 'ref'):
                pat = pat.a[0]
            if pat.op == 'str':
                need = [((ord(c), ord(c)),) for c in pat.a[0]]
            elif pat.op == 'k' and isinstance(pat.a[0], int):
                need = [((pat.a[0], pat.a[0]),)]
            else:
                raise Undecided('result ' + show(t)[:120])
            if len(args) > 2 and args[1] is args[2]:
                return ''
        else:
            need = [CHANGES[t.a[0]]]
        if all(iv_and(al, x) for x in need):
            return '.%s(%s)' % (name, ','.join(show(x).replace('\n', '\\n').replace('\r', '\\r') for x in args[1:]))
        return ''

    def skel(self, t):
        o = t.op
        if o == 'adt':
            if t.a[0].endswith('span::Spanned'):
                return ''
            if t.a[0] == OPTION:
                return self.skel(t.a[3][0]) if t.a[3] else ''
            fs = [self.skel(x) for x in t.a[3]]
            if not any(fs) and self.fnames(t)[1]:
                return ''
            return t.a[0].split('::')[-1] + ('::' + t.a[2] if t.a[2] != t.a[0].split('::')[-1] else '') + ('(' + ','.join(fs) + ')' if fs else '')
        if o == 'phi':
            r = []
            for x in t.a[1]:
                try:
                    r.append(self.skel(x))
                except NeedPhi:
                    raise NeedPhi(t.a[0])
            if len(set(r)) == 1:
                return r[0]
            raise NeedPhi(t.a[0])
        if o == 'ofchars':
            return '$'
        if o in ('plist', 'compr', 'map', 'sub', 'span', 'chr', 'recovered'):
            return ''
        if o == 'seq':
            return '' if not t.a or any(p.op == 'all' for p in t.a) else '[%s]' % ','.join(self.skel(p.a[0]) for p in t.a)
        if o == 'app' and t.a[0] in CHANGES:
            return self.changes(t) + self.skel(t.a[1][0])
        if o == 'app':
            return t.a[0].split(':')[-1] + '(' + ','.join(self.skel(x) for x in t.a[1]) + ')'
        if o == 'str':
            return '"%s"' % t.a[0]
        if o == 'k':
            return show(t)
        if o == 'tup':
            return '(%s)' % ','.join(self.skel(x) for x in t.a)
        raise Undecided('result ' + show(t)[:120])

    # ---- where identities are
    def ids(self, x, memo={}):
        """identities (alternatives, sites, spans, repetitions) in an element"""
        r = memo.get(x)
        if r is None:
            r = set()
            if x.op in ('C', 'L'):
                r.add(x.a[1])
            elif x.op in ('Alt',):
                r.add(x.a[0])
                for y in x.a[1]:
                    for z in y:
                        r |= self.ids(z)
            elif x.op in ('Rep', 'Item'):
                r.add(x.a[0])
                for z in x.a[1]:
                    r |= self.ids(z)
            elif x.op == 'Mon':
                for z in x.a[2]:
                    r |= self.ids(z)
            elif x.op in ('SO', 'SC'):
                r.add(x.a[0])
            r = memo[x] = frozenset(r)
        return r

    def refs(self, t, memo={}):
        """identities an output refers to"""
        r = memo.get(t)
        if r is None:
            s = set()
            if t.op in ('chr', 'span', 'sub', 'plist', 'phi', 'use'):
                s.add(t.a[0])
                if t.op == 'plist' and t.a[0] in self.c.texts:
                    s |= set(self.c.texts[t.a[0]])
            elif t.op == 'tx':
                s |= set(t.a[0])
            for x in t.a:
                s |= self.refs_(x)
            r = memo[t] = frozenset(s)
        return r

    def refs_(self, x):
        if isinstance(x, T):
            return self.refs(x)
        r = frozenset()
        if isinstance(x, (tuple, frozenset)):
            for y in x:
                r |= self.refs_(y)
        return r

    def flat(self, E):
        """elements of a sequence, text conditions opened"""
        for x in E:
            if x.op == 'Mon':
                for y in self.flat(x.a[2]):
                    yield y
            else:
                yield x

    def need(self, E, U):
        fl = list(self.flat(E))
        where = {}
        for n, x in enumerate(fl):
            for i in self.ids(x):
                where.setdefault(i, set()).add(n)
        for lab, t in U:
            if t.op == 'use':
                try:
                    self.skel(t.a[1])
                except NeedPhi as e:
                    a, s = where.get(e.i), where.get(t.a[0])
                    if s is None:
                        continue
                    if a is None:
                        raise Undecided('alternative not found')
                    if a != s or len(a) > 1 or any(fl[n].op == 'SO' for n in s):
                        return e.i
            elif t.op == 'phi':
                a = where.get(t.a[0])
                if a is None:
                    continue
                for o in t.a[1]:
                    for i in self.refs(o):
                        if i in where and where[i] - a:
                            return t.a[0]
        return None

    def choices(self, E, i):
        for x in E:
            if x.op == 'Alt':
                if x.a[0] == i:
                    return len(x.a[1])
                for y in x.a[1]:
                    r = self.choices(y, i)
                    if r:
                        return r
            elif x.op in ('Rep', 'Item', 'Mon'):
                r = self.choices(x.a[2] if x.op == 'Mon' else x.a[1], i)
                if r:
                    return r
        return None

    def pick(self, t, i, n):
        if i not in phis(t):
            return t
        r = self.pmemo.get((t, i, n))
        if r is None:
            r = self.pmemo[t, i, n] = self.pick_(t, i, n)
        return r

    def pick_(self, t, i, n):
        if t.op == 'phi' and t.a[0] == i:
            return t.a[1][n]
        na = [self.picks(x, i, n) for x in t.a]
        if t.op == 'seq':
            return seq(*na)
        if t.op == 'all':
            return all_(na[0])
        if t.op == 'ofchars':
            return of_chars(na[0])
        return mk(t.op, *na)

    def picks(self, x, i, n):
        if isinstance(x, T):
            return self.pick(x, i, n)
        if isinstance(x, tuple):
            return tuple(self.picks(y, i, n) for y in x)
        if isinstance(x, frozenset):
            return frozenset(self.picks(y, i, n) for y in x)
        return x

    # ---- annotation proper
    def ann(self, E, U):
        here = set()
        for x in E:
            here |= self.ids(x)
        U = [u for u in U if u[1].op == 'k' or self.refs(u[1]) & here]
        key = (E, tuple(U))
        r = self.amemo.get(key)
        if r is None:
            r = self.amemo[key] = self.ann_(E, U)
        return r

    def ann_(self, E, U):
        i = self.need(E, U)
        if i is not None:
            self.nsplit += 1
            al = []
            for n in range(self.choices(E, i) or 0):
                al.append(self.ann(peg.spec(E, {i: n}), self.again(U, i, n)))
            if not al:
                raise Undecided('alternative not found')
            return (mk('Alt', 0, tuple(al)),)
        U = list(U)
        consts = [(l, t) for l, t in U if t.op == 'k']
        last = None
        if consts:
            for n, x in enumerate(E):
                if x.op == 'C' or x.op == 'Mon' and any(y.op == 'C' for y in self.flat((x,))):
                    last = n
            if last is None:
                raise Undecided('constant character in ' + ' '.join(show(x)[:150] for x in E))
            U = [u for u in U if u[1].op != 'k']
        r = ()
        for n, x in enumerate(E):
            r += self.elem(x, U, consts if n == last else ())
        return r

    def again(self, U, i, n):
        r = []
        for lab, t in U:
            if t.op == 'phi':
                t2 = self.pick(t, i, n)
                if t2 is t:
                    r.append((lab, t))
                elif istext(lab):
                    r += self.tleaf(lab, t2) if t2.op != 'ofchars' else self.text(lab, t2.a[0])
                else:
                    r += self.leaves(lab, t2)
            elif t.op == 'use':
                r.append((lab, mk('use', t.a[0], self.pick(t.a[1], i, n))))
            else:
                r.append((lab, self.pick(t, i, n)))
        return r

    def elem(self, x, U, consts):
        if x.op == 'C':
            acts = {}
            iv0, s = x.a
            full = [(iv0, frozenset('%s=%d' % (l, t.a[0]) for l, t in consts))]
            for lab, t in U:
                if t.op == 'chr' and t.a[0] == s:
                    full = [(iv, a | {lab}) for iv, a in full]
                elif t.op == 'tx' and s in t.a[0]:
                    nf = []
                    for iv, a in full:
                        for civ, how in t.a[1]:
                            j = iv if civ is None else iv_and(iv, civ)
                            if j:
                                nf.append((j, a if how == 'drop' else a | {lab + ('' if how == 'copy' else how)}))
                    full = nf
            m = {}
            for iv, a in full:
                m[a] = iv_or(m.get(a, ()), iv)
            al = [(mk('C', iv, s, tuple(sorted(a))),) for a, iv in m.items()]
            return al[0] if len(al) == 1 else (mk('Alt', 0, tuple(al)),)
        if x.op == 'L':
            return (mk('L', x.a[0], x.a[1], tuple(sorted(l for l, t in U if t.op == 'sub' and t.a[0] == x.a[1]))),)
        if x.op in ('SO', 'SC'):
            r = []
            for lab, t in U:
                if t.op == 'use' and t.a[0] == x.a[0]:
                    r.append(mk('Ev', ('<' + lab + ' ' + self.skel(t.a[1])) if x.op == 'SO' else '>' + lab))
            return tuple(sorted(set(r), key=lambda e: e.a[0]))
        if x.op == 'Alt':
            al = []
            for n, br in enumerate(x.a[1]):
                al.append(self.ann(br, self.again(U, x.a[0], n)))
            return (mk('Alt', 0, tuple(al)),)
        if x.op == 'Rep':
            return (mk('Rep', 0, self.ann(x.a[1], U), *x.a[2:]),)
        if x.op == 'Item':
            mine, rest = [], []
            for lab, t in U:
                if t.op == 'plist' and t.a[0] == x.a[0]:
                    mine += self.leaves(lab + '[]', t.a[1]) if not istext(lab) else self.tleaf(lab, t.a[1])
                elif t.op == 'compr':
                    if any(s.op in ('plist', 'rev') and self.unrev(s).op == 'plist' and self.unrev(s).a[0] == x.a[0] for s, k0, n in t.a[1]):
                        if not t.a[3] or len(t.a[1]) != 1:
                            raise Undecided('loop ' + show(t)[:100])
                        (src, k0, n), = t.a[1]
                        if k0 != 0:
                            raise Undecided('loop that skips items')
                        cs = t.a[2]
                        if src.op == 'rev':
                            lab += '!reversed'
                        if any(v.op == 'front' for f, vs in cs for v in vs):
                            lab += '!reversed'
                            cs = frozenset((f, sum((v.a if v.op == 'front' else (v,) for v in vs), ())) for f, vs in cs)
                        mine.append((lab, mk('cases', cs)))
                    else:
                        rest.append((lab, t))
                else:
                    rest.append((lab, t))
            return self.item(x.a[1], mine + rest)
        if x.op == 'Mon':
            return (mk('Mon', x.a[0], x.a[1], self.ann(x.a[2], U + list(consts))),)
        return (x,)

    def unrev(self, s):
        while s.op == 'rev':
            s = s.a[0]
        return s

    def item(self, E, U):
        ids = {}
        U = [(l, t) if t.op != 'cases' else self.settle(l, t) for l, t in U]
        for lab, t in U:
            if t.op == 'cases':
                for facts, vals in t.a[0]:
                    for f, d in facts:
                        if f.op == 'cur' and f.a[1].op == 'rev':
                            continue
                        if f.op != 'alt':
                            raise Undecided('condition on an item: ' + show(f)[:100])
                        ids[f.a[1]] = None
        if ids:
            i = min(ids, key=lambda j: (self.depth(E, j), j))
            n = self.choices(E, i)
            if n is None:
                raise Undecided('alternative not found in an item')
            al = []
            for c in range(n):
                U2 = []
                for lab, t in self.again([u for u in U if u[1].op != 'cases'], i, c):
                    U2.append((lab, t))
                for lab, t in U:
                    if t.op == 'cases':
                        cs = set()
                        for facts, vals in t.a[0]:
                            d = [v for f, v in facts if f.op == 'alt' and f.a[1] == i]
                            if d and not (d[0][0] == 'in' and c in d[0][1] or d[0][0] == 'out' and c not in d[0][1]):
                                continue
                            cs.add((frozenset((f, v) for f, v in facts if f.op != 'alt' or f.a[1] != i),
                                    tuple(self.pick(v, i, c) for v in vals)))
                        U2.append((lab, mk('cases', frozenset(cs))))
                al.append(self.item(peg.spec(E, {i: c}), U2))
            return (mk('Alt', 0, tuple(al)),)
        U2 = []
        for lab, t in U:
            if t.op == 'cases':
                if len(t.a[0]) != 1:
                    raise Undecided('%d cases for an item' % len(t.a[0]))
                (facts, vals), = t.a[0]
                for v in vals:
                    v = v.a[0] if v.op == 'one' else v
                    U2 += self.tleaf(lab, v) if istext(lab) else self.leaves(lab + '[]', v)
            else:
                U2.append((lab, t))
        return self.ann(E, U2)

    def settle(self, lab, t):
        """cases that differ only by what the earlier items were"""
        m = {}
        for facts, vals in t.a[0]:
            own = frozenset(f for f in facts if not history(f[0]))
            m.setdefault(own, set()).add(vals)
        if all(len(x) == 1 for x in m.values()):
            return lab, mk('cases', frozenset((f, list(v)[0]) for f, v in m.items()))
        if not any(history(f[0]) for facts, vals in t.a[0] for f in facts):
            return lab, t
        return lab + '!depending on other items', mk('cases', frozenset(
            (f, max(v, key=lambda w: (len(w), repr(w)))) for f, v in m.items()))

    def depth(self, E, i, d=0):
        b = 99
        for x in E:
            if x.op == 'Alt':
                if x.a[0] == i:
                    return d
                for y in x.a[1]:
                    b = min(b, self.depth(y, i, d + 1))
            elif x.op in ('Rep', 'Item'):
                b = min(b, self.depth(x.a[1], i, d + 1))
            elif x.op == 'Mon':
                b = min(b, self.depth(x.a[2], i, d))
        return b
