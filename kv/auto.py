"""Deciding whether two annotated grammars describe the same language.

A state is a boolean function (a reduced ordered decision diagram) over atoms
"the rest of the text is matched by this continuation"; ordered choice, greedy
repetition and lookahead become conjunctions and negations, and a letter takes a
state to its derivative.  Two grammars agree iff no reachable pair of states
differs at the end of the text."""
import sys
from terms import *
from peg import Undecided, ALL
from interp import iv_and, iv_not, iv_or

sys.setrecursionlimit(20000)


# ------------------------------------------------------------ decision diagrams
class BDD:
    def __init__(self):
        self.tab = {}
        self.nodes = [None, None]
        self.memo = {}

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        key = (v, lo, hi)
        n = self.tab.get(key)
        if n is None:
            n = self.tab[key] = len(self.nodes)
            self.nodes.append(key)
        return n

    def var(self, v):
        return self.node(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        key = (f, g, h)
        r = self.memo.get(key)
        if r is not None:
            return r
        v = self.nodes[f][0]
        if g > 1:
            v = min(v, self.nodes[g][0])
        if h > 1:
            v = min(v, self.nodes[h][0])
        a = [(self.nodes[x][1], self.nodes[x][2]) if x > 1 and self.nodes[x][0] == v else (x, x) for x in (f, g, h)]
        r = self.node(v, self.ite(a[0][0], a[1][0], a[2][0]), self.ite(a[0][1], a[1][1], a[2][1]))
        self.memo[key] = r
        return r

    def neg(self, f):
        return self.ite(f, 0, 1)

    def conj(self, f, g):
        return self.ite(f, g, 0)

    def disj(self, f, g):
        return self.ite(f, 1, g)

    def support(self, f):
        seen, st, vs = set(), [f], set()
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            vs.add(v)
            st += [lo, hi]
        return vs


# ------------------------------------------------------------ text conditions
class Dfa:
    """character automaton of a text condition"""

    def __init__(self, d):
        self.neg = False
        while d.a[0] == 'not':
            self.neg = not self.neg
            d = d.a[1]
        self.kind = d.a[0]
        self.d = d
        self.memo = {}

    def start(self):
        return {'len': 0, 'blen': 0, 'cut': 0, 'at': 0, 'auto': 0, 'any': 0, 'word': '', 'num': 0}[self.kind] if self.kind != 'num' else -1

    def step(self, s, c):
        r = self.memo.get((s, c))
        if r is None:
            r = self.memo[s, c] = (self.step_(s, c),)
        return r[0]

    def step_(self, s, c):
        if self.kind in ('len', 'blen'):
            n = 1 if self.kind == 'len' or c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
            return min(s + n, max(b for a, b in self.d.a[1]) + 1)
        if self.kind == 'at':       # is the character at a position of a class
            if isinstance(s, str):
                return s
            return s + 1 if s < self.d.a[1] else 'y' if iv_and(((c, c),), self.d.a[2]) else 'n'
        if self.kind == 'cut':      # is there no character that ends at byte n
            n = 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
            return s if s >= self.d.a[1] else min(s + n, self.d.a[1] + 1)
        if self.kind == 'auto':
            for a, iv, b in self.d.a[1]:
                if a == s and iv_and(((c, c),), iv):
                    return b
            return None
        if self.kind == 'any':
            return 1 if s or iv_and(((c, c),), self.d.a[1]) else 0
        if self.kind == 'word':
            if s is None:
                return None
            s = s + chr(c)
            return s if any(w.startswith(s) for w in self.d.a[1]) else None
        return self.nstep(s, c)

    def nstep(self, s, c):
        radix, iv = self.d.a[1], self.d.a[2]
        top = iv[-1][1]
        try:
            v = int(chr(c), 36)
        except ValueError:
            v = 99
        if v >= radix:
            return 'bad'
        if s == 'bad' or s == 'big':
            return s
        s = (0 if s == -1 else self.rep(s)) * radix + v
        return self.quot(s) if s <= top else 'big'

    def rep(self, s):
        return s[1] if isinstance(s, tuple) else s

    def quot(self, v):
        """class of prefixes with the same continuations"""
        radix, iv = self.d.a[1], self.d.a[2]
        top = iv[-1][1]
        if v == 0:
            return 0
        sig = []
        lo, hi = v, v
        while lo <= top:
            j = iv_and(((lo, hi),), iv)
            if not j:
                sig.append('o')
            elif j == ((lo, hi),):
                sig.append('i')
            else:
                return v
            lo, hi = lo * radix, hi * radix + radix - 1
        key = ''.join(sig)
        if not hasattr(self.d, 'x'):
            pass
        reps = _reps.setdefault(self.d, {})
        return ('q', reps.setdefault(key, v), key)

    def ok(self, s):
        if self.kind in ('len', 'blen'):
            r = any(a <= s <= b for a, b in self.d.a[1]) or s > 300 and any(b > 300 for a, b in self.d.a[1])
        elif self.kind == 'at':
            r = s == 'y'
        elif self.kind == 'cut':
            r = s != self.d.a[1] and (s > self.d.a[1] or not self.d.a[2])
        elif self.kind == 'auto':
            r = s in self.d.a[2]
        elif self.kind == 'any':
            r = s == 1
        elif self.kind == 'word':
            r = s in self.d.a[1]
        else:
            r = not isinstance(s, str) and s != -1 and bool(iv_and(((self.rep(s),) * 2,), self.d.a[2]))
        return r != self.neg

    def classes(self):
        """character sets the condition distinguishes"""
        if self.kind == 'any':
            return [self.d.a[1]]
        if self.kind == 'at':
            return [self.d.a[2]]
        if self.kind == 'auto':
            return [iv for a, iv, b in self.d.a[1]]
        if self.kind in ('blen', 'cut'):
            return [((0, 0x7f),), ((0x80, 0x7ff),), ((0x800, 0xffff),)]
        if self.kind == 'word':
            return [((ord(c), ord(c)),) for c in set(''.join(self.d.a[1]))]
        if self.kind == 'num':
            return [((ord(c), ord(c)), (ord(c.upper()), ord(c.upper()))) if c.isalpha() else ((ord(c), ord(c)),)
                    for c in '0123456789abcdefghijklmnopqrstuvwxyz'[:self.d.a[1]]]
        return []


_reps = {}
_dfas = {}


def dfa(d):
    r = _dfas.get(d)
    if r is None:
        r = _dfas[d] = Dfa(d)
    return r


NIL = mk('nil')


def canon(E, main, env=(), memo=None):
    """elements without identities: characters only know which enclosing text
    conditions they feed; lookahead forgets annotations"""
    if memo is None:
        memo = {}
    key = (E, main, env)
    r = memo.get(key)
    if r is not None:
        return r
    out = []
    for x in E:
        o = x.op
        if o == 'C':
            if not x.a[0]:
                out.append(FAILX)
                continue
            tags = tuple(n for n, s in enumerate(env) if x.a[1] in s)
            out.append(mk('C', x.a[0], tags, x.a[2] if main and len(x.a) > 2 else ()))
        elif o == 'L':
            out.append(mk('L', x.a[0], x.a[2] if main and len(x.a) > 2 else ()))
        elif o == 'Ev':
            if main:
                out.append(x)
        elif o == 'Item':
            out += canon(x.a[1], main, env, memo)
        elif o in ('SO', 'SC'):
            pass
        elif o == 'Alt':
            al = []
            for y in x.a[1]:
                y = canon(y, main, env, memo)
                if FAILX in y or (main and any(z.op == 'DIRTY' for z in y)):
                    continue
                if y not in al:
                    al.append(y)
            if not al:
                out.append(FAILX)
            elif len(al) == 1:
                out += al[0]
            else:
                out.append(mk('Alt', tuple(al)))
        elif o == 'Rep':
            b = canon(x.a[1], main, env, memo)
            if FAILX in b:
                if x.a[2]:
                    out.append(FAILX)
                continue
            raw = canon(x.a[1], False, env, memo) if x.a[4] else None
            out.append(mk('Rep', b, x.a[2], x.a[3], raw))
        elif o in ('Not', 'And'):
            b = canon(x.a[1], False, env, memo)
            if FAILX in b:
                if o == 'And':
                    out.append(FAILX)
                continue
            out.append(mk(o, x.a[0], b))
        elif o == 'Mon':
            out.append(mk('Mon', x.a[0], canon(x.a[2], main, (frozenset(x.a[1]),) + env, memo)))
        elif o == 'FAIL':
            out.append(FAILX)
        else:
            out.append(x)
    r = memo[key] = tuple(out)
    return r


FAILX = mk('FAIL')


def push(E, rest):
    for x in reversed(E):
        rest = mk('K', x, rest)
    return rest


class Machine:
    """derivatives of annotated parsing expressions.  bodies: nonterminal ->
    set of characters its texts begin with (None: any)"""

    def __init__(self, firsts):
        self.b = BDD()
        self.firsts = firsts
        self.atoms = {}         # atom -> variable
        self.byvar = []
        self.dmemo = {}
        self.hmemo = {}
        self.amemo = {}
        self.POISON = self.var(('poison',))
        self.funny = set()

    def var(self, atom):
        v = self.atoms.get(atom)
        if v is None:
            v = self.atoms[atom] = len(self.byvar)
            self.byvar.append(atom)
        return self.b.var(v)

    def start(self, E):
        return self.var(('m', (), push(canon(E, True), NIL), ()))

    def atom(self, mode, pend, k, stack):
        if k is NIL and mode != 'm':
            return 1
        return self.var((mode, pend, k, stack))

    # ---- derivative of a state
    def d(self, f, letter):
        memo = self.amemo.setdefault(letter, {})

        def go(x):
            if x < 2:
                return x
            r = memo.get(x)
            if r is None:
                v, lo, hi = self.b.nodes[x]
                a = self.byvar[v]
                if a[0] == 'poison':
                    dv = self.POISON
                else:
                    dv = self.der(*a, letter)
                r = memo[x] = self.b.ite(dv, go(hi), go(lo))
            return r
        return go(f)

    def der(self, mode, pend, k, stack, letter):
        """letter: ('c', char, bits, ann) | ('L', name, ann) | ('E', ann)"""
        if mode != 'm':
            letter = letter[:-1] + (None,)
        key = (mode, pend, k, stack, letter)
        r = self.dmemo.get(key)
        if r is None:
            self.dmemo[key] = 0     # left recursion would be an empty loop
            r = self.dmemo[key] = self.der_(mode, pend, k, stack, letter)
        return r

    def der_(self, mode, pend, k, stack, letter):
        b = self.b
        kind = letter[0]
        if k is NIL:
            if mode != 'm':
                return 1
            return 1 if kind == 'E' and pend == letter[1][0] else 0
        x, rest = k.a
        o = x.op
        if o == 'C':
            if kind == 'E':
                return 0
            iv, tags, acts = x.a
            if kind == 'L':
                if mode == 'm':
                    return 0
                f = self.firsts.get(letter[1])
                if f is not None:
                    j = iv_and(iv, f)
                    if not j:
                        return 0
                    if j == tuple(f) and rest is NIL:
                        return 1
                return self.POISON
            c = letter[1]
            if not iv_and(iv, ((c, c),)):
                return 0
            if mode == 'm' and (pend, acts) != letter[3]:
                return 0
            if tags:
                stack = tuple((d, dfa(d).step(s, c)) if n in tags else (d, s) for n, (d, s) in enumerate(stack))
            return self.atom(mode, (), rest, stack)
        if o == 'L':
            if kind == 'L':
                if x.a[0] != letter[1]:
                    return 0 if mode == 'm' else self.POISON
                if mode == 'm' and (pend, x.a[1]) != letter[2]:
                    return 0
                return self.atom(mode, (), rest, stack)
            if mode == 'm':
                return 0
            if kind == 'E':
                return 0 if self.firsts.get(x.a[0]) is not None else self.POISON
            f = self.firsts.get(x.a[0])
            if f is None:
                return self.POISON
            if not iv_and(f, ((letter[1], letter[1]),)):
                return 0
            if (x.a[0], True) in letter[2]:
                return 1 if rest is NIL else self.POISON
            return 0
        if o == 'EOI':
            if kind != 'E':
                return 0
            return self.der(mode, pend, rest, stack, letter)
        if o == 'DIRTY':
            return self.der(mode, pend, rest, stack, letter) if mode == 'any' else 0
        if o == 'FAIL':
            return 0
        if o == 'Ev':
            return self.der(mode, tuple(sorted(pend + x.a)) if mode == 'm' else (), rest, stack, letter)
        if o == 'Alt':
            r = 0
            for y in x.a[0]:
                r = b.disj(r, self.der(mode, pend, push(y, rest), stack, letter))
                if r == 1:
                    break
            return r
        if o == 'Rep':
            body, lo, hi, raw = x.a
            if hi == 0:
                return self.der(mode, pend, rest, stack, letter)
            n = mk('Rep', body, max(lo - 1, 0), None if hi is None else hi - 1, raw)
            r = self.der(mode, pend, push(body, mk('K', n, rest)), stack, letter)
            if lo == 0:
                q = self.der(mode, pend, rest, stack, letter)
                if q and raw is not None:
                    q = b.conj(q, b.neg(self.der('any', (), push(raw, NIL), stack, letter)))
                r = b.disj(r, q)
            return r
        if o in ('Not', 'And'):
            q = self.der(mode, pend, rest, stack, letter)
            if q == 0:
                return 0
            g = self.der(x.a[0], (), push(x.a[1], NIL), stack, letter)
            return b.conj(q, b.neg(g) if o == 'Not' else g)
        if o == 'Mon':
            d = x.a[0]
            return self.der(mode, pend, push(x.a[1], mk('K', MONEND, rest)), ((d, dfa(d).start()),) + stack, letter)
        if o == 'MonEnd':
            d, s = stack[0]
            if not dfa(d).ok(s):
                return 0
            return self.der(mode, pend, rest, stack[1:], letter)
        raise Undecided('element ' + o)

    # ---- what a state can read next
    def heads(self, mode, pend, k, stack, seen):
        """[(kind, set or name, annotation, dfas)] reachable heads"""
        key = (mode, pend, k)
        r = self.hmemo.get(key)
        if r is not None:
            return r
        r = set()
        work = [(mode, pend, k)]
        done = set()
        while work:
            it = work.pop()
            if it in done:
                continue
            done.add(it)
            m, p, q = it
            if q is NIL:
                if m == 'm':
                    r.add(('E', m, (), (p, ())))
                continue
            x, rest = q.a
            o = x.op
            if o == 'C':
                r.add(('c', m, x.a[0], (p, x.a[2])))
                if x.a[1]:
                    r.add(('tags', m, (), ()))
            elif o == 'L':
                r.add(('L', m, x.a[0], (p, x.a[1])))
            elif o == 'Ev':
                work.append((m, tuple(sorted(p + x.a)) if m == 'm' else (), rest))
            elif o == 'Alt':
                for y in x.a[0]:
                    work.append((m, p, push(y, rest)))
            elif o == 'Rep':
                body, lo, hi, raw = x.a
                if hi != 0:
                    n = mk('Rep', body, max(lo - 1, 0), None if hi is None else hi - 1, raw)
                    work.append((m, p, push(body, mk('K', n, rest))))
                    if raw is not None and m == 'm':
                        work.append(('any', (), push(raw, NIL)))
                if lo == 0:
                    work.append((m, p, rest))
            elif o in ('Not', 'And'):
                work.append((m, p, rest))
                work.append((x.a[0], (), push(x.a[1], NIL)))
            elif o == 'Mon':
                work.append((m, p, push(x.a[1], mk('K', MONEND, rest))))
            elif o == 'FAIL':
                pass
            else:
                work.append((m, p, rest))
        r = self.hmemo[key] = frozenset(r)
        return r

    def letters(self, fs):
        """letters that matter in a pair of states"""
        hs = set()
        dfas = set()
        for f in fs:
            for v in self.b.support(f):
                a = self.byvar[v]
                if a[0] == 'poison':
                    continue
                hs |= self.heads(a[0], a[1], a[2], a[3], None)
                dfas |= {d for d, s in a[3]}
                key = a[2]
        ivs = {h[2] for h in hs if h[0] == 'c'}
        if any(h[0] == 'tags' for h in hs):
            for d in self.alldfas:
                ivs |= set(dfa(d).classes())
        ls = [h for h in hs if h[0] == 'L']
        for h in ls:
            f = self.firsts.get(h[2])
            if f is not None:
                ivs.add(tuple(f))
        reps = self.reps(frozenset(ivs))
        out = []
        mains = [h for h in hs if h[1] == 'm']
        for h in sorted(mains, key=repr):
            if h[0] == 'c':
                for c in reps:
                    if iv_and(h[2], ((c, c),)):
                        bits = [()]
                        for l in {l[2] for l in ls}:
                            f = self.firsts.get(l)
                            if f is not None and iv_and(f, ((c, c),)):
                                bits = [x + ((l, y),) for x in bits for y in (False, True)]
                        for y in bits:
                            out.append(('c', c, y, h[3]))
            elif h[0] == 'L':
                out.append(('L', h[2], h[3]))
            elif h[0] == 'E':
                out.append(('E', h[3]))
        return list(dict.fromkeys(out))

    def reps(self, ivs, memo={}):
        r = memo.get(ivs)
        if r is None:
            cuts = {0}
            for iv in ivs:
                for a, z in iv:
                    cuts.add(a)
                    cuts.add(z + 1)
            cuts = sorted(cuts)
            sig = {}
            for n, a in enumerate(cuts):
                z = (cuts[n + 1] if n + 1 < len(cuts) else 0x110000) - 1
                j = iv_and(((a, z),), ALL)
                if not j:
                    continue
                key = tuple(bool(iv_and(iv, ((j[0][0],) * 2,))) for iv in sorted(ivs))
                best = pretty(j)
                if key not in sig or rank(best) < rank(sig[key]):
                    sig[key] = best
            r = memo[ivs] = sorted(sig.values())
        return r


def rank(c):
    if 97 <= c <= 122:
        return (0, c)
    if 48 <= c <= 57:
        return (1, c)
    if 32 < c < 127:
        return (2, c)
    return (3, c)


def pretty(j):
    cands = [c for a, z in j for c in (a, *[x for x in range(32, 127) if a <= x <= z])]
    return min(cands, key=rank)


MONEND = mk('MonEnd')


def all_dfas(E, acc=None):
    acc = set() if acc is None else acc
    for t in E:
        for x in walk(t):
            if x.op == 'Mon':
                acc.add(x.a[0])
    return acc


class Diff:
    def __init__(self, kind, word, letter, a, b):
        self.kind, self.word, self.letter, self.a, self.b = kind, word, letter, a, b


def compare(A, B, firsts, limit=400000, maxdiff=40, log=None):
    """(differences, number of pairs, machine); a difference is a word up to the
    letter after which one side is dead while the other can still accept"""
    m = Machine(firsts)
    m.alldfas = frozenset(all_dfas(A) | all_dfas(B))
    s = (m.start(A), m.start(B))
    seen = {s: None}
    q = [s]
    single = []
    n = 0
    diffs = []
    while n < len(q):
        f, g = q[n]
        n += 1
        if log and n % log == 0:
            print(n, len(q), len(m.byvar), len(m.b.nodes), flush=True)
        if n > limit:
            raise Undecided('more than %d states' % limit)
        for l in m.letters((f, g)):
            f2, g2 = m.d(f, l), m.d(g, l)
            if f2 == g2 and f2 in (0, 1):
                continue
            if f2 == 0 or g2 == 0 or l[0] == 'E':
                single.append(((f, g), l, f2, g2))
                continue
            t = (f2, g2)
            if t not in seen:
                seen[t] = ((f, g), l)
                q.append(t)
    # a side is dead: does the other still accept something?
    live = {}
    for st, l, f2, g2 in single:
        if len(diffs) >= maxdiff:
            break
        side, h = ('A', f2) if g2 == 0 else ('B', g2)
        w = accepts(m, h, live)
        if w is not None:
            diffs.append(Diff(side, path(seen, st) + [l] + w, len(path(seen, st)), f2, g2))
    return diffs, n, m


def path(seen, st):
    w = []
    while seen[st] is not None:
        st, l = seen[st]
        w.append(l)
    return w[::-1]


def accepts(m, h, live, limit=20000):
    """a word the state accepts, or None"""
    if h == 1:
        return []
    if h in live:
        return live[h]
    seen = {h: None}
    q = [h]
    n = 0
    while n < len(q):
        f = q[n]
        n += 1
        if n > limit:
            raise Undecided('liveness')
        for l in m.letters((f,)):
            g = m.d(f, l)
            if g == 0:
                continue
            if l[0] == 'E' and g == 1 or g in live and live[g] is not None:
                w = [l] + (live[g] if l[0] != 'E' else [])
                x = f
                while seen[x] is not None:
                    x, l2 = seen[x]
                    w.insert(0, l2)
                live[h] = w
                return w
            if g not in seen and l[0] != 'E' and live.get(g, 1) is not None:
                seen[g] = (f, l)
                q.append(g)
    for x in seen:
        live[x] = None
    return None


def spell(w):
    s = ''
    for l in w:
        if l[0] == 'c':
            s += chr(l[1])
        elif l[0] == 'L':
            s += '\u2039%s\u203a' % l[1]
    return s
