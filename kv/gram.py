"""Comparison of the library's grammar, as the compiler sees it, with KDL: the
differences are described by the properties they violate."""
import os
import re
import signal
from terms import *
from spec import sym, Missing, short
from interp import Interp, Unsupported, new_state, iv_and
import auto
import kdl
import lang
import lib
import peg
from peg import Undecided, Defect, ALL, EOI

FIRSTS = {'M': ((47, 47),), 'N': None, 'N0': None, 'N+': None}
GRAMMAR = {'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09'}


class Find:
    def __init__(self, props, text, what, site):
        self.props, self.text, self.what, self.site = set(props), text, what, site


class Grammar:
    def __init__(self, ck, tier='quick'):
        self.ck = ck
        self.p = lib.library()
        peg.MAXHASH = kdl.MAXHASH = 3 if tier == 'quick' else 8
        self.finds = []
        self.stats = {}
        self.conv = peg.Conv(self.p)
        self.annot = lang.Annot(self.conv)

    def parser(self, fn, args=()):
        it = Interp(self.p)
        st = new_state()
        outs = it.call_fn(fn, list(args), st, 'root')
        self.conv.funcs |= it.funcs_seen
        return outs

    def root(self):
        """the parser that the public entry point runs"""
        for n in ('knuffel::wrappers::parse_ast', 'knuffel::parse_ast'):
            fns = [f for f in self.p.funcs.values() if f.name.split('::<')[0] == n]
            if fns:
                break
        else:
            raise Missing('parse_ast')
        fn = fns[0]
        args = [sym(x) for x in ('file_name', 'text')]
        it = Interp(self.p)
        st = new_state()
        outs = it.call_fn(fn, [mk('vref', a) for a in args], st, 'root')
        self.conv.funcs |= it.funcs_seen
        self.entry = (fn, outs)
        ps = {x for s, kd, v in outs for t in list(s.facts) + [v] for x in walk(t) if x.op == 'app' and x.a[0] == 'parse'}
        self.entry_ok(ps, outs, fn)
        ps = {x.a[1][0] for x in ps}
        if len(ps) != 1:
            raise Undecided('the parser run by parse_ast')
        return ps.pop(), fn

    def entry_ok(self, runs, outs, fn):
        """the whole text is parsed and the tree is handed out as parsed"""
        text = sym('text')
        for x in runs:
            st = x.a[1][1]
            while st.op in ('vref', 'freeze'):
                st = st.a[0]
            if st.op == 'app' and st.a[0].split('<')[0].endswith('::stream') and len(st.a[1]) == 1:
                a = st.a[1][0]
                while a.op == 'vref':
                    a = a.a[0]
                if a is not text:
                    self.finds.append(Find({'C03', 'C07', 'C09'}, '', 'the parser is given %s instead of the text' % show(a)[:200], fn.name))
            else:
                raise Undecided('what parse_ast parses')
        for s, kd, v in outs:
            if kd != 'ret':
                self.finds.append(Find({'C03'}, '', 'parse_ast panics', fn.name))
            if v.op == 'adt' and v.a[2] == 'Err' or v in runs:
                continue
            w = v.a[3][0] if v.op == 'adt' and v.a[0] == RESULT and v.a[2] == 'Ok' else None
            if w is None:
                raise Undecided('what parse_ast returns')
            if peg.okof(w) not in runs:
                self.finds.append(Find({'C07'}, '', 'parse_ast returns %s instead of the parsed tree' % show(w)[:200], fn.name))

    def rename(self, E):
        def name(h):
            return self.names.get(h, h) if h[-1] not in '0+' else self.names.get(h[:-1], h[:-1]) + h[-1]
        return peg.rebuild(E, lambda t: mk('L', name(t.a[0]), *t.a[1:]) if t.op == 'L' else t, {})

    def sized(self, E):
        """tells empty child blocks from others"""
        return peg.rebuild(E, lambda t: mk('Alt', 0, ((mk('L', 'N0', *t.a[1:]),), (mk('L', 'N+', *t.a[1:]),)))
                           if t.op == 'L' and t.a[0] == 'N' else t, {})

    def run(self):
        P, fn = self.root()
        e, o = self.conv.conv(P)
        self.names = {}
        self.inlined = {}
        for cl, h in list(self.conv.handles.items()):
            b = self.inlined[h] = self.conv.inline(h)
            f = self.conv.first(b[0])
            self.names[h] = 'M' if not f[2] and not f[1] and tuple(f[0]) == FIRSTS['M'] else 'N'
            self.site_of = {}
        doc = self.rename(self.annot.top(e, o, 'X'))
        self.compare('document', doc, lambda: kdl.document('X.nodes'))
        rest = (mk('Rep', 0, (mk('C', ALL, 0, ()),), 0, None, False),)
        stop = kdl.c('}') + rest + (EOI,)
        for h, (b, out) in self.inlined.items():
            if self.names[h] == 'N':
                body = self.rename(self.annot.top(b, out, 'X'))
                self.compare('contents of a child block', body + stop, lambda: kdl.nodes('X') + stop)
            else:
                body = self.rename(self.annot.top(b, mk('tup'), 'X'))
                self.compare('block comment', body + rest + (EOI,), lambda: kdl.block_comment(kdl.M()) + rest + (EOI,))
        if 'N' not in self.names.values():
            raise Undecided('child blocks are not parsed recursively')

    # ------------------------------------------------------------------
    def compare(self, what, A, ref):
        B = ref()
        if any(x.op == 'L' and x.a[0] in ('N0', 'N+') for t in A for x in walk(t)):
            A = self.sized(A)
            ref0 = ref
            ref = lambda: self.sized(ref0())
            B = ref()
        diffs, n, m = auto.compare(A, B, FIRSTS)
        self.stats[what] = {'pairs_of_states': n, 'atoms': len(m.byvar), 'derivatives': len(m.dmemo), 'differences': len(diffs)}
        if m.b.nodes and self.poisoned(m, diffs):
            raise Undecided('lookahead across a nested element')
        if not self.alive(m, A, B):
            raise Undecided('the grammar accepts nothing')
        if diffs:
            T = kdl.tagged(ref)
            for d in diffs:
                self.describe(what, m, A, B, T, d)

    def alive(self, m, A, B):
        return auto.accepts(m, m.start(A), {}) is not None and auto.accepts(m, m.start(B), {}) is not None

    def poisoned(self, m, diffs):
        pv = m.b.nodes[m.POISON][0]
        return any(pv in m.b.support(x) for d in diffs for x in (d.a, d.b) if x > 1)

    # ---- texts
    def anns(self, m, f, l):
        """annotations with which a state can read a letter"""
        out = set()
        for v in m.b.support(f):
            a = m.byvar[v]
            if a[0] != 'm':
                continue
            for h in m.heads(*a, None):
                if h[1] == 'm' and h[0] == l[0] and (l[0] != 'c' or iv_and(h[2], ((l[1], l[1]),))) and (l[0] != 'L' or h[2] == l[1]):
                    out.add(h[3])
        return out

    def step(self, m, f, l):
        r = {}
        for an in self.anns(m, f, l):
            g = m.d(f, l[:-1] + (an,))
            if g:
                r[an] = g
        return r

    def reads(self, m, start, word):
        """(annotated letters if the text is accepted, letters read before all states died, last states)"""
        layers = [{start: None}]
        for n, l in enumerate(word):
            nxt = {}
            for f in layers[-1]:
                for an, g in self.step(m, f, l).items():
                    nxt.setdefault(g, (f, an))
            if not nxt:
                return None, n, layers
            layers.append(nxt)
        ok = [f for f in layers[-1] if f == 1] if word and word[-1][0] == 'E' else list(layers[-1])
        if not ok:
            return None, len(word) - 1, layers[:-1]
        w = []
        f = ok[0]
        for n in range(len(word), 0, -1):
            f, an = layers[n][f]
            w.insert(0, an)
        return w, len(word), layers

    def states(self, m, start, word, anns, upto):
        f = start
        for l, an in list(zip(word, anns))[:upto]:
            f = m.d(f, l[:-1] + (an,))
        return f

    def tags(self, m, T, word, upto):
        """contexts the letters of a text are in, and those that could follow"""
        fs = {m.start(T): ()}
        tg = []
        for l in word[:upto]:
            nx = {}
            for f, hist in fs.items():
                for an, g in self.step(m, f, l).items():
                    t = frozenset(a[1:] for a in an[1] if a.startswith('~'))
                    nx.setdefault(g, hist + (t,))
            if not nx:
                break
            fs = nx
        tg = [frozenset().union(*[h[i] for h in fs.values()]) for i in range(min(len(h) for h in fs.values()))]
        nxt = set()
        for f in fs:
            for v in m.b.support(f):
                a = m.byvar[v]
                if a[0] == 'm':
                    for h in m.heads(*a, None):
                        if h[1] == 'm' and h[0] == 'c':
                            nxt |= {x[1:] for x in h[3][1] if x.startswith('~')}
        return tg, nxt

    def text(self, word):
        s = ''
        for l in word:
            s += chr(l[1]) if l[0] == 'c' else {'M': '/**/', 'N': '', 'N+': 'a;'}.get(l[1], '') if l[0] == 'L' else ''
        return s

    # ---- description
    def describe(self, what, m, A, B, T, d):
        a, b = m.start(A), m.start(B)
        word = d.word
        mine, other = (a, b) if d.kind == 'A' else (b, a)
        anns = [l[-1] for l in word]
        oth, n, layers = self.reads(m, other, word)
        text = self.text(word)
        props, why = set(), ''
        ia, ra = (anns, oth) if d.kind == 'A' else (oth, anns)
        if oth is None:
            # acceptance differs
            props.add('C03')
            j = min(n, len(word) - 1)
            tg, nxt = self.tags(m, T, word, j + 1 if d.kind == 'B' else j)
            prev = tg[j - 1] if 0 < j <= len(tg) else frozenset()
            cur = tg[j] if j < len(tg) else frozenset()
            x = word[j]
            ctx = (prev | cur) if d.kind == 'B' else prev
            if 'str' in ctx and (d.kind == 'B' or 'str' in nxt):
                props.add('C04')
            if 'num' in ctx or (d.kind == 'A' and any('Literal::Int' in s or 'Literal::Dec' in s for s in self.open(anns, j))):
                props.add('C05')
            if ctx & {'com', 'esc', 'sd', 'drop'} or text[j:j + 2] in ('//', '/*', '/-') or text[j:j + 1] == '\\' and 'str' not in ctx:
                props.add('C06')
            if what == 'block comment':
                props.add('C06')
            if x[0] == 'c':
                fa = {self.states(m, a, word, ia, j)} if ia else set(layers[j]) if j < len(layers) else set()
                fb = {self.states(m, b, word, ra, j)} if ra else set(layers[j]) if j < len(layers) else set()
                if self.classes(m, fa, fb, x):
                    props.add('C02')
            if self.crlf(word, j):
                props.add('C02')
            where = 'at %s' % (repr(text[j:j + 1]) if x[0] == 'c' else 'a nested element' if x[0] == 'L' else 'the end')
            why = ('the library accepts %r, which is not KDL' if d.kind == 'A' else 'the library rejects %r, which is KDL') % text
            why += ' (differs %s, in %s)' % (where, ', '.join(sorted(ctx)) or 'plain structure')
        else:
            if ia is None or ra is None:
                return
            tg, nxt = self.tags(m, T, word, len(word))
            ti = [e for an in ia for e in an[0]]
            tr = [e for an in ra for e in an[0]]
            for j, (x, y) in enumerate(zip(ia, ra)):
                t = tg[j] if j < len(tg) else frozenset()
                near = t | (tg[j - 1] if 0 < j <= len(tg) else frozenset())
                sd = near & {'sd', 'drop'} or '/-' in text
                if x == y:
                    continue
                at = 'at character %d of %r: ' % (j + 1, text)
                for e in set(x[0]) ^ set(y[0]):
                    mine_ = e in x[0]
                    if ti.count(e) == tr.count(e):
                        props.add('C09')
                        why = why or at + 'the span of %s %s elsewhere' % (e[1:].split(' ')[0], 'begins' if e[0] == '<' else 'ends')
                        if self.crlf(word, j):
                            props.add('C02')
                    elif e[0] == '<':
                        lab, _, sk = e[1:].partition(' ')
                        alt = [f for f in (y[0] if mine_ else x[0]) if f.startswith('<' + lab + ' ')]
                        if alt:
                            kinds = sk + alt[0]
                            if any('.%s(' % f.split('::')[1] in kinds for f in lang.CHANGES):
                                props.add('C04')
                            props.add('C05' if 'Literal::Int' in kinds or 'Literal::Dec' in kinds else 'C07')
                            why = why or at + '%s is %s instead of %s' % ((lab, sk, alt[0].split(' ', 1)[1]) if mine_ else (lab, alt[0].split(' ', 1)[1], sk))
                        else:
                            props.add('C07')
                            if sd:
                                props.add('C06')
                            why = why or at + '%s is %s' % (lab, 'present but must not be' if mine_ else 'missing')
                    elif not props:
                        props.add('C07')
                        why = why or at + '%s differs' % e
                if x[1] != y[1]:
                    if word[j][0] == 'L':
                        props.add('C07')
                        if sd:
                            props.add('C06')
                    elif 'str' in t:
                        props.add('C04')
                    elif 'num' in t:
                        props.add('C05')
                    else:
                        props.add('C07')
                    if sd and (not x[1] or not y[1]):
                        props.add('C06')
                    why = why or at + 'goes to %s instead of %s' % (', '.join(x[1]) or 'nowhere', ', '.join(y[1]) or 'nowhere')
            j = d.letter
            if j < len(word) and word[j][0] == 'c':
                fa = {self.states(m, a, word, ia, j)}
                fb = {self.states(m, b, word, ra, j)}
                if self.classes(m, fa, fb, word[j]):
                    props.add('C02')
            why = why or 'trees differ for %r' % text
        self.finds.append(Find(props, text, why, what))

    def open(self, anns, j):
        """spans open at letter j"""
        o = []
        for an in anns[:j + 1]:
            for e in sorted(an[0], key=lambda e: e[0] == '<'):
                if e[0] == '<':
                    o.append(e)
                else:
                    o = [x for x in o if not x.startswith('<' + e[1:] + ' ')]
        return o

    def crlf(self, word, j):
        t = ''.join(chr(l[1]) if l[0] == 'c' else '\0' for l in word)
        return '\r\n' in t[max(0, j - 2):j + 2]

    def classes(self, m, fa, fb, x):
        """is the character in a class (space, newline, identifier) on one side only"""
        if x[1] == ord(';'):
            return False
        for rep in ' ', '\n', 'q':
            r = ('c', ord(rep), x[2], None)
            ia = any(self.same(m, f, x, r) for f in fa)
            ib = any(self.same(m, f, x, r) for f in fb)
            if fa and fb and ia != ib:
                return True
        return False

    def same(self, m, f, x, r):
        a, b = self.step(m, f, x), self.step(m, f, r)
        return bool(b) and a == b


RULES = {
    'C02': 'in every state of the grammar a character continues the text like a space, like a newline or like an identifier character exactly if KDL puts it in that class',
    'C03': 'product of the grammar (as parsing expression automaton) with KDL: no reachable pair of states accepts on one side only',
    'C04': 'string contexts of the product: same texts accepted, every character and escape yields the same character of the value',
    'C05': 'number contexts of the product: same texts accepted, same kind and radix, same characters kept',
    'C06': 'comment, line continuation and slashdash contexts of the product: same texts accepted, nothing behind a slashdash reaches the tree',
    'C07': 'every character and nested element reaches the same slot of the tree on both sides of the product; the same slots exist',
    'C09': 'every span of the tree begins and ends before the same character on both sides of the product',
}


def check(ck):
    prop = ck.prop
    rule = RULES[prop]
    ck.rule(rule)
    g = Grammar(ck, ck.tier)
    site = 'src/grammar.rs document'

    def late(*a):
        raise Undecided('time limit')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(600 if ck.tier == 'quick' else 3000)
    try:
        try:
            g.run()
        except (Undecided, Unsupported):
            for cl, args in g.conv.listed.items():
                g.conv.refute(cl, args)
            raise
    except Defect as e:
        (ck.bad if prop in ('C03', 'C01') else ck.undecided)(rule, site, str(e))
        g.entry = getattr(g, 'entry', None)
    except peg.Mixed as e:
        (ck.bad if prop in ('C07', 'C06') else ck.undecided)(rule, site, str(e))
        g.entry = getattr(g, 'entry', None)
    except (Undecided, Unsupported) as e:
        ck.undecided(rule, site, 'not analysable: %s' % e)
    finally:
        signal.alarm(0)
    mine = [f for f in g.finds if prop in f.props]
    done = set()
    for f in sorted(mine, key=lambda f: (len(f.text), f.text)):
        key = f.what
        if key in done or len(done) >= 8:
            continue
        done.add(key)
        ck.bad(rule, '%s (%s)' % (site, f.site), f.what)
    for what, s in g.stats.items():
        if not any(f.site == what for f in mine):
            ck.good(rule, '%s (%s)' % (site, what), '%d pairs of states, %d derivatives' % (s['pairs_of_states'], s['derivatives']))
    ck.funcs |= {g.p.funcs[k].name for k in g.conv.funcs if k in g.p.funcs}
    ck.paths_n += g.conv.npaths
    ck.extra['automata'] = g.stats
    ck.extra['closures_interpreted'] = g.conv.runs
    ck.extra['raw_string_hashes'] = '0..%d' % peg.MAXHASH
    return g
