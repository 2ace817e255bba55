"""C01: no input makes the library panic"""
import re
import signal

import auto
import derive
import fixtures
import gram
import lib
import peg
from .common import *
from interp import RET, iv_and, Unsupported
from peg import Undecided, Defect, EOI, ALL

FLOOR = 200
R1 = 'no path of a library function reaches a panic, a failed assertion, an out-of-bounds index or an arithmetic overflow'
R2 = 'no closure of the grammar panics on any text its parser matches; no repeated parser matches nothing'
R3 = 'no path of a derived decoder panics'
R4 = 'functions outside of the interpreted ones contain no panicking construct'

PE = 'knuffel::errors::ParseError'

# may panic depending on their arguments, not modelled precisely
MAYPANIC = re.compile(r'::(unwrap|expect|unwrap_err|expect_err|unwrap_none|index|index_mut|split_at|split_at_mut|split_off|remove|swap_remove|'
                      r'insert_str|copy_from_slice|clone_from_slice|swap|drain|splice|borrow|borrow_mut|step_by|chunks|chunks_exact|windows|'
                      r'from_digit|to_digit|from_str_radix|rotate_left|rotate_right|div|rem|add|sub|mul|neg|pow|abs|replace_range|'
                      r'unreachable_unchecked|join)$')


def leaves(t):
    """what a term says something about: inputs and parts of inputs"""
    out = set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T):
            if x.op in ('sym', 'fld', 'cur', 'chr', 'elemb', 'elem'):
                y = x
                while y.op == 'fld':
                    if y.a[0].op == 'app':
                        go(y.a[0])
                        return
                    y = y.a[0]
                out.add(x)
            else:
                for y in x.a:
                    go(y)
    go(t)
    return out


SIMPLE = ('sym', 'fld', 'len', 'cur', 'chr', 'discr', 'vref', 'elem', 'elemb', 'freeze')


def plain_term(t):
    if not isinstance(t, T):
        return True
    if t.op == 'k':
        return True
    if t.op == 'cmp' and any(x.op == 'k' for x in t.a[1:3]):
        return all(plain_term(x) for x in t.a[1:3])
    if t.op in SIMPLE:
        return all(plain_term(x) for x in t.a)
    return False


def clear(q):
    """do the conditions of the path certainly have a common model: every one is
    about something of its own"""
    ts = [t for t in q.facts if not plain_term(t)]
    for i, x in enumerate(ts):
        for y in q.facts:
            if y is x:
                continue
            if any(z is x for z in walk(y)) or any(z is y for z in walk(x)):
                continue        # the result of one is the input of the other
            if leaves(x) & leaves(y):
                return False
    return not any(n.startswith('unmodelled') for n in q.notes)


def variants(p, q, t):
    names = [v['n'] for v in p.adts[PE]['v']]
    d = q.facts.get(t)
    if d is None:
        return set(names)
    if d[0] == 'in':
        return {names[i] for i in d[1]}
    return {n for i, n in enumerate(names) if i not in d[1]}


def allowed(p, fn, q):
    n = fn.name
    if n == '<knuffel::ast::Value as knuffel::traits::DecodeScalar>::raw_decode':
        return 'a whole-value decoder asked for a raw literal'
    if re.match(r'<std::(sync::Arc|rc::Rc) as knuffel::traits::DecodePartial>::', n):
        if any(t.op == 'app' and t.a[0] == 'get_mut' and d == IN(0) for t, d in q.facts.items()):
            return 'a shared pointer somebody cloned'
    if n == '<%s as chumsky::Error>::merge' % PE:
        a, b = variants(p, q, sym('a0')), variants(p, q, sym('a1'))
        msg = {'Message', 'MessageWithHelp'}
        if 'Unclosed' not in a and 'Unclosed' not in b and (a <= msg or b <= msg):
            return 'a message never competes with another error'
    return None


def public(fn):
    if ' as ' in fn.name.split('>::')[0]:
        return 'sealed' not in fn.name
    if fn.name == 'knuffel::ast::TypeName::from_string':
        return True         # the grammar passes any string
    return fn.d.get('vis') == 'Public' and '::grammar::' not in fn.name


def is_parse(t):
    """whether a whole text parses: both outcomes are possible whatever a part of the text is"""
    return t.op == 'app' and t.a[0] == 'parse' or t.op == 'P' and t.a[0] == 'parse'


def valid_float(t):
    """the grammar only builds decimals that read as floats"""
    return t.op == 'app' and t.a[0] in ('from_str:f32', 'from_str:f64') and \
        any(x.op == 'fld' and x.a[1] == DECIMAL for x in walk(t.a[1][0]))


def judge(p, fn, q):
    """-> (status, message)"""
    if any(valid_float(t) and d == IN(1) for t, d in q.facts.items()):
        return 'ok', 'decimals are valid floats'
    a = allowed(p, fn, q)
    if a:
        return 'ok', a
    m = 'can panic (%s): %s' % (show(q.val)[:160], q.show()[:600])
    if not public(fn) and ('sealed' not in fn.name or q.val.a[0] == 'overflow' and q.val.a[1] == 'Sub'):
        return 'open', 'private function; ' + m
    if q.val.a[0] == 'slice index':
        x, r = q.val.a[1].a[1] if isinstance(q.val.a[1], T) else (None, None)
        if x is None:
            return ('bad' if clear(q) else 'open'), m
        facts = [t for t in q.facts if not is_parse(t)]
        if x.op == 'str' and r.op == 'adt' and len(r.a[3]) == 1 and plain_term(r.a[3][0]):
            d = q.facts.get(r.a[3][0])
            if d is None or d[0] == 'iv' and d[1][-1][1] > len(x.a[0].encode()):
                return ('bad' if clear(q) else 'open'), m
            return 'ok', m
        if q.val.a[1].a[0] == 'mapindex':
            return ('open' if any(leaves(x) & leaves(t) for t in facts) or not clear(q) else 'bad'), m
        ns = peg.offsets(x, r)
        free = plain_term(x) or x.op == 'app' and x.a[0] == 'into:std::string::String' and len(x.a[1]) == 1 and plain_term(x.a[1][0])
        if ns is None or not any(n for n, s in ns) or not free:
            return 'open', m
        top = max(n for n, s in ns)
        facts = [t for t in facts if not (peg.islen(t, x) and q.facts[t][0] == 'iv' and q.facts[t][1][-1][1] > top)]
        if any(leaves(x) & leaves(t) for t in facts):
            return 'open', m
        return ('bad' if clear(q) else 'open'), m
    return ('bad' if clear(q) else 'open'), m


def library(ck, p):
    ck.rule(R1)
    open_ = {}
    seen = set()
    skip = []
    before = set()
    for k_ in p.roots:
        fn = p.funcs[k_]
        if 'minicbor' in fn.name:
            continue
        ck.funcs = set()
        try:
            ps = ck.paths(fn, ['a%d' % i for i in range(fn.nargs)], split=False, max_paths=4000)
        except Unsupported as e:
            skip.append((fn, str(e)))
            before |= ck.funcs
            continue
        before |= ck.funcs
        bad, opn, ok = [], [], []
        for q in ps:
            if q.kind == 'panic':
                s, m = judge(p, fn, q)
                {'bad': bad, 'open': opn, 'ok': ok}[s].append(m)
        if not opn or public(fn) or 'sealed' in fn.name:
            seen |= ck.funcs
        if bad:
            ck.bad(R1, fn.name, bad[0])
        elif opn:
            if public(fn) or 'sealed' in fn.name:
                ck.undecided(R1, fn.name, opn[0])
        else:
            ck.good(R1, fn.name, '%d paths%s' % (len(ps), '; allowed: ' + ok[0] if ok else ''))
    ck.funcs = before
    return seen, skip


def pname(cl):
    return cl.a[0].split('|')[0]


def grammar(ck, p):
    ck.rule(R2)
    g = gram.Grammar(ck, ck.tier)
    site = 'src/grammar.rs'

    def late(*a):
        raise Undecided('time limit')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(500 if ck.tier == 'quick' else 3000)
    global _g
    _g = c = g.conv
    fail = None
    try:
        P, fn = g.root()
        c.conv(P)
        for h in list(c.handles.values()):
            c.inline(h)
    except Defect as e:
        ck.bad(R2, site, str(e))
    except (Undecided, Unsupported) as e:
        fail = str(e)
        ck.undecided(R2, site, 'not analysable: %s' % e)
    done = {}
    for cl, e, st, v in c.panics:
        n = pname(cl)
        if done.get(n) == 'bad':
            continue
        try:
            if isinstance(e, Undecided):
                m = items_only(st)
                if m:
                    done[n] = 'bad'
                    ck.bad(R2, n, 'panics (%s) when %s' % (show(v)[:160], m))
                    continue
                raise e
            es = c.cuts(e, v) if v.a[0] == 'slice index' and isinstance(v.a[1], T) else [e]
            for x in es:
                w = word(c, x)
                if w is not None:
                    done[n] = 'bad'
                    ck.bad(R2, n, 'panics (%s) on %r' % (show(v)[:160], w))
                    break
            else:
                done.setdefault(n, 'ok')
        except (Undecided, Unsupported) as x:
            done[n] = 'open'
            ck.undecided(R2, n, 'panics (%s) on a text not known: %s' % (show(v)[:120], x))
        except KeyError as x:
            done[n] = 'open'
            ck.undecided(R2, n, 'panics (%s) on a text not known: %r' % (show(v)[:120], x))
    signal.alarm(0)
    for f in sorted({p.funcs[k_].name for k_ in c.funcs if k_ in p.funcs}):
        if done.get(f, 'ok') == 'ok':
            ck.good(R2, f)
    ck.funcs |= {p.funcs[k_].name for k_ in c.funcs if k_ in p.funcs}
    ck.paths_n += c.npaths
    ck.extra['closures_interpreted'] = c.runs
    return {p.funcs[k_].name for k_ in c.funcs if k_ in p.funcs}


def items_only(st):
    """facts of a path that always have a model: the kind of an item and what a
    collection already holds"""
    for t, d in st.facts.items():
        x = t
        if x.op == 'app' and x.a[0] in ('map_insert', 'set_insert', 'map_old', 'map_has', 'contains_key') or x.op == 'alt':
            continue
        if any(y.op == 'app' for y in walk(x)) or d[0] == 'iv' and x.op != 'len':
            return None
    return short_facts(st.facts.items())


def word(c, e):
    """a text that e matches (possibly followed by more), None if there is none"""
    import lang
    an = lang.Annot(c)
    E = an.top(tuple(e), UNIT, 'X')
    E = peg.rebuild(E, lambda t: mk('L', 'N', *t.a[1:]) if t.op == 'L' else t, {})
    rest = (mk('Rep', 0, (mk('C', ALL, 0, ()),), 0, None, False),)
    m = auto.Machine(gram.FIRSTS)
    m.alldfas = frozenset(auto.all_dfas(E))
    w = auto.accepts(m, m.start(E + rest + (EOI,)), {})
    if w is None:
        return None
    return ''.join(chr(l[1]) if l[0] == 'c' else '…' for l in w if l[0] in 'cL') if not isinstance(w, str) else w


def wraps(ck, p, seen):
    """closures over errors: interpreted with an arbitrary error and position"""
    out = set()
    for k_, fn in p.funcs.items():
        if fn.kind != 'closure' or not fn.body or fn.name in seen:
            continue
        ck_ = Check('C01', p)
        try:
            ps = ck_.paths(fn, ['a%d' % i for i in range(fn.nargs)], split=False, max_paths=2000)
        except Unsupported:
            continue
        if not any(q.kind == 'panic' for q in ps):
            out |= ck_.funcs | {fn.name}
            ck.good(R1, fn.name, 'for any error and position')
    return out


def scan(p, fn):
    """constructs of the body that can panic"""
    out = []
    for b in fn.blocks:
        t = b['t']
        if t[0] == 'assert':
            out.append('%s at %s' % (t[3][0], t[5]))
        elif t[0] == 'call':
            f = t[1]
            n = ''
            if f['c'] == 'fn':
                n = f['v'].get('name') or f['v'].get('decl') or ''
            if t[4] is None:
                out.append('%s at %s' % (n or 'diverging call', t[5]))
            elif MAYPANIC.search(n) and not n.startswith('knuffel::') and 'knuffel' not in n:
                out.append('%s at %s' % (n, t[5]))
    return out


def rest(ck, p, seen, skip):
    ck.rule(R4)
    why = {f.name: w for f, w in skip}
    names = {}
    for k_, fn in p.funcs.items():
        if not fn.d.get('local') or not fn.body or fn.name in seen or 'minicbor' in fn.name:
            continue
        names.setdefault(fn.name, []).append(fn)
    for n, fs in sorted(names.items()):
        bad = sorted({x for f in fs for x in scan(p, f)})
        if bad:
            ck.undecided(R4, n, '%s%s' % ('; '.join(bad)[:300], ' (%s)' % why[n] if n in why else ''))
        else:
            ck.good(R4, n, why.get(n, ''))


def derived(ck):
    p, rejected = lib.fixtures()
    ck.rule(R3)
    keep = ck.prog
    ck.prog = p
    bad, open_, done = {}, {}, set()

    def site(fx, fn):
        return '%s::%s' % (fx.id, fn.name.split('>::')[-1] if fn is not None else '?')

    def report(pr, fx, fn, msg, q):
        if q is not None and getattr(q, 'kind', '') == 'panic':
            bad.setdefault(site(fx, fn), (fx, msg))
        elif pr is None:
            open_.setdefault(site(fx, fn), msg)
    D = derive.Derive(ck, p)
    D.visited = done
    D.run(report, lambda fx: fx.id not in rejected)
    for fid, s in sorted(done):
        if s in bad:
            ck.bad(R3, s, '%s\nin the decoder derived for\n%s' % (bad[s][1], bad[s][0].rust()))
        elif s in open_ and 'not analysable' in open_[s]:
            ck.undecided(R3, s, open_[s])
        else:
            ck.good(R3, s)
    ck.prog = keep


def run(ck):
    p = ck.prog = lib.library()
    seen, skip = library(ck, p)
    seen |= grammar(ck, p)
    seen |= wraps(ck, p, seen)
    rest(ck, p, seen, skip)
    derived(ck)
    ck.extra['assumed'] = ['sums of usize positions do not overflow (bounded by the input held in memory)',
                           'errors of kind Message and MessageWithHelp never meet another error at the same position (ParseError::merge)']
