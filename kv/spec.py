"""Obligations: rules decided over all abstract paths of a function."""
import json
import os
import time
from terms import *
from interp import Interp, Unsupported, new_state, RET, PANIC

SP = 'knuffel::span::Spanned'
NODE = 'knuffel::ast::Node'
VALUE = 'knuffel::ast::Value'
LIT = 'knuffel::ast::Literal'
TN = 'knuffel::ast::TypeName'
TNI = 'knuffel::ast::TypeNameInner'
BT = 'knuffel::ast::BuiltinType'
DE = 'knuffel::errors::DecodeError'
PE = 'knuffel::errors::ParseError'
KIND = 'knuffel::decode::Kind'
CTXT = 'knuffel::decode::Context'
MUT = mk('mut')


def sym(n):
    return mk('sym', n)


def fld(b, path, vn, f):
    if b.op == 'adt':
        return None
    return mk('fld', b, path, vn, f)


def sv(b):
    return mk('fld', b, SP, 'Spanned', 'value')


def ss(b):
    return mk('fld', b, SP, 'Spanned', 'span')


def okv(t):
    return mk('fld', t, RESULT, 'Ok', '0')


def errv(t):
    return mk('fld', t, RESULT, 'Err', '0')


def somev(t):
    return mk('fld', t, OPTION, 'Some', '0')


def nodef(n, f):
    """field of the Node inside a SpannedNode"""
    return mk('fld', sv(n), NODE, 'Node', f)


def IN(*xs):
    return ('in', frozenset(xs))


def opq(*names):
    """treat the named functions (or declared trait methods) as opaque"""
    ns = set(names)

    def f(cal):
        n = cal.get('name')
        if n in ns:
            return n
        d = cal.get('decl')
        if d in ns:
            return d
        return None
    return f


def inner_self(t):
    """a pointer to what `&mut self` owns counts as self"""
    if t.op == 'mut' and t.a and t.a[1] is UNIT:
        if any(x.op == 'ref' and x.a[0] == ('A', 0) for x in walk(t.a[0])):
            return MUT
    return t


class Missing(Exception):
    """something public that the property is about does not exist"""


class Lost(Missing):
    """an internal construct the rules start from is not found: no verdict"""


TAINT = '\x00'


class Path:
    __slots__ = ('kind', 'val', 'facts', 'evs', 'dirty', 'notes', 'st')

    def __init__(self, kind, val, st):
        self.kind = kind
        self.val = val
        self.st = st
        self.facts = st.facts
        self.evs = st.trace
        self.dirty = st.dirty
        self.notes = st.notes

    def emits(self):
        return [e.a[1] for e in self.evs if e.a[0] == 'emit']

    def calls(self, name=None):
        return [e for e in self.evs if e.a[0] == 'call' and (name is None or e.a[1] == name)]

    def loops(self):
        return [e for e in self.evs if e.a[0] == 'loop']

    def tainted(self):
        return self.kind != 'panic' and any(n.startswith('unmodelled') for n in self.notes)

    def show(self):
        return (TAINT + ', '.join(sorted(self.notes)) + TAINT if self.tainted() else '') + '%s %s when {%s} after [%s]' % (
            self.kind, short(self.val), short_facts(self.facts.items()),
            '; '.join(short(e) for e in self.evs))


def short(t, n=300):
    s = show(t)
    return s if len(s) <= n else s[:n] + '…'


def short_facts(fs, n=500):
    s = show_facts(fs)
    return s if len(s) <= n else s[:n] + '…'


def dom_ok(d, want):
    """can the fact d and the required domain both hold"""
    if d is None:
        return True
    if d[0] == 'iv' or want[0] == 'iv':
        if d[0] != want[0]:
            return True
        from interp import iv_and
        return bool(iv_and(d[1], want[1]))
    if d[0] == 'in' and want[0] == 'in':
        return bool(d[1] & want[1])
    if d[0] == 'in':
        return bool(d[1] - want[1])
    if want[0] == 'in':
        return bool(want[1] - d[1])
    return True


def implied(d, want):
    """does the fact d imply membership in want"""
    if d is None:
        return False
    if d[0] == 'in' and want[0] == 'in':
        return d[1] <= want[1]
    if d[0] == 'out' and want[0] == 'out':
        return want[1] <= d[1]
    if d[0] == 'in' and want[0] == 'out':
        return not (d[1] & want[1])
    if d[0] == 'iv' and want[0] == 'iv':
        from interp import iv_and
        return iv_and(d[1], want[1]) == d[1]
    return False


class Check:
    """collects the obligations of one property"""

    def __init__(self, prop, prog=None):
        self.prop = prop
        self.prog = prog
        self.taint = {}
        self.obl = []            # (rule, site, status, detail)
        self.funcs = set()
        self.paths_n = 0
        self.calls_n = 0
        self.steps = 0
        self.units = {}
        self.rules = []
        self.extra = {}
        self._cache = {}

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def good(self, rule, site, detail=''):
        self.obl.append((rule, site, 'ok', detail))

    def bad(self, rule, site, detail):
        # a path that goes through a call without a model proves nothing
        if TAINT in detail:
            a, n, b = detail.split(TAINT, 2)
            self.obl.append((rule, site, 'undecided', a + b.replace(TAINT, '') + '; path uses ' + n))
            return
        if ' when {' not in detail and self.taint.get(site):
            self.obl.append((rule, site, 'undecided', detail + '; some path uses ' + ', '.join(sorted(self.taint[site]))))
            return
        self.obl.append((rule, site, 'violation', detail))

    def undecided(self, rule, site, detail):
        self.obl.append((rule, site, 'undecided', detail))

    def fn(self, name, prog=None):
        p = prog or self.prog
        r = p.root(name)
        if len(r) != 1:
            # re-exported functions may move between private modules
            seg = name.split('::')[-1]
            r = [p.funcs[k_] for k_ in p.roots if p.funcs[k_].name.split('::')[-1] == seg and '<' not in p.funcs[k_].name]
        if len(r) != 1:
            raise Missing('%s: %d definitions of %s' % (self.prop, len(r), name))
        return r[0]

    def find(self, suffix, contains='', prog=None):
        """root functions by key fragments"""
        p = prog or self.prog
        return [p.funcs[k_] for k_ in p.roots if contains in k_.split('|')[0] and k_.split('|')[0].endswith(suffix)]

    def impl(self, trait, ty, m, prog=None):
        """the method of a trait impl, e.g. impl('DecodeScalar<S>', 'i32', 'raw_decode')"""
        import re
        p = prog or self.prog
        out = []
        pat = re.compile(r'impl knuffel::traits::%s(<[^ ]*>)? for %s>::%s$' % (trait, ty, m))
        for k_ in p.roots:
            h = k_.split('|')[0]
            if pat.search(h):
                out.append(p.funcs[k_])
        if len(out) != 1:
            raise Lost('%s: %d impls of %s for %s (%s)' % (self.prop, len(out), trait, ty, m))
        return out[0]

    def paths(self, fn, argn, opaque=None, prog=None, setup=None, split=True, max_paths=20000):
        key = (id(fn), tuple(argn), id(opaque), split)
        if key in self._cache:
            return self._cache[key]
        p = prog or self.prog
        I = Interp(p, opaque=opaque, max_paths=max_paths)
        st = new_state()
        args = []
        for i, a in enumerate(argn):
            ty = p.ty(fn.locals[i + 1])
            v = a if isinstance(a, T) else mk('sym', a)
            if ty['k'] == 'ref' and v.op not in ('vref', 'ref'):
                if ty['m']:
                    loc = ('A', i)
                    st.mem[loc] = v
                    v = mk('ref', loc, ())
                else:
                    v = vref(v)
            args.append(v)
        if setup:
            setup(I, st)
        try:
            outs = I.call_fn(fn, args, st, 'root')
        except Unsupported:
            raise
        except Exception as e:   # an internal limit of the analysis, never a verdict
            raise Unsupported('internal: %r' % (e,))
        self.funcs |= {p.funcs[k_].name for k_ in I.funcs_seen}
        self.paths_n += len(outs)
        self.calls_n += I.calls_seen
        self.steps += I.nsteps
        res = []
        rt = p.ty(fn.locals[0])
        isres = split and rt.get('p') == RESULT
        for s, kd, v in outs:
            if kd == PANIC:
                res.append(Path('panic', v, s))
            elif isres:
                if v.op == 'adt' and v.a[0] == RESULT:
                    res.append(Path('ok' if v.a[1] == 0 else 'err', v.a[3][0], s))
                else:
                    f = s.facts.get(v)
                    for i, (kk, sel) in enumerate((('ok', okv), ('err', errv))):
                        if f is None or i in f[1]:
                            s2 = s.fork()
                            s2.facts[v] = IN(i)
                            res.append(Path(kk, sel(v), s2))
            else:
                res.append(Path('ret', v, s))
        for q in res:
            if q.tainted():
                self.taint.setdefault(fn.name, set()).update(n for n in q.notes if n.startswith('unmodelled'))
        self._cache[key] = res
        return res

    def table(self, rule, fn, argn, rows, opaque=None, prog=None, setup=None, only=None):
        """every path must satisfy every row of the decision table it is compatible
        with; every row must be reachable"""
        site = fn.name
        try:
            ps = self.paths(fn, argn, opaque, prog, setup)
        except Unsupported as e:
            self.undecided(rule, site, 'not analysable: %s' % e)
            return
        hit = [0] * len(rows)
        nbad = 0
        for p_ in ps:
            if only and not only(p_):
                continue
            ms = [i for i, (fs, _) in enumerate(rows) if all(dom_ok(self.fact(p_, t), d) for t, d in fs)]
            if not ms:
                continue
            for i in ms:
                hit[i] += 1
                m = rows[i][1](p_)
                if m:
                    nbad += 1
                    if any(n.startswith('unmodelled') for n in p_.notes) and 'panic' not in p_.kind:
                        self.undecided(rule, site, '%s; path uses %s' % (m, ', '.join(sorted(p_.notes))))
                    else:
                        self.bad(rule, site, '%s: %s' % (m, p_.show()))
                    break
        for i, h in enumerate(hit):
            if not h:
                nbad += 1
                self.bad(rule, site, 'no path for case {%s}' % short_facts(rows[i][0]))
        if not nbad:
            self.good(rule, site, '%d paths, %d cases' % (len(ps), len(rows)))

    def fact(self, p_, t):
        if t.op == 'adt':
            return IN(t.a[1])
        if t.op == 'k':
            return ('iv', ((t.a[0], t.a[0]),))
        return p_.facts.get(t)

    def delegates(self, rule, fn, argn, callee, cargs, wrap=lambda v: v, post=None):
        """the function calls callee(cargs) exactly once, returns its Ok value
        (wrapped) or its Err value unchanged and does nothing else observable"""
        site = fn.name
        try:
            ps = self.paths(fn, argn)
        except Unsupported as e:
            self.undecided(rule, site, 'not analysable: %s' % e)
            return
        nb = 0
        for p_ in ps:
            m = None
            cs = p_.calls(callee)
            t = mk('app', callee, cs[0].a[2] if len(cs) == 1 else cargs)
            others = [e for e in p_.evs if not (e.a[0] == 'call' and e.a[1] == callee) and
                      not (post and post(e))]
            if p_.kind == 'panic':
                m = 'panics'
            elif len(cs) != 1:
                m = 'calls %s %d times' % (callee.split('::')[-1], len(cs))
            elif tuple(map(inner_self, cs[0].a[2])) != cargs:
                m = 'passes %s' % short(cs[0].a[2])
            elif others:
                m = 'has a further effect ' + short(others[0])
            elif p_.kind == 'ok' and p_.val is not wrap(okv(t)):
                m = 'returns a different value'
            elif p_.kind == 'err' and p_.val is not errv(t):
                m = 'returns a different error'
            elif p_.kind == 'ret' and p_.val is not wrap(t):
                m = 'returns a different value'
            elif p_.kind in ('ok', 'err') and p_.facts.get(t) != IN(0 if p_.kind == 'ok' else 1):
                m = 'turns success into failure or back'
            if m:
                nb += 1
                self.bad(rule, site, m + ': ' + p_.show())
        if not ps:
            self.bad(rule, site, 'no path returns')
        elif not nb:
            self.good(rule, site, '%d paths' % len(ps))


def adt_is(t, path, vn=None):
    return t.op == 'adt' and t.a[0] == path and (vn is None or t.a[2] == vn)


def adt_fields(prog, t):
    names = prog.fnames(t.a[0], t.a[1])
    return dict(zip(names, t.a[3]))
