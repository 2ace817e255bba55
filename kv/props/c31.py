"""Every build of the library is the same library, apart from what a feature adds."""
import itertools
import json
import os
import re
import shutil

import build
import fixtures
import lib
import witness
import spec
from interp import Unsupported
from mir import Program
from props.common import *

FLOOR = 100
FEATURES = ('base64', 'derive', 'line-numbers', 'minicbor')
# what a feature may add: {feature: which implementations, which names}
ADDS_IMPL = {'minicbor': re.compile(r' as minicbor::'), 'line-numbers': re.compile(r'\bLine(Span|Tracker)\b')}
ADDS_NAME = {'derive': {'::Decode': 'Macro', '::DecodeScalar': 'Macro'}}
# where a feature may make code differ: base64 values
DIFFERS = {'base64': ('::decode::bytes',)}

API = '''
use knuffel::{ast, decode, errors, span, traits};
fn doc<S: traits::Span>(t: &str) -> Option<ast::Document<S>> { knuffel::parse_ast::<S>("f", t).ok() }
fn all<T: knuffel::DecodeChildren<span::Span>>(t: &str) -> Result<T, knuffel::Error> { knuffel::parse("f", t) }
fn ctx<T: knuffel::DecodeChildren<span::Span>>(t: &str) -> Result<T, knuffel::Error> { knuffel::parse_with_context::<T, span::Span, _>("f", t, |c| { c.set::<u32>(1); }) }
fn scalar<T: knuffel::traits::DecodeScalar<span::Span>>(v: &ast::Value<span::Span>, c: &mut decode::Context<span::Span>) -> Result<T, errors::DecodeError<span::Span>> {
    T::type_check(&v.type_name, c); <T as traits::DecodeScalar<span::Span>>::decode(v, c) }
fn one<T: knuffel::traits::Decode<span::Span>>(n: &ast::SpannedNode<span::Span>, c: &mut decode::Context<span::Span>) -> Result<T, errors::DecodeError<span::Span>> { T::decode_node(n, c) }
fn part<T: knuffel::traits::DecodePartial<span::Span>>(t: &mut T, n: &ast::SpannedNode<span::Span>, c: &mut decode::Context<span::Span>) -> Result<bool, errors::DecodeError<span::Span>> { t.insert_child(n, c) }
fn bytes(v: &ast::Value<span::Span>, c: &mut decode::Context<span::Span>) -> Vec<u8> { decode::bytes(v, c) }
fn need<T: traits::DecodeScalar<span::Span>>() {}
fn scalars() { need::<i8>(); need::<i16>(); need::<i32>(); need::<i64>(); need::<isize>(); need::<u8>(); need::<u16>(); need::<u32>(); need::<u64>(); need::<usize>();
    need::<f32>(); need::<f64>(); need::<bool>(); need::<String>(); need::<std::path::PathBuf>(); need::<Option<u32>>(); }
fn nodes<T: knuffel::traits::Decode<span::Span>>() { fn n<T: knuffel::DecodeChildren<span::Span>>() {} n::<Vec<T>>(); fn m<T: knuffel::traits::Decode<span::Span>>() {} m::<Box<T>>(); m::<std::sync::Arc<T>>(); m::<std::rc::Rc<T>>(); }
'''


def norm(s):
    s = re.sub(r'alloc\d+', 'alloc', s)
    return re.sub(r'\{((?:closure|coroutine|async)[^@{}]*)@[^{}]*\}', r'{\1}', s)


class Var:
    def __init__(self, feats, f):
        self.feats = feats
        self.file = f
        with open(f) as g:
            j = json.load(g)
        self.code = {}
        self.nice = {}
        for x in j['index']:
            self.nice[x['n'], x['impl']] = x['nice']
            self.code.setdefault((x['n'], x['impl']), []).append((x['kind'], norm(x['code'])))
        for v in self.code.values():
            v.sort()
        self.impls = {}
        for n, at, b in j['impls']:
            self.impls.setdefault(n, []).append(b)
        self.names = {}
        for path, kind, what, sig in j['exports']:
            self.names[(path, re.sub(r'\W.*', '', kind))] = sig
        self.adts = {n: (a['kind'], [(v['n'], v['d'], [(x['n'], x['t']) for x in v['f'] if x['v'] == 'Public'] + [len({x['v'] == 'Public' for x in v['f']})]) for v in a['v']])
                     for n, a in j['adts'].items() if n.startswith('knuffel::')}
        self._p = None

    def prog(self):
        if self._p is None:
            self._p = Program(self.file)
        return self._p

    def tag(self):
        return '+'.join(self.feats) or 'no features'


def refs(code):
    """the paths of this crate a piece of code names"""
    return set(re.findall(r'knuffel::[\w:]+\w', code))


def users(a, start):
    """the functions that reach one of `start` by name (the paths of the crate in the code)"""
    got, todo = set(start), list(start)
    by = {}
    for k_, bodies in a.code.items():
        for kind, c in bodies:
            for r in refs(c):
                by.setdefault(r, set()).add(k_)
    while todo:
        k_ = todo.pop()
        for u in by.get(k_[0], ()):
            if u not in got:
                got.add(u)
                todo.append(u)
    return got


def same_paths(ck, a, b, key, name):
    """None if the function does the same in both builds, else what differs"""
    fs = [[p.funcs[k_] for k_ in p.roots if p.funcs[k_].name == name] for p in (a.prog(), b.prog())]
    if [len(f) for f in fs] != [1, 1]:
        raise Unsupported('%s is not one function' % name)
    fa, fb = fs[0][0], fs[1][0]
    argn = ['a%d' % i for i in range(fa.nargs)]
    ca, cb = ([b_ for b_ in v.code[key] if b_[0] == 'Closure'] for v in (a, b))
    changed = ca != cb
    P = ck.paths(fa, argn, prog=a.prog(), split=False)
    Q = ck.paths(fb, argn, prog=b.prog(), split=False)

    def can(x, y):
        return all(spec.dom_ok(y.facts.get(t), d) for t, d in x.facts.items() if t in y.facts)
    for x in P:
        for y in Q:
            if can(x, y):
                if x.notes or y.notes or x.loops() or y.loops():
                    raise Unsupported('approximated paths')
                if changed and any(t.op == 'closure' for v in [x.val] + list(x.evs) + list(x.facts) if isinstance(v, T) for t in walk(v)):
                    raise Unsupported('the code of a closure differs')
                if (x.kind, x.val, x.evs) != (y.kind, y.val, y.evs):
                    return 'with %s: %s\nwith %s: %s' % (a.tag(), x.show()[:500], b.tag(), y.show()[:500])
    return None


def compare(ck, r, ref, v):
    """`v` against the reference build"""
    for k_, bodies in ref.code.items():
        other = v.code.get(k_)
        if other == bodies:
            ck.good(r, '%s [%s]' % (k_[0], v.tag()))
    diff = [k_ for k_ in set(ref.code) & set(v.code) if ref.code[k_] != v.code[k_]]
    if not diff:
        return
    for k_ in sorted(diff):
        site = '%s [%s]' % (k_[0], v.tag())
        fs = [f for f in set(ref.feats) ^ set(v.feats)]
        allowed = [n for f in fs for n in DIFFERS.get(f, ())]
        if any(k_[0].endswith(n) for n in allowed):
            ck.good(r, site, 'may differ: base64 values')
            continue
        # a private helper of what may differ
        us = users(ref, [k_])
        tops = [u for u in us if (u[0].replace('knuffel', '', 1), 'Fn') in ref.names or u[1]]
        if tops and all(any(u[0].endswith(n) for n in allowed) for u in tops):
            ck.good(r, site, 'only used for base64 values')
            continue
        kinds = [kd for kd, _ in ref.code[k_]]
        try:
            d = same_paths(ck, ref, v, k_, ref.nice[k_]) if 'Fn' in kinds or 'AssocFn' in kinds else 'the code of the two builds differs'
        except (Unsupported, spec.Missing) as e:
            d = 'the code of the two builds differs (%s)' % str(e)[:80]
        if d is None:
            ck.good(r, site, 'different code, same paths')
        else:
            ck.bad(r, site, d)


@build.locked
def run(ck):
    r1 = 'the library compiles with every combination of features'
    ck.rule(r1)
    combos = [c for n in range(len(FEATURES) + 1) for c in itertools.combinations(FEATURES, n)]
    vs, libs = [], {}
    for c in combos:
        site = '+'.join(c) or 'no features'
        try:
            f = build.dump_lib(list(c))
        except build.BuildError as e:
            if 'error' not in str(e) or 'driver:' in str(e):
                ck.undecided(r1, site, str(e)[-300:])
            else:
                m = re.search(r'error[^\n]*(?:\n[^\n]*){0,4}', str(e))
                ck.bad(r1, site, 'does not compile: ' + (m.group(0) if m else str(e))[:600])
            continue
        m, ds = witness.artefacts(os.path.join(build.BUILD, 't-lib'))
        keep = os.path.join(build.BUILD, 'rmeta', '+'.join(c) or 'none')
        shutil.rmtree(keep, ignore_errors=True)
        os.makedirs(keep)
        libs[c] = (shutil.copy(m, keep), ds)
        vs.append(Var(c, f))
        ck.good(r1, site, '%d bodies' % sum(map(len, vs[-1].code.values())))
    if not vs:
        return

    r2 = 'no build lacks a public name, and their signatures agree, except what the missing feature adds'
    r3 = 'no build lacks an implementation, and their bounds agree, except what the missing feature adds'
    r4 = 'the public types have the same fields and variants in every build'
    r5 = 'every function, closure and constant has the same code in every build, except the decoding of base64 values'
    for r in (r2, r3, r4, r5):
        ck.rule(r)
    names, impls, adts = {}, {}, {}
    for v in vs:
        for k_, s in v.names.items():
            names.setdefault(k_, set()).add(s)
        for k_, s in v.impls.items():
            impls.setdefault(k_, set()).update(s)
        for k_, s in v.adts.items():
            adts.setdefault(k_, []).append((s, v))
    for k_, ss in sorted(names.items()):
        bad = [v for v in vs if k_ not in v.names and not any(
            k_[0] in ns and ns[k_[0]] == k_[1] for f, ns in ADDS_NAME.items() if f not in v.feats)]
        if bad:
            ck.bad(r2, k_[0], '%s is missing with %s' % (k_[1].lower(), ', '.join(v.tag() for v in bad)))
        elif len(ss) > 1:
            ck.bad(r2, k_[0], 'different signatures: ' + ' / '.join(sorted(ss)))
        else:
            ck.good(r2, k_[0])
    for k_, ss in sorted(impls.items()):
        bad = [v for v in vs if k_ not in v.impls and not any(
            rx.search(k_) for f, rx in ADDS_IMPL.items() if f not in v.feats)]
        # implementations among private types concern nobody
        if bad and ' as ' not in k_:
            # an inherent block: its public methods are compared by name
            bad = []
        if bad and re.match(r'<(knuffel::[\w:]+)', k_):
            t = re.match(r'<(knuffel::[\w:]+)', k_).group(1)
            short_ = t.split('::')[-1]
            if not any(n[0].split('::')[-1] == short_ for n in names) and not re.search(r' as knuffel::', k_):
                bad = []
        if bad:
            ck.bad(r3, k_, 'is missing with ' + ', '.join(v.tag() for v in bad))
        elif len({b for b in ss}) > 1 and any(sorted(set(v.impls[k_])) != sorted(ss) for v in vs if k_ in v.impls):
            ck.bad(r3, k_, 'different bounds: ' + ' / '.join(sorted(ss))[:400])
        else:
            ck.good(r3, k_)
    pub = {n[0].split('::')[-1] for n in names}
    for k_, ss in sorted(adts.items()):
        if k_.split('::')[-1] not in pub:
            continue
        first = ss[0]
        other = next((x for x in ss if x[0] != first[0]), None)
        if other:
            ck.bad(r4, k_, 'differs between %s and %s: %s' % (first[1].tag(), other[1].tag(), str([x for x in zip(first[0][1], other[0][1]) if x[0] != x[1]] or 'variants')[:400]))
        else:
            ck.good(r4, k_)
    ref = max(vs, key=lambda v: len(v.feats))
    for v in vs:
        if v is not ref:
            compare(ck, r5, ref, v)

    r6 = 'a client of the core functions compiles with every build'
    ck.rule(r6)
    for c, lb in libs.items():
        witness.judge(ck, r6, [('the core functions [%s]' % ('+'.join(c) or 'no features'), API, None)], lb)
    r7 = 'derived definitions compile with every build that has the derives'
    ck.rule(r7)
    full = tuple(FEATURES)
    if full in libs:
        fx = [f for f in fixtures.OUT if 'LineSpan' not in f.rust()]
        bad = {f.id for f in fixtures.OUT} - {f.id for f in fx}
        # those that do not compile with all features are reported by the properties of the derives
        rc, errs, _ = witness.compile_one(fixtures.crate(bad), libs[full])
        jobs = [c for c in libs if 'derive' in c and c != full]
        if rc != 0:
            ck.undecided(r7, 'all', 'the definitions do not compile with all features')
        else:
            res = []
            import concurrent.futures
            with concurrent.futures.ThreadPoolExecutor(4) as ex:
                res = list(ex.map(lambda c: witness.compile_one(fixtures.crate(bad), libs[c]), jobs))
            for c, (rc, errs, raw) in zip(jobs, res):
                site = '%d definitions [%s]' % (len(fx), '+'.join(c))
                if any(e[0] in witness.ENV_CODES for e in errs) or (rc and not errs):
                    ck.undecided(r7, site, str(errs[:1]) + raw[-300:])
                elif rc:
                    ck.bad(r7, site, errs[0][1])
                else:
                    ck.good(r7, site)
