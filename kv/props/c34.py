"""C34: parsing and decoding are functions of their arguments"""
import json
import os
import re

import build
import lib
from .common import *
from interp import Unsupported

FLOOR = 300
R1 = 'a function of the library uses nothing but its arguments: no state, environment, clock, files, random order or addresses'
R2 = 'so does every derived decoder'
R3 = 'the derive macro generates the same code for the same definition'
R4 = 'the name of the file is only kept for the report'

# reads or changes something outside of the arguments
OUTSIDE = [
    (re.compile(r'^std::(env|fs|net|process)::(?!Args::|ExitCode)'), 'talks to the system'),
    (re.compile(r'^std::os::'), 'talks to the system'),
    (re.compile(r'^std::time::(Instant|SystemTime)::(now|elapsed)|\bInstant::now|\bSystemTime::now|UNIX_EPOCH'), 'reads the clock'),
    (re.compile(r'^std::io::(stdio::)?(stdin|stdout|stderr|_print|_eprint|print|eprint|read_to_string)\b'), 'reads or writes a standard stream'),
    (re.compile(r'^std::thread::(local::)?LocalKey|LocalKey<.*> :: '), 'keeps state in the thread'),
    (re.compile(r'^std::thread::(current|park|sleep|yield_now|available_parallelism)\b|Thread :: id|ThreadId'), 'depends on the thread'),
    (re.compile(r'RandomState( as [^>]*>)? ?:: ?(new|default|hash_one|build_hasher)\b|^std::hash::random::'), 'takes a random hash key'),
    (re.compile(r'^std::hint::black_box$'), None),
    (re.compile(r'^(rand|getrandom|fastrand|uuid)\b'), 'takes random numbers'),
    (re.compile(r'rt::Argument(<.*>)?::new_pointer$|std::ptr::.*::addr$|::expose_provenance$|fmt::Pointer> :: fmt'), 'depends on an address'),
    (re.compile(r'std::panic::(set_hook|take_hook|update_hook)$'), 'changes the process'),
    (re.compile(r'std::alloc::(set_alloc_error_hook|take_alloc_error_hook)$'), 'changes the process'),
]
# may or may not: state that could be a constant worked out once
CELL = re.compile(r'^std::sync::(atomic|Mutex|RwLock|Once|mpsc|Condvar)|sync::atomic::Atomic|OnceLock|OnceCell|^std::thread::(spawn|scope|Builder)')
LAZY = re.compile(r'^std::(sync::LazyLock|cell::LazyCell)<')
ONCE_SET = re.compile(r'Once(Lock|Cell)<.*(::|:: )(set|try_insert|get_mut|take)$')
ONCE_INIT = re.compile(r'Once(Lock|Cell)<.*(::|:: )(get_or_init|get_or_try_init|get_mut_or_init)$')
HASHED = re.compile(r'\bHash(Map|Set)\b')
ORDER = re.compile(r'(::|:: )(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|into_iter|next|extract_if|fold|for_each|'
                   r'union|intersection|difference|symmetric_difference)$')
NOORDER = re.compile(r'(::|:: )(any|all|count|sum|max|min)$')
HITER = re.compile(r'collections::(hash::map|hash_map|hash_set|hash::set|hash::\w+)::')
FIXED = re.compile(r'BuildHasherDefault|DefaultHasher')


def canon(n):
    return re.sub(r'\b(core|alloc|hashbrown)::', 'std::', n)


def judge(uses):
    """(violations, open points) of what one body uses"""
    bad, open_ = [], []
    names = [canon(w) for k, w, x, at in uses if k == 'fn']
    ordered = any(re.search(r'(BTreeMap|BTreeSet|sort|sort_by|sort_unstable|sorted|sort_by_key)', n) for n in names) or \
        any(NOORDER.search(canon(w)) and HITER.search(canon(x).split(', ')[0]) for k, w, x, at in uses if k == 'fn')
    for k, w, x, at in uses:
        if k == 'state':
            t = canon(x)
            if LAZY.search(t):
                continue
            if 'Once' in t and not any(ONCE_SET.search(n) for n in names) and not any(
                    'captures' in x2 for k2, w2, x2, _ in uses if k2 == 'fn' and ONCE_INIT.search(canon(w2))):
                continue        # worked out once from nothing
            bad.append('%s: keeps state in `%s`%s' % (at, w, ' of type ' + x if x else ''))
        elif k == 'address':
            bad.append('%s: takes an address as a number' % at)
        elif k in ('asm', 'unsafe'):
            open_.append('%s: %s code' % (at, 'assembler' if k == 'asm' else 'unsafe'))
        elif k == 'fn':
            n = canon(w)
            for r, why in OUTSIDE:
                if why and r.search(n):
                    bad.append('%s: `%s` %s' % (at, w, why))
                    break
            else:
                both = n + ' ' + canon(x)
                if HASHED.search(both) and ORDER.search(n) and not FIXED.search(both):
                    if HASHED.search(n) or re.search(r'std::collections::(hash::map|hash_map|hash_set|hash::set|HashMap|HashSet)\b|std::hash::(map|set)',
                                                     (x.split(', ') or [''])[0]):
                        (open_ if ordered else bad).append('%s: `%s` visits a hash table in its random order' % (at, w))
                elif CELL.search(n):
                    # a cell that is no static lives in a value
                    pass
    return sorted(set(bad)), sorted(set(open_))


def each(ck, rule, effects, where):
    ck.rule(rule)
    by = {}
    for f in effects:
        by.setdefault((f['n'], f['impl']), []).extend(f['uses'])
    for (n, imp), uses in sorted(by.items()):
        site = n if not imp else '%s [%s]' % (n, imp)
        site = site[:200]
        ck.funcs.add(n)
        bad, open_ = judge(uses)
        if bad:
            ck.bad(rule, site, '%s%s' % (where, '; '.join(bad)[:900]))
        elif open_:
            ck.undecided(rule, site, '; '.join(open_)[:400])
        else:
            ck.good(rule, site, '%d uses of other crates' % len(uses))


def inside(t, leaf, holder):
    """whether `leaf` occurs in `t` outside of a call of `holder`"""
    if t is leaf:
        return True
    if isinstance(t, tuple):
        return any(inside(x, leaf, holder) for x in t)
    if not isinstance(t, T):
        return False
    if t.op == 'app' and isinstance(t.a[0], str) and holder in t.a[0]:
        return any(inside(x, leaf, holder) for x in t.a[2:])
    return any(inside(x, leaf, holder) for x in t.a)


def file_name(ck, p):
    """the parameter reaches nothing but the source of the report, in any of
    the functions it is passed on to"""
    ck.rule(R4)
    roots = {}
    for k_ in p.roots:
        f = p.funcs[k_]
        if f.name in ('knuffel::wrappers::parse_ast', 'knuffel::wrappers::parse', 'knuffel::wrappers::parse_with_context'):
            roots[f.name] = f
    if len(roots) != 3:
        raise Lost('the entry points')
    for n, f in sorted(roots.items()):
        a = sym('file_name')
        names = ['file_name'] + ['a%d' % i for i in range(1, f.nargs)]

        def stop(c):
            x = c.get('name') or c.get('decl') or ''
            return x if x in roots and x != n else None
        try:
            ps = ck.paths(f, names, stop, split=False)
        except Unsupported as e:
            ck.undecided(R4, n, str(e))
            continue
        site = n
        worst = None
        for q in ps:
            for t in list(q.facts):
                if isinstance(t, T) and any(y is a for y in walk(t)):
                    if any(y.op == 'app' and y.a[0] in roots for y in walk(t)):
                        continue        # the outcome of the entry point it is passed to
                    worst = (q, 'what happens depends on %s' % short(t, 200))
        if worst:
            ck.bad(R4, site, worst[1])
        else:
            ck.good(R4, site, '%d paths' % len(ps))


def run(ck):
    f = os.environ.get('KV_DUMP') or build.dump_lib()
    with open(f) as g:
        eff = json.load(g)['effects']
    each(ck, R1, [e for e in eff if 'minicbor' not in e['impl']], '')
    p = ck.prog = lib.library()
    file_name(ck, p)
    g = os.environ.get('KV_FX') or build.dump_fixtures()
    with open(g) as h:
        fx = json.load(h)['effects']
    each(ck, R2, fx, 'in the code derived for a definition: ')
    with open(build.dump_macro()) as h:
        m = json.load(h)['effects']
    # a macro may look at its environment; the order of what it generates is its own
    each(ck, R3, [e for e in m], '')
