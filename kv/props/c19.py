from props.common import *

FLOOR = 7
C = 'knuffel::decode::Context::<S>::'


def run(ck):
    p = ck.prog = lib.library()
    a = sym('a')
    errs = mk('fld', a, CTXT, 'Context', 'errors')
    ext = mk('fld', a, CTXT, 'Context', 'extensions')

    def one(rule, fn, args, f):
        ck.rule(rule)
        try:
            ps = ck.paths(fn, args, split=False)
        except Unsupported as e:
            return ck.undecided(rule, fn.name, str(e))
        bad = 0
        if not ps:
            ck.bad(rule, fn.name, 'never returns')
            return
        for q in ps:
            m = 'panics' if q.kind == 'panic' else f(q)
            if m:
                bad += 1
                if q.notes:
                    ck.undecided(rule, fn.name, m + ' (%s)' % ', '.join(sorted(q.notes)))
                else:
                    ck.bad(rule, fn.name, m + ': ' + q.show())
        if not bad:
            ck.good(rule, fn.name, '%d paths' % len(ps))

    def get(fnname):
        r = [f for f in p.roots if f.split('|')[0] == fnname or f.split('|')[0].startswith(fnname + '::<')]
        if len(r) != 1:
            raise Lost('%d definitions of %s' % (len(r), fnname))
        return p.funcs[r[0]]

    def has(q):
        f = q.facts.get(mk('len', errs))
        v = q.val
        if v.op == 'k':
            if v.a[0]:
                if f is None or f[0] != 'iv' or f[1][0][0] < 1:
                    return 'true without a reported error'
            elif f != ('iv', ((0, 0),)):
                return 'false although errors may have been reported'
            return
        for n in (0, 1, 2, 3, 7, 255, 256, 1 << 32):
            if f is not None and not any(lo <= n <= hi for lo, hi in f[1]):
                continue
            x = evalb(v, {mk('len', errs): n})
            if x is None:
                return 'is not whether the error list is non-empty: ' + show(v)
            if bool(x) != (n > 0):
                return 'is %s with %d errors' % (x, n)
    one('has_errors is true exactly if the error list is not empty', get(C + 'has_errors'), ['a'], has)

    def into(q):
        if q.val is not errs:
            return 'does not return the error list'
    one('into_errors returns the whole error list', get(C + 'into_errors'), ['a'], into)

    def state(q):
        return q.st.mem.get(('A', 0))

    def upd_of(v, f):
        if v is not None and v.op == 'upd' and v.a[0] is a and v.a[2] == f:
            return v.a[3]

    def emit(q):
        v = state(q)
        x = upd_of(v, 'errors')
        if x is None:
            return 'does not change just the error list: ' + (short(v) if v is not None else '-')
        if x.op != 'seq' or len(x.a) != 2 or x.a[0] is not mk('all', errs) or x.a[1].op != 'one':
            return 'does not append exactly one error at the end: ' + short(x)
        e = x.a[1].a[0]
        if show(e) not in ('b', 'into:knuffel::errors::DecodeError(b)') and not (e.op == 'app' and e.a[1] == (sym('b'),) and 'into' in e.a[0]):
            return 'appends something else: ' + short(e)
    one('emit_error appends exactly that error', get(C + 'emit_error'), ['a', 'b'], emit)

    def new(q):
        if not adt_is(q.val, CTXT):
            return 'unexpected value'
        f = adt_fields(p, q.val)
        if f.get('errors') is not EMPTY:
            return 'a new context has errors'
        if 'extensions' in f and show(f['extensions']) != 'map([])':
            return 'a new context has user data'
    one('a new context is empty', get(C + 'new'), [], new)

    # the user data is keyed by the type
    key = {}

    def setf(q):
        v = state(q)
        x = upd_of(v, 'extensions')
        if x is None:
            return 'does not change just the user data'
        if x.op != 'map' or x.a[0].op != 'seq' or len(x.a[0].a) != 2:
            return 'does not store exactly one value: ' + short(x)
        al, on = x.a[0].a
        if al is not mk('all', mk('entries', ext)) or on.op != 'one':
            return 'loses other user data: ' + short(x)
        kv = on.a[0]
        kk, vv = kv.a[-2:] if kv.op == 'tup' and len(kv.a) == 2 else (kv.a[0] if len(kv.a) == 1 else kv.a)
        if vv is not sym('b'):
            return 'stores another value: ' + short(vv)
        key['set'] = kk
        if 'TypeId' not in show(kk):
            return 'the key is not the type: ' + short(kk)
    one('set stores the value under its own type', get(C + 'set'), ['a', 'b'], setf)

    def getf(q):
        mg = [t for t in q.facts if t.op == 'map_get' or (t.op == 'app' and t.a[0] == 'map_get')]
        if len(mg) != 1:
            return 'does not look up exactly one key'
        t = mg[0]
        args = t.a if t.op == 'map_get' else t.a[1]
        if args[0] is not ext or args[1] is not key.get('set'):
            return 'looks up another key: ' + short(t)
        if q.facts[t] == IN(1):
            dc = [x for x in q.facts if 'downcast' in x.op or (x.op == 'app' and 'downcast' in x.a[0])]
            if dc and q.facts[dc[0]] == IN(0):
                return None     # cannot happen: the key is the type of the value
            if not adt_is(q.val, OPTION, 'Some') or show(q.val.a[3][0]) not in (show(vref(somev(t))), show(somev(t))):
                return 'does not return the stored value: ' + short(q.val)
            if not dc:
                return 'value is not checked to be of the type'
        elif not adt_is(q.val, OPTION, 'None'):
            return 'returns a value that was never set'
    one('get returns the value stored under exactly that type', get(C + 'get'), ['a'], getf)

    # the callback runs once, on the context the decoders see, before them
    r = 'the user callback runs exactly once, before decoding, on the same context'
    ck.rule(r)
    fn = ck.fn('knuffel::wrappers::parse_with_context')
    try:
        ps = ck.paths(fn, ['file', 'text', 'f'], opaque=opq('knuffel::grammar::document'), max_paths=4000)
    except Unsupported as e:
        return ck.undecided(r, fn.name, str(e))
    bad = n = 0
    for q in ps:
        cs = [(c.a[1].split('::')[-1].split('<')[0]) for c in q.calls()]
        dec = [i for i, x in enumerate(cs) if x == 'decode_children']
        cb = [i for i, x in enumerate(cs) if x == 'apply']
        m = None
        if dec:
            n += 1
            if len(cb) != 1 or cb[0] > dec[0]:
                m = 'the callback does not run exactly once before decoding'
            elif q.calls()[cb[0]].a[2] != (sym('f'), MUT):
                m = 'the callback gets something else'
        elif cb and len(cb) > 1:
            m = 'callback runs more than once'
        if m:
            bad += 1
            ck.bad(r, fn.name, m + ': ' + q.show())
    # same context object: the mutable borrow passed to both has the same root
    if not n:
        ck.bad(r, fn.name, 'no path decodes')
    elif not bad:
        ck.good(r, fn.name, '%d paths' % len(ps))

