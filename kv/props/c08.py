from props.common import *

FLOOR = 60
TR = 'knuffel::traits::'
FALLIBLE = tuple(TR + x for x in ('DecodeScalar::raw_decode', 'DecodeScalar::decode', 'Decode::decode_node',
                                  'DecodeChildren::decode_children', 'DecodePartial::insert_child',
                                  'DecodePartial::insert_property'))


def fallible(name):
    return name.split('<')[0] in FALLIBLE


def parts(v):
    """(sequences completely contained, single elements) of a list of reports"""
    alls, ones = [], []

    def report(x):
        # a report wraps the error unchanged
        if x.op == 'adt' and x.a[0].endswith('Report') and len(x.a[3]) == 1:
            return x.a[3][0]
        if x.op in ('app',) and len(x.a[1]) == 1 and 'Report' in x.a[0]:
            return x.a[1][0]
        if x.op == 'report':
            return x.a[0]
        return x

    def walk_(x):
        if x.op == 'seq':
            for y in x.a:
                walk_(y.a[0]) if y.op == 'all' else ones.append(report(y.a[0]))
        elif x.op == 'compr':
            L, srcs, cases, full = x.a
            if full and len(srcs) == 1 and len(cases) == 1:
                (src, k0, n), = srcs
                (fs, push), = cases
                if not fs and len(push) == 1 and push[0].op == 'one' and is_cur(report(push[0].a[0]), src):
                    alls.append(src)
        else:
            alls.append(x)
    walk_(v)
    return alls, ones


def swallowed(q):
    """an error result that is neither returned nor reported"""
    def scan(facts, evs, ret, where):
        emitted = {e.a[1] for e in evs if e.a[0] == 'emit'}
        for e in evs:
            if e.a[0] == 'call' and fallible(e.a[1]):
                t = mk('app', e.a[1], e.a[2])
                f = facts.get(t)
                if f == IN(0):
                    continue
                x = errv(t)
                if x in emitted or (ret is not None and contains(ret, x)):
                    continue
                if f is None and ret is not None and contains(ret, t):
                    continue
                if f is None:
                    return '%s: the result of %s is ignored' % (where, short(t, 120))
                return '%s: the error of %s is dropped' % (where, short(t, 120))
            if e.a[0] == 'loop':
                for r in e.a[2]:
                    rf = dict(facts)
                    rf.update(dict(r[0]))
                    keep = mk('tup', *[x.a[0] for pr in r[2] for x in pr[1] if isinstance(x, T)]) if r[2] else None
                    m = scan(rf, r[1], keep, 'in a loop')
                    if m:
                        return m
        return None
    return scan(q.facts, q.evs, q.val, 'path')


def contains(v, x):
    if isinstance(v, T):
        return any(y is x for y in walk(v))
    return False


def ctx_roots(p):
    for k_ in p.roots:
        fn = p.funcs[k_]
        if fn.body is None and not getattr(fn, 'blocks', None):
            continue
        for i in range(fn.nargs):
            ty = p.ty(fn.locals[i + 1])
            if ty['k'] == 'ref' and ty['m'] and p.ty(ty['e']).get('p') == CTXT:
                yield fn, i
                break


def run(ck):
    p = ck.prog = lib.library()
    doc = 'knuffel::grammar::document'
    op = opq(doc)
    dc = TR + 'DecodeChildren::decode_children'

    def entry(name, argn, rule, judge, opaque=None):
        ck.rule(rule)
        fn = ck.fn(name)
        try:
            ps = ck.paths(fn, argn, opaque=opaque)
        except Unsupported as e:
            return ck.undecided(rule, fn.name, str(e))
        bad = 0
        kinds = set()
        for q in ps:
            kinds.add(q.kind)
            m = 'panics' if q.kind == 'panic' else judge(q)
            if m:
                bad += 1
                if q.notes:
                    ck.undecided(rule, fn.name, m + ' (%s)' % ', '.join(sorted(q.notes)))
                else:
                    ck.bad(rule, fn.name, m + ': ' + q.show())
        if kinds != {'ok', 'err'}:
            ck.bad(rule, fn.name, 'does not both succeed and fail')
        elif not bad:
            ck.good(rule, fn.name, '%d paths' % len(ps))

    def parsed(q):
        a = [t for t in q.facts if t.op == 'app' and t.a[0] == 'parse' or t.op == 'parse']
        return a[0] if len(a) == 1 else None

    def report_ok(q, want_all, want_one):
        v = q.val
        if v.op != 'adt' or not v.a[0].endswith('::Error'):
            return 'unexpected error value'
        f = adt_fields(p, v)
        if not any(x is sym('file') for x in walk(f['source_code'])) or not any(x is sym('text') for x in walk(f['source_code'])):
            return 'file name or text missing in the error'
        sc = f['source_code']
        if sc.op == 'adt' and sc.a[3][:2] != (sym('file'), sym('text')):
            return 'file name and text are mixed up'
        al, on = parts(f['errors'])
        for w in want_all:
            ln = q.facts.get(mk('len', w))
            if ln == ('iv', ((0, 0),)):
                continue
            if w not in al:
                return 'not every error of %s is contained' % short(w, 80)
        for w in want_one:
            if w not in on:
                return 'error %s is not contained' % short(w, 80)
        return None

    def j_ast(q):
        t = parsed(q)
        if t is None:
            return 'does not parse exactly once'
        if q.kind == 'ok':
            if q.facts[t] != IN(0) or q.val is not okv(t):
                return 'succeeds with something else than the parsed document'
        else:
            if q.facts[t] != IN(1):
                return 'fails although parsing succeeded'
            return report_ok(q, [errv(t)], [])
    entry('knuffel::wrappers::parse_ast', ['file', 'text'], 'parse_ast succeeds exactly if the parser does and reports all its errors', j_ast, op)

    def j_ctx(q):
        t = parsed(q)
        if t is None:
            return 'does not parse exactly once'
        if q.facts[t] == IN(1):
            if q.kind != 'err':
                return 'succeeds although parsing failed'
            return report_ok(q, [errv(t)], [])
        cs = [c for c in q.calls() if c.a[1].split('<')[0] == dc]
        if len(cs) != 1:
            return 'the document is not decoded exactly once'
        nodes = mk('fld', okv(t), 'knuffel::ast::Document', 'Document', 'nodes')
        if cs[0].a[2] != (nodes, MUT):
            return 'decodes something else than the nodes of the document'
        d = mk('app', cs[0].a[1], cs[0].a[2])
        el = [x.a[0] for x in q.facts if x.op == 'len' and x.a[0].op == 'fld' and x.a[0].a[-1] == 'errors' and x.a[0].a[0].op == 'hv']
        if q.kind == 'ok':
            if q.facts.get(d) != IN(0) or q.val is not okv(d):
                return 'succeeds with something else than the decoded value'
            if len(el) != 1 or q.facts[mk('len', el[0])] != ('iv', ((0, 0),)) or not hv_ok(el[0], q):
                return 'succeeds without checking that no error was reported'
            return None
        failed = q.facts.get(d) == IN(1)
        if not failed and not any(q.facts[mk('len', x)] != ('iv', ((0, 0),)) for x in el):
            return 'fails although decoding succeeded without errors'
        els = [x for x in el] or [x for x in hv_errs(q)]
        if not els:
            return 'reported errors are not collected'
        return report_ok(q, els, [errv(d)] if failed else [])

    def hv_errs(q):
        s = set()
        for x in walk(q.val):
            if x.op == 'fld' and x.a[-1] == 'errors' and x.a[0].op == 'hv':
                s.add(x)
        return s

    def hv_ok(e, q):
        # the list is read from the context after both callbacks could write to it
        return any(n.split('<')[0] == dc for n in e.a[0].a[0])
    entry('knuffel::wrappers::parse_with_context', ['file', 'text', 'f'],
          'parse_with_context succeeds exactly if nothing failed and no error was reported, and else contains all errors', j_ctx, op)
    entry('knuffel::wrappers::parse', ['file', 'text'],
          'parse succeeds exactly if nothing failed and no error was reported, and else contains all errors', j_ctx, op)

    dn = TR + 'Decode::decode_node'

    def j_node(q):
        cs = [c for c in q.calls() if c.a[1].split('<')[0] == dn]
        if len(cs) != 1 or cs[0].a[2] != (sym('node'), MUT):
            return 'does not decode the node exactly once'
        d = mk('app', cs[0].a[1], cs[0].a[2])
        el = [x.a[0] for x in q.facts if x.op == 'len' and x.a[0].op == 'fld' and x.a[0].a[-1] == 'errors' and x.a[0].a[0].op == 'hv']
        if q.kind == 'ok':
            if q.facts.get(d) != IN(0) or q.val is not okv(d):
                return 'succeeds with something else than the decoded value'
            if len(el) != 1 or q.facts[mk('len', el[0])] != ('iv', ((0, 0),)):
                return 'succeeds without checking that no error was reported'
            return None
        failed = q.facts.get(d) == IN(1)
        if not failed and not any(q.facts[mk('len', x)] != ('iv', ((0, 0),)) for x in el):
            return 'fails although decoding succeeded without errors'
        al, on = parts(q.val)
        if failed and errv(d) not in on:
            return 'the returned error is lost'
        if not any(x.op == 'fld' and x.a[-1] == 'errors' for x in al) and \
                not any(q.facts[mk('len', x)] == ('iv', ((0, 0),)) for x in el):
            return 'reported errors are lost'
    entry('knuffel::decode::node', ['node'], 'decode::node succeeds exactly if nothing failed and no error was reported', j_node)

    r = 'the error of every decoding step is returned or reported'
    ck.rule(r)
    cut = opq(TR + 'DecodeScalar::decode', TR + 'Decode::decode_node', TR + 'DecodeSpan::decode_span',
              TR + 'DecodeScalar::raw_decode')
    for fn, ci in ctx_roots(p):
        argn = ['ctx' if i == ci else 'a%d' % i for i in range(fn.nargs)]
        try:
            ps = ck.paths(fn, argn, opaque=cut)
        except Unsupported as e:
            ck.undecided(r, fn.name, str(e))
            continue
        b = [(m, q) for q in ps for m in [swallowed(q)] if m]
        if b:
            ck.bad(r, fn.name, b[0][0] + ': ' + b[0][1].show())
        else:
            ck.good(r, fn.name, '%d paths' % len(ps))
