from props.common import *

FLOOR = 3
BYTES = 'knuffel::decode::bytes'


def b64_app(t):
    """(alphabet ok, padding required) if t decodes base64, with its input"""
    if t.op != 'app' or t.a[0] != 'base64_decode':
        return None
    return t.a[1]


STD = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def std_engine(p, eng):
    """the engine value decodes the standard alphabet with canonical padding"""
    if eng.op != 'adt':
        return None
    fs = adt_fields(p, eng)
    enc = fs.get('encode_table')
    dec = fs.get('decode_table')
    cfg = fs.get('config')
    if enc is None or dec is None or cfg is None:
        return None

    def arr(t):
        if t.op != 'seq':
            return None
        if not all(x.op == 'one' and x.a[0].op == 'k' for x in t.a):
            return None
        return [x.a[0].a[0] for x in t.a]
    d = arr(dec)
    if d is None or len(d) != 256:
        return None
    want = [255] * 256
    for i, c in enumerate(STD):
        want[c] = i
    if d != want:
        return False
    if cfg.op != 'adt':
        return None
    c = adt_fields(p, cfg)
    m = c.get('decode_padding_mode')
    tb = c.get('decode_allow_trailing_bits')
    if m is None or m.op != 'adt' or tb is None or tb.op != 'k':
        return None
    return m.a[2] == 'RequireCanonical' and not tb.a[0]


def rows(p, with_b64):
    v = sym('value')
    tn = mk('fld', v, VALUE, 'Value', 'type_name')
    sl = mk('fld', v, VALUE, 'Value', 'literal')
    lit = sv(sl)
    s = lit_field(lit, 'String')
    si = vidx(p, LIT, 'String')
    others = frozenset(range(len(p.adts[LIT]['v']))) - {si}
    inner = mk('fld', sv(somev(tn)), TN, 'TypeName', '0')
    bt = mk('fld', inner, TNI, 'Builtin', '0')
    bi, ci = vidx(p, TNI, 'Builtin'), vidx(p, TNI, 'Custom')
    b64 = vidx(p, BT, 'Base64')
    rest = frozenset(range(len(p.adts[BT]['v']))) - {b64}

    def raw(q):
        if q.kind == 'panic' or q.dirty or q.emits():
            return 'a plain string is not accepted'
        if q.val is not mk('utf8', s) and not empty_of(q, mk('utf8', s)):
            return 'does not yield the bytes of the string'

    def err(q):
        if q.kind == 'panic':
            return 'panics'
        if not q.emits():
            return 'accepted without an error'

    def b64row(q):
        if q.kind == 'panic':
            return 'panics'
        apps = [t for t in q.facts if t.op == 'app' and t.a[0] == 'base64_decode']
        if not with_b64:
            return err(q)
        if len(apps) != 1:
            return 'base64 text is not decoded exactly once'
        a = apps[0]
        eng, inp = a.a[1][0], a.a[1][1]
        if inp is not mk('utf8', s) and inp is not s:
            return 'decodes something else than the text'
        e = std_engine(p, eng)
        if e is False:
            return 'not the standard padded alphabet'
        if e is None:
            return 'unmodelled engine'
        if q.facts[a] == IN(0):
            if q.dirty or q.emits():
                return 'reports an error for valid base64'
            if q.val is not okv(a):
                return 'does not yield the decoded bytes'
        elif not q.emits():
            return 'malformed base64 is not reported'

    R = [([(tn, IN(0)), (lit, IN(si))], raw),
         ([(tn, IN(0)), (lit, ('in', others))], err),
         ([(tn, IN(1)), (inner, IN(ci))], err),
         ([(tn, IN(1)), (inner, IN(bi)), (bt, ('in', rest))], err),
         ([(tn, IN(1)), (inner, IN(bi)), (bt, IN(b64)), (lit, ('in', others))], err),
         ([(tn, IN(1)), (inner, IN(bi)), (bt, IN(b64)), (lit, IN(si))], b64row)]
    return R


def empty_of(q, seq):
    """the path yields the empty sequence where `seq` is empty"""
    if not (q.val.op == 'seq' and not q.val.a):
        return False
    return any(t.op in ('len', 'app') and seq in t.a + (t.a[1] if t.op == 'app' else ()) and d == ('iv', ((0, 0),)) for t, d in q.facts.items())


def run(ck):
    p = ck.prog = lib.library()
    r = 'decoding table of byte values (annotation x literal kind), with base64 support'
    ck.rule(r)
    fn = ck.fn(BYTES)
    for i, row in enumerate(rows(p, True)):
        ck.table(r + ' [case %d]' % i, fn, ['value', 'ctx'], [row])
    q = lib.variant(['derive', 'line-numbers'])
    r = 'decoding table of byte values, without base64 support'
    ck.rule(r)
    fn = ck.fn(BYTES, q)
    for i, row in enumerate(rows(q, False)):
        ck.table(r + ' [case %d]' % i, fn, ['value', 'ctx'], [row], prog=q)
