"""KDL 1.0 as an annotated grammar: the reference the library's grammar is
compared with.  Written from the specification; characters carry the place of
the syntax tree they belong to, events mark where spans begin and end."""
from terms import *
from peg import ALL, EOI, EOI as END, iv_of_chars, MAXHASH
from interp import iv_and, iv_not, iv_or

SPACE = iv_or(iv_of_chars('\t \u00a0\u1680\u202f\u205f\u3000\ufeff'), ((0x2000, 0x200A),))
NL1 = iv_of_chars('\r\n\x0c\u0085\u2028\u2029')
PUNCT = iv_of_chars('\\/(){}<>;[]=,"')
DIGIT = iv_of_chars('0123456789')
SIGN = iv_of_chars('+-')
IDCHAR = iv_and(ALL, iv_not(iv_or(iv_or(SPACE, NL1), iv_or(PUNCT, ((0, 0x20),)))))
HEX = iv_of_chars('0123456789abcdefABCDEF')


TAGS = []           # None: no tags; else the contexts characters are in
ON = [False]


class tag:
    """marks the characters built inside with a context (for reports only)"""

    def __init__(self, t, on=True):
        self.t = t if on else None

    def __enter__(self):
        TAGS.append(self.t)

    def __exit__(self, *a):
        TAGS.pop()


def c(iv, *acts, site=0):
    if isinstance(iv, str):
        iv = iv_of_chars(iv)
    if ON[0]:
        acts = acts + tuple({'~' + t for t in TAGS if t})
    return (mk('C', tuple(iv), site, tuple(sorted(acts))),)


def lit(s, *acts):
    r = ()
    for x in s:
        r += c(x, *acts)
    return r


def alt(*es):
    return (mk('Alt', 0, tuple(es)),)


def opt(e):
    return alt(e, ())


def rep(e, lo=0, hi=None):
    return (mk('Rep', 0, e, lo, hi, False),)


def no(e):
    return (mk('Not', 'any', e),)


def ev(s):
    return (mk('Ev', s),)


def span(label, skel, e):
    if label is None:
        return e
    return ev('<%s %s' % (label, skel)) + e + ev('>' + label)


def act(label):
    return () if label is None else (label + '$',)


def newline():
    with tag('nl'):
        return alt(lit('\r\n'), c('\r') + no(c('\n')), c(iv_and(NL1, iv_not(iv_of_chars('\r')))))


def line_comment():
    with tag('com'):
        return lit('//') + rep(no(newline()) + c(ALL)) + alt(newline(), (EOI,))


def block_comment(inner):
    """body of a block comment; inner: what a nested one is"""
    with tag('com'):
        plain = no(inner) + no(lit('*/')) + c(ALL)
        return lit('/*') + rep(alt(inner, plain)) + lit('*/')


def M():
    return (mk('L', 'M', 0, ()),)


def ws():
    with tag('ws'):
        return alt(c(SPACE), block_comment(M()))


def escline():
    with tag('esc'):
        return lit('\\') + rep(ws()) + alt(line_comment(), newline())


def node_space():
    return alt(ws(), escline())


def line_space():
    return alt(newline(), ws(), line_comment())


def escape(l):
    a = lambda how: () if l is None else (l + '$' + how,)
    s = 1
    return c('\\') + alt(
        c('"\\/', *a('')), c('b', *a('=8')), c('f', *a('=12')), c('n', *a('=10')), c('r', *a('=13')), c('t', *a('=9')),
        lit('u{') + (mk('Mon', mk('dfa', 'num', 16, ALL), (s,), (mk('Rep', 0, c(HEX, *a('#16'), site=s), 1, 6, False),)),) + lit('}'))


def string(l):
    with tag('str'):
        plain = c(iv_and(ALL, iv_not(iv_of_chars('"\\'))), *act(l))
        al = [c('"') + rep(alt(plain, escape(l))) + c('"')]
        for n in range(MAXHASH + 1):
            close = lit('"' + '#' * n)
            al.append(lit('r' + '#' * n + '"') + rep(no(close) + c(ALL, *act(l))) + close)
        return alt(*al)


KEYWORDS = [('null', 'Literal::Null'), ('true', 'Literal::Bool(true)'), ('false', 'Literal::Bool(false)')]


def bare(l):
    with tag('id'):
        a = act(l)
        kw = alt(*[lit(w) for w, _ in KEYWORDS])
        first = iv_and(IDCHAR, iv_not(iv_or(DIGIT, SIGN)))
        nodig = iv_and(IDCHAR, iv_not(DIGIT))
        ident = alt(c(first, *a) + rep(c(IDCHAR, *a)), c(SIGN, *a) + opt(c(nodig, *a) + rep(c(IDCHAR, *a))))
        return no(kw + no(c(IDCHAR))) + ident + no(c(IDCHAR))


def ident(l):
    return alt(string(l), bare(l))


def integer(a, digits):
    return c(digits, *a) + rep(alt(c(digits, *a), c('_')))


def literal(l):
    """a literal with its span, by kind"""
    a = act(l)
    sp = lambda skel, e: span(l, skel, e)
    with tag('num'):
        sign = opt(c(SIGN, *a))
    al = [sp('Literal::String($)', string(l))]
    for w, sk in KEYWORDS:
        with tag('kw'):
            al.append(sp(sk, lit(w)))
    TAGS.append('num')
    frac = c('.', *a) + integer(a, DIGIT)
    exp = c('eE', *a) + sign + integer(a, DIGIT)
    dec = sign + integer(a, DIGIT)
    al.append(sp('Literal::Int(Integer(Radix::Dec,$))', dec))
    al.append(sp('Literal::Decimal(Decimal($))', dec + alt(frac, exp, frac + exp)))
    for ch, r, ds in (('b', 'Bin', '01'), ('o', 'Oct', '01234567'), ('x', 'Hex', HEX)):
        al.append(sp('Literal::Int(Integer(Radix::%s,$))' % r, sign + lit('0' + ch) + integer(a, ds)))
    TAGS.pop()
    return alt(*al)


def sub(l, f):
    return None if l is None else l + f


def type_(l):
    return span(l, 'from_string($)', c('(') + ident(l) + c(')'))


def value(l):
    return opt(type_(sub(l, '.type_name'))) + literal(sub(l, '.literal'))


def entry(l):
    """property or argument"""
    with tag('drop', l is None):
        p = sub(l, '.properties[]')
        k = sub(p, '.0')
        prop = span(k, '$', ident(k)) + c('=') + value(sub(p, '.1'))
        return alt(prop, value(sub(l, '.arguments[]')))


def children(l):
    with tag('drop', l is None):
        return span(l, '', c('{') + (mk('L', 'N', 0, () if l is None else (l,)),) + c('}'))


def terminator():
    return alt(line_comment(), newline(), c(';'), (EOI,))


def node(l):
    with tag('drop', l is None):
        sp = rep(node_space())
        with tag('sd'):
            sd = lit('/-') + rep(node_space())
        one = alt(entry(l), sd + entry(None))
        blk = alt(children(sub(l, '.children')), sd + children(None))
        return span(l, '', opt(type_(sub(l, '.type_name'))) + span(sub(l, '.node_name'), '$', ident(sub(l, '.node_name'))) +
                    rep(rep(node_space(), 1) + one) + opt(sp + blk) + sp + terminator())


def nodes(l):
    with tag('sd'):
        sd = lit('/-') + rep(node_space())
    n = alt(node(l + '[]'), sd + node(None))
    return rep(line_space()) + rep(n + rep(line_space()))


def document(l):
    return nodes(l) + (END,)


def tagged(f, *a):
    ON[0] = True
    try:
        return f(*a)
    finally:
        ON[0] = False
