"""one run of the derive engine, seen from one property"""
import derive
import fixtures
import lib
from spec import Missing

RULES = {
    'C21': 'every clean path of a derived decoder gives the argument fields exactly the arguments at their positions, and rejects the node only for a missing, extra or undecodable argument',
    'C22': 'every clean path of a derived decoder gives each property to the field of its name, the others to the catch-all, and rejects the node only for a missing, unknown or undecodable property',
    'C23': 'every clean path of a derived decoder routes each child node to the one field of its name, and rejects only a missing, repeated, unknown or undecodable child',
    'C24': 'flattened fields are offered exactly the items not declared before them, every answer is respected, and partial decoding stores what direct decoding stores',
    'C25': 'an unwrapped child is decoded exactly like a struct with the single inner field',
    'C26': 'an enum decodes exactly the kebab-case names of its variants, each by the rules of its form',
    'C27': 'span, node-name and type-name fields receive the position and names of the node; a type name nobody asked for is rejected',
    'C28': 'a default applies on exactly the paths on which the item is absent; null of an optional scalar is absence',
    'C30': 'a scalar enum decodes exactly the strings that are the kebab-case names of its variants',
    'C11': 'every error a derived decoder reports points at the element it is about and names what was expected',
    'C29': 'a derived struct implements DecodeChildren and DecodePartial exactly when its fields allow it',
}


def check(ck, prop):
    p, rejected = lib.fixtures()
    keep = ck.prog
    ck.prog = p
    rule = RULES[prop]
    ck.rule(rule)
    found = {}     # (fixture, function) -> [messages]
    open_ = {}
    done = set()
    for fx in fixtures.OUT:
        if fx.id in rejected and (prop == 'C29' or prop in fx.topics):
            ck.bad(rule, fx.id, 'the supported definition\n%s\ndoes not compile: %s' % (fx.rust(), rejected[fx.id]))

    def site(fx, fn):
        return '%s::%s' % (fx.id, fn.name.split('>::')[-1] if fn is not None else '?')

    def report(pr, fx, fn, msg, q):
        k = (fx.id, site(fx, fn))
        if pr is None:
            open_.setdefault(k, []).append(msg)
        elif pr == prop or (prop in fx.topics and pr not in ('C11', 'C29')):
            found.setdefault(k, []).append(msg)

    D = derive.Derive(ck, p)
    D.visited = done
    D.run(report, lambda fx: fx.id not in rejected)
    flag = fixtures.Fx('check_flag_node', 'struct', topics=('C23',))
    if prop in ('C23', 'C11'):
        D.flag_node(lambda pr, fn, msg, q: report(pr, flag, fn, msg, q))
    topics = {f.id: f for f in fixtures.OUT}
    topics[flag.id] = flag
    for fid, s in sorted(done | set(found) | set(open_)):
        fx = topics[fid]
        ms, us = found.get((fid, s)), open_.get((fid, s))
        if ms:
            ck.bad(rule, s, '%s\nin the decoder derived for\n%s' % ('\n'.join(sorted(set(ms))[:6]), fx.rust() if fid != flag.id else 'flags'))
        elif us and (prop in fx.topics or prop in ('C11', 'C29')):
            ck.undecided(rule, s, '; '.join(sorted(set(us))[:3]))
        elif prop in fx.topics or prop in ('C11', 'C29'):
            ck.good(rule, s)
    ck.extra['definitions'] = len(fixtures.OUT) - len(rejected)
    ck.prog = keep
