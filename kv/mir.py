"""Loading of the type-checked program (MIR as JSON) and its CFG facts."""
import json
import re
import sys

sys.setrecursionlimit(20000)


class Fn:
    __slots__ = ('key', 'd', 'name', 'raw', 'body', 'blocks', 'nargs', 'locals',
                 'loops', 'livein', 'preds', 'names', 'kind')

    def __init__(self, key, d):
        self.key = key
        self.d = d
        self.name = d['name']
        self.raw = d.get('raw', key)
        self.kind = d['kind']
        self.body = d.get('body')
        self.loops = None
        self.livein = None
        if self.body:
            self.blocks = self.body['blocks']
            self.nargs = self.body['args']
            self.locals = self.body['locals']


def succs(t):
    o = t[0]
    if o == 'goto':
        return [t[1]]
    if o == 'sw':
        return [b for _, b in t[2]] + [t[3]]
    if o == 'call':
        return [t[4]] if t[4] is not None else []
    if o == 'assert':
        return [t[4]]
    return []


def place_local(p):
    return p if isinstance(p, int) else p[0]


def analyse(fn):
    """natural loops and live locals at block entry"""
    n = len(fn.blocks)
    su = [succs(b['t']) for b in fn.blocks]
    preds = [[] for _ in range(n)]
    # reachable in order
    order = []
    seen = [False] * n
    stack = [(0, iter(su[0]))]
    seen[0] = True
    while stack:
        b, it = stack[-1]
        for s in it:
            if not seen[s]:
                seen[s] = True
                stack.append((s, iter(su[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    for b in order:
        for s in su[b]:
            preds[s].append(b)
    # dominators
    dom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in order:
            if b == 0:
                continue
            nd = None
            for p in preds[b]:
                if p in dom:
                    if nd is None:
                        nd = p
                    else:
                        x, y = p, nd
                        while x != y:
                            while idx[x] > idx[y]:
                                x = dom[x]
                            while idx[y] > idx[x]:
                                y = dom[y]
                        nd = x
            if nd is not None and dom.get(b) != nd:
                dom[b] = nd
                changed = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = dom[b]
    loops = {}
    for b in order:
        for s in su[b]:
            if dominates(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(preds[x])
    fn.loops = loops
    fn.preds = preds
    # liveness
    use = [set() for _ in range(n)]
    de = [set() for _ in range(n)]

    def uop(o, u, d):
        if o[0] in ('cp', 'mv'):
            upl(o[1], u, d)

    def upl(p, u, d):
        l = place_local(p)
        if l not in d:
            u.add(l)
        if not isinstance(p, int):
            for e in p[1]:
                if e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

    def urv(r, u, d):
        k = r[0]
        if k in ('use', 'rep'):
            uop(r[1], u, d)
        elif k == 'ref':
            upl(r[2], u, d)
        elif k == 'cast':
            uop(r[2], u, d)
        elif k == 'bin':
            uop(r[2], u, d)
            uop(r[3], u, d)
        elif k == 'un':
            uop(r[2], u, d)
        elif k == 'discr':
            upl(r[1], u, d)
        elif k == 'agg':
            for o in r[2]:
                uop(o, u, d)

    for b in order:
        u, d = use[b], de[b]
        for s in fn.blocks[b]['s']:
            if s[0] == '=':
                urv(s[2], u, d)
                if isinstance(s[1], int):
                    if s[1] not in u:
                        d.add(s[1])
                else:
                    upl(s[1], u, d)
            elif s[0] == 'setd':
                upl(s[1], u, d)
        t = fn.blocks[b]['t']
        if t[0] == 'sw':
            uop(t[1], u, d)
        elif t[0] == 'call':
            if t[1]['c'] == 'dynfn':
                uop(t[1]['v'], u, d)
            for o in t[2]:
                uop(o, u, d)
            if isinstance(t[3], int):
                if t[3] not in u:
                    d.add(t[3])
            else:
                upl(t[3], u, d)
        elif t[0] == 'assert':
            uop(t[1], u, d)
            for x in t[3][1:]:
                if isinstance(x, list):
                    uop(x, u, d)
        elif t[0] == 'ret':
            if 0 not in d:
                u.add(0)
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for b in reversed(order):
            out = set()
            for s in su[b]:
                out |= live[s]
            li = use[b] | (out - de[b])
            if li != live[b]:
                live[b] = li
                changed = True
    fn.livein = live


class Program:
    def __init__(self, path):
        txt = open(path).read()
        # items re-exported from the crate root are named by their home module
        txt = re.sub(r'\bknuffel::(Decode|DecodeScalar|DecodeChildren)\b', r'knuffel::traits::\1', txt)
        txt = re.sub(r'\bknuffel::Error\b', 'knuffel::errors::Error', txt)
        d = json.loads(txt)
        self.crate = d['crate']
        self.types = d['types']
        self.adts = d['adts']
        self.roots = d['roots']
        self.funcs = {k: Fn(k, f) for k, f in d['funcs'].items()}
        self.by_name = {}
        for k, f in self.funcs.items():
            self.by_name.setdefault(f.name, []).append(f)
        self.rootset = set(self.roots)

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]['s']

    def root(self, name):
        """the generic (root) instance of a named function"""
        r = [f for f in self.by_name.get(name, []) if f.key in self.rootset]
        return r

    def variants(self, path):
        a = self.adts.get(path)
        return a['v'] if a else None

    def fnames(self, path, vi):
        return [f['n'] for f in self.adts[path]['v'][vi]['f']]
