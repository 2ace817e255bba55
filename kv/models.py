"""Models of library functions on the abstract domain."""
from terms import *

RET, PANIC = 'ret', 'panic'


def R(st, v):
    return [(st, RET, v)]


STR_LIKE = (
    'str', 'std::string::String', 'std::boxed::Box<str>', '&str', '&std::string::String', 'std::sync::Arc<str>',
    'std::rc::Rc<str>', 'std::borrow::Cow<str>', 'std::path::PathBuf', 'std::path::Path', '&std::path::Path',
    'std::sync::Arc<std::path::Path>', 'std::ffi::OsString', 'std::ffi::OsStr', '&std::ffi::OsStr',
    'std::boxed::Box<std::path::Path>', '&std::boxed::Box<str>', 'char', '&mut str',
    'std::borrow::Cow<std::path::Path>', '&std::path::PathBuf', '&&str',
)


def clean(s):
    """type string without lifetimes"""
    import re
    s = re.sub(r"&'[a-z_{}]+ ", '&', s)
    s = re.sub(r"<'[a-z_{}]+, ", '<', s)
    s = re.sub(r"<'[a-z_{}]+>", '', s)
    s = s.replace("'{erased} ", '').replace("'static ", '')
    return s


class Models:
    def __init__(self, it):
        self.it = it
        self.p = it.p
        self.tab = {}
        self.traits = {}
        for n in dir(self):
            f = getattr(self, n)
            for nm in getattr(f, 'names', ()) if callable(f) else ():
                if nm.startswith('@'):
                    self.traits[nm[1:]] = f
                else:
                    self.tab[nm] = f
        self.local_models = {}

    def local(self, cal):
        return self.local_models.get(cal.get('name'))

    def call(self, st, cal, args, site, dty):
        name = cal.get('name')
        f = self.tab.get(name) if name else None
        if f is None:
            f = self.tab.get(cal['decl'])
        if f is None and 'trait' in cal:
            f = self.traits.get(cal['trait'] + '::' + cal['m'])
        if f is None:
            n = name or cal['decl']
            if n.startswith('chumsky::') or cal.get('trait') == 'chumsky::Parser' or \
                    (cal.get('raw') or '').startswith('chumsky::'):
                return self.chumsky(st, cal, args, site, dty)
            b = n.rsplit('::', 1)
            f = self.prefix.get(b[0])
            if f is not None:
                r = getattr(self, f)(st, cal, args, site, dty, b[1])
                return r
            return None
        return f(st, cal, args, site, dty)

    prefix = {}

    # ---- helpers ----
    def selfty(self, cal):
        return clean(self.p.tys(cal['self'])) if 'self' in cal else ''

    def targ(self, cal, i):
        return clean(self.p.tys(cal['targs'][i]))

    def content(self, st, v):
        """value behind any number of pointers"""
        n = 0
        while v.op in ('vref', 'ref') and n < 6:
            v = self.it.load(st, v)
            n += 1
        return v


def names(*ns):
    def d(f):
        f.names = ns
        return f
    return d


def method(*ns):
    def d(f):
        f.names = ns
        setattr(Models, 'm_%d' % len(dir(Models)), f)
        return f
    return d


# ---------- panics ----------
@method('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_nounwind',
        'core::panicking::panic_display', 'core::panicking::panic_explicit', 'core::panicking::unreachable_display',
        'std::rt::begin_panic', 'std::rt::panic_fmt', 'std::option::expect_failed', 'std::option::unwrap_failed',
        'std::result::unwrap_failed', 'core::option::expect_failed', 'core::option::unwrap_failed',
        'core::result::unwrap_failed', 'core::panicking::assert_failed', 'core::panicking::panic_const::panic_const_div_by_zero',
        'core::panicking::panic_bounds_check', 'std::process::abort', 'std::process::exit', 'core::panicking::panic_str_2015',
        'std::slice::index::slice_index_fail', 'core::panicking::panic_in_cleanup',
        'core::panicking::assert_failed_inner')
def _panic(s, st, cal, args, site, dty):
    return [(st, PANIC, mk('panic', cal.get('name') or cal['decl'], '', site))]


# ---------- identity-like ----------
@method('@std::clone::Clone::clone', '@std::borrow::ToOwned::to_owned', '[T]::to_vec', 'str::to_owned',
        '[T]::into_vec', 'str::into_string', 'str::into_boxed_bytes', 'str::to_string')
def _clone(s, st, cal, args, site, dty):
    return R(st, s.it.load(st, args[0]) if args[0].op in ('vref', 'ref') or cal.get('m') in ('clone', 'to_owned')
             else args[0])


@method('std::boxed::Box::new', 'std::sync::Arc::new', 'std::rc::Rc::new', 'std::hint::must_use',
        'std::boxed::box_assume_init_into_vec_unsafe', 'std::string::String::into_boxed_str', 'std::vec::Vec::into_boxed_slice',
        'std::convert::identity', 'std::boxed::Box::pin', 'std::boxed::Box::into_inner', 'std::string::String::into_bytes',
        'std::mem::ManuallyDrop::new', 'std::hint::black_box', 'std::convert::From::from@id', 'std::pin::Pin::new',
        'std::slice::Iter::as_slice@', 'std::array::IntoIter::as_slice@', 'std::path::PathBuf::into_boxed_path',
        'std::path::PathBuf::into_os_string', 'std::iter::Iterator::by_ref', 'std::option::Option::as_deref_mut@')
def _id(s, st, cal, args, site, dty):
    return R(st, args[0])


@method('std::boxed::Box::new_uninit', 'std::mem::MaybeUninit::uninit')
def _uninit(s, st, cal, args, site, dty):
    return R(st, UNINIT)


@method('std::sync::Arc::unwrap_or_clone', 'std::rc::Rc::unwrap_or_clone')
def _uoc(s, st, cal, args, site, dty):
    return R(st, args[0])


@method('@std::ops::Deref::deref', '@std::convert::AsRef::as_ref', '@std::borrow::Borrow::borrow',
        'std::string::String::as_str', 'std::vec::Vec::as_slice', 'std::boxed::Box::as_ref', 'str::as_bytes@',
        'std::path::Path::new', 'std::path::PathBuf::as_path', '[T; N]::as_slice', '[T]::as_slice', 'std::path::Path::as_os_str',
        'std::convert::AsRef::as_ref@', 'core::array::as_slice', 'str::as_str', '[T; N]::each_ref@')
def _deref(s, st, cal, args, site, dty):
    if cal.get('kind') == 'unresolved':
        if cal.get('m') == 'borrow' and s.targ(cal, 0) == s.targ(cal, 1):
            pass
        else:
            return None
    a = args[0]
    v = s.it.load(st, a) if a.op == 'ref' else (a.a[0] if a.op == 'vref' else None)
    if v is None:
        return R(st, a)
    # pointers inside pointers stay pointers
    if v.op in ('vref', 'ref'):
        return R(st, v)
    return R(st, s.it.mkvref(v))


@method('@std::ops::DerefMut::deref_mut', '@std::convert::AsMut::as_mut', '@std::borrow::BorrowMut::borrow_mut',
        'std::vec::Vec::as_mut_slice', 'std::string::String::as_mut_str')
def _derefmut(s, st, cal, args, site, dty):
    if cal.get('kind') == 'unresolved':
        return None
    return R(st, args[0])


@method('str::as_bytes', 'std::string::String::as_bytes', 'str::as_bytes_mut')
def _as_bytes(s, st, cal, args, site, dty):
    return R(st, vref(s.bytes_of(s.content(st, args[0]))))


def bytes_of(self, v):
    if v.op == 'str':
        return mk('bytes', tuple(v.a[0].encode()))
    return mk('utf8', v)


Models.bytes_of = bytes_of


def base(t):
    i = t.find('<')
    return t if i < 0 else t[:i]


def strip_refs(t):
    while t.startswith('&'):
        t = t[1:]
        if t.startswith('mut '):
            t = t[4:]
    return t


def is_strlike(t):
    return t in STR_LIKE or strip_refs(t) in STR_LIKE


SEQ_BASE = ('std::vec::Vec', 'std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc')


def is_seqlike(t):
    t = strip_refs(t)
    return t.startswith('[') or base(t) == 'std::vec::Vec' or (base(t) in SEQ_BASE and '<[' in t)


@method('@std::convert::From::from')
def _from(s, st, cal, args, site, dty):
    to = s.targ(cal, 0)
    fr = s.targ(cal, 1)
    a = args[0]
    if to == fr:
        return R(st, a)
    if is_strlike(to) and is_strlike(fr):
        v = s.content(st, a)
        if fr == 'char':
            v = of_chars(seqof([v]))
        if to.startswith('&'):
            return R(st, vref(v))
        return R(st, v)
    if is_seqlike(to) and (is_seqlike(fr)):
        return R(st, s.content(st, a))
    if base(to) == 'std::vec::Vec' and is_strlike(fr):
        return R(st, s.bytes_of(s.content(st, a)))
    if base(to) in ('std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc'):
        inner = to[to.index('<') + 1:-1]
        if 'dyn ' in inner:
            v = s.content(st, a) if is_strlike(fr) else a
            return R(st, v)
        if inner == fr:
            return R(st, a)
        return None
    if base(to) == OPTION:
        return R(st, some(a))
    ints = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')
    if to in ints and fr in ints + ('char', 'bool'):
        return R(st, k(a.a[0]) if a.op == 'k' else a)
    if to == 'char' and fr == 'u8':
        return R(st, k(a.a[0], 'char') if a.op == 'k' else a)
    if to == 'miette::Report':
        return R(st, mk('app', 'Report', (a,)))
    if to in ('miette::SourceSpan', 'miette::SourceOffset'):
        if a.op == 'tup':
            return R(st, mk('app', to, tuple(a.a)))
        return R(st, mk('app', to, (a,)))
    if base(to) in MAPS and is_seqlike(fr):
        return R(st, mk('map', s.content(st, a)))
    if base(to) in SETS and is_seqlike(fr):
        return R(st, mk('set', s.content(st, a)))
    if cal.get('kind') == 'unresolved':
        return None
    return None


@method('@std::convert::Into::into')
def _into(s, st, cal, args, site, dty):
    if cal.get('kind') == 'unresolved':
        return R(st, mk('app', 'into:' + s.targ(cal, 1), (args[0],)))
    if s.targ(cal, 0) == s.targ(cal, 1):
        return R(st, args[0])
    return None


@method('@std::convert::TryFrom::try_from', '@std::convert::TryInto::try_into')
def _tryfrom(s, st, cal, args, site, dty):
    if cal.get('m') == 'try_into' and 'key' in cal:
        return None
    if cal.get('kind') == 'unresolved':
        return None
    v = s.content(st, args[0])
    return R(st, mk('app', 'try_from:' + s.targ(cal, 0), (v,)))


@method('@std::str::FromStr::from_str')
def _fromstr(s, st, cal, args, site, dty):
    v = s.content(st, args[0])
    t = s.selfty(cal)
    if is_strlike(t):
        return R(st, ok(v))
    nm = 'from_str:' + t
    st.ev('call', nm, (v,), site)
    return R(st, mk('app', nm, (v,)))


@method('str::parse')
def _parse(s, st, cal, args, site, dty):
    v = s.content(st, args[0])
    t = s.targ(cal, 0)
    if is_strlike(t):
        return R(st, ok(v))
    if t.startswith('knuffel::'):
        # the library's own types: what their FromStr does
        fs = [f for f in s.it.p.funcs.values() if f.body is not None and f.name == '<%s as std::str::FromStr>::from_str' % t]
        if len(fs) == 1 and not s.it.opaque({'name': fs[0].name, 'decl': 'std::str::FromStr::from_str', 'key': fs[0].key}):
            return s.it.call_fn(fs[0], [args[0]], st, site, cal)
    nm = 'from_str:' + t
    st.ev('call', nm, (v,), site)
    return R(st, mk('app', nm, (v,)))


def from_str_radix(s, st, cal, args, site, dty):
    v = s.content(st, args[0])
    n = cal.get('name')
    t = n.split('::')[0]
    r = args[1]
    if r.op == 'k' and r.a[0] == 10:
        return R(st, mk('app', 'from_str:' + t, (v,)))
    return R(st, mk('app', 'from_str_radix:' + t, (v, r)))


method(*[t + '::from_str_radix' for t in
         'u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize'.split()])(from_str_radix)


@method('@std::string::ToString::to_string')
def _to_string(s, st, cal, args, site, dty):
    t = s.selfty(cal)
    v = s.content(st, args[0])
    if is_strlike(t):
        if t == 'char':
            return R(st, of_chars(seqof([v])))
        return R(st, v)
    return R(st, mk('app', 'to_string', (v,)))


@method('@std::default::Default::default', 'std::default::default')
def _default(s, st, cal, args, site, dty):
    t = s.targ(cal, 0)
    v = s.default_of(t)
    if v is None:
        return R(st, mk('app', 'default:' + t, ()))
    return R(st, v)


def default_of(self, t):
    b = base(t)
    if is_strlike(t) and t != 'char':
        return string('')
    if b == 'std::vec::Vec' or t.startswith('['):
        return EMPTY
    if b == OPTION:
        return NONE
    if t == 'bool':
        return FALSE
    if t == 'char':
        return k(0, 'char')
    if t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
        return k(0)
    if t in ('f32', 'f64'):
        return k(0, 'float')
    if b in MAPS:
        return mk('map', EMPTY)
    if b in SETS:
        return mk('set', EMPTY)
    if t == '()':
        return UNIT
    if b in ('std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc'):
        return self.default_of(t[t.index('<') + 1:-1])
    return None


Models.default_of = default_of

MAPS = ('std::collections::BTreeMap', 'std::collections::HashMap')
SETS = ('std::collections::BTreeSet', 'std::collections::HashSet')


# ---------- mem ----------
@method('std::mem::take', 'std::option::Option::take')
def _take(s, st, cal, args, site, dty):
    old = s.it.load(st, args[0])
    if cal.get('name') == 'std::option::Option::take':
        v = NONE
    else:
        t = s.targ(cal, 0)
        v = s.default_of(t)
        if v is None:
            v = mk('app', 'default:' + t, ())
    s.it.store(st, args[0], v)
    return R(st, old)


@method('std::mem::replace')
def _replace(s, st, cal, args, site, dty):
    old = s.it.load(st, args[0])
    s.it.store(st, args[0], args[1])
    return R(st, old)


@method('std::option::Option::replace')
def _oreplace(s, st, cal, args, site, dty):
    old = s.it.load(st, args[0])
    s.it.store(st, args[0], some(args[1]))
    return R(st, old)


@method('std::option::Option::insert')
def _oinsert(s, st, cal, args, site, dty):
    s.it.store(st, args[0], some(args[1]))
    b, p = s.it.deref(st, args[0])
    return R(st, mk('ref', b[1], p + (('f', 1, 0, '0', OPTION, 'Some'),)))


@method('std::option::Option::as_mut')
def _oasmut(s, st, cal, args, site, dty):
    v = s.it.load(st, args[0])
    out = []
    for x in s.it.assume_variant(st.fork(), v, OPTION, [0]):
        out.append((x, RET, NONE))
    for x in s.it.assume_variant(st, v, OPTION, [1]):
        b, p = s.it.deref(x, args[0])
        out.append((x, RET, some(mk('ref', b[1], p + (('f', 1, 0, '0', OPTION, 'Some'),)))))
    return out


@method('std::mem::swap')
def _swap(s, st, cal, args, site, dty):
    a, b = s.it.load(st, args[0]), s.it.load(st, args[1])
    s.it.store(st, args[0], b)
    s.it.store(st, args[1], a)
    return R(st, UNIT)


@method('std::mem::drop', 'std::mem::forget', 'std::vec::Vec::reserve', 'std::string::String::reserve',
        'std::vec::Vec::shrink_to_fit', 'std::string::String::shrink_to_fit', 'std::ptr::drop_in_place')
def _nop(s, st, cal, args, site, dty):
    return R(st, UNIT)


@method('std::intrinsics::discriminant_value', 'std::mem::discriminant')
def _discr(s, st, cal, args, site, dty):
    v = s.it.load(st, args[0])
    ty = s.p.ty(cal['targs'][0])
    if ty['k'] != 'adt':
        return None
    d = s.it.discr(st, v, ty)
    return R(st, d)


# ---------- comparison ----------
def eq_term(self, st, a, b):
    a, b = self.content(st, a), self.content(st, b)
    if a is b:
        return TRUE
    if a.op == 'k' and b.op == 'k':
        return boolc(a.a[0] == b.a[0])
    if a.op == 'str' and b.op == 'str':
        return boolc(a.a[0] == b.a[0])
    if a.op == 'str':
        a, b = b, a
    if b.op == 'str':
        f = st.facts.get(a)
        if f is None:
            from interp import past_fact
            f = past_fact(a)
        if f and f[0] == 'in' and b.a[0] not in f[1]:
            return FALSE
        if f and f[0] == 'in' and f[1] == frozenset([b.a[0]]):
            return TRUE
        if f and f[0] == 'out' and b.a[0] in f[1]:
            return FALSE
        return mk('eqs', a, b)
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[3], b.a[3]):
            e = self.eq_term(st, x, y)
            if e is FALSE:
                return FALSE
            if e is not TRUE:
                r = e if r is TRUE else mk('and', r, e)
        return r
    if a.op == 'k' or b.op == 'k':
        return self.it.binop(st, 'Eq', a, b, None)
    if a.id > b.id:
        a, b = b, a
    return mk('cmp', 'Eq', a, b, None)


Models.eq_term = eq_term


@method('@std::cmp::PartialEq::eq', '@std::cmp::PartialEq::ne')
def _eq(s, st, cal, args, site, dty):
    t = s.selfty(cal)
    t2 = s.targ(cal, 1)
    m = cal['m']
    if cal.get('kind') == 'unresolved':
        a, b = s.content(st, args[0]), s.content(st, args[1])
        if a.id > b.id:
            a, b = b, a
        r = mk('app', 'eq:' + t, (a, b))
    elif is_strlike(t) or t in PRIMS or strip_refs(t) in PRIMS or is_prim_container(t):
        r = s.eq_term(st, args[0], args[1])
    elif 'key' in cal:
        return None
    elif cal.get('name') in ('std::cmp::PartialEq::ne',) or m == 'ne':
        # default ne: negation of the eq of the same type
        for f in s.p.by_name.values():
            for fn in f:
                if fn.d.get('trait') == 'std::cmp::PartialEq' and fn.d.get('m') == 'eq' and \
                        fn.d.get('self') is not None and clean(s.p.tys(fn.d['self'])) == strip_refs(t) and fn.body:
                    rs = s.it.call_fn(fn, [deref1(s, st, x, t) for x in args], st, site)
                    return [(x, kd, s.it.tnot(v) if kd == RET else v) for x, kd, v in rs]
        return None
    else:
        r = s.eq_term(st, args[0], args[1])
    if m == 'ne':
        r = s.it.tnot(r)
    return R(st, r)


def deref1(s, st, x, t):
    while t.startswith('&'):
        t = t[1:]
        x = s.it.load(st, x)
    return x


PRIMS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'bool', 'char', 'f32', 'f64', '()')


def is_prim_container(t):
    t = strip_refs(t)
    for b in ('std::option::Option', 'std::vec::Vec', 'std::boxed::Box'):
        if t.startswith(b + '<'):
            inner = t[len(b) + 1:-1]
            return is_strlike(inner) or inner in PRIMS or is_prim_container(inner)
    if t.startswith('['):
        inner = t[1:-1].split(';')[0]
        return is_strlike(inner) or inner in PRIMS
    return False


@method('@std::cmp::PartialOrd::lt', '@std::cmp::PartialOrd::le', '@std::cmp::PartialOrd::gt', '@std::cmp::PartialOrd::ge')
def _ord(s, st, cal, args, site, dty):
    t = s.selfty(cal)
    if strip_refs(t) in PRIMS:
        op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[cal['m']]
        tyi = cal['self']
        while s.p.ty(tyi)['k'] == 'ref':
            tyi = s.p.ty(tyi)['e']
        return R(st, s.it.binop(st, op, s.content(st, args[0]), s.content(st, args[1]), tyi))
    return None


@method('@std::cmp::Ord::cmp', '@std::cmp::PartialOrd::partial_cmp', '@std::cmp::Ord::max', '@std::cmp::Ord::min',
        '@std::cmp::Ord::clamp')
def _cmp(s, st, cal, args, site, dty):
    if 'key' in cal and s.it.is_local(cal):
        return None
    a = tuple(s.content(st, x) for x in args)
    m = cal['m']
    if m in ('max', 'min') and all(x.op == 'k' for x in a):
        return R(st, k((max if m == 'max' else min)(a[0].a[0], a[1].a[0])))
    return R(st, mk('app', m + ':' + strip_refs(s.selfty(cal)), a))


@method('@std::hash::Hash::hash')
def _hash(s, st, cal, args, site, dty):
    if 'key' in cal and s.it.is_local(cal):
        return None
    v = s.content(st, args[0])
    st.ev('hash', s.selfty(cal), v)
    return R(st, UNIT)


@method('std::cmp::max', 'std::cmp::min')
def _maxmin(s, st, cal, args, site, dty):
    m = cal['decl'].split('::')[-1]
    if all(x.op == 'k' for x in args):
        return R(st, k((max if m == 'max' else min)(args[0].a[0], args[1].a[0])))
    return R(st, mk('app', m, tuple(args)))


# ---------- integers, chars ----------
def _intop(name):
    def f(s, st, cal, args, site, dty):
        op = name
        if all(a.op == 'k' for a in args) and len(args) == 2:
            x, y = args[0].a[0], args[1].a[0]
            if op == 'saturating_sub':
                return R(st, k(max(0, x - y)))
            if op == 'saturating_add':
                return R(st, k(x + y))
        if op == 'saturating_add' and len(args) == 2:
            return R(st, s.it.binop(st, 'Add', args[0], args[1], None))
        if op == 'wrapping_add' and len(args) == 2:
            return R(st, s.it.binop(st, 'Add', args[0], args[1], None))
        if op == 'saturating_sub':
            x, y = args
            if y.op == 'k' and y.a[0] == 0:
                return R(st, x)
            d = s.it.cmp_known(st, 'Ge', x, y)
            if d:
                return R(st, s.it.binop(st, 'Sub', x, y, None))
            return R(st, mk('app', 'satsub', (x, y)))
        if op in ('checked_sub', 'checked_add'):
            x, y = args
            if op == 'checked_add':
                return R(st, some(s.it.binop(st, 'Add', x, y, None)))
            out = []
            c = mk('cmp', 'Lt', x, y, None) if not (x.op == 'k' or y.op == 'k') else s.it.binop(st, 'Lt', x, y, None)
            for z in s.it.assume(st.fork(), c, True):
                out.append((z, RET, NONE))
            for z in s.it.assume(st, c, False):
                out.append((z, RET, some(s.it.binop(z, 'Sub', x, y, None))))
            return out
        return R(st, mk('app', op, tuple(args)))
    return f


for _t in 'u8 u16 u32 u64 usize i8 i16 i32 i64 isize'.split():
    for _m in ('saturating_sub', 'saturating_add', 'wrapping_sub', 'wrapping_add', 'checked_sub', 'checked_add',
               'checked_mul', 'wrapping_mul', 'abs', 'pow', 'abs_diff', 'is_power_of_two', 'overflowing_add',
               'overflowing_sub', 'saturating_mul', 'wrapping_neg', 'rem_euclid', 'div_ceil', 'next_power_of_two'):
        method('%s::%s' % (_t, _m))(_intop(_m))


def digits_iv(r):
    n = min(r, 10)
    out = [(48, 47 + n)]
    if r > 10:
        out += [(65, 64 + r - 10), (97, 96 + r - 10)]
    return tuple(out)


def _charset(ivs):
    def f(s, st, cal, args, site, dty):
        c = s.content(st, args[0])
        iv = ivs(args) if callable(ivs) else ivs
        if iv is None:
            return R(st, mk('app', cal['name'], tuple(s.content(st, a) for a in args)))
        if c.op == 'k':
            return R(st, boolc(any(a <= c.a[0] <= b for a, b in iv)))
        return R(st, mk('inset', c, iv))
    return f


method('char::is_digit')(_charset(lambda a: digits_iv(a[1].a[0]) if a[1].op == 'k' and 2 <= a[1].a[0] <= 36 else None))
method('char::is_ascii_digit', 'u8::is_ascii_digit')(_charset(((48, 57),)))
method('char::is_ascii_hexdigit', 'u8::is_ascii_hexdigit')(_charset(((48, 57), (65, 70), (97, 102))))
method('char::is_ascii_alphabetic')(_charset(((65, 90), (97, 122))))
method('char::is_ascii_alphanumeric')(_charset(((48, 57), (65, 90), (97, 122))))
method('char::is_ascii_uppercase')(_charset(((65, 90),)))
method('char::is_ascii_lowercase')(_charset(((97, 122),)))
method('char::is_ascii')(_charset(((0, 127),)))
method('char::is_control')(_charset(((0, 31), (127, 159))))
method('char::is_ascii_control')(_charset(((0, 31), (127, 127))))
method('char::is_ascii_whitespace')(_charset(((9, 10), (12, 13), (32, 32))))
method('char::is_ascii_punctuation')(_charset(((33, 47), (58, 64), (91, 96), (123, 126))))
method('char::is_whitespace')(_charset(((9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680),
                                        (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000))))


def _unicat(pred):
    cache = []

    def ivs(args):
        if not cache:
            import unicodedata
            out = []
            for c in range(0x110000):
                if 0xD800 <= c < 0xE000:
                    continue
                if pred(chr(c), unicodedata):
                    if out and out[-1][1] == c - 1:
                        out[-1] = (out[-1][0], c)
                    else:
                        out.append((c, c))
            cache.append(tuple(out))
        return cache[0]
    return ivs


method('char::is_numeric')(_charset(_unicat(lambda c, u: u.category(c) in ('Nd', 'Nl', 'No'))))
method('char::is_alphanumeric')(_charset(_unicat(lambda c, u: c.isalpha() or u.category(c) in ('Nd', 'Nl', 'No'))))
method('char::is_alphabetic')(_charset(_unicat(lambda c, u: c.isalpha())))


@method('char::to_digit')
def _to_digit(s, st, cal, args, site, dty):
    c, r = args
    if r.op != 'k':
        return None
    t = mk('inset', c, digits_iv(r.a[0]))
    out = []
    for x in s.it.assume(st.fork(), t, True):
        out.append((x, RET, some(mk('app', 'to_digit', (c, r)))))
    for x in s.it.assume(st, t, False):
        out.append((x, RET, NONE))
    return out


@method('char::len_utf8')
def _len_utf8(s, st, cal, args, site, dty):
    c = s.content(st, args[0])
    if c.op == 'k':
        return R(st, k(len(chr(c.a[0]).encode())))
    return R(st, mk('app', 'len_utf8', (c,)))


@method('str::bytes')
def _str_bytes(s, st, cal, args, site, dty):
    return R(st, s.mkit(st, s.bytes_of(s.content(st, args[0])), 'val'))


def _pure(name, *ns):
    def f(s, st, cal, args, site, dty):
        return R(st, mk('app', name, tuple(s.content(st, a) for a in args)))
    method(*ns)(f)


for _n in ('to_ascii_lowercase', 'to_ascii_uppercase', 'to_lowercase', 'to_uppercase', 'trim', 'trim_start', 'trim_end',
           'trim_matches', 'trim_start_matches', 'trim_end_matches', 'replace', 'replacen', 'repeat', 'starts_with', 'ends_with',
           'contains', 'find', 'rfind', 'strip_prefix', 'strip_suffix', 'split_once', 'rsplit_once', 'is_char_boundary',
           'eq_ignore_ascii_case', 'char_indices', 'lines', 'split', 'rsplit', 'split_whitespace', 'splitn',
           'get_unchecked', 'split_at', 'split_terminator', 'chars_rev', 'escape_default', 'escape_debug', 'escape_unicode'):
    def _mk(n):
        def f(s, st, cal, args, site, dty):
            a = tuple(s.content(st, x) for x in args)
            r = mk('app', 'str::' + n, a)
            if n == 'split_at':
                q = mk('app', 'slice', (a[0], mk('adt', 'std::ops::RangeFrom', 0, 'RangeFrom', (args[1],))))
                return [(st.fork(), PANIC, mk('panic', 'slice index', q, site)), (st, RET, r)]
            return R(st, r)
        return f
    method('str::' + _n, 'char::' + _n)(_mk(_n))

_pure('kind', 'std::num::ParseIntError::kind', 'core::num::ParseIntError::kind', 'std::num::error::ParseIntError::kind', 'core::num::error::ParseIntError::kind')
_pure('width', '<char as unicode_width::UnicodeWidthChar>::width')
_pure('width_cjk', '<char as unicode_width::UnicodeWidthChar>::width_cjk')
_pure('str_width', '<str as unicode_width::UnicodeWidthStr>::width')
_pure('NamedSource', 'miette::NamedSource::new')


@method('str::parse')
def _parse(s, st, cal, args, site, dty):
    return None


# ---------- strings ----------
@method('std::string::String::new', 'std::string::String::with_capacity')
def _snew(s, st, cal, args, site, dty):
    return R(st, string(''))


@method('std::string::String::push')
def _spush(s, st, cal, args, site, dty):
    v = s.it.load(st, args[0])
    s.it.store(st, args[0], of_chars(cat(chars_of(v), seqof([args[1]]))))
    return R(st, UNIT)


@method('std::string::String::push_str', '@std::ops::AddAssign::add_assign')
def _spushs(s, st, cal, args, site, dty):
    if cal.get('m') == 'add_assign' and not is_strlike(s.selfty(cal)):
        return None
    v = s.it.load(st, args[0])
    s.it.store(st, args[0], of_chars(cat(chars_of(v), chars_of(s.content(st, args[1])))))
    return R(st, UNIT)


@method('@std::ops::Add::add')
def _sadd(s, st, cal, args, site, dty):
    if is_strlike(s.selfty(cal)):
        return R(st, of_chars(cat(chars_of(s.content(st, args[0])), chars_of(s.content(st, args[1])))))
    return None


@method('str::len', 'std::string::String::len')
def _slen(s, st, cal, args, site, dty):
    v = s.content(st, args[0])
    return R(st, s.it.seqlen(st, v))


@method('str::is_empty', 'std::string::String::is_empty', 'std::vec::Vec::is_empty', '[T]::is_empty',
        'std::collections::BTreeMap::is_empty', 'std::collections::HashMap::is_empty', 'std::collections::BTreeSet::is_empty',
        '@std::iter::ExactSizeIterator::is_empty')
def _isempty(s, st, cal, args, site, dty):
    v = s.content(st, args[0])
    return R(st, s.it.binop(st, 'Eq', s.it.seqlen(st, v), k(0), None))


@method('str::chars')
def _chars(s, st, cal, args, site, dty):
    return R(st, s.mkit(st, chars_of(s.content(st, args[0])), 'val'))


@method('std::str::Chars::as_str')
def _chars_as_str(s, st, cal, args, site, dty):
    it = s.content(st, args[0])
    if it.op == 'it' and it.a[1] == (0, 'at', 0):
        return R(st, vref(of_chars(it.a[0])))
    return R(st, vref(mk('rest', it)))


# ---------- vectors ----------
@method('std::vec::Vec::new', 'std::vec::Vec::with_capacity')
def _vnew(s, st, cal, args, site, dty):
    return R(st, EMPTY)


def is_err_vec(s, cal):
    return 'DecodeError' in s.p.tys(cal['targs'][0]) or 'ParseError' in s.p.tys(cal['targs'][0])


CTX = mk('sym', 'ctx')


def in_ctx(ptr):
    return ptr.op == 'ref' and any(e[0] == 'f' and e[4] == 'knuffel::decode::Context' for e in ptr.a[1])


@method('std::vec::Vec::push')
def _vpush(s, st, cal, args, site, dty):
    v = s.it.load(st, args[0])
    if is_err_vec(s, cal) and in_ctx(args[0]):
        st.ev('emit', s.it.freeze(st, args[1]), site)
        st.dirty = True
        if st.mem.get(args[0].a[0]) is CTX:
            return R(st, UNIT)
    s.it.store(st, args[0], cat(v, seqof([args[1]])))
    return R(st, UNIT)


@method('std::vec::Vec::len', '[T]::len', 'std::collections::BTreeMap::len', 'std::collections::HashMap::len',
        'std::collections::BTreeSet::len')
def _vlen(s, st, cal, args, site, dty):
    return R(st, s.it.seqlen(st, s.content(st, args[0])))


@method('[T]::first', '[T]::get', '[T]::last', '[T]::split_first')
def _vget(s, st, cal, args, site, dty):
    v = s.content(st, args[0])
    m = cal['decl'].split('::')[-1]
    if m == 'get':
        i = args[1]
        if i.op != 'k':
            n = s.it.seqlen(st, v)
            c = s.it.binop(st, 'Lt', i, n, None)
            out = []
            for x in s.it.assume(st.fork(), c, True):
                out.append((x, RET, some(s.it.mkvref(s.it.index(x, v, i)))))
            for x in s.it.assume(st, c, False):
                out.append((x, RET, NONE))
            return out
        n = i.a[0]
    else:
        n = 0
    ln = s.it.seqlen(st, v)
    c = s.it.binop(st, 'Gt', ln, k(n), None)
    out = []
    for x in s.it.assume(st.fork(), c, True):
        if m == 'last':
            e = v.a[-1].a[0] if v.op == 'seq' and v.a and v.a[-1].op == 'one' else mk('elemb', v, 1)
        else:
            e = s.it.index(x, v, k(n))
        if m == 'split_first':
            e = tup(s.it.mkvref(e), s.it.mkvref(s.it.drop_n(v, 1) if v.op != 'seq' else seq(*v.a[1:])))
            out.append((x, RET, some(e)))
        else:
            out.append((x, RET, some(s.it.mkvref(e))))
    for x in s.it.assume(st, c, False):
        out.append((x, RET, NONE))
    return out


@method('std::vec::Vec::pop')
def _vpop(s, st, cal, args, site, dty):
    v = s.it.load(st, args[0])
    if v.op == 'seq' and not v.a:
        return R(st, NONE)
    if v.op == 'seq' and v.a[-1].op == 'one':
        s.it.store(st, args[0], seq(*v.a[:-1]))
        return R(st, some(v.a[-1].a[0]))
    out = []
    c = s.it.binop(st, 'Gt', s.it.seqlen(st, v), k(0), None)
    for x in s.it.assume(st.fork(), c, False):
        out.append((x, RET, NONE))
    for x in s.it.assume(st, c, True):
        s.it.store(x, args[0], mk('init', v))
        out.append((x, RET, some(mk('elemb', v, 1))))
    return out


@method('std::vec::Vec::clear', 'std::string::String::clear')
def _vclear(s, st, cal, args, site, dty):
    if cal['decl'].startswith('std::vec') and is_err_vec(s, cal):
        st.ev('lose', site)
    s.it.store(st, args[0], EMPTY if 'Vec' in cal['decl'] else string(''))
    return R(st, UNIT)


@method('std::vec::Vec::append')
def _vappend(s, st, cal, args, site, dty):
    a, b = s.it.load(st, args[0]), s.it.load(st, args[1])
    if is_err_vec(s, cal) and in_ctx(args[0]):
        st.ev('emit_all', b, site)
        st.dirty = True
        if st.mem.get(args[0].a[0]) is CTX:
            s.it.store(st, args[1], EMPTY)
            return R(st, UNIT)
    s.it.store(st, args[0], cat(a, b))
    s.it.store(st, args[1], EMPTY)
    return R(st, UNIT)


@method('std::vec::Vec::extend_from_slice')
def _vefs(s, st, cal, args, site, dty):
    a, b = s.it.load(st, args[0]), s.content(st, args[1])
    s.it.store(st, args[0], cat(a, b))
    return R(st, UNIT)


def _vmut(n):
    def f(s, st, cal, args, site, dty):
        v = s.it.load(st, args[0])
        a = tuple(s.content(st, x) for x in args[1:])
        if n == 'insert' and args[1].op == 'k' and args[1].a[0] == 0 and not is_err_vec(s, cal):
            s.it.store(st, args[0], cat(seqof([a[1]]), v))
            return R(st, UNIT)
        q = v.a if v.op == 'seq' and all(x.op == 'one' for x in v.a) else None
        if q is not None:
            i = args[1].a[0] if len(args) > 1 and args[1].op == 'k' and isinstance(args[1].a[0], int) else None
            w = None
            if n == 'insert' and i is not None and i <= len(q):
                w = q[:i] + (mk('one', a[1]),) + q[i:]
            elif n == 'truncate' and i is not None:
                w = q[:i]
            elif n == 'reverse':
                w = q[::-1]
            elif len(q) < 2 and (n.startswith('dedup') or n.startswith('sort')):
                w = q
            if w is not None:
                s.it.store(st, args[0], mk('seq', *w))
                return R(st, UNIT)
        out = []
        if n in ('remove', 'swap_remove', 'insert', 'split_off'):
            c = s.it.binop(st, 'Lt' if 'remove' in n else 'Le', args[1], s.it.seqlen(st, v), None)
            ok = s.it.assume(st.fork(), c, True)
            for x in s.it.assume(st, c, False):
                out.append((x, PANIC, mk('panic', 'index', '', site)))
        elif n == 'struncate':
            r = mk('app', 'slice', (v, mk('adt', 'std::ops::RangeTo', 0, 'RangeTo', (mk('app', 'min:usize', (mk('len', v), args[1])),))))
            out.append((st.fork(), PANIC, mk('panic', 'slice index', r, site)))
            ok = [st]
        elif n in ('sremove', 'sinsert', 'sinsert_str', 'ssplit_off'):
            r = mk('app', 'slice', (v, mk('adt', 'std::ops::RangeFrom', 0, 'RangeFrom', (args[1],))))
            out.append((st.fork(), PANIC, mk('panic', 'slice index', r, site)))
            ok = [st]
        else:
            ok = [st]
        for x in ok:
            s.it.store(x, args[0], mk('app', 'vec_' + n, (v,) + a))
            if n in ('remove', 'swap_remove', 'sremove'):
                out.append((x, RET, mk('app', 'vec_removed', (v,) + a)))
            else:
                out.append((x, RET, UNIT))
        return out
    return f


for _n in ('truncate', 'insert', 'remove', 'swap_remove', 'dedup', 'dedup_by', 'dedup_by_key', 'retain', 'resize', 'retain_mut'):
    method('std::vec::Vec::' + _n)(_vmut(_n))
for _n in ('reverse', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'swap',
           'rotate_left', 'rotate_right', 'fill'):
    method('[T]::' + _n)(_vmut(_n))
for _n in ('truncate', 'insert', 'insert_str', 'remove', 'retain', 'pop'):
    method('std::string::String::' + _n)(_vmut('s' + _n))


@method('@std::ops::Index::index', '@std::ops::IndexMut::index_mut')
def _index(s, st, cal, args, site, dty):
    t = s.selfty(cal)
    if s.it.is_local(cal):
        return None
    it = s.p.ty(cal['targs'][1])
    mutr = cal['m'] == 'index_mut'
    if it.get('p') == 'std::ops::RangeFull':
        return R(st, args[0] if mutr else s.it.mkvref(s.content(st, args[0])))
    v = s.content(st, args[0])
    i = args[1]
    if it['k'] in ('uint', 'int'):
        n = s.it.seqlen(st, v)
        c = s.it.binop(st, 'Lt', i, n, None)
        out = []
        for x in s.it.assume(st.fork(), c, False):
            out.append((x, PANIC, mk('panic', 'index', '', site)))
        for x in s.it.assume(st, c, True):
            if mutr:
                b, p = s.it.deref(x, args[0])
                out.append((x, RET, mk('ref', b[1], p + (('i', i),))))
            else:
                out.append((x, RET, s.it.mkvref(s.it.index(x, v, i))))
        return out
    if i.op == 'adt' and i.a[0] in ('std::ops::RangeFrom',) and i.a[3][0].op == 'k' and not is_strlike(t):
        n = i.a[3][0].a[0]
        c = s.it.binop(st, 'Ge', s.it.seqlen(st, v), k(n), None)
        out = []
        for x in s.it.assume(st.fork(), c, False):
            out.append((x, PANIC, mk('panic', 'slice index', '', site)))
        for x in s.it.assume(st, c, True):
            out.append((x, RET, s.it.mkvref(s.it.drop_n(v, n) if v.op != 'seq' else seq(*v.a[n:]))))
        return out
    if 'Map' in t:
        r = mk('app', 'mapindex', (v, i))
        return [(st.fork(), PANIC, mk('panic', 'slice index', r, site)), (st, RET, vref(r))]
    # general slicing may be out of bounds
    r = mk('app', 'slice', (v, i))
    if i.op == 'adt' and i.a[0] == 'std::ops::RangeFrom' and i.a[3][0].op == 'k' and i.a[3][0].a[0] == 0:
        return R(st, vref(v))
    return [(st.fork(), PANIC, mk('panic', 'slice index', r, site)), (st, RET, vref(r))]


# ---------- maps and sets ----------
@method('std::collections::BTreeMap::new', 'std::collections::HashMap::new', 'std::collections::HashMap::with_capacity')
def _mnew(s, st, cal, args, site, dty):
    return R(st, mk('map', EMPTY))


@method('std::collections::BTreeSet::new', 'std::collections::HashSet::new')
def _setnew(s, st, cal, args, site, dty):
    return R(st, mk('set', EMPTY))


def entries(m):
    if m.op == 'map' or m.op == 'set':
        return m.a[0]
    return mk('entries', m)


@method('std::collections::BTreeMap::insert', 'std::collections::HashMap::insert')
def _minsert(s, st, cal, args, site, dty):
    m = s.it.load(st, args[0])
    kv = tup(args[1], args[2])
    s.it.store(st, args[0], mk('map', cat(entries(m), seqof([kv]))))
    if m.op == 'map' and m.a[0] is EMPTY:
        return R(st, NONE)
    return R(st, mk('app', 'map_old', (m, args[1])))


@method('std::collections::BTreeSet::insert', 'std::collections::HashSet::insert')
def _sinsert(s, st, cal, args, site, dty):
    m = s.it.load(st, args[0])
    s.it.store(st, args[0], mk('set', cat(entries(m), seqof([args[1]]))))
    return R(st, mk('app', 'set_new', (m, args[1])))


@method('std::collections::BTreeMap::get', 'std::collections::HashMap::get')
def _mget(s, st, cal, args, site, dty):
    m = s.content(st, args[0])
    ky = s.content(st, args[1])
    t = mk('app', 'map_get', (m, ky))
    out = []
    for x in s.it.assume_variant(st.fork(), t, OPTION, [0]):
        out.append((x, RET, NONE))
    for x in s.it.assume_variant(st, t, OPTION, [1]):
        out.append((x, RET, some(s.it.mkvref(mk('fld', t, OPTION, 'Some', '0')))))
    return out


@method('std::collections::BTreeMap::entry', 'std::collections::HashMap::entry')
def _mentry(s, st, cal, args, site, dty):
    return R(st, mk('mentry', args[0], args[1]))


@method('std::collections::btree_map::Entry::or_insert', 'std::collections::hash_map::Entry::or_insert')
def _morins(s, st, cal, args, site, dty):
    e = args[0]
    if e.op != 'mentry':
        return None
    m = s.it.load(st, e.a[0])
    kv = tup(e.a[1], args[1])
    if not (m.op == 'map' and m.a[0] is EMPTY and not st.loops):
        kv = mk('ifnew', kv)
    s.it.store(st, e.a[0], mk('map', cat(entries(m), seqof([kv]))))
    return R(st, s.it.mkvref(mk('app', 'map_entry', (m, e.a[1], args[1]))))


@method('std::collections::BTreeMap::contains_key', 'std::collections::HashMap::contains_key')
def _mck(s, st, cal, args, site, dty):
    m = s.content(st, args[0])
    ky = s.content(st, args[1])
    if m.op == 'map' and m.a[0] is EMPTY:
        return R(st, FALSE)
    t = mk('app', 'map_get', (m, ky))
    out = []
    for x in s.it.assume_variant(st.fork(), t, OPTION, [0]):
        out.append((x, RET, FALSE))
    for x in s.it.assume_variant(st, t, OPTION, [1]):
        out.append((x, RET, TRUE))
    return out


@method('std::collections::BTreeMap::remove', 'std::collections::HashMap::remove')
def _mrm(s, st, cal, args, site, dty):
    m = s.it.load(st, args[0])
    ky = s.content(st, args[1])
    s.it.store(st, args[0], mk('app', 'map_rm', (m, ky)))
    return R(st, mk('app', 'map_get', (m, ky)))


# ---------- formatting ----------
def _farg(kind):
    def f(s, st, cal, args, site, dty):
        return R(st, mk('app', 'farg:' + kind, (s.content(st, args[0]),)))
    return f


for _n in ('display', 'debug', 'lower_hex', 'upper_hex', 'octal', 'binary', 'lower_exp', 'debug_noop', 'from_usize', 'pointer'):
    method('core::fmt::rt::Argument::new_' + _n, 'core::fmt::rt::Argument::' + _n)(_farg(_n))


@method('std::fmt::Arguments::new', 'core::fmt::rt::new_v1', 'std::fmt::Arguments::new_v1')
def _fargs(s, st, cal, args, site, dty):
    a = [s.it.freeze(st, s.content(st, x)) for x in args]
    return R(st, mk('app', 'fmtargs', tuple(a)))


@method('std::fmt::Arguments::from_str', 'std::fmt::Arguments::from_str_nonconst', 'std::fmt::Arguments::new_const')
def _fargs1(s, st, cal, args, site, dty):
    return R(st, mk('app', 'fmtargs', (s.content(st, args[0]),)))


@method('std::fmt::format')
def _format(s, st, cal, args, site, dty):
    a = s.content(st, args[0])
    if a.op == 'app' and a.a[0] == 'fmtargs' and len(a.a[1]) == 1 and a.a[1][0].op == 'str':
        return R(st, a.a[1][0])
    return R(st, mk('app', 'format', (a,)))


@method('std::fmt::Formatter::write_fmt', 'std::fmt::Formatter::write_str', '<std::fmt::Formatter as std::fmt::Write>::write_char',
        '<std::fmt::Formatter as std::fmt::Write>::write_str', '<std::fmt::Formatter as std::fmt::Write>::write_fmt',
        'std::fmt::Formatter::pad')
def _fwrite(s, st, cal, args, site, dty):
    v = s.content(st, args[1])
    if v.op == 'app' and v.a[0] == 'fmtargs' and len(v.a[1]) == 1 and v.a[1][0].op == 'str':
        v = v.a[1][0]
    return s.fmt_result(st, v, site)


def fmt_result(self, st, v, site):
    st.ev('write', v)
    s2 = st.fork()
    s2.ev('fmterr')
    return [(st, RET, ok(UNIT)), (s2, RET, err(mk('sym', 'fmt::Error')))]


Models.fmt_result = fmt_result


@method('@std::fmt::Display::fmt', '@std::fmt::Debug::fmt')
def _fmt(s, st, cal, args, site, dty):
    if s.it.is_local(cal) and 'key' in cal:
        return None
    v = s.content(st, args[0])
    if cal['trait'].endswith('Debug'):
        v = mk('app', 'debug', (v,))
    return s.fmt_result(st, v, site)


# ---------- pointers, any ----------
@method('std::any::TypeId::of')
def _typeid(s, st, cal, args, site, dty):
    return R(st, mk('app', 'TypeId', (string(s.targ(cal, 0)),)))


@method("(dyn std::any::Any + 'static)::downcast_ref")
def _downcast(s, st, cal, args, site, dty):
    v = s.content(st, args[0])
    t = mk('app', 'downcast', (string(s.targ(cal, 0)), v))
    out = []
    for x in s.it.assume_variant(st.fork(), t, OPTION, [0]):
        out.append((x, RET, NONE))
    for x in s.it.assume_variant(st, t, OPTION, [1]):
        out.append((x, RET, some(s.it.mkvref(v))))
    return out


@method('std::sync::Arc::get_mut', 'std::rc::Rc::get_mut')
def _getmut(s, st, cal, args, site, dty):
    v = s.it.load(st, args[0])
    t = mk('app', 'get_mut', (v,))
    out = []
    for x in s.it.assume_variant(st.fork(), t, OPTION, [0]):
        out.append((x, RET, NONE))
    for x in s.it.assume_variant(st, t, OPTION, [1]):
        out.append((x, RET, some(args[0])))
    return out


@method('std::sync::Arc::make_mut', 'std::rc::Rc::make_mut')
def _makemut(s, st, cal, args, site, dty):
    return R(st, args[0])


# ---------- iterators ----------
def mkit(self, st, sq, how):
    return mk('it', sq, (0, 'at', 0), how, len(st.loops))


Models.mkit = mkit


@method('[T]::iter', 'std::collections::BTreeSet::iter')
def _iter(s, st, cal, args, site, dty):
    v = s.content(st, args[0])
    if v.op == 'set':
        v = v.a[0]
    return R(st, s.mkit(st, v, 'ref'))


@method('std::option::Option::iter', 'std::result::Result::iter')
def _optiter(s, st, cal, args, site, dty):
    v = s.content(st, args[0])
    t = strip_refs(s.selfty(cal)) if 'self' in cal else ''
    opt = 'option' in (cal.get('name') or cal.get('decl') or '')
    P, i, vn = (OPTION, 1, 'Some') if opt else (RESULT, 0, 'Ok')
    out = []
    for x in s.it.assume_variant(st.fork(), v, P, [1 - i]):
        out.append((x, RET, s.mkit(x, EMPTY, 'val')))
    for x in s.it.assume_variant(st, v, P, [i]):
        out.append((x, RET, s.mkit(x, seqof([s.it.project(x, v, ('f', i, 0, '0', P, vn))]), 'ref')))
    return out


@method('[T]::iter_mut')
def _itermut(s, st, cal, args, site, dty):
    return R(st, s.mkit(st, s.content(st, args[0]), 'mut?'))


@method('std::collections::BTreeMap::iter', 'std::collections::HashMap::iter')
def _miter(s, st, cal, args, site, dty):
    return R(st, s.mkit(st, entries(s.content(st, args[0])), 'pair'))


@method('std::collections::BTreeMap::keys', 'std::collections::HashMap::keys')
def _mkeys(s, st, cal, args, site, dty):
    return R(st, s.mkit(st, entries(s.content(st, args[0])), 'key'))


@method('std::collections::BTreeMap::values', 'std::collections::HashMap::values')
def _mvals(s, st, cal, args, site, dty):
    return R(st, s.mkit(st, entries(s.content(st, args[0])), 'value'))


ITERS = ('it', 'imap', 'ifilter', 'ifmap', 'ienum', 'iskip', 'itake', 'ichain', 'izip', 'icopied', 'ipeek', 'iflat',
         'iinspect', 'ifuse', 'itakew', 'iskipw', 'imapw', 'istep', 'iscan')


@method('@std::iter::IntoIterator::into_iter')
def _intoiter(s, st, cal, args, site, dty):
    a = args[0]
    t = s.selfty(cal)
    if a.op in ITERS:
        return R(st, a)
    if a.op == 'ref':
        v = s.content(st, a)
        if v.op in ITERS:
            return R(st, a)
    if cal.get('kind') == 'unresolved':
        return R(st, s.mkit(st, mk('items', s.content(st, a)), 'val'))
    ref = t.startswith('&')
    v = s.content(st, a)
    tt = strip_refs(t)
    if v.op in ITERS:
        return R(st, a)
    b = base(tt)
    if b in MAPS:
        return R(st, s.mkit(st, entries(v), 'pair' if ref else 'val'))
    if b in SETS:
        return R(st, s.mkit(st, entries(v), 'ref' if ref else 'val'))
    if b == OPTION:
        out = []
        for x in s.it.assume_variant(st.fork(), v, OPTION, [0]):
            out.append((x, RET, s.mkit(x, EMPTY, 'val')))
        for x in s.it.assume_variant(st, v, OPTION, [1]):
            y = s.it.project(x, v, ('f', 1, 0, '0', OPTION, 'Some'))
            out.append((x, RET, s.mkit(x, seqof([y]), 'ref' if ref else 'val')))
        return out
    if b in ('std::ops::Range', 'std::ops::RangeInclusive'):
        return R(st, s.range_it(st, v))
    if t.startswith('&mut'):
        return R(st, s.mkit(st, v, 'mut?'))
    if is_seqlike(tt):
        return R(st, s.mkit(st, v, 'ref' if ref else 'val'))
    if v.op in ('sym', 'fld', 'app'):
        return R(st, s.mkit(st, mk('items', v), 'val'))
    return None


def range_it(self, st, v):
    if v.op == 'adt' and v.a[0] == 'std::ops::Range':
        lo, hi = v.a[3]
        if lo.op == 'k' and hi.op == 'k' and hi.a[0] - lo.a[0] <= 64:
            return self.mkit(st, seqof([k(i, lo.a[1]) for i in range(lo.a[0], hi.a[0])]), 'val')
        return self.mkit(st, mk('range', lo, hi), 'val')
    return self.mkit(st, mk('range', v), 'val')


Models.range_it = range_it


def some_step(kd):
    return {'val': lambda s, v: v, 'ref': lambda s, v: s.it.mkvref(v)}[kd]


def item(self, st, v, how):
    if how == 'val':
        return v
    if how == 'ref':
        return self.it.mkvref(v)
    if how in ('pair', 'key', 'value'):
        a = self.it.project(st, v, ('f', 0, 0, '0', None, None))
        b = self.it.project(st, v, ('f', 0, 1, '1', None, None))
        if how == 'pair':
            return mk('tup', self.it.mkvref(a), self.it.mkvref(b))
        return self.it.mkvref(a if how == 'key' else b)
    from interp import Unsupported
    raise Unsupported('iter_mut')


Models.item = item


def nxt(self, st, it, site):
    """outcomes of next: list of (kind, state, iterator, item) with kind in
    some, none, panic"""
    o = it.op
    I = self.it
    if o == 'it':
        sq, pos, how, depth = it.a
        ps = parts(sq)
        i, m, kk = pos
        out = []
        while True:
            if i >= len(ps):
                out.append(('none', st, mk('it', sq, (i, 'at', 0), how, depth), None))
                return out
            p = ps[i]
            if p.op == 'one':
                out.append(('some', st, mk('it', sq, (i + 1, 'at', 0), how, depth), self.item(st, p.a[0], how)))
                return out
            src = p.a[0]
            isp = src.op == 'plist' or src.op == 'rev' and src.a[0].op == 'plist'
            star = len(st.loops) > depth
            if star:
                L = st.loops[-1]
                ends = st.fork()
                live = True
                if isp:
                    es, ss = [ends], [st]
                    if m == 'at':
                        ln = mk('len', src if src.op == 'plist' else src.a[0])
                        d = st.facts.get(ln)
                        if d is not None and d[0] == 'iv' and d[1][0][0] > 0:
                            es = []
                        elif d == ('iv', ((0, 0),)):
                            ss = []
                        ends.facts[ln] = ('iv', ((0, 0),))
                elif m == 'at':
                    es = I.assume(ends, I.binop(ends, 'Eq', I.seqlen(ends, src), k(kk), None), True)
                    ss = I.assume(st, I.binop(st, 'Gt', I.seqlen(st, src), k(kk), None), True)
                else:
                    es, ss = [ends], [st]
                for s2 in ss:
                    n = sum(1 for x in s2.pulls if x[0] is src)
                    c = mk('cur', L, src, kk, n)
                    s2.pulls = s2.pulls | {(src, kk, n)}
                    for s3, c2 in ([(s2, c)] if not isp else I.items(s2, c, src if src.op == 'plist' else src.a[0])):
                        out.append(('some', s3, mk('it', sq, (i, 'mid', kk), how, depth), self.item(s3, c2, how)))
                if not es:
                    return out
                st = es[0]
                st.flags = st.flags | {('exh', L)}
                i, m, kk = i + 1, 'at', 0
                continue
            if m == 'at':
                s2 = st.fork()
                for x in I.assume(s2, I.binop(s2, 'Gt', I.seqlen(s2, src), k(kk), None), True):
                    out.append(('some', x, mk('it', sq, (i, 'at', kk + 1), how, depth), self.item(x, I.index(x, src, k(kk)), how)))
                e = I.assume(st, I.binop(st, 'Le', I.seqlen(st, src), k(kk), None), True)
                if not e:
                    return out
                st = e[0]
                i, m, kk = i + 1, 'at', 0
                continue
            # after a loop stopped early
            s2 = st.fork()
            out.append(('some', s2, mk('it', sq, (i, 'mid', kk), how, depth), self.item(s2, mk('elem', src, 'mid'), how)))
            i, m, kk = i + 1, 'at', 0
        return out
    if o == 'imap':
        out = []
        for kd, s, j, x in self.nxt(st, it.a[0], site):
            if kd != 'some':
                out.append((kd, s, mk('imap', j, it.a[1]) if j is not None else None, x))
                continue
            for s2, rk, v in I.apply(s, it.a[1], [x], site):
                if rk == RET:
                    out.append(('some', s2, mk('imap', j, it.a[1]), v))
                else:
                    out.append(('panic', s2, None, v))
        return out
    if o in ('ifilter', 'ifmap', 'iskipw', 'itakew', 'imapw'):
        return self.nxt_filter(st, it, site)
    if o == 'ienum':
        out = []
        for kd, s, j, x in self.nxt(st, it.a[0], site):
            n = it.a[1]
            if kd == 'some':
                nn = I.binop(s, 'Add', n, k(1), None)
                star = s.loops and any(True for _ in [0]) and it_depth(it) is not None and len(s.loops) > it_depth(it) and x_star(x)
                if star:
                    idx = mk('idx', x)
                    out.append(('some', s, mk('ienum', j, n), mk('tup', idx, x)))
                else:
                    out.append(('some', s, mk('ienum', j, nn), mk('tup', n, x)))
            else:
                out.append((kd, s, mk('ienum', j, n) if j is not None else None, x))
        return out
    if o == 'icopied':
        out = []
        for kd, s, j, x in self.nxt(st, it.a[0], site):
            if kd == 'some':
                x = I.load(s, x)
            out.append((kd, s, mk('icopied', j) if j is not None else None, x))
        return out
    if o == 'ifuse':
        return [(kd, s, mk('ifuse', j) if j is not None else None, x) for kd, s, j, x in self.nxt(st, it.a[0], site)]
    if o == 'iinspect':
        out = []
        for kd, s, j, x in self.nxt(st, it.a[0], site):
            if kd != 'some':
                out.append((kd, s, mk('iinspect', j, it.a[1]) if j is not None else None, x))
                continue
            for s2, rk, v in I.apply(s, it.a[1], [self.it.mkvref(x)], site):
                out.append(('some', s2, mk('iinspect', j, it.a[1]), x) if rk == RET else ('panic', s2, None, v))
        return out
    if o == 'ichain':
        a, b, done = it.a
        out = []
        if not done:
            for kd, s, j, x in self.nxt(st, a, site):
                if kd == 'none':
                    for kd2, s2, j2, x2 in self.nxt(s, b, site):
                        out.append((kd2, s2, mk('ichain', a, j2, True) if j2 is not None else None, x2))
                else:
                    out.append((kd, s, mk('ichain', j, b, False) if j is not None else None, x))
            return out
        for kd2, s2, j2, x2 in self.nxt(st, b, site):
            out.append((kd2, s2, mk('ichain', a, j2, True) if j2 is not None else None, x2))
        return out
    if o == 'izip':
        a, b = it.a
        out = []
        for kd, s, j, x in self.nxt(st, a, site):
            if kd != 'some':
                out.append((kd, s, mk('izip', j, b) if j is not None else None, x))
                continue
            for kd2, s2, j2, x2 in self.nxt(s, b, site):
                out.append((kd2, s2, mk('izip', j, j2) if j2 is not None else None,
                            mk('tup', x, x2) if kd2 == 'some' else x2))
        return out
    if o == 'itake':
        n = it.a[1]
        if n.op == 'k' and n.a[0] == 0:
            return [('none', st, it, None)]
        out = []
        for kd, s, j, x in self.nxt(st, it.a[0], site):
            if kd == 'some':
                out.append((kd, s, mk('itake', j, k(n.a[0] - 1)), x))
            else:
                out.append((kd, s, mk('itake', j, n) if j is not None else None, x))
        return out
    if o == 'iskip':
        n = it.a[1]
        if n.op != 'k':
            from interp import Unsupported
            raise Unsupported('skip of unknown length')
        if n.a[0] == 0:
            return [(kd, s, mk('iskip', j, k(0)) if j is not None else None, x) for kd, s, j, x in self.nxt(st, it.a[0], site)]
        loops, st.loops = st.loops, ()
        out = []
        for kd, s, j, x in self.nxt(st, it.a[0], site):
            s.loops = loops
            if kd == 'some':
                out += self.nxt(s, mk('iskip', j, k(n.a[0] - 1)), site)
            else:
                out.append((kd, s, mk('iskip', j, k(0)) if j is not None else None, x))
        return out
    if o == 'ipeek':
        if it.a[1] is not None:
            slot = it.a[1]
            if slot.op == 'adt' and slot.a[2] == 'None':
                return [('none', st, mk('ipeek', it.a[0], None), None)]
            return [('some', st, mk('ipeek', it.a[0], None), slot.a[3][0])]
        return [(kd, s, mk('ipeek', j, None) if j is not None else None, x) for kd, s, j, x in self.nxt(st, it.a[0], site)]
    if o == 'iflat':
        return self.nxt_flat(st, it, site)
    if o in ('sym', 'fld', 'app', 'deref', 'hv'):
        # unknown iterator: behaves as an iterator over its unknown items
        j = mk('it', mk('items', it), (0, 'at', 0), 'val', -1 if st.loops else 0)
        return self.nxt(st, j, site)
    from interp import Unsupported
    raise Unsupported('next of ' + o)


def it_depth(it):
    while it.op != 'it':
        it = it.a[0]
        if not isinstance(it, T):
            return None
    return it.a[3]


def x_star(x):
    return bool(atoms(x))


Models.nxt = nxt


def nxt_filter(self, st, it, site):
    o = it.op
    I = self.it
    out = []
    work = [(st, it, 0)]
    while work:
        st, it, n = work.pop()
        if n > 80:
            from interp import Unsupported
            raise Unsupported('filter does not stop')
        for kd, s, j, x in self.nxt(st, it.a[0], site):
            nj = mk(o, j, *it.a[1:]) if j is not None else None
            if kd != 'some':
                out.append((kd, s, nj, x))
                continue
            if o == 'iskipw' and it.a[2]:
                out.append((kd, s, nj, x))
                continue
            arg = x if o in ('ifmap', 'imapw') else self.it.mkvref(x)
            for s2, rk, v in I.apply(s, it.a[1], [arg], site):
                if rk != RET:
                    out.append(('panic', s2, None, v))
                    continue
                if o in ('ifmap', 'imapw'):
                    for s3 in I.assume_variant(s2.fork(), v, OPTION, [1]):
                        out.append(('some', s3, nj, I.project(s3, v, ('f', 1, 0, '0', OPTION, 'Some'))))
                    for s3 in I.assume_variant(s2, v, OPTION, [0]):
                        if o == 'imapw':
                            out.append(('none', s3, nj, None))
                        else:
                            self.skipped(s3, nj, x, out, work, n)
                elif o == 'ifilter':
                    for s3 in I.assume(s2.fork(), v, True):
                        out.append(('some', s3, nj, x))
                    for s3 in I.assume(s2, v, False):
                        self.skipped(s3, nj, x, out, work, n)
                elif o == 'itakew':
                    for s3 in I.assume(s2.fork(), v, True):
                        out.append(('some', s3, nj, x))
                    for s3 in I.assume(s2, v, False):
                        out.append(('none', s3, nj, None))
                else:
                    for s3 in I.assume(s2.fork(), v, False):
                        out.append(('some', s3, mk(o, j, it.a[1], True), x))
                    for s3 in I.assume(s2, v, True):
                        self.skipped(s3, nj, x, out, work, n)
    return out


def skipped(self, s, nj, x, out, work, n):
    """an element the adapter dropped: with an unknown element the loop around
    sees an iteration that does nothing"""
    if s.loops and (any(c.a[0] == s.loops[-1] for c in atoms(x)) or any(p[0].op == 'plist' or p[0].op == 'rev' and p[0].a[0].op == 'plist' for p in s.pulls)):
        out.append(('skip', s, nj, x))
    else:
        work.append((s, nj, n + 1))


Models.nxt_filter = nxt_filter
Models.skipped = skipped


def nxt_flat(self, st, it, site):
    from interp import Unsupported
    I = self.it
    inner, f, cur = it.a
    out = []
    if cur is not None:
        for kd, s, j, x in self.nxt(st, cur, site):
            if kd == 'none':
                out += self.nxt_flat(s, mk('iflat', inner, f, None), site)
            else:
                out.append((kd, s, mk('iflat', inner, f, j) if j is not None else None, x))
        return out
    for kd, s, j, x in self.nxt(st, inner, site):
        if kd != 'some':
            out.append((kd, s, mk('iflat', j, f, None) if j is not None else None, x))
            continue
        rs = I.apply(s, f, [x], site) if f is not None else [(s, RET, x)]
        for s2, rk, v in rs:
            if rk != RET:
                out.append(('panic', s2, None, v))
                continue
            for s3, jt in self.to_iter(s2, v):
                if jt.op == 'it' and jt.a[0].op == 'seq' and len(jt.a[0].a) == 0:
                    out.append(('skip', s3, mk('iflat', j, f, None), x))
                elif jt.op == 'it' and jt.a[0].op == 'seq' and len(jt.a[0].a) == 1 and jt.a[0].a[0].op == 'one':
                    out.append(('some', s3, mk('iflat', j, f, None), self.item(s3, jt.a[0].a[0].a[0], jt.a[2])))
                else:
                    raise Unsupported('flat_map over sequences')
    return out


Models.nxt_flat = nxt_flat


def to_iter(self, st, v):
    """iterator over an iterable value (Option, sequence, iterator)"""
    if v.op in ITERS:
        return [(st, v)]
    if v.op == 'adt' and v.a[0] == OPTION:
        return [(st, self.mkit(st, seqof(v.a[3]), 'val'))]
    if v.op == 'adt' and v.a[0] == RESULT:
        return [(st, self.mkit(st, seqof(v.a[3]) if v.a[2] == 'Ok' else EMPTY, 'val'))]
    if v.op == 'vref':
        return [(st, self.mkit(st, v.a[0], 'ref'))]
    return [(st, self.mkit(st, v, 'val'))]


Models.to_iter = to_iter


@method('@std::iter::Iterator::next')
def _next(s, st, cal, args, site, dty):
    ptr = args[0]
    it = s.it.load(st, ptr)
    if it.op == 'ref':
        ptr = it
        it = s.it.load(st, ptr)
    if it.op == 'adt' and it.a[0] in ('std::ops::Range', 'std::ops::RangeInclusive'):
        it = s.range_it(st, it)
    out = []
    work = [(st, it, 0)]
    while work:
        st, it, n = work.pop()
        for kd, x, j, v in s.nxt(st, it, site):
            if kd == 'some':
                s.it.store(x, ptr, j)
                out.append((x, RET, some(v)))
            elif kd == 'none':
                s.it.store(x, ptr, j)
                out.append((x, RET, NONE))
            elif kd == 'skip':
                # the element is consumed inside next(); the enclosing loop
                # continues as if it had not been there
                if n > 6:
                    continue
                s.close_skip(x)
                work.append((x, j, n + 1))
            else:
                out.append((x, PANIC, v))
    return out


def close_skip(self, st):
    """an unknown element skipped within next(): forget it"""
    L = st.loops[-1]
    st.note('skipped element')
    for t in [t for t in st.facts if any(c.a[0] == L for c in atoms(t))]:
        del st.facts[t]


Models.close_skip = close_skip


@method('@std::iter::DoubleEndedIterator::next_back')
def _nextback(s, st, cal, args, site, dty):
    ptr = args[0]
    it = s.it.load(st, ptr)
    if it.op != 'it':
        return None
    sq, pos, how, depth = it.a
    if sq.op == 'seq' and all(p.op == 'one' for p in sq.a):
        i = pos[0]
        if i >= len(sq.a):
            return R(st, NONE)
        s.it.store(st, ptr, mk('it', seq(*sq.a[:-1]), pos, how, depth))
        return R(st, some(s.item(st, sq.a[-1].a[0], how)))
    n = s.it.seqlen(st, sq)
    c = s.it.binop(st, 'Gt', n, k(pos[2]), None)
    out = []
    for x in s.it.assume(st.fork(), c, False):
        out.append((x, RET, NONE))
    for x in s.it.assume(st, c, True):
        s.it.store(x, ptr, mk('it', mk('init', sq), pos, how, depth))
        out.append((x, RET, some(s.item(x, mk('elemb', sq, 1), how))))
    return out


def _adapter(op, *extra):
    def f(s, st, cal, args, site, dty):
        a = [args[0]]
        if a[0].op == 'ref':
            return None
        return R(st, mk(op, *(list(args) + list(extra))))
    return f


for _m, _op, _ex in (('map', 'imap', ()), ('filter', 'ifilter', ()), ('filter_map', 'ifmap', ()), ('enumerate', 'ienum', (k(0),)),
                     ('skip', 'iskip', ()), ('take', 'itake', ()), ('zip', 'izip', ()), ('copied', 'icopied', ()),
                     ('cloned', 'icopied', ()), ('peekable', 'ipeek', (None,)), ('inspect', 'iinspect', ()), ('fuse', 'ifuse', ()),
                     ('take_while', 'itakew', ()), ('skip_while', 'iskipw', (False,)), ('map_while', 'imapw', ()),
                     ('flat_map', 'iflat', (None,)), ('flatten', 'iflat', (None, None))):
    method('@std::iter::Iterator::' + _m)(_adapter(_op, *_ex))


@method('@std::iter::Iterator::chain')
def _chain(s, st, cal, args, site, dty):
    out = []
    for x, b in s.to_iter(st, args[1]):
        out.append((x, RET, mk('ichain', args[0], b, False)))
    return out


@method('@std::iter::Iterator::rev')
def _rev(s, st, cal, args, site, dty):
    it = args[0]
    if it.op == 'it' and it.a[1] == (0, 'at', 0):
        sq = it.a[0]
        if sq.op == 'seq':
            sq = seq(*[p if p.op == 'one' else all_(mk('rev', p.a[0])) for p in reversed(sq.a)])
        else:
            sq = mk('rev', sq)
        return R(st, mk('it', sq, it.a[1], it.a[2], it.a[3]))
    if it.op in ('imap', 'ifilter', 'ifmap', 'icopied'):
        r = _rev(s, st, cal, [it.a[0]], site, dty)
        if r is None:
            return None
        return R(st, mk(it.op, r[0][2], *it.a[1:]))
    return None


@method('std::iter::Peekable::peek')
def _peek(s, st, cal, args, site, dty):
    it = s.it.load(st, args[0])
    out = []
    if it.a[1] is not None:
        sl = it.a[1]
        return R(st, NONE if sl is NONE else some(s.it.mkvref(sl.a[3][0])))
    for kd, x, j, v in s.nxt(st, it.a[0], site):
        if kd == 'some':
            s.it.store(x, args[0], mk('ipeek', j, mk('adt', OPTION, 1, 'Some', (v,))))
            out.append((x, RET, some(s.it.mkvref(v))))
        elif kd == 'none':
            s.it.store(x, args[0], mk('ipeek', j, NONE))
            out.append((x, RET, NONE))
        else:
            out.append((x, PANIC, v))
    return out


@method('std::iter::empty')
def _iempty(s, st, cal, args, site, dty):
    return R(st, s.mkit(st, EMPTY, 'val'))


@method('std::iter::once')
def _ionce(s, st, cal, args, site, dty):
    return R(st, s.mkit(st, seqof([args[0]]), 'val'))


# ---- consumers ----
def consume(self, st, it, site, step, init, ptr=None, tag=''):
    """drives an iterator to its end.  step(state, item, accumulator location)
    -> list of ('go', state) / ('exit', state, value) / ('panic', state, v).
    Returns exits: list of (state, kind, value) where value None means the
    iterator ended."""
    I = self.it
    if tag == '' :
        tag = str(site)
    L = I.loop_id('it:' + tag)
    depth = len(I.stack)
    aloc = ('N', depth, len(st.loops), 'acc')
    iloc = ('N', depth, len(st.loops), 'it')
    st.mem[aloc] = init
    st.mem[iloc] = it

    def run(h):
        backs, exits, outs = [], [], []
        cur = h.mem[iloc]
        for kd, s, j, x in self.nxt(h, cur, site):
            if kd == 'none':
                s.mem[iloc] = j
                exits.append((s, ('end', None)))
            elif kd == 'some':
                s.mem[iloc] = j
                for r in step(s, x, aloc):
                    if r[0] == 'go':
                        backs.append(r[1])
                    elif r[0] == 'exit':
                        exits.append((r[1], ('exit', r[2])))
                    else:
                        outs.append((r[1], PANIC, r[2]))
            elif kd == 'skip':
                s.mem[iloc] = j
                backs.append(s)
            else:
                outs.append((s, PANIC, x))
        return backs, exits, outs

    def prune(s):
        pass
    ex, ou = I.fix(st, L, run, prune)
    res = []
    for s, (kd, v) in ex:
        acc = s.mem.pop(aloc)
        itv = s.mem.pop(iloc)
        if ptr is not None:
            I.store(s, ptr, itv)
        res.append((s, kd, v, acc))
    for s, kd, v in ou:
        s.mem.pop(aloc, None)
        s.mem.pop(iloc, None)
        res.append((s, 'panic', v, None))
    return res


Models.consume = consume


def get_iter(self, st, a):
    """iterator value and the place holding it (for by-reference use)"""
    if a.op == 'ref':
        it = self.it.load(st, a)
        if it.op == 'ref':
            return self.get_iter(st, it)
        return it, a
    return a, None


Models.get_iter = get_iter


def result_collect(self, st, it, site, fin, wrap, failidx, okidx, path, ptr=None):
    I = self.it

    def step(s, x, aloc):
        out = []
        for s2 in I.assume_variant(s.fork(), x, path, [okidx]):
            vn = 'Ok' if path == RESULT else 'Some'
            v = I.project(s2, x, ('f', okidx, 0, '0', path, vn))
            s2.mem[aloc] = cat(s2.mem[aloc], seqof([v]))
            out.append(('go', s2))
        for s2 in I.assume_variant(s, x, path, [failidx]):
            if path == RESULT:
                out.append(('exit', s2, err(I.project(s2, x, ('f', 1, 0, '0', RESULT, 'Err')))))
            else:
                out.append(('exit', s2, NONE))
        return out
    res = []
    for s, kd, v, acc in self.consume(st, it, site, step, EMPTY, ptr):
        if kd == 'panic':
            res.append((s, PANIC, v))
        elif kd == 'exit':
            res.append((s, RET, v))
        else:
            res.append((s, RET, wrap(fin(acc))))
    return res


Models.result_collect = result_collect


def collect_fin(self, t):
    """how a sequence of items becomes a value of type t"""
    b = base(t)
    if b == 'std::vec::Vec' or is_seqlike(t) and not is_strlike(t):
        return lambda q: q
    if is_strlike(t):
        return lambda q: of_chars(q)
    if b in MAPS:
        return lambda q: mk('map', q)
    if b in SETS:
        return lambda q: mk('set', q)
    if t == '()':
        return lambda q: UNIT
    return None


Models.collect_fin = collect_fin


def split_args(t):
    """top-level generic arguments of a type string"""
    i = t.index('<')
    out = []
    d = 0
    cur = ''
    for c in t[i + 1:-1]:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


@method('@std::iter::Iterator::collect', '@std::iter::FromIterator::from_iter')
def _collect(s, st, cal, args, site, dty):
    ti = dty if cal['m'] == 'collect' else cal['self']
    if ti is None:
        ti = cal['targs'][1] if cal['m'] == 'collect' and len(cal['targs']) > 1 else None
        if ti is None:
            return None
    t = clean(s.p.tys(ti))
    it, ptr = s.get_iter(st, args[0])
    if cal['m'] == 'from_iter':
        its = s.to_iter(st, it)
        st, it = its[0]
    b = base(t)
    if b in (RESULT, OPTION):
        inner = split_args(t)[0]
        fin = s.collect_fin(inner)
        if fin is None:
            return None
        if b == RESULT:
            return s.result_collect(st, it, site, fin, ok, 1, 0, RESULT, ptr)
        return s.result_collect(st, it, site, fin, some, 0, 1, OPTION, ptr)
    fin = s.collect_fin(t)
    if fin is None:
        return None
    conv = s.str_item(s.item_ty_is_str(cal))

    def step(x, v, aloc):
        x.mem[aloc] = cat(x.mem[aloc], conv(x, v) if is_strlike(t) else seqof([v]))
        return [('go', x)]
    out = []
    for x, kd, v, acc in s.consume(st, it, site, step, EMPTY, ptr):
        out.append((x, PANIC, v) if kd == 'panic' else (x, RET, fin(acc)))
    return out


def item_ty_is_str(self, cal):
    return None


def str_item(self, hint):
    def conv(st, v):
        v = self.content(st, v)
        if v.op in ('str', 'ofchars') or (v.op == 'app' and v.a[0].startswith(('format', 'str::', 'to_string'))):
            return chars_of(v)
        return seqof([v])
    return conv


Models.item_ty_is_str = item_ty_is_str
Models.str_item = str_item


@method('@std::iter::Extend::extend', '@std::iter::Extend::extend_one')
def _extend(s, st, cal, args, site, dty):
    t = s.selfty(cal)
    tgt = args[0]
    b = base(t)
    its = args[1]
    if b == 'std::vec::Vec' and 'Error<' in t and in_ctx(tgt):
        errv = True
    else:
        errv = False
    itv, ptr = s.get_iter(st, its)
    prs = s.to_iter(st, itv)
    out = []
    for st, it in prs:
        conv = s.str_item(None)

        def step(x, v, aloc):
            x.mem[aloc] = cat(x.mem[aloc], conv(x, v) if is_strlike(t) else seqof([v]))
            if errv:
                x.ev('emit', x_freeze(s, x, v), site)
                x.dirty = True
            return [('go', x)]
        for x, kd, v, acc in s.consume(st, it, site, step, EMPTY, ptr):
            if kd == 'panic':
                out.append((x, PANIC, v))
                continue
            old = s.it.load(x, tgt)
            if is_strlike(t):
                new = of_chars(cat(chars_of(old), acc))
            elif b in MAPS:
                new = mk('map', cat(entries(old), acc))
            elif b in SETS:
                new = mk('set', cat(entries(old), acc))
            else:
                new = cat(old, acc)
            if not (errv and x.mem.get(tgt.a[0]) is CTX):
                s.it.store(x, tgt, new)
            out.append((x, RET, UNIT))
    return out


def x_freeze(s, st, v):
    return s.it.freeze(st, v)


@method('@std::iter::Iterator::for_each')
def _foreach(s, st, cal, args, site, dty):
    it, ptr = s.get_iter(st, args[0])
    fv = args[1]
    floc = ('N', len(s.it.stack), len(st.loops), 'f')
    st.mem[floc] = fv
    fref = mk('ref', floc, ())

    def step(x, v, aloc):
        return [('go', y) if kd == RET else ('panic', y, w) for y, kd, w in s.it.apply(x, fref, [v], site)]
    out = []
    for x, kd, v, acc in s.consume(st, it, site, step, UNIT, ptr):
        x.mem.pop(floc, None)
        out.append((x, PANIC, v) if kd == 'panic' else (x, RET, UNIT))
    return out


@method('@std::iter::Iterator::try_for_each')
def _tryforeach(s, st, cal, args, site, dty):
    it, ptr = s.get_iter(st, args[0])
    fv = args[1]
    floc = ('N', len(s.it.stack), len(st.loops), 'f')
    st.mem[floc] = fv
    fref = mk('ref', floc, ())
    t = clean(s.p.tys(dty)) if dty is not None else RESULT
    path = RESULT if base(t) == RESULT else OPTION

    def step(x, v, aloc):
        out = []
        for y, kd, w in s.it.apply(x, fref, [v], site):
            if kd != RET:
                out.append(('panic', y, w))
                continue
            go = 0 if path == RESULT else 1
            for z in s.it.assume_variant(y.fork(), w, path, [go]):
                out.append(('go', z))
            for z in s.it.assume_variant(y, w, path, [1 - go]):
                if path == RESULT:
                    w = err(s.it.project(z, w, ('f', 1, 0, '0', RESULT, 'Err')))
                else:
                    w = NONE
                out.append(('exit', z, w))
        return out
    out = []
    for x, kd, v, acc in s.consume(st, it, site, step, UNIT, ptr):
        x.mem.pop(floc, None)
        if kd == 'panic':
            out.append((x, PANIC, v))
        elif kd == 'exit':
            out.append((x, RET, v))
        else:
            out.append((x, RET, ok(UNIT) if path == RESULT else some(UNIT)))
    return out


@method('@std::iter::Iterator::fold', '@std::iter::Iterator::try_fold')
def _fold(s, st, cal, args, site, dty):
    it, ptr = s.get_iter(st, args[0])
    tryf = cal['m'] == 'try_fold'
    fv = args[2]
    floc = ('N', len(s.it.stack), len(st.loops), 'f')
    st.mem[floc] = fv
    fref = mk('ref', floc, ())

    def step(x, v, aloc):
        out = []
        for y, kd, w in s.it.apply(x, fref, [x.mem[aloc], v], site):
            if kd != RET:
                out.append(('panic', y, w))
            elif tryf:
                for z in s.it.assume_variant(y.fork(), w, RESULT, [0]):
                    z.mem[aloc] = s.it.project(z, w, ('f', 0, 0, '0', RESULT, 'Ok'))
                    out.append(('go', z))
                for z in s.it.assume_variant(y, w, RESULT, [1]):
                    out.append(('exit', z, err(s.it.project(z, w, ('f', 1, 0, '0', RESULT, 'Err')))))
            else:
                y.mem[aloc] = w
                out.append(('go', y))
        return out
    out = []
    for x, kd, v, acc in s.consume(st, it, site, step, args[1], ptr):
        x.mem.pop(floc, None)
        if kd == 'panic':
            out.append((x, PANIC, v))
        elif kd == 'exit':
            out.append((x, RET, v))
        else:
            out.append((x, RET, ok(acc) if tryf else acc))
    return out


@method('@std::iter::Iterator::any', '@std::iter::Iterator::all', '@std::iter::Iterator::find', '@std::iter::Iterator::position',
        '@std::iter::Iterator::find_map')
def _any(s, st, cal, args, site, dty):
    m = cal['m']
    it, ptr = s.get_iter(st, args[0])
    stop = m != 'all'

    def step(x, v, aloc):
        out = []
        arg = s.it.mkvref(v) if m == 'find' else v
        for y, kd, w in s.it.apply(x, args[1], [arg], site):
            if kd != RET:
                out.append(('panic', y, w))
                continue
            if m == 'find_map':
                for z in s.it.assume_variant(y.fork(), w, OPTION, [1]):
                    out.append(('exit', z, some(s.it.project(z, w, ('f', 1, 0, '0', OPTION, 'Some')))))
                for z in s.it.assume_variant(y, w, OPTION, [0]):
                    out.append(('go', z))
                continue
            for z in s.it.assume(y.fork(), w, stop):
                r = {'any': TRUE, 'all': FALSE}.get(m)
                if m == 'find':
                    r = some(v)
                if m == 'position':
                    r = some(mk('app', 'position', (s.content(z, v),)))
                out.append(('exit', z, r))
            for z in s.it.assume(y, w, not stop):
                out.append(('go', z))
        return out
    out = []
    res = s.consume(st, it, site, step, UNIT, ptr)
    cls = set()
    for x, kd, v, acc in res:
        if kd == 'exit':
            L = s.it.loop_id('it:' + str(site))
            fs = frozenset((t, d) for t, d in x.facts.items() if any(c.a[0] == L for c in atoms(t)))
            srcs = frozenset(c for t, _ in fs for c in atoms(t) if c.a[0] == L)
            cls.add((fs, srcs))
    term = mk('exists', frozenset(cls)) if cls else None
    for x, kd, v, acc in res:
        if kd == 'panic':
            out.append((x, PANIC, v))
        elif kd == 'exit':
            if term is not None and any(c for _, c in cls):
                x.facts[term] = ('in', frozenset([1]))
            out.append((x, RET, v))
        else:
            if term is not None and any(c for _, c in cls):
                x.facts[term] = ('in', frozenset([0]))
            out.append((x, RET, {'any': FALSE, 'all': TRUE}.get(m, NONE)))
    return out


@method('@std::iter::Iterator::count')
def _count(s, st, cal, args, site, dty):
    it, ptr = s.get_iter(st, args[0])
    if it.op == 'it' and it.a[1] == (0, 'at', 0):
        if it.a[0].op == 'chars':
            return R(st, mk('app', 'char_count', (it.a[0].a[0],)))
        return R(st, s.it.seqlen(st, it.a[0]))

    def step(x, v, aloc):
        x.mem[aloc] = s.it.binop(x, 'Add', x.mem[aloc], k(1), None)
        return [('go', x)]
    out = []
    for x, kd, v, acc in s.consume(st, it, site, step, k(0), ptr):
        out.append((x, PANIC, v) if kd == 'panic' else (x, RET, acc))
    return out


@method('@std::iter::Iterator::last', '@std::iter::Iterator::max', '@std::iter::Iterator::min', '@std::iter::Iterator::sum')
def _last(s, st, cal, args, site, dty):
    it, ptr = s.get_iter(st, args[0])
    if it.op == 'it':
        return R(st, mk('app', 'iter_' + cal['m'], (it.a[0],)))
    return None


@method('@std::iter::Iterator::nth')
def _nth(s, st, cal, args, site, dty):
    n = args[1]
    if n.op != 'k' or n.a[0] > 8:
        return None
    it = s.it.load(st, args[0])
    outs = []
    work = [(st, it, n.a[0])]
    while work:
        st, it, left = work.pop()
        for kd, x, j, v in s.nxt(st, it, site):
            if kd == 'some' and left > 0:
                work.append((x, j, left - 1))
            elif kd in ('some', 'none'):
                s.it.store(x, args[0], j)
                outs.append((x, RET, some(v) if kd == 'some' else NONE))
            elif kd == 'panic':
                outs.append((x, PANIC, v))
    return outs


@method('@std::iter::ExactSizeIterator::len', '@std::iter::Iterator::size_hint')
def _itlen(s, st, cal, args, site, dty):
    it = s.content(st, args[0])
    if it.op == 'it' and cal['m'] == 'len' and it.a[1][1] == 'at':
        n = s.it.seqlen(st, it.a[0])
        return R(st, s.it.binop(st, 'Sub', n, k(it.a[1][2] + it.a[1][0]), None))
    return R(st, mk('app', cal['m'], (it,)))


# ---------- parser combinators ----------
def chumsky(self, st, cal, args, site, dty):
    n = cal.get('decl')
    m = n.split('::')[-1]
    a = tuple(self.it.freeze(st, x) for x in args)
    if m == 'from_iter':
        return R(st, mk('app', 'stream', a))
    if m in ('start', 'end', 'context') and cal.get('trait') == 'chumsky::Span':
        return R(st, mk('app', 'span_' + m, tuple(self.content(st, x) for x in args)))
    if m == 'parse':
        return R(st, mk('app', 'parse', a))
    if m == 'clone':
        return R(st, self.it.load(st, args[0]))
    self.it.__dict__.setdefault('psites', set()).add((m, site))
    if m == 'collect':
        ts = [clean(self.p.tys(t)) for t in cal.get('targs') or () if isinstance(t, int)]
        a += (string('string' if any(is_strlike(t) for t in ts) else 'list'),)
    return R(st, mk('P', m, a))


Models.chumsky = chumsky


@method('base64::Engine::decode')
def _b64(s, st, cal, args, site, dty):
    return R(st, mk('app', 'base64_decode', tuple(s.content(st, a) for a in args)))
