"""Builds the analysed artefacts from /repo's working tree."""
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KV_REPO', '/repo')
BUILD = os.environ.get('KV_BUILD', os.path.join(VERIF, '.build'))
DRIVER = os.path.join(VERIF, 'driver', 'target', 'debug', 'kvdriver')
EXPAND = ('core::option,core::result,core::ops::control_flow,core::convert,core::bool,'
          'core::cmp,core::ops::try_trait,core::str::<impl str>::parse')
FLAGS = '-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on -Awarnings'


class BuildError(Exception):
    pass


_sysroot = None
HELD = []


def locked(f):
    """one build at a time in a build folder"""
    def g(*a, **kw):
        import fcntl
        if HELD:
            return f(*a, **kw)
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, 'lock'), 'w') as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            HELD.append(1)
            try:
                return f(*a, **kw)
            finally:
                HELD.pop()
    return g


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True,
                                  text=True, check=True).stdout.strip()
    return _sysroot


def ensure_driver():
    env = dict(os.environ)
    for v in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
        env.pop(v, None)
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '-q'], cwd=os.path.join(VERIF, 'driver'),
                       capture_output=True, text=True, env=env)
    if r.returncode != 0:
        raise BuildError('driver: ' + r.stderr[-2000:])


def driver_env(out, roots, crates):
    env = dict(os.environ)
    env.update({
        'LD_LIBRARY_PATH': sysroot() + '/lib',
        'KV_OUT': out, 'KV_ROOTS': roots, 'KV_CRATES': crates, 'KV_EXPAND': EXPAND,
        'RUSTFLAGS': FLAGS, 'RUSTC_WORKSPACE_WRAPPER': DRIVER, 'CARGO_INCREMENTAL': '0',
    })
    env.pop('RUSTC_WRAPPER', None)
    return env


def forget(target, names):
    """drop cargo's freshness records of the named packages (both layouts)"""
    d = os.path.join(target, 'debug', '.fingerprint')
    if os.path.isdir(d):
        for e in os.listdir(d):
            if e.rsplit('-', 1)[0] in names:
                shutil.rmtree(os.path.join(d, e))
    for n in names:
        d = os.path.join(target, 'debug', 'build', n)
        if os.path.isdir(d):
            shutil.rmtree(d)


@locked
def dump_lib(features=None):
    """MIR dump of the library; all features unless a list is given"""
    ensure_driver()
    tag = '' if features is None else '-' + ('+'.join(sorted(features)) or 'none')
    out = os.path.join(BUILD, 'out' + tag)
    os.makedirs(out, exist_ok=True)
    f = os.path.join(out, 'knuffel.json')
    if os.path.exists(f):
        os.remove(f)
    t = os.path.join(BUILD, 't-lib')
    forget(t, ('knuffel',))
    fl = ['--all-features'] if features is None else ['--no-default-features', '--features', ','.join(sorted(features))]
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '-q', '--manifest-path', REPO + '/Cargo.toml',
                        '--target-dir', t] + fl, capture_output=True, text=True,
                       env=driver_env(out, 'knuffel', 'knuffel'))
    if r.returncode != 0 or not os.path.exists(f):
        raise BuildError('library%s: ' % tag + (r.stderr or '')[-3000:])
    return f


@locked
def dump_macro():
    """dump of the derive macro's own code"""
    ensure_driver()
    out = os.path.join(BUILD, 'out-macro')
    os.makedirs(out, exist_ok=True)
    f = os.path.join(out, 'knuffel_derive.json')
    if os.path.exists(f):
        os.remove(f)
    t = os.path.join(BUILD, 't-lib')
    forget(t, ('knuffel-derive',))
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '-q', '--manifest-path', REPO + '/derive/Cargo.toml',
                        '--target-dir', t], capture_output=True, text=True,
                       env=driver_env(out, 'knuffel_derive', 'knuffel_derive'))
    if r.returncode != 0 or not os.path.exists(f):
        raise BuildError('derive macro: ' + (r.stderr or '')[-3000:])
    return f


def fixture_crate(src, name='fx'):
    d = os.path.join(BUILD, name)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "kvfix"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n'
                '[dependencies]\nknuffel = { path = "%s" }\n[workspace]\n' % REPO)
    shutil.copyfile(os.path.join(VERIF, 'kv', 'fx.lock'), os.path.join(d, 'Cargo.lock'))
    with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f:
        f.write(src)
    return d


@locked
def dump_fixtures():
    """(dump file, {fixture id: compiler message} of the definitions that do not compile)"""
    import fixtures
    ensure_driver()
    tier = '-t' if os.environ.get('VERIF_TIER') == 'thorough' else ''
    out = os.path.join(BUILD, 'out-fx' + tier)
    os.makedirs(out, exist_ok=True)
    f = os.path.join(out, 'kvfix.json')
    rej = os.path.join(out, 'rejected.json')
    for x in (f, rej):
        if os.path.exists(x):
            os.remove(x)
    t = os.path.join(BUILD, 't-fx')
    forget(t, ('knuffel', 'knuffel-derive'))
    bad = {}
    for _ in range(6):
        src = fixtures.crate(bad)
        d = fixture_crate(src, 'fx' + tier)
        forget(t, ('kvfix',))
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '-q', '--message-format', 'json',
                            '--manifest-path', d + '/Cargo.toml', '--target-dir', t], capture_output=True, text=True,
                           env=driver_env(out, 'kvfix', 'knuffel,kvfix'))
        if r.returncode == 0 and os.path.exists(f):
            with open(rej, 'w') as g:
                json.dump(bad, g)
            return f
        new = blame(src, r.stdout)
        if not new or set(new) <= set(bad):
            raise BuildError('definitions: ' + (first_error(r.stdout) or r.stderr or '')[-3000:])
        bad.update(new)
    raise BuildError('definitions: ' + (first_error(r.stdout) or '')[-3000:])


def messages(out):
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-message' and m['message'].get('level') == 'error':
            yield m['message'], m.get('target', {}).get('name')


def first_error(out):
    for m, t in messages(out):
        return m.get('rendered')


def blame(src, out):
    """the fixtures the compiler's errors are about"""
    at, cur = [None], None
    for l in src.splitlines():
        if l.startswith('// fixture '):
            cur = l.split()[2]
        at.append(cur)
    res = {}
    for m, t in messages(out):
        if t != 'kvfix':
            return {}
        for s in m.get('spans', []):
            while s and not s['file_name'].endswith('src/lib.rs') and s.get('expansion'):
                s = s['expansion']['span']
            if s and s['file_name'].endswith('src/lib.rs') and s['line_start'] < len(at) and at[s['line_start']]:
                res.setdefault(at[s['line_start']], m.get('message', '') + ' ' + (s.get('label') or ''))
    return res


if __name__ == '__main__':
    t0 = time.time()
    print(dump_lib(), time.time() - t0)
    if 'fx' in sys.argv:
        print(dump_fixtures(), time.time() - t0)
