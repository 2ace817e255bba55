"""Programs that must or must not compile against the analysed crate.

A rejecting witness comes with a twin that differs in the one thing the rule
forbids and has to compile, so that a rejection has no other cause."""
import concurrent.futures
import json
import os
import subprocess
import tempfile

import build


def artefacts(target):
    """the newest build of the crate by cargo in `target`, and where its dependencies are"""
    ms, ds = [], set()
    for d, _, fs in os.walk(os.path.join(target, 'debug')):
        for f in fs:
            if f.startswith('lib') and f.endswith(('.rmeta', '.so', '.rlib')):
                ds.add(d)
                if f.startswith('libknuffel-') and f.endswith('.rmeta'):
                    ms.append(os.path.join(d, f))
    if not ms:
        raise build.BuildError('no metadata of the library in ' + target)
    return max(ms, key=os.path.getmtime), sorted(ds)


def compile_one(src, lib, extra=()):
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, 'w.rs')
        with open(f, 'w') as h:
            h.write(src)
        cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'w', '--emit', 'metadata',
               '--error-format', 'json', '-Awarnings', '--out-dir', t,
               '--extern', 'knuffel=' + lib[0]] + [x for d in lib[1] for x in ('-L', 'dependency=' + d)] + list(extra) + [f]
        env = dict(os.environ)
        for v in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
            env.pop(v, None)
        r = subprocess.run(cmd, capture_output=True, text=True, env=env)
        errs = []
        for l in r.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('level') == 'error' and not m['message'].startswith('aborting due'):
                code = (m.get('code') or {}).get('code')
                errs.append((code, m['message'], bool(m.get('spans'))))
        return r.returncode, errs, r.stderr


ENV_CODES = {'E0463', 'E0460', 'E0461', 'E0462', 'E0514', 'E0786'}


def many(srcs, lib, extra=()):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: compile_one(s, lib, extra), srcs))


def judge(ck, rule, pairs, lib, prelude="", extra=()):
    """pairs: (name, accepted source or None, rejected source or None)"""
    jobs, what = [], []
    for name, good, bad in pairs:
        if good is not None:
            jobs.append(prelude + good)
            what.append((name, True))
        if bad is not None:
            jobs.append(prelude + bad)
            what.append((name, False))
    for (name, want), src, (rc, errs, raw) in zip(what, jobs, many(jobs, lib, extra)):
        site = '%s %s' % ('accepts' if want else 'rejects', name)
        body = src[len(prelude):].strip()
        if any(c in ENV_CODES or m.startswith('extern location') for c, m, _ in errs) or (rc != 0 and not errs):
            ck.undecided(rule, site, 'the compiler could not be run: ' + (str(errs[:1]) + raw[-300:]))
        elif want and rc != 0:
            ck.bad(rule, site, 'a program that should compile does not:\n%s\n%s' % (body, errs[0][1]))
        elif not want and rc == 0:
            ck.bad(rule, site, 'a program that should be rejected compiles:\n%s' % body)
        else:
            ck.good(rule, site, errs[0][1][:160] if errs else '')
    ck.extra['witnesses'] = ck.extra.get('witnesses', 0) + len(jobs)
