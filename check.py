#!/usr/bin/env python3
"""Driver of all checks: build harnesses from /repo's working tree, run them in parallel,
confirm every violation by replaying it alone, write evidence, print the verdict.

usage: check.py <property> [--replay FILE]
"""
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import resource
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
NCPU = min(8, os.cpu_count() or 1)
CXX = ['g++', '-std=c++20', '-w', '-DNDEBUG', '-I' + REPO + '/include', '-I' + VERIF + '/lib',
       '-DWITH_BLOSC', '-DWITH_ZLIB', '-DWITH_LIBDEFLATE', '-DWITH_BZIP2', '-DWITH_XZ',
       '-DWITH_LZ4', '-DWITH_ZSTD']
LIBS = ['-lblosc', '-ldeflate', '-lbz2', '-llzma', '-llz4', '-lzstd', '-lz', '-lpthread', '-ldl']
PY = '/opt/z5env/bin/python'


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ----------------------------------------------------------------- building

def _tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for root, dirs, files in sorted(os.walk(p)):
                dirs.sort()
                for f in sorted(files):
                    if f.endswith(('.pyc',)):
                        continue
                    q = os.path.join(root, f)
                    h.update(q.encode() + b'\0')
                    with open(q, 'rb') as fh:
                        h.update(fh.read())
                    h.update(b'\0')
        elif os.path.exists(p):
            h.update(p.encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(fh.read())
            h.update(b'\0')
    return h


def run_cmd(cmd, timeout=800):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise CheckError('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-6000:]))


def build_cpp(name, sources, flags=(), link=(), libs=None, deps=()):
    """compile every source in parallel, link; cached by content hash"""
    h = _tree_hash([REPO + '/include', VERIF + '/lib'] + [os.path.join(VERIF, 'harness', d) for d in deps])
    srcs = []
    for s in sources:
        path, fl = (s, flags) if isinstance(s, str) else (s[0], s[1])
        path = os.path.join(VERIF, path)
        with open(path, 'rb') as f:
            h.update(f.read())
        h.update(repr((path, list(fl))).encode())
        srcs.append((path, list(fl)))
    h.update(repr((list(link), libs)).encode())
    d = os.path.join(BUILD, name + '-' + h.hexdigest()[:20])
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=name + '.', dir=BUILD)
    try:
        t0 = time.time()
        objs = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = []
            for i, (s, fl) in enumerate(srcs):
                o = os.path.join(tmp, '%d.o' % i)
                objs.append(o)
                futs.append(ex.submit(run_cmd, CXX + fl + ['-c', s, '-o', o]))
            for f in futs:
                f.result()
        run_cmd(['g++', '-o', os.path.join(tmp, name)] + list(link) + objs + (LIBS if libs is None else list(libs)))
        for o in objs:
            os.remove(o)
        # drop older builds of the same harness
        for old in os.listdir(BUILD):
            if old.startswith(name + '-'):
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        os.replace(tmp, d)
        log('built %s in %.1f s' % (name, time.time() - t0))
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return exe


def build_py(s3=False):
    """z5py: the extension module compiled from the working tree, and the python files on top of it
    (s3: with the s3 backend, on top of an in-memory stand-in for the AWS SDK)"""
    fake = os.path.join(VERIF, 'lib', 'fakeaws')
    h = _tree_hash([REPO + '/include', REPO + '/src/python'] + ([fake] if s3 else []))
    kind = 'pys3-' if s3 else 'py-'
    d = os.path.join(BUILD, kind + h.hexdigest()[:20])
    if os.path.exists(d):
        return d
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='py.', dir=BUILD)
    try:
        t0 = time.time()
        q = subprocess.run([PY, '-c', 'import sysconfig, nanobind, os; print(sysconfig.get_paths()["include"]); '
                            'print(os.path.dirname(nanobind.__file__)); print(sysconfig.get_config_var("EXT_SUFFIX"))'],
                           stdout=subprocess.PIPE, check=True).stdout.decode().split()
        inc, nb, suffix = q
        flags = [f for f in CXX if f != '-I' + os.path.join(VERIF, 'lib')] + [
            '-fPIC', '-fvisibility=hidden', '-fno-strict-aliasing', '-O0', '-I' + nb + '/include', '-I' + nb + '/ext/robin_map/include', '-I' + inc]
        if s3:
            flags += ['-DWITH_S3', '-I' + fake]
        lib = REPO + '/src/python/lib'
        srcs = sorted((os.path.join(lib, f) for f in os.listdir(lib) if f.endswith('.cxx')), key=lambda f: -os.path.getsize(f))
        srcs.append(nb + '/src/nb_combined.cpp')
        if s3:
            srcs.append(os.path.join(fake, 'fakeaws.cpp'))
        objs = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = []
            for i, s in enumerate(srcs):
                objs.append(os.path.join(tmp, '%d.o' % i))
                futs.append(ex.submit(run_cmd, flags + ['-c', s, '-o', objs[-1]]))
            for f in futs:
                f.result()
        pkg = os.path.join(tmp, 'z5py')
        shutil.copytree(REPO + '/src/python/module/z5py', pkg, ignore=shutil.ignore_patterns('__pycache__', '*.so'))
        run_cmd(['g++', '-shared', '-o', os.path.join(pkg, '_z5py' + suffix)] + objs + LIBS)
        for o in objs:
            os.remove(o)
        with open(os.path.join(pkg, '_version.py'), 'w') as f:
            f.write('__version__ = "0"\n__version_info__ = (0,)\n')
        for root, dirs, files in os.walk(tmp):
            os.chmod(root, 0o755)
        for old in os.listdir(BUILD):
            if old.startswith(kind):
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        os.replace(tmp, d)
        log('built z5py in %.1f s' % (time.time() - t0))
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return d


# ----------------------------------------------------------------- running

class Part:
    def __init__(self, cmd, scratch, idx, env=None, limit=600, mem=None):
        self.cmd, self.idx, self.limit, self.env = cmd, idx, limit, env
        self.mem = mem
        self.dir = os.path.join(scratch, 'p%s' % idx)
        self.out = os.path.join(scratch, 'out.%s.json' % idx)
        self.prog = os.path.join(scratch, 'prog.%s' % idx)
        self.err = os.path.join(scratch, 'err.%s' % idx)

    def run(self):
        os.makedirs(self.dir, exist_ok=True)
        os.chmod(self.dir, 0o777)
        cmd = self.cmd + ['--scratch', self.dir, '--out', self.out, '--progress', self.prog]
        self.status = None
        with open(self.err, 'wb') as e:
            p = subprocess.Popen(cmd, stdout=e, stderr=e, env=self.env, start_new_session=True,
                                 preexec_fn=self.limits)
            try:
                rc = p.wait(timeout=self.limit)
                self.status = 'exit %d' % rc if rc else None
            except subprocess.TimeoutExpired:
                self.status = 'timeout after %d s' % self.limit
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        self.result = None
        if self.status is None:
            try:
                with open(self.out) as f:
                    self.result = json.load(f)
            except Exception as ex:
                self.status = 'no result: %s' % ex
        shutil.rmtree(self.dir, ignore_errors=True)
        return self

    def limits(self):
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if self.mem:
            resource.setrlimit(resource.RLIMIT_AS, (self.mem, self.mem))

    def progress(self):
        try:
            with open(self.prog, 'rb') as f:
                return f.read().split(b'\0')[0].decode(errors='replace')
        except OSError:
            return ''

    def errtail(self, n=3000):
        try:
            with open(self.err, 'rb') as f:
                return f.read()[-n:].decode(errors='replace')
        except OSError:
            return ''


def run_harness(ctx, label, cmd, parts=None, env=None, limit=600, mem=3 << 30):
    """run a harness over `parts` worker processes; returns merged result; crashes and hangs
    are replayed alone before they are reported"""
    parts = parts or NCPU
    quick = ctx['tier'] == 'quick'
    if quick:
        limit = min(limit, 400)
    env = dict(os.environ if env is None else env)
    env['Z5V_KNOWN'] = '\n'.join(pat for pat, _ in ctx.get('known', []))
    scratch = tempfile.mkdtemp(prefix='z5v.%s.' % label, dir=scratch_root())
    os.chmod(scratch, 0o755)
    merged = dict(count={}, gauge={}, samples=[], violations=[], outcomes=0)
    base = cmd + ['--tier', ctx['tier'], '--seed', str(ctx['seed'])]
    try:
        if ctx.get('only') is not None:
            todo = [Part(base + ['--only', ctx['only']], scratch, 'only', env, limit, mem)]
        else:
            todo = [Part(base + ['--part', '%d/%d' % (i, parts)], scratch, str(i), env, limit, mem) for i in range(parts)]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            done = list(ex.map(lambda p: p.run(), todo))
        for p in done:
            if p.result is None:
                case = p.progress()
                log('%s part %s: %s at case %s\n%s' % (label, p.idx, p.status, case, p.errtail(1500)))
                # alone, with a longer limit when it was a hang
                again = Part(base + ['--only', case], scratch, p.idx + 'r', env,
                             120, mem).run() if case else None
                if again is not None and again.result is None:
                    kind = 'hang' if 'timeout' in again.status else 'crash'
                    merged['violations'].append(dict(
                        case=case, sig='%s:%s' % (kind, case),
                        msg='%s: the process %s; %s' % (case, again.status, again.errtail(1500))))
                    continue
                # not reproducible alone: the whole part once more
                p2 = Part(p.cmd, scratch, p.idx + 's', env, min(limit, 300) if quick else limit, mem).run()
                if p2.result is None:
                    merged['violations'].append(dict(
                        case=p2.progress(), sig='crash-in-sequence:%s' % p2.progress(), part=True,
                        msg='%s (twice, not when run alone); %s' % (p2.status, p2.errtail(1500))))
                    continue
                p.result = p2.result
            r = p.result
            for k, v in r.get('count', {}).items():
                merged['count'][k] = merged['count'].get(k, 0) + v
            for k, v in r.get('gauge', {}).items():
                merged['gauge'][k] = max(merged['gauge'].get(k, v), v)
            merged['samples'] += r.get('samples', [])
            merged['outcomes'] += r.get('outcomes', 0)
            merged['violations'] += r.get('violations', [])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for v in merged['violations']:
        v['label'] = label
    # confirm by replaying alone
    if ctx.get('only') is None and merged['violations']:
        confirmed = []
        seen_cases = {}
        listed = lambda v: any(fnmatch.fnmatchcase(v['sig'], pat) for pat, _ in ctx.get('known', []))
        t0 = time.time()
        for v in sorted(merged['violations'], key=listed)[:60]:
            if time.time() - t0 > 90 and any(x.get('replayed') for x in confirmed):
                break
            if v.get('part') or v['sig'].startswith(('hang:', 'crash:')):
                confirmed.append(v)
                continue
            c = v['case']
            if c not in seen_cases:
                s2 = tempfile.mkdtemp(prefix='z5v.%s.' % label, dir=scratch_root())
                os.chmod(s2, 0o755)
                try:
                    seen_cases[c] = Part(base + ['--only', c], s2, 'c', env, min(limit, 200), mem).run().result
                finally:
                    shutil.rmtree(s2, ignore_errors=True)
            r = seen_cases[c]
            v['replayed'] = r is None or any(x['sig'] == v['sig'] for x in r['violations'])
            if not v['replayed']:
                log('NOT reproduced when replayed alone: %s: %s' % (c, v['msg']))
            confirmed.append(v)
        # a violation that does not replay is not reported (every harness is deterministic)
        dropped = [v for v in confirmed if v.get('replayed') is False]
        merged['dropped'] = len(dropped)
        merged['violations'] = [v for v in confirmed if v.get('replayed') is not False]
    return merged


def scratch_root():
    for d in ('/dev/shm', os.environ.get('TMPDIR', '/tmp'), '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 512 << 20:
                return d
    return '/tmp'


# ----------------------------------------------------------------- known findings

def known_findings(prop):
    """lines: 'finding: property=<id> sig=<glob> <text>'"""
    res = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                f = line[len('finding:'):].strip().split(None, 2)
                if f[0] == 'property=' + prop and f[1].startswith('sig='):
                    res.append((f[1][4:], f[2] if len(f) > 2 else ''))
    return res


def main():
    import checks
    prop = sys.argv[1]
    ctx = dict(tier='thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick',
               seed=int(os.environ.get('VERIF_SEED', '1') or 1))
    if '--thorough' in sys.argv:
        ctx['tier'] = 'thorough'
    only_label = None
    if '--replay' in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        ctx['only'], only_label, ctx['tier'] = r['case'], r['label'], r['tier']
    t0 = time.time()
    kf = ctx['known'] = known_findings(prop)
    spec = checks.CHECKS[prop]
    results = {}
    for label, cmd, kw in spec['runs'](ctx):
        if only_label is not None and label != only_label:
            continue
        if callable(cmd):
            cmd = cmd()
        t1 = time.time()
        if time.time() - t0 > 300 and ctx['tier'] == 'quick' and any(
                not any(fnmatch.fnmatchcase(v['sig'], pat) for pat, _ in kf)
                for r in results.values() for v in r['violations']):
            break       # there is a confirmed violation already
        results[label] = run_harness(ctx, label, cmd, **kw)
        log('%s: %.1f s %s' % (label, time.time() - t1, results[label]['count']))
    viol = [v for r in results.values() for v in r['violations']]
    kf = known_findings(prop)
    new, matched = [], {}
    for v in viol:
        for pat, text in kf:
            if fnmatch.fnmatchcase(v['sig'], pat):
                matched.setdefault((pat, text), []).append(v)
                break
        else:
            new.append(v)
    if ctx.get('only') is None:
        cov = spec['coverage'](results)
        ev = dict(property=prop, tier=ctx['tier'], seed=ctx['seed'], level=spec['level'], coverage=cov,
                  assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2),
                  violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for (pat, text), vs in matched.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if new:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(new[:10]):
            path = os.path.join(rdir, '%s-%d.json' % (prop, i))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, tier=ctx['tier'], label=v['label'], case=v['case'], sig=v['sig'],
                               msg=v['msg'], how='python3 check.py %s --replay %s' % (prop, path)), f, indent=1)
            log('  %s: %s' % (v['sig'], v['msg'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        return 1
    print('%s: held (%s)' % (prop, json.dumps({k: v for k, v in (cov if ctx.get('only') is None else {}).items()
                                               if isinstance(v, int)})))
    return 0


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    sys.modules['check'] = sys.modules['__main__']
    try:
        rc = main()
    except CheckError as e:
        log(str(e))
        rc = 2
    sys.exit(rc)
