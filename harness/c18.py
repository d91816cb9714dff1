"""C18: the object store backend. z5py.S3File on an in-memory stand-in for the AWS SDK (paged listings, batched deletion, failing
requests) and z5py.File on the file system run in lock step: breadth-first over the containers reachable with an alphabet of
operations, all observations in every state, all openings, and every fault of every request of every operation."""
import ctypes
import itertools
import json
import os
import pickle
import struct
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import numpy as np
import pyh
import z5py
from z5py import _z5py

ctx = pyh.Ctx(sys.argv[1:])
pyh.drop_privileges(ctx.scratch)
ROOT = os.path.join(ctx.scratch, 'z5v')
os.makedirs(ROOT, exist_ok=True)
LIB = ctypes.CDLL(_z5py.__file__)
LIB.fs3_dump.restype = ctypes.c_void_p
LIB.fs3_log.restype = ctypes.c_char_p
LIB.fs3_fault.argtypes = [ctypes.c_long, ctypes.c_int]
LIB.fs3_requests.restype = ctypes.c_long
BUCKET = b'bucket'
FAULTS = ['internal', 'denied', 'throttled', 'network', 'lost', 'short']


# ------------------------------------------------------------------ both stores

def dump(bucket=BUCKET):
    n = ctypes.c_size_t()
    p = LIB.fs3_dump(bucket, ctypes.byref(n))
    raw = ctypes.string_at(p, n.value)
    res, i = {}, 0
    while i < len(raw):
        k, = struct.unpack_from('I', raw, i)
        key = raw[i + 4:i + 4 + k].decode()
        i += 4 + k
        k, = struct.unpack_from('I', raw, i)
        res[key] = raw[i + 4:i + 4 + k]
        i += 4 + k
    return res


def load(objects, bucket=BUCKET):
    raw = b''.join(struct.pack('I', len(k.encode())) + k.encode() + struct.pack('I', len(v)) + v for k, v in objects.items())
    LIB.fs3_load(bucket, raw, ctypes.c_size_t(len(raw)))


def isdoc(p):
    return p.rsplit('/', 1)[-1] in ('.zgroup', '.zarray', '.zattrs', 'zarr.json')


def canon(objects):
    """metadata as parsed, everything else as bytes"""
    res = {}
    for k, v in objects.items():
        if isdoc(k):
            try:
                v = json.dumps(json.loads(v), sort_keys=True)
            except ValueError:
                v = 'not json: %r' % v
        res[k] = v
    return res


class World:
    """one container in both stores, with other objects around it"""

    def __init__(self, fmt, prefix):
        self.fmt, self.prefix = fmt, prefix
        self.path = os.path.join(ROOT, 'c.zarr')
        self.zf = 2 if fmt.startswith('zarr2') else 3
        self.sep = {'zarr2': '.', 'zarr2n': '/'}.get(fmt)
        p = prefix
        self.others = {} if not p else {p + '2/.zgroup': b'{"zarr_format": 2}', p + '2/d/.zarray': b'x', p[:-1] + 'o/.zgroup': b'x', p + '.zgroup': b'other',
                                        p + '-/d/0.0': b'y', p: b'marker', '0': b'z', 'zarr.json': b'{}', '~': b'last'}
        os.makedirs(ROOT, exist_ok=True)

    def s3(self, mode='a', **kw):
        if self.sep:
            kw.setdefault('dimension_separator', self.sep)
        kw.setdefault('zarr_format', self.zf)
        return z5py.S3File(BUCKET.decode(), self.prefix, mode, **kw)

    def fs(self, mode='a', **kw):
        if self.sep:
            kw.setdefault('dimension_separator', self.sep)
        kw.setdefault('zarr_format', self.zf)
        return z5py.File(self.path, mode, use_zarr_format=True, **kw)

    def reset(self, files):
        """files: {relative path: bytes}, None if there is no container"""
        objects = dict(self.others)
        if files is not None:
            for k, v in files.items():
                objects[self.prefix + '/' + k if self.prefix else k] = v
        load(objects)
        if files is None:
            if os.path.exists(self.path):
                pyh.restore(self.path, {})
                os.rmdir(self.path)
            return
        os.makedirs(self.path, exist_ok=True)
        dirs = {k[:i + 1]: None for k in files for i in range(len(k)) if k[i] == '/'}
        have = pyh.snapshot(self.path)
        for p in [k for k, v in have.items() if v is not None and k not in files]:    # a directory where a file should be can not occur
            os.unlink(os.path.join(self.path, p))
        pyh.restore(self.path, dict(dirs, **files), {k: v for k, v in have.items() if v is None or k in files})

    def objects(self):
        """(the container, everything else)"""
        inside, outside = {}, {}
        pre = self.prefix + '/' if self.prefix else ''
        for k, v in dump().items():
            if k.startswith(pre):
                inside[k[len(pre):]] = v
            else:
                outside[k] = v
        return inside, outside

    def files(self):
        if not os.path.exists(self.path):
            return {}
        return {k: v for k, v in pyh.snapshot(self.path).items() if v is not None}


# ------------------------------------------------------------------ operations: functions of a file

def val(x):
    if isinstance(x, np.ndarray):
        return ['array', str(x.dtype), x.shape, x.tolist()]
    if isinstance(x, np.generic):
        return ['scalar', str(x.dtype), x.item()]
    if isinstance(x, z5py.Dataset):
        return ['dataset', x.name, x.shape, x.chunks, x.shards, str(x.dtype), x.compression]
    if isinstance(x, z5py.Group):
        return ['group', x.name]
    if isinstance(x, (list, tuple)):
        return [val(y) for y in x]
    if isinstance(x, dict):
        return {k: val(v) for k, v in x.items()}
    return x


DATA = np.arange(1, 11, dtype='int16').reshape(2, 5)
SHAPES = {'d': dict(shape=(2, 5), chunks=(1, 2), dtype='int16')}


def dskw(w):
    kw = dict(SHAPES['d'], compression='gzip')
    if w.fmt == 'sharded':
        kw['shards'] = (2, 4)
    if w.fmt == 'zarr3v2':
        kw['chunk_key_encoding'] = 'v2'
    return kw


def need(x, cls):
    if not isinstance(x, cls):
        raise TypeError('not a %s' % cls.__name__)
    return x


NODES = ['a', 'ab', 'a/d', 'd', 'ab/a', 'dd']
HIDDEN = ['', '/', '.', '..', '../c.zarr', 'a/', '/a', 'a//d', '.zgroup', '.zattrs', 'zarr.json', 'a/.zgroup', 'd/.zarray', 'd/zarr.json', 'd/0.0', 'd/0', 'd/c', 'd/c/0', 'attributes.json', 'b', 'a/b', 'd/x', 'A']


def mutators(w):
    ops = []

    def op(name, f):
        ops.append((name, f))
    kw = dskw(w)
    for n in ('a', 'ab', 'ab/a', '', '..', '.zgroup', '../c.zarr', 'a/zarr.json'):
        op('create_group(%s)' % n, lambda f, n=n: f.create_group(n))
    for n in ('ab', 'ab/a'):
        op('require_group(%s)' % n, lambda f, n=n: f.require_group(n))
    for n in ('d', 'dd', 'a/d', 'd/x', '.zattrs'):
        op('create_dataset(%s)' % n, lambda f, n=n: f.create_dataset(n, **kw))
    op('create_dataset(d,data)', lambda f: f.create_dataset('d', data=DATA, **{k: v for k, v in kw.items() if k not in ('shape', 'dtype')}))
    op('create_dataset(a/d,2 threads)', lambda f: f.create_dataset('a/d', data=DATA, n_threads=2, **{k: v for k, v in kw.items() if k not in ('shape', 'dtype')}))
    op('create_dataset(bad chunks)', lambda f: f.create_dataset('a/q', shape=(4,), chunks=(0,), dtype='uint8'))
    op('create_dataset(bad compression)', lambda f: f.create_dataset('q', shape=(4,), chunks=(2,), dtype='uint8', compression='nope'))
    op('require_dataset(d)', lambda f: f.require_dataset('d', **kw))
    op('require_dataset(d,other)', lambda f: f.require_dataset('d', shape=(2, 4), dtype='int16', chunks=(1, 2)))
    for n in ('a', 'ab', 'd', 'a/d', 'dd', '', '.zgroup', '..', 'ab/a', 'd/c', 'd/0'):
        op('del(%s)' % n, lambda f, n=n: f.__delitem__(n))
    op('handle.remove(b)', lambda f: f._handle_factory(f._handle, 'b').remove())
    for n in ('', 'a', 'd'):
        op('attrs[%s].set' % n, lambda f, n=n: (f[n] if n else f).attrs.__setitem__('k', [1, 'x']))
        op('attrs[%s].update' % n, lambda f, n=n: (f[n] if n else f).attrs.update({'k': {'z': None}, 'l': 1.5}))
        op('attrs[%s].del' % n, lambda f, n=n: (f[n] if n else f).attrs.__delitem__('k'))
    for n in ('d', 'a/d'):
        op('%s[:]=data' % n, lambda f, n=n: need(f[n], z5py.Dataset).__setitem__(slice(None), DATA))
    op('d[:]=0', lambda f: need(f['d'], z5py.Dataset).__setitem__(slice(None), 0))
    op('d[1,1:4]=9', lambda f: need(f['d'], z5py.Dataset).__setitem__((1, slice(1, 4)), 9))

    def threads(f):
        d = need(f['d'], z5py.Dataset)
        d.n_threads = 2
        d[:] = DATA * 2
    op('d[:]=data*2,2 threads', threads)
    op('d.write_chunk(0,1)', lambda f: need(f['d'], z5py.Dataset).write_chunk((0, 1), np.array([[7, 8]], dtype='int16')))
    op('d.write_chunk(1,2)', lambda f: need(f['d'], z5py.Dataset).write_chunk((1, 2), np.array([[7]], dtype='int16')))
    op('d.write_chunk(bad shape)', lambda f: need(f['d'], z5py.Dataset).write_chunk((0, 0), np.array([[7, 8, 9]], dtype='int16')))
    op('d[5]=1', lambda f: need(f['d'], z5py.Dataset).__setitem__(5, 1))
    return ops


def observers(w):
    ops = []

    def op(name, f):
        ops.append((name, f))
    for n in NODES + HIDDEN:
        op('in(%s)' % n, lambda f, n=n: n in f)
        op('get(%s)' % n, lambda f, n=n: val(f[n]) if n.strip('/') else None)
        op('is_sub_group(%s)' % n, lambda f, n=n: f.is_sub_group(n))
    op('keys', lambda f: [sorted(f), len(f), sorted(f.keys())])
    op('keys(a)', lambda f: [sorted(need(f['a'], z5py.Group)), len(f['a'])])
    op('keys(ab)', lambda f: sorted(need(f['ab'], z5py.Group)))
    op('values', lambda f: sorted(val(x) for x in f.values()))

    def visit(g):
        res = []
        g.visititems(lambda n, o: res.append([n, val(o)]))
        return sorted(res)
    op('visit', visit)
    op('visit(a)', lambda f: visit(need(f['a'], z5py.Group)))
    op('visit(ab)', lambda f: visit(need(f['ab'], z5py.Group)))
    for n in ('', 'a', 'ab', 'd', 'a/d'):
        op('attrs[%s]' % n, lambda f, n=n: dict((f[n] if n else f).attrs))
        op('attrs[%s] in' % n, lambda f, n=n: ['k' in (f[n] if n else f).attrs, (f[n] if n else f).attrs.get('l')])
    for n in ('d', 'a/d'):
        op('%s[:]' % n, lambda f, n=n: val(need(f[n], z5py.Dataset)[:]))
        op('%s chunks' % n, lambda f, n=n: [[need(f[n], z5py.Dataset).chunk_exists(c), val(f[n].read_chunk(c))] for c in itertools.product(range(2), range(3))])
    op('d[1,1:4]', lambda f: val(need(f['d'], z5py.Dataset)[1, 1:4]))

    def threads(f):
        d = need(f['d'], z5py.Dataset)
        d.n_threads = 2
        return val(d[:])
    op('d[:],2 threads', threads)
    op('d.read_chunk(2,0)', lambda f: f['d'].read_chunk((2, 0)))
    op('d props', lambda f: [f['d'].chunks_per_dimension, f['d'].number_of_chunks, f['d'].compression_opts, f['d'].is_zarr, len(f['d'])])
    op('is_zarr', lambda f: [f.is_zarr, f['a'].is_zarr])
    op('parents', lambda f: [f['a/d'].parent.name, f['a/d'].file.name, sorted(f['a/d'].file)])
    op('pickle', lambda f: sorted(pickle.loads(pickle.dumps(f))))
    op('pickle(a)', lambda f: [val(pickle.loads(pickle.dumps(f['a']))), sorted(pickle.loads(pickle.dumps(need(f['a'], z5py.Group))))])
    op('pickle(a/d)', lambda f: val(pickle.loads(pickle.dumps(need(f['a/d'], z5py.Dataset)))[:]))
    return ops


def attempt(f, *a):
    try:
        return ['value', val(f(*a))]
    except Exception as e:  # noqa
        return ['raises', type(e).__name__], e


def outcome(r):
    return r[0] if isinstance(r, tuple) else r


def detail(r):
    return ('%s (%s)' % (r[0][1], r[1])) if isinstance(r, tuple) else repr(r[1])[:300]


def compare(w, s, sig, r3, rf):
    ctx.check(outcome(r3) == outcome(rf), 'answer:' + sig, lambda: '%s: S3 %s, file system %s' % (s, detail(r3), detail(rf)))


def compare_stores(w, s, sig):
    ok = True
    inside, outside = w.objects()
    ok &= ctx.check(outside == w.others, 'bystander:' + sig, lambda: '%s: other objects changed: %s' % (s, [k for k in set(outside) | set(w.others) if outside.get(k) != w.others.get(k)]))
    files = w.files()
    a, b = canon(inside), canon(files)
    ok &= ctx.check(a == b, 'objects:' + sig, lambda: '%s: objects and files differ: %s' % (s, [(k, a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:3]))
    return inside, ok


def faults(w, name, f, state, s, sig):
    """every request of the operation, with every fault"""
    w.reset(state)
    LIB.fs3_fault(-1, -1)
    f3 = w.s3('a')
    LIB.fs3_fault(-1, -1)
    r0 = outcome(attempt(f, f3))
    n = LIB.fs3_requests()
    good, _ = w.objects()
    group = '{"zarr_format": 2}' if w.zf == 2 else json.dumps({'zarr_format': 3, 'node_type': 'group', 'attributes': {}}, sort_keys=True)
    leftover = {}
    if r0[0] == 'raises' and name.startswith(('create_', 'require_')):
        leftover = {g + ('/.zgroup' if w.zf == 2 else '/zarr.json'): group for g in ('a',)}
    for k in range(n):
        for kind, fname in enumerate(FAULTS):
            if not ctx.thorough and fname in ('throttled', 'network'):
                continue
            load({**w.others, **{(w.prefix + '/' + q if w.prefix else q): v for q, v in state.items()}})
            LIB.fs3_fault(-1, -1)
            f3 = w.s3('a')
            LIB.fs3_fault(k, kind)
            r = attempt(f, f3)
            hit = LIB.fs3_hit()
            log = LIB.fs3_log().decode().split('\n')
            LIB.fs3_fault(-1, -1)
            inside, outside = w.objects()
            ctx.add('faults')
            ctx.add('transitions')
            t = '%s: request %d (%s) %s' % (s, k, log[k] if k < len(log) else '', fname)
            fsig = sig.split('(')[0].split('[')[0] + ':' + (log[k].split(' ')[0] if k < len(log) else '') + ':' + fname
            ctx.check(outside == w.others, 'fault-bystander:' + fsig, lambda: '%s: other objects changed' % t)
            if not hit or not isinstance(r, tuple):
                # as if nothing had happened
                ctx.check(outcome(r) == r0, 'fault-answer:' + fsig, lambda: '%s: %s instead of %s' % (t, detail(r), r0))
                ctx.check(inside == good, 'fault-silent:' + fsig, lambda: '%s: no error, but the objects differ: %s' % (t, [q for q in set(inside) | set(good) if inside.get(q) != good.get(q)]))
            else:
                # reported; every object is the old or the new one (the groups on the way to a node that was refused are
                # removed again, which needs requests as well)
                a, b, c = canon(inside), canon(good), canon(state)
                bad = [q for q in set(a) | set(b) | set(c) if a.get(q) not in (b.get(q), c.get(q)) and not (q in leftover and a[q] == leftover[q]) and
                       not (name.startswith('del(') and q.startswith(name[4:-1] + '/') and not isdoc(q))]     # (the chunks of a shard are removed one by one)
                ctx.check(not bad, 'fault-object:' + fsig, lambda: '%s: reported, but objects are neither old nor new: %s' % (t, bad[:3]))
                # (which error, when the answer of the operation was an error anyway, is not prescribed)
                if r0[0] == 'value':
                    ctx.check(isinstance(r[1], (RuntimeError, OSError, ValueError)) and not isinstance(r[1], KeyError), 'fault-kind:' + fsig, lambda: '%s: reported as %s' % (t, detail(r)))


def explore(fmt, prefix):
    w = World(fmt, prefix)
    muts, obs = mutators(w), observers(w)
    depth = 4 if ctx.thorough else 3
    # the start: an empty container
    w.reset(None)
    w.fs('w')
    start = w.files()
    w.reset(start)
    # the states are found with the file system alone, every part judges its share of them
    seen = {json.dumps(sorted((k, v.hex()) for k, v in start.items())): ()}
    todo = [(start, ())]
    for i, (state, how) in enumerate(todo):
        if len(how) >= depth - 1 or i > (3000 if ctx.thorough else 350):
            break
        w.reset(state)
        for name, f in muts:
            f0 = w.fs('a')
            attempt(f, f0)
            files = w.files()
            if files != state:
                key = json.dumps(sorted((k, v.hex()) for k, v in files.items()))
                if key not in seen:
                    seen[key] = how + (name,)
                    todo.append((files, how + (name,)))
                w.reset(state)
    limit = 6000 if ctx.thorough else 900
    ctx.gauge['reachable %s %s' % (fmt, prefix)] = len(todo)
    for state, how in todo[:limit]:
        case = 'history %s %s: %s' % (fmt, prefix, ' '.join(h.replace(' ', '_') for h in how))
        if not ctx.want(case):
            continue
        ctx.add('states')
        w.reset(state)
        LIB.fs3_config(2)
        LIB.fs3_fault(-1, -1)
        f3, f0 = w.s3('r'), w.fs('r')
        for name, f in obs:
            r3, rf = attempt(f, f3), attempt(f, f0)
            ctx.add('transitions')
            compare(w, case + ': ' + name, name, r3, rf)
            ctx.outcome(name + repr(outcome(r3)))
        inside, ok = compare_stores(w, case, 'reading')
        ctx.check(inside == state, 'reading-changes', lambda: case + ': reading changed objects')
        # refused in mode r
        for name, f in muts:
            r3, rf = attempt(f, f3), attempt(f, f0)
            ctx.add('transitions')
            if outcome(r3) != outcome(rf):
                compare(w, case + ' mode r: ' + name, 'r-' + name, r3, rf)
        compare_stores(w, case + ' in mode r', 'mode-r')
        for name, f in muts:
            w.reset(state)
            f3, f0 = w.s3('a'), w.fs('a')
            r3, rf = attempt(f, f3), attempt(f, f0)
            ctx.add('transitions')
            s = '%s: %s' % (case, name)
            compare(w, s, name, r3, rf)
            inside, ok = compare_stores(w, s, name)
            ctx.outcome(name + repr(outcome(r3)))
            if ok and inside != state:
                # what the live handle and a new one show
                for g3, g0 in ((f3, f0), (w.s3('r+'), w.fs('r+'))):
                    for oname, o in obs[-30:]:
                        a, b = attempt(o, g3), attempt(o, g0)
                        ctx.add('transitions')
                        if outcome(a) != outcome(b):
                            compare(w, s + ', ' + oname, 'after-' + name + '-' + oname, a, b)
        # faults: in the small states, all operations (the requests of the others are the same)
        if len(how) <= (2 if ctx.thorough else 1) or len(state) > 12 and how[-1] in ('create_dataset(dd)', 'attrs[d].set', 'attrs[a].set', 'create_group(ab)'):
            for name, f in muts + obs:
                if '2 threads' not in name:
                    faults(w, name, f, state, case + ': ' + name, name)
    ctx.sample('%s, prefix %r: %d containers; the last one: %s' % (fmt, prefix, len(todo), ' '.join(todo[-1][1])))


def openings(fmt, prefix):
    """every way to open what there is at the path"""
    w = World(fmt, prefix)
    w.reset(None)
    f = w.fs('w')
    f.create_group('a')
    f.create_dataset('d', data=DATA, **{k: v for k, v in dskw(w).items() if k not in ('shape', 'dtype')})
    full = w.files()
    for sname, state in (('absent', None), ('empty', {k: v for k, v in full.items() if isdoc(k) and '/' not in k}), ('full', full)):
        for mode, zf, fault in itertools.product(('r', 'r+', 'a', 'w', 'w-', 'x', 'q', ''), (2, 3, 1, 4, None, '2'), (False, True)):
            case = 'open %s %s %s mode %s zarr_format %r%s' % (fmt, prefix, sname, mode, zf, ' faults' if fault else '')
            if not ctx.want(case):
                continue
            LIB.fs3_config(2)
            w.reset(state)
            LIB.fs3_fault(-1, -1)
            r3, rf = attempt(lambda: sorted(w.s3(mode, zarr_format=zf))), attempt(lambda: sorted(w.fs(mode, zarr_format=zf)))
            n = LIB.fs3_requests()
            ctx.add('transitions')
            if not fault:
                compare(w, case, 'open-%s-%s' % (mode, sname), r3, rf)
                compare_stores(w, case, 'open-%s-%s' % (mode, sname))
                continue
            good, _ = w.objects()
            for k in range(n):
                for kind, fname in enumerate(FAULTS):
                    w.reset(state)
                    LIB.fs3_fault(k, kind)
                    r = attempt(lambda: sorted(w.s3(mode, zarr_format=zf)))
                    hit = LIB.fs3_hit()
                    log = LIB.fs3_log().decode().split('\n')[k]
                    LIB.fs3_fault(-1, -1)
                    inside, outside = w.objects()
                    ctx.add('faults')
                    ctx.add('transitions')
                    t = '%s: request %d (%s) %s' % (case, k, log, fname)
                    sig = 'fault-open-%s-%s:%s:%s' % (mode, sname, log.split(' ')[0], fname)
                    ctx.check(outside == w.others, 'bystander:' + sig, lambda: t + ': other objects changed')
                    if not hit or not isinstance(r, tuple):
                        ctx.check(outcome(r) == outcome(r3) and inside == good, sig, lambda: '%s: no error, but %s instead of %s' % (t, detail(r), detail(r3)))
                    else:
                        old = state or {}
                        bad = [q for q in set(inside) | set(good) | set(old) if inside.get(q) not in (good.get(q), old.get(q)) and not (mode == 'w' and q not in inside)]
                        ctx.check(not bad, 'object:' + sig, lambda: '%s: objects neither old nor new: %s' % (t, bad[:3]))
                        if mode in ('r', 'r+', 'a', 'w-', 'x') and state is not None:
                            ctx.check(inside == old, 'changed:' + sig, lambda: t + ': an existing container was changed')


def listings():
    """page sizes, numbers of children, names that are prefixes of one another"""
    names = ['a', 'a0', 'a-', 'a.b', 'aa', 'b', 'a!', 'ab', 'c', 'z', 'A']
    for fmt, page, n in itertools.product(('zarr2', 'zarr3'), (1, 2, 3, 5, 1000), range(len(names) + 1)):
        case = 'listing %s page %d children %d' % (fmt, page, n)
        if not ctx.want(case):
            continue
        w = World(fmt, 'p/q')
        w.reset(None)
        f = w.fs('w')
        for i, x in enumerate(names[:n]):
            if i % 3 == 2:
                f.create_dataset(x, data=DATA, chunks=(1, 2))
            else:
                f.create_group(x)
                if i % 3 == 1:
                    f.create_group(x + '/' + x)
        state = w.files()
        w.reset(state)
        LIB.fs3_config(page)
        f3, f0 = w.s3('a'), w.fs('a')
        for name, op in (('keys', lambda f: sorted(f)), ('len', len), ('visit', dict(observers(w))['visit'])):
            compare(w, case + ' ' + name, 'listing-' + name, attempt(op, f3), attempt(op, f0))
            ctx.add('transitions')
        for x in names[:n]:
            w.reset(state)
            f3, f0 = w.s3('a'), w.fs('a')
            compare(w, case + ' del ' + x, 'listing-del', attempt(f3.__delitem__, x), attempt(f0.__delitem__, x))
            compare_stores(w, case + ' del ' + x, 'listing-del')
            compare(w, case + ' keys after del ' + x, 'listing-keys', attempt(sorted, f3), attempt(sorted, f0))
            ctx.add('transitions', 2)
        LIB.fs3_config(2)


def main():
    for fmt, prefix in [('zarr2', 'p'), ('zarr3', 'p/q')] + [('sharded', ''), ('zarr2n', 'p'), ('zarr3v2', '')]:
        LIB.fs3_config(2)
        openings(fmt, prefix)
        if ctx.thorough or fmt in ('zarr2', 'zarr3', 'sharded'):
            explore(fmt, prefix)
    listings()
    LIB.fs3_drop(BUCKET)
    ctx.finish()


main()
