"""C14: access modes. The full product of opening a path (class, mode, format arguments, what is there), of every operation on every
kind of handle in every mode, and all short histories of opening, changing and reopening a path, judged by a model of the documented
modes and byte-wise snapshots. Runs as an unprivileged user in a scratch directory."""
import copy
import itertools
import json
import os
import pickle
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import numpy as np
import pyh
import z5py
from z5py import _z5py

ctx = pyh.Ctx(sys.argv[1:])
DROPPED = pyh.drop_privileges(ctx.scratch)
ROOT = os.path.join(ctx.scratch, 'z5v')
os.makedirs(ROOT, exist_ok=True)
MODES = ['r', 'r+', 'w', 'w-', 'x', 'a']
DATA = np.arange(6, dtype='int16').reshape(2, 3) + 1


def wipe(path):
    # (only ever below the scratch directory)
    assert os.path.abspath(path).startswith(ROOT + '/')
    if os.path.islink(path) or os.path.isfile(path):
        os.unlink(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)


def look(path):
    """what is at the path, byte by byte"""
    if os.path.islink(path):
        return ('link', os.readlink(path))
    if os.path.isfile(path):
        with open(path, 'rb') as f:
            return ('file', f.read())
    if os.path.isdir(path):
        return ('dir', pyh.snapshot(path))
    return None


def put(path, files):
    for name, content in files.items():
        p = os.path.join(path, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if content is not None:
            with open(p, 'w') as f:
                f.write(content if isinstance(content, str) else json.dumps(content))


def container_format(path):
    """independent: the format of the container at path"""
    if os.path.exists(os.path.join(path, '.zgroup')):
        with open(os.path.join(path, '.zgroup')) as f:
            return 'zarr2' if json.load(f) == {'zarr_format': 2} else 'bad'
    if os.path.exists(os.path.join(path, 'zarr.json')):
        with open(os.path.join(path, 'zarr.json')) as f:
            d = json.load(f)
        return 'zarr3' if d.get('zarr_format') == 3 and d.get('node_type') == 'group' else 'bad'
    p = os.path.join(path, 'attributes.json')
    if os.path.exists(p):
        with open(p) as f:
            return 'n5' if 'n5' in json.load(f) else 'bad'
    return None


# ---------------------------------------------------------------------------- A: opening

N5DS = {'dimensions': [3, 2], 'blockSize': [2, 1], 'dataType': 'int16', 'compression': {'type': 'raw'}}
Z2DS = {'zarr_format': 2, 'shape': [2, 3], 'chunks': [1, 2], 'dtype': '<i2', 'compressor': None, 'fill_value': 0, 'order': 'C', 'filters': None}
Z3DS = {'zarr_format': 3, 'node_type': 'array', 'shape': [2, 3], 'data_type': 'int16', 'fill_value': 0,
        'chunk_grid': {'name': 'regular', 'configuration': {'chunk_shape': [1, 2]}},
        'chunk_key_encoding': {'name': 'default', 'configuration': {'separator': '/'}},
        'codecs': [{'name': 'bytes', 'configuration': {'endian': 'little'}}]}
# state: (files, format or None, opens without change in r / r+ / a: True, False (must be refused) or None (either))
STATES = {
    'absent': (None, None, None),
    'orphan': (None, None, None),                       # the parent directory does not exist either
    'n5': ({'attributes.json': {'n5': '2.0.0'}}, 'n5', True),
    'n5+': ({'attributes.json': {'n5': '2.0.0', 'x': 1}, 'd/attributes.json': N5DS, 'd/0/0': 'x', 'g/attributes.json': {}, 'g/d/attributes.json': N5DS},
            'n5', True),
    'n5-4.9': ({'attributes.json': {'n5': '4.9.12'}, 'd/attributes.json': N5DS}, 'n5', True),
    'n5-noversion': ({'d/attributes.json': N5DS}, 'n5', None),
    'n5-5': ({'attributes.json': {'n5': '5.0.0'}, 'd/attributes.json': N5DS}, None, False),
    'n5-10': ({'attributes.json': {'n5': '10.1.0'}, 'd/attributes.json': N5DS}, None, False),
    'n5-12': ({'attributes.json': {'n5': '12'}}, None, False),
    'z2': ({'.zgroup': {'zarr_format': 2}}, 'zarr2', True),
    'z2+': ({'.zgroup': {'zarr_format': 2}, '.zattrs': {'x': 1}, 'd/.zarray': Z2DS, 'd/0.0': 'abcd', 'g/.zgroup': {'zarr_format': 2}}, 'zarr2', True),
    'z3': ({'zarr.json': {'zarr_format': 3, 'node_type': 'group'}}, 'zarr3', True),
    'z3+': ({'zarr.json': {'zarr_format': 3, 'node_type': 'group', 'attributes': {'x': 1}}, 'd/zarr.json': Z3DS,
             'g/zarr.json': {'zarr_format': 3, 'node_type': 'group', 'attributes': {}}}, 'zarr3', True),
    'z-future': ({'.zgroup': {'zarr_format': 4}}, None, False),
    'z1': ({'.zgroup': {'zarr_format': 1}, 'd/.zarray': Z2DS}, None, False),
    'z-corrupt': ({'.zgroup': '{"zarr_format": ', 'd/.zarray': Z2DS}, None, False),
    'z3-corrupt': ({'zarr.json': '', 'd/zarr.json': Z3DS}, None, False),
    'n5-corrupt': ({'attributes.json': '{"n5": "2.0', 'd/attributes.json': N5DS}, None, False),
    'emptydir': ({'': None}, None, None),
    'plain': ({'keep.txt': 'precious', 'sub/deep/keep.txt': 'precious', 'sub/empty/': None}, None, None),
    'file': ('precious', None, None),
    'dataset-n5': ({'attributes.json': N5DS, '0/0': 'x'}, None, None),
    'dataset-z2': ({'.zarray': Z2DS, '0.0': 'abcd'}, None, None),
    'dataset-z3': ({'zarr.json': Z3DS}, None, None),
}
EXT = ['.n5', '.zarr', '.zr', '', '.N5']
ARGS = ([('File', dict(zarr_format=z, use_zarr_format=u)) for z in (2, 3, 1, 4, 0, -1, '3', None, 2.5) for u in (None, True, False)] +
        [('File', {}), ('N5File', {}), ('ZarrFile', {}), ('ZarrFile', dict(zarr_format=3)), ('ZarrFile', dict(zarr_format=4)),
         ('File', dict(dimension_separator='/')), ('File', dict(dimension_separator='-'))])
BADMODES = ['rw', 'W', '', 'wb', None, 'r ', 0, b'r']


def build_state(path, st):
    files = STATES[st][0]
    if isinstance(files, str):
        with open(path, 'w') as f:
            f.write(files)
    elif files is not None:
        os.makedirs(path)
        put(path, files)


def do_open(cls, path, mode, args):
    try:
        f = getattr(z5py, cls)(path, mode, **args)
    except Exception as e:
        return None, e
    return f, None


def fmt_name(isz, args):
    return ('zarr%d' % args.get('zarr_format', 2)) if isz else 'n5'


def opening():
    base = os.path.join(ROOT, 'open')
    os.makedirs(base, exist_ok=True)
    for st, ext, (cls, args), mode in itertools.product(STATES, EXT, ARGS, MODES + BADMODES):
        if mode in BADMODES and args:
            continue
        case = 'open %s%s %s(%s) %r' % (st, ext, cls, args, mode)
        if not ctx.want(case):
            continue
        ctx.add('openings')
        name = ('missing/' if st == 'orphan' else '') + 'c' + ext
        path = os.path.join(base, name)
        build_state(path, st)
        before = look(base)
        f, err = do_open(cls, path, mode, args)
        after = look(base)
        ctx.add('checks', 3)
        sig = 'open:%%s:%s:%s' % (st, mode)
        exists = st not in ('absent', 'orphan')
        if st == 'file':
            exists = True
        # an explicit format that contradicts the extension, and invalid arguments
        ext_fmt = {'.n5': False, '.N5': False, '.zarr': True, '.zr': True}.get(ext)
        want_zarr = {'N5File': False, 'ZarrFile': True}.get(cls, args.get('use_zarr_format'))
        bad_mode = mode in BADMODES
        contradiction = ext_fmt is not None and want_zarr is not None and ext_fmt != want_zarr
        isz = ext_fmt if ext_fmt is not None else (want_zarr if want_zarr is not None else None)
        bad_args = args.get('zarr_format', 2) not in (2, 3) or type(args.get('zarr_format', 2)) is not int
        changed = before != after
        if err is not None:
            # whatever is refused changes nothing
            ctx.check(not changed, sig % 'refused-changed', lambda: '%s raised %r, but changed the files: %s -> %s' %
                      (case, err, sorted(before[1]), sorted(after[1]) if after else None))
        if bad_mode or contradiction:
            ctx.check(err is not None, sig % 'accepted', lambda: case + ' did not raise')
        elif mode in ('r', 'r+'):
            ctx.check(not changed, sig % 'changed', lambda: '%s changed the files: %s -> %s' % (case, sorted(before[1]), sorted(after[1])))
            if not exists:
                ctx.check(err is not None, sig % 'absent', lambda: case + ' did not raise')
        elif mode in ('w-', 'x') and exists:
            ctx.check(err is not None, sig % 'exists', lambda: case + ' did not raise')
            ctx.check(not changed, sig % 'changed', lambda: '%s changed the files: %s -> %s' % (case, sorted(before[1]), sorted(after[1])))
        elif mode == 'a' and exists:
            ctx.check(not changed, sig % 'changed', lambda: '%s changed the files: %s -> %s' % (case, sorted(before[1]), sorted(after[1])))
        # existing containers
        if exists and mode in ('r', 'r+', 'a') and not contradiction and not bad_mode:
            ok = STATES[st][2]
            have = STATES[st][1]
            # the extension or the arguments may contradict what is stored
            clash = have is not None and isz is not None and isz != have.startswith('zarr')
            if ok is False:
                ctx.check(err is not None, sig % 'unsupported', lambda: case + ' did not raise')
            elif ok and not clash:
                if not bad_args:
                    ctx.check(err is None, sig % 'not-opened', lambda: '%s raised %r' % (case, err))
                if err is None:
                    ctx.check(f.is_zarr == have.startswith('zarr'), sig % 'format', lambda: case + ': is_zarr %s' % f.is_zarr)
                    kids = sorted(x for x in set(k.split('/')[0] for k in STATES[st][0] if '/' in k))
                    ctx.check(sorted(f) == kids, sig % 'keys', lambda: '%s: keys %s, expected %s' % (case, sorted(f), kids))
        # created containers
        creates = not bad_mode and not contradiction and ((mode == 'w') or (mode in ('w-', 'x', 'a') and not exists))
        if creates:
            if isz is False:
                pass                                        # the zarr format version of n5 files does not matter
            elif bad_args and isz:
                ctx.check(err is not None, sig % 'bad-format', lambda: case + ' did not raise')
            if not bad_args and not (ext_fmt is None and want_zarr is not None) and st not in ('orphan', 'file'):
                # (without an extension the format is inferred from the path, and an explicit format may contradict it)
                ctx.check(err is None, sig % 'not-created', lambda: '%s raised %r' % (case, err))
            if err is None:
                t = look(path)
                ok = t is not None and t[0] == 'dir' and all(k in ('.zgroup', 'zarr.json', 'attributes.json') for k in t[1])
                ctx.check(ok, sig % 'not-empty', lambda: '%s: the new container holds %s' % (case, t and (sorted(t[1]) if t[0] == 'dir' else t)))
                if ok:
                    got = container_format(path)
                    zf = args.get('zarr_format', 2)
                    if isz is not None:
                        exp = ('zarr%s' % zf) if isz else 'n5'
                        ctx.check(got == exp, sig % 'wrong-format', lambda: '%s: the new container is %s, expected %s' % (case, got, exp))
                    else:
                        ctx.check(got in ('n5', 'zarr%s' % zf), sig % 'wrong-format', lambda: '%s: the new container is %s' % (case, got))
                    ctx.check(f.is_zarr == got.startswith('zarr') if got else False, sig % 'is_zarr', lambda: case + ': is_zarr %s, stored %s' % (f.is_zarr, got))
                    ctx.check(list(f) == [], sig % 'keys', lambda: case + ': keys %s' % list(f))
                # nothing else was touched
                rest0 = {k: v for k, v in before[1].items() if not (k.startswith(name) or k == 'missing/')}
                rest1 = {k: v for k, v in after[1].items() if not (k.startswith(name) or k == 'missing/')}
                ctx.check(rest0 == rest1, sig % 'elsewhere', lambda: '%s changed %s' % (case, set(rest0) ^ set(rest1)))
        # what can be done with the handle
        if f is not None and not bad_mode and STATES[st][2] is not False:
            ctx.check(f.filename == path, sig % 'filename', lambda: case + ': filename %r' % f.filename)
            s0 = look(base)
            try:
                f.create_group('probe')
                raised = None
            except Exception as e:
                raised = e
            s1 = look(base)
            if mode == 'r' or raised is not None:
                ctx.check(s0 == s1, sig % 'probe-changed', lambda: '%s: create_group (%r) changed the files' % (case, raised))
            if mode == 'r':
                ctx.check(raised is not None, sig % 'probe', lambda: case + ': create_group did not raise')
            elif creates or STATES[st][2]:
                ctx.check(raised is None, sig % 'probe', lambda: '%s: create_group raised %r' % (case, raised))
            # a pickled handle is the same handle, and copies do not repeat what opening did
            s0 = look(base)
            try:
                f2 = pickle.loads(pickle.dumps(f))
                f3 = copy.copy(f)
                got = [(sorted(x), x.filename, x.is_zarr) for x in (f, f2, f3)]
            except Exception as e:
                got = e
            ctx.check(s0 == look(base), sig % 'pickle-changed', lambda: case + ': pickling changed the files')
            if creates or STATES[st][2]:
                ctx.check(isinstance(got, list) and got[0] == got[1] == got[2], sig % 'pickle', lambda: '%s: pickled %s' % (case, got))
        shutil.rmtree(base)
        os.makedirs(base)


# ------------------------------------------------------------- B: every operation in every mode

FORMATS = {'n5': ('.n5', 2), 'zarr': ('.zarr', 2), 'zarr3': ('.zarr', 3), 'sharded': ('.zarr', 3)}


def fill(f, fmt):
    """the same content, with whatever handle"""
    kw = dict(chunks=(1, 2), compression='gzip')
    if fmt == 'sharded':
        kw['shards'] = (2, 2)
    f.attrs['x'] = 1
    g = f.create_group('g')
    g.attrs['x'] = [1]
    g.create_group('empty')
    for p in ('d', 'g/d'):
        d = f.create_dataset(p, data=DATA, **kw)
        d.attrs['x'] = {'y': 1}
    f.create_dataset('g/h/partial', shape=(2, 3), dtype='int16', **kw)[0, 0] = 7
    f.create_dataset('flat', shape=(4,), dtype='uint8', chunks=(2,), compression='raw')[:2] = 0
    f.create_dataset('var', shape=(6,), dtype='int64', chunks=(3,), compression='raw')


def hold(cont, name):
    return cont[name] if name else cont


def _walk(f):
    out = []
    f.visititems(lambda n, o: out.append((n, type(o).__name__)))
    return sorted(out)


GROUPS = ['', 'g', 'g/empty', 'g/h']
DSETS = ['d', 'g/d', 'g/h/partial', 'flat', 'var']
# name -> (kind, function(handle)); operations that would change something
WRITE_G = {
    'create_group': lambda g: g.create_group('new'),
    'create_group nested': lambda g: g.create_group('new/er'),
    'require_group': lambda g: g.require_group('new'),
    'require_group nested': lambda g: g.require_group('new/er'),
    'create_dataset': lambda g: g.create_dataset('new', shape=(2, 2), dtype='uint8', chunks=(1, 1)),
    'create_dataset data': lambda g: g.create_dataset('new', data=np.ones((2, 2)), chunks=(1, 1)),
    'create_dataset nested': lambda g: g.create_dataset('new/er', shape=(2, 2), dtype='uint8', chunks=(1, 1)),
    'require_dataset': lambda g: g.require_dataset('new', shape=(2, 2), dtype='uint8', chunks=(1, 1)),
    'require_dataset nested': lambda g: g.require_dataset('new/er', shape=(2, 2), dtype='uint8', chunks=(1, 1)),
    'low create_group': lambda g: _z5py.create_group(g._handle, 'new', 2),
    'low create_group 3': lambda g: _z5py.create_group(g._handle, 'new', 3),
    'low create_dataset': lambda g: _z5py.create_dataset(g._handle, 'new', 'uint8', (2, 2), (1, 1), 'raw', '{}', 0, '.'),
    'low write_attributes': lambda g: _z5py.write_attributes(g._handle, '{"y": 1}'),
}
WRITE_CHILD = {     # group with children
    'del dataset': lambda g: g.__delitem__('d'),
    'pop': lambda g: g.pop('d') if hasattr(g, 'pop') else g.__delitem__('d'),
}
WRITE_ROOT = {
    'del group': lambda g: g.__delitem__('g'),
    'del nested': lambda g: g.__delitem__('g/d'),
    'del empty': lambda g: g.__delitem__('g/empty'),
    'remove': lambda g: g._handle.remove(),
    'remove group': lambda g: g['g']._handle.remove(),
    'low create_file': lambda g: (_z5py.create_file(g._handle, g.is_zarr, 2)),
}
WRITE_ATTRS = {
    'set': lambda a: a.__setitem__('y', 2),
    'overwrite': lambda a: a.__setitem__('x', 2),
    'same': lambda a: a.__setitem__('x', a['x']),
    'del': lambda a: a.__delitem__('x'),
    'pop': lambda a: a.pop('x'),
    'popitem': lambda a: a.popitem(),
    'update': lambda a: a.update({'y': 3}),
    'update kw': lambda a: a.update(y=3, z=4),
    'setdefault': lambda a: a.setdefault('y', 3),
}
WRITE_D = {
    'set all': lambda d: d.__setitem__(slice(None), np.full(d.shape, 5, d.dtype)),
    'set fill': lambda d: d.__setitem__(slice(None), np.zeros(d.shape, d.dtype)),
    'set same': lambda d: d.__setitem__(slice(None), d[:]),
    'set scalar': lambda d: d.__setitem__(slice(None), 5),
    'set zero scalar': lambda d: d.__setitem__(slice(None), 0),
    'set one': lambda d: d.__setitem__((0,) * d.ndim, 5),
    'write_subarray': lambda d: d.write_subarray((0,) * d.ndim, np.full((1,) * d.ndim, 5, d.dtype)),
    'write_direct': lambda d: d.write_direct(np.full(d.shape, 5, d.dtype)),
    'write_chunk': lambda d: d.write_chunk((0,) * d.ndim, np.full(d.chunks, 5, d.dtype)),
    'write_chunk fill': lambda d: d.write_chunk((0,) * d.ndim, np.zeros(d.chunks, d.dtype)),
    'threads': lambda d: (setattr(d, 'n_threads', 3), d.__setitem__(slice(None), np.full(d.shape, 5, d.dtype))),
    'threads scalar': lambda d: (setattr(d, 'n_threads', 3), d.__setitem__(slice(None), 5)),
    'low write_subarray': lambda d: _z5py.write_subarray(d._impl, np.full(d.shape, 6, d.dtype), (0,) * d.ndim, 1),
    'low write_attributes': lambda d: _z5py.write_attributes(d._handle, '{"y": 1}'),
    'low remove_attribute': lambda d: _z5py.remove_attribute(d._handle, 'x'),
    'low remove_dataset': lambda d: _z5py.remove_dataset(d._impl, 1),
    'low remove_dataset threads': lambda d: _z5py.remove_dataset(d._impl, 3),
}
READ_G = {
    'list': lambda g: sorted(g), 'keys': lambda g: sorted(g.keys()), 'len': len, 'items': lambda g: sorted(k for k, v in g.items()),
    'values': lambda g: len(list(g.values())), 'contains': lambda g: ['d' in g, 'nope' in g, 'h/partial' in g],
    'get': lambda g: g.get('nope'), 'walk': _walk, 'is_zarr': lambda g: g.is_zarr, 'name': lambda g: g.name,
    'file': lambda g: g.file.filename[-5:], 'parent': lambda g: g.parent.name, 'is_sub_group': lambda g: [g.is_sub_group(k) for k in sorted(g)],
    'attrs': lambda g: dict(g.attrs), 'attr keys': lambda g: sorted(g.attrs), 'attr in': lambda g: ['x' in g.attrs, 'nope' in g.attrs],
    'attr len': lambda g: len(g.attrs), 'attr get': lambda g: g.attrs.get('x'), 'attr missing': lambda g: g.attrs.get('nope', 3),
    'attr pop default': lambda g: g.attrs.get('nope'),
    'pickle': lambda g: sorted(pickle.loads(pickle.dumps(g))), 'require existing group': lambda g: [g.require_group(k).name for k in sorted(g) if g.is_sub_group(k)],
    'require existing dataset': lambda g: [g.require_dataset(k, shape=g[k].shape, dtype=g[k].dtype).name for k in sorted(g) if not g.is_sub_group(k)],
}
READ_D = {
    'all': lambda d: d[:].tolist(), 'one': lambda d: int(d[(0,) * d.ndim]), 'empty': lambda d: d[0:0].size,
    'chunk': lambda d: None if (c := d.read_chunk((0,) * d.ndim)) is None else c.tolist(),
    'last chunk': lambda d: d.chunk_exists((1,) * d.ndim), 'exists': lambda d: d.chunk_exists((0,) * d.ndim),
    'read_direct': lambda d: (a := np.zeros(d.shape, d.dtype), d.read_direct(a))[0].tolist(),
    'read_subarray': lambda d: d.read_subarray((0,) * d.ndim, d.shape).tolist(), 'array': lambda d: np.asarray(d).tolist(),
    'shape': lambda d: (d.shape, d.chunks, d.shards, str(d.dtype), d.ndim, d.size, len(d), d.number_of_chunks, list(d.chunks_per_dimension)),
    'compression': lambda d: (d.compression, d.compression_opts), 'is_zarr': lambda d: d.is_zarr, 'name': lambda d: (d.name, d.parent.name),
    'threads': lambda d: (setattr(d, 'n_threads', 3), d[:].tolist())[1], 'pickle': lambda d: pickle.loads(pickle.dumps(d))[:].tolist(),
    'attrs': lambda d: dict(d.attrs), 'header': lambda d: d.get_chunk_shape((0,) * d.ndim),
    'attr get': lambda d: [d.attrs.get('x'), 'nope' in d.attrs, len(d.attrs), sorted(d.attrs)],
}
# ways to get at the handle
VIA = {
    'path': hold,
    'steps': lambda f, n: [f := f[p] for p in n.split('/')][-1] if n else f,
    'pickled file': lambda f, n: hold(pickle.loads(pickle.dumps(f)), n),
    'pickled': lambda f, n: pickle.loads(pickle.dumps(hold(f, n))),
    'parent': lambda f, n: hold(hold(f, n).parent, n.split('/')[-1]) if n else f['g'].parent,
    'file': lambda f, n: hold(f['g/h'].file, n),
    'visit': lambda f, n: f.visititems(lambda k, o: o if k == n else None) if n else f,
    'values': lambda f, n: {k: v for k, v in (f['/'.join(n.split('/')[:-1])] if '/' in n else f).items()}[n.split('/')[-1]] if n else f,
    'required': lambda f, n: f if not n else f.require_group(n) if f.is_sub_group(n) else f.require_dataset(n, shape=f[n].shape, dtype=f[n].dtype),
    'slashes': lambda f, n: hold(f, '/' + n.replace('/', '//') + '/') if n else f['/'],
}


def all_write_ops():
    for n in GROUPS:
        for k, op in WRITE_G.items():
            yield n, k, op
        for k, op in WRITE_ATTRS.items():
            if n in ('', 'g') or k in ('set', 'update', 'update kw', 'setdefault'):
                yield n, 'attrs ' + k, lambda h, op=op: op(h.attrs)
    for n in ('', 'g'):
        for k, op in WRITE_CHILD.items():
            yield n, k, op
    for k, op in WRITE_ROOT.items():
        yield '', k, op
    for n in DSETS:
        for k, op in WRITE_D.items():
            if k == 'low remove_attribute' and n not in ('d', 'g/d'):
                continue
            yield n, k, op
        for k, op in WRITE_ATTRS.items():
            if n in ('d', 'g/d') or k in ('set', 'update', 'update kw', 'setdefault'):
                yield n, 'attrs ' + k, lambda h, op=op: op(h.attrs)


def all_read_ops():
    for n in GROUPS:
        for k, op in READ_G.items():
            yield n, k, op
    for n in DSETS:
        for k, op in READ_D.items():
            yield n, k, op


def outcome(op, h):
    try:
        r = op(h)
        return 'ok', r
    except Exception as e:
        return 'raise', type(e).__name__


def operations():
    boxes = {}
    for fmt, mode in itertools.product(FORMATS, MODES):
        writes = list(all_write_ops())
        reads = list(all_read_ops())
        cases = []
        for via in VIA:
            cases.append('ops %s %s via %s' % (fmt, mode, via))
        todo = [(c, v) for c, v in zip(cases, VIA) if ctx.want(c)]
        if not todo:
            continue
        ext, zf = FORMATS[fmt]
        path = os.path.join(ROOT, 'ops' + ext)

        def fresh(m):
            """a populated container, and a handle in mode m"""
            wipe(path)
            if m in ('r', 'r+', 'a'):
                fill(z5py.File(path, 'w', zarr_format=zf), fmt)
                return z5py.File(path, m, zarr_format=zf)
            f = z5py.File(path, m, zarr_format=zf)
            fill(f, fmt)
            return f

        f = fresh('a')
        base = look(path)
        for case, via in todo:
            get = VIA[via]
            f = fresh(mode)
            ctx.check(look(path) == base, 'content:%s:%s' % (fmt, mode), lambda: '%s: content created in mode %s differs' % (case, mode))
            f = fresh('a')                  # reference
            if mode in ('r', 'r+', 'a'):
                f = z5py.File(path, mode, zarr_format=zf)
            else:
                f = fresh(mode)
            dirty = False
            for n, k, op in reads:
                ctx.add('operations')
                ref = outcome(op, hold(z5py.File(path, 'a', zarr_format=zf), n))
                got = outcome(lambda h: op(get(f, n)), None)
                same = look(path) == base
                ctx.check(got == ref, 'read:%s:%s:%s' % (mode, k, via), lambda: '%s: %s of %r gives %s, in mode a %s' % (case, k, n, got, ref))
                ctx.check(same, 'read-changed:%s:%s' % (mode, k), lambda: '%s: %s of %r changed the files' % (case, k, n))
            for n, k, op in writes:
                ctx.add('operations')
                if mode == 'r':
                    got = outcome(lambda h: op(get(f, n)), None)
                    now = look(path)
                    ctx.check(got[0] == 'raise', 'write-accepted:%s:%s' % (k, fmt), lambda: '%s: %s of %r did not raise' % (case, k, n))
                    if not ctx.check(now == base, 'write-changed:%s:%s' % (k, fmt), lambda: '%s: %s of %r changed the files: %s' %
                                     (case, k, n, sorted(set((now or (0, {}))[1]) ^ set(base[1])))):
                        f = fresh('r')
                    continue
                # in all other modes: the same effect as in mode a
                if via not in ('path', 'pickled', 'pickled file', 'visit', 'parent'):
                    continue
                ref = reference(fmt, n, k, op, path, base, zf)
                pyh_restore(path, base)
                fm = z5py.File(path, mode, zarr_format=zf) if mode in ('r+', 'a') else f
                got = outcome(lambda h: op(get(fm, n)), None)[0]
                now = look(path)
                ctx.check((got, now) == ref, 'write:%s:%s:%s' % (mode, k, fmt), lambda: '%s: %s of %r: %s, in mode a: %s; different files %s' %
                          (case, k, n, got, ref[0], sorted(x for x in set((now or (0, {}))[1]) | set((ref[1] or (0, {}))[1])
                                                           if (now or (0, {}))[1].get(x, 0) != (ref[1] or (0, {}))[1].get(x, 0))))
                pyh_restore(path, base)
            if mode != 'r':
                # the effects are real: nearly all of the operations change the files in mode a
                n_eff = sum(1 for r in REF.values() if r[1] != base)
                ctx.check(n_eff * 10 >= len(REF) * 7 if REF else True, 'no-effect', lambda: '%s: only %d of %d operations have an effect' % (case, n_eff, len(REF)))
        wipe(path)


REF = {}


def pyh_restore(path, base):
    if look(path) != base:
        if not os.path.isdir(path):
            wipe(path)
            os.makedirs(path)
        pyh.restore(path, base[1])


def reference(fmt, n, k, op, path, base, zf):
    key = (fmt, n, k)
    if key not in REF:
        pyh_restore(path, base)
        got = outcome(op, hold(z5py.File(path, 'a', zarr_format=zf), n))[0]
        REF[key] = (got, look(path))
        pyh_restore(path, base)
    return REF[key]


# ------------------------------------------------------------- C: histories of opening and changing one path

ACTIONS = ['none', 'group', 'dataset', 'attr', 'del']


def act(f, a, i):
    if a == 'group':
        f.create_group('g%d' % i)
    elif a == 'dataset':
        f.create_dataset('d%d' % i, data=DATA, chunks=(2, 2))
    elif a == 'attr':
        f.attrs['a%d' % i] = i
    elif a == 'del':
        for k in sorted(f):
            if k[0] in 'gd':
                del f[k]
                return
        f.attrs.get('nope')
        if not f._handle.mode().can_write():
            raise ValueError


def histories():
    """every sequence of (open in a mode, change something, possibly through an older handle) on one path"""
    depth = 4 if ctx.thorough else 3
    steps = [(m, a, z) for m in ['r', 'r+', 'w', 'w-', 'a'] for a in ACTIONS for z in (2, 3)]
    for ext in ('.n5', '.zarr'):
        use = [s for s in steps if ext == '.zarr' or s[2] == 2]
        for first in use:
            for second in use:
                if not ctx.want('history %s %s %s' % (ext, first, second)):
                    continue
                path = os.path.join(ROOT, 'hist' + ext)
                walk_history(path, ext, (first, second), use, depth)


def walk_history(path, ext, prefix, steps, depth):
    # depth first; the state after a prefix is rebuilt from its snapshot
    wipe(path)
    model = None
    for i, s in enumerate(prefix):
        model, ok = step(path, ext, model, s, i, prefix[:i])
    if depth > len(prefix):
        snap = look(path)
        for s in steps:
            extend(path, ext, prefix, s, model, snap, steps, depth)
    wipe(path)


def extend(path, ext, prefix, s, model, snap, steps, depth):
    back(path, snap)
    m2, ok = step(path, ext, model, s, len(prefix), prefix)
    if len(prefix) + 1 < depth:
        sn2 = look(path)
        for t in steps:
            extend(path, ext, prefix + (s,), t, m2, sn2, steps, depth)


def back(path, snap):
    if look(path) == snap:
        return
    if snap is None:
        wipe(path)
        return
    if not os.path.isdir(path):
        os.makedirs(path)
    pyh.restore(path, snap[1])


def step(path, ext, model, s, i, prefix):
    """model: None (absent) or (format, frozenset of names, frozenset of attributes)"""
    mode, a, zf = s
    ctx.add('transitions')
    what = lambda: 'history %s %s then %s' % (ext, prefix, s)
    before = look(path)
    f, err = do_open('File', path, mode, dict(zarr_format=zf))
    expect_open = (model is not None) if mode in ('r', 'r+') else (model is None) if mode == 'w-' else True
    sig = '%s:%s:%s' % (mode, a, ext)
    if not ctx.check((err is None) == expect_open, 'hist-open:' + sig, lambda: '%s: opening %s' % (what(), 'raised %r' % err if err else 'did not raise')):
        return model, False
    if err is not None:
        ctx.check(look(path) == before, 'hist-refused-changed:' + sig, lambda: what() + ': the refused opening changed the files')
        return model, False
    fmt = 'n5' if ext == '.n5' else 'zarr%d' % zf
    if mode == 'w' or model is None:
        model = (fmt, frozenset(), frozenset())
    else:
        ctx.check(look(path) == before, 'hist-open-changed:' + sig, lambda: what() + ': opening changed the files')
    fmt, names, attrs = model
    mid = look(path)
    got = outcome(lambda h: act(f, a, i), None)[0]
    if mode == 'r' and a != 'none':
        ctx.check(got == 'raise', 'hist-accepted:' + sig, lambda: what() + ': did not raise')
        ctx.check(look(path) == mid, 'hist-changed:' + sig, lambda: what() + ': changed the files')
    else:
        new = ('g%d' % i) if a == 'group' else ('d%d' % i) if a == 'dataset' else None
        ctx.check(got == 'ok', 'hist-refused:' + sig, lambda: what() + ': raised')
        if new:
            names = names | {new}
        elif a == 'attr':
            attrs = attrs | {'a%d' % i}
        elif a == 'del' and names:
            names = names - {min(names)}
    # what is there, seen by this handle, by a new one, and on disk
    model = (fmt, names, attrs)
    for h in (f, z5py.File(path, 'r')):
        ctx.check(set(h) == names, 'hist-names:' + sig, lambda: '%s: %s, expected %s' % (what(), sorted(h), sorted(names)))
        ctx.check(set(h.attrs) - {'n5'} == attrs, 'hist-attrs:' + sig, lambda: '%s: %s, expected %s' % (what(), dict(h.attrs), sorted(attrs)))
    ctx.check(container_format(path) == fmt, 'hist-format:' + sig, lambda: '%s: the container is %s, expected %s' % (what(), container_format(path), fmt))
    for n in names:
        # all nodes are in the format of the container, whatever the arguments were
        p = os.path.join(path, n)
        if fmt == 'n5':
            ok = not os.path.exists(p + '/zarr.json') and not os.path.exists(p + '/.zgroup') and not os.path.exists(p + '/.zarray')
        elif fmt == 'zarr2':
            ok = os.path.exists(p + ('/.zgroup' if n[0] == 'g' else '/.zarray')) and not os.path.exists(p + '/zarr.json')
        else:
            ok = os.path.exists(p + '/zarr.json') and not os.path.exists(p + '/.zgroup') and not os.path.exists(p + '/.zarray')
        ctx.check(ok, 'hist-node-format:' + sig, lambda: '%s: node %s is not %s: %s' % (what(), n, fmt, os.listdir(p)))
    return model, True


opening()
operations()
histories()
ctx.sample({'states': sorted(STATES), 'modes': MODES, 'write operations': len(list(all_write_ops())), 'read operations': len(list(all_read_ops()))})
ctx.finish()
