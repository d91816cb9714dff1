"""C13: attributes as a persistent dictionary. Breadth-first to the fixpoint over the attribute documents of every kind of node, plus every
key with every value from an alphabet, in lock step with a dict; the stored documents are read independently after every operation."""
import itertools
import json
import math
import os
import pickle
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import numpy as np
import pyh
import z5py

ctx = pyh.Ctx(sys.argv[1:])
pyh.drop_privileges(ctx.scratch)
ROOT = os.path.join(ctx.scratch, 'z5v')
os.makedirs(ROOT, exist_ok=True)
FORMATS = ['n5', 'zarr', 'zarr3', 'sharded']
NODES = {'file': '', 'group': 'g', 'nested': 'g/h', 'dataset': 'd', 'nested-dataset': 'g/e'}
N5DS = {'dimensions', 'blockSize', 'dataType', 'compression', 'compressionType'}
DATA = np.arange(6, dtype='int16').reshape(2, 3) + 1


def same(a, b):
    """equal as JSON values: 1, 1.0 and True are different, and so are 0.0 and -0.0"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


class Box:
    """a container with all kinds of nodes"""
    n = 0

    def __init__(self, fmt):
        Box.n += 1
        self.fmt = fmt
        self.path = os.path.join(ROOT, 'c%d.%s' % (Box.n, 'n5' if fmt == 'n5' else 'zarr'))
        f = z5py.File(self.path, 'w', zarr_format=2 if fmt in ('n5', 'zarr') else 3)
        f.create_group('g').create_group('h')
        kw = dict(chunks=(1, 2), compression='gzip')
        if fmt == 'sharded':
            kw['shards'] = (2, 2)
        f.create_dataset('d', data=DATA, **kw)
        f.create_dataset('g/e', data=DATA, **kw)
        self.clean = pyh.snapshot(self.path)

    def node(self, kind, mode='a'):
        f = z5py.File(self.path, mode)
        return f[NODES[kind]] if NODES[kind] else f

    def docname(self, kind):
        d = NODES[kind] + '/' if NODES[kind] else ''
        return d + {'n5': 'attributes.json', 'zarr': '.zattrs'}.get(self.fmt, 'zarr.json')

    def meta(self, kind, snap=None):
        """(attributes, the remaining members of the document) as stored"""
        name = self.docname(kind)
        raw = (pyh.snapshot(self.path) if snap is None else snap).get(name)
        doc = {} if raw is None else json.loads(raw)
        if self.fmt == 'n5':
            hide = N5DS if 'dataset' in kind else {'n5'} if kind == 'file' else set()
            return {k: v for k, v in doc.items() if k not in hide}, {k: v for k, v in doc.items() if k in hide}
        if self.fmt == 'zarr':
            return doc, None
        return doc.get('attributes', {}), {k: v for k, v in doc.items() if k != 'attributes'}


def visible(box, kind, model):
    """(the version of an n5 container is readable, but it can not be changed)"""
    return dict(model, n5='2.0.0') if box.fmt == 'n5' and kind == 'file' else model


def protected(box, kind, model, keys):
    if box.fmt != 'n5':
        return False
    if kind == 'file' and 'n5' in keys:
        return True
    if 'dataset' in kind:
        return bool(N5DS & set(keys))
    # groups with all attributes of a dataset would be datasets
    k = set(model) | set(keys)
    return {'dimensions', 'blockSize', 'dataType'} <= k and bool({'compression', 'compressionType'} & k) and bool(N5DS & set(keys))


def attempt(f):
    try:
        return f(), None
    except Exception as e:  # noqa
        return None, e


def check_state(box, kind, model, snap0, s, others=None, sig=''):
    """everything is as the model says: stored documents, handles, other nodes and data"""
    snap = pyh.snapshot(box.path)
    got, e = attempt(lambda: box.meta(kind, snap))
    if not ctx.check(e is None and same(got[0], model), 'stored:' + sig, lambda: '%s: the document holds %s, expected %s' % (s, e or got[0], model)):
        return snap
    ctx.check(same(got[1], box.meta(kind, snap0)[1]), 'metadata:' + sig, lambda: '%s: metadata changed from %s to %s' % (s, box.meta(kind, snap0)[1], got[1]))
    doc = box.docname(kind)
    diff = [k for k in set(snap) | set(snap0) if k != doc and snap.get(k, 0) != snap0.get(k, 0)]
    ctx.check(not diff, 'bystander:' + sig, lambda: '%s: other files changed: %s' % (s, diff[:4]))
    return snap


def check_view(a, box, kind, model, s, sig=''):
    v = visible(box, kind, model)
    got, e = attempt(lambda: dict(a))
    ctx.check(e is None and same(got, v), 'read:' + sig, lambda: '%s: reads %s %s, expected %s' % (s, e or '', got, v))
    got, e = attempt(lambda: (len(a), sorted(a), sorted(a.keys()), 'missing' in a, a.get('missing', 5)))
    ctx.check(e is None and got == (len(v), sorted(v), sorted(v), False, 5), 'mapping:' + sig, lambda: '%s: %s %s' % (s, e or '', got))
    for k in v:
        got, e = attempt(lambda: (k in a, a[k]))
        ctx.check(e is None and got[0] and same(got[1], v[k]), 'item:' + sig, lambda: '%s: [%r] gives %s %s' % (s, k, e or '', got))
    for k in ('missing', 'dimensions', 'shape', 'zarr_format', 'node_type'):
        if k not in v:
            got, e = attempt(lambda: a[k])
            ctx.check(isinstance(e, KeyError) and k not in a, 'missing:' + sig, lambda: '%s: [%r] gives %r %r' % (s, k, got, e))


def run(box, kind, a, op, model, s):
    """one operation on the manager and on the model; returns the model afterwards"""
    name, arg = op
    after = dict(model)
    if name == 'set':
        f = lambda: a.__setitem__(arg[0], arg[1])
        if not protected(box, kind, model, [arg[0]]):
            after[arg[0]] = arg[1]
            ok = True
        else:
            ok = False
    elif name == 'update':
        f = lambda: a.update(arg)
        ok = not protected(box, kind, model, arg)
        if ok:
            after.update(arg)
    elif name in ('del', 'pop'):
        f = lambda: a.__delitem__(arg) if name == 'del' else a.pop(arg)
        ok = arg in model
        after.pop(arg, None)
    elif name == 'setdefault':
        f = lambda: a.setdefault(arg[0], arg[1])
        ok = arg[0] in visible(box, kind, model) or not protected(box, kind, model, [arg[0]])
        if ok and arg[0] not in visible(box, kind, model):
            after[arg[0]] = arg[1]
    elif name == 'bad':
        f = lambda: a.update(arg)
        ok = False
    else:
        # operations that must not touch the attributes
        p = NODES[kind]
        root = z5py.File(box.path, 'a')
        if name == 'reopen':
            f = lambda: (z5py.File(box.path, 'r'), z5py.File(box.path, 'r+'), z5py.File(box.path, 'a'))
        elif name == 'require':
            f = lambda: (root.require_dataset(p, shape=(2, 3), dtype='int16', chunks=(1, 2)) if 'dataset' in kind else root.require_group(p or '/')) if p or True else None
        elif name == 'rewrite':
            f = lambda: root['d'].__setitem__(Ellipsis, DATA) if 'dataset' not in kind else root[p].__setitem__(Ellipsis, DATA)
        elif name == 'pickle':
            f = lambda: pickle.loads(pickle.dumps(root[p] if p else root)).attrs.get('a')
        elif name == 'clash':
            def f():
                for g in (lambda: root.create_group(p), lambda: root.create_dataset(p, shape=(2, 3), dtype='int16', chunks=(1, 2))):
                    _, e = attempt(g)
                    if e is None:
                        raise RuntimeError('accepted')
        else:
            raise KeyError(name)
        ok = True
    _, e = attempt(f)
    if name in ('del', 'pop') and not ok:
        protect = protected(box, kind, model, [arg])
        ctx.check(isinstance(e, KeyError) or protect and e is not None, name + '-missing', lambda: '%s: %r' % (s, e))
    else:
        ctx.check((e is None) == ok, name + (':refused' if ok else ':accepted'), lambda: '%s: %s' % (s, repr(e) if e else 'accepted'))
    return after if ok else dict(model)


VALUES = [1, 'x', [1, {'b': None}]]
OTHER = [('reopen', None), ('require', None), ('rewrite', None), ('pickle', None), ('clash', None)]
BAD = [('bad', {'a': float('nan')}), ('bad', {'a': 2, 'b': float('inf')}), ('bad', {'a': object()}), ('bad', {'a': '\ud800'}), ('bad', {'a': 2 ** 64}), ('bad', {'c': [1, {'x': -2 ** 63 - 1}], 'a': 9}),
       ('bad', {'a': b'x'}), ('bad', {'b': np.int64(3)}), ('bad', {'a': 3, 'b': {1, 2}})]


def explore(fmt, kind):
    """all attribute dictionaries over a few keys and values, all operations from each"""
    if not ctx.want('states %s %s' % (fmt, kind)):
        return
    box = Box(fmt)
    keys = ['a', 'b', 'n5' if kind == 'file' else 'dimensions'] + (['x/y'] if ctx.thorough else [])
    if fmt == 'n5' and kind != 'file':
        keys[2] = 'dataType'
    ops = [('set', (k, v)) for k in keys for v in VALUES] + [(o, k) for o in ('del', 'pop') for k in keys] + [('setdefault', ('a', 7)), ('setdefault', (keys[2], 'x'))]
    ops += [('update', {'a': 'x', 'b': 1}), ('update', {}), ('update', {keys[2]: 1, 'a': 'x'}), ('update', {'b': 'x', keys[2]: 1})] + OTHER + BAD
    key = lambda m: json.dumps(m, sort_keys=True)
    seen = {key({}): box.clean}
    queue = [{}]
    while queue:
        m = queue.pop(0)
        ctx.add('states')
        for op in ops:
            s = '%s %s %s: %s %r' % (fmt, kind, key(m), op[0], op[1])
            pyh.restore(box.path, seen[key(m)])
            node = box.node(kind)
            other = box.node(kind)
            after = run(box, kind, node.attrs, op, m, s)
            ctx.add('transitions')
            snap = check_state(box, kind, after, seen[key(m)], s, sig=op[0])
            if op[0] == 'rewrite':
                continue
            check_view(node.attrs, box, kind, after, s, op[0])
            if key(after) not in seen:
                check_view(other.attrs, box, kind, after, s + ' (other handle)', op[0])
                for mode in ('r', 'r+', 'a'):
                    check_view(box.node(kind, mode).attrs, box, kind, after, s + ' (re-opened %s)' % mode, op[0])
                if len(seen) < 3000 and all(any(same(v, w) for w in VALUES) for v in after.values()):
                    seen[key(after)] = snap
                    queue.append(after)
    # nodes next to it do not see these attributes, and array data is intact
    pyh.restore(box.path, seen[max(seen, key=len)])
    f = z5py.File(box.path, 'r')
    for k, p in NODES.items():
        if k != kind:
            got, e = attempt(lambda: dict((f[p] if p else f).attrs))
            ctx.check(e is None and same(got, visible(box, k, {})), 'isolation', lambda: '%s %s: %s sees %s' % (fmt, kind, k, e or got))
    for d in ('d', 'g/e'):
        ctx.check(np.array_equal(f[d][...], DATA), 'data', lambda: '%s %s: the data of %s has changed' % (fmt, kind, d))
    ctx.sample('%s %s: %d attribute dictionaries' % (fmt, kind, len(seen)))


KEYS = ['a', '', ' ', 'A', 'a/b', '/', '//x', '~0', '~1', 'a.b', '..', '\u00e9', '\u4e2d', '\U0001f600', 'a\0b', '\n\t"\\', "'", '$ref', '__proto__', 'null', '0', '-1', 'k' * 3000, 'attributes', 'zarr_format', 'node_type', 'shape',
        'fill_value', 'codecs', 'chunks', 'dtype', 'n5', 'dimensions', 'blockSize', 'dataType', 'compression', 'compressionType', '.zattrs', 'dimension_names', 'storage_transformers']
VALS = [None, True, False, 0, -1, 1, 2 ** 31, -2 ** 31 - 1, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, -2 ** 63, 0.0, -0.0, 1.0, -1.5, 0.1, 1e-310, 5e-324, 1.7976931348623157e308, 1e22, 123456789.123456789, 3.0e15, 1e16,
        '', 'x', '\0', '\u00e9\u4e2d\U0001f600', '\u2028\x7f\x80', '"\\/\b', 's' * 5000, '1', 'null', [], {}, [[]], [{}], {'': {}}, [None, True, 1, 1.0, 'a'], {'a': {'b': {'c': [1, [2, [3]]]}}}, {'n5': 1, 'dimensions': [1]}, {'attributes': {'x': 1}},
        [0] * 500, {str(i): i for i in range(100)}, {'a/b': 1, 'a': {'b': 2}}, {'z': 1, 'a': 2, 'm': 3}]


def deep(n):
    v = 1
    for i in range(n):
        v = [v] if i % 2 else {'k': v}
    return v


def pairs(fmt, kind):
    """every key with every value: set, read, set another, delete"""
    if not ctx.want('pairs %s %s' % (fmt, kind)):
        return
    box = Box(fmt)
    vals = VALS + [deep(60), deep(400)]
    for k in KEYS:
        for i, v in enumerate(vals):
            if not ctx.thorough and k != 'a' and i % 6 != KEYS.index(k) % 6:
                continue
            base = {'keep': [1.5, 'q']} if i % 2 else {}
            pyh.restore(box.path, box.clean)
            if base:
                box.node(kind).attrs.update(base)
            snap0 = pyh.snapshot(box.path)
            s = '%s %s %r = %.60r' % (fmt, kind, k, v)
            a = box.node(kind).attrs
            m = run(box, kind, a, ('set', (k, v)), base, s)
            ctx.add('transitions')
            check_state(box, kind, m, snap0, s, sig='pair')
            check_view(box.node(kind).attrs, box, kind, m, s, 'pair')
            m = run(box, kind, a, ('update', {k: v, 'second': v}), m, s)
            check_state(box, kind, m, snap0, s + ' twice', sig='pair2')
            check_view(a, box, kind, m, s + ' twice', 'pair2')
            m = run(box, kind, a, ('del', k), m, s)
            ctx.add('transitions', 2)
            check_state(box, kind, m, snap0, s + ' deleted', sig='pair-del')
            check_view(box.node(kind).attrs, box, kind, m, s + ' deleted', 'pair-del')


SUCC = [None, True, 1, 1.0, 'x', [], [1, 2], [3], {}, {'p': 1}, {'p': None}, {'q': {'r': 2}}, {'q': {'s': [3]}, 'p': 'y'}, [{'p': 1}]]


def successions(fmt, kind):
    """every value replaced by every other one: nothing of the old value stays"""
    if not ctx.want('successions %s %s' % (fmt, kind)):
        return
    box = Box(fmt)
    for v in SUCC:
        pyh.restore(box.path, box.clean)
        box.node(kind).attrs.update({'k': v, 'l': v})
        snap0 = pyh.snapshot(box.path)
        for w in SUCC:
            s = '%s %s %r then %r' % (fmt, kind, v, w)
            for op in (('set', ('k', w)), ('update', {'k': w}), ('update', {'l': w, 'k': w}), ('setdefault', ('k', w))):
                pyh.restore(box.path, snap0)
                a = box.node(kind).attrs
                m = run(box, kind, a, op, {'k': v, 'l': v}, s)
                ctx.add('transitions')
                check_state(box, kind, m, snap0, s, sig='succession')
                check_view(a, box, kind, m, s, 'succession')


def groups_to_datasets(fmt):
    """every order of writing the keys that n5 uses for datasets to a group, one by one and together"""
    if not ctx.want('dataset keys %s' % fmt):
        return
    box = Box(fmt)
    keys = ['dimensions', 'blockSize', 'dataType', 'compression', 'compressionType']
    vals = {'dimensions': [2], 'blockSize': [1], 'dataType': 'uint8', 'compression': {'type': 'raw'}, 'compressionType': 'raw'}
    for kind in ('file', 'group'):
        for n in (3, 4, 5):
            for perm in itertools.permutations(keys, n):
                for together in (0, 1, n):
                    pyh.restore(box.path, box.clean)
                    node = box.node(kind)
                    m = {}
                    s = '%s %s %s' % (fmt, kind, perm)
                    rest = list(perm)
                    if together:
                        batch, rest = rest[-together:], rest[:-together]
                    else:
                        batch = []
                    for k in rest:
                        m = run(box, kind, node.attrs, ('set', (k, vals[k])), m, s)
                    if batch:
                        m = run(box, kind, node.attrs, ('update', {k: vals[k] for k in batch}), m, s)
                    ctx.add('transitions', n)
                    check_state(box, kind, m, box.clean, s, sig='dataset-keys')
                    o, e = attempt(lambda: box.node(kind))
                    ctx.check(e is None and isinstance(o, z5py.Group) and same(dict(o.attrs), visible(box, kind, m)), 'group-lost', lambda: '%s: is no group any more: %s' % (s, e or type(o).__name__))


def foreign(fmt):
    """documents written by others: members z5 does not know, no attributes, many spellings"""
    for kind in NODES:
        docs = [({'x': 1}, {}), ({}, {}), (None, {}), ({'x': {'deep': [1, 2.5, None]}}, {'extra': {'must_understand': False}}), ({'u': '\u00e9'}, {'consolidated_metadata': {'kind': 'inline', 'metadata': {}, 'must_understand': False}}),
                ({'big': 2 ** 70, 'x': 1}, {}), ({'float': 1.0, 'neg': -0.0, 'exp': 1e300}, {})]
        for i, (attrs, extra) in enumerate(docs):
            case = 'foreign %s %s %d' % (fmt, kind, i)
            if not ctx.want(case):
                continue
            box = Box(fmt)
            name = box.docname(kind)
            path = os.path.join(box.path, name)
            doc = json.loads(box.clean.get(name) or b'{}')
            if fmt in ('n5', 'zarr'):
                doc.update(attrs or {})
                if extra:
                    continue
            else:
                doc.update(extra)
                doc.pop('attributes', None)
                if attrs is not None:
                    doc['attributes'] = attrs
            if attrs is not None or os.path.exists(path):
                with open(path, 'w') as f:
                    json.dump(doc, f, indent=i % 3 or None, ensure_ascii=i % 2 == 0)
            snap = pyh.snapshot(box.path)
            m = dict(attrs or {})
            sig = 'foreign-bigint' if 'big' in m else 'foreign'
            check_view(box.node(kind, 'r').attrs, box, kind, m, case, sig)
            for op in (('set', ('new', [1])), ('del', 'new'), ('del', 'missing'), ('update', {'p': 1, 'x': 2}), ('del', 'x')):
                m = run(box, kind, box.node(kind).attrs, op, m, '%s: %s %r' % (case, op[0], op[1]))
                ctx.add('transitions')
                check_state(box, kind, m, snap, '%s: %s %r' % (case, op[0], op[1]), sig=sig)
                check_view(box.node(kind).attrs, box, kind, m, '%s: %s %r' % (case, op[0], op[1]), sig)
            for d in ('d', 'g/e'):
                ctx.check(np.array_equal(z5py.File(box.path, 'r')[d][...], DATA), 'data', lambda: '%s: the data of %s has changed' % (case, d))


def coders(fmt):
    """custom encoder and decoder"""
    if not ctx.want('coders %s' % fmt):
        return
    box = Box(fmt)

    class Enc(json.JSONEncoder):
        def default(self, o):
            return {'__set__': sorted(o)} if isinstance(o, set) else super().default(o)

    class Dec(json.JSONDecoder):
        def __init__(self, *a, **k):
            super().__init__(*a, object_hook=lambda d: set(d['__set__']) if '__set__' in d else d, **k)
    for kind in NODES:
        pyh.restore(box.path, box.clean)
        z5py.set_json_encoder(Enc)
        _, e = attempt(lambda: box.node(kind).attrs.__setitem__('s', {3, 1}))
        ctx.check(e is None, 'encoder', lambda: '%s %s: %r' % (fmt, kind, e))
        check_state(box, kind, {'s': {'__set__': [1, 3]}}, box.clean, '%s %s encoder' % (fmt, kind), sig='encoder')
        z5py.set_json_decoder(Dec)
        ctx.check(box.node(kind).attrs['s'] == {1, 3}, 'decoder', lambda: '%s %s' % (fmt, kind))
        z5py.set_json_encoder(None)
        z5py.set_json_decoder(None)
        ctx.check(same(box.node(kind).attrs['s'], {'__set__': [1, 3]}), 'decoder', lambda: '%s %s' % (fmt, kind))
        ctx.add('transitions', 2)


def main():
    for fmt in FORMATS:
        for kind in NODES:
            explore(fmt, kind)
            pairs(fmt, kind)
            successions(fmt, kind)
    for fmt in FORMATS:
        groups_to_datasets(fmt)
        foreign(fmt)
        coders(fmt)
    ctx.finish()


main()
