"""C15: the container as a tree. Breadth-first over all trees of groups and datasets with names from an alphabet; every operation with
every name on every group of every tree, judged by a tree model and an independent walk of the directories; plus all short sequences
of operations on live handles. Runs as an unprivileged user, in a container nested in the scratch directory."""
import itertools
import json
import os
import pickle
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import numpy as np
import pyh
import z5py

ctx = pyh.Ctx(sys.argv[1:])
DROPPED = pyh.drop_privileges(ctx.scratch)
OUT = os.path.join(ctx.scratch, 'z5v')
DATA = np.array([3, 4], dtype='uint8')
RESERVED = {'.zgroup', '.zarray', '.zattrs', 'zarr.json', 'attributes.json'}
G, D = 'group', 'dataset'


# ------------------------------------------------------------------ model: a tree is a frozenset of (path tuple, type)

def parts_of(name):
    """None: not a valid name"""
    p = tuple(x for x in name.split('/') if x)
    if any(x in ('.', '..') or x in RESERVED or '\0' in x for x in p):
        return None
    return p


class Tree:
    def __init__(self, nodes=()):
        self.n = dict(nodes)

    def key(self):
        return tuple(sorted(self.n.items()))

    def kind(self, p):
        return G if not p else self.n.get(p)

    def can_create(self, p):
        """a node can be created: it does not exist and all existing ancestors are groups"""
        return bool(p) and p not in self.n and all(self.kind(p[:i]) in (None, G) for i in range(len(p)))

    def create(self, p, kind):
        for i in range(1, len(p)):
            self.n.setdefault(p[:i], G)
        self.n[p] = kind

    def remove(self, p):
        self.n = {q: k for q, k in self.n.items() if q[:len(p)] != p}

    def below(self, p):
        return {q[len(p):]: k for q, k in self.n.items() if q[:len(p)] == p and len(q) > len(p)}

    def copy(self):
        return Tree(self.n)


# ------------------------------------------------------------------ independent view of the directories

def walk(fmt, path):
    """{path tuple: type}, or a text that says what is wrong"""
    res = {}

    def one(d, p):
        files = {e.name: e.is_dir() for e in os.scandir(d)}
        docs = {}
        for f, isdir in files.items():
            if not isdir and f.endswith(('.json', '.zgroup', '.zarray', '.zattrs')):
                with open(os.path.join(d, f)) as fh:
                    docs[f] = json.load(fh)
        where = '/' + '/'.join(p)
        if fmt == 'n5':
            a = docs.get('attributes.json', {})
            kind = D if {'dimensions', 'blockSize', 'dataType', 'compression'} <= set(a) else G
            known = {'attributes.json'}
            if not p and 'n5' not in a:
                raise ValueError('the root has lost its version')
        elif fmt == 'zarr':
            if ('.zarray' in docs) == ('.zgroup' in docs):
                raise ValueError('%s has %s' % (where, sorted(docs)))
            kind = D if '.zarray' in docs else G
            known = {'.zarray', '.zgroup', '.zattrs'}
            if docs['.zarray' if kind == D else '.zgroup'].get('zarr_format') != 2:
                raise ValueError('%s is not zarr v2' % where)
        else:
            if 'zarr.json' not in docs or set(docs) != {'zarr.json'}:
                raise ValueError('%s has %s' % (where, sorted(docs)))
            kind = {'group': G, 'array': D}[docs['zarr.json']['node_type']]
            known = {'zarr.json'}
            if docs['zarr.json'].get('zarr_format') != 3:
                raise ValueError('%s is not zarr v3' % where)
        if p:
            res[p] = kind
        elif kind != G:
            raise ValueError('the root is no group')
        if kind == D:
            return
        for f, isdir in files.items():
            if isdir:
                one(os.path.join(d, f), p + (f,))
            elif f not in known:
                raise ValueError('unknown file %s in %s' % (f, where))
    try:
        one(path, ())
    except (OSError, ValueError, KeyError) as e:
        return '%s: %s' % (type(e).__name__, e)
    return res


class Container:
    def __init__(self, fmt):
        self.fmt = fmt
        self.base = os.path.join(OUT, 'w')
        import shutil
        shutil.rmtree(OUT, ignore_errors=True)
        self.dir = os.path.join(self.base, 'x', 'y')
        os.makedirs(self.dir)
        self.path = os.path.join(self.dir, 'c.n5' if fmt == 'n5' else 'c.zarr')
        # neighbours that nothing may touch
        for d in (self.base, os.path.join(self.base, 'x'), self.dir):
            os.makedirs(os.path.join(d, 'a', 'b'), exist_ok=True)
            for q in (d, os.path.join(d, 'a')):
                for f in ('.zgroup', 'zarr.json', 'attributes.json'):
                    with open(os.path.join(q, f), 'w') as fh:
                        fh.write(json.dumps({'zarr_format': 3 if f == 'zarr.json' else 2, 'node_type': 'group', 'n5': '2.0.0'}))
        self.f = z5py.File(self.path, 'w', zarr_format=3 if fmt in ('zarr3', 'sharded') else 2)
        self.empty = pyh.snapshot(self.path)
        self.outside = self.around()

    def around(self):
        s = pyh.snapshot(self.base)
        rel = os.path.relpath(self.path, self.base)
        return {k: v for k, v in s.items() if not k.startswith(rel + '/')}

    def reset(self, snap):
        if not os.path.isdir(self.path):
            os.mkdir(self.path)
        pyh.restore(self.path, snap)

    def open(self):
        try:
            return z5py.File(self.path, 'a')
        except Exception as e:  # noqa
            # what the last operation has left behind is not a container any more
            ctx.violation('unusable', '%s: %s: %s' % (ctx.current, type(e).__name__, e))
            ctx.finish()

    def ds_args(self):
        kw = dict(shape=(2,), dtype='uint8', chunks=(1,), compression='raw')
        if self.fmt == 'sharded':
            kw['shards'] = (2,)
        return kw


def attempt(f):
    try:
        return f(), None
    except Exception as e:      # noqa
        return None, e


def obj_kind(o):
    return G if isinstance(o, z5py.Group) else D if isinstance(o, z5py.Dataset) else type(o).__name__


def check_obj(o, f, p, kind):
    """'' or what is wrong with an object that was returned for the node p"""
    if obj_kind(o) != kind:
        return 'is a %s' % obj_kind(o)
    if o.name != '/' + '/'.join(p):
        return 'has the name %r' % o.name
    if o.file is not f:
        return 'has another file'
    q = p
    while q:
        o = o.parent
        q = q[:-1]
        if obj_kind(o) != G or o.name != '/' + '/'.join(q):
            return 'has the ancestor %r' % o.name
    return '' if o is f else 'does not lead to the file'


def check_view(c, f, tree, s):
    """the whole tree as it is seen through the mapping interface"""
    def one(g, p):
        want = {q[0]: k for q, k in tree.below(p).items() if len(q) == 1}
        where = '/' + '/'.join(p)
        got, e = attempt(lambda: (sorted(g.keys()), sorted(iter(g)), len(g), sorted((k, obj_kind(v)) for k, v in g.items()),
                                  sorted(v.name for v in g.values())))
        exp = (sorted(want), sorted(want), len(want), sorted(want.items()), sorted('/' + '/'.join(p + (k,)) for k in want))
        ctx.check(e is None and got == exp, 'listing', lambda: '%s: %s lists %s %s, expected %s' % (s, where, got, e, exp))
        seen = []
        _, e = attempt(lambda: g.visititems(lambda n, o: seen.append((n, obj_kind(o), o.name)) and None))
        exp = sorted(('/'.join(q), k, '/' + '/'.join(p + q)) for q, k in tree.below(p).items())
        ctx.check(e is None and sorted(seen) == exp, 'visititems', lambda: '%s: visititems of %s gives %s %s, expected %s' % (s, where, sorted(seen), e, exp))
        if exp:
            first, e = attempt(lambda: g.visititems(lambda n, o: n))
            ctx.check(e is None and first in {x[0] for x in exp}, 'visititems-stop', lambda: '%s: visititems of %s returns %r %s' % (s, where, first, e))
        h, e = attempt(lambda: pickle.loads(pickle.dumps(g)))
        ctx.check(e is None and check_obj(h, h.file, p, G) == '' and sorted(h.keys()) == sorted(want), 'pickle', lambda: '%s: %s pickled: %s' % (s, where, e))
        for k, kind in want.items():
            o, e = attempt(lambda: g[k])
            if not ctx.check(e is None and check_obj(o, f, p + (k,), kind) == '', 'open', lambda: '%s: %s[%r]: %s' % (s, where, k, e or check_obj(o, f, p + (k,), kind))):
                continue
            if kind == G:
                one(o, p + (k,))
            else:
                r, e = attempt(lambda: pickle.loads(pickle.dumps(o)))
                ctx.check(e is None and check_obj(r, r.file, p + (k,), D) == '' and np.array_equal(r[...], o[...]), 'pickle-dataset', lambda: '%s: %s/%s pickled: %s' % (s, where, k, e))
    one(f, ())


# ------------------------------------------------------------------ operations

READ = ['in', 'get', 'is_sub_group', 'mapping.get']
WRITE = ['create_group', 'require_group', 'create_dataset', 'create_data', 'create_bad', 'create_bad2', 'require_dataset', 'require_other', 'require_type', 'del']


def apply(c, f, g, gp, op, name, tree, s):
    """run the operation on the real group and on the tree; gp: path of g. Returns the tree afterwards"""
    rel = parts_of(name)
    p = None if rel is None else gp + rel
    kind = None if p is None else tree.kind(p)
    gone = tree.kind(gp) is None            # the group has been removed through another handle
    after = tree.copy()
    if op == 'in':
        got, e = attempt(lambda: name in g)
        ctx.check(e is None and got == (kind is not None) or gone and not got, 'in', lambda: '%s: %s %s' % (s, got, e))
    elif op == 'get':
        got, e = attempt(lambda: g[name])
        if kind is None or gone:
            ctx.check(e is not None and (rel is None or gone or isinstance(e, KeyError)), 'get-missing', lambda: '%s: %r %s' % (s, got, type(e).__name__))
        else:
            ctx.check(e is None and check_obj(got, f, p, kind) == '', 'get', lambda: '%s: %s' % (s, e or check_obj(got, f, p, kind)))
    elif op == 'mapping.get':
        got, e = attempt(lambda: g.get(name, 17))
        ctx.check(e is None and (obj_kind(got) == kind if kind is not None else got == 17) or rel is None and e is not None or gone, 'mapping-get', lambda: '%s: %r %s' % (s, got, e))
    elif op == 'is_sub_group':
        got, e = attempt(lambda: g.is_sub_group(name))
        ctx.check(e is None and got == (kind == G) or rel is None and e is not None or gone and not got, 'is_sub_group', lambda: '%s: %s %s' % (s, got, e))
    elif op == 'del':
        _, e = attempt(lambda: g.__delitem__(name))
        ok = kind is not None and rel and not gone
        if ok:
            after.remove(p)
        ctx.check((e is None) == bool(ok), 'del', lambda: '%s: %s' % (s, e or 'accepted'))
        if kind is None and rel and not gone:
            ctx.check(isinstance(e, KeyError), 'del-missing', lambda: '%s: %r' % (s, e))
    else:
        new = D if 'dataset' in op or op in ('create_data', 'create_bad', 'create_bad2', 'require_other', 'require_type') else G
        can = p is not None and not gone and tree.can_create(p)
        calls = dict(
            create_group=lambda: g.create_group(name),
            require_group=lambda: g.require_group(name),
            create_dataset=lambda: g.create_dataset(name, **c.ds_args()),
            create_data=lambda: g.create_dataset(name, data=DATA, chunks=(1,), compression='raw', **(dict(shards=(2,)) if c.fmt == 'sharded' else {})),
            create_bad=lambda: g.create_dataset(name, **dict(c.ds_args(), compression='nope')),
            create_bad2=lambda: g.create_dataset(name, **dict(c.ds_args(), fillvalue=300)),
            require_dataset=lambda: g.require_dataset(name, **c.ds_args()),
            require_other=lambda: g.require_dataset(name, **dict(c.ds_args(), shape=(3,))),
            require_type=lambda: g.require_dataset(name, **dict(c.ds_args(), dtype='int16')))
        got, e = attempt(calls[op])
        if op in ('create_bad', 'create_bad2'):
            ok = False
            if op == 'create_bad2' and e is None:       # (whether such a fill value is accepted is C06's business)
                ok = can
        elif op.startswith('require_') and kind is not None and not gone:
            ok = kind == new and op in ('require_group', 'require_dataset')
        else:
            ok = can
        ctx.check((e is None) == ok, op + (':refused' if ok else ':accepted'), lambda: '%s: %s' % (s, '%s: %s' % (type(e).__name__, e) if e else 'accepted'))
        if ok and e is None:
            if kind is None:
                after.create(p, new)
            r = check_obj(got, f, p, new) if rel is not None else 'accepted'
            ctx.check(r == '', op + ':object', lambda: '%s: the returned object %s' % (s, r))
    return after


def check_disk(c, before, tree, after, s, op):
    """the directories hold the tree, and everything but the changed nodes is as before"""
    w = walk(c.fmt, c.path)
    if not ctx.check(w == after.n, 'tree:' + op, lambda: '%s: the directories hold %s, expected %s' % (s, w if isinstance(w, str) else sorted(w.items()), sorted(after.n.items()))):
        return False
    now = pyh.snapshot(c.path)
    changed = {p for p in set(after.n) ^ set(tree.n)}

    def touched(k):
        k = tuple(x for x in k.split('/') if x)
        return any(k[:len(p)] == p for p in changed)
    diff = [k for k in set(now) | set(before) if now.get(k, 0) != before.get(k, 0) and not touched(k)]
    ctx.check(not diff, 'bystander:' + op, lambda: '%s: changed %s' % (s, diff[:5]))
    return True


def names(c, thorough_names):
    a = ['a', 'b', 'a/b', 'b/a', 'a/a', 'b/b', '/a', '//b', '/a/b', 'a//b', 'a/', '/b/a/', 'a/b/a', 'b/a/b/a']
    odd = ['', '/', '//', '.', '..', './a', 'a/.', '../a', 'a/..', 'a/../b', 'a/../..', '../../a', '../../../a', 'b/../../a/b', '..//a', '/../a', '.zgroup', 'zarr.json', 'attributes.json',
           '.zarray', '.zattrs', 'a/zarr.json', 'a/.zgroup', 'attributes.json/b', 'c', '0', 'a/0', 'a/c', 'a/c/0', 'a/0/b', 'ab', 'a\\b', '...', '..a', 'a..', ' ', 'a b', '\u00e9', '.a', '~',
           'a\0b', '\0', 'a/b\0/c', 'A', '%2e%2e/a', 'n' * 255, os.path.basename(c.path), '../' + os.path.basename(c.path), '../' + os.path.basename(c.path) + '/a']
    absolute = [os.path.join(c.dir, 'a'), os.path.join(c.dir, 'new'), c.path, c.path + '/a', os.path.join(c.base, 'a', 'b')]
    if not DROPPED:         # (as root, a name that escapes to the real root would do damage)
        a = [n for n in a if not n.startswith('/')]
        odd = [n for n in odd if not n.startswith('/')]
    return a, odd + absolute


def explore(fmt):
    """every tree over the names a, b up to depth 2 (all operations with all names lead from tree to tree)"""
    c = Container(fmt)
    plain, odd = names(c, ctx.thorough)
    grow = ['a', 'b', 'a/a', 'a/b', 'b/a', 'b/b']
    start = Tree()
    seen = {start.key(): c.empty}
    queue = [start]
    todo = []
    # the reachable trees (cheap: only the growing operations)
    while queue:
        t = queue.pop(0)
        todo.append(t)
        for op in ('create_group', 'create_data', 'del'):
            for n in grow:
                p = parts_of(n)
                if op == 'del' and t.kind(p) is None or op != 'del' and not t.can_create(p):
                    continue
                c.reset(seen[t.key()])
                f = c.open()
                if op == 'create_group':
                    attempt(lambda: f.create_group(n))
                elif op == 'del':
                    attempt(lambda: f.__delitem__(n))
                else:
                    attempt(lambda: f.create_dataset(n, data=DATA, chunks=(1,), compression='raw', **(dict(shards=(2,)) if fmt == 'sharded' else {})))
                u = t.copy()
                u.remove(p) if op == 'del' else u.create(p, D if op == 'create_data' else G)
                if u.key() not in seen:
                    seen[u.key()] = pyh.snapshot(c.path)
                    queue.append(u)
    ctx.gauge['trees_' + fmt] = len(todo)
    for i, t in enumerate(todo):
        case = 'tree %s %s' % (fmt, ' '.join('/'.join(p) + ('/' if k == G else '') for p, k in t.key()) or '(empty)')
        if not ctx.want(case):
            continue
        ctx.add('states')
        before = seen[t.key()]
        c.reset(before)
        if not check_disk(c, before, t, t, case, 'create'):
            continue
        check_view(c, c.open(), t, case)
        some = ctx.thorough or len(t.n) <= 1 or i % 16 == 7
        for gp in [()] + [p for p, k in t.key() if k == G]:
            for n in plain + odd if some else [plain[j] for j in (0, 1, 2, 3, 4, 8, 11, 12)][:8 if not gp else 4] if i % 2 == 0 or len(t.n) <= 2 else plain[:4]:
                for op in READ + WRITE:
                    s = '%s: %s %r on /%s' % (case, op, n, '/'.join(gp))
                    f = c.open()
                    g, e = attempt(lambda: f['/'.join(gp)] if gp else f)
                    if e is not None:
                        ctx.violation('receiver', '%s: %s' % (s, e))
                        continue
                    after = apply(c, f, g, gp, op, n, t, s)
                    ctx.add('transitions')
                    if op in READ:
                        continue
                    good = check_disk(c, before, t, after, s, op)
                    if not good:
                        pass
                    elif after.key() != t.key() and after.key() not in seen or n.startswith('.') and some:
                        check_view(c, c.open(), after, s)
                    out = c.around()
                    ctx.check(out == c.outside, 'outside', lambda: '%s: outside of the container %s' % (s, sorted(k for k in set(out) | set(c.outside) if out.get(k, 0) != c.outside.get(k, 0))[:4]))
                    if out != c.outside:
                        pyh.restore(c.base, dict(c.outside, **{k: v for k, v in pyh.snapshot(c.base).items() if k not in out}))
                    c.reset(before)
        # reading must not have changed anything
        ctx.check(pyh.snapshot(c.path) == before, 'read-side-effect', lambda: case + ': reading changed files')
    ctx.sample('%s: %d trees, from the empty container to %s' % (fmt, len(todo), '/'.join(todo[-1].key()[0][0]) + ' ...'))


def sequences(fmt):
    """all sequences of operations on handles that stay alive (the file, the group /a, a second file handle)"""
    c = Container(fmt)
    depth = 4 if ctx.thorough else 3
    ops = [('file', 'create_group', 'a'), ('file', 'create_data', 'a/b'), ('file', 'del', 'a'), ('file', 'require_group', 'a/b'), ('file', 'create_data', 'a'), ('file', 'require_dataset', 'b'),
           ('group', 'create_group', 'b'), ('group', 'create_data', '/b'), ('group', 'del', 'b'), ('group', 'require_dataset', 'b'), ('group', 'in', 'b'), ('second', 'del', 'a'), ('second', 'require_group', 'a'), ('second', 'create_data', 'b')]
    for first in ops:
        case = 'sequence %s %s' % (fmt, ' '.join(first))
        if not ctx.want(case):
            continue
        for rest in itertools.product(ops, repeat=depth):
            seq = (first,) + rest if ctx.thorough else (first,) + rest[1:]
            if not ctx.thorough and rest[0] != ops[0]:
                break
            c.reset(c.empty)
            h = {'file': c.open(), 'second': c.open(), 'group': None}
            t = Tree()
            s = fmt
            for who, op, n in seq:
                s += ' %s.%s(%s)' % (who, op, n)
                if who == 'group':
                    if h['group'] is None:
                        if t.kind(('a',)) != G:
                            break
                        h['group'] = h['file']['a']
                    if t.kind(('a',)) == D:         # the handle of a group that has become a dataset: undefined
                        break
                g, gp = h[who], ('a',) if who == 'group' else ()
                before = pyh.snapshot(c.path)
                after = apply(c, h['second'] if who == 'second' else h['file'], g, gp, op, n, t, s)
                ctx.add('transitions')
                if op != 'in' and not check_disk(c, before, t, after, s, 'live-' + op):
                    return
                t = after
            else:
                check_view(c, h['file'], t, s)
                ctx.add('sequences')


def main():
    for fmt in ('n5', 'zarr', 'zarr3') + (('sharded',) if ctx.thorough else ()):
        explore(fmt)
        sequences(fmt)
    ctx.finish()


main()
