"""C16: every index expression over an alphabet and every kind of value, on small datasets of every format, against numpy."""
import itertools
import os
import sys
import warnings
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import numpy as np
import pyh
import z5py
warnings.simplefilter('ignore')

ctx = pyh.Ctx(sys.argv[1:])
pyh.drop_privileges(ctx.scratch)
ROOT = os.path.join(ctx.scratch, 'z5v')
os.makedirs(ROOT, exist_ok=True)
FORMATS = ['n5', 'zarr', 'zarr3', 'sharded']
N = [0]


def make(fmt, dtype, shape, chunks, compression='raw', **kw):
    N[0] += 1
    path = os.path.join(ROOT, 'c%d.%s' % (N[0], 'n5' if fmt == 'n5' else 'zarr'))
    f = z5py.File(path, 'w', zarr_format=2 if fmt in ('n5', 'zarr') else 3)
    if fmt == 'sharded':
        kw['shards'] = tuple(2 * min(c, s) for c, s in zip(chunks, shape))
    return f.create_dataset('d', shape=shape, dtype=dtype, chunks=chunks, compression=compression, **kw), path


def same(a, b):
    return a is not None and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def show(i):
    def one(x):
        if isinstance(x, slice):
            return '%s:%s%s' % ('' if x.start is None else x.start, '' if x.stop is None else x.stop,
                                '' if x.step is None else ':%s' % x.step)
        if x is Ellipsis:
            return '...'
        return '%s' % x if type(x) is int else '%s(%s)' % (type(x).__name__, x)
    return '[' + ', '.join(one(x) for x in (i if isinstance(i, tuple) else (i,))) + (',' if isinstance(i, tuple) and len(i) == 1 else '') + ']'


def supported(index):
    """the expressions that have to be accepted: (tuples of) integers, slices with step 1, at most one ellipsis"""
    t = index if isinstance(index, tuple) else (index,)
    for x in t:
        if isinstance(x, slice):
            if x.step not in (None, 1) or any(not (v is None or (isinstance(v, (int, np.integer)) and not isinstance(v, bool))) for v in (x.start, x.stop)):
                return False
        elif x is not Ellipsis and (isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, np.integer))):
            return False
    return sum(x is Ellipsis for x in t) <= 1


def axis_items(n, few):
    ints = list(range(-n - 2, n + 2))
    bounds = [None] + list(range(-n - 2, n + 3))
    if few:
        bounds = [None, -n - 1, -n, -1, 0, 1, n, n + 1]
        ints = [-n - 1, -n, -1, 0, n - 1, n]
    res = ints + [slice(a, b) for a in bounds for b in bounds]
    return res


def expressions(shape):
    nd = len(shape)
    few = nd > 1 and not ctx.thorough or nd > 2
    odd = [slice(None, None, 2), slice(None, None, 1), slice(None, None, -1), slice(0, 2, 0), np.int64(-1), np.uint8(1), np.int8(-2),
           True, False, np.bool_(True), None, 1.0, 0.5, np.float32(1), [0], [0, 1], (0,), np.array(1), np.array([0, 1]), np.array([True] * shape[0]), '0', b'a', 1j,
           2 ** 63, -2 ** 63, 2 ** 64 + 1, slice(0, 2 ** 64), slice(-2 ** 70, None), slice(np.int64(0), np.int64(2)), slice(0.5, None), slice(None, 1.0), slice('a', None), np.datetime64('2020'), object(), Ellipsis, ()]
    yield from odd
    yield (Ellipsis, Ellipsis)
    if nd == 1:
        items = axis_items(shape[0], False)
        for x in items:
            yield x
            yield (x,)
            yield (x, Ellipsis)
            yield (Ellipsis, x)
        for x in [0, slice(0, 1)]:
            for y in [0, slice(None), Ellipsis]:
                yield (x, y, y)
                yield (x, y)
        return
    per = [axis_items(n, few) for n in shape]
    if nd == 3:
        per = [[-n, 0, n - 1, n, slice(None), slice(1, None), slice(-1, n), slice(n, None), slice(1, 1), slice(-n - 1, 1)] for n in shape]
    for x in per[0]:
        yield x
        yield (x, Ellipsis)
        yield (Ellipsis, x)
    yield from itertools.product(*per)
    small = [[0, -1, slice(0, 1), slice(1, None)]] * nd
    for t in itertools.product(*small):
        for i in range(nd + 1):
            yield t[:i] + (Ellipsis,) + t[i:]
            if i < nd:
                yield t[:i] + (Ellipsis,) + t[i + 1:]
        yield t + (0,)
        yield t + (slice(None),)
        yield (Ellipsis,) + t[:1] + (Ellipsis,) + t[1:]
        for o in odd:
            yield (o,) + t[1:]
            yield t[:-1] + (o,)


def as_numpy(index, shape):
    """the same selection for numpy: slices that start before the first element select nothing (z5py's tests ask for
    this; numpy clips them)"""
    if not supported(index):
        return index
    t = index if isinstance(index, tuple) else (index,)
    dots = next((i for i, x in enumerate(t) if x is Ellipsis), len(t))
    res = []
    for i, x in enumerate(t):
        d = i if i < dots else len(shape) - (len(t) - i)
        if isinstance(x, slice) and x.start is not None and 0 <= d < len(shape) and x.start < -shape[d]:
            x = slice(0, 0)
        res.append(x)
    return tuple(res) if isinstance(index, tuple) else res[0]


def full_shape(index, shape):
    """shape of the selection with a singleton for every integer"""
    t = index if isinstance(index, tuple) else (index,)
    return np.empty(shape, 'i1')[tuple((slice(x, x + 1 or None) if not isinstance(x, (slice, type(Ellipsis))) else x) for x in t)].shape


def inner(index, shape):
    """is a singleton dimension that numpy drops between other dimensions?"""
    n = np.shape(np.empty(shape, 'i1')[index])
    full = full_shape(index, shape)
    core = [x for x in n]
    while len(core) > 1 and core[0] == 1:
        core.pop(0)
    while len(core) > 1 and core[-1] == 1:
        core.pop()
    return not any(list(full[i:i + len(core)]) == core and all(x == 1 for x in full[:i] + full[i + len(core):]) for i in range(len(full)))


def attempt(f):
    try:
        return f(), None
    except Exception as e:      # noqa
        return None, e


def reading(fmt, shape, chunks):
    case = 'index %s %s/%s' % (fmt, shape, chunks)
    if not ctx.want(case):
        return
    ds, path = make(fmt, 'int16', shape, chunks)
    ref = (np.arange(np.prod(shape), dtype='int16') + 1).reshape(shape)
    ds[...] = ref
    other = np.zeros(shape, 'int16')
    disk = pyh.snapshot(path)
    value = 1000
    for e in expressions(shape):
        n = as_numpy(e, shape)
        want, nerr = attempt(lambda: ref[n])
        got, zerr = attempt(lambda: ds[e])
        s = '%s %s' % (case, show(e))
        must = supported(e) and nerr is None
        kind = 'int' if isinstance(e, int) else 'slice' if isinstance(e, slice) else 'tuple' if isinstance(e, tuple) else type(e).__name__
        ctx.add('expressions')
        if zerr is not None:
            ctx.check(not must, 'rejects:' + kind, lambda: '%s: rejected (%s: %s), numpy gives %s' % (s, type(zerr).__name__, zerr, np.shape(want)))
        elif nerr is not None:
            ctx.check(False, 'accepts:' + kind, lambda: '%s: gives %r, numpy rejects it (%s)' % (s, np.shape(got), nerr))
        else:
            w = want if not isinstance(want, np.ndarray) else np.ascontiguousarray(want).reshape(want.shape)
            ctx.check(same(got, w), 'value:' + kind,
                      lambda: '%s: gives %s %s, numpy %s %s' % (s, np.shape(got), np.asarray(got).tolist(), np.shape(w), np.asarray(w).tolist()))
        # assignment of a scalar and of an array to the same selection
        changed = ref.copy()
        value += 1
        _, nerr = attempt(lambda: changed.__setitem__(n, value))
        _, zerr = attempt(lambda: ds.__setitem__(e, value))
        if zerr is None and nerr is None:
            now = ds[...]
            ctx.check(np.array_equal(now, changed), 'assign:' + kind, lambda: '%s = %d: the dataset is %s, the array %s' % (s, value, now.tolist(), changed.tolist()))
            if supported(e):
                data = np.arange(np.size(want), dtype='int16').reshape(np.shape(want)) - 500
                if data.ndim:
                    changed[n] = data
                    _, aerr = attempt(lambda: ds.__setitem__(e, data))
                    now = ds[...]
                    # (documented: singleton dimensions are only added at the ends)
                    mid = aerr is not None and 'complicated broadcasting' in str(aerr) and inner(n, ref.shape)
                    ctx.check(mid or aerr is None and np.array_equal(now, changed), 'assign-array:' + kind,
                              lambda: '%s = array: %s the dataset is %s, the array %s' % (s, aerr, now.tolist(), changed.tolist()))
        elif zerr is None:
            ctx.check(np.array_equal(ds[...], ref), 'assign-accepts:' + kind, lambda: '%s = scalar: numpy rejects it (%s), the dataset is changed' % (s, nerr))
        else:
            ctx.check(not must, 'assign-rejects:' + kind, lambda: '%s = scalar: rejected (%s)' % (s, zerr))
        if zerr is not None:
            ctx.check(pyh.snapshot(path) == disk, 'side-effect:' + kind, lambda: '%s = scalar: rejected, but files were changed' % s)
        pyh.restore(path, disk)
    if len(ctx.samples) < 3:
        ctx.sample(case)


INTS = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64']


def scalars(fmt, dtype):
    """every kind of scalar to every element type"""
    case = 'scalar %s %s' % (fmt, dtype)
    if not ctx.want(case):
        return
    ds, path = make(fmt, dtype, (3, 3), (2, 2))
    dt = np.dtype(dtype)
    vals = [0, 1, -1, 5, True, False, 1.0, 1.5, -1.5, -0.0, 0.1, 1e10, -1e10, 1e300, float('inf'), float('nan'), 1j, 2 + 0j]
    for b in (7, 8, 15, 16, 31, 32, 53, 63, 64):
        for d in (-1, 0, 1):
            vals += [2 ** b + d, -2 ** b + d]
    for t in INTS + ['float32', 'float64']:
        i = np.iinfo(t) if t in INTS else np.finfo(t)
        vals += [np.dtype(t).type(i.min), np.dtype(t).type(i.max), np.dtype(t).type(3), np.dtype(t).type(i.max // 3 if t in INTS else 0.1)]
    vals += [2 ** 53 + 1, 2 ** 62 + 1, -2 ** 62 - 1, np.int64(2 ** 62 + 1), np.uint64(2 ** 63 + 3), np.int64(2 ** 53 + 1), np.float16(0.5), np.longdouble(3), np.complex64(2), np.bool_(True), None, 'a', b'a', '7']
    disk = None
    for v in vals:
        ds[...] = np.arange(9).reshape(3, 3).astype(dtype)
        ref = np.arange(9).reshape(3, 3).astype(dtype)
        disk = pyh.snapshot(path)
        sel = (slice(0, 2), slice(1, 3))
        _, nerr = attempt(lambda: ref.__setitem__(sel, v))
        _, zerr = attempt(lambda: ds.__setitem__(sel, v))
        s = '%s = %s(%r)' % (case, type(v).__name__, v)
        ctx.add('expressions')
        must = nerr is None and isinstance(v, (int, float, np.integer, np.floating)) and not (isinstance(v, np.longdouble))
        # numpy: casting values without an image is implementation defined
        undefined = dt.kind in 'iu' and isinstance(v, (float, np.floating)) and not (np.isfinite(v) and np.iinfo(dt).min <= np.trunc(v) <= np.iinfo(dt).max)
        kind = type(v).__name__
        if zerr is not None:
            ctx.check(not must or undefined, 'scalar-rejects:%s:%s' % (dt.kind, kind), lambda: '%s: rejected: %s: %s' % (s, type(zerr).__name__, zerr))
            ctx.check(pyh.snapshot(path) == disk, 'scalar-side-effect:' + kind, lambda: '%s: rejected, but files were changed' % s)
        elif nerr is not None:
            ctx.check(False, 'scalar-accepts:%s:%s' % (dt.kind, kind), lambda: '%s: stored as %s, numpy rejects it (%s)' % (s, ds[0, 1], nerr))
        elif not undefined:
            ctx.check(ds[...].tobytes() == ref.tobytes(), 'scalar-value:%s:%s' % (dt.kind, kind), lambda: '%s: the dataset is %s, the array %s' % (s, ds[...].tolist(), ref.tolist()))


def arrays(fmt, dtype):
    """arrays of every type, layout and shape to a region"""
    case = 'array %s %s' % (fmt, dtype)
    if not ctx.want(case):
        return
    dt = np.dtype(dtype)
    shape = (2, 3, 2)
    ds, path = make(fmt, dtype, shape, (1, 2, 2))
    base = (np.arange(12).reshape(shape) % 5).astype(dtype)
    ds[...] = base
    disk = pyh.snapshot(path)
    regions = [(slice(None),) * 3, (0,), (slice(0, 1), slice(0, 1)), (slice(None), 1), (slice(None), slice(1, 2), slice(0, 1)), (0, slice(None), 1), (1, 2, 1), (Ellipsis, slice(0, 1))]
    for r in regions:
        n = np.shape(base[r])
        full = base[tuple(slice(x, x + 1) if isinstance(x, int) else x for x in r)].shape
        shapes = {n, full, n + (1,), (1,) + n, full[1:] if len(full) > 1 else (1,), tuple(x for x in full if x != 1), (1,), (), (1, 1), tuple(reversed(n)), (2,), (3,), (2, 3), (6,), (12,), (3, 2), (1, 3, 1), (0,), (2, 1, 2), (2, 3, 1, 2)}
        for sh in sorted(shapes):
            size = int(np.prod(sh))
            for layout in ('C', 'F', 'rev', 'step', 'list') if sh == n or sh == full else ('C',):
                for t in (INTS + ['float32', 'float64', '>i2', '>f8', 'bool', 'complex128', 'U3', 'O'] if sh == n and layout in ('C', 'list') else [dtype]):
                    a = (np.arange(size) % 100 + 1)
                    a = (a.astype('float64') + 0.5 if t in ('float32', 'float64', '>f8') else a).astype(t).reshape(sh)
                    if layout == 'F':
                        a = np.asfortranarray(a)
                    elif layout == 'rev' and a.ndim:
                        a = a[::-1]
                    elif layout == 'step' and a.ndim:
                        b = np.zeros(tuple(2 * x for x in sh), t)
                        b[tuple(slice(None, None, 2) for _ in sh)] = a
                        a = b[tuple(slice(None, None, 2) for _ in sh)]
                    elif layout == 'list':
                        a = a.tolist()
                    ref = base.copy()
                    _, nerr = attempt(lambda: ref.__setitem__(r, a))
                    _, zerr = attempt(lambda: ds.__setitem__(r, a))
                    ctx.add('expressions')
                    s = '%s %s = %s array of %s (%s)' % (case, show(r), sh, t, layout)
                    sig = '%s:%s' % (layout, 'same' if sh == n or sh == full else 'other')
                    now = ds[...]
                    if zerr is not None:
                        must = nerr is None and (sh == n and not inner(r, shape) or sh == full) and len(sh) > 0 and t not in ('complex128', 'U3', 'O', 'bool')
                        ctx.check(not must, 'array-rejects:' + sig, lambda: '%s: rejected: %s: %s' % (s, type(zerr).__name__, zerr))
                        ctx.check(pyh.snapshot(path) == disk, 'array-side-effect:' + sig, lambda: '%s: rejected, but files were changed' % s)
                    elif nerr is not None:
                        # beyond numpy: leading and trailing singleton dimensions are added or removed
                        ok = size == int(np.prod(full)) and [x for x in sh if x != 1] == [x for x in full if x != 1] and size > 0
                        ref = base.copy()
                        if ok:
                            ref[tuple(slice(x, x + 1) if isinstance(x, int) else x for x in r)] = np.asarray(a).reshape(full)
                        ctx.check(ok and now.tobytes() == ref.tobytes(), 'array-accepts:' + sig, lambda: '%s: numpy rejects it (%s), the dataset is %s' % (s, nerr, now.tolist()))
                    else:
                        ctx.check(now.tobytes() == ref.tobytes(), 'array-value:' + sig, lambda: '%s: the dataset is %s, the array %s' % (s, now.tolist(), ref.tolist()))
                    pyh.restore(path, disk)


def rectify(fmt):
    """every shape of data to every shape of region"""
    dims = (1, 2, 3, 4, 6)
    for nd in (1, 2, 3):
        shape = (6,) * nd
        ds = path = disk = base = None
        for full in itertools.product(dims, repeat=nd):
            if nd == 3 and int(np.prod(full)) > 40:
                continue
            case = 'rectify %s %s' % (fmt, full)
            if not ctx.want(case):
                continue
            if ds is None:
                ds, path = make(fmt, 'int16', shape, (3,) * nd)
                base = np.full(shape, -1, 'int16')
                ds[...] = base
                disk = pyh.snapshot(path)
            sel = tuple(slice(0, x) for x in full)
            for k in (1, 2, 3, 4):
                for sh in itertools.product(dims, repeat=k):
                    size = int(np.prod(sh))
                    if size > 72 or (k == 4 and size != int(np.prod(full))):
                        continue
                    a = (np.arange(size) + 1).astype('int16').reshape(sh)
                    ref = base.copy()
                    _, nerr = attempt(lambda: ref.__setitem__(sel, a))
                    _, zerr = attempt(lambda: ds.__setitem__(sel, a))
                    ctx.add('expressions')
                    # documented: singletons are added or removed at the ends
                    core = list(sh)
                    while len(core) > 1 and core[0] == 1:
                        core.pop(0)
                    while len(core) > 1 and core[-1] == 1:
                        core.pop()
                    ends = any(list(full[i:i + len(core)]) == core and all(x == 1 for x in full[:i] + full[i + len(core):]) for i in range(nd))
                    s = '%s = array of %s' % (case, sh)
                    if zerr is not None:
                        ctx.check(not ends and pyh.snapshot(path) == disk, 'rectify-rejects', lambda: '%s: rejected: %s' % (s, zerr))
                        continue
                    if nerr is not None or ends:
                        ref = base.copy()
                        if ends:
                            ref[sel] = a.reshape(full)
                    now = ds[...]
                    ctx.check((ends or nerr is None) and now.tobytes() == ref.tobytes(), 'rectify-accepts' if not ends and nerr is not None else 'rectify-value', lambda: '%s: accepted, numpy: %s' % (s, nerr or 'other values'))
                    ds[...] = base


def methods(fmt, dtype):
    """read_subarray, write_subarray, read_direct, write_direct, chunks, properties"""
    case = 'methods %s %s' % (fmt, dtype)
    if not ctx.want(case):
        return
    shape, chunks = (3, 4), (2, 3)
    ds, path = make(fmt, dtype, shape, chunks)
    base = (np.arange(12).reshape(shape) + 1).astype(dtype)
    ctx.check(ds.shape == shape and ds.ndim == 2 and ds.size == 12 and len(ds) == 3 and ds.dtype == np.dtype(dtype) and ds.chunks == chunks and tuple(ds.chunks_per_dimension) == (2, 2) and ds.number_of_chunks == 4,
              'properties', lambda: case + ': %s' % ((ds.shape, ds.ndim, ds.size, len(ds), ds.dtype, ds.chunks, ds.chunks_per_dimension, ds.number_of_chunks),))
    ds[...] = base
    ctx.check(same(np.asarray(ds), base), '__array__', lambda: case + ': np.asarray')
    ctx.check(same(np.asarray(ds, dtype='float64'), base.astype('float64')), '__array__', lambda: case + ': np.asarray(float)')
    disk = pyh.snapshot(path)
    rng = [(a, b) for a in range(-1, 5) for b in range(-1, 6)]
    for (a0, a1) in rng:
        for (b0, b1) in rng:
            legal = 0 <= a0 < a1 <= 3 and 0 <= b0 < b1 <= 4
            got, err = attempt(lambda: ds.read_subarray((a0, b0), (a1, b1)))
            ctx.add('expressions')
            if legal:
                ctx.check(err is None and same(got, np.ascontiguousarray(base[a0:a1, b0:b1])), 'read_subarray', lambda: '%s: read_subarray(%s, %s): %s' % (case, (a0, b0), (a1, b1), err))
            elif err is None:
                ctx.check(got.size == 0, 'read_subarray-accepts', lambda: '%s: read_subarray(%s, %s) gives %s' % (case, (a0, b0), (a1, b1), got))
            if a1 > a0 and b1 > b0:
                data = (np.arange((a1 - a0) * (b1 - b0)).reshape(a1 - a0, b1 - b0) + 50).astype(dtype)
                _, err = attempt(lambda: ds.write_subarray((a0, b0), data))
                if legal:
                    ref = base.copy()
                    ref[a0:a1, b0:b1] = data
                    ctx.check(err is None and ds[...].tobytes() == ref.tobytes(), 'write_subarray', lambda: '%s: write_subarray(%s, %s): %s' % (case, (a0, b0), data.shape, err))
                else:
                    ctx.check(err is not None and pyh.snapshot(path) == disk, 'write_subarray-accepts', lambda: '%s: write_subarray(%s, %s): %s' % (case, (a0, b0), data.shape, err))
                pyh.restore(path, disk)
            if legal:
                # read_direct / write_direct with selections on both sides
                dest = np.full((5, 6), 77).astype(dtype)
                want = dest.copy()
                sel, dsel = (slice(a0, a1), slice(b0, b1)), (slice(1, 1 + a1 - a0), slice(2, 2 + b1 - b0))
                want[dsel] = base[sel]
                _, err = attempt(lambda: ds.read_direct(dest, sel, dsel))
                ctx.check(err is None and dest.tobytes() == want.tobytes(), 'read_direct', lambda: '%s: read_direct(%s, %s): %s' % (case, sel, dsel, err))
                src = np.arange(30).reshape(5, 6).astype(dtype)
                ref = base.copy()
                ref[sel] = src[dsel]
                _, err = attempt(lambda: ds.write_direct(src, dsel, sel))
                ctx.check(err is None and ds[...].tobytes() == ref.tobytes(), 'write_direct', lambda: '%s: write_direct(%s, %s): %s' % (case, dsel, sel, err))
                pyh.restore(path, disk)
    # the type of the data has to agree
    for t in INTS + ['float32', 'float64', '>i4', '>f8', 'complex64', 'bool']:
        data = np.arange(6).reshape(2, 3).astype(t)
        for layout in ('C', 'F', 'rev'):
            d = np.asfortranarray(data) if layout == 'F' else data[::-1] if layout == 'rev' else data
            _, err = attempt(lambda: ds.write_subarray((0, 0), d))
            ctx.add('expressions')
            if np.dtype(t) == np.dtype(dtype):
                ref = base.copy()
                ref[:2, :3] = d
                ctx.check(err is None and ds[...].tobytes() == ref.tobytes(), 'write_subarray', lambda: '%s: write_subarray %s %s: %s' % (case, t, layout, err))
            elif err is None:
                ref = base.copy()
                ref[:2, :3] = d
                ctx.check(ds[...].tobytes() == ref.tobytes(), 'write_subarray-type', lambda: '%s: write_subarray of %s data: accepted, the dataset is %s' % (case, t, ds[...].tolist()))
            else:
                ctx.check(pyh.snapshot(path) == disk, 'write_subarray-side-effect', lambda: '%s: write_subarray of %s data: rejected, but files were changed' % (case, t))
            pyh.restore(path, disk)
            # a chunk
            _, err = attempt(lambda: ds.write_chunk((0, 0), d))
            got, rerr = attempt(lambda: ds.read_chunk((0, 0)))
            if np.dtype(t) == np.dtype(dtype) and (layout == 'C' or err is None):
                ctx.check(err is None and rerr is None and same(got, np.ascontiguousarray(d)), 'write_chunk', lambda: '%s: write_chunk %s %s: %s %s, read back %s' % (case, t, layout, err, rerr, got))
            elif err is None:
                ctx.check(rerr is None and np.array_equal(got, d), 'write_chunk-type', lambda: '%s: write_chunk of %s data: accepted, read back %s' % (case, t, got))
            else:
                ctx.check(pyh.snapshot(path) == disk, 'write_chunk-side-effect', lambda: '%s: write_chunk of %s data: rejected, but files were changed' % (case, t))
            pyh.restore(path, disk)
    # chunks of every shape at every position
    zarr = fmt != 'n5'
    for c in [(a, b) for a in range(-1, 3) for b in range(-1, 3)] + [(0,), (0, 0, 0), ()]:
        legal = len(c) == 2 and all(0 <= x < 2 for x in c)
        ctx.add('expressions')
        clipped = tuple(min(k, s - x * k) for k, s, x in zip(chunks, shape, c)) if legal else None
        full = np.zeros(chunks, dtype)
        if legal:
            part = base[tuple(slice(x * k, x * k + n) for x, k, n in zip(c, chunks, clipped))]
            full[tuple(slice(0, n) for n in clipped)] = part
        got, err = attempt(lambda: ds.read_chunk(c))
        if legal:
            ctx.check(err is None and (same(got, full) if zarr else same(got, np.ascontiguousarray(part))), 'read_chunk', lambda: '%s: read_chunk(%s): %s %s' % (case, c, err, got))
            ctx.check(ds.chunk_exists(c) is True, 'chunk_exists', lambda: '%s: chunk_exists(%s)' % (case, c))
            gs, err = attempt(lambda: tuple(ds.get_chunk_shape(c)))
            ctx.check(gs == clipped, 'get_chunk_shape', lambda: '%s: get_chunk_shape(%s): %s %s' % (case, c, gs, err))
        else:
            ctx.check(err is not None or got is None, 'read_chunk-accepts', lambda: '%s: read_chunk(%s) gives %s' % (case, c, got))
            got, err = attempt(lambda: ds.chunk_exists(c))
            ctx.check(err is not None or got is False, 'chunk_exists-accepts', lambda: '%s: chunk_exists(%s) gives %s' % (case, c, got))
        for sh in [(2, 3), (1, 3), (2, 1), (1, 1), (6,), (3, 2), (2, 3, 1), (3, 4), ()]:
            data = (np.arange(int(np.prod(sh))).reshape(sh) + 60).astype(dtype)
            _, err = attempt(lambda: ds.write_chunk(c, data))
            fits = legal and (sh == chunks or sh == clipped) if zarr else legal and sh == clipped
            if fits and sh == (chunks if zarr else clipped):
                ref = base.copy()
                ref[tuple(slice(x * k, x * k + n) for x, k, n in zip(c, chunks, clipped))] = data[tuple(slice(0, n) for n in clipped)]
                ctx.check(err is None and ds[...].tobytes() == ref.tobytes(), 'write_chunk', lambda: '%s: write_chunk(%s, %s): %s, the dataset is %s' % (case, c, sh, err, ds[...].tolist()))
            elif err is not None:
                ctx.check(pyh.snapshot(path) == disk, 'write_chunk-side-effect', lambda: '%s: write_chunk(%s, %s): rejected (%s), but files were changed' % (case, c, sh, err))
            else:
                # accepted: the same number of elements, in order (data that is not of the shape of the chunk)
                n = int(np.prod(chunks if zarr else clipped)) if legal else -1
                ok = legal and data.size == n
                if ok:
                    ref = base.copy()
                    ref[tuple(slice(x * k, x * k + m) for x, k, m in zip(c, chunks, clipped))] = data.reshape(chunks if zarr else clipped)[tuple(slice(0, m) for m in clipped)]
                    ok = ds[...].tobytes() == ref.tobytes()
                ctx.check(ok, 'write_chunk-accepts', lambda: '%s: write_chunk(%s, %s data) is accepted' % (case, c, sh))
            pyh.restore(path, disk)
    # absent chunks
    e, p2 = make(fmt, dtype, shape, chunks)
    ctx.check(e.read_chunk((0, 0)) is None and not e.chunk_exists((0, 0)), 'absent', lambda: case + ': read_chunk of an absent chunk')
    if not zarr:
        v = np.arange(11).astype(dtype)
        e.write_chunk((0, 1), v, True)
        ctx.check(same(e.read_chunk((0, 1)), v), 'varlen', lambda: case + ': varlen chunk')
    else:
        _, err = attempt(lambda: e.write_chunk((0, 1), np.zeros(11, dtype), True))
        ctx.check(err is not None and not e.chunk_exists((0, 1)), 'varlen', lambda: case + ': varlen chunk accepted')


def main():
    shapes = [((3,), (2,)), ((4,), (4,)), ((1,), (1,)), ((2, 3), (1, 2)), ((2, 2, 3), (1, 2, 2))]
    if ctx.thorough:
        shapes += [((5,), (2,)), ((3, 3), (2, 2)), ((1, 4), (1, 3)), ((1, 1), (1, 1)), ((3, 2, 2), (2, 1, 2))]
    for sh, ch in shapes:
        for fmt in FORMATS if ctx.thorough else FORMATS[:2] if len(sh) == 1 else FORMATS[1:2] if sh == (2, 3) else ['zarr3']:
            reading(fmt, sh, ch)
    types = INTS + ['float32', 'float64']
    for fmt in FORMATS if ctx.thorough else ['n5', 'zarr3']:
        for t in types:
            scalars(fmt, t)
    for fmt in FORMATS if ctx.thorough else ['n5', 'sharded']:
        for t in types if ctx.thorough else ['uint8', 'int16', 'int64', 'float32']:
            arrays(fmt, t)
    for fmt in FORMATS if ctx.thorough else ['zarr']:
        rectify(fmt)
    for fmt in FORMATS:
        for t in types if ctx.thorough or fmt == 'zarr' else ['int32', 'float64']:
            methods(fmt, t)
    ctx.finish()


main()
