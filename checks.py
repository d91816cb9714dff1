"""The checks: how each property's harnesses are built and run, and what the evidence says."""
import check as C

CHECKS = {}


def cpp(prop, level, rule, *, technique, note, sources, name=None, flags=('-O1',), link=(), libs=None, deps=(), label='main',
        parts=None, limit=700, assumptions=(), keys=None):
    CHECKS[prop] = dict(
        level=level, rule=rule, technique=technique, note=note, assumptions=list(assumptions), keys=keys,
        runs=lambda ctx: [(label, lambda: [C.build_cpp(name or prop.lower(), sources, flags, link, libs, deps)],
                           dict(parts=parts, limit=limit))],
        coverage=lambda results: coverage(CHECKS[prop], results))


def coverage(spec, results):
    cnt, gauge, samples, outcomes = {}, {}, [], 0
    for r in results.values():
        for k, v in r['count'].items():
            cnt[k] = cnt.get(k, 0) + v
        for k, v in r['gauge'].items():
            gauge[k] = max(gauge.get(k, v), v)
        samples += r['samples'][:4]
        outcomes += r['outcomes']
    cov = {'counts': cnt, 'max': gauge, 'samples': samples[:24], 'rule': spec['rule'], 'distinct_outcomes': outcomes}
    k = spec.get('keys') or {}
    lvl = spec['level']
    if lvl in ('exploration', 'fault_enumeration'):
        cov['evaluations'] = sum(cnt.get(x, 0) for x in k.get('evaluations', ['checks']))
        cov['distinct_nontrivial'] = sum(cnt.get(x, 0) for x in k.get('distinct', ['cases']))
    elif lvl == 'model_checking':
        cov['states'] = sum(cnt.get(x, 0) for x in k.get('states', ['states']))
        cov['transitions'] = sum(cnt.get(x, 0) for x in k.get('transitions', ['transitions']))
        cov['traces_validated_against_impl'] = sum(cnt.get(x, 0) for x in k.get('traces', ['transitions']))
    return cov


cpp('C02', 'exploration',
    'every shape/block shape/region up to the size bound, every scaled/translated instance and every request of the '
    'alphabet; a case is one (shape, block shape) pair or request and is non-trivial when it lies in the enumerated '
    'space exactly once; checks compare with a 128-bit per-axis reference and element by element',
    technique='exhaustive bounded enumeration of shapes, blocks, regions and requests on the real code',
    note='all instances within the bounds are executed; larger extents only at the enumerated scales',
    sources=['harness/c02.cpp'])
cpp('C03', 'exploration',
    'every shape up to the bound x every layout (axis order, interleaved/padded steps, reversed and broadcast axes) of '
    'source and destination, guard elements around and between the addressed ones; plus every region of small datasets '
    'read into / written from every layout; one case is one shape (views) or one region (datasets)',
    technique='exhaustive bounded enumeration of view layouts with guard elements on the real code',
    note='all layouts of all shapes within the bounds; other element types and larger shapes by extrapolation',
    sources=['harness/c03.cpp'], flags=['-O2'])
cpp('C01', 'model_checking',
    'state = bytes of all files of the dataset; transitions = every region write (constant and pattern), scalar fill, '
    'chunk write, chunk removal, each executed on the real code from every reachable state and compared with an '
    'in-memory array (whole array and chunk presence after each transition; every region, every chunk and a fresh '
    'handle in every new state); plus every sequence of a small depth on one live handle',
    technique='explicit-state model checking of the real code (breadth-first over stored bytes) against an array model',
    note='all reachable states of tiny arrays per configuration; data values and shapes outside the alphabet are not covered',
    sources=['harness/c01.cpp'] + [('harness/c01.cpp', ['-O1', '-DELEM=' + t, '-DELEMNAME=' + n]) for t, n in (
        ('int16_t', 'i16'), ('uint8_t', 'u8'), ('int64_t', 'i64'), ('float', 'f32'), ('double', 'f64'),
        ('std::complex<float>', 'c64'))])
def variants(prop, level, rule, *, technique, note, builds, limit=600, keys=None, mem=3 << 30):
    """several builds of harnesses, compiled at the same time; builds: label -> (sources, flags, link, use memory limit)"""
    def runs(ctx):
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex:
            futs = [(lb, b, ex.submit(C.build_cpp, prop.lower() + lb, b[0], b[1], b[2])) for lb, b in builds.items()]
            return [(lb, [f.result()], dict(limit=limit, mem=mem if b[3] else None)) for lb, b, f in futs]
    CHECKS[prop] = dict(level=level, rule=rule, technique=technique, note=note, assumptions=[], keys=keys, runs=runs,
                        coverage=lambda results: coverage(CHECKS[prop], results))


# second build: without libdeflate, i.e. with the stock zlib backend
STOCK = ['-UWITH_LIBDEFLATE', '-DSTOCK']
variants('C04', 'exploration',
    'every element type x codec x option set x container format x chunk class (full, edge, single element, sizes around '
    'codec block sizes) x data pattern: stored, read back through the same and a fresh handle and decoded from the raw '
    'bytes, with libdeflate and with the stock zlib backend; sizes beyond 32 bit stored in full or refused; every variable length over every predecessor; every ordered pair of operations over datasets of all codecs',
    technique='exhaustive bounded enumeration of codec configurations, data patterns and operation orders on the real code',
    note='all option sets and pattern classes listed; other data contents by extrapolation', limit=700, mem=16 << 30,
    builds={'main': (['harness/c04.cpp'], ['-O0'], [], True), 'stock': (['harness/c04.cpp'], ['-O0'] + STOCK, [], True)})
variants('C05', 'exploration',
    'every format variant x element type x codec x geometry written by z5 and decoded by the independent reader (files '
    'present, metadata fields, codec framing, values), and written by the independent writer and read by z5, plus codec '
    'option sets, absent chunks, single chunks of foreign arrays rewritten and removed, reordered / gapped shards and optional metadata spellings',
    technique='exhaustive bounded enumeration of layouts, cross-checked by an independent implementation of the formats',
    note='the independent implementation is written from the format specifications and is itself trusted',
    limit=700, builds={'main': (['harness/c05.cpp'], ['-O0'], [], True), 'stock': (['harness/c05.cpp'], ['-O0'] + STOCK, [], True)})
cpp('C06', 'exploration',
    'every combination of format variant, geometry, element type, codec, option set and fill value: properties, chunk keys '
    'and read behaviour of the created and the re-opened dataset; every unsupported combination refused with nothing left '
    'behind; every single-node deletion / replacement of every metadata document judged by an independent parser',
    technique='exhaustive bounded enumeration of creation settings and metadata documents on the real code',
    note='metadata documents differ from a conforming one in one place; several simultaneous deviations are not covered',
    sources=['harness/c06.cpp'], flags=['-O0'])


RT = ('lib/mcrt.cpp', ['-O2', '-g', '-fno-builtin', '-fno-threadsafe-statics', '-fno-tree-loop-distribute-patterns'])


def rt(prop, rule, *, note, **kw):
    """harness under the controlled scheduler: instrumented for its accesses, the runtime replaces the sanitizer's"""
    cpp(prop, 'model_checking', rule,
        technique='stateless model checking of the real code: controlled scheduler over threads, locks, condition '
                  'variables, atomics and file system calls, preemption-bounded exhaustive search with happens-before '
                  'state caching and data race detection',
        note=note, sources=['harness/%s.cpp' % prop.lower(), RT], flags=['-O1', '-g1', '-fsanitize=thread'],
        link=['-rdynamic', '-Wl,--no-as-needed'], keys={'traces': ['executions']}, **kw)


rt('C08', 'every schedule (with the reported number of preemptions, spurious wake-ups included) of each scenario: pool '
   'sizes, tasks that return, throw, enqueue, waiters, destruction with queued tasks, parallel_foreach over every '
   'iterator kind; a scenario counts when all its schedules were executed',
   note='preemption-bounded: schedules with more preemptions than reported are not covered; sequentially consistent memory')
rt('C07', 'every schedule (with the reported number of preemptions) of region reads, writes and scalar fills with 2 or 3 '
   'threads compared with the single-threaded result (buffer and stored files), over formats and codecs, fill blocks and '
   'failing chunks; a scenario counts when all its schedules were executed',
   note='preemption-bounded; few chunks per request; sequentially consistent memory')
rt('C09', 'every schedule (with the reported number of preemptions) of 2 or 3 threads with 1 or 2 single-chunk operations '
   '(write, overwrite with fill, remove, read) through one dataset object on plain (flat and nested keys) and sharded '
   'datasets: no operation fails, final contents equal those of all operations in some order; a scenario counts when all '
   'its schedules were executed',
   note='preemption-bounded; 2-3 threads; one process; sequentially consistent memory')


variants('C12', 'fault_enumeration',
         'every truncation, every byte position x substitution alphabet (all 256 values for headers), 32-bit word '
         'replacement, extension, every n5 header over an alphabet of modes / dimensions / extents / sizes, every shard index '
         'entry over an alphabet with correct checksum, every metadata byte; each read through every entry point under '
         'address sanitizer (z5 code) and under allocations ending at inaccessible pages (codec libraries); one case is one '
         'position or header',
         technique='exhaustive bounded enumeration of damaged files (fault enumeration) on the real code under memory monitors',
         note='single damage per file; damage with more positions only as the listed words and headers; allocations above '
              '64 MB fail',
         keys={'evaluations': ['states']},
         builds={'asan': (['harness/c12.cpp'], ['-O1', '-g1', '-fsanitize=address,bounds,shift,signed-integer-overflow,integer-divide-by-zero,null'],
                          ['-fsanitize=address,undefined'], False),
                 'guard': (['harness/c12.cpp'], ['-O1', '-g1', '-DGUARD'], [], True),
                 'stock': (['harness/c12.cpp'], ['-O1', '-g1', '-DGUARD'] + STOCK, [], True)})


FSX = ('lib/fsx.cpp', ['-O1', '-fno-builtin'])
cpp('C10', 'fault_enumeration',
    'every operation of the API on every format variant x every file system call it makes x every applicable error code and '
    'short answer, alone and persistently from there on (thorough: also every pair of calls): error or complete effect '
    '(judged by an independent reader), fault-free repetition on the same objects succeeds; a case is one operation on one '
    'format, an evaluation one injected fault',
    technique='exhaustive fault enumeration: every file system call of the real code answered with every error in turn '
              '(interposed calls)',
    note='single-threaded operations; small containers; faults at the system call interface (not inside the codecs)',
    sources=['harness/c10.cpp', FSX], deps=['fsops.hpp'], flags=['-O0'], link=['-rdynamic', '-Wl,--no-as-needed'], keys={'evaluations': ['states'], 'distinct': ['states']})
cpp('C11', 'fault_enumeration',
    'every modifying operation on every format variant x every prefix of its modifying system calls x every torn length of '
    'the next write from the alphabet (thorough: all lengths, and a second death in the repetition): everything else '
    'unchanged for an independent reader and for z5, nothing half-written, repetition reaches the uninterrupted state; a '
    'case is one operation on one format, an evaluation one crash point',
    technique='exhaustive crash-point enumeration on the real code: effects of the interposed system calls cut after every '
              'prefix',
    note='process death (effects of completed calls persist in order); loss or reordering of completed calls by a power '
         'failure is not modelled',
    sources=['harness/c11.cpp', FSX], deps=['fsops.hpp'], flags=['-O0'], link=['-rdynamic', '-Wl,--no-as-needed'], keys={'evaluations': ['crash_points'], 'distinct': ['crash_points']})


variants('C17', 'model_checking',
         'every occupancy of the chunks of small arrays with every kind of content (absent, fill, constant, differing in the '
         'first / last element, varlen) x padding x thread count: unique values, counts, trivial chunks, dataset removal '
         'against sequential references; every array / chunk / block shape and region up to a bound: iteration; every schedule '
         '(up to the reported preemptions) of the helpers with 2 and 3 threads; a case is one occupancy, shape or scenario',
         technique='exhaustive bounded enumeration of chunk occupancies and regions, plus stateless model checking of the '
                   'helpers under a controlled scheduler',
         note='small arrays; preemption-bounded; sequentially consistent memory',
         keys={'traces': ['executions']},
         builds={'values': (['harness/c17.cpp'], ['-O0'], [], True),
                 'float': (['harness/c17.cpp'], ['-O0', '-DELEM=float', '-DELEMNAME="float32"'], [], True),
                 'schedules': (['harness/c17.cpp', RT], ['-O1', '-g1', '-fsanitize=thread', '-DSCHED'], ['-rdynamic', '-Wl,--no-as-needed'], False)})


def python(prop, level, rule, *, technique, note, keys=None, assumptions=(), limit=600, parts=None, s3=False):
    """harnesses that drive the z5py package built from the working tree"""
    def runs(ctx):
        import os
        d = C.build_py(s3)
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1')
        return [('main', [C.PY, os.path.join(C.VERIF, 'harness', prop.lower() + '.py')],
                 dict(env=env, mem=None, limit=limit, parts=parts))]
    CHECKS[prop] = dict(level=level, rule=rule, technique=technique, note=note, assumptions=list(assumptions), keys=keys,
                        runs=runs, coverage=lambda results: coverage(CHECKS[prop], results))


python('C16', 'exploration',
       'every index expression over the alphabet of integers, slices, ellipsis and masks on every small shape, read and '
       'assigned (scalars and arrays of every broadcastable shape), every kind of scalar for every element type, on every '
       'format, in lock step with a numpy array; a rejected expression leaves every file unchanged; an evaluation is one '
       'expression',
       technique='exhaustive bounded enumeration of index expressions and scalars on the real python package against numpy',
       note='small arrays of up to 3 dimensions; strided slices and fancy indexing only need to be refused',
       keys={'evaluations': ['expressions'], 'distinct': ['expressions']})


python('C13', 'model_checking',
       'breadth-first to the fixpoint over the attribute documents reachable with set, delete, update, pop, setdefault and the '
       'nodes reopened, required, pickled or clashed with in between, on every kind of node of every format; every key with every '
       'value of the alphabets; documents of other writers; after every transition the view through the live handle, through a '
       'fresh one and the stored document (parsed independently) agree with a dict, and all other nodes and data are unchanged; '
       'a transition is one operation executed by z5py',
       technique='explicit-state model checking of a dictionary model in lock step with the real z5py (breadth-first to the fixpoint)',
       note='keys and values from finite alphabets; concurrent attribute writers are not explored',
       keys={'traces': ['transitions']}, limit=900, parts=32)

python('C15', 'model_checking',
       'breadth-first over the trees of groups and datasets with names of an alphabet; every operation (create, require, get, '
       'delete, contains, iterate, visit) with every name on every group of every tree, and all short operation sequences on '
       'live handles; judged by a tree model and an independent walk of the directories, nothing outside of the container may '
       'change; a transition is one operation executed by z5py',
       technique='explicit-state model checking of a tree model in lock step with the real z5py (breadth-first over trees)',
       note='trees bounded in number of nodes, names from a finite alphabet including reserved, escaping and absolute ones',
       keys={'traces': ['transitions']}, limit=900, parts=32)


python('C14', 'model_checking',
       'the full product of opening (class, mode, format arguments, extension, what is at the path), the full product of file mode, '
       'way to the handle and operation (all reading and all changing operations of files, groups, datasets, attributes), and all '
       'short histories of (open in a mode, change) on one path in lock step with a model of the documented modes; byte-wise '
       'snapshots before and after; a transition is one opening or operation executed by z5py',
       technique='exhaustive enumeration of mode x state x operation and explicit-state exploration of open/change histories on the real z5py',
       note='file system backend through the python package (which calls the C++ entry points); histories up to depth 3 (thorough: 4)',
       keys={'transitions': ['transitions', 'openings', 'operations'], 'traces': ['transitions', 'openings', 'operations'], 'states': ['cases']},
       limit=900)


python('C18', 'model_checking',
       'the S3 backend on an in-memory object store (listings paged after 2 keys) in lock step with the file system: breadth-first '
       'over the containers reachable with the alphabet of operations, every observation and every operation in every one of them, '
       'every way to open what is at a path, every number of children with every page size; objects and files are compared after '
       'every operation, foreign objects must stay; then every kind of fault at every request of every operation: the fault is '
       'reported or had no effect; a transition is one operation executed by z5py',
       technique='explicit-state model checking in lock step with the file system (breadth-first) and exhaustive request fault enumeration on the real S3 backend',
       note='the AWS SDK is not installed: the backend is compiled against a stand-in with the same interface and an in-memory, '
            'strongly consistent store; retries of the SDK are not modelled (a fault is the final outcome of a request); one fault per operation',
       assumptions=['the stand-in (lib/fakeaws) behaves as the AWS SDK and S3 do: request/response fields, error kinds, pagination, batched deletion'],
       keys={'traces': ['transitions']}, limit=900, parts=32, s3=True)
