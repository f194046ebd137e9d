"""Contracts for BlockParallelReaders.py: slices of the decompressed stream, whatever is cached or pending."""
import io
import os

import z3

from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.values import Host, Model, Obj, SBool, SBytes, SInt, SList, sbytes_of, zi
from ratarmountcore import BlockParallelReaders as M

R = M.BlockParallelReader
Q = 'ratarmountcore.BlockParallelReaders:BlockParallelReader.'


def boundaries(vc, minimum=1):
    """non-decreasing, starting at 0; possibly empty blocks"""
    n = vc.nat('boundaries').z
    vc.assume(n >= minimum)
    bb = vc.list_int('bb', length=n)
    i, j = z3.Ints('i j')
    if minimum:
        vc.assume(bb.fn(0) == 0)
    vc.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < n), bb.fn(i) <= bb.fn(j)),
                        patterns=[z3.MultiPattern(bb.fn(i), bb.fn(j))]))
    vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), bb.fn(i) >= 0), patterns=[bb.fn(i)]))
    vc.watch('blockBoundaries', bb)
    return bb, n


def unit_find_block(vc):
    bb, n = boundaries(vc, 0)
    offset = vc.watch('offset', vc.int('offset'))
    interp = Interp(vc)
    r = interp.run_function(R._find_block, [bb, offset])
    o = offset.z
    inside = z3.And(n >= 1, bb.fn(0) <= o, o < bb.fn(n - 1))
    if r is None:
        vc.prove(z3.Not(inside), 'no block is found only outside the stream')
        return
    b = zi(r)
    vc.prove(z3.And(inside, b >= 0, b + 1 < n, bb.fn(b) <= o, o < bb.fn(b + 1)), 'the found block contains the offset')


def unit_block_size(vc):
    bb, n = boundaries(vc, 0)
    b = vc.watch('blockNumber', vc.int('blockNumber'))
    r = zi(Interp(vc).run_function(R._block_size, [bb, b]))
    ok = z3.And(b.z >= 0, b.z + 1 < n)
    vc.prove(r == z3.If(ok, bb.fn(b.z + 1) - bb.fn(b.z), 0), 'the size of a block is the distance of its boundaries')


class Result(Model):
    """AsyncResult of decoding [o, o+s): get() waits and returns those bytes (contract of decodeBlock)"""

    def __init__(self, w, o, s):
        self.w, self.o, self.s = w, o, s

    def is_block(self, b):
        return z3.And(self.o == self.w.bb.fn(b), self.s == self.w.bb.fn(b + 1) - self.w.bb.fn(b))

    def m_get(self, vc, *a):
        o, w = self.o, self.w
        return SBytes(self.s, lambda k: w.D(o + k))

    def m_ready(self, vc):
        return SBool(z3.Function('ready', z3.IntSort(), z3.BoolSort())(self.o)) if vc.scoped else vc.choose('ready')

    def ite(self, vc, c, other):
        return Result(self.w, z3.If(c, self.o, other.o), z3.If(c, self.s, other.s))

    def map_terms(self, f):
        return Result(self.w, f(self.o), f(self.s))


class Cache(Model):
    """LRUCache of arbitrary contents; invariant: what is stored under b is the result of decoding block b"""

    def __init__(self, w):
        self.w = w

    def contains(self, vc, key):
        return vc.choose('in_cache')

    def getitem(self, vc, key):
        b = zi(key)
        return Result(self.w, self.w.bb.fn(b), self.w.bb.fn(b + 1) - self.w.bb.fn(b))

    def setitem(self, vc, key, value):
        vc.prove(value.is_block(zi(key)), 'a cached block is stored under its own number')

    def m_values(self, vc):
        n = vc.nat('cached').z
        f = vc.func('cached_block', z3.IntSort(), z3.IntSort())
        return SList(n, lambda i: Result(self.w, f(i), f(i)), False, 'values')


class World(Model):
    def __init__(self, vc):
        self.bb, self.n = boundaries(vc)
        self.D = vc.func('D', z3.IntSort(), z3.IntSort())

    # the pool
    def m_apply_async(self, vc, f, args):
        name, offset, size = args
        o, s = zi(offset), zi(size)
        vc.prove(z3.And(o >= 0, s >= 0, o + s <= self.bb.fn(self.n - 1)), 'only ranges inside the stream are submitted for decoding')
        return Result(self, o, s)


def fetch_inv(vc, L):
    g = vc.ghost
    w, o0, s0, b0 = g['w'], g['o0'], g['s0'], g['b0'](L)
    blocks = L.blocks
    j = blocks.length
    t = z3.Int(vc.name('t'))
    first = j == 0
    off = zi(L.self.fields['_offset'])
    facts = [
        ('current block', zi(L.blockNumber) == b0 + j),
        ('block exists', z3.And(b0 >= 0, b0 + j + 1 < w.n)),
        ('position', off == z3.If(first, o0, w.bb.fn(b0 + j))),
        ('rest of the current block', zi(L.availableSize) == w.bb.fn(b0 + j + 1) - off),
        ('rest of the request', zi(L.size) == s0 - (off - o0)),
        ('more is wanted', z3.Or(first, zi(L.size) > 0)),
        ('start', z3.And(w.bb.fn(b0) <= o0, o0 < w.bb.fn(b0 + 1), zi(L.firstBlockOffset) == o0 - w.bb.fn(b0))),
    ]
    if blocks.items is None or blocks.items:
        facts.append(('fetched blocks are consecutive', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < j), blocks.elem(t).is_block(b0 + t)))))
    return facts


def concat_inv(vc, L):
    g = vc.ghost
    w, o0, b0 = g['w'], g['o0'], g['b0'](L)
    n0 = L.pre.blocks.length
    end = zi(L.self.fields['_offset'])
    blocks = L.blocks
    loop = L.has('k')  # or else the blocks are taken from the list
    p = zi(L.k) if loop else n0 - blocks.length
    at = b0 if loop else b0 + p
    r = sbytes_of(L.result)
    t, k = z3.Int(vc.name('t')), z3.Int(vc.name('k'))
    done = z3.If(p == 0, o0, z3.If(p == n0, end, w.bb.fn(b0 + p)))
    facts = [
        ('popped', z3.And(p >= 0, p <= n0, blocks.length == n0) if loop else z3.And(p >= 0, p <= n0)),
        ('length', r.length == done - o0),
        ('offset in the first block', zi(L.firstBlockOffset) == z3.If(p == 0, o0 - w.bb.fn(b0), 0)),
        ('bytes', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < r.length), r.at(k) == w.D(o0 + k)))),
    ]
    if blocks.items is None or blocks.items:
        facts.append(('left blocks', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < blocks.length), blocks.elem(t).is_block(at + t)))))
    return facts


def unit_read(all_):
    def run(vc):
        w = World(vc)
        total = w.bb.fn(w.n - 1)
        o0 = vc.watch('offset', vc.nat('o0'))
        size = (None if vc.choose('none') else SInt(vc.int('neg').z)) if all_ else vc.watch('size', vc.nat('size'))
        if all_ and size is not None:
            vc.assume(size.z < 0)
        rest = z3.If(total > o0.z, total - o0.z, 0)
        s0 = rest if all_ else size.z
        want = z3.If(s0 < rest, s0, rest)

        first = {}

        def b0(L):
            if 'b' not in first:
                first['b'] = zi(L.blockNumber)
            return first['b']

        vc.ghost.update(w=w, o0=o0.z, s0=s0, b0=b0)
        def prefetch(vc, m):
            n = vc.nat('prefetch_n').z
            f = vc.func('prefetch_block', z3.IntSort(), z3.IntSort())
            return SList(n, lambda i: SInt(f(i)), False, 'toPrefetch')

        class Prefetcher(Model):
            def m_fetch(self, vc, x):
                return None

            def m_prefetch(self, vc, m):
                return prefetch(vc, m)

        counters = {k: vc.nat(k) for k in ('requestCount', 'cacheHitCount', 'cacheMissCount', 'cachePrefetchCount')}
        self = vc.new(Obj(R, {
            'blockBoundaries': w.bb, '_offset': o0, '_blockCache': Cache(w), '_prefetcher': Prefetcher(),
            '_lastUsedBlock': vc.int('last'), 'filename': 'f', 'parallelization': vc.nat('par'), '_pool': w, **counters}, 'self'))
        s = self

        def new_blocks(vc, L):
            f = vc.func('block_o', z3.IntSort(), z3.IntSort())
            g = vc.func('block_s', z3.IntSort(), z3.IntSort())
            return vc.new(SList(vc.nat('nblocks').z, lambda i: Result(w, f(i), g(i)), True, 'blocks'))

        heap1 = lambda vc, L: [(s, '_offset', None), (s, '_lastUsedBlock', None), (s, 'cachePrefetchCount', None)]
        loops = {
            (Q + '_read', 0): LoopSpec(fetch_inv, havoc={'blocks': new_blocks}, heap=heap1),
            (Q + '_read', 1): LoopSpec(lambda vc, L: [], heap=lambda vc, L: [(s, 'cachePrefetchCount', None)]),
            (Q + '_read', 2): LoopSpec(concat_inv, havoc={'blocks': new_blocks, 'result': lambda vc, L: vc.bytes('result')},
                                       heap=lambda vc, L: [(s, 'cacheMissCount', None)],
                                       decreases=lambda vc, L: L.pre.blocks.length - zi(L.k) if L.has('k') else L.blocks.length),
        }
        interp = Interp(vc, loops=loops)
        interp.contracts[Q + '_get_pool'] = lambda i, vc, self: w
        kind, r = attempt(lambda: interp.run_function(R._read, [self, size, Host(lambda vc, *a: None, 'decodeBlock')]))
        if kind == 'exc':
            vc.prove(False, f'read raises nothing (got {r.cls.__name__} at {r.where})')
            return
        b = sbytes_of(r)
        vc.prove(b.length == want, 'read returns everything asked for that the stream has')
        k = vc.skolem()
        vc.prove(z3.Implies(z3.And(k >= 0, k < b.length), b.at(k) == w.D(o0.z + k)), 'read returns the bytes of the stream at the position')
        vc.prove(zi(self.fields['_offset']) == o0.z + b.length, 'read advances the position by the bytes returned')

    return Unit(f"BlockParallelReader._read[{'all' if all_ else 'size'}]", run, [R._read, R._find_block, R._block_size], feas_ms=60)


def unit_seek(whence):
    def run(vc):
        bb, n = boundaries(vc)
        self = vc.new(Obj(R, {'blockBoundaries': bb, '_offset': vc.nat('o0')}, 'self'))
        o0 = zi(self.fields['_offset'])
        offset = vc.watch('offset', vc.int('offset'))
        interp = Interp(vc)
        kind, r = attempt(lambda: interp.run_function(R.seek, [self, offset, whence]))
        target = {0: offset.z, 1: o0 + offset.z, 2: bb.fn(n - 1) + offset.z}[whence]
        now = zi(self.fields['_offset'])
        if kind == 'exc':
            vc.prove(r.cls is ValueError, 'seek raises nothing but ValueError')
            vc.prove(z3.And(target < 0, now == o0), 'seek is rejected only before the start and then keeps the position')
            return
        vc.prove(z3.And(now == target, now >= 0, zi(r) == now), 'seek moves to the requested position and returns it')
        vc.prove(zi(interp.run_function(R.tell, [self])) == now, 'tell agrees with seek')

    return Unit(f'BlockParallelReader.seek[whence={whence}]', run, [R.seek, R.tell])


def unit_decode(cls, glob):
    """decodeBlock(name, offset, size) seeks to the offset and reads size bytes from the decoder of this worker."""

    def run(vc):
        from pyvc.ops import File

        D = vc.func('D', z3.IntSort(), z3.IntSort())
        total = vc.nat('total')
        f = File(vc, 'decoder', lambda p: D(p), total.z, pos=vc.nat('pos'))
        offset, size = vc.nat('offset'), vc.nat('size')
        vc.assume(offset.z + size.z <= total.z)
        interp = Interp(vc, contracts={'ratarmountcore.BlockParallelReaders:ParallelXZReader._try_open_global_file': lambda i, vc, n: None})
        interp.global_values[glob] = f
        b = sbytes_of(interp.run_function(cls._decode_block, ['name', offset, size]))
        vc.prove(b.length == size.z, 'a block is decoded completely')
        k = vc.skolem()
        vc.prove(z3.Implies(z3.And(k >= 0, k < b.length), b.at(k) == D(offset.z + k)), 'a block is decoded at its own offset')

    return Unit(f'{cls.__name__}._decode_block', run, [cls._decode_block])


UNITS = [
    Unit('BlockParallelReader._find_block', unit_find_block, [R._find_block]),
    Unit('BlockParallelReader._block_size', unit_block_size, [R._block_size]),
    unit_read(False), unit_read(True), *[unit_seek(w) for w in (0, 1, 2)],
    unit_decode(M.ParallelXZReader, '_parallelXzReaderFile'),
    unit_decode(M.ParallelZstdReader, '_parallelZstdReaderFile'),
]

# ---- concrete runs ------------------------------------------------------------------------------------------------


class FakePool:
    """Stands in for multiprocessing.pool.Pool: one in-process worker with its own decoder, results become ready in any order."""

    def __init__(self, rng):
        self.rng, self.globals, self.open = rng, {'_parallelXzReaderFile': None, '_parallelZstdReaderFile': None}, True

    def __call__(self, processes=None, initializer=None, initargs=()):
        self.open = True
        return self

    def apply_async(self, f, args=()):
        if not self.open:
            raise ValueError('Pool not running')
        return FakeResult(self, f, args)

    def run(self, f, args):
        saved = {k: getattr(M, k) for k in self.globals}
        for k, v in self.globals.items():
            setattr(M, k, v)
        try:
            return f(*args)
        finally:
            for k in self.globals:
                self.globals[k] = getattr(M, k)
                setattr(M, k, saved[k])

    def close(self):
        self.open = False

    def join(self):
        pass


class FakeResult:
    def __init__(self, pool, f, args):
        self.pool, self.f, self.args, self.value = pool, f, args, None
        if pool.rng.random() < 0.5:
            self.get()

    def get(self, timeout=None):
        if self.value is None:
            self.value = (self.pool.run(self.f, self.args),)
        return self.value[0]

    def ready(self):
        if self.value is None and self.pool.rng.random() < 0.3:
            self.get()
        return self.value is not None

    def wait(self, timeout=None):
        self.get()


class SyntheticReader(R):
    """the shape of the real readers with any block layout"""

    def __init__(self, boundaries, content, parallelization):
        self.content = content
        super().__init__('name', io.BytesIO(content), boundaries, parallelization)

    def read(self, size=-1):
        return super()._read(size, self.decode)

    def decode(self, filename, offset, size):
        return self.content[offset:offset + size]


def run_readers(ctx):
    import lzma
    import multiprocessing.pool
    import random

    from checks.common import file_ops, run_file_ops

    rng = ctx.rng
    real_pool = multiprocessing.pool.Pool
    try:
        from backports import zstd
    except ImportError:
        zstd = None

    def case(kind, blocks, par, ops, fake, number):
        content = b''.join(blocks)
        bounds = [0]
        for b in blocks:
            bounds.append(bounds[-1] + len(b))
        inp = {'reader': kind, 'block sizes': [len(b) for b in blocks], 'parallelization': par, 'operations': ops, 'pool': 'simulated' if fake else 'real'}
        with ctx.case(inp) as c:
            multiprocessing.pool.Pool = FakePool(random.Random(number)) if fake else real_pool
            try:
                path = os.path.join(ctx.scratch, f'f{number}')
                if kind == 'synthetic':
                    f = SyntheticReader(list(bounds), content, par)
                elif kind == 'xz':
                    with open(path, 'wb') as o:
                        o.write(b''.join(lzma.compress(b, preset=0) for b in blocks))
                    f = M.ParallelXZReader(path, par)
                else:
                    with open(path, 'wb') as o:
                        o.write(b''.join(zstd.compress(b) for b in blocks))
                    f = M.ParallelZstdReader(path, par)
                run_file_ops(c, f, content, ops)
                f.close()
            finally:
                multiprocessing.pool.Pool = real_pool
                if os.path.exists(path):
                    os.remove(path)

    def data(n):
        return bytes(rng.getrandbits(8) for _ in range(n))

    number = 0
    # small scope: every layout of up to three blocks of up to two bytes; all two-read histories
    import itertools

    for n in range(0, 4):
        for sizes in itertools.product(range(3), repeat=n):
            total = sum(sizes)
            blocks, v = [], 1
            for s in sizes:
                blocks.append(bytes(range(v, v + s)))
                v += s
            ops = []
            for p in range(total + 2):
                for m in (0, 1, 2, 3, total, total + 1):
                    ops += [('seek', p, 0), ('read', m)]
                ops += [('seek', p, 0), ('readall',), ('seek', p, 0), ('read', -2)]
            number += 1
            case('synthetic', blocks, 2, ops, True, number)
    kinds = ['synthetic'] * 8 + ['xz'] + (['zstd'] if zstd and M.indexed_zstd else [])
    for number in range(1000, 1000 + ctx.budget(4000, 30000)):
        if ctx.out_of_time():
            return
        kind = rng.choice(kinds)
        nb = rng.choice((1, 2, 3, 5, 9, 20))
        sizes = [rng.choice((0, 1, 2, 5, 17) if kind == 'synthetic' else (1, 2, 5, 17, 300)) for _ in range(nb)]
        if rng.random() < 0.4:
            sizes = [rng.choice((4, 16))] * nb
        blocks = [data(s) for s in sizes]
        acc, bounds = 0, []
        for s in sizes:
            acc += s
            bounds.append(acc)
        if rng.random() < 0.3:
            m = rng.choice((1, 3, 4, 5))
            ops = [('read', m)] * min(60, acc // m + 2)  # sequential: triggers prefetching
        else:
            ops = file_ops(rng, acc, bounds, rng.randint(3, 30))
        case(kind, blocks, rng.choice((2, 3, 4, 8)), ops, True, number)
    for number in range(1, ctx.budget(3, 12)):
        blocks = [data(rng.choice((10, 1000))) for _ in range(6)]
        total = sum(map(len, blocks))
        case('xz', blocks, 3, file_ops(rng, total, [len(blocks[0])], 12) + [('seek', 0, 0), ('readall',)], False, number)


ORACLES = [Oracle('block-parallel reads', run_readers, ['BlockParallelReader.read', 'ParallelXZReader', 'ParallelZstdReader', 'Prefetcher'],
                  'all layouts of at most 3 blocks of at most 2 bytes with all positions and sizes; random histories of at most 60 operations on '
                  'at most 20 blocks with a simulated worker pool that completes in random order; a few runs with a real process pool',
                  quick_s=30, thorough_s=240)]
LEVEL = 'proof'
TRUSTED = ['contract on decodeBlock as seen through AsyncResult.get: the bytes [offset, offset+size) of the decompressed stream (proved for _decode_block '
           'over a correct decoder file)', 'python-xz, indexed_zstd decode correctly and report their block boundaries', 'multiprocessing.pool',
           'LRUCache holds under b only what was stored under b (proved in C03)']
ASSUMPTIONS = ['block boundaries start at 0 and do not decrease', 'one thread uses a reader at a time']
if __name__ == '__main__':
    from pyvc.harness import show, verify

    show(verify(UNITS), False)
