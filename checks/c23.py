"""C23 Checksums are those of the whole file.

Contracts on compute_hashes (every hasher gets exactly the contents, however reads are split), the CRC-32 hasher, the sum of the smplayer
hash and the loop that stores the hashes of all files of an archive; compared with the reference algorithms on generated files, files
that return short reads, and archives.
"""
import hashlib
import io
import itertools
import os
import struct
import zlib

import z3

from checks import c17, tarlib
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.ops import mk_bool, mk_int
from pyvc.values import Host, Model, Obj, PyRaise, SBytes, SDict, SInt, SList, Unsupported, sbytes_of, zb, zi
from ratarmountcore import hashing
from ratarmountcore.hashing import HASH_REGISTRY, compute_hashes, smplayer_hash
from ratarmountcore.mountsource.SQLiteIndexMountSource import SQLiteIndexMountSource as SIMS

I = z3.IntSort()
H = 'ratarmountcore.hashing:'


# ------------------------------------------------------------------------------------------------ compute_hashes
class File(Model):
    """a file whose reads return any part of what was asked for, except at its end"""

    def __init__(self, vc, name='file'):
        self.size, self.position, self.name = vc.nat('size').z, vc.nat('position').z, name

    def m_seek(self, vc, offset, whence=0):
        base = {0: 0, 1: self.position, 2: self.size}[whence]
        self.position = zi(base) + zi(offset)
        vc.prove(self.position >= 0, 'no position before the start')
        vc.log_write(self, 'position')
        return mk_int(self.position)

    def m_tell(self, vc):
        return mk_int(self.position)

    def m_read(self, vc, n=-1):
        start, left = self.position, z3.If(self.size > self.position, self.size - self.position, 0)
        want = z3.If(zi(n) < 0, left, z3.If(zi(n) < left, zi(n), left))
        got = vc.nat('got').z
        vc.assume(z3.And(got <= want, z3.Implies(want > 0, got > 0)))
        self.position = start + got
        vc.log_write(self, 'position')
        return Chunk(self, start, got)


class Chunk(Model):
    pytype = bytes

    def __init__(self, file, start, length):
        self.file, self.start, self.length = file, start, length

    def len(self, vc):
        return SInt(self.length)

    def truth(self, vc):
        return self.length > 0

    def add(self, vc, o):
        if isinstance(o, bytes) and not o:
            return self
        if not isinstance(o, Chunk):
            raise Unsupported('chunk + ' + repr(o))
        vc.prove(z3.Or(o.length == 0, self.length == 0, self.start + self.length == o.start), 'pieces are put together in order')
        return Chunk(self.file, z3.If(self.length == 0, o.start, self.start), self.length + o.length)

    def radd(self, vc, o):
        if isinstance(o, (bytes, bytearray)) and not o:
            return self
        if isinstance(o, Chunk):
            return o.add(vc, self)
        raise Unsupported(repr(o) + ' + chunk')


class Hasher(Model):
    def __init__(self, vc, name, file):
        self.name, self.file, self.fed, self.done = name, file, z3.IntVal(0), False

    def m_update(self, vc, data):
        vc.prove(z3.And(data.start == self.fed, data.length >= 0), 'the contents are hashed in order without gaps')
        vc.prove(not self.done, 'nothing is hashed after the digest')
        self.fed = self.fed + data.length
        vc.log_write(self, 'fed')

    def m_hexdigest(self, vc):
        return Digest(self.name, self.fed)


class Digest(Model):
    pytype = str

    def __init__(self, name, of):
        self.name, self.of = name, of


KINDS = ('', 'md5', 'sha1', 'crc32', 'smplayer', 'no-such-hash', 'sha256')


def unit_compute(vc):
    names = [KINDS[vc.pick(len(KINDS))] for _ in range(vc.pick(3))]
    refused = 'sha256'
    file = File(vc)
    made, reports = [], []

    def add(h):
        made[:] = [x for x in made if x.name != h.name] + [h]  # an algorithm named twice gets a second hasher
        return h

    def new(vc, name, *a, **k):
        if name == refused:
            raise PyRaise(ValueError, ('unsupported hash type',))
        return add(Hasher(vc, name, file))

    def crc(i, vc, *a):
        return add(Hasher(vc, 'crc32', file))

    def progress(vc, n):
        vc.prove(z3.And(0 <= zi(n), zi(n) <= file.size), 'progress never exceeds the size of the file')
        reports.append(n)

    def smplayer(i, vc, f):
        vc.prove(f is file, 'the hash of this file')
        return Digest('smplayer', file.size)

    def inv(vc, L):
        facts = [('the position is in the file', z3.And(0 <= file.position, file.position <= file.size))]
        facts += [('every algorithm got what was read', h.fed == file.position) for h in made]
        if given:
            facts.append(('progress so far', zi(L.readBytes) == file.position))
        return facts

    def forget(o, field):
        def f(vc):
            setattr(o, field, vc.nat(field).z)
        return f

    given = vc.choose('progress is reported')
    # no hook is called for a hasher that does not exist: the class is replaced where it is instantiated
    interp = Interp(vc, contracts={H + 'smplayer_hash': smplayer}, models={hashlib.new: new, hashing._CRC32Hasher: lambda vc: crc(None, vc)},
                    loops={(H + 'compute_hashes', 1): LoopSpec(inv, havoc={}, heap=lambda vc, L: [(file, 'position', forget(file, 'position'))] + [
                        (h, 'fed', forget(h, 'fed')) for h in made])})
    size = vc.nat('given size')
    kind, r = attempt(lambda: interp.run_function(compute_hashes, [file, size, vc.new(SList(items=list(names))), Host(progress) if given else None]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    items = dict(r.items() if isinstance(r, dict) else [(k, v) for k, v in r.items])
    vc.prove(set(items) == {n for n in names if n in ('md5', 'sha1', 'crc32', 'smplayer')}, 'exactly the supported algorithms have a result')
    for n, d in items.items():
        vc.prove(isinstance(d, Digest) and d.name == n, 'every result is that of its own algorithm')
        if isinstance(d, Digest):
            vc.prove(d.of == file.size, 'the digest is that of the whole file')


# ------------------------------------------------------------------------------------------------ CRC-32
class Crc(Model):
    """the register of CRC-32 after the first n bytes (z3: an integer per n, crc(0) = 0)"""

    pytype = int

    def __init__(self, n):
        self.n = n


def unit_crc(vc):
    file = File(vc)
    C = vc.func('crc of the first bytes', I, I)
    vc.assume(z3.And(C(0) == 0))
    fed = vc.nat('fed').z
    vc.assume(z3.And(C(fed) >= 0, C(fed) < 2 ** 32))

    def crc32(vc, data, value=0):
        vc.prove(zi(value) == C(data.start), 'the checksum so far is continued')
        r = C(data.start + data.length)
        vc.assume(z3.And(r >= 0, r < 2 ** 32))
        return mk_int(r)

    interp = Interp(vc, models={zlib.crc32: crc32})
    me = vc.new(Obj(hashing._CRC32Hasher, {}, 'hasher'))
    interp.run_function(hashing._CRC32Hasher.__init__, [me])
    vc.prove(zi(me.fields['_value']) == C(0), 'the checksum of nothing is 0')
    me.fields['_value'] = mk_int(C(fed))
    n = vc.nat('length')
    interp.run_function(hashing._CRC32Hasher.update, [me, Chunk(file, fed, n.z)])
    vc.prove(zi(me.fields['_value']) == C(fed + n.z), 'the checksum of everything hashed')


# ------------------------------------------------------------------------------------------------ smplayer
class Data(Model):
    """the bytes [start, start + length) of contents D"""

    pytype = bytes

    def __init__(self, D, start, length):
        self.D, self.start, self.length = D, start, length

    def len(self, vc):
        return mk_int(self.length)

    def truth(self, vc):
        return self.length > 0

    def getslice(self, vc, lo, hi, step=None):
        if step is not None:
            raise Unsupported('slice step')
        lo, hi = (z3.IntVal(0) if lo is None else zi(lo)), (self.length if hi is None else zi(hi))
        vc.prove(z3.And(lo >= 0, hi >= 0), 'slices count from the start')
        clip = lambda x: z3.If(x < self.length, x, self.length)  # noqa: E731
        a, b = clip(lo), clip(hi)
        return Data(self.D, self.start + a, z3.If(b > a, b - a, 0))


def word(D, at, limit):
    """the little-endian value of eight bytes, zero behind the limit"""
    return z3.Sum([z3.If(at + k < limit, D(at + k), 0) * 256 ** k for k in range(8)])


def unit_pad(vc):
    b, size = vc.bytes('data'), vc.nat('size')
    interp = Interp(vc)
    kind, r = attempt(lambda: interp.run_function(hashing._zero_pad, [b, size]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    r = sbytes_of(r)
    k = vc.skolem('k')
    vc.prove(r.length == size.z, 'the padded data has the given size')
    vc.prove(z3.Implies(z3.And(0 <= k, k < size.z), r.at(k) == z3.If(k < b.length, b.at(k), 0)), 'the data is followed by zeros')


def unit_accumulate(vc):
    D, S = vc.func('D', I, I), vc.func('sum of the first words', I, I)
    n = vc.nat('length').z
    vc.assume(S(0) == 0)

    class Padded(Model):
        pytype = bytes

        def __init__(self, data, size):
            self.data, self.size = data, size

    def pad(i, vc, data, size):
        if not isinstance(data, Data):
            raise Unsupported('padding of ' + repr(data))
        return Padded(data, size)

    def from_bytes(vc, b, order='big', signed=False):
        if not isinstance(b, Padded):
            raise Unsupported('int.from_bytes of ' + repr(b))
        vc.prove(order == 'little' and signed is False and b.size == 8, 'little-endian words of eight bytes')
        limit = b.data.start + b.data.length
        return mk_int(word(D, b.data.start, limit))

    def inv(vc, L):
        k = zi(L.k)
        # the definition of the sum, where it is needed
        for j in (k - 1, k, k + 1):
            vc.assume(z3.Implies(z3.And(j >= 0, 8 * j < n), S(j + 1) == S(j) + word(D, 8 * j, n)))
        return [('the sum of the words so far', zi(L.result) == S(k))]

    interp = Interp(vc, contracts={H + '_zero_pad': pad}, models={int.from_bytes: from_bytes}, loops={(H + '_smplayer_hash_accumulate', 0): LoopSpec(inv)})
    kind, r = attempt(lambda: interp.run_function(hashing._smplayer_hash_accumulate, [Data(D, z3.IntVal(0), n)]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    vc.prove(zi(r) == S((n + 7) / 8), 'the sum of all words')


class Hex(Model):
    pytype = str

    def __init__(self, value, spec):
        self.value, self.spec = value, spec


def unit_smplayer(vc):
    file = File(vc)
    S = vc.func('sum of the words of a range', I, I, I)
    chunk = 64 * 1024
    parts = []

    def accumulate(i, vc, data):
        if not isinstance(data, Chunk):
            raise Unsupported('sum of ' + repr(data))
        parts.append(data)
        s = S(data.start, data.start + data.length)
        return mk_int(s)

    def inv(vc, L):
        d = L.data
        length = z3.IntVal(0) if isinstance(d, (bytes, bytearray)) else d.length
        start = file.position - length
        facts = [('what was read so far', z3.And(length >= 0, length <= zi(L.size), L.pre_position == start if L.has('pre_position') else start >= 0))]
        if not isinstance(d, (bytes, bytearray)):
            facts.append(('pieces are contiguous', z3.Or(d.length == 0, d.start + d.length == file.position)))
        return facts

    size = file.size
    low = lambda a, b: z3.If(a < b, a, b)  # noqa: E731
    high = lambda a, b: z3.If(a > b, a, b)  # noqa: E731
    second = low(high(z3.IntVal(chunk), size - chunk), size)

    def fully(i, vc, f, n):
        vc.prove(f is file, 'this file is read')
        left = high(file.size - file.position, z3.IntVal(0))
        got = low(zi(n), left)
        r = Chunk(file, file.position, got)
        file.position = file.position + got
        return r

    interp = Interp(vc, contracts={H + '_smplayer_hash_accumulate': accumulate, H + '_read_fully': fully},
                    models={'format': lambda vc, x, spec: Hex(x.z, spec)})
    kind, r = attempt(lambda: interp.run_function(smplayer_hash, [file]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    for p in parts:
        vc.prove(z3.Or(z3.And(p.start == 0, p.length == low(z3.IntVal(chunk), size)), z3.And(p.start == second, p.length == low(z3.IntVal(chunk), size - second))),
                 'exactly the first and last 64 KiB are summed, whatever the reads return')
    vc.prove(len(parts) == 2, 'both parts are summed')
    if not isinstance(r, Hex):
        raise Unsupported('result ' + repr(r))
    total = S(0, low(z3.IntVal(chunk), size)) + S(second, size) + size
    vc.assume(S(second, second) == 0)
    vc.prove(r.value == total % 2 ** 64, 'the sum of both parts and the size, modulo 2 ** 64')
    vc.prove(r.spec == '016x', 'sixteen hexadecimal digits')


def unit_read_fully(vc):
    file = File(vc)
    start = file.position
    n = vc.nat('n')

    def inv(vc, L):
        d = L.data
        if isinstance(d, (bytes, bytearray)):
            return [('nothing was read yet', file.position == start if not d else False)]
        return [('what was read', z3.And(d.length >= 0, d.length <= n.z, file.position == start + d.length, z3.Or(d.length == 0, d.start == start), z3.Or(d.length == 0, file.position <= file.size)))]

    def fresh(vc, L):
        return Chunk(file, vc.nat('at').z, vc.nat('have').z)

    def forget(vc):
        file.position = vc.nat('position').z
    interp = Interp(vc, loops={(H + '_read_fully', 0): LoopSpec(inv, havoc={'data': fresh}, heap=lambda vc, L: [(file, 'position', forget)])})
    kind, r = attempt(lambda: interp.run_function(hashing._read_fully, [file, n]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    left = z3.If(file.size > start, file.size - start, 0)
    want = z3.If(n.z < left, n.z, left)
    length = z3.IntVal(0) if isinstance(r, (bytes, bytearray)) else r.length
    vc.prove(length == want, 'everything that was asked for and is there')
    if not isinstance(r, (bytes, bytearray)):
        vc.prove(z3.Or(length == 0, r.start == start), 'from the position on')


# ------------------------------------------------------------------------------------------------ all files of an archive
class Row(Model):
    def __init__(self, k):
        self.k = k

    def getitem(self, vc, key):
        return {'path': '/folder', 'name': 'name'}[key]


class Pairs(Model):
    """the hashes that are not stored yet, as far as the watched file is concerned"""

    pytype = list

    def __init__(self, vc, world):
        self.world, self.has, self.length = world, vc.bool('has the hashes of the watched file').z, vc.nat('pending').z
        vc.assume(z3.Implies(self.has, self.length > 0))

    def len(self, vc):
        return SInt(self.length)

    def truth(self, vc):
        return self.length > 0

    def add(self, vc, items):
        r = Pairs(vc, self.world)
        mine = self.world.complete(vc, items)
        vc.assume(z3.And(r.has == z3.Or(self.has, mine), r.length == self.length + len(items.items)))
        return r

    def m_append(self, vc, item):
        raise Unsupported('single pairs')

    def m_clear(self, vc):
        self.has, self.length = z3.BoolVal(False), z3.IntVal(0)


def unit_store(vc):
    names = ['crc32', 'md5']
    n, total = vc.nat('files').z, vc.nat('bytes of all files')
    size, good, offset = vc.func('size of file', I, I), vc.func('file can be read', I, z3.BoolSort()), vc.func('header of file', I, I)
    sums = vc.func('bytes of the first files', I, I)
    watched = vc.skolem('watched')
    vc.assume(z3.And(watched >= 0, watched < n, good(watched), sums(0) == 0))
    t, u = z3.Ints('t u')
    vc.assume(z3.ForAll([t, u], z3.Implies(offset(t) == offset(u), t == u)))
    state = {'stored': z3.BoolVal(False), 'row': None, 'open': 0, 'statements': 0}

    class World:
        def complete(self, vc, items):
            """the given pairs are all hashes of the watched file"""
            if items.items is None:
                raise Unsupported('pairs of unknown number')
            keys = []
            for p in items.items:
                header, key, value = p if isinstance(p, tuple) else p.items
                d = value.value if isinstance(value, Encoded) else None
                vc.prove(d is not None and key == 'user.hash.' + d.name, 'every checksum is stored under its own name')
                if d is None:
                    return z3.BoolVal(False)
                vc.prove(z3.Implies(zi(header) == offset(watched), d.of == watched), 'the checksums stored for a file are its own')
                keys.append((key, zi(header) == offset(watched)))
            return z3.And([z3.Or([h for k, h in keys if k == 'user.hash.' + name] or [z3.BoolVal(False)]) for name in names])

    world = World()

    class Encoded(Model):
        pytype = bytes

        def __init__(self, value):
            self.value = value

    class Hash(Model):
        pytype = str

        def __init__(self, name, of):
            self.name, self.of = name, of

        def m_encode(self, vc, *a):
            return Encoded(self)

    class Opened(Model):
        def __init__(self, k):
            self.k = k

        def enter(self, vc):
            state['open'] += 1
            return self

        def exit(self, vc, e):
            state['open'] -= 1
            return False

    class Cursor(Model):
        def m_fetchone(self, vc):
            return (total,)

        def iterate(self, vc):
            return SList(n, lambda k: Row(k), False, 'rows')

        def m_fetchall(self, vc):
            return self.iterate(vc)

    class Connection(Model):
        def m_execute(self, vc, sql, params=()):
            state['statements'] += 1
            return Cursor()

    class Index(Model):
        def m_get_connection(self, vc):
            return Connection()

        def m__row_to_file_info(self, vc, row):
            d = vc.new(Obj(dict, {'offsetheader': mk_int(offset(row.k))}, 'userdata'))
            return vc.new(Obj(tarlib.FileInfo if hasattr(tarlib, 'FileInfo') else dict, {'size': mk_int(size(row.k)), 'userdata': vc.new(SList(items=[d])), 'row': row}, 'info'))

        def m_setxattrs(self, vc, pairs):
            if isinstance(pairs, SList):
                mine = world.complete(vc, pairs) if pairs.items else z3.BoolVal(False)
            else:
                mine = pairs.has
            state['stored'] = z3.Or(state['stored'], mine)
            vc.log_write(index, 'stored')

    index = Index()

    class Bar(Model):
        def enter(self, vc):
            return self

        def exit(self, vc, e):
            return False

        def m_update(self, vc, value):
            if state['row'] is None:
                return
            k = state['row']
            vc.assume(sums(k + 1) == sums(k) + size(k))
            vc.prove(zi(value) <= sums(k + 1), 'progress does not exceed what was hashed and the current file')

    def opens(i, vc, self, info, *a, **k):
        row = info.fields['row']
        if vc.branch(z3.Not(good(row.k))):
            raise PyRaise(OSError, ('cannot be read',))
        return Opened(row.k)

    def hashes(i, vc, f, fsize, algorithms, progress_callback=None):
        vc.prove(isinstance(f, Opened) and state['open'] == 1, 'an open file is hashed')
        vc.prove(algorithms is wanted, 'all wanted checksums are computed')
        state['row'] = f.k
        vc.prove(zi(fsize) == size(f.k), 'with its size')
        if progress_callback is not None:
            b = vc.nat('progress')
            vc.assume(b.z <= zi(fsize))
            i.call(progress_callback, [b], {})
        return vc.new(SDict(items=[[x, Hash(x, f.k)] for x in names]))

    wanted = vc.new(SList(items=list(names)))

    def inv(vc, L):
        k, x = zi(L.k), L.xattrs
        pending = x.has if isinstance(x, Pairs) else z3.BoolVal(bool(x.items))
        vc.assume(z3.Implies(k > 0, sums(k) == sums(k - 1) + size(k - 1)))
        return [('every file so far has its checksums stored or remembered', z3.Implies(watched < k, z3.Or(pending, state['stored']))),
                ('the bytes so far', zi(L.hashedBytes) == sums(k))]

    def forget(vc):
        state['stored'] = vc.bool('stored').z

    me = vc.new(Obj(SIMS, {'hashes': wanted, 'index': index}, 'source'))
    q = 'ratarmountcore.mountsource.SQLiteIndexMountSource:'
    from ratarmountcore.mountsource import SQLiteIndexMountSource as module

    interp = Interp(vc, contracts={q + 'SQLiteIndexMountSource.open': opens, H + 'compute_hashes': hashes},
                    models={module.ProgressBar: lambda vc, *a, **k: Bar()},
                    loops={(q + 'SQLiteIndexMountSource._compute_and_store_hashes', 0): LoopSpec(
                        inv, havoc={'xattrs': lambda vc, L: Pairs(vc, world)}, heap=lambda vc, L: [(index, 'stored', forget)])})
    vc.assume(z3.ForAll([t], size(t) >= 0))
    kind, r = attempt(lambda: interp.run_function(SIMS._compute_and_store_hashes, [me]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    vc.prove(state['stored'], 'the checksums of every readable file are stored')
    vc.prove(state['open'] == 0, 'every file is closed')


# ------------------------------------------------------------------------------------------------ oracles
class Pieces(io.BytesIO):
    """reads return any part of what was asked for"""

    def __init__(self, data, rng, most):
        super().__init__(data)
        self.rng, self.most = rng, most

    def read(self, n=-1):
        left = len(self.getbuffer()) - self.tell()
        n = left if n is None or n < 0 else min(n, left)
        return super().read(min(n, self.rng.randrange(1, self.most + 1)))


def reference(name, data):
    if name == 'crc32':
        return '%08x' % zlib.crc32(data)
    if name == 'smplayer':
        if len(data) < 131072:  # no part is counted twice
            words = data[:65536] + b'\0' * (-len(data[:65536]) % 8) + data[65536:]
        else:
            words = data[:65536] + data[-65536:]
        words += b'\0' * (-len(words) % 8)
        return '%016x' % ((len(data) + sum(struct.unpack('<%dQ' % (len(words) // 8), words))) % 2 ** 64)
    return hashlib.new(name.replace('-', '_') if name.startswith('sha3') else name, data).hexdigest()


def run_contents(ctx):
    c17.quiet()
    rng = ctx.rng
    usable = []
    for name in sorted(HASH_REGISTRY):
        try:
            usable.append((name, reference(name, b'')))
        except ValueError:
            pass
    usable = [n for n, _ in usable]
    for number in range(ctx.budget(700, 20000)):
        if ctx.out_of_time():
            return
        size = rng.choice((0, 1, 7, 8, 9, 255, 4096, 65535, 65536, 65537, 65540, 131071, 131072, 131073, 200001, 2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 2 ** 21 + 5, rng.randrange(300000)))
        data = rng.choice((rng.randbytes, lambda n: b'\0' * n, lambda n: b'\xff' * n))(size)
        names = [rng.choice(usable + ['smplayer', 'crc32', 'md5', 'unknown', '']) for _ in range(rng.choice((0, 1, 1, 2, 5)))]
        most = rng.choice((10 ** 9, 100000, 70000, 5000 if size < 200000 else 50000))
        with ctx.case({'size': size, 'names': names, 'most': most, 'case': number}) as c:
            f = Pieces(data, rng, most)
            f.seek(rng.choice((0, size, size // 2)))
            seen = []
            got = compute_hashes(f, size, list(names), seen.append if rng.random() < 0.7 else None)
            c.equal(got, {n: reference(n, data) for n in names if n in usable}, 'the checksums of the contents')
            c.check(all(0 <= x <= size for x in seen) and seen == sorted(seen), 'progress never exceeds the size', seen=seen[-3:])
            c.check(not f.closed, 'the file stays open')


def run_archives(ctx):
    """the checksums of all members of an archive, computed when it is opened, resumed after interruptions and after a change of the algorithms"""
    c17.quiet()
    from ratarmountcore.mountsource.factory import open_mount_source
    import zipfile
    from unittest import mock

    rng = ctx.rng
    for number in range(ctx.budget(60, 3000)):
        if ctx.out_of_time():
            return
        files = {f'{rng.choice(("", "d/", "d/e/"))}f{k}': rng.randbytes(rng.choice((0, 1, 8, 511, 513, 70000))) for k in range(rng.choice((1, 2, 3, 8)) if number % 15 else 600)}
        kind = rng.choice(('tar', 'tar', 'zip'))
        tmp = ctx.tmp()
        path = os.path.join(tmp, 'a.' + kind)
        with open(path, 'wb') as f:
            if kind == 'tar':
                f.write(tarlib.build([tarlib.Member(n.encode(), d) for n, d in files.items()]))
            else:
                with zipfile.ZipFile(f, 'w', zipfile.ZIP_DEFLATED) as z:
                    for n, d in files.items():
                        z.writestr(n, d)
        index = os.path.join(tmp, 'i')
        first = rng.sample(['crc32', 'md5', 'smplayer', 'sha3-512', 'unknown'], rng.choice((0, 1, 2)))
        names = rng.sample(['crc32', 'md5', 'smplayer', 'sha1', 'sha3-256'], rng.choice((1, 2, 3)))
        stop = rng.choice((None, None, 0, 1, 2, 5))
        if len(files) > 100:
            first, names, stop = [], ['crc32', 'md5', 'smplayer'], None
        with ctx.case({'sizes': {n: len(d) for n, d in list(files.items())[:10]}, 'kind': kind, 'first': first, 'hashes': names, 'interrupted': stop, 'case': number}) as c:
            if rng.random() < 0.5:
                first = names
            fresh = first is names and stop is None
            if not fresh:
                calls = []

                def limited(*a, **k):
                    calls.append(1)
                    if stop is not None and len(calls) > stop:
                        raise KeyboardInterrupt
                    return compute_hashes(*a, **k)
                try:
                    with mock.patch('ratarmountcore.mountsource.SQLiteIndexMountSource.compute_hashes', limited):
                        open_mount_source(path, indexFilePath=index, writeIndex=True, hashes=first).__exit__(None, None, None)
                except KeyboardInterrupt:
                    pass
            ms = open_mount_source(path, indexFilePath=index, writeIndex=True, hashes=names)
            try:
                for n, d in files.items():
                    i = ms.lookup('/' + n)
                    if i is None:
                        c.check(False, 'the member is there', name=n)
                        continue
                    for h in names:
                        got = ms.get_xattr(i, 'user.hash.' + h)
                        if got is not None or fresh or kind == 'zip':  # an existing index of a TAR is not extended
                            c.equal(got, reference(h, d).encode(), 'the checksum of every member', name=n, hash=h)
                    c.check(not (fresh or kind == 'zip') or {'user.hash.' + h for h in names} <= set(ms.list_xattr(i)), 'the checksums are listed', name=n)
            finally:
                ms.__exit__(None, None, None)


ORACLES = [
    Oracle('contents', run_contents, [compute_hashes, smplayer_hash, hashing._build_hash_registry], '700 (20000) drawn files around all limits of the algorithms, with reads cut anywhere', quick_s=25),
    Oracle('archives', run_archives, [SIMS._compute_and_store_hashes], '60 (3000) drawn TAR and ZIP archives, interrupted and resumed, with changed algorithms', quick_s=25),
]
UNITS = [Unit('compute_hashes', unit_compute, [compute_hashes]), Unit('crc32', unit_crc, [hashing._CRC32Hasher.update]),
         Unit('zero_pad', unit_pad, [hashing._zero_pad]), Unit('accumulate', unit_accumulate, [hashing._smplayer_hash_accumulate]),
         Unit('read_fully', unit_read_fully, [hashing._read_fully]), Unit('smplayer', unit_smplayer, [smplayer_hash]),
         Unit('store', unit_store, [SIMS._compute_and_store_hashes])]
TRUSTED = ['hashlib and zlib.crc32', 'SQLite statements as their text says']
ASSUMPTIONS = ['compute_hashes is checked for at most two algorithms at a time (they are independent)', 'the selection of rows by SQL is covered by runs']
