"""Contracts for reading archive members: SQLiteIndexedTar.open / read, sparse members, MountSource.read."""
import bz2
import gzip
import io
import lzma
import os
import stat

import z3

from checks import tarlib
from checks.common import file_ops, quiet, run_file_ops
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.ops import File, Lock
from pyvc.values import Model, Obj, SBool, SBytes, SDict, SInt, SList, zb, zi
from ratarmountcore.mountsource import MountSource as MS
from ratarmountcore.mountsource.formats import tar as M

Q = 'ratarmountcore.mountsource.formats.tar:SQLiteIndexedTar.'
T = M.SQLiteIndexedTar


class Src(Model):
    """the archive file (null false) or a file of zeros (null true)"""
    pytype = io.BufferedReader

    def __init__(self, null, archive=None):
        self.null, self.archive = null, archive

    def ite(self, vc, c, other):
        return Src(z3.simplify(z3.If(c, self.null, other.null)), self.archive or other.archive)

    def map_terms(self, f):
        return Src(f(self.null), self.archive)

    def __getattr__(self, name):
        if name.startswith(('m_', 'a_')) and self.__dict__.get('archive') is not None:
            return getattr(self.archive, name)
        raise AttributeError(name)


class Info(Model):
    def __init__(self, **k):
        for n, v in k.items():
            setattr(self, 'a_' + n, (lambda v: lambda vc: v)(v))

    def m_issparse(self, vc):
        return self.a_sparse(vc) is not None


def tar_self(vc):
    lock = Lock('fileObjectLock')
    A = vc.func('archive', z3.IntSort(), z3.IntSort())
    size = vc.nat('archive_size')
    f = File(vc, 'archive', lambda p: A(p), size.z, pos=vc.nat('pos'), lock=lock)
    src = Src(z3.BoolVal(False), f)
    index = vc.new(Obj(None, {'encoding': 'utf-8'}, 'index'))
    self = vc.new(Obj(T, {'tarFileObject': src, 'fileObjectLock': lock, 'blockSize': vc.nat('blockSize'), 'index': index}, 'self'))
    return self, A, size, lock, src


def index_userdata(vc, sparse):
    ud = vc.new(Obj(None, {'issparse': sparse, 'offset': vc.nat('offset'), 'offsetheader': vc.nat('offsetheader')}, 'tarFileInfo'))
    return ud


def file_info(vc, ud):
    from ratarmountcore.mountsource import FileInfo

    return vc.new(Obj(FileInfo, {'size': vc.nat('size'), 'mtime': 0, 'mode': vc.nat('mode'), 'linkname': '', 'uid': 0, 'gid': 0,
                                 'userdata': vc.new(SList(items=[ud]))}, 'fileInfo'))


def userdata_contract(i, vc, userdata):
    vc.prove(len(userdata.items) == 1, 'the userdata belongs to the index')
    return userdata.items[-1]


IU = {'ratarmountcore.SQLiteIndex:SQLiteIndex.get_index_userdata': userdata_contract}


def unit_read(cls):
    def run(vc):
        self, A, asize, lock, src = tar_self(vc)
        if cls is not T:
            self = vc.new(Obj(cls, {}, 'self'))
        ud = index_userdata(vc, vc.bool('issparse'))
        fi = file_info(vc, ud)
        G = vc.func('content', z3.IntSort(), z3.IntSort())  # the bytes of the member
        p = z3.Int('p')
        off, size = ud.fields['offset'].z, fi.fields['size'].z
        vc.assume(z3.Implies(z3.Not(ud.fields['issparse'].z), z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < size), G(p) == A(off + p)))))
        vc.assume(z3.Implies(z3.Not(ud.fields['issparse'].z), off + size <= asize.z))
        opened = []

        def open_(i, vc, self_, fileInfo, buffering=-1):
            vc.prove(z3.BoolVal(fileInfo is fi), 'the given member is opened')
            # an unbuffered view returns as much as asked for (RawStenciledFile.read, C01); others may be short
            f = File(vc, 'view', lambda q: G(q), size, short=cls is not T)
            opened.append(f)
            return f

        n, o = vc.watch('size', vc.nat('n')), vc.watch('offset', vc.nat('o'))
        vc.watch('file size', fi.fields['size'])
        key = Q + 'open' if cls is T else 'ratarmountcore.mountsource.MountSource:MountSource.open'
        interp = Interp(vc, contracts={**IU, key: open_})
        kind, r = attempt(lambda: interp.run_function(cls.read, [self, fi, n, o]))
        if kind == 'exc':
            vc.prove(False, f'reading raises nothing (got {r.cls.__name__} at {r.where})')
            return
        from pyvc.values import sbytes_of

        b = sbytes_of(r)
        rest = z3.If(size > o.z, size - o.z, 0)
        want = z3.If(n.z < rest, n.z, rest)
        if cls is T:
            vc.prove(b.length == want, 'exactly the requested part of the member is returned')
        else:
            vc.prove(z3.And(b.length <= want, z3.Implies(want > 0, b.length > 0)), 'nothing but the requested part of the member is returned')
        k = vc.skolem()
        vc.prove(z3.Implies(z3.And(k >= 0, k < b.length), b.at(k) == G(o.z + k)), 'the bytes are those of the member at the offset')
        vc.prove(z3.BoolVal(all(f.closed for f in opened)), 'a view opened for reading is closed again')
        vc.prove(z3.BoolVal(not lock.held), 'the lock is released')

    return Unit(f'{cls.__name__}.read', run, [cls.read])


def unit_open_stencil(vc):
    self, A, asize, lock, src = tar_self(vc)
    stencils = vc.new(SList(items=[(src, vc.nat('o'), vc.nat('s'))]))
    made = []

    def raw(i, vc, fileStencils, fileObjectLock=None):
        made.append((fileStencils, fileObjectLock, 0))
        return Info()

    def buffered(i, vc, fileStencils=None, fileObjectLock=None, bufferSize=None, **k):
        made.append((fileStencils, fileObjectLock, bufferSize))
        return Info()

    buffering = vc.int('buffering')
    vc.assume(buffering.z >= -1)
    S = 'ratarmountcore.StenciledFile:'
    interp = Interp(vc, contracts={S + 'RawStenciledFile': raw, S + 'StenciledFile': buffered})
    interp.run_function(T._open_stencil, [self, stencils, buffering])
    vc.prove(z3.BoolVal(len(made) == 1), 'one view is made')
    st, lk, buf = made[0]
    vc.prove(z3.BoolVal(st is stencils), 'the view consists of the given cut-outs')
    vc.prove(z3.BoolVal(lk is lock), 'the view uses the lock of the archive')
    vc.prove(zi(buf) == z3.If(buffering.z == -1, self.fields['blockSize'].z, buffering.z), 'the requested buffer size is used')


def view_contract(made):
    def f(i, vc, self, fileStencils, buffering=-1):
        made.append((fileStencils, buffering))
        return Info()

    return f


def unit_open_plain(vc):
    self, A, asize, lock, src = tar_self(vc)
    ud = index_userdata(vc, False)
    fi = file_info(vc, ud)
    made = []
    buffering = vc.int('buffering')
    interp = Interp(vc, contracts={**IU, Q + '_open_stencil': view_contract(made)})
    kind, r = attempt(lambda: interp.run_function(T.open, [self, fi, buffering]))
    vc.prove(z3.BoolVal(kind == 'ok' and len(made) == 1), 'opening a member makes one view')
    st, buf = made[0]
    vc.prove(z3.BoolVal(len(st.items) == 1 and st.items[0][0] is src), 'the view reads from the archive')
    vc.prove(z3.And(zi(st.items[0][1]) == ud.fields['offset'].z, zi(st.items[0][2]) == fi.fields['size'].z), 'the view is exactly the data range of the member')
    vc.prove(zi(buf) == buffering.z, 'the buffering is passed on')


def sparse_map(vc):
    n = vc.nat('entries').z
    f, g = vc.func('map_offset', z3.IntSort(), z3.IntSort()), vc.func('map_size', z3.IntSort(), z3.IntSort())
    E, C = vc.func('E', z3.IntSort(), z3.IntSort()), vc.func('C', z3.IntSort(), z3.IntSort())
    i = z3.Int('i')
    zero = z3.And(f(i) == 0, g(i) == 0)
    vc.assume(z3.And(E(0) == 0, C(0) == 0, n > 0))
    vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
        g(i) >= 0, f(i) >= 0, z3.Or(zero, f(i) >= E(i)), z3.Implies(g(i) > 0, C(i) % 512 == 0),
        E(i) >= 0, E(i) <= E(n), C(i) >= 0,
        E(i + 1) == z3.If(zero, E(i), f(i) + g(i)), C(i + 1) == C(i) + g(i))), patterns=[f(i), g(i), E(i), C(i)]))
    return SList(n, lambda t: (SInt(f(t)), SInt(g(t))), True, 'sparse'), n, f, g, E, C


def unit_open_sparse(vc):
    self, A, asize, lock, src = tar_self(vc)
    ud = index_userdata(vc, True)
    fi = file_info(vc, ud)
    smap, n, f, g, E, C = sparse_map(vc)
    isize, hsize = vc.nat('tarinfo_size'), vc.nat('pax_size')
    which = vc.pick(3, 'pax')
    headers = SDict(items=[[['GNU.sparse.size', 'GNU.sparse.realsize'][which], hsize]] if which < 2 else [['other', 'x']])
    R = (hsize if which < 2 else isize).z
    doff = vc.nat('offset_data')
    oh = ud.fields['offsetheader'].z
    base = oh + doff.z
    vc.assume(z3.And(base % 512 == 0, E(n) <= R))
    info = Info(sparse=smap, size=isize, pax_headers=headers, offset_data=doff)
    G = vc.func('content', z3.IntSort(), z3.IntSort())
    i, p, t = z3.Ints('i p t')
    inr = z3.And(i >= 0, i < n)
    vc.assume(z3.ForAll([i, p], z3.Implies(z3.And(inr, f(i) <= p, p < f(i) + g(i)), G(p) == A(base + C(i) + p - f(i))), patterns=[z3.MultiPattern(f(i), G(p))]))
    vc.assume(z3.ForAll([i, p], z3.Implies(z3.And(inr, E(i) <= p, p < f(i)), G(p) == 0), patterns=[z3.MultiPattern(f(i), G(p))]))
    vc.assume(z3.ForAll([p], z3.Implies(p >= E(n), G(p) == 0), patterns=[G(p)]))
    ghost = {}

    def starts(lst):
        """ghost: prefix sums of the sizes of the collected stencils"""
        if lst.items is not None and 'S' not in ghost:
            def S0(x):
                r = z3.IntVal(0)
                acc = z3.IntVal(0)
                for q, it in enumerate(lst.items):
                    acc = acc + zi(it[2])
                    r = z3.If(x >= q + 1, acc, r)
                return r
            return S0
        S, m = ghost['S'], ghost['m']

        def S1(x):
            a = S(m) + zi(lst.elem(m)[2])
            return z3.If(x <= m, S(x), z3.If(x == m + 1, a, a + zi(lst.elem(m + 1)[2])))

        return S1

    def content_facts(lst, end, zeros_ok=None):
        S, m = starts(lst), lst.length
        t, p = z3.Int(vc.name('t')), z3.Int(vc.name('p'))
        facts = [('stencils start at 0', S(z3.IntVal(0)) == 0), ('stencils end', S(m) == end)]
        if lst.items is not None and not lst.items:
            return facts
        nul, so, ss = (zb(lst.elem(t)[0]), zi(lst.elem(t)[1]), zi(lst.elem(t)[2]))
        facts += [
            ('stencil sizes', z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < m), z3.And(ss >= 0, S(t + 1) == S(t) + ss, S(t) >= 0, so >= 0, z3.Implies(nul, so == 0))))),
            ('stencil contents', z3.ForAll([t, p], z3.Implies(
                z3.And(t >= 0, t < m, S(t) <= p, p < S(t) + ss), z3.And(
                    z3.Implies(nul, G(p) == 0), z3.Implies(z3.Not(nul), G(p) == A(so + p - S(t))))))),
        ]
        return facts

    def inv(vc, L):
        k = zi(L.k)
        return [('position in the archive', zi(L.tarOffset) == base + C(k)), ('end of the last range', zi(L.lastEnd) == E(k))] + content_facts(L.stencils, E(k))

    def new_stencils(vc, L):
        m = vc.nat('m').z
        nf, of, sf, S = (vc.func('nul', z3.IntSort(), z3.BoolSort()), vc.func('so', z3.IntSort(), z3.IntSort()),
                         vc.func('ss', z3.IntSort(), z3.IntSort()), vc.func('S', z3.IntSort(), z3.IntSort()))
        ghost.update(S=S, m=m)
        return vc.new(SList(m, lambda x: (SBool(nf(x)), SInt(of(x)), SInt(sf(x))), True, 'stencils'))

    class TarFile(Model):
        def enter(self, vc):
            return self

        def exit(self, vc, e):
            return False

        def iterate(self, vc):
            return SList(items=[info])

    made = []
    loops = {(Q + 'open', 1): LoopSpec(inv, havoc={'stencils': new_stencils})}

    def tar_open(vc, name=None, mode='r', fileobj=None, **k):
        return TarFile()

    import tarfile

    zero_size = []

    def zero_file(i, vc, size):
        zero_size.append(zi(size))
        return Src(z3.BoolVal(True))

    interp = Interp(vc, loops=loops, contracts={**IU, Q + '_open_stencil': view_contract(made), 'ratarmountcore.StenciledFile:ZeroFile': zero_file},
                    models={tarfile.open: tar_open})
    buffering = vc.int('buffering')
    kind, r = attempt(lambda: interp.run_function(T.open, [self, fi, buffering]))
    if kind == 'exc':
        vc.prove(False, f'a sparse member with a valid map opens (got {r.cls.__name__} at {r.where})')
        return
    vc.prove(z3.BoolVal(len(made) == 2), 'the header and the member are opened')
    hdr, buf0 = made[0]
    vc.prove(z3.BoolVal(len(hdr.items) == 1 and hdr.items[0][0] is src), 'the header is read from the archive')
    vc.prove(zi(hdr.items[0][1]) == oh, 'the header is read at its recorded offset')
    st, buf = made[1]
    vc.prove(zi(buf) == buffering.z, 'the buffering is passed on')
    vc.prove(z3.BoolVal(not lock.held), 'the lock is released')
    S = starts(st) if st.items is None else None
    if st.items is not None:
        raise NotImplementedError('concrete list of cut-outs')
    m = st.length
    vc.prove(S(m) == R, 'the opened file has the real size')
    t, p = vc.skolem('t'), vc.skolem('p')
    e = st.elem(t)
    inside = z3.And(t >= 0, t < m)
    so, ss, nul = zi(e[1]), zi(e[2]), e[0].null
    vc.prove(z3.Implies(inside, z3.And(ss >= 0, S(t + 1) == S(t) + ss)), 'cut-outs follow each other')
    vc.prove(z3.Implies(z3.And(inside, S(t) <= p, p < S(t) + ss, z3.Not(nul)), G(p) == A(so + p - S(t))), 'data ranges come from the archive')
    vc.prove(z3.Implies(z3.And(inside, S(t) <= p, p < S(t) + ss, nul), G(p) == 0), 'holes read as zeros')
    vc.prove(z3.Implies(z3.And(inside, nul, ss > 0), z3.And(so == 0, z3.BoolVal(len(zero_size) == 1), ss <= (zero_size[0] if zero_size else 0))), 'the file of zeros is large enough for every hole')


UNITS = [unit_read(T), unit_read(MS.MountSource if hasattr(MS, 'MountSource') else MS),
         Unit('SQLiteIndexedTar._open_stencil', unit_open_stencil, [T._open_stencil]),
         Unit('SQLiteIndexedTar.open[plain]', unit_open_plain, [T.open]),
         Unit('SQLiteIndexedTar.open[sparse]', unit_open_sparse, [T.open])]

# ---- concrete runs ------------------------------------------------------------------------------------------------


class ShortFile(io.RawIOBase):
    """an archive file object with short reads"""

    def __init__(self, data, rng):
        self.f, self.rng = io.BytesIO(data), rng

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, o, w=0):
        return self.f.seek(o, w)

    def tell(self):
        return self.f.tell()

    def readinto(self, b):
        return self.f.readinto(b)


def name_of(m):
    return '/' + m.name.decode().rstrip('/')


def check_member(c, rng, ms, m, version, nops=12):
    fi = ms.lookup(name_of(m), version)
    c.check(fi is not None, 'the member is not found', member=m.describe())
    size = len(m.content)
    c.equal(fi.size, size, 'wrong recorded size', member=m.describe())
    if not stat.S_ISREG(fi.mode):
        return
    bounds = [0, size]
    for o, d in m.chunks or []:
        bounds += [o, o + len(d)]
    for buffering in rng.sample([-1, 0, 7, 4096], 2):
        f = ms.open(fi, buffering=buffering)
        try:
            c.equal(f.seek(0, 2), size, 'the opened file has a wrong size', member=m.describe(), buffering=buffering)
            f.seek(0)
            run_file_ops(c, f, m.content, [('readall',), ('seek', 0, 0)] + file_ops(rng, size, bounds, nops))
        finally:
            f.close()
    for _ in range(4):
        o = max(0, rng.choice(bounds) + rng.choice((-2, -1, 0, 1, 5)))
        n = rng.choice((0, 1, 2, size, size + 1, 600, max(0, rng.choice(bounds) - o)))
        got = ms.read(fi, n, o)
        c.equal(bytes(got), m.content[o:o + n], 'reading by offset and size yields wrong bytes', member=m.describe(), offset=o, size=n)


def run_members(ctx):
    quiet()
    rng = ctx.rng

    def archive(members, wrap, number, start=0):
        data = tarlib.build(members)
        if wrap == 'bz2':
            return bz2.compress(data)
        if wrap == 'gz':
            return gzip.compress(data, 1)
        if wrap == 'xz':
            return lzma.compress(data, preset=0)
        return data

    def random_member(i):
        name = b'f%d' % i if rng.random() < 0.8 else b'd/e%d/f' % i
        if rng.random() < 0.4:
            return tarlib.sparse_member(rng, name)
        size = rng.choice((0, 1, 5, 511, 512, 513, 1024, 3000))
        return tarlib.Member(name, rng.randbytes(size), style=rng.choice(('gnu', 'ustar', 'pax')), mtime=i)

    from ratarmountcore.mountsource.formats.folder import FolderMountSource

    for number in range(ctx.budget(2500, 12000)):
        if ctx.out_of_time():
            return
        members = [random_member(i) for i in range(rng.choice((1, 2, 3, 6)))]
        dup = None
        if rng.random() < 0.3:
            dup = tarlib.Member(members[0].name, rng.randbytes(rng.choice((0, 3, 700))))
            members.append(dup)
        wrap = rng.choice((None, None, None, None, None, 'bz2', 'gz', 'xz', 'nested', 'nested', 'short'))
        inp = {'members': [m.describe() for m in members], 'container': wrap, 'case': number}
        with ctx.case(inp) as c:
            prefix = ''
            if wrap == 'nested':
                data0 = tarlib.build(members)
                outer = [tarlib.Member(b'before', b'x' * 10), tarlib.Member(b'in.tar', data0), tarlib.Member(b'after', b'y' * 700)]
                data = tarlib.build(outer)
                for m in members:
                    m.name = b'in.tar/' + m.name
                members += [outer[0], outer[2]]
            else:
                data = archive(members, wrap, number)
            fo = ShortFile(data, rng) if wrap == 'short' else io.BytesIO(data)
            kw = {'recursive': True} if wrap == 'nested' else {}
            ms = M.SQLiteIndexedTar(fileObject=fo, writeIndex=False, indexFilePath=':memory:', **kw)
            try:
                first = members[0]
                for m in rng.sample(members, min(4, len(members))):
                    version = 0
                    if dup is not None and m is first:
                        version = 1
                    check_member(c, rng, ms, m, version)
                if dup is not None:
                    check_member(c, rng, ms, dup, 0)
            finally:
                ms.close()
    # MountSource.read of other sources
    root = os.path.join(ctx.scratch, 'folder')
    os.makedirs(root, exist_ok=True)
    content = rng.randbytes(5000)
    with open(os.path.join(root, 'file'), 'wb') as f:
        f.write(content)
    src = FolderMountSource(root)
    for o in (0, 1, 4999, 5000, 5001):
        for n in (0, 1, 2, 4999, 5000, 6000):
            with ctx.case({'source': 'folder', 'offset': o, 'size': n}) as c:
                c.equal(src.read(src.lookup('/file'), n, o), content[o:o + n], 'reading by offset and size yields wrong bytes')


ORACLES = [Oracle('archive members', run_members, ['SQLiteIndexedTar.open', 'SQLiteIndexedTar.read', 'MountSource.read'],
                  'random archives of up to 8 members (regular in three formats; sparse in four formats with up to 60 data ranges), plain, '
                  'compressed, nested or behind a file with short reads; random histories of seeks and reads',
                  quick_s=40, thorough_s=300)]
LEVEL = 'proof'
TRUSTED = ['tarfile parses headers and sparse maps as the archive stores them', 'RawStenciledFile returns the concatenation of its cut-outs (proved in C01)']
ASSUMPTIONS = ['recorded offsets and sizes lie inside the archive (C10)']
