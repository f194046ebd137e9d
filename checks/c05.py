"""Contracts for concurrent readers of one archive: every access to a shared file happens with its lock held, every opened
view gets the lock of its archive, and reads are correct under any interference before the lock is taken."""
import io
import json
import zipfile

import z3

from checks import c01, c04, tarlib
from checks.common import quiet
from checks.sched import Sched, SchedFile, patched, random_choice, schedules
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp
from pyvc.ops import File, Lock
from pyvc.values import Host, Model, Obj, SInt, SList, zi
from ratarmountcore.mountsource import FileInfo
from ratarmountcore.mountsource.compositing import singlefile as SF
from ratarmountcore.mountsource.formats import ar as AR
from ratarmountcore.mountsource.formats import asar as ASAR
from ratarmountcore.mountsource.formats import html as HTML
from ratarmountcore.mountsource.formats import ogg as OGG
from ratarmountcore.mountsource.formats import tar as TAR


class Guarded(Model):
    """The shared file of an archive: the contract of every access is that the lock is held."""
    pytype = io.BufferedReader

    def __init__(self, lock, size):
        self.lock, self.size, self.uses = lock, size, 0

    def _access(self, vc):
        self.uses += 1
        vc.prove(self.lock.held > 0, 'the shared file is only touched while the lock of the archive is held')

    def m_seek(self, vc, o, w=0):
        self._access(vc)
        return o if w == 0 else self.size

    def m_tell(self, vc):
        self._access(vc)
        return self.size

    def m_read(self, vc, n=-1):
        self._access(vc)
        return vc.bytes('data')

    def m_fileno(self, vc):
        return 3


class Thing(Model):
    pass


def views(made):
    def raw(i, vc, fileStencils, fileObjectLock=None):
        made.append((fileStencils, fileObjectLock))
        return Thing()

    def buffered(i, vc, fileStencils, fileObjectLock=None, bufferSize=None):
        made.append((fileStencils, fileObjectLock))
        return Thing()

    return {'ratarmountcore.StenciledFile:RawStenciledFile': raw, 'ratarmountcore.StenciledFile:StenciledFile': buffered}


def state(vc, cls, **more):
    lock = Lock('fileObjectLock')
    f = Guarded(lock, vc.nat('archive_size'))
    self = vc.new(Obj(cls, {'fileObject': f, 'tarFileObject': f, 'fileObjectLock': lock, 'blockSize': vc.nat('blockSize'), **more}, 'self'))
    return self, f, lock


def unit_open(cls, extra=None):
    def run(vc):
        self, f, lock = state(vc, cls)
        ud = vc.new(Obj(None, {'offset': vc.nat('offset'), 'offsetheader': vc.nat('offsetheader'), 'issparse': False}, 'userdata'))
        fi = c04.file_info(vc, ud)
        if extra:
            extra(vc, fi)
        made = []
        interp = Interp(vc, contracts={**views(made), **c04.IU}, models={json.loads: lambda vc, s: SList(items=[(vc.nat('a'), vc.nat('b'))])})
        buffering = vc.int('buffering')
        vc.assume(buffering.z >= -1)
        kind, r = attempt(lambda: interp.run_function(cls.open, [self, fi, buffering]))
        if kind == 'exc':
            from ratarmountcore.utils import RatarmountError

            vc.prove(issubclass(r.cls, RatarmountError), f'opening raises {r.cls.__name__} at {r.where}')
            return
        vc.prove(len(made) == 1, 'one view is made')
        st, lk = made[0]
        vc.prove(lk is lock, 'the view uses the lock of its archive')
        vc.prove(all(s[0] is f for s in st.items), 'the view reads from the file which that lock guards')
        vc.prove(f.uses == 0 or lock.held == 0, 'the lock is released')

    return Unit(f'{cls.__name__}.open', run, [cls.open])


def unit_tar_sparse(vc):
    """SQLiteIndexedTar.open of a sparse member: the only direct access to the shared file is under the lock"""
    self, f, lock = state(vc, TAR.SQLiteIndexedTar, index=vc.new(Obj(None, {'encoding': 'utf-8'}, 'index')))
    ud = c04.index_userdata(vc, True)
    fi = c04.file_info(vc, ud)
    made = []
    sparse = SList(items=[(SInt(vc.nat(f'o{k}').z), SInt(vc.nat(f's{k}').z)) for k in range(2)])
    info = c04.Info(sparse=sparse, size=vc.nat('tsize'), pax_headers=c04.SDict(items=[]), offset_data=vc.nat('od'))

    class TarFile(Model):
        def enter(self, vc):
            return self

        def exit(self, vc, e):
            return False

        def iterate(self, vc):
            return SList(items=[info])

    import tarfile

    interp = Interp(vc, contracts={**views(made), **c04.IU, 'ratarmountcore.StenciledFile:ZeroFile': lambda i, vc, size: Thing()},
                    models={tarfile.open: lambda vc, **k: TarFile()})
    kind, r = attempt(lambda: interp.run_function(TAR.SQLiteIndexedTar.open, [self, fi, vc.int('buffering')]))
    vc.prove(lock.held == 0, 'the lock is released')
    for st, lk in made:
        vc.prove(lk is lock, 'the view uses the lock of its archive')
    if kind == 'ok':
        vc.prove(len(made) == 2, 'the header and the member are opened')


def unit_html(vc):
    self, f, lock = state(vc, HTML.HTMLMountSource)
    made = []

    def data_url(i, vc, data=None):
        made.append(data)
        return Thing()

    interp = Interp(vc, contracts={'ratarmountcore.mountsource.formats.html:DataURLFile': data_url})
    interp.run_function(HTML.HTMLMountSource._open_with_span, [self, vc.nat('start'), vc.nat('end')])
    vc.prove(len(made) == 1 and lock.held == 0, 'one file is made and the lock is released')


def unit_ogg_arg(vc, fi):
    pass


def unit_single(buffering_sign):
    def run(vc):
        """the function that SingleFileMountSource makes for opening a shared file object"""
        lock_made = []

        def make_lock(vc):
            lock_made.append(Lock('lock'))
            return lock_made[-1]

        import threading

        lock0 = Lock('constructor')
        f = Guarded(lock0, vc.nat('size'))
        lock0.held = 1  # nobody else knows the file yet
        self = vc.new(Obj(SF.SingleFileMountSource, {}, 'self'))
        made = []

        class F(Model):
            def m_lstrip(self, vc, *a):
                return self

        def info(i, vc, self_, isdir=False, size=0, mode=0):
            return vc.new(Obj(FileInfo, {'size': size, 'mode': 0, 'linkname': '', 'mtime': 0, 'uid': 0, 'gid': 0, 'userdata': SList(items=[])}))

        interp = Interp(vc, contracts={**views(made), 'ratarmountcore.mountsource.compositing.singlefile:SingleFileMountSource._create_file_info': info,
                                       'ratarmountcore.mountsource.compositing.singlefile:_get_mode': lambda i, vc, fo: 0o644},
                        models={threading.Lock: make_lock, __import__('time').time: lambda vc: vc.nat('time'),
                                __import__('os').fstat: lambda vc, fd: c04.Info(st_blksize=512, st_blocks=1)})
        kind, r = attempt(lambda: interp.run_function(SF.SingleFileMountSource.__init__, [self, 'a', f]))
        vc.prove(kind == 'ok', 'construction succeeds')
        lock0.held = 0
        opener = self.fields['_open_file']
        b = vc.int('buffering')
        vc.assume(b.z == 0 if buffering_sign == 0 else b.z * buffering_sign > 0)
        interp.call(opener, [b])
        first = made[-1]
        interp.call(opener, [b])
        second = made[-1]
        vc.prove(len(made) == 2, 'every opening makes one view')
        vc.prove(first[1] is not None and first[1] is second[1], 'all views share one lock')
        for st, _lk in made:
            vc.prove(all(s[0] is f for s in st.items) and len(st.items) == 1, 'the view reads from the shared file')
            vc.prove(z3.And(zi(st.items[0][1]) == 0, zi(st.items[0][2]) == zi(f.size)), 'the view is the whole file')

    return Unit(f'SingleFileMountSource.__init__.open_shared_file[{buffering_sign}]', run, [SF.SingleFileMountSource.__init__])


UNITS = [u for u in c01.UNITS if '[locked' in u.name] + [
    u for u in c04.UNITS if u.name in ('SQLiteIndexedTar._open_stencil', 'SQLiteIndexedTar.read')] + [
    unit_open(TAR.SQLiteIndexedTar), unit_open(AR.ARMountSource), unit_open(ASAR.ASARMountSource), unit_open(OGG.OGGMountSource),
    Unit('SQLiteIndexedTar.open[sparse, lock]', unit_tar_sparse, [TAR.SQLiteIndexedTar.open]),
    Unit('HTMLMountSource._open_with_span', unit_html, [HTML.HTMLMountSource._open_with_span]),
    unit_single(0), unit_single(1), unit_single(-1),
]

# ---- concrete runs ------------------------------------------------------------------------------------------------


def make_ar(members):
    out = b'!<arch>\n'
    for name, content in members:
        out += (name.encode() + b'/').ljust(16) + b'0'.ljust(12) + b'0'.ljust(6) + b'0'.ljust(6) + b'100644'.ljust(8) + str(len(content)).encode().ljust(10) + b'`\n'
        out += content + b'\n' * (len(content) % 2)
    return out


def make_asar(members):
    files, at = {}, 0
    for name, content in members:
        files[name] = {'offset': str(at), 'size': len(content)}
        at += len(content)
    header = json.dumps({'files': files}).encode()
    import struct

    pad = -len(header) % 4
    size = len(header) + pad
    head = struct.pack('<4I', 4, size + 8, size + 4, len(header)) + header + b'\0' * pad
    return head + b''.join(c for _n, c in members)


def configurations(rng):
    members = [('a', bytes(rng.randrange(65, 91) for _ in range(40))), ('b', bytes(rng.randrange(97, 123) for _ in range(37)))]

    def tar():
        ms = [tarlib.Member(n.encode(), c) for n, c in members]
        return TAR.SQLiteIndexedTar(fileObject=SchedFile(tarlib.build(ms)), writeIndex=False, indexFilePath=':memory:'), members

    def tar_sparse():
        ms = [tarlib.sparse_member(rng, b'a'), tarlib.Member(b'b', members[1][1]), tarlib.sparse_member(rng, b'c')]
        src = TAR.SQLiteIndexedTar(fileObject=SchedFile(tarlib.build(ms)), writeIndex=False, indexFilePath=':memory:')
        return src, [(m.name.decode(), m.content) for m in ms]

    def nested():
        inner = tarlib.build([tarlib.Member(n.encode(), c) for n, c in members])
        outer = tarlib.build([tarlib.Member(b'z', b'Z' * 30), tarlib.Member(b'in.tar', inner)])
        from ratarmountcore.mountsource.factory import open_mount_source
        o = TAR.SQLiteIndexedTar(fileObject=SchedFile(outer), writeIndex=False, indexFilePath=':memory:')
        view = o.open(o.lookup('/in.tar'), buffering=0)
        i = TAR.SQLiteIndexedTar(fileObject=view, writeIndex=False, indexFilePath=':memory:')
        return [(i, members[0][0], members[0][1]), (o, 'z', b'Z' * 30), (i, members[1][0], members[1][1])], None

    def ar():
        return AR.ARMountSource(SchedFile(make_ar(members)), indexFilePath=':memory:', writeIndex=False), members

    def asar():
        return ASAR.ASARMountSource(SchedFile(make_asar(members)), indexFilePath=':memory:', writeIndex=False), members

    def single():
        return SF.SingleFileMountSource('a', SchedFile(members[0][1])), [members[0], members[0]]

    def zip_(method):
        def f():
            from ratarmountcore.mountsource.formats.zip import ZipMountSource

            b = io.BytesIO()
            with zipfile.ZipFile(b, 'w', method) as z:
                for n, c in members:
                    z.writestr(n, c)
            return ZipMountSource(SchedFile(b.getvalue()), indexFilePath=':memory:', writeIndex=False), members

        return f

    return {'tar': tar, 'tar-sparse': tar_sparse, 'tar-in-tar': nested, 'ar': ar, 'asar': asar, 'single': single,
            'zip-stored': zip_(zipfile.ZIP_STORED), 'zip-deflated': zip_(zipfile.ZIP_DEFLATED)}


def run_threads(ctx):
    quiet()
    rng = ctx.rng
    confs = configurations(rng)
    names = list(confs)
    per = (ctx.time_left() - 2) / len(names)
    import time

    for name in names:
        until = time.time() + per
        while time.time() < until and not ctx.out_of_time():
            with patched():
                src, members = confs[name]()
            if members is not None:
                targets = [(src, n, c) for n, c in members]
            else:
                targets = src
            count = 2 if rng.random() < 0.7 else 3
            targets = [rng.choice(targets) for _ in range(count)] if rng.random() < 0.3 else rng.sample(targets, min(count, len(targets)))
            progs = []
            for _s, n, content in targets:
                ops = []
                for _ in range(rng.choice((1, 2, 3))):
                    o = rng.randrange(0, len(content) + 2)
                    ops.append((rng.choice(('read', 'read', 'by-offset')), o, rng.choice((1, 3, 10, len(content), -1))))
                progs.append((n, rng.choice((0, 0, 4)), rng.random() < 0.4, ops))
            mode = rng.choice(('all', 'random'))
            infos = [s.lookup('/' + n) for s, n, _c in targets]
            inp = {'archive': name, 'threads': progs, 'schedules': mode}

            def one(choose):
                def program(k):
                    s, n, content = targets[k]
                    _n, buffering, inside, ops = progs[k]
                    pre = None if inside else opened[k]

                    def body():
                        f = pre or s.open(infos[k], buffering=buffering)
                        for kind, o, m in ops:
                            want = content[o:] if m < 0 else content[o:o + m]
                            if kind == 'by-offset' and m >= 0:
                                got = s.read(infos[k], m, o)
                            else:
                                kind = 'read'
                                f.seek(o)
                                got = f.read(m) if m >= 0 else f.read()
                            if bytes(got) != want:
                                raise Wrong(f'{kind} of {n!r} at {o} size {m} returns {bytes(got)[:60]!r} instead of {want[:60]!r}')
                        f.close()

                    return body

                opened = [None if p[2] else t[0].open(i, buffering=p[1]) for t, p, i in zip(targets, progs, infos)]
                s = Sched([program(k) for k in range(len(targets))], choose).run()
                c.check(s.deadlock is None, 'readers of one archive wait for each other forever', threads=s.deadlock, schedule=[t[1] for t in s.trace])
                for e in s.errors:
                    if e is not None:
                        c.check(False, 'a concurrent reader gets wrong bytes or fails', error=f'{type(e).__name__}: {e}', schedule=[t[1] for t in s.trace])
                return s.trace

            with ctx.case(inp) as c:
                if mode == 'all':
                    ctx.n += schedules(one, 2, 150) - 1
                else:
                    for _ in range(25):
                        one(random_choice(rng))
                        ctx.n += 1
            if members is not None:
                src.__exit__(None, None, None)


class Wrong(Exception):
    pass


def run_bufferless(ctx):
    pass


ORACLES = [Oracle('schedules', run_threads, ['SQLiteIndexedTar', 'ARMountSource', 'ASARMountSource', 'ZipMountSource', 'SingleFileMountSource'],
                  'two or three readers of archives of eight kinds with up to three reads each; all schedules with up to two preemptions '
                  '(at most 150 per case) or random schedules; threads are switched at file accesses and lock operations',
                  quick_s=40, thorough_s=400)]
LEVEL = 'proof'
TRUSTED = ['threading.Lock excludes other threads', 'io.BufferedReader serialises its own calls', 'zipfile locks its shared file',
           'an opened view is used by one thread at a time (FUSE runs single-threaded; Python file objects are not shared between handles)']
ASSUMPTIONS = ['all accesses to the shared file go through the archive object (file objects handed in by the caller are not used elsewhere)']
