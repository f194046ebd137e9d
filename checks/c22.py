"""C22 Format detection leaves files untouched and honours priorities.

Contracts on might_be_format, detect_formats and detect_compression for an arbitrary file, arbitrary format checks that move the position,
fail and raise; the real format checks, the choice of backends and the stripping of suffixes are compared with references on generated
files and exhaustively enumerated settings.
"""
import bz2
import fnmatch
import gzip
import io
import itertools
import lzma
import os
import re
import stat
import struct
import sys
import zlib
from unittest import mock

import z3

from checks import c17, tarlib
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp
from pyvc.ops import mk_bool
from pyvc.values import Host, Model, Obj, PyRaise, SDict, SInt, SList, SSet, Unsupported, zb, zi
from ratarmountcore import compressions, formats
from ratarmountcore.compressions import (
    COMPRESSION_BACKENDS,
    CompressionBackendInfo,
    compile_suffix_rules,
    detect_compression,
    find_available_backend,
    strip_suffix,
)
from ratarmountcore.formats import FILE_FORMATS, FileFormatID, FileFormatInfo, detect_formats, might_be_format
from ratarmountcore.mountsource import MountSource, factory
from ratarmountcore.mountsource.archives import ARCHIVE_BACKENDS, ArchiveBackendInfo

FID = FileFormatID


# ------------------------------------------------------------------------------------------------ units
class File(Model):
    """an arbitrary seekable file; reading fails when `failing`"""

    pytype = io.BufferedReader

    def __init__(self, vc, first=None):
        self.position = vc.nat('position').z
        self.start, self.first, self.failing = self.position, first, vc.choose('reading fails')

    def m_tell(self, vc):
        return SInt(self.position)

    def m_seekable(self, vc):
        return True

    def m_seek(self, vc, offset, whence=0):
        if whence != 0:
            raise Unsupported('relative seek')
        self.position = zi(offset)
        return offset

    def m_read(self, vc, n=-1):
        if self.failing:
            raise PyRaise(OSError, ('reading',))
        at = self.position
        self.moved(vc)
        if self.first is not None:
            vc.prove(at == self.start, 'the first bytes are read')
            return self.first
        return Header(self, at, n)

    def moved(self, vc):
        self.position = vc.nat('moved').z


class Header(Model):
    pytype = bytes

    def __init__(self, file, at, n):
        self.file, self.at, self.n = file, at, n

    def eq(self, vc, o):
        if not isinstance(o, Magic):
            raise Unsupported('comparison of the header with ' + repr(o))
        vc.prove(z3.And(self.at == self.file.start, zi(self.n) == zi(o.length)), 'the magic bytes are compared with those at the start')
        return mk_bool(o.same)


class Magic(Model):
    pytype = bytes

    def __init__(self, vc):
        self.length, self.same = vc.nat('magic_length'), vc.bool('the magic bytes are there').z
        vc.assume(self.length.z > 0)

    def len(self, vc):
        return self.length

    def eq(self, vc, o):
        return o.eq(vc, self)

    def truth(self, vc):
        return z3.BoolVal(True)


def unit_might_be_format(vc):
    file = File(vc)
    magic = (None, b'', Magic(vc))[vc.pick(3)]
    answer, checks = vc.bool('the check says'), []

    def check(vc, f):
        vc.prove(f is file and file.position == file.start, 'the check begins at the start')
        checks.append(1)
        if vc.choose('reads'):
            file.moved(vc)
        if vc.choose('the check raises'):
            raise PyRaise(ValueError, ('check',))
        return answer

    has_check = vc.choose('there is a check')
    info = vc.new(Obj(FileFormatInfo, {'magicBytes': magic, 'checkHeader': Host(check) if has_check else None, 'extensions': []}, 'format'))
    fid = info if vc.choose('given as info') else FID.GZIP
    table = vc.new(SDict(items=[[FID.GZIP, info]]))
    interp = Interp(vc, contracts={})
    interp.global_values['FILE_FORMATS'] = table
    kind, r = attempt(lambda: interp.run_function(might_be_format, [file, fid]))
    vc.prove(file.position == file.start, 'the position is restored')
    has_magic = isinstance(magic, Magic)
    same = magic.same if has_magic else z3.BoolVal(True)
    if kind == 'ok':
        want = z3.BoolVal(False)
        if has_check:
            want = answer.z
        elif has_magic:
            want = z3.BoolVal(True)
        vc.prove(zb(r) == z3.And(same, want), 'exactly files with the magic bytes that pass the check might be of the format')
        vc.prove(z3.Or(z3.BoolVal(len(checks) == (1 if has_check else 0)), z3.Not(same)), 'the check is not skipped')


def unit_detect_formats(vc):
    known = sorted({f.magicBytes[:2] for f in FILE_FORMATS.values() if f.magicBytes and len(f.magicBytes) >= 2})
    first = (known + [b'', b'a', b'\xaa\xbb'])[vc.pick(len(known) + 3)]
    file = File(vc, first)
    possible = [f for f, i in FILE_FORMATS.items() if not i.magicBytes or len(i.magicBytes) < 2 or i.magicBytes[:2] == first]
    k = vc.pick(len(possible) + 1)
    asked = []

    def might(i, vc, f, fid):
        vc.prove(f is file and file.position == file.start, 'every check begins at the start')
        asked.append(fid)
        if fid not in possible:
            return False
        return k < len(possible) and fid == possible[k]

    interp = Interp(vc, contracts={'ratarmountcore.formats:might_be_format': might})
    kind, r = attempt(lambda: interp.run_function(detect_formats, [file]))
    vc.prove(file.position == file.start, 'the position is restored')
    if kind == 'exc':
        vc.prove(file.failing, f'nothing but an error of the file is raised (got {r.cls.__name__} at {r.where})')
        return
    items = [x for x in (r.items if hasattr(r, 'items') and isinstance(r.items, list) else r)]
    vc.prove(set(items) == ({possible[k]} if k < len(possible) and len(first) == 2 else set()), 'exactly the formats whose check passes are detected')


def unit_detect_compression(vc):
    ids = list(compressions.COMPRESSION_FORMATS)
    a = vc.pick(len(ids) + 1)
    b = a + 1 + vc.pick(len(ids) - a) if a < len(ids) - 1 else len(ids)
    file = File(vc)
    file.failing = False
    matching = [ids[k] for k in (a, b) if k < len(ids)]
    outcome = {}

    def might(i, vc, f, fid):
        vc.prove(f is file and file.position == file.start, 'every check begins at the start')
        return fid in matching

    class Opened(Model):
        def __init__(self, fid):
            self.fid = fid

        def m_read(self, vc, n=-1):
            file.moved(vc)
            if vc.choose('corrupt'):
                raise PyRaise(EOFError, ('corrupt',))
            return b''

        def m_close(self, vc):
            file.moved(vc)

    prioritized = vc.new(SList(items=['x']))

    def find(i, vc, fid, enabledBackends=None, prioritizedBackends=None):
        vc.prove(prioritizedBackends is prioritized and enabledBackends is None, 'the order given by the user is respected')
        if vc.choose('no backend'):
            outcome[fid] = 'missing'
            return None

        def opens(vc, f, **k):
            vc.prove(f is file and file.position == file.start, 'the file is opened at its start')
            file.moved(vc)
            if vc.choose('not of this format'):
                outcome[fid] = 'failed'
                raise PyRaise(ValueError, ('format',))
            outcome[fid] = 'opened'
            return Opened(fid)
        return vc.new(Obj(CompressionBackendInfo, {'open': Host(opens), 'requiredModules': vc.new(SList(items=[])), 'formats': vc.new(SList(items=[fid]))}, 'backend'))

    interp = Interp(vc, contracts={'ratarmountcore.formats:might_be_format': might, 'ratarmountcore.compressions:might_be_format': might,
                                   'ratarmountcore.compressions:find_available_backend': find})
    kind, r = attempt(lambda: interp.run_function(detect_compression, [file, prioritized]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    vc.prove(file.position == file.start, 'the position is restored')
    if r is not None:
        vc.prove(r in matching and outcome.get(r) == 'opened', 'the detected compression could be opened')
        vc.prove(r == matching[0] or outcome.get(matching[0]) in ('failed', 'opened'), 'the first one that fits is detected')
    else:
        vc.prove(all(outcome.get(f) in ('failed', 'opened') for f in matching) or 'missing' in outcome.values(), 'nothing that could be opened is missed')


# ------------------------------------------------------------------------------------------------ oracles
class Watched(io.BytesIO):
    """a file that may return short reads of raw files, or fail at the n-th access"""

    def __init__(self, data, fail_at=None):
        super().__init__(data)
        self.left = fail_at

    def read(self, n=-1):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = None
                raise OSError('read error')
        return super().read(n)


def samples(rng):
    raw = rng.randbytes(rng.choice((0, 1, 100, 70000)))
    b = io.BytesIO()
    import zipfile
    with zipfile.ZipFile(b, 'w') as z:
        z.writestr('a', raw[:100])
    d = zlib.compressobj(wbits=-15)
    yield from (gzip.compress(raw), bz2.compress(raw), lzma.compress(raw), zlib.compress(raw), d.compress(raw) + d.flush(), b.getvalue(), tarlib.build([tarlib.Member(b'a', raw)]),
                b'!<arch>\n' + b'debian-binary   0           0     0     100644  4         `\n2.0\n', raw, b'')
    for i in FILE_FORMATS.values():
        if i.magicBytes:
            yield i.magicBytes + raw
            yield i.magicBytes
    yield struct.pack('<LLL', 0x184D2A50 + rng.randrange(16), rng.choice((0, 4, 2 ** 32 - 1)), 0x184D2204) + raw
    yield struct.pack('<LL', 0x184D2A50, 0) * 3 + struct.pack('<L', 0xFD2FB528)
    yield b'hsqs' + struct.pack('<IIIIHHHHHH', 1, 2, 4096, 1, 1, 12, 0, 0, 4, 0) + raw
    yield struct.pack('<LLLL', 4, 20, 16, 12) + raw
    yield b'\0' * 32769 + b'CD001' + raw
    yield b'RIFF\0\0\0\0AVI ' + raw


EXPECT = {FID.GZIP: lambda d: d[:2] == b'\x1f\x8b', FID.BZIP2: lambda d: d[:3] == b'BZh' and d[4:10] == bytes.fromhex('314159265359'), FID.XZ: lambda d: d[:6] == b'\xfd7zXZ\0',
          FID.TAR: None, FID.AR: lambda d: d[:8] == b'!<arch>\n'}


def whole_file(data):
    for module in (gzip, bz2, lzma):
        try:
            module.decompress(data)
            return True
        except Exception:  # pylint: disable=broad-except
            pass
    return False


def run_detection(ctx):
    c17.quiet()
    rng = ctx.rng
    number = 0
    while number < ctx.budget(5000, 60000) and not ctx.out_of_time():
        for data in samples(rng):
            number += 1
            if ctx.out_of_time() or number > ctx.budget(5000, 60000):
                return
            r = rng.random()
            if r < 0.3:
                data = data[:rng.choice((1, 2, 3, 4, 5, 8, 10, 20, len(data) // 2))]
            elif r < 0.5 and data:
                x = bytearray(data)
                for _ in range(rng.choice((1, 2, 20))):
                    x[rng.randrange(min(len(x), 600))] = rng.choice((0, 255, rng.randrange(256)))
                data = bytes(x)
            start = rng.choice((0, 0, 0, 1, 7, 512, len(data)))
            whole = rng.randbytes(start) + data
            fail = rng.choice((None, None, None, 0, 1, 2, 5, 20))
            with ctx.case({'data': data[:40], 'size': len(data), 'start': start, 'fail': fail, 'case': number}) as c:
                f = Watched(whole, fail)
                f.seek(start)

                def call(what, g):
                    try:
                        return g()
                    except OSError as e:
                        c.check('read error' in str(e) and fail is not None, 'format checks do not raise', during=what, error=repr(e))
                    except Exception as e:  # pylint: disable=broad-except
                        c.check(fail is not None, 'format checks do not raise', during=what, error=repr(e))
                    finally:
                        c.check(not f.closed, 'the file stays open', during=what)
                        c.equal(f.tell(), start, 'the position is restored', after=what)
                found = call('detect_formats', lambda: detect_formats(f))
                for fid in rng.sample(list(FILE_FORMATS), 6):
                    one = call(fid.name, lambda fid=fid: might_be_format(f, fid))
                    if fail is None and found is not None and len(data) >= 2:
                        c.equal(fid in found, bool(one), 'detection finds exactly the formats whose check passes', format=fid.name)
                    if fail is None and EXPECT.get(fid):
                        c.equal(bool(one), EXPECT[fid](data), 'magic bytes', format=fid.name)
                got = call('detect_compression', lambda: detect_compression(f))
                if fail is None and r >= 0.5 and start == 0:
                    want = {b'\x1f\x8b\x08': FID.GZIP, b'BZh91A': FID.BZIP2, b'\xfd7zXZ\0': FID.XZ}
                    for m, fid in want.items():
                        if data.startswith(m) and len(data) > 60 and whole_file(data):
                            c.equal(got, fid, 'the compression is detected')
                f.left = None
                c.equal(f.read(), data, 'the next reader sees the file from where it was')


def run_backends(ctx):
    """every format, all sets of enabled backends, all orders of priorities and all sets of available modules"""
    number = 0
    for fid in FILE_FORMATS:
        able = [b for b, i in COMPRESSION_BACKENDS.items() if fid in i.formats]
        other = [b for b in COMPRESSION_BACKENDS if b not in able][:1]
        modules = sorted({m for b in able for m, _p in COMPRESSION_BACKENDS[b].requiredModules})
        names = able + other + ['unknown']
        for present in itertools.chain.from_iterable(itertools.combinations(modules, k) for k in range(len(modules) + 1)):
            with mock.patch.dict(sys.modules):
                for m in modules:
                    sys.modules.pop(m, None)
                    if m in present:
                        sys.modules[m] = mock.Mock()
                for enabled in [None] + [list(x) for k in range(len(able) + 1) for x in itertools.combinations(able, k)]:
                    for prio in [None] + [list(x) for k in range(3 if not ctx.thorough else 4) for x in itertools.permutations(names, k)]:
                        number += 1
                        with ctx.case({'format': fid.name, 'present': present, 'enabled': enabled, 'priorities': prio}) as c:
                            usable = [b for b in able if (enabled is None or b in enabled) and all(m in present for m, _p in COMPRESSION_BACKENDS[b].requiredModules)]
                            order = [b for b in prio or [] if b in usable] + usable
                            got = find_available_backend(fid, enabled, prio)
                            c.equal([b for b, i in COMPRESSION_BACKENDS.items() if i is got], order[:1], 'the first usable backend in the given order')


class Stub(MountSource):
    def __init__(self, name):
        self.name = name

    def __exit__(self, *a):
        pass

    is_immutable = list = lookup = open = versions = None


Stub.__abstractmethods__ = frozenset()


def run_order(ctx):
    """opening with stand-ins for the archive backends, which leave the file at any position, return nothing or raise"""
    c17.quiet()
    rng = ctx.rng
    for number in range(ctx.budget(5000, 100000)):
        if ctx.out_of_time():
            return
        names = rng.sample(['tarfile', 'zipfile', 'rarfile', 'libarchive', 'ar'], rng.choice((1, 2, 3, 5)))
        fids = [FID.GZIP, FID.ZIP, FID.RAR, FID.AR]
        passed = {f: rng.random() < 0.5 for f in fids}
        wanted = {n: set(rng.sample(fids, rng.choice((0, 1, 2)))) for n in names}
        does = {n: rng.choice(('opens', 'nothing', 'raises', 'opens')) for n in names}
        delegated = {'rapidgzip': rng.choice(names), 'other': 'gone'}
        prio = [rng.choice(names + ['rapidgzip', 'other', 'unknown']) for _ in range(rng.choice((0, 0, 1, 2, 4)))]
        by_extension = rng.choice(('x', 'a.gz', 'b.ZIP', 'x.tar.gz', 'gz'))
        log, start = [], rng.choice((0, 3))
        start = 0
        file = io.BytesIO(b'0123456789')

        def make(n):
            def opens(f, **options):
                log.append(n)
                if f is not file or f.tell() != start:
                    log.append('position')
                f.seek(rng.randrange(10))
                if does[n] == 'raises':
                    raise ValueError(n)
                if does[n] == 'nothing':
                    f.seek(0)
                    return None
                return Stub(n)
            return opens

        backends = {n: ArchiveBackendInfo(make(n), wanted[n], []) for n in names}
        packers = {n: CompressionBackendInfo(lambda f: f, {FID.GZIP}, [], d) for n, d in delegated.items()}
        with ctx.case({'names': names, 'passed': [f.name for f in passed if passed[f]], 'wanted': {n: [f.name for f in w] for n, w in wanted.items()}, 'does': does, 'delegated': delegated,
                       'priorities': prio, 'name': by_extension, 'case': number}) as c:
            checks = []

            def check(f, fid):
                if f.tell() != start:
                    checks.append(fid)
                return passed[fid]
            with mock.patch.object(factory, 'ARCHIVE_BACKENDS', backends), mock.patch.object(factory, 'COMPRESSION_BACKENDS', packers), mock.patch.object(
                    factory, 'might_be_format', check):
                low = by_extension.lower()
                fits = lambda w: any(low.endswith('.' + e.lower()) for f in w for e in FILE_FORMATS[f].extensions)  # noqa: E731
                order = [delegated.get(n, n) for n in prio] + [n for n in names if fits(wanted[n])] + [d for d in delegated.values() if fits({FID.GZIP})] + names
                tried, want = [], None
                for n in dict.fromkeys(order):
                    if n not in names or (wanted[n] and not any(passed[f] for f in wanted[n])):
                        continue
                    tried.append(n)
                    if does[n] == 'opens':
                        want = n
                        break
                try:
                    got = factory.open_mount_source(file, prioritizedBackends=prio, tarFileName=by_extension).name
                except Exception as e:  # pylint: disable=broad-except
                    got = None
                    c.equal(type(e).__name__, 'CompressionError', 'only this error is raised')
                c.equal((log, got), (tried, want), 'the backends are tried in order, only when their format check passed, at the start of the file')
                c.equal(checks, [], 'every check begins at the start of the file')


def matching(pattern, name):
    """where a suffix of the name matches the glob pattern"""
    p = pattern if pattern.startswith('.') else '.' + pattern
    return [k for k in range(len(name)) if name[k] == '.' and fnmatch.fnmatchcase(name[k:].lower(), p.lower())]


def run_suffixes(ctx):
    rng = ctx.rng
    known = sorted(formats.EXTENSIONS_BY_CATEGORY['all'] if hasattr(formats, 'EXTENSIONS_BY_CATEGORY') else compressions.EXTENSIONS_BY_CATEGORY['all'])
    rules = compile_suffix_rules(['/all/'])
    for number in range(ctx.budget(3000, 200000)):
        if ctx.out_of_time():
            return
        stem = rng.choice(('', 'a', 'a.b', '.hidden', 'tar', 'x.unknown', 'ä\n', 'a.tar.b'))
        ext = ''.join('.' + rng.choice(known + ['unknown', 'x', 'gz', 'tar', 'TAR', 'tar.gz', 'tar.bz2']) for _ in range(rng.choice((0, 1, 1, 2, 3))))
        folder = rng.choice(('', '/', '/x.tar/', 'y.gz/z/', './'))
        name = stem + ext
        if not name:
            continue
        with ctx.case({'path': folder + name}) as c:
            got = strip_suffix(folder + name, rules)
            c.check(got.startswith(folder), 'folders are left alone', result=got)
            rest = got[len(folder):]
            removed = name[len(rest):]
            c.check(name.startswith(rest) and (not removed or (removed[0] == '.' and removed[1:].lower() in {k.lower() for k in known})),
                    'at most one suffix is removed, and it is a known one', result=got, removed=removed)
            if not removed:
                c.check(not any(name.lower().endswith('.' + k.lower()) for k in known), 'a known suffix is removed', result=got)
    # rules given by the user: the last matching one decides
    for number in range(ctx.budget(5000, 100000)):
        if ctx.out_of_time():
            return
        patterns = [rng.choice(('gz', 'tar.gz', 't*', '.x', '*', 'z?p', 'tar')) + '/-' * rng.choice((0, 0, 1, 2)) for _ in range(rng.choice((1, 2, 3)))]
        name = rng.choice(('a', '', '.a')) + ''.join('.' + rng.choice(('gz', 'tar', 'GZ', 'x', 'zip', 'y', 't')) for _ in range(rng.choice((0, 1, 2, 3))))
        if not name:
            continue
        with ctx.case({'patterns': patterns, 'name': name}) as c:
            got = strip_suffix('d.gz/' + name, compile_suffix_rules(patterns))
            decided = [('/-' * (p.count('/-')), p) for p in patterns if matching(p.replace('/-', ''), name)]
            if not decided or decided[-1][0].count('/-') % 2:
                c.equal(got, 'd.gz/' + name, 'names that match no pattern or an excluding one last are left alone')
            else:
                c.check(got != 'd.gz/' + name, 'names that match an including pattern last are stripped', result=got)


def run_single(ctx):
    """compressed files that are no archives are shown as one file with the suffix removed"""
    c17.quiet()
    rng = ctx.rng
    pack = {'gz': gzip.compress, 'bz2': bz2.compress, 'xz': lzma.compress, 'zlib': zlib.compress, 'lzma': lambda d: lzma.compress(d, lzma.FORMAT_ALONE)}
    for number in range(ctx.budget(60, 2000)):
        if ctx.out_of_time():
            return
        suffix = rng.choice(('gz', 'bz2', 'xz', 'zlib'))
        stem = rng.choice(('a', 'a.txt', 'ä b', 'a.b.c'))
        data = rng.choice((b'some text\n' * 50, rng.randbytes(3000), b'x'))
        named, as_file = rng.random() < 0.7, rng.random() < 0.4
        with ctx.case({'suffix': suffix, 'stem': stem, 'size': len(data), 'suffix is kept': named, 'file object': as_file, 'case': number}) as c:
            path = os.path.join(ctx.tmp(), stem + ('.' + suffix if named else '.unknown'))
            with open(path, 'wb') as f:
                f.write(pack[suffix](data))
            source, options = path, {'writeIndex': False, 'indexFilePath': ':memory:'}
            if as_file:
                source, options = open(path, 'rb'), {**options, 'tarFileName': os.path.basename(path)}
            try:
                ms = factory.open_mount_source(source, **options)
            except Exception as e:  # pylint: disable=broad-except
                c.check(False, 'the file can be mounted', error=repr(e))
                continue
            try:
                names = list(ms.list('/'))
                c.equal(len(names), 1, 'one file', names=names)
                c.check(not named or names[0] in (stem, os.path.basename(path)), 'named like the archive', name=names[0])
                i = ms.lookup('/' + names[0])
                c.equal((i.size, stat.S_ISREG(i.mode)), (len(data), True), 'it is a file of the size of its contents', name=names[0])
                with ms.open(i) as f:
                    c.equal(f.read(), data, 'the contents', name=names[0])
                    f.seek(len(data) // 2)
                    c.equal(f.read(), data[len(data) // 2:], 'the contents from a position on', name=names[0])
            finally:
                ms.__exit__(None, None, None)
                if as_file:
                    source.close()


ORACLES = [
    Oracle('compressed files', run_single, [factory.open_mount_source], '60 (2000) compressed files in 4 formats', quick_s=25),
    Oracle('detection', run_detection, [might_be_format, detect_formats, detect_compression] + [i.checkHeader for i in FILE_FORMATS.values() if i.checkHeader and getattr(i.checkHeader, '__module__', '') == 'ratarmountcore.formats'],
           '5000 (60000) real, truncated and damaged files of all formats from any start position, with read errors', quick_s=25),
    Oracle('backends', run_backends, [find_available_backend], 'all formats, sets of enabled backends and modules, up to 2 (3) priorities: exhaustive', quick_s=15),
    Oracle('order', run_order, [factory.open_mount_source, factory.find_backends_by_extension], '5000 (100000) random sets of up to 5 archive backends', quick_s=15),
    Oracle('suffixes', run_suffixes, [strip_suffix, compile_suffix_rules], '4500 (300000) random names and rules', quick_s=15),
]
UNITS = [
    Unit('might_be_format', unit_might_be_format, [might_be_format]),
    Unit('detect_formats', unit_detect_formats, [detect_formats]),
    Unit('detect_compression', unit_detect_compression, [detect_compression]),
]
TRUSTED = ['the compression backends (rapidgzip, bz2, lzma, zstandard) decode what they are given']
ASSUMPTIONS = ['header checks of single formats are covered by runs']
