"""C24 AR and SQLAR members are mapped to their recorded contents.

Contracts on the loop that parses AR headers (one arbitrary header at an arbitrary position, in all variants of names), the conversion
into index rows and the opening of members; archives written by independent writers and by the system's ar and llvm-ar, and SQLAR
databases with arbitrary names, are compared member by member.
"""
import copy
import io
import os
import re
import sqlite3
import stat
import struct
import subprocess
import tarfile
import zlib

import z3

from checks import c17
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.ops import mk_bool, mk_int
from pyvc.values import Host, Model, Obj, PyRaise, SBool, SInt, SList, Unsupported, zb, zi
from ratarmountcore.mountsource.formats import ar, sqlar
from ratarmountcore.mountsource.formats.ar import ARMountSource
from ratarmountcore.mountsource.formats.sqlar import SQLARMountSource
from ratarmountcore.utils import RatarmountError

I = z3.IntSort()
A = 'ratarmountcore.mountsource.formats.ar:'


# ------------------------------------------------------------------------------------------------ parsing
class World:
    """the header at position p, as functions of p"""

    def __init__(self, vc):
        self.value = {f: vc.func(f, I, I) for f in ('mtime', 'uid', 'gid', 'mode', 'size', 'name size', 'index')}
        self.blank = {f: vc.func(f + ' is blank', I, z3.BoolSort()) for f in ('mtime', 'uid', 'gid', 'mode', 'size')}
        self.valid = {f: vc.func(f + ' is valid', I, z3.BoolSort()) for f in ('mtime', 'uid', 'gid', 'mode', 'size', 'end')}
        self.kind = ('short', 'symbols', 'table', 'bsd', 'reference')[vc.pick(5)]

    def number(self, vc, f, p):
        v = self.value[f](p)
        vc.assume(v >= 0)
        return v


class Header(Model):
    pytype = bytes

    def __init__(self, w, p, length):
        self.w, self.p, self.length = w, p, length

    def len(self, vc):
        return mk_int(self.length)

    def truth(self, vc):
        return self.length > 0


class Field(Model):
    pytype = bytes

    def __init__(self, w, name, p, stripped=False):
        self.w, self.name, self.p, self.stripped = w, name, p, stripped

    def m_strip(self, vc, *chars):
        return Field(self.w, self.name, self.p, True)

    def truth(self, vc):
        if not self.stripped:
            return z3.BoolVal(True)
        return z3.Not(self.w.blank[self.name](self.p))

    def eq(self, vc, o):
        if self.name == 'end' and o == b'`\n':
            return mk_bool(self.w.valid['end'](self.p))
        raise Unsupported('comparison of a field')


class Regex(Model):
    def __init__(self, pattern):
        self.pattern = pattern

    def m_fullmatch(self, vc, s):
        if not isinstance(s, Field) or s.name == 'end':
            raise Unsupported('match of ' + repr(s))
        vc.prove(self.pattern == b'[0-9]* *' and not s.stripped, 'fields are digits followed by spaces')
        return mk_bool(self.w_valid(s))

    def w_valid(self, s):
        return s.w.valid[s.name](s.p)


class Name(Model):
    """the name field without padding"""

    pytype = bytes

    def __init__(self, w, p, stripped=False):
        self.w, self.p, self.stripped = w, p, stripped

    def m_rstrip(self, vc, chars=None):
        vc.prove(chars is not None and set(chars) == {0, 32}, 'the padding is removed')
        return Name(self.w, self.p, True)

    def m_strip(self, vc, chars=None):
        vc.prove(chars is not None and set(chars) <= ({0, 32} if self.stripped else {0}), 'nothing but padding is removed from names')
        return self

    def eq(self, vc, o):
        if o in (b'/', b'//') and self.stripped:
            return self.w.kind == {b'/': 'symbols', b'//': 'table'}[o]
        raise Unsupported('comparison of the name')

    def m_startswith(self, vc, prefix):
        if prefix == b'#1/':
            return self.w.kind == 'bsd'
        if prefix == b'/':
            return self.w.kind in ('reference', 'symbols', 'table')
        raise Unsupported('startswith')

    def getslice(self, vc, lo, hi, step=None):
        if (lo, hi) == (3, None) and self.w.kind == 'bsd':
            return Digits(self.w, 'name size', self.p)
        if (lo, hi) == (1, None):
            return Digits(self.w, 'index', self.p)
        raise Unsupported('slice of the name')


class Digits(Model):
    pytype = bytes

    def __init__(self, w, field, p):
        self.w, self.field, self.p = w, field, p

    def m_isdigit(self, vc):
        return self.field != 'index' or self.w.kind == 'reference'


class Blob(Model):
    """bytes of the file"""

    pytype = bytes

    def __init__(self, start, length, find=None):
        self.start, self.length, self.finds = start, length, find

    def len(self, vc):
        return mk_int(self.length)

    def truth(self, vc):
        return self.length > 0

    def m_find(self, vc, what, at=0):
        r = self.finds[what](zi(at))
        vc.assume(z3.Or(r == -1, z3.And(r >= zi(at), r < self.length)))
        return mk_int(r)

    def getslice(self, vc, lo, hi, step=None):
        a, b = (z3.IntVal(0) if lo is None else zi(lo)), (self.length if hi is None else zi(hi))
        vc.prove(z3.And(a >= 0, b >= 0), 'slices count from the start')
        return Blob(self.start + a, z3.If(b > a, b - a, 0))

    def m_startswith(self, vc, prefix):
        return False

    def m_strip(self, vc, chars=None):
        vc.prove(chars is not None and set(chars) <= {0}, 'nothing but padding is removed from long names')
        return self

    def eq(self, vc, o):
        raise Unsupported('comparison of contents')


class File(Model):
    def __init__(self, vc, w, total, finds):
        self.w, self.total, self.finds, self.position = w, total, finds, z3.IntVal(0)
        self.magic = None

    def m_tell(self, vc):
        return mk_int(self.position)

    def m_seek(self, vc, offset, whence=0):
        if whence not in (0, 1):
            raise Unsupported('whence')
        self.position = zi(offset) + (self.position if whence == 1 else 0)
        vc.prove(self.position >= 0, 'no position before the start')
        vc.log_write(self, 'position')
        return mk_int(self.position)

    def m_read(self, vc, n=-1):
        p = self.position
        left = z3.If(self.total > p, self.total - p, 0)
        got = z3.simplify(z3.If(zi(n) < left, zi(n), left))
        if isinstance(n, int) and n == 8 and self.magic is not None:
            m, self.magic, self.position = self.magic, None, p + 8
            return m
        self.position = p + got
        vc.log_write(self, 'position')
        if isinstance(n, int) and n == 60:
            return Header(self.w, p, got)
        return Blob(p, got, self.finds)


class Files(Model):
    """the members so far"""

    pytype = list

    def __init__(self, vc, w, log):
        self.w, self.log = w, log
        self.serial = None

    def m_append(self, vc, info):
        self.log.append(info)

    def iterate(self, vc):
        w, at = copy.copy(self.w), vc.nat('earlier').z
        w.kind = ('short', 'reference')[vc.pick(2)]
        e = vc.new(Obj(tarfile.TarInfo, {'name': Name(w, at, True), 'linkname': '', 'kind': w.kind, 'at': at}, 'earlier'))
        self.log.append(('earlier', e))
        return SList(items=[e])


def unit_parse(thin):
    def run(vc):
        w = World(vc)
        total = vc.nat('total').z
        finds = {b'/\n': vc.func('slash newline', I, I), b'\0': vc.func('null', I, I)}
        file = File(vc, w, total, finds)
        file.magic = b'!<thin>\n' if thin else b'!<arch>\n'
        g, log, state = vc.nat('header').z, [], {'n': 0}
        has_table = vc.choose('there is a table of names')
        table = Blob(vc.nat('table').z, vc.nat('table length').z, finds) if has_table else None
        if has_table:
            vc.assume(table.length > 0)

        def resolved(name, table_, p):
            """what a reference stands for"""
            i = w.number(vc, 'index', p)
            e = [finds[t](i) for t in (b'/\n', b'\0')]
            end = z3.If(e[0] >= 0, z3.If(z3.And(e[1] >= 0, e[1] < e[0]), e[1], e[0]), z3.If(e[1] >= 0, e[1], table_.length))
            if isinstance(name, Name):
                return i >= table_.length
            return z3.And(i < table_.length, name.start == table_.start + i, name.length == end - i)

        def inv(vc, L):
            state['n'] += 1
            if state['n'] == 1:
                return [('the first header follows the magic bytes', file.position == 8)]
            if state['n'] == 2:
                return [('at a header', z3.And(file.position == g, g >= 8))]
            size = z3.If(w.blank['size'](g), 0, w.number(vc, 'size', g))
            facts = []
            if w.kind in ('symbols', 'table') or not thin:
                facts.append(('the next header is behind the padded contents', z3.Or(file.position == g + 60 + size + size % 2, z3.And(w.kind == 'table', file.position >= total, g + 60 + size > total))))
            else:
                facts.append(('the next header follows directly', file.position == g + 60))
            members = [x for x in log if not isinstance(x, tuple)]
            facts.append(('every member is listed once', len(members) == (0 if w.kind in ('symbols', 'table') else 1)))
            for m in members:
                f = m.fields
                name_size = w.number(vc, 'name size', g) if w.kind == 'bsd' else z3.IntVal(0)
                for k in ('mtime', 'uid', 'gid'):
                    facts.append((k, zi(f[k]) == z3.If(w.blank[k](g), 0, w.value[k](g))))
                base, mode = z3.If(w.blank['mode'](g), 0o660, w.number(vc, 'mode', g)), zi(f['mode'])
                vc.assume(z3.Or(base < 0o10000, base / 0o10000 == 8))
                facts.append(('permissions', mode % 0o10000 == base % 0o10000))
                facts.append(('a regular file, or a link in a thin archive', mode / 0o10000 == (10 if thin else 8)))
                facts.append(('size', zi(f['size']) == size - name_size))
                facts.append(('contents', z3.And(zi(f['offset_data']) == g + 60 + name_size, zi(f['offset']) == g)))
                n = f['name']
                if thin:
                    facts.append(('members of thin archives are links', f.get('type') == tarfile.SYMTYPE if has_table else True))
                elif w.kind == 'bsd':
                    facts.append(('BSD long name', z3.And(n.start == g + 60, n.length == name_size) if isinstance(n, Blob) else False))
                elif w.kind == 'reference' and has_table:
                    facts.append(('GNU long name', resolved(n, table, g)))
                else:
                    facts.append(('short name', isinstance(n, Name)))
            for tag, e in [x for x in log if isinstance(x, tuple)]:
                n, t = e.fields['linkname' if thin else 'name'], L.long_names
                if not isinstance(t, Blob):
                    raise Unsupported('table of names')
                vc.assume(t.length >= 0)
                if e.fields['kind'] == 'reference':
                    facts.append(('names of earlier members', z3.Or(t.length == 0, resolved(n, t, e.fields['at']))))
                else:
                    facts.append(('names of earlier members', isinstance(n, Name)))
            return facts

        def forget(vc):
            file.position = g
            log.clear()

        def unpack(vc, fmt, data):
            vc.prove(fmt == '16s12s6s6s8s10s2s' and isinstance(data, Header), 'the layout of the header')
            return (Name(w, data.p),) + tuple(Field(w, k, data.p) for k in ('mtime', 'uid', 'gid', 'mode', 'size', 'end'))

        def to_int(vc, x, base=10):
            if isinstance(x, Digits):
                return mk_int(w.number(vc, x.field, x.p))
            if not isinstance(x, Field):
                raise Unsupported('int of ' + repr(x))
            vc.prove(base == (8 if x.name == 'mode' else 10), 'modes are octal, everything else decimal')
            return mk_int(w.number(vc, x.name, x.p))

        interp = Interp(vc, models={struct.unpack: unpack, int: to_int, re.compile: lambda vc, p, *a: Regex(p), tarfile.TarInfo: lambda vc, *a: vc.new(Obj(tarfile.TarInfo, {}, 'info'))},
                        loops={(A + '_parse_ar_archive', 0): LoopSpec(inv, havoc={'files': lambda vc, L: Files(vc, w, log), 'long_names': lambda vc, L: table},
                                                                      heap=lambda vc, L: [(file, 'position', forget)])})
        kind, r = attempt(lambda: interp.run_function(ar._parse_ar_archive, [file]))
        if kind == 'exc':
            bad = [z3.Not(w.valid[k](g)) for k in w.valid] + [total - g < 60]
            if w.kind == 'bsd':
                bad.append(g + 60 + w.value['name size'](g) > total)
            vc.prove(z3.Or(bad), f'only damaged archives are refused (got {r.cls.__name__} at {r.where})')
            return
        vc.prove(file.position >= total, 'the archive is read to its end')
    return run


def unit_row(vc):
    name, path = ((b'n', ('', 'n')), (b'a/b', ('/a', 'b')), (b'x/', ('', 'x')), (b'./y', ('', 'y')), (b'\xff', ('', '\udcff')))[vc.pick(5)]
    thin = vc.choose('thin')
    f = {k: vc.nat(k) for k in ('offset', 'offset_data', 'size', 'mtime', 'mode', 'uid', 'gid')}
    vc.assume(f['mode'].z / 0o10000 == (10 if thin else 8))
    info = vc.new(Obj(tarfile.TarInfo, {**f, 'name': name, 'linkname': b'target' if thin else '', 'type': tarfile.SYMTYPE if thin else tarfile.REGTYPE}, 'info'))

    class Index(Model):
        def a_encoding(self, vc):
            return 'utf-8'

    me = vc.new(Obj(ARMountSource, {'index': Index(), 'transform': Host(lambda vc, x: x)}, 'ar'))
    interp = Interp(vc, models={tarfile.TarInfo.issym: lambda vc, i: i.fields['type'] == tarfile.SYMTYPE, tarfile.TarInfo.isdir: lambda vc, i: i.fields['type'] == tarfile.DIRTYPE})
    kind, r = attempt(lambda: interp.run_function(ARMountSource._convert_to_row, [me, info]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    r = list(r)
    vc.prove(tuple(r[:2]) == path, 'folder and name')
    for k, n in enumerate(('offset', 'offset_data', 'size', 'mtime', 'mode')):
        vc.prove(zi(r[2 + k]) == f[n].z, n)
    vc.prove(z3.And(zi(r[9]) == f['uid'].z, zi(r[10]) == f['gid'].z), 'owner and group')
    vc.prove(r[8] == ('target' if thin else ''), 'link target')
    vc.prove(tuple(bool(x) if not isinstance(x, int) else x for x in r[11:]) == (False, False, False, 0), 'neither sparse nor generated nor nested')


def unit_open(vc):
    offset, size, header = vc.nat('offset'), vc.nat('size'), vc.nat('header')
    link, buffering = vc.choose('link'), (0, -1, 4096)[vc.pick(3)]
    made = []
    archive, lock = Host(lambda vc: None, 'archive'), Host(lambda vc: None, 'lock')

    def stencil(vc, parts, lock_=None, bufferSize=None, **k):
        parts = [tuple(p.items) if isinstance(p, SList) else tuple(p) for p in (parts.items if isinstance(parts, SList) else parts)]
        vc.prove(len(parts) == 1 and parts[0][0] is archive and lock_ is lock, 'one part of the archive, under its lock')
        vc.prove(z3.And(zi(parts[0][1]) == offset.z, zi(parts[0][2]) == size.z), 'exactly the bytes of the member')
        made.append(1)
        return 'file'

    from ratarmountcore.mountsource import FileInfo
    from ratarmountcore.SQLiteIndex import SQLiteIndexedTarUserData
    userdata = vc.new(Obj(SQLiteIndexedTarUserData, {'offset': offset, 'offsetheader': header, 'istar': False, 'issparse': False, 'isgenerated': False, 'recursiondepth': 0}, 'userdata'))
    info = vc.new(Obj(FileInfo, {'mode': 0o120644 if link else 0o100644, 'size': size, 'userdata': vc.new(SList(items=[userdata])), 'linkname': ''}, 'info'))
    me = vc.new(Obj(ARMountSource, {'fileObject': archive, 'fileObjectLock': lock, 'blockSize': vc.nat('block')}, 'ar'))
    interp = Interp(vc, models={ar.StenciledFile: stencil, ar.RawStenciledFile: stencil})
    kind, r = attempt(lambda: interp.run_function(ARMountSource.open, [me, info, buffering]))
    if kind == 'exc':
        vc.prove(link, f'only links are refused (got {r.cls.__name__} at {r.where})')
        return
    vc.prove(not link and r == 'file' and made == [1], 'the member is opened')


# ------------------------------------------------------------------------------------------------ oracles
def write_ar(rng, members, variant):
    """members: [(name, data, mtime, uid, gid, mode)]"""
    out, table, refs = b'!<arch>\n', b'', {}
    end = b'\0' if variant == 'coff' else b'/\n'
    if variant in ('gnu', 'coff'):
        for name, *_ in members:
            if len(name) > 15 or (rng.random() < 0.2 and name) or (variant == 'coff' and len(name) > 14):
                refs.setdefault(name, len(table))
                if refs[name] == len(table):
                    table += name + end

    def record(field, data, mtime, uid, gid, mode):
        number = lambda n, width, fmt: (fmt % n if n is not None else '').encode().ljust(width)  # noqa: E731
        r = field.ljust(16) + number(mtime, 12, '%d') + number(uid, 6, '%d') + number(gid, 6, '%d') + number(mode, 8, '%o') + number(len(data), 10, '%d') + b'`\n' + data
        return r + (b'\n' if len(data) % 2 else b'')
    parts = []
    if rng.random() < 0.3:
        parts.append(record(b'/', b'\0\0\0\1symbols' + b'x' * rng.randrange(3), 0, 0, 0, 0))
    if table:
        if rng.random() < 0.5 and len(table) % 2:
            table += b'\n'
        parts.append(record(b'//', table, None, None, None, None))
    late = rng.random() < 0.2
    for name, data, *rest in members:
        if variant == 'bsd':
            if len(name) > 16 or b' ' in name or rng.random() < 0.2:
                pad = rng.choice((0, 0, 1, 3))
                field, data = b'#1/%d' % (len(name) + pad), name + b'\0' * pad + data
            else:
                field = name
        elif name in refs:
            field = b'/%d' % refs[name]
        else:
            field = name + b'/'
        parts.append(record(field, data, *rest))
    if late and table and variant == 'gnu':
        parts.append(parts.pop(next(k for k, p in enumerate(parts) if p.startswith(b'//'))))
    return out + b''.join(parts)


def check_members(c, path, want):
    """want: {path: (data, mtime, uid, gid, permissions)}"""
    try:
        ms = ARMountSource(path, writeIndex=False)
    except Exception as e:  # pylint: disable=broad-except
        c.check(False, 'the archive can be opened', error=repr(e))
        return
    try:
        found, todo = {}, ['/']
        while todo:
            folder = todo.pop()
            for n, i in (ms.list(folder) or {}).items():
                p = folder.rstrip('/') + '/' + n
                if stat.S_ISDIR(i.mode):
                    todo.append(p)
                else:
                    found[p] = i
        c.equal(sorted(found), sorted(want), 'exactly the recorded members')
        for p, (data, mtime, uid, gid, mode) in want.items():
            i = ms.lookup(p)
            c.check(i is not None and i == found[p], 'listed members can be looked up', name=p)
            c.equal((i.size, i.mtime, i.uid, i.gid, i.mode & 0o7777, stat.S_IFMT(i.mode)), (len(data), mtime, uid, gid, mode, stat.S_IFREG), 'the recorded attributes', name=p)
            with ms.open(i) as f:
                c.equal(f.read(), data, 'its own bytes', name=p)
    finally:
        ms.__exit__(None, None, None)


def run_ar(ctx):
    c17.quiet()
    rng = ctx.rng
    for number in range(ctx.budget(400, 20000)):
        if ctx.out_of_time():
            return
        variant = rng.choice(('gnu', 'gnu', 'bsd', 'coff'))
        members = {}
        for _ in range(rng.choice((0, 1, 2, 3, 6))):
            n = rng.choice((1, 3, 13, 14, 15, 16, 17, 30, 200))
            name = ''.join(rng.choice('abc.-_09äé \n#') for _ in range(n)).strip('' if n >= 17 else ' \n') or 'x'
            name = name.encode()[:n] if n < 17 or rng.random() < 0.5 else name.encode() + b'\xff\x80'
            name = name.strip(b'' if n >= 17 else b' \n') or b'y'
            if n >= 17 and rng.random() < 0.2:
                name = rng.choice((b' ' + name, name + b' ', b' ' + name + b'  '))
            if n >= 17 and rng.random() < 0.2:
                name = b'folder/' + name
            if name.isdigit() or b'/\n' in name or name in (b'.', b'..') or name.startswith((b'#1/', b'/')) or (variant == 'bsd' and b'/' in name):
                continue
            members[name] = (name, rng.randbytes(rng.choice((0, 1, 2, 59, 60, 61, 513, 4097))), rng.choice((0, 1, 2 ** 31, None, 999999999999)), rng.choice((0, 999999, None)), rng.choice((0, 7, None)),
                             rng.choice((0o644, 0o100755, 0, 0o4711, None)))
        with ctx.case({'members': [(n, len(m[1])) + m[2:] for n, m in members.items()], 'variant': variant, 'case': number}) as c:
            path = os.path.join(ctx.tmp(), 'a.ar')
            with open(path, 'wb') as f:
                f.write(write_ar(rng, list(members.values()), variant))
            shown = lambda n: '/' + (n.decode() if valid(n) else escaped(n))  # noqa: E731
            want = {shown(n): (d, t or 0, u or 0, g or 0, (0o660 if m is None else m) & 0o7777) for n, d, t, u, g, m in members.values()}
            check_members(c, path, want)


def valid(n):
    try:
        n.decode()
        return True
    except UnicodeDecodeError:
        return False


def escaped(n):
    from ratarmountcore.SQLiteIndex import SQLiteIndex

    return SQLiteIndex._escape_invalid_characters(n.decode('utf-8', 'surrogateescape'), 'utf-8')


def run_tools(ctx):
    """archives written by the system's archivers"""
    c17.quiet()
    rng = ctx.rng
    tools = [[t] + a for t in ('/usr/bin/ar', '/usr/bin/llvm-ar-18', '/usr/bin/llvm-ar') if os.path.exists(t)
             for a in ([['rc'], ['rcU']] if t == '/usr/bin/ar' else [['--format=gnu', 'rc'], ['--format=bsd', 'rc'], ['--format=gnu', 'rcU']])]
    for number in range(ctx.budget(60, 2000)):
        if ctx.out_of_time() or not tools:
            return
        tool = rng.choice(tools)
        tmp = ctx.tmp()
        files = {}
        for _ in range(rng.choice((1, 2, 5))):
            n = 'f' + ''.join(rng.choice('abc.-_09ä') for _ in range(rng.choice((1, 12, 13, 14, 15, 16, 17, 50)))) + rng.choice(('', ' z'))
            files[n] = rng.randbytes(rng.choice((0, 1, 2, 61, 5000)))
        with ctx.case({'tool': tool, 'files': {n: len(d) for n, d in files.items()}, 'case': number}) as c:
            for n, d in files.items():
                with open(os.path.join(tmp, n), 'wb') as f:
                    f.write(d)
                os.chmod(os.path.join(tmp, n), 0o640)
                os.utime(os.path.join(tmp, n), (5, 1234567890))
            subprocess.run(tool + ['out.ar'] + sorted(files), cwd=tmp, check=True, stderr=subprocess.DEVNULL)
            keeps = tool[-1] == 'rcU'
            me = (os.getuid(), os.getgid()) if keeps else (0, 0)
            want = {'/' + n: (d, 1234567890 if keeps else 0, *me, 0o640 if keeps else 0o644) for n, d in files.items()}
            check_members(c, os.path.join(tmp, 'out.ar'), want)


def run_sqlar(ctx):
    c17.quiet()
    rng = ctx.rng
    for number in range(ctx.budget(500, 20000)):
        if ctx.out_of_time():
            return
        tree = {}
        style = rng.choice(('plain', 'plain', 'implied', 'dotted', 'slashed'))
        for _ in range(rng.choice((1, 3, 6, 12))):
            parts = [rng.choice(('a', 'b', '*', '?', '[a]', 'a*', '[!a]', 'ab', "it's", 'ä\n', '%', '_', 'a b', ']', '[', '\\', '^')) for _ in range(rng.choice((1, 1, 2, 3)))]
            if any('/'.join(parts[:k]) in tree and tree['/'.join(parts[:k])][0] != 'dir' for k in range(1, len(parts))):
                continue
            name = '/'.join(parts)
            if name in tree:
                continue
            kind = rng.choice(('file', 'file', 'packed', 'link', 'dir'))
            tree[name] = (kind, rng.choice((b'', b'x', rng.randbytes(50), b'0' * 3000)))
            for k in range(1, len(parts)):
                tree.setdefault('/'.join(parts[:k]), ('dir' if style != 'implied' or rng.random() < 0.5 else 'implied', b''))
        for p in list(tree):
            if any(q.startswith(p + '/') for q in tree) and tree[p][0] not in ('dir', 'implied'):
                tree[p] = ('dir', b'')
        if not tree:
            continue
        with ctx.case({'tree': {n: (k, len(d)) for n, (k, d) in tree.items()}, 'style': style, 'case': number}) as c:
            path = os.path.join(ctx.tmp(), 'a.sqlar')
            db = sqlite3.connect(path)
            db.execute('CREATE TABLE sqlar(name TEXT PRIMARY KEY, mode INT, mtime INT, sz INT, data BLOB)')
            if style == 'dotted' and rng.random() < 0.5:
                db.execute('INSERT INTO sqlar VALUES(?,?,?,?,?)', ('.', 0o40755, 3, 0, None))
            for k, (n, (kind, d)) in enumerate(rng.sample(list(tree.items()), len(tree))):
                if kind == 'implied':
                    continue
                recorded = {'dotted': './' + n, 'slashed': n + ('/' if kind == 'dir' else '')}.get(style, n)
                packed = zlib.compress(d) if kind == 'packed' and len(zlib.compress(d)) < len(d) else d
                row = {'dir': (0o40750, 0, None), 'link': (0o120777, -1, 'target ' + str(k))}.get(kind, (0o100640, len(d), packed))
                db.execute('INSERT INTO sqlar VALUES(?,?,?,?,?)', (recorded, row[0], 1000 + k, row[1], row[2]))
            db.commit()
            db.close()
            if rng.random() < 0.3:
                with open(path, 'rb') as f:
                    data = io.BytesIO(f.read())
                ms = SQLARMountSource(data)
            else:
                ms = SQLARMountSource(path)
            try:
                folders = [''] + [n for n, (k, _d) in tree.items() if k in ('dir', 'implied')]
                for folder in folders:
                    want = sorted({n[len(folder) + 1:] if folder else n for n in tree if os.path.dirname(n) == folder})
                    for method in ('list', 'list_mode'):
                        got = getattr(ms, method)('/' + folder)
                        c.equal(sorted(got), want, 'exactly the direct children', folder=folder, method=method)
                        if isinstance(got, dict):
                            for n, x in got.items():
                                i = ms.lookup('/' + (folder + '/' if folder else '') + n)
                                c.check(i is not None and (x == i if method == 'list' else x == i.mode), 'listed entries are those that are looked up', folder=folder, name=n)
                for n, (kind, d) in tree.items():
                    i = ms.lookup('/' + n)
                    if i is None:
                        c.check(False, 'every entry can be looked up', name=n)
                        continue
                    c.equal(stat.S_IFMT(i.mode), {'dir': stat.S_IFDIR, 'implied': stat.S_IFDIR, 'link': stat.S_IFLNK}.get(kind, stat.S_IFREG), 'the recorded type', name=n)
                    if kind in ('file', 'packed'):
                        c.equal((i.size, i.mode), (len(d), 0o100640), 'the recorded attributes', name=n)
                        with ms.open(i) as f:
                            c.equal(f.read(), d, 'its own bytes', name=n)
                    c.check(kind != 'link' or i.linkname.startswith('target '), 'the recorded target', name=n)
                for n in ('nothing', 'a/nothing', '*/nothing', '*', '?', 'a/*'):
                    if n not in tree:
                        c.equal(ms.lookup('/' + n), None, 'nothing else exists', name=n)
            finally:
                ms.__exit__(None, None, None)


ORACLES = [
    Oracle('ar', run_ar, [ar._parse_ar_archive, ARMountSource._convert_to_row], '400 (20000) drawn archives in the GNU, BSD and COFF variants', quick_s=25),
    Oracle('archivers', run_tools, [ar._parse_ar_archive], "60 (2000) archives of the system's ar and llvm-ar", quick_s=25),
    Oracle('sqlar', run_sqlar, [SQLARMountSource.list, SQLARMountSource.list_mode, SQLARMountSource.lookup, SQLARMountSource.open], '500 (20000) drawn databases of up to 40 entries', quick_s=25),
]
ASSUMPTIONS = [
    'names of members before the one looked at are represented by one arbitrary entry',
    "members of thin archives are links named by the name table's index; SQLAR folders without own entry are implied by the names below them",
    'SQLite and rapidgzip return what the archive contains',
]
UNITS = [Unit('parse', unit_parse(False), [ar._parse_ar_archive]), Unit('parse[thin]', unit_parse(True), [ar._parse_ar_archive]),
         Unit('row', unit_row, [ARMountSource._convert_to_row]), Unit('open', unit_open, [ARMountSource.open, ARMountSource._open_stencil])]
