"""C29 ZIP, RAR, ASAR and libarchive members are mapped to what the archives record.

Contracts on the conversion of entries to index rows, on the traversal of ASAR headers, and on every way to ask a RAR archive for its
members, plus archives in every format written entry by entry here, compared with what went into them.
"""
import ctypes
import datetime
import io
import json
import os
import posixpath
import stat
import struct
import tarfile
import zipfile
import zlib

import z3

from checks import c17
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.ops import mk_bool, mk_int
from pyvc.values import Host, Model, Obj, PyRaise, SList, Unsupported, zi
from ratarmountcore import formats
from ratarmountcore.mountsource import FileInfo
from ratarmountcore.mountsource.formats import asar, libarchive, rar
from ratarmountcore.mountsource.formats.asar import ASARMountSource
from ratarmountcore.mountsource.formats.libarchive import ArchiveEntry, LibarchiveMountSource
from ratarmountcore.mountsource.formats.zip import ZipMountSource
from ratarmountcore.SQLiteIndex import SQLiteIndex, SQLiteIndexedTarUserData

I = z3.IntSort()
NORM = 'ratarmountcore.SQLiteIndex:SQLiteIndex.normpath'
LIB = 'ratarmountcore.mountsource.formats.libarchive:'
ASAR = 'ratarmountcore.mountsource.formats.asar:'
RAR = 'ratarmountcore.mountsource.formats.rar:'
TYPES = (stat.S_IFREG, stat.S_IFDIR, stat.S_IFLNK, stat.S_IFIFO, stat.S_IFCHR, stat.S_IFBLK, stat.S_IFSOCK)


# ------------------------------------------------------------------------------------------------ rows
class Text(Model):
    """an arbitrary name, and what was done to it"""

    pytype = str

    def __init__(self, what, folder=None):
        self.what, self.folder = what, folder

    def m_rsplit(self, vc, sep=None, maxsplit=-1):
        if (sep, maxsplit) != ('/', 1) or self.what != ('normal', ('transformed', 'name')):
            raise Unsupported('split of a name')
        return SList(items=['folder of it', 'base of it'])

    def m_endswith(self, vc, suffix):
        if suffix == '/' and self.what == 'name' and self.folder is not None:
            return self.folder
        raise Unsupported('end of a name')

    def truth(self, vc):
        return True

    def eq(self, vc, o):
        return mk_bool(isinstance(o, Text) and o.what == self.what)


TRANSFORM = Host(lambda vc, x: Text(('transformed', x.what)), 'transform')


def normal(interp, vc, x):
    if not isinstance(x, Text):
        raise Unsupported('path')
    return Text(('normal', x.what))


def check_row(vc, r, header=None, data=None, size=None, mtime=None, mode=None, link=None):
    r = list(r)
    vc.prove(len(r) == 15, 'a row of the index')
    vc.prove(r[0] == 'folder of it' and r[1] == 'base of it', 'folder and name are those of the transformed name')
    if header is not None:
        vc.prove(zi(r[2]) == header, 'its own number')
    if data is not None:
        vc.prove(zi(r[3]) == data, 'where its contents start')
    vc.prove(zi(r[4]) == size, 'size')
    if mtime is not None:
        vc.prove(zi(r[5]) == mtime, 'modification time')
    vc.prove(zi(r[6]) == mode, 'type and permissions')
    if link is not None:
        vc.prove(r[8] == link, 'link target')
    vc.prove(all(x is False or x == 0 for x in r[11:]), 'neither sparse nor generated nor nested')


class Bytes(Model):
    """contents that are a link target, in any encoding"""

    pytype = bytes

    def __init__(self, text):
        self.text = text

    def m_decode(self, vc, encoding='utf-8', errors='strict'):
        if errors not in ('surrogateescape', 'replace', 'ignore', 'backslashreplace') and vc.choose('it is not valid'):
            raise PyRaise(UnicodeDecodeError, (encoding, b'', 0, 1, 'invalid'))
        vc.prove(errors in ('strict', 'surrogateescape'), 'every byte of the target is kept')
        return self.text

    def truth(self, vc):
        return True


class Moment(Model):
    def __init__(self, t):
        self.t = t

    def m_timestamp(self, vc):
        return mk_int(self.t)


def dates(vc, valid, t):
    def make(vc, *parts, **k):
        vc.prove([zi(x).eq(zi(y)) for x, y in zip(parts, DATE)] == [True] * 6 and k.get('tzinfo') is datetime.timezone.utc, 'the recorded date, in UTC')
        if not valid:
            raise PyRaise(ValueError, ('day is out of range for month',))
        return Moment(t)
    return make


DATE = (1999, 12, 31, 23, 59, 58)


def unit_zip_row(vc):
    folder, dated, valid = vc.choose('folder'), vc.choose('dated'), vc.choose('valid date')
    attr, size, header, t = (vc.nat(k).z for k in ('attributes', 'size', 'header', 'time'))
    kind = (0,) + TYPES
    kind = kind[vc.pick(len(kind))]
    vc.assume((attr / 2 ** 28) * 0o10000 == kind)
    info = vc.new(Obj(zipfile.ZipInfo, {'date_time': SList(items=list(DATE), mutable=False) if dated else None, 'external_attr': mk_int(attr), 'filename': Text('name', folder), 'file_size': mk_int(size),
                                        'header_offset': mk_int(header)}, 'info'))

    class Archive(Model):
        def m_read(self, vc, i):
            vc.prove(i is info and kind == stat.S_IFLNK, 'only the targets of links are read')
            return Bytes('target')
    me = vc.new(Obj(ZipMountSource, {'fileObject': Archive(), 'transform': TRANSFORM}, 'zip'))
    interp = Interp(vc, contracts={NORM: normal}, models={datetime.datetime: dates(vc, valid, t), (zipfile.ZipInfo, 'is_dir'): lambda vc, i: folder, zipfile.ZipInfo.is_dir: lambda vc, i: folder})
    kind_, r = attempt(lambda: interp.run_function(ZipMountSource._convert_to_row, [me, info]))
    if kind_ == 'exc':
        vc.prove(False, f'one member does not make the archive unreadable (got {r.cls.__name__} at {r.where})')
        return
    link = kind == stat.S_IFLNK
    permissions = (attr / 2 ** 16) % 0o1000
    default = 0o770 if folder else 0o660
    mode = z3.If(permissions == 0, default, permissions) + (stat.S_IFLNK if link else stat.S_IFDIR if folder else stat.S_IFREG)
    check_row(vc, r, header=header, size=size, mtime=z3.If(z3.BoolVal(dated and valid), t, 0), mode=mode, link='target' if link else '')


def unit_asar_row(vc):
    kind = ('file', 'folder', 'link')[vc.pick(3)]
    offset, size, start = (vc.nat(k).z for k in ('offset', 'size', 'start of the contents'))
    digits = Text('digits')
    entry = {'file': {'offset': digits, 'size': mk_int(size), 'executable': True}, 'folder': {'files': {}}, 'link': {'link': 'd/t'}}[kind]
    path, link = (('/a', 'd/t'), ('//a', 'd/t'), ('/x//a', '../d/t'), ('//d/a', 't'), ('//d/e/f', '../t'))[vc.pick(5)] if kind == 'link' else (Text('name'), '')

    def number(vc, x=0, *a):
        if x is digits:
            return mk_int(offset)
        return x if not isinstance(x, str) else int(x)

    def relpath(vc, path, start):
        if not (isinstance(path, str) and isinstance(start, str)):
            raise Unsupported('relpath')
        return posixpath.relpath(path, start)

    def norm(interp, vc, x):
        return normal(interp, vc, x if isinstance(x, Text) else Text(('transformed', 'name')))
    me = vc.new(Obj(ASARMountSource, {'transform': Host(lambda vc, x: Text(('transformed', 'name')))}, 'asar'))
    interp = Interp(vc, contracts={NORM: norm}, models={int: number, posixpath.relpath: relpath})
    from pyvc.values import from_native
    kind_, r = attempt(lambda: interp.run_function(ASARMountSource._convert_to_row, [me, path, from_native(entry), mk_int(start)]))
    if kind_ == 'exc':
        vc.prove(False, f'every entry has a row (got {r.cls.__name__} at {r.where})')
        return
    mode = {'file': stat.S_IFREG, 'folder': stat.S_IFDIR, 'link': stat.S_IFLNK}[kind] | 0o777
    check_row(vc, r, data=start + offset if kind == 'file' else None, size=size if kind == 'file' else z3.IntVal(0), mtime=z3.IntVal(0), mode=z3.IntVal(mode), link=link)


class Entry(Model):
    """an entry of the header of an ASAR: a folder, a file, a link, or a file outside of the archive"""

    pytype = dict

    def __init__(self, kind, name, children=()):
        self.kind, self.name, self.children = kind, name, children

    def contains(self, vc, key):
        return key in {'folder': ('files',), 'file': ('offset', 'size'), 'link': ('link',), 'unpacked': ('size', 'unpacked'), 'unpacked folder': ('files', 'unpacked')}[self.kind]

    def getitem(self, vc, key):
        if key == 'files' and self.contains(vc, key):
            return Children(self.children)
        if key == 'unpacked' and self.contains(vc, key):
            return True
        raise PyRaise(KeyError, (key,))

    def m_get(self, vc, key, default=None):
        return self.getitem(vc, key) if self.contains(vc, key) else default


class Children(Model):
    pytype = dict

    def __init__(self, entries):
        self.entries = entries

    def m_items(self, vc):
        return SList(items=[SList(items=[e.name, e], mutable=False) for e in self.entries])


class Path(Model):
    pytype = str

    def __init__(self, parts):
        self.parts = parts

    def add(self, vc, x):
        return Path(self.parts + ((x.parts if isinstance(x, Path) else (x,))))

    def radd(self, vc, x):
        return Path((x.parts if isinstance(x, Path) else (x,)) + self.parts)


class Stack(Model):
    """entries to process: any number of others below the one looked at"""

    pytype = list

    def __init__(self, vc, w):
        self.w = w
        self.serial = None

    def truth(self, vc):
        return self.w.more

    def len(self, vc):
        raise Unsupported('length')

    def m_pop(self, vc, k=-1):
        if not vc.branch(self.w.more):
            raise PyRaise(IndexError, ('pop from empty list',))
        self.w.popped.append(self.w.entry)
        return SList(items=[self.w.path, self.w.entry], mutable=False)

    def take(self, items):
        for x in items:
            self.w.pushed.append(tuple(x.items) if isinstance(x, SList) else tuple(x))

    def iadd(self, vc, items):
        self.take(items.items)
        return self

    def add(self, vc, items):
        self.take(items.items)
        return self

    def m_extend(self, vc, items):
        self.take(items.items)

    def m_append(self, vc, x):
        self.take([x])


class Rows(Model):
    """rows that are not written yet"""

    pytype = list

    def __init__(self, vc, w):
        self.w, self.new, self.count = w, [], vc.nat('rows').z
        self.serial = None

    def add(self, vc, items):
        self.new += items.items
        self.count = self.count + len(items.items)
        return self

    iadd = add

    def m_extend(self, vc, items):
        self.add(vc, items)

    def m_append(self, vc, x):
        self.new.append(x)
        self.count = self.count + 1

    def len(self, vc):
        return mk_int(self.count)

    def truth(self, vc):
        return self.count > 0


def unit_asar_traverse(kinds):
    """one arbitrary step: the entry that is taken has these children"""
    def run(vc):
        class W:
            pass
        w = W()
        w.popped, w.pushed, written, pending = [], [], [], []
        children = [Entry(k, Path((f'child {n}',))) for n, k in enumerate(kinds)]
        w.entry, w.path, w.more = Entry('folder', None, children), Path(('path',)), vc.bool('more to process')
        root = Entry('folder', None, ())
        state = {'n': 0}
        start = vc.nat('start of the contents').z

        def convert(interp, vc, me, path, entry, offset):
            vc.prove(zi(offset) == start, 'offsets count from the start of the contents')
            return SList(items=[path, entry], mutable=False)

        class Index(Model):
            def m_set_file_infos(self, vc, rows):
                if isinstance(rows, Rows):
                    written.extend(rows.new)
                    rows.new = []
                    vc.prove(rows.count >= 0, 'rows')
                    state['flushed'] = rows
                else:
                    written.extend(rows.items)

        def rows_of(L):
            x = L.fileInfos
            return x.new if isinstance(x, Rows) else x.items

        def inv(vc, L):
            state['n'] += 1
            if state['n'] == 1:
                todo = [tuple(x.items) if isinstance(x, SList) else x for x in L.toProcess.items]
                return [('the root is processed first', len(todo) == 1 and todo[0][0] == '/' and todo[0][1] is root), ('the root has a row', [x.items[1] for x in L.fileInfos.items] == [root])]
            if state['n'] == 2:
                return []
            rows = [(x.items[0], x.items[1]) for x in written + list(rows_of(L))]
            wanted = [e for e in children if e.kind != 'unpacked']
            path_ok = lambda p, e: isinstance(p, Path) and p.parts == ('path', '/') + e.name.parts  # noqa: E731
            return [('every child that the archive contains gets exactly one row', sorted(map(id, (e for _p, e in rows))) == sorted(map(id, wanted))), ('rows have the full path', all(path_ok(p, e) for p, e in rows)),
                    ('every folder is processed later, exactly once', sorted(id(e) for _p, e in w.pushed) == sorted(id(e) for e in children if 'folder' in e.kind)),
                    ('under its full path', all(path_ok(p, e) for p, e in w.pushed)), ('one is taken', w.popped == [w.entry])]

        def fresh_rows(vc, L):
            written.clear()
            w.rows = Rows(vc, w)
            return w.rows
        me = vc.new(Obj(ASARMountSource, {'fileObject': 'file', '_headerOffset': vc.nat('offset'), '_headerSize': vc.nat('header size'), '_dataOffset': mk_int(start), 'index': Index()}, 'asar'))

        def stencil(vc, parts):
            p = tuple(parts.items[0].items) if isinstance(parts.items[0], SList) else parts.items[0]
            vc.prove(len(parts.items) == 1 and p[0] == 'file' and p[1] is me.fields['_headerOffset'] and p[2] is me.fields['_headerSize'], 'the header is read')
            return 'header'
        models = {asar.StenciledFile: stencil, json.load: lambda vc, f: root, json.loads: lambda vc, f: root}
        interp = Interp(vc, contracts={ASAR + 'ASARMountSource._convert_to_row': convert}, models=models,
                        loops={(ASAR + 'ASARMountSource._create_index', 0): LoopSpec(inv, havoc={'toProcess': lambda vc, L: Stack(vc, w), 'fileInfos': fresh_rows, 'children': None, 'prefix': None, 'entry': None})})
        kind, r = attempt(lambda: interp.run_function(ASARMountSource._create_index, [me]))
        if kind == 'exc':
            vc.prove(False, f'every header can be read (got {r.cls.__name__} at {r.where})')
            return
        vc.prove(z3.Or(z3.BoolVal(state.get('flushed') is w.rows), w.rows.count == 0), 'what is left is written at the end')
    return run


# ------------------------------------------------------------------------------------------------ the header of ASARs
def unit_asar_header(vc):
    a, b, c, d = (vc.nat(k).z for k in 'abcd')
    for x in (a, b, c, d):
        vc.assume(x < 2 ** 32)

    class File(Model):
        def m_read(self, vc, n=-1):
            vc.prove(n == 16, 'the first 16 bytes')
            return 'magic'

        def m_tell(self, vc):
            return vc.nat('start')

    def unpack(vc, fmt, data):
        vc.prove(fmt in ('<LLLL', '<4L', '<IIII', '<4I') and data == 'magic', 'four little-endian 32-bit numbers')
        return tuple(mk_int(x) for x in (a, b, c, d))
    kind, r = attempt(lambda: Interp(vc, models={struct.unpack: unpack}).run_function(formats.find_asar_header, [File()]))
    padded = d + (4 - d % 4) % 4
    is_one = z3.And(a == 4, b == c + 4, c == padded + 4)
    if kind == 'exc':
        vc.prove(z3.Not(is_one), f'every ASAR is recognised (got {r.cls.__name__} at {r.where})')
        return
    r = list(r)
    vc.prove(is_one, 'nothing else is')
    vc.prove(z3.And(zi(r[0]) == 16, zi(r[1]) == d, zi(r[2]) == 16 + padded), 'where the header is and where the contents start')


# ------------------------------------------------------------------------------------------------ libarchive
def unit_libarchive_row(vc):
    kind = ((0,) + TYPES)[vc.pick(len(TYPES) + 1)]
    linked = vc.choose('has a link target') if kind != stat.S_IFLNK else True
    known, named = vc.choose('size is recorded'), vc.choose('a name is given')
    size, permissions, number, t = (vc.nat(k).z for k in ('size', 'permissions', 'number', 'time'))
    vc.assume(permissions < 0o1000)
    special = vc.nat('setuid and such').z
    vc.assume(special < 8)
    reads = {'left': size, 'sum': z3.IntVal(0)}

    class Buffer(Model):
        def len(self, vc):
            return 1024 * 1024

    class Library(Model):
        def m_entry_size_is_set(self, vc, e):
            return int(known)

        def m_entry_size(self, vc, e):
            return mk_int(size)

        def m_read_data(self, vc, archive, buffer, n):
            vc.prove(archive == 'archive' and not known, 'contents are only read if the size is unknown')
            k = vc.nat('read').z
            vc.assume(z3.And(k <= size - reads['sum'], (k == 0) == (reads['sum'] == size)))
            reads['sum'] = reads['sum'] + k
            vc.log_write(self, 'sum')
            return mk_int(k)

        def m_entry_mode(self, vc, e):
            return mk_int(permissions + special * 0o1000 + kind)

        def m_entry_filetype(self, vc, e):
            return kind
    library = Library()

    def so_far(vc):
        reads['sum'] = vc.nat('read so far').z
        vc.assume(reads['sum'] <= size)
    contracts = {NORM: normal, LIB + 'ArchiveEntry.linkname': lambda interp, vc, me: Text('target') if linked else (None if vc.choose('none') else ''), LIB + 'ArchiveEntry.path': lambda interp, vc, me: Text('name'),
                 LIB + 'ArchiveEntry.get_time': lambda interp, vc, me: mk_int(t)}
    interp = Interp(vc, contracts=contracts, models={ctypes.create_string_buffer: lambda vc, n: Buffer()}, loops={(LIB + 'ArchiveEntry.convert_to_row', 0): LoopSpec(
        lambda vc, L: [('the size of what was read', zi(L.size) == reads['sum'])], heap=lambda vc, L: [(library, 'sum', so_far)], havoc={'readSize': None})})
    interp.global_values['laffi'] = library
    me = vc.new(Obj(ArchiveEntry, {'_archive': 'archive', '_entry': 'entry', '_fileInfoRow': None, 'entry_index': mk_int(number), 'encoding': 'utf-8', 'eof': False}, 'entry'))
    args = [me, mk_int(number), TRANSFORM] + ([Text('name')] if named else [])
    kind_, r = attempt(lambda: interp.run_function(ArchiveEntry.convert_to_row, args))
    if kind_ == 'exc':
        vc.prove(False, f'one member does not make the archive unreadable (got {r.cls.__name__} at {r.where})')
        return
    r = list(r)
    hard = linked and kind != stat.S_IFLNK and vc.branch(size == 0)
    mode = permissions + (0 if hard else kind or stat.S_IFREG)
    check_row(vc, r, header=number, size=size, mtime=t, mode=mode)
    target = r[8]
    vc.prove((isinstance(target, Text) and target.what == 'target') if hard or kind == stat.S_IFLNK else target == '', 'link target')
    again = attempt(lambda: interp.run_function(ArchiveEntry.convert_to_row, args))
    vc.prove(again[0] == 'ok' and all(x is y for x, y in zip(again[1], r)), 'asking again gives the same')


def unit_libarchive_time(vc):
    has = {k: vc.choose(k) for k in ('mtime', 'ctime', 'birthtime')}
    t = {k: vc.nat(k) for k in has}

    def by_name(interp, vc, me, name):
        return t[name] if has[name] else None
    me = vc.new(Obj(ArchiveEntry, {}, 'entry'))
    kind, r = attempt(lambda: Interp(vc, contracts={LIB + 'ArchiveEntry.get_time_by_name': by_name}).run_function(ArchiveEntry.get_time, [me]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    first = [t[k].z for k in has if has[k]]
    vc.prove(zi(r) == (first[0] if first else 0), 'the modification time, or else another one, or else 0')


class Strings(Model):
    """what libarchive returns for a string: wide (None if it cannot be converted), and bytes (None if there is none)"""

    def __init__(self, vc, log):
        self.log = log
        self.wide, self.raw = vc.choose('convertible'), vc.choose('there is one')

    def give(self, vc, name, wide):
        self.log.append(name)
        if wide:
            return Text(('wide', name)) if self.wide and self.raw else None
        return Bytes(Text(('wide', name))) if self.raw else None


def unit_libarchive_strings(function):
    def run(vc):
        log = []
        strings = Strings(vc, log)
        symbolic = vc.choose('symbolic link')

        class Library(Model):
            def m_entry_pathname_w(self, vc, e):
                return strings.give(vc, 'pathname', True)

            def m_entry_pathname(self, vc, e):
                return strings.give(vc, 'pathname', False)

            def m_entry_symlink_w(self, vc, e):
                return strings.give(vc, 'symlink', True)

            def m_entry_symlink(self, vc, e):
                return strings.give(vc, 'symlink', False)

            def m_entry_hardlink_w(self, vc, e):
                return strings.give(vc, 'hardlink', True)

            def m_entry_hardlink(self, vc, e):
                return strings.give(vc, 'hardlink', False)

            def m_entry_filetype(self, vc, e):
                return stat.S_IFLNK if symbolic else stat.S_IFREG
        me = vc.new(Obj(ArchiveEntry, {'_entry': 'entry', 'encoding': 'utf-8'}, 'entry'))
        interp = Interp(vc)
        interp.global_values['laffi'] = Library()
        kind, r = attempt(lambda: interp.run_function(getattr(ArchiveEntry, function), [me]))
        if kind == 'exc':
            vc.prove(False, f'one name does not make the archive unreadable (got {r.cls.__name__} at {r.where})')
            return
        which = 'pathname' if function == 'path' else 'symlink' if symbolic else 'hardlink'
        vc.prove(isinstance(r, Text) and r.what == ('wide', which) if strings.raw else not r, 'the recorded string, and always text')
    return run


# ------------------------------------------------------------------------------------------------ RAR
def unit_rar_info(vc):
    """the metadata of one member"""
    kind = ('file', 'folder', 'link')[vc.pick(3)]
    dated, valid = vc.choose('dated'), vc.choose('valid date')
    redirected, rar3 = vc.choose('refers to another file'), vc.choose('RAR3')
    size, mode, t = (vc.nat(k).z for k in ('size', 'mode', 'time'))

    class Info(Model):
        def m_is_symlink(self, vc):
            return kind == 'link'

        def m_is_dir(self, vc):
            return kind == 'folder'

        def m_is_file(self, vc):
            return kind == 'file'

        def a_mode(self, vc):
            return mk_int(mode)

        def a_file_size(self, vc):
            return mk_int(size)

        def a_date_time(self, vc):
            return SList(items=list(DATE), mutable=False) if dated else None

        def a_file_redir(self, vc):
            if kind == 'link':
                return None if rar3 else SList(items=[1, 0, 'target'], mutable=False)
            return SList(items=[4, 0, 'original'], mutable=False) if redirected and kind == 'file' else None
    info = Info()

    class Archive(Model):
        def m_read(self, vc, i):
            vc.prove(i is info and kind == 'link' and rar3, 'only the targets of links are read')
            return Bytes('target')
    me = vc.new(Obj(rar.RarMountSource, {'fileObject': Archive()}, 'rar'))
    interp = Interp(vc, models={datetime.datetime: dates(vc, valid, t), rar.get_userid: lambda vc: 1, rar.get_groupid: lambda vc: 2})
    kind_, r = attempt(lambda: interp.run_function(rar.RarMountSource._convert_to_file_info, [me, 'path', info]))
    if kind_ == 'exc':
        vc.prove(False, f'one member does not make the archive unreadable (got {r.cls.__name__} at {r.where})')
        return
    f = r.fields
    type_ = {'file': stat.S_IFREG, 'folder': stat.S_IFDIR, 'link': stat.S_IFLNK}[kind]
    vc.prove(zi(f['mode']) == mode % 0o10000 + type_, 'type and permissions')
    vc.prove(zi(f['size']) == size, 'size')
    vc.prove(zi(f['mtime']) == z3.If(z3.BoolVal(dated and valid), t, 0), 'modification time')
    vc.prove(f['linkname'] == ('target' if kind == 'link' else ''), 'link target')
    u = f['userdata'].items[-1]
    u = tuple(u.items) if isinstance(u, SList) else u
    vc.prove(u[1] is info, 'it is opened as itself')


def unit_rar_open(vc):
    info = vc.new(Obj(rar.rarfile.RarInfo, {}, 'info'))

    class Archive(Model):
        def m_open(self, vc, i, *a, **k):
            vc.prove(i is info, 'the member that was looked up')
            return 'file'
    fi = vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=[SList(items=['path', info], mutable=False)]))}, 'info'))
    me = vc.new(Obj(rar.RarMountSource, {'fileObject': Archive()}, 'rar'))
    kind, r = attempt(lambda: Interp(vc).run_function(rar.RarMountSource.open, [me, fi]))
    vc.prove(kind == 'ok' and r == 'file', 'the member is opened')


def unit_rar_lookup(vc):
    """versions: 0 is the newest, 1 the oldest, for any number of entries of that path"""
    n, version = vc.nat('entries').z, vc.int('version')
    entry = lambda k: mk_int(k)  # noqa: E731
    infos = SList(n, entry, True, 'infos')
    interp = Interp(vc, contracts={RAR + 'RarMountSource._lookups': lambda interp, vc, me, path: infos})
    me = vc.new(Obj(rar.RarMountSource, {}, 'rar'))
    kind, r = attempt(lambda: interp.run_function(rar.RarMountSource.versions, [me, '/a']))
    vc.prove(kind == 'ok', 'nothing is raised')
    vc.prove(zi(r) == n, 'the number of versions')
    kind, r = attempt(lambda: interp.run_function(rar.RarMountSource.lookup, [me, '/a', version] if vc.choose('a version is given') else [me, '/a']))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    v = version.z
    vc.prove(z3.Implies(z3.And(v >= 0, n > 0, v <= n), z3.BoolVal(r is not None)), 'every version exists')
    if r is not None:
        vc.prove(z3.And(zi(r) >= 0, zi(r) < n), 'it is one of the entries')
        vc.prove(z3.Implies(v == 0, zi(r) == 0), 'the newest one by default')


def unit_rar_lookup_version(vc):
    n, a, b = vc.nat('entries').z, vc.int('a'), vc.int('b')
    infos = SList(n, lambda k: mk_int(k), True, 'infos')
    interp = Interp(vc, contracts={RAR + 'RarMountSource._lookups': lambda interp, vc, me, path: infos})
    me = vc.new(Obj(rar.RarMountSource, {}, 'rar'))
    got = [attempt(lambda v=v: interp.run_function(rar.RarMountSource.lookup, [me, '/a', v])) for v in (a, b)]
    for (kind, r), v in zip(got, (a, b)):
        vc.prove(kind == 'ok', 'nothing is raised')
        if r is None:
            vc.prove(z3.Or(v.z < 0, v.z > n, n == 0), 'every version exists')
        else:
            vc.prove(z3.And(v.z <= n, n > 0, zi(r) >= 0, zi(r) < n), 'only versions that exist')
    x, y = got[0][1], got[1][1]
    if x is not None and y is not None:
        vc.prove(z3.Implies(z3.And(a.z >= 1, b.z >= 1, a.z != b.z), zi(x) != zi(y)), 'different versions are different entries')
        vc.prove(z3.Implies(z3.And(a.z == 0, b.z == n), zi(x) == zi(y)), 'the newest version is the last one')


# ------------------------------------------------------------------------------------------------ oracles
def walk(ms, c):
    """{path: info} of everything that is listed; every view agrees"""
    found, todo = {}, ['/']
    while todo:
        folder = todo.pop()
        listed, modes = ms.list(folder), ms.list_mode(folder)
        if listed is None:
            listed = {}
        c.check(isinstance(listed, dict), 'a folder is listed with metadata', folder=folder)
        if modes is not None and isinstance(modes, dict):
            c.equal({n: m for n, m in modes.items()}, {n: i.mode for n, i in listed.items()}, 'both ways to list agree', folder=folder)
        for n, i in listed.items():
            p = folder.rstrip('/') + '/' + n
            got = ms.lookup(p)
            c.check(got is not None, 'listed members can be looked up', path=p)
            same = lambda x: (x.size, x.mode, x.linkname, x.uid, x.gid)  # noqa: E731
            c.equal(same(got), same(i), 'listed and looked up metadata agree', path=p)
            found[p] = i
            if stat.S_ISDIR(i.mode):
                todo.append(p)
    return found


def compare(c, ms, want):
    """want: {path: (type, permissions or None, mtime or None, link or None, data)}"""
    found = walk(ms, c)
    implied = {}
    for p in want:
        q = posixpath.dirname(p)
        while q != '/':
            implied[q] = 1
            q = posixpath.dirname(q)
    c.equal(sorted(found), sorted(set(want) | set(implied)), 'exactly the recorded members and the folders above')
    for p in implied:
        if p not in want:
            c.check(stat.S_ISDIR(found[p].mode) and found[p].mode & 0o500 == 0o500, 'what has members is a folder', path=p)
    for p, (kind, mode, mtime, link, data) in want.items():
        i = found[p]
        c.equal(oct(stat.S_IFMT(i.mode)), oct(kind), 'type', path=p)
        if mode is not None:
            c.equal(oct(i.mode & 0o777), oct(mode), 'permissions', path=p)
        if mtime is not None:
            c.equal(int(i.mtime), mtime, 'modification time', path=p)
        if link is not None:
            c.equal(i.linkname, link, 'link target', path=p)
        if kind == stat.S_IFREG:
            c.equal(i.size, len(data), 'size', path=p)
            with ms.open(ms.lookup(p)) as f:
                c.equal(f.read(), data, 'its own bytes', path=p)
            if data:
                with ms.open(i) as f:
                    f.seek(len(data) // 2)
                    c.equal(f.read(3), data[len(data) // 2:][:3], 'its own bytes at a position', path=p)
    c.equal(ms.lookup('/no such'), None, 'nothing else exists')


def draw_tree(rng, links=True, special=False, bad=False):
    """[(path, kind, permissions, mtime, link or None, data)], parents first or missing"""
    out, kinds = {}, {}
    for _ in range(rng.choice((1, 2, 4, 8))):
        parts = [rng.choice(('a', 'b', 'c', 'ä', 'a b', 'ab', 'a.', '.x', 'B', 'a' * 60)) for _ in range(rng.choice((1, 1, 2, 3)))]
        if bad and rng.random() < 0.1:
            parts[-1] = 'e\udcff'
        p = '/'.join(parts)
        if any(kinds.get('/'.join(parts[:k]), 'dir') != 'dir' for k in range(1, len(parts))) or p in out or any(q.startswith(p + '/') for q in out):
            continue
        kind = rng.choice(['file', 'file', 'file', 'dir'] + ['link'] * links + ['fifo'] * special)
        for k in range(1, len(parts)):
            parent = '/'.join(parts[:k])
            kinds[parent] = 'dir'
            if parent not in out and rng.random() < 0.5:
                out[parent] = (stat.S_IFDIR, rng.choice((0o755, 0o700)), rng.choice((315532800, 1234567890)), '', b'')
        kinds[p] = kind
        mode = rng.choice((0o644, 0o755, 0o600, 0o777, 0o400))
        t = rng.choice((315532800, 1234567890, 2000000000))
        if kind == 'link':
            target = rng.choice(('a', '../a', '/x/y', 'ä', 'a' * 100) + (('l\udcfe',) if bad else ()))
            out[p] = (stat.S_IFLNK, 0o777, t, target, target.encode(errors='surrogateescape'))
        else:
            out[p] = ({'dir': stat.S_IFDIR, 'file': stat.S_IFREG, 'fifo': stat.S_IFIFO}[kind], mode | (0o500 if kind == 'dir' else 0), t, '', rng.choice((b'', b'x', rng.randbytes(600), b'0' * 5000)) if kind == 'file' else b'')
    return out


def shown(p):
    try:
        p.encode()
        return '/' + p
    except UnicodeEncodeError:
        return '/' + SQLiteIndex._escape_invalid_characters(p, 'utf-8')


def source_for(ctx, rng, data, suffix):
    if rng.random() < 0.4:
        path = os.path.join(ctx.tmp(), 'archive' + suffix)
        with open(path, 'wb') as f:
            f.write(data)
        return path
    return io.BytesIO(data)


def examine(c, make, source, want):
    try:
        ms = make(source)
    except Exception as e:  # pylint: disable=broad-except
        c.check(False, 'the archive can be mounted', error=repr(e))
        return
    try:
        compare(c, ms, want)
    finally:
        ms.__exit__(None, None, None)


def date_of(t):
    d = datetime.datetime.fromtimestamp(t, datetime.timezone.utc)
    return (d.year, d.month, d.day, d.hour, d.minute, d.second // 2 * 2)


def write_zip(rng, tree):
    b, want = io.BytesIO(), {}
    with zipfile.ZipFile(b, 'w') as z:
        for p, (kind, mode, t, link, data) in tree.items():
            prefix = rng.choice(('', '', '', './', '/'))
            bad_date = rng.random() < 0.15
            info = zipfile.ZipInfo(prefix + p + ('/' if kind == stat.S_IFDIR else ''), rng.choice(((1980, 0, 0, 0, 0, 0), (1980, 2, 30, 0, 0, 0), (1999, 1, 1, 0, 0, 0))) if bad_date else date_of(t))
            unix = rng.random() < 0.85 or kind == stat.S_IFLNK
            info.external_attr = ((kind | mode) << 16 | (0x10 if kind == stat.S_IFDIR else 0)) if unix else (0x10 if kind == stat.S_IFDIR else 0x20)
            info.compress_type = rng.choice((zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED))
            z.writestr(info, data)
            mtime = (0 if info.date_time[1:3] in ((0, 0), (2, 30)) else 915148800) if bad_date else t
            want[shown(p)] = (kind, mode if unix else (0o770 if kind == stat.S_IFDIR else 0o660), mtime, link, data)
    return b.getvalue(), want


def run_zip(ctx):
    c17.quiet()
    rng = ctx.rng
    for number in range(ctx.budget(150, 8000)):
        if ctx.out_of_time():
            return
        tree = draw_tree(rng)
        for p, v in list(tree.items()):
            if v[0] == stat.S_IFLNK and rng.random() < 0.2:
                tree[p] = v[:3] + ('x\udcff', b'x\xff')
        with ctx.case({'tree': {p: v[:4] + (len(v[4]),) for p, v in tree.items()}, 'case': number}) as c:
            data, want = write_zip(rng, tree)
            for p, v in list(want.items()):
                if '\udcff' in v[3]:
                    want[p] = v[:3] + (None, v[4])
            examine(c, lambda s: ZipMountSource(s, writeIndex=False), source_for(ctx, rng, data, '.zip'), want)


def write_asar(rng, tree):
    root, out, want = {'files': {}}, b'', {}

    def folder(parts):
        here = root
        for x in parts:
            here = here['files'].setdefault(x, {'files': {}})
        return here
    order = list(tree.items())
    rng.shuffle(order)
    for p, (kind, _mode, _t, link, data) in order:
        *parents, name = p.split('/')
        here = folder(parents)['files']
        if kind == stat.S_IFDIR:
            e = here.setdefault(name, {'files': {}})
            if rng.random() < 0.2:
                e['unpacked'] = True
            want['/' + p] = (kind, 0o777, 0, '', b'')
        elif kind == stat.S_IFLNK:
            here[name] = {'link': rng.choice((link.strip('./') or 'a', 'a/b', 'c'))}
            target = here[name]['link']
            want['/' + p] = (kind, 0o777, 0, posixpath.relpath('/' + target, posixpath.dirname('/' + p)), b'')
        elif rng.random() < 0.1:
            here[name] = {'size': 7, 'unpacked': True}
        else:
            here[name] = {'size': len(data), 'offset': str(len(out)), 'integrity': {'algorithm': 'SHA256'}}
            out += data
            want['/' + p] = (kind, 0o777, 0, '', data)
    for p in tree:  # folders are always recorded
        parts = p.split('/')
        for k in range(1, len(parts)):
            want.setdefault('/' + '/'.join(parts[:k]), (stat.S_IFDIR, 0o777, 0, '', b''))
    j = json.dumps(root).encode()
    pad = -len(j) % 4
    return struct.pack('<LLLL', 4, len(j) + pad + 8, len(j) + pad + 4, len(j)) + j + b'\0' * pad + out, want


def run_asar(ctx):
    c17.quiet()
    rng = ctx.rng
    for number in range(ctx.budget(150, 8000)):
        if ctx.out_of_time():
            return
        tree = draw_tree(rng)
        big = number % 50 == 7
        if big:
            tree.update({f'many/f{k}': (stat.S_IFREG, 0o644, 0, '', b'%d' % k) for k in range(1500)} | {f'more/d{k}/g': (stat.S_IFREG, 0o644, 0, '', b'%d' % k) for k in range(600)})
            tree.pop('many', None)
            tree.pop('more', None)
        with ctx.case({'tree': {p: v[:4] + (len(v[4]),) for p, v in list(tree.items())[:30]}, 'case': number}) as c:
            data, want = write_asar(rng, tree)
            examine(c, lambda s: ASARMountSource(s, writeIndex=False), source_for(ctx, rng, data, '.asar'), want)


def vint(n):
    o = b''
    while True:
        b, n = n & 127, n >> 7
        o += bytes([b | (128 if n else 0)])
        if not n:
            return o


def rar5(rng, tree):
    def block(body):
        size = vint(len(body))
        return struct.pack('<I', zlib.crc32(size + body)) + size + body
    out = b'Rar!\x1a\x07\x01\x00' + block(vint(1) + vint(0) + vint(0))
    for p, (kind, mode, t, link, data) in tree.items():
        name, extra = (rng.choice(('', '', '', '/')) + p).encode(), b''
        if kind == stat.S_IFLNK:
            raw = link.encode()
            rec = vint(5) + vint(1) + vint(0) + vint(len(raw)) + raw
            extra, data = vint(len(rec)) + rec, b''
        body = (vint(2) + vint((1 if extra else 0) | 2) + (vint(len(extra)) if extra else b'') + vint(len(data)) + vint((1 if kind == stat.S_IFDIR else 0) | 2 | 4) + vint(len(data)) + vint(kind | mode)
                + struct.pack('<II', t, zlib.crc32(data)) + vint(0) + vint(1) + vint(len(name)) + name + extra)
        out += block(body) + data
    return out + block(vint(5) + vint(0) + vint(0))


def dos(t):
    d = datetime.datetime.fromtimestamp(t, datetime.timezone.utc)
    return (d.year - 1980) << 25 | d.month << 21 | d.day << 16 | d.hour << 11 | d.minute << 5 | d.second // 2


def rar3(rng, tree, dates_):
    def blk(t, flags, body, add=b''):
        h = struct.pack('<BHH', t, flags, 7 + len(body)) + body
        return struct.pack('<H', zlib.crc32(h) & 0xffff) + h + add
    out = b'Rar!\x1a\x07\x00' + blk(0x73, 0, b'\0' * 6)
    for p, (kind, mode, t, _link, data) in tree.items():
        name = p.encode()
        out += blk(0x74, 0x8000 | (0xe0 if kind == stat.S_IFDIR else 0), struct.pack('<IIBIIBBHI', len(data), len(data), 3, zlib.crc32(data), dates_.get(p, dos(t)), 20, 0x30, len(name), kind | mode) + name, data)
    return out + blk(0x7b, 0x4000, b'')


def run_rar(ctx):
    c17.quiet()
    rng = ctx.rng
    for number in range(ctx.budget(150, 8000)):
        if ctx.out_of_time():
            return
        tree = draw_tree(rng)
        five = rng.random() < 0.6
        if not five:
            tree = {p: v for p, v in tree.items() if p.isascii() and (v[3] or 'a').isascii()}
        if not tree:
            continue
        with ctx.case({'tree': {p: v[:4] + (len(v[4]),) for p, v in tree.items()}, 'version': 5 if five else 3, 'case': number}) as c:
            odd = {p: 0 for p in tree if rng.random() < 0.15} if not five else {}
            data = rar5(rng, tree) if five else rar3(rng, tree, odd)
            want = {'/' + p: v[:2] + (None if not five else v[2],) + v[3:] for p, v in tree.items()}
            for p in odd:
                want['/' + p] = want['/' + p][:2] + (0,) + want['/' + p][3:]
            examine(c, rar.RarMountSource, source_for(ctx, rng, data, '.rar'), want)


def write_cpio(rng, tree):
    out, want, number = b'', {}, 0
    entries = []
    for p, (kind, mode, t, link, data) in tree.items():
        raw = p.encode(errors='surrogateescape')
        number += 1
        if kind == stat.S_IFREG and rng.random() < 0.2:
            # hard links: the contents come with the last (newc) or with the first
            other = raw + b' 2'
            late = rng.random() < 0.5
            pair = [(raw, b'' if late else data), (other, data if late else b'')]
            entries += [(n, kind | mode, 2, t, d, number) for n, d in pair]
            want[shown(p)] = (None, mode, t, None, data)
            want[shown(p + ' 2')] = (None, mode, t, None, data)
            continue
        entries.append((raw, kind | mode, 1, t, data, number))
        want[shown(p)] = (kind, mode, t, None if any('\ud800' <= x <= '\udfff' for x in link) else link, data)
    for name, mode, nlink, t, data, ino in [*entries, (b'TRAILER!!!', 0, 1, 0, b'', 0)]:
        out += b'070701' + b''.join(b'%08x' % v for v in (ino, mode, 7, 8, nlink, t, len(data), 0, 0, 0, 0, len(name) + 1, 0)) + name + b'\0'
        out += b'\0' * (-len(out) % 4) + data
        out += b'\0' * (-len(out) % 4)
    return out, want


def run_libarchive(ctx):
    """CPIO, ZIP and TAR archives mounted with libarchive; hard links show the contents of what they refer to"""
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer

    c17.quiet()
    rng = ctx.rng
    for number in range(ctx.budget(150, 8000)):
        if ctx.out_of_time():
            return
        how = rng.choice(('cpio', 'cpio', 'zip', 'tar'))
        tree = draw_tree(rng, special=how != 'zip', bad=how == 'cpio')
        if not tree:
            continue
        with ctx.case({'tree': {p: v[:4] + (len(v[4]),) for p, v in tree.items()}, 'format': how, 'case': number}) as c:
            if how == 'cpio':
                data, want = write_cpio(rng, tree)
            elif how == 'zip':
                b, want = io.BytesIO(), {}
                with zipfile.ZipFile(b, 'w') as z:
                    for p, (kind, mode, t, link, d) in tree.items():
                        info = zipfile.ZipInfo(p + ('/' if kind == stat.S_IFDIR else ''), date_of(t))
                        info.external_attr, info.create_system = (kind | mode) << 16, 3
                        z.writestr(info, d)
                        want['/' + p] = (kind, mode, None, link, d)
                data = b.getvalue()
            else:
                b, want = io.BytesIO(), {}
                with tarfile.open(fileobj=b, mode='w', format=tarfile.PAX_FORMAT) as z:
                    for p, (kind, mode, t, link, d) in tree.items():
                        info, t = tarfile.TarInfo(p), rng.choice((t, t, t, 0))
                        info.pax_headers = rng.choice(({}, {'ctime': '1300000000', 'atime': '1300000001'}))
                        info.type = {stat.S_IFDIR: tarfile.DIRTYPE, stat.S_IFLNK: tarfile.SYMTYPE, stat.S_IFIFO: tarfile.FIFOTYPE}.get(kind, tarfile.REGTYPE)
                        info.mode, info.mtime, info.linkname, info.size = mode, t, link, len(d) if kind == stat.S_IFREG else 0
                        z.addfile(info, io.BytesIO(d))
                        want['/' + p] = (kind, mode, t, link, d)
                data = b.getvalue()
            hard = {p: v for p, v in want.items() if v[0] is None}
            try:
                ms = LibarchiveMountSource(source_for(ctx, rng, data, '.' + how))
            except Exception as e:  # pylint: disable=broad-except
                c.check(False, 'the archive can be mounted', error=repr(e))
                continue
            try:
                if not hard:
                    compare(c, ms, want)
                else:
                    layer = FileVersionLayer(ms)
                    c.equal(set(walk(ms, c)) >= set(want), True, 'every member is listed')
                    for p, v in want.items():
                        i = layer.lookup(p)
                        c.check(i is not None, 'every member can be looked up', path=p)
                        if v[0] is None or v[0] == stat.S_IFREG:
                            c.check(stat.S_ISREG(i.mode), 'hard links are files', path=p, mode=oct(i.mode))
                            with layer.open(i) as f:
                                c.equal(f.read(), v[4], 'the bytes of the file', path=p)
                        else:
                            c.equal(oct(stat.S_IFMT(i.mode)), oct(v[0]), 'type', path=p)
            finally:
                ms.__exit__(None, None, None)


RM = rar.RarMountSource
ORACLES = [
    Oracle('zip', run_zip, [ZipMountSource._convert_to_row, ZipMountSource.open], '150 (8000) drawn archives of up to 20 entries', quick_s=25),
    Oracle('asar', run_asar, [ASARMountSource._convert_to_row, ASARMountSource._create_index, ASARMountSource.open], '150 (8000) drawn archives, some with more than 1000 entries', quick_s=25),
    Oracle('rar', run_rar, [RM._list_entries, RM.list, RM.list_mode, RM._lookups, RM.lookup, RM._get_name, RM._clean_path], '150 (8000) drawn archives in both formats', quick_s=25),
    Oracle('libarchive', run_libarchive, [ArchiveEntry.convert_to_row, LibarchiveMountSource._create_index], '150 (8000) drawn CPIO, ZIP and TAR archives', quick_s=25),
]
ASSUMPTIONS = [
    'zipfile, rarfile and libarchive report what the archives contain; RAR archives are drawn without compression, because there is no program to write them',
    'link targets of ASARs are represented by five combinations of paths',
    'normalisation of paths and the folders that the index adds are proved elsewhere (C06, C08)',
]
UNITS = [
    Unit('zip row', unit_zip_row, [ZipMountSource._convert_to_row]), Unit('asar row', unit_asar_row, [ASARMountSource._convert_to_row]), Unit('asar header', unit_asar_header, [formats.find_asar_header]),
    Unit('libarchive row', unit_libarchive_row, [ArchiveEntry.convert_to_row, ArchiveEntry.mode, ArchiveEntry.is_symbolic_link, ArchiveEntry.filetype]),
    Unit('libarchive time', unit_libarchive_time, [ArchiveEntry.get_time]), Unit('libarchive path', unit_libarchive_strings('path'), [ArchiveEntry.path]),
    Unit('libarchive linkname', unit_libarchive_strings('linkname'), [ArchiveEntry.linkname]),
    Unit('rar info', unit_rar_info, [RM._convert_to_file_info, RM._get_mode, RM._get_link_name]), Unit('rar open', unit_rar_open, [RM.open]), Unit('rar versions', unit_rar_lookup, [RM.versions, RM.lookup]), Unit('rar lookup', unit_rar_lookup_version, [RM.lookup]),
    *[Unit(f'asar traverse[{", ".join(k) or "empty"}]', unit_asar_traverse(k), [ASARMountSource._create_index]) for k in ((), ('file', 'folder'), ('link', 'unpacked', 'unpacked folder'))],
]
