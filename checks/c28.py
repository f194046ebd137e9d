"""C28: any member name survives indexing"""
import base64
import io
import itertools
import os
import struct
import tarfile
import urllib.parse
import zipfile

import z3

from checks.common import quiet
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.values import Model, Obj, PyRaise, SBool, SDict, SInt, SList, SStr, Unsupported, zb, zi
from ratarmountcore.mountsource.compositing.union import UnionMountSource
from ratarmountcore.mountsource.factory import open_mount_source
from ratarmountcore.mountsource.formats.folder import FolderMountSource
from ratarmountcore.SQLiteIndex import SQLiteIndex


# ---------------------------------------------------------------------------------------------------- runs
PIECES = [b'a', b'b', b'\xff', b'\xe4', b'\xc3\xa4', b'\xc3', b'\x80', b'\xed\xa0\x80', b'\xf0\x9f\x98\x80', b'\\', b'\\xff', b' ', b'\n', b'%', b'\x01', b'\x7f', b'?', b'*', b"'", b'"', b'\xe2\x82\xac']


def random_name(rng, long):
    n = rng.choice([1, 1, 2, 3, 5])
    name = b''.join(rng.choice(PIECES) for _ in range(n))
    if long:
        name = name + rng.choice([b'x', b'\xe4', b'\xc3\xa4']) * 120
    return name


def header(name, size=0, kind=b'0', link=b'', mtime=0):
    h = struct.pack('100s8s8s8s12s12s8s1s100s6s2s32s32s8s8s155s12x', name, b'0000644\0', b'0000000\0', b'0000000\0', b'%011o\0' % size, b'%011o\0' % mtime,
                    b' ' * 8, kind, link, b'ustar\0', b'00', b'', b'', b'', b'', b'')
    return h[:148] + b'%06o\0 ' % sum(h) + h[156:]


def padded(data):
    return data + b'\0' * (-len(data) % 512)


def pax(records):
    out = b''
    for k, v in records:
        body = b' ' + k + b'=' + v + b'\n'
        n = len(body)
        while len(str(n)) + len(body) != n:
            n = len(str(n)) + len(body)
        out += str(n).encode() + body
    return header(b'pax', len(out), b'x') + padded(out)


def member(name, data, how, link=None, records=()):
    """the blocks of one member"""
    out = b''
    records = list(records)
    if how == 'gnu' and len(name) > 100:
        out += header(b'././@LongLink', len(name) + 1, b'L') + padded(name + b'\0')
    if how == 'gnu' and link is not None and len(link) > 100:
        out += header(b'././@LongLink', len(link) + 1, b'K') + padded(link + b'\0')
    if how == 'pax':
        records += [(b'path', name)] + ([(b'linkpath', link)] if link is not None else [])
    if records:
        out += pax(records)
    return out + header(name[:100], len(data), b'2' if link is not None else b'0', (link or b'')[:100]) + padded(data)


def run_names(ctx):
    quiet()
    for _ in range(ctx.budget(1500, 20000)):
        if ctx.out_of_time():
            return
        rng = ctx.rng
        encoding = rng.choice(['utf-8', 'utf-8', 'iso-8859-1', 'ascii', 'cp1252', 'shift_jis', 'koi8-r'])
        members, taken = [], set()
        for k in range(rng.randrange(1, 6)):
            how = rng.choice(['ustar', 'gnu', 'pax'])
            names = [random_name(rng, how != 'ustar' and rng.random() < .3) for _d in range(rng.choice([1, 1, 2, 3]))]
            if any(n.strip(b'.') == b'' or b'/' in n for n in names):
                continue
            link = random_name(rng, False) if rng.random() < .25 else None
            xattrs = [(random_name(rng, False).replace(b'=', b'').replace(b'\n', b''), rng.randbytes(rng.choice([0, 1, 5, 300])), rng.random() < .3) for _x in range(rng.choice([0, 0, 1, 3]))]
            members.append((names, b'data%d' % k, how, link, xattrs))
        with ctx.case({'encoding': encoding, 'members': members}) as c:
            check_archive(ctx, c, encoding, members)


def check_archive(ctx, c, encoding, members):
    blocks = b''
    for names, data, how, link, xattrs in members:
        records = []
        for k, v, libarchive in xattrs:
            if libarchive:
                records.append((b'LIBARCHIVE.xattr.' + urllib.parse.quote(k).encode(), base64.b64encode(v).rstrip(b'=')))
            else:
                records.append((b'SCHILY.xattr.' + k, v))
        blocks += member(b'/'.join(names), b'' if link is not None else data, how, link, records)
    source = open_mount_source(io.BytesIO(blocks + b'\0' * 10240), indexFilePath=':memory:', encoding=encoding)
    entries = {}

    def walk(p, steps):
        listing = source.list(p)
        c.equal(sorted(source.list_mode(p) or ()), sorted(listing or ()), 'both listings agree', path=p)
        for n, info in (listing or {}).items():
            q = p.rstrip('/') + '/' + n
            found = source.lookup(q)
            c.check(found is not None and q.encode() is not None and (found.size, found.mode, found.linkname) == (info.size, info.mode, info.linkname), 'what is listed can be looked up', path=q)
            c.check(source.exists(q) and source.versions(q) >= 1, 'what is listed exists', path=q)
            entries[q] = found
            if source.is_dir(q) and steps:
                walk(q, steps - 1)
    walk('/', 5)
    datas = set()
    for q, info in entries.items():
        if info.mode & 0o170000 == 0o100000:
            with source.open(info) as f:
                datas.add(f.read())
    for names, data, how, link, xattrs in members:
        total = b'/'.join(names)
        if how == 'ustar' and len(total) > 100 or how == 'ustar' and link is not None and len(link) > 100:
            continue
        p = name_of(total, encoding, how)
        if p is None or any(name_of(b'/'.join(o[0]), encoding, o[2]) in parents_of(p) | {p} or p in parents_of(name_of(b'/'.join(o[0]), encoding, o[2])) for o in members if o[1] != data):
            continue  # what is shown for equal names is not decided by this
        info = source.lookup(p)
        c.check(info is not None and p in entries, 'every member is reachable and listed under its name', path=p, members=sorted(entries))
        if link is not None:
            want = name_of(link, encoding, how, path=False)
            c.check(want is None or info.linkname == want, 'link targets are those recorded', path=p, got=info.linkname, want=want)
        else:
            with source.open(info) as f:
                c.equal(f.read(), data, 'every member keeps its contents', path=p)
        attributes = {}
        for k, v, libarchive in [*[x for x in xattrs if not x[2]], *[x for x in xattrs if x[2]]]:
            attributes[escaped(k.decode('utf-8', 'replace' if libarchive else 'surrogateescape'), encoding)] = v
        c.equal(sorted(source.list_xattr(info)), sorted(attributes), 'extended attributes are listed', path=p)
        for k, v in attributes.items():
            c.equal(source.get_xattr(info, k), v, 'extended attributes keep their values', path=p, key=k)
        c.check(source.get_xattr(info, '\udcff no key') is None and source.get_xattr(info, 'no key') is None, 'there are no other attributes', path=p)
    for q in ('/\udcff nothing', '/a/\udc80', '/\ud800', '/\udcff/a'):
        c.check(source.lookup(q) is None and source.list(q) is None and source.list_mode(q) is None and source.versions(q) == 0 and not source.exists(q)
                and not source.is_dir(q), 'nothing exists under names that cannot be stored', path=q)
    source.__exit__(None, None, None)


def escaped(text, encoding):
    try:
        text.encode()
        return text
    except UnicodeEncodeError:
        if '/' in text:
            return '/'.join(escaped(x, encoding) for x in text.split('/'))
        try:
            return text.encode(encoding, 'surrogateescape').decode(encoding, 'backslashreplace')
        except UnicodeEncodeError:
            return text.encode('utf-8', 'backslashreplace').decode('utf-8')


def name_of(raw, encoding, how, path=True):
    try:
        text = raw.decode(encoding if how != 'pax' else 'utf-8', 'surrogateescape')
    except UnicodeDecodeError:
        return None
    if how == 'pax':
        try:
            raw.decode('utf-8')
        except UnicodeDecodeError:  # the header says UTF-8 but is not
            try:
                text = raw.decode(encoding, 'surrogateescape')
            except UnicodeDecodeError:
                return None
    if path:
        import posixpath
        folder, name = ('/' + posixpath.normpath('/' + text).lstrip('/')).rsplit('/', 1)
        return escaped(folder, encoding) + '/' + escaped(name, encoding)
    return escaped(text, encoding)


def parents_of(p):
    return set() if p is None else {p[:k] for k, x in enumerate(p) if x == '/' and k}


def run_beside(ctx):
    """files with any names in folders stay accessible beside archives"""
    quiet()
    for _ in range(ctx.budget(150, 2000)):
        if ctx.out_of_time():
            return
        rng = ctx.rng
        names = {random_name(rng, False) for _n in range(4)}
        first = rng.random() < .5
        with ctx.case({'names': sorted(names), 'first': first}) as c:
            tmp = ctx.tmp()
            os.mkdir(tmp + '/f')
            for n in names:
                with open(os.fsencode(tmp) + b'/f/' + n, 'wb') as f:
                    f.write(n)
            b = io.BytesIO()
            if rng.random() < .5:
                with zipfile.ZipFile(b, 'w') as z:
                    z.writestr('archived', 'x')
            else:
                b = io.BytesIO(member(b'archived', b'x', 'ustar') + b'\0' * 10240)
            archive = open_mount_source(b, indexFilePath=':memory:')
            sources = [FolderMountSource(tmp + '/f'), archive]
            m = UnionMountSource(sources if first else sources[::-1])
            c.equal(sorted(m.list('/')), sorted([*map(os.fsdecode, names), 'archived']), 'everything is listed')
            for n in names:
                info = m.lookup('/' + os.fsdecode(n))
                c.check(info is not None, 'everything listed can be looked up', name=n)
                with m.open(info) as f:
                    c.equal(f.read(), n, 'every file keeps its contents', name=n)
                c.check(m.list('/' + os.fsdecode(n)) is None and m.versions('/' + os.fsdecode(n)) == 1, 'a file is a file', name=n)
            with m.open(m.lookup('/archived')) as f:
                c.equal(f.read(), b'x', 'every file keeps its contents')


ORACLES = [
    Oracle('names and attributes', run_names, [SQLiteIndex.set_file_infos, SQLiteIndex.setxattrs], '1500 (20000) generated TAR archives with names of arbitrary bytes in 8 encodings'),
    Oracle('names beside archives', run_beside, [SQLiteIndex.lookup], '150 (2000) folders with names of arbitrary bytes beside an archive'),
]


# ---------------------------------------------------------------------------------------------------- proofs
Q = 'ratarmountcore.SQLiteIndex:SQLiteIndex.'
I, B = z3.IntSort(), z3.BoolSort()
INSERT = 'INSERT OR REPLACE INTO "files" VALUES (' + ','.join('?' * 15) + ');'


class Name(Model):
    """any text; valid tells whether it can be stored"""
    pytype = str

    def __init__(self, valid, origin=None, note=''):
        self.valid, self.origin, self.note = valid, origin, note  # origin: the text this is the escaped form of

    def m_encode(self, vc, encoding='utf-8', errors='strict'):
        if encoding == 'utf-8' and errors == 'strict':
            if not vc.branch(zb(self.valid)):
                raise PyRaise(UnicodeEncodeError)
            return Encoded(self, True)
        if errors == 'backslashreplace' and encoding == 'utf-8':
            return Encoded(self, False, 'utf-8')
        if errors == 'surrogateescape':
            if not vc.choose('representable'):
                raise PyRaise(UnicodeEncodeError)
            return Encoded(self, False, encoding)
        raise Unsupported('encoding')

    def contains(self, vc, x):
        if x != '/':
            raise Unsupported('search')
        return self.note == 'path'

    def m_split(self, vc, sep=None):
        if sep != '/':
            raise Unsupported('split')
        return vc.new(SList(items=[Name(vc.bool('first valid'), None), Name(vc.bool('second valid'), None)]))


class Encoded(Model):
    pytype = bytes

    def __init__(self, name, exact, encoding='utf-8'):
        self.name, self.exact, self.encoding = name, exact, encoding

    def m_decode(self, vc, encoding='utf-8', errors='strict'):
        if encoding != self.encoding or (errors != 'backslashreplace' and not (encoding == 'utf-8' and errors == 'strict')):
            raise Unsupported('decoding')
        return Name(True, self.name)


def unit_escape(vc):
    """what can be stored stays as it is, anything else becomes something that can be stored, without failing"""
    name = Name(vc.bool('valid'))
    r = Interp(vc).run_function(SQLiteIndex._escape_invalid_characters, [name, 'ENC'])
    if r is name:
        vc.prove(zb(name.valid), 'only what can be stored is kept')
    else:
        vc.prove(z3.Not(zb(name.valid)), 'what can be stored is kept')
        vc.prove(isinstance(r, Name) and r.origin is name and r.valid is True, 'what cannot be stored is escaped')


def unit_escape_path(vc):
    """paths are escaped name by name"""
    path = Name(vc.bool('valid'), None, 'path')
    done, joined = [], []

    def escape(i, vc, text, encoding):
        vc.prove(encoding == 'ENC', 'the encoding is passed on')
        done.append(text)
        return Name(True, text)

    class Joined(Model):
        pytype = str

    def join(vc, parts):
        joined.extend(parts.items if isinstance(parts, SList) else parts)
        return Joined()
    interp = Interp(vc, contracts={Q + '_escape_invalid_characters': escape}, models={('join', '/'): join})
    r = interp.run_function(SQLiteIndex._escape_invalid_characters, [path, 'ENC'])
    if r is path:
        vc.prove(zb(path.valid), 'only what can be stored is kept')
    else:
        vc.prove(z3.Not(zb(path.valid)), 'what can be stored is kept')
        vc.prove(isinstance(r, Joined) and len(joined) == 2 and [x.origin for x in joined] == done, 'every name of a path is escaped on its own')


TEXTS = (0, 1, 8)


def escape_contract(vc_, made):
    def escape(i, vc, text, encoding):
        if not isinstance(text, Name):
            raise Unsupported('escaping of something else')
        vc.prove(encoding == 'ENC', 'the chosen encoding is used')
        if vc.branch(zb(text.valid)):
            return text
        for a, b in made:
            if a is text:
                return b
        made.append((text, Name(True, text)))
        return made[-1][1]
    return escape


def stored(row, made, got):
    """whether got is the stored form of the row"""
    for a, b in zip(row, got):
        if isinstance(a, Name):
            if not (a is b or (a, b) in made):
                return False
        elif a is not b:
            return False
    return len(row) == len(got)


def unit_single_row(vc):
    row = tuple(Name(vc.bool(f'text {k} valid')) if k in TEXTS else vc.int(f'column {k}') for k in range(15))
    made, done, parents = [], [], []

    class Connection(Model):
        def m_execute(self, vc, sql, args):
            vc.prove(sql == INSERT, 'the row is inserted')
            args = args.items if isinstance(args, SList) else args
            ok = z3.And(*[zb(x.valid) for x in args if isinstance(x, Name)])
            if not vc.branch(ok):
                raise PyRaise(UnicodeEncodeError)
            vc.log_write(self)
            done.append(tuple(args))

    def add_parents(i, vc, self, path, offsetheader, offset):
        parents.append((path, offsetheader, offset))
    self = vc.new(Obj(SQLiteIndex, {'sqlConnection': Connection(), 'encoding': 'ENC'}, 'self'))
    interp = Interp(vc, contracts={Q + '_escape_invalid_characters': escape_contract(vc, made), Q + '_try_add_parent_folders': add_parents,
                                   Q + 'get_connection': lambda i, vc, s: s.fields['sqlConnection']})
    kind, r = attempt(lambda: interp.run_function(SQLiteIndex.set_file_info, [self, row]))
    vc.prove(kind == 'ok', 'any row can be stored')
    if kind != 'ok':
        return
    vc.prove(len(done) == 1 and stored(row, made, done[0]), 'the row is stored once with only what cannot be stored being escaped')
    vc.prove(len(parents) == 1 and parents[0][0] is done[0][0] and parents[0][1:] == row[2:4], 'the parent folders are added under the stored path')


def unit_rows(vc):
    """all rows are stored, with and without names that cannot be stored"""
    n = vc.nat('rows')
    valid = vc.func('row valid', I, B)
    state = {'inserted': None}

    class Log(Model):
        pass

    log = vc.new(Obj(Log, {'single': SArr(z3.K(I, z3.BoolVal(False))), 'parents': SArr(z3.K(I, z3.BoolVal(False)))}, 'log'))

    class Row(Model):
        pytype = tuple

        def __init__(self, i):
            self.i = i

        def len(self, vc):
            return 15

        def getitem(self, vc, k):
            if not isinstance(k, int) or k > 3:
                raise Unsupported('column')
            return Cell(self.i, k)

        def map_terms(self, f):
            return Row(f(self.i))

    class Cell(Model):
        def __init__(self, i, k):
            self.i, self.k = i, k

    rows = SList(length=n.z, elem=Row, mutable=False)

    class Connection(Model):
        def m_executemany(self, vc, sql, given):
            vc.prove(sql == INSERT and given is rows, 'all rows are inserted')
            i = z3.Int('i')
            if vc.choose('some row cannot be stored'):
                vc.assume(z3.Exists([i], z3.And(i >= 0, i < n.z, z3.Not(valid(i)))))
                raise PyRaise(UnicodeEncodeError)
            vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.z), valid(i))))
            state['inserted'] = True

    def single(i, vc, self, row):
        vc.prove(isinstance(row, Row), 'a row is stored')
        vc.log_write(log, 'single')
        log.fields['single'] = SArr(z3.Store(log.fields['single'].z, row.i, True))

    def add_parents(i, vc, self, path, offsetheader, offset):
        ok = all(isinstance(x, Cell) for x in (path, offsetheader, offset))
        vc.prove(ok and (path.k, offsetheader.k, offset.k) == (0, 2, 3), 'the parents of a row are added')
        vc.prove(z3.And(path.i == offsetheader.i, path.i == offset.i), 'the parents of a row are added')
        vc.log_write(log, 'parents')
        log.fields['parents'] = SArr(z3.Store(log.fields['parents'].z, path.i, True))

    i = z3.Int('i')
    memory = vc.choose('kept in memory')
    reloaded = []

    def spec(field):
        return LoopSpec(inv=lambda vc, L: [('all rows so far are treated', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(L.k)), z3.Select(log.fields[field].z, i))))],
                        havoc={}, heap=lambda vc, L: [(log, field, lambda vc: SArr(z3.Const(vc.name(field), z3.ArraySort(I, B))))])
    before = vc.nat('rows before')
    limit = vc.int('limit')
    self = vc.new(Obj(SQLiteIndex, {'sqlConnection': Connection(), 'encoding': 'ENC', '_insertedRowCount': before, 'indexMinimumFileCount': limit,
                                    'indexFilePath': ':memory:' if memory else 'PATH', 'preferMemory': vc.bool('prefer memory')}, 'self'))
    prefer = self.fields['preferMemory']

    def reload(i, vc, s):
        reloaded.append(1)
    interp = Interp(vc, contracts={Q + 'set_file_info': single, Q + '_try_add_parent_folders': add_parents, Q + '_reload_index_on_disk': reload,
                                   Q + 'get_connection': lambda i, vc, s: s.fields['sqlConnection']},
                    loops={(Q + 'set_file_infos', 0): spec('single'), (Q + 'set_file_infos', 1): spec('parents')})
    kind, r = attempt(lambda: interp.run_function(SQLiteIndex.set_file_infos, [self, rows]))
    vc.prove(kind == 'ok', 'any rows can be stored')
    if kind != 'ok':
        return
    j = vc.skolem('j')
    here = z3.And(j >= 0, j < n.z)
    if state['inserted']:
        vc.prove(z3.Implies(here, z3.Select(log.fields['parents'].z, j)), 'the parents of every row are added')
    else:
        vc.prove(z3.Implies(here, z3.Select(log.fields['single'].z, j)), 'every row is stored')
    vc.prove(z3.Implies(n.z > 0, zi(self.fields['_insertedRowCount']) == before.z + n.z), 'the rows are counted')
    if reloaded:
        vc.prove(z3.And(before.z + n.z > limit.z, zb(prefer), z3.BoolVal(memory)), 'the index only leaves the memory when it gets large')


class SArr(Model):
    def __init__(self, z):
        self.z = z


def unit_set_xattrs(vc):
    """all attributes are stored with their exact values, keys that cannot be stored are escaped"""
    n = vc.nat('rows')
    valid = vc.func('key valid', I, B)
    given = []

    class Key(Model):
        pytype = str

        def __init__(self, i, escaped=False):
            self.i, self.escaped = i, escaped

        def map_terms(self, f):
            return Key(f(self.i), self.escaped)

    class Value(Model):
        def __init__(self, i, what):
            self.i, self.what = i, what

        def map_terms(self, f):
            return Value(f(self.i), self.what)

    def escape(i, vc, text, encoding):
        if not isinstance(text, Key):
            raise Unsupported('escaping of something else')
        return Key(text.i, encoding == 'ENC')

    class Connection(Model):
        def m_executemany(self, vc, sql, rows):
            given.append(rows)
            vc.prove(' '.join(sql.split()) == 'INSERT INTO "xattrs" VALUES (?,?,?)', 'attributes are inserted')
    rows = SList(length=n.z, elem=lambda i: (Value(i, 'offset'), Key(i), Value(i, 'value')), mutable=False)
    self = vc.new(Obj(SQLiteIndex, {'sqlConnection': Connection(), 'encoding': 'ENC'}, 'self'))
    interp = Interp(vc, contracts={Q + '_escape_invalid_characters': escape, Q + 'get_connection': lambda i, vc, s: s.fields['sqlConnection']})
    interp.run_function(SQLiteIndex.setxattrs, [self, rows])
    vc.prove(len(given) == 1 and isinstance(given[0], SList), 'the attributes are stored at once')
    vc.prove(given[0].length == n.z, 'all attributes are stored')
    j = vc.skolem('j')
    with vc.under(z3.And(j >= 0, j < n.z)):
        a, k, v = given[0].elem(j)
    vc.prove(isinstance(a, Value) and a.what == 'offset' and isinstance(k, Key) and k.escaped and isinstance(v, Value) and v.what == 'value', 'attributes keep their values')
    vc.prove(z3.Implies(z3.And(j >= 0, j < n.z), z3.And(a.i == j, k.i == j, v.i == j)), 'attributes keep their values')


def sample_query(vc, sql, n):
    """checks on sample rows that the statement selects what it should"""
    import sqlite3
    db = sqlite3.connect(':memory:')
    db.execute('CREATE TABLE xattrs (offsetheader INTEGER, key VARCHAR, value BLOB)')
    rows = [(o, k, f'{o}{k}'.encode()) for o in (0, 5, 9) for k in ('a', 'A', 'b%', '_') if (o, k) != (9, 'a')]
    db.executemany('INSERT INTO xattrs VALUES (?,?,?)', rows)
    try:
        for o in (0, 5, 9, 7):
            if n == 1:
                if sorted(x[0] for x in db.execute(sql, (o,))) != sorted(k for p, k, _v in rows if p == o):
                    return False
            else:
                for k in ('a', 'A', 'b%', '_', 'x'):
                    if [x[0] for x in db.execute(sql, (o, k))] != [v for p, q, v in rows if (p, q) == (o, k)]:
                        return False
    except sqlite3.Error:
        return False
    return True


def unit_xattr(method):
    def run(vc):
        from ratarmountcore.SQLiteIndex import SQLiteIndexedTarUserData
        from ratarmountcore.mountsource import FileInfo
        import sqlite3
        offset, generated = vc.int('offset'), vc.choose('generated')
        key = Name(vc.bool('valid'))
        outcome = vc.pick(3)  # found, not found, no such table
        data = vc.new(Obj(SQLiteIndexedTarUserData, {'offsetheader': offset, 'isgenerated': generated}, 'userdata'))
        other = vc.choose('userdata of something else')
        empty = vc.choose('no userdata')
        info = vc.new(Obj(FileInfo, {'userdata': vc.new(SList(items=[] if empty else ['other'] if other else ['outer', data]))}, 'info'))
        asked = []

        class Rows(Model):
            def m_fetchone(self, vc):
                return ('VALUE',) if outcome == 0 else None

            def iterate(self, vc):
                return [('KEY1',), ('KEY2',)] if outcome == 0 else []

        class Connection(Model):
            def m_execute(self, vc, sql, args):
                args = args.items if isinstance(args, SList) else args
                if outcome == 2:
                    raise PyRaise(sqlite3.OperationalError)
                for x in args:
                    if isinstance(x, Name) and not vc.branch(zb(x.valid)):
                        raise PyRaise(UnicodeEncodeError)
                asked.append((sql, args))
                return Rows()
        self = vc.new(Obj(SQLiteIndex, {'sqlConnection': Connection()}, 'self'))
        interp = Interp(vc, contracts={Q + 'get_connection': lambda i, vc, s: s.fields['sqlConnection']})
        f = getattr(SQLiteIndex, method)
        kind, r = attempt(lambda: interp.run_function(f, [self, info] + ([key] if method == 'get_xattr' else [])))
        vc.prove(kind == 'ok', 'a query for attributes does not fail')
        if kind != 'ok':
            return
        r = r.items if isinstance(r, SList) else r
        nothing = None if method == 'get_xattr' else []
        if not asked:
            vc.prove(r == nothing, 'what has no attributes has none')
            vc.prove(empty or other or generated or outcome == 2 or z3.Not(zb(key.valid)), 'attributes are looked up')
            return
        sql, args = asked[0]
        vc.prove(len(asked) == 1 and not (empty or other or generated), 'attributes are looked up once and not for generated folders')
        vc.prove(args[0] is offset and (args[1:] == (key,) if method == 'get_xattr' else len(args) == 1), 'the attributes of the entry are asked for')
        vc.prove(sample_query(vc, sql, len(args)), 'exactly the attributes of the entry are selected')
        vc.prove(r == (('VALUE' if method == 'get_xattr' else ['KEY1', 'KEY2']) if outcome == 0 else nothing), 'what is found is returned as it is')
    return run


def unit_query(method):
    """paths that cannot be stored do not exist and asking for them changes nothing"""
    def run(vc):
        path = Name(vc.bool('valid'), None, 'path')
        vc.assume(z3.Not(zb(path.valid)))

        class Cut(Model):
            pytype = str

            def m_rstrip(self, vc, chars=None):
                return self

            def m_rsplit(self, vc, sep, maxsplit=-1):
                return vc.new(SList(items=[self, self]))

            def eq(self, vc, other):
                return False

        factory = Model()

        class Connection(Model):
            factory = None

            def a_row_factory(self, vc):
                return self.factory

            def s_row_factory(self, vc, v):
                self.factory = v

            def m_execute(self, vc, sql, args=None):
                if args is None:
                    return Columns()
                raise PyRaise(UnicodeEncodeError)

        class Columns(Model):
            def iterate(self, vc):
                return [('name',), ('offsetheader',), ('issparse',)]
        connection = Connection()
        connection.factory = factory
        self = vc.new(Obj(SQLiteIndex, {'sqlConnection': connection}, 'self'))
        interp = Interp(vc, contracts={Q + 'get_connection': lambda i, vc, s: connection, Q + '_query_normpath': lambda i, vc, p: Cut()})
        kind, r = attempt(lambda: interp.run_function(getattr(SQLiteIndex, method), [self, path]))
        vc.prove(kind == 'ok', 'a query does not fail')
        if kind != 'ok':
            return
        vc.prove(r is None or (isinstance(r, SDict) and not r.items and method == 'versions'), 'what cannot be stored does not exist')
        vc.prove(connection.factory is factory, 'later queries are not affected')
    return run


UNITS = [
    Unit('escaping of names', unit_escape, [SQLiteIndex._escape_invalid_characters]),
    Unit('escaping of paths', unit_escape_path, [SQLiteIndex._escape_invalid_characters]),
    Unit('storing one row', unit_single_row, [SQLiteIndex.set_file_info]),
    Unit('storing many rows', unit_rows, [SQLiteIndex.set_file_infos]),
    Unit('storing attributes', unit_set_xattrs, [SQLiteIndex.setxattrs]),
    Unit('reading attributes', unit_xattr('get_xattr'), [SQLiteIndex.get_xattr]),
    Unit('listing attributes', unit_xattr('list_xattr'), [SQLiteIndex.list_xattr]),
]
UNITS += [Unit(f'{m} of paths that cannot be stored', unit_query(m), [getattr(SQLiteIndex, m)]) for m in ('list', 'list_mode', 'versions', 'lookup')]
LEVEL = 'proof'
TRUSTED = ['SQLite stores and returns text and bytes unchanged and refuses text that is not valid', 'str.encode/bytes.decode with the error handlers surrogateescape and backslashreplace',
           'tarfile decodes names with surrogateescape (checked by runs)']
ASSUMPTIONS = ['encodings that extend ASCII', 'different names that are escaped to the same text are versions of one entry', 'a path with two names stands for all paths in the unit on escaping of paths']
