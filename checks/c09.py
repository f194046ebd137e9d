"""Contracts for the decision to use an existing index, and runs with interrupted index creations and changed archives."""
import gc
import gzip
import hashlib
import json
import os
import re
import sqlite3
import stat
import zipfile
from unittest import mock

import z3

from checks import tarlib
from checks.common import quiet
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.values import Host, Model, Obj, PyRaise, SBool, SDict, SInt, SList, SReal, SStr, Unsupported, zb, zi
from ratarmountcore import SQLiteIndex as M
from ratarmountcore.mountsource import SQLiteIndexMountSource as SM
from ratarmountcore.mountsource.formats import tar as T
from ratarmountcore.mountsource.formats.zip import ZipMountSource
from ratarmountcore.SQLiteIndex import SQLiteIndex
from ratarmountcore.utils import InvalidIndexError, MismatchingIndexError, RatarmountError

Q = 'ratarmountcore.SQLiteIndex:SQLiteIndex.'
TQ = 'ratarmountcore.mountsource.formats.tar:SQLiteIndexedTar.'
MS = SM.SQLiteIndexMountSource


def D(vc, items):
    return vc.new(SDict(items=[[k, v] for k, v in items.items()]))


class Stat(Model):
    def __init__(self, size, mtime):
        self.size, self.mtime = size, mtime

    def a_st_size(self, vc):
        return self.size

    def a_st_mtime(self, vc):
        return self.mtime


def stats(vc):
    """(recorded stats as a dictionary, actual stats, recorded size or None, recorded time or None)"""
    items = {}
    size = time = None
    if vc.choose('a size is recorded'):
        size = vc.watch('recorded size', vc.nat('recorded_size'))
        items['st_size'] = size
    if vc.choose('a time is recorded'):
        time = vc.watch('recorded time', vc.int('recorded_time'))
        items['st_mtime'] = time
    actual = Stat(vc.watch('size', vc.nat('size')), vc.watch('time', vc.int('time')))
    return D(vc, items), actual, size, time


def differ(a, b):
    return z3.BoolVal(False) if a is None else zi(a) != zi(b)


def replay_stats(m):
    """run the real function with the numbers of the counterexample"""
    import types
    from unittest import mock
    rec = {}
    if m.get('recorded size') is not None:
        rec['st_size'] = int(m['recorded size'])
    if m.get('recorded time') is not None:
        rec['st_mtime'] = int(m['recorded time'])
    size, time, verify = int(m.get('size') or 0), int(m.get('time') or 0), str(m.get('verify')) == 'True'
    bad = rec.get('st_size', size) != size or (verify and rec.get('st_mtime', time) != time)
    with mock.patch('os.stat', lambda p, **k: types.SimpleNamespace(st_size=size, st_mtime=time)):
        try:
            SQLiteIndex.check_archive_stats('/archive', {'tarstats': json.dumps(rec)}, verify)
            got = False
        except InvalidIndexError:
            got = True
    return got != bad, {'recorded': rec, 'actual': [size, time], 'verify': verify, 'rejected': got, 'contradicts': bad}


def unit_stats(vc):
    has, path = vc.choose('stats are recorded'), vc.choose('the archive is a file')
    rec, actual, size, time = stats(vc) if has else (None, None, None, None)
    verify = vc.watch('verify', vc.bool('verify'))
    token = vc.str('recorded')
    name = vc.str('archive_path') if path else None
    if path:
        vc.assume(z3.Length(name.z) > 0)
    interp = Interp(vc, models={json.loads: lambda vc, s: rec, os.stat: lambda vc, p: actual})
    meta = D(vc, {'tarstats': token} if has else {})
    kind, r = attempt(lambda: interp.run_function(SQLiteIndex.check_archive_stats, [name, meta, verify]))
    contradicts = z3.BoolVal(False)
    if has:
        contradicts = z3.Or(differ(size, actual.size), z3.And(verify.z, differ(time, actual.mtime))) if path else z3.BoolVal(True)
    if kind == 'exc':
        vc.prove(issubclass(r.cls, InvalidIndexError), f'a contradiction is reported as an invalid index (got {r.cls.__name__} at {r.where})')
        vc.prove(contradicts, 'only an index whose stats contradict is rejected')
    else:
        vc.prove(z3.Not(contradicts), 'an index whose stats contradict is rejected')


def unit_backend(vc):
    own = vc.watch('own backend', vc.str('own'))
    has = vc.choose('a backend is recorded')
    rec = vc.watch('recorded backend', vc.str('recorded'))
    self = vc.new(Obj(SQLiteIndex, {'backendName': own}, 'self'))
    meta = D(vc, {'backendName': rec} if has else {})
    interp = Interp(vc)
    kind, r = attempt(lambda: interp.run_function(SQLiteIndex.check_metadata_backend, [self, meta]))
    differs = z3.And(z3.BoolVal(has), z3.Length(own.z) > 0, own.z != rec.z)
    if kind == 'exc':
        vc.prove(issubclass(r.cls, MismatchingIndexError), 'a foreign index is reported as such')
        vc.prove(differs, 'only an index of another backend is rejected')
    else:
        vc.prove(z3.Not(differs), 'an index of another backend is rejected')


class Tables(Model):
    def __init__(self, flags):
        self.flags = flags

    def contains(self, vc, x):
        if x not in self.flags:
            raise Unsupported('table ' + str(x))
        return SBool(self.flags[x])


class File(Model):
    def enter(self, vc):
        return self

    def exit(self, vc, *a):
        return False


def unit_load(vc):
    flags = {t: vc.watch('table ' + t, vc.bool('has_' + t)).z for t in ['files', 'filestmp', 'parentfolders', 'versions', 'metadata', 'bzip2blocks']}
    g = {'backend': None, 'check': None, 'opened': 0, 'closed': False, 'temps': 0}
    readonly = vc.bool('readOnly')
    path = vc.watch('path', vc.str('indexFilePath'))
    vc.assume(z3.Not(z3.Contains(path.z, z3.StringVal('://'))))
    metadata = D(vc, {})

    class Conn(Model):
        def m_execute(self, vc, sql, *a):
            s = re.sub(r'\s+', ' ', sql.strip()).rstrip(';').lower()
            if s == 'select * from versions':
                if vc.choose('no versions'):
                    raise PyRaise(sqlite3.OperationalError, ('no such table',))
                return vc.new(SList(items=[]))
            if s == 'select * from metadata':
                return ('pairs',)
            if 'from versions' in s:
                return Cursor()
            raise Unsupported('SQL statement ' + sql)

        def m_close(self, vc):
            g['closed'] = True
            if vc.choose('closing fails'):
                raise PyRaise(sqlite3.Error, ('failed',))

    class Cursor(Model):
        def m_fetchone(self, vc):
            return None

    class Temp(Model):
        def a_name(self, vc):
            return '/temporary/file'

    def check_(vc, m):
        vc.prove(z3.BoolVal(m is metadata), 'the metadata of the index is checked')
        g['check'] = not vc.choose('the check fails')
        if not g['check']:
            raise PyRaise(InvalidIndexError, ('failed',))

    conn = Conn()
    checked = vc.choose('metadata has to be checked')

    def opened(i, vc, p, **kw):
        g['opened'] += 1
        g['path'] = p
        ro = bool(kw.get('uri'))
        vc.prove(readonly.z == z3.BoolVal(ro), 'the index is opened writable only if allowed')
        if ro:
            vc.prove(z3.BoolVal(True), 'read-only')
        if vc.choose('opening fails'):
            raise PyRaise(sqlite3.DatabaseError, ('failed',))
        return conn

    def backend(i, vc, s, m):
        vc.prove(z3.BoolVal(m is metadata), 'the backend of the index is checked')
        g['backend'] = not vc.choose('the backend differs')
        if not g['backend']:
            raise PyRaise(MismatchingIndexError, ('failed',))

    def loaded(i, vc, s):
        return s.fields['sqlConnection'] is not None

    def decompress(i, vc, f):
        return None

    stale = vc.choose('an earlier candidate was decompressed')
    self = vc.new(Obj(SQLiteIndex, {'sqlConnection': None, 'readOnly': readonly, '_temporaryIndexFile': Temp() if stale else None, 'indexFilePath': None}, 'self'))
    isfile = vc.bool('isfile')
    interp = Interp(vc, contracts={
        Q + 'index_is_loaded': loaded, Q + '_open_sql_db': opened, Q + 'check_metadata_backend': backend,
        'ratarmountcore.SQLiteIndex:get_sqlite_tables': lambda i, vc, c: Tables(flags),
        'ratarmountcore.compressions:detect_compression': decompress,
        Q + '_set_index_file_path': lambda i, vc, s, p, *a: i.setattr(s, 'indexFilePath', p),
    }, models={os.path.isfile: lambda vc, p: isfile, open: lambda vc, p, m='r': File(), os.environ.get: lambda vc, *a: None,
               dict: lambda vc, x: metadata, M.urllib.parse.quote: lambda vc, x: 'uri', print: lambda vc, *a, **k: None})
    check = Host(check_, 'check') if checked else None
    kind, r = attempt(lambda: interp.run_function(SQLiteIndex._load_index, [self, path, check]))
    usable = self.fields['sqlConnection'] is not None
    if kind == 'exc':
        vc.prove(z3.BoolVal(not usable), 'a rejected index is not used')
        return
    if not usable:
        vc.prove(z3.Not(isfile.z), 'only a missing index is silently skipped')
        return
    vc.prove(isfile.z, 'an index is used only if it exists')
    vc.prove(z3.And(flags['files'], z3.Not(flags['filestmp']), z3.Not(flags['parentfolders'])), 'an index is used only if it was completed')
    vc.prove(z3.Not(z3.And(flags['bzip2blocks'], z3.Not(flags['versions']))), 'an index with possibly wrong bzip2 offsets is not used')
    if checked:
        vc.prove(z3.Implies(flags['metadata'], z3.BoolVal(g['backend'] is True and g['check'] is True)), 'the recorded metadata was checked')
    p = self.fields['indexFilePath']
    vc.prove(z3.BoolVal(not (isinstance(p, str) and p == '/temporary/file')), 'the index used is the one asked for')


def unit_try_load(vc):
    g = {'removed': 0, 'loaded': vc.choose('already loaded')}
    readonly = vc.bool('readOnly')
    path = vc.watch('path', vc.str('indexFilePath'))
    outcome = {}

    def load(i, vc, s, p, checkMetadata=None):
        vc.prove(z3.BoolVal(p is path and checkMetadata == 'check'), 'the asked index is loaded with the check')
        vc.prove(z3.BoolVal(not g['loaded']), 'a loaded index is not replaced')
        if vc.choose('foreign'):
            outcome['e'] = MismatchingIndexError
        elif vc.choose('invalid'):
            outcome['e'] = [InvalidIndexError, sqlite3.DatabaseError, OSError, EOFError][vc.pick(4, 'error')]
        if 'e' in outcome:
            raise PyRaise(outcome['e'], ('failed',))
        g['loaded'] = vc.choose('it exists')

    def remove(vc, p):
        vc.prove(z3.BoolVal(p is path), 'only the invalid index is removed')
        vc.prove(z3.And(z3.Not(readonly.z), z3.Not(z3.Contains(path.z, z3.StringVal('://')))), 'nothing is removed read-only or remotely')
        vc.prove(z3.BoolVal(outcome.get('e') not in (None, MismatchingIndexError)), 'only an invalid index is removed')
        g['removed'] += 1
        if vc.choose('removing fails'):
            raise PyRaise(PermissionError, ('failed',))

    self = vc.new(Obj(SQLiteIndex, {'readOnly': readonly}, 'self'))
    already = g['loaded']
    interp = Interp(vc, contracts={Q + '_load_index': load, Q + 'index_is_loaded': lambda i, vc, s: g['loaded']}, models={os.remove: remove})
    kind, r = attempt(lambda: interp.run_function(SQLiteIndex._try_load_index, [self, path, 'check']))
    if kind == 'exc':
        vc.prove(outcome.get('e') is MismatchingIndexError and r.cls is MismatchingIndexError, 'only a foreign index is reported to the caller')
        return
    vc.prove(outcome.get('e') is not MismatchingIndexError, 'a foreign index is reported to the caller')
    vc.prove(z3.BoolVal(r is g['loaded']), 'it tells whether an index is loaded')
    if 'e' in outcome:
        may = z3.And(z3.Not(readonly.z), z3.Not(z3.Contains(path.z, z3.StringVal('://'))))
        vc.prove(z3.Implies(may, z3.BoolVal(g['removed'] == 1)), 'an invalid index is removed so that it gets recreated')
        vc.prove(z3.BoolVal(not g['loaded']), 'an invalid index is not used')
    vc.prove(not already or g['removed'] == 0, 'a loaded index stays')


def unit_create(vc):
    """create_index_timed: tables, then the entries, then finalize; an interruption propagates before finalize"""
    log = []

    class Conn(Model):
        def m_executescript(self, vc, sql):
            vc.prove(sql == SQLiteIndex._CREATE_TABLES, 'the tables are created by the script')
            log.append('tables')

    def create_(vc):
        log.append('create')
        if vc.choose('creating is interrupted'):
            raise PyRaise(KeyboardInterrupt, ())

    self = vc.new(Obj(SQLiteIndex, {'archiveFilePath': 'x'}, 'self'))
    interp = Interp(vc, contracts={Q + 'get_connection': lambda i, vc, s: Conn(), Q + 'finalize': lambda i, vc, s: log.append('finalize')},
                    models={print: lambda vc, *a: None, M.timer: lambda vc: 0})
    kind, r = attempt(lambda: interp.run_function(SQLiteIndex.create_index_timed, [self, Host(create_, 'create')]))
    if kind == 'exc':
        vc.prove(r.cls is KeyboardInterrupt and log == ['tables', 'create'], 'an interrupted index is not marked as complete')
    else:
        vc.prove(log == ['tables', 'create', 'finalize'], 'the index is marked as complete only after all entries are recorded')


def unit_finalize_index(vc):
    log = []
    loaded0 = vc.choose('an index is loaded')
    g = {'loaded': loaded0}
    readonly = vc.choose('read-only')
    self = vc.new(Obj(SQLiteIndex, {'readOnly': readonly, 'archiveFilePath': 'x' if vc.choose('archive path') else None,
                                    '_requestedIndexFilePath': 'y' if vc.choose('index path') else None, 'sqlConnection': None, 'indexFilePath': None}, 'self'))

    def opened(i, vc, s):
        log.append('open')
        g['loaded'] = True

    def created(i, vc, p):
        vc.prove(p == ':memory:', 'without permission to write, the index is kept in memory')
        log.append('open')
        g['loaded'] = True
        return (p, 'conn')

    def timed(i, vc, s, create_index):
        vc.prove(create_index == 'create', 'the index is created by the backend')
        log.append('create')
        if vc.choose('creating fails'):
            raise PyRaise(OSError, ('failed',))

    def store_(vc):
        log.append('metadata')

    interp = Interp(vc, contracts={Q + 'index_is_loaded': lambda i, vc, s: g['loaded'], Q + 'open_writable': opened, Q + '_create_sql_db': created,
                                   Q + 'create_index_timed': timed, Q + 'reload_index_read_only': lambda i, vc, s: log.append('reload')}, models={callable: lambda vc, x: True})
    w = vc.choose('write index')
    kind, r = attempt(lambda: interp.run_function(SQLiteIndex.finalize_index, [self, 'create', Host(store_, 'store')], {'writeIndex': w}))
    if loaded0:
        vc.prove(kind == 'ok' and log == ['reload'], 'a loaded index is used as it is')
    elif readonly:
        vc.prove(kind == 'exc' and issubclass(r.cls, InvalidIndexError) and log == [], 'nothing is created read-only')
    elif kind == 'exc':
        vc.prove(r.cls is OSError and log == ['open', 'create'], 'a failed creation records no metadata')
    else:
        vc.prove(log == ['open', 'create', 'metadata', 'reload'], 'metadata is recorded after the index is complete')


def unit_ms_check(vc):
    """SQLiteIndexMountSource._check_metadata hands everything to the checks and raises whatever they raise"""
    calls = []
    has_backend = vc.choose('backend recorded')
    meta = D(vc, ({'arguments': '{}'} if vc.choose('arguments') else {}) | ({'backendName': 'b'} if has_backend else {}))
    fails = vc.choose('the stats contradict')

    def st(i, vc, p, m, v):
        vc.prove(z3.BoolVal(p == 'archive' and m is meta and v is verify), 'the stats of this archive are checked, with the time if requested')
        calls.append('stats')
        if fails:
            raise PyRaise(InvalidIndexError, ('x',))

    first_fails = vc.choose('the first file cannot be read')

    class Index(Model):
        def m_try_to_open_first_file(self, vc, f):
            calls.append('first')
            if first_fails:
                raise PyRaise(InvalidIndexError, ('x',))

    verify = vc.bool('verify')
    self = vc.new(Obj(MS, {'archiveFilePath': 'archive', 'verifyModificationTime': verify, 'index': Index()}, 'self'))
    interp = Interp(vc, contracts={Q + 'check_archive_stats': st, Q + 'check_metadata_arguments': lambda i, vc, *a, **k: calls.append('arguments')},
                    models={json.loads: lambda vc, s: D(vc, {})})
    kind, r = attempt(lambda: interp.run_function(MS._check_metadata, [self, meta]))
    if kind == 'exc':
        vc.prove(issubclass(r.cls, InvalidIndexError) and (fails or 'first' in calls), 'an index is rejected only by a check')
    else:
        vc.prove('stats' in calls and not fails, 'an index whose stats contradict is rejected')
        vc.prove(bool(has_backend) or ('first' in calls and not first_fails), 'an index of an unknown backend is used only if the first file can be read')


def unit_tar_check(vc):
    """SQLiteIndexedTar._check_metadata2: normal return => nothing recorded contradicts, or the archive was marked as appended to"""
    has, exists = vc.choose('stats are recorded'), vc.choose('the archive is a file')
    rec, actual, size, time = stats(vc)
    verify = vc.watch('verify', vc.bool('verify'))
    readonly = vc.bool('readOnly')
    compressed = vc.choose('compressed')
    end = vc.choose('the end of the members is known')
    pos = vc.nat('position')
    g = {'marked': None, 'pos': None, 'rows': None, 'past': None}
    past = vc.nat('past_end')

    def mark(i, vc, s, st, a):
        vc.prove(z3.BoolVal(st is rec and a is actual), 'the recorded and the actual stats are compared')
        if vc.choose('cannot have been appended to'):
            raise PyRaise(InvalidIndexError, ('x',))
        vc.assume(z3.Not(readonly.z)) if vc.choose('marked') else vc.assume(readonly.z)
        g['marked'] = True
        i.setattr(s, 'hasBeenAppendedTo', SBool(z3.Not(readonly.z)))

    class Archive(Model):
        def m_tell(self, vc):
            return pos

        def m_seek(self, vc, p):
            g['pos'] = p

    class Stencil(Model):
        def enter(self, vc):
            return self

        def exit(self, vc, *a):
            return False

        def m_read(self, vc, n):
            g['past'] = vc.choose('only zeros follow the members')
            return b'\0' * 1024 if g['past'] else b'x' * 3

    archive = Archive()

    def stencil(i, vc, fileStencils=None, **k):
        it = fileStencils.items if isinstance(fileStencils, SList) else fileStencils
        vc.prove(z3.BoolVal(len(it) == 1 and it[0][0] is archive), 'the archive itself is looked at')
        vc.prove(z3.And(zi(it[0][1]) == past.z, zi(it[0][2]) >= 512), 'at the end of the indexed members')
        return Stencil()

    class Db(Model):
        def m_execute(self, vc, *a):
            return Cur()

    class Cur(Model):
        def m_fetchone(self, vc):
            return None

    class Index(Model):
        def a_sqlConnection(self, vc):
            return db

        def m_get_connection(self, vc):
            return db

    db = Db()
    meta = {}
    if has:
        meta['tarstats'] = 'stats'
    if vc.choose('arguments are recorded'):
        meta['arguments'] = 'args'
    incremental = vc.choose('incremental is recorded')
    if incremental:
        meta['isGnuIncremental'] = 'True'
    backend = vc.choose('a backend is recorded')
    if backend:
        meta['backendName'] = 'SQLiteIndexedTar'

    def rows(i, vc, s, r):
        g['rows'] = vc.choose('the first rows match')
        return g['rows']

    self = vc.new(Obj(T.SQLiteIndexedTar, {
        'tarFileName': 'name', 'compression': None if not compressed else T.FileFormatID.GZIP, 'tarFileObject': archive, 'index': Index(),
        'hasBeenAppendedTo': False, 'verifyModificationTime': verify, '_isGnuIncremental': None}, 'self'))
    interp = Interp(vc, contracts={
        TQ + '_try_to_mark_as_appended': mark, TQ + '_get_past_end_offset': lambda i, vc, c: past if end else None, TQ + '_check_rows_validity': rows,
        'ratarmountcore.StenciledFile:RawStenciledFile': stencil, Q + 'check_metadata_arguments': lambda i, vc, *a, **k: None,
    }, models={json.loads: lambda vc, s: rec if s == 'stats' else D(vc, {}), os.stat: lambda vc, p: actual, os.path.exists: lambda vc, p: exists})
    kind, r = attempt(lambda: interp.run_function(T.SQLiteIndexedTar._check_metadata2, [self, D(vc, meta)]))
    if g['past'] is not None:
        vc.prove(z3.BoolVal(g['pos'] is pos), 'the position in the archive is restored')
    if kind == 'exc':
        vc.prove(issubclass(r.cls, InvalidIndexError), f'an index is rejected as invalid (got {r.cls.__name__} at {r.where})')
        return
    if has and exists:
        smaller = z3.BoolVal(False) if size is None else actual.size.z < size.z
        larger = z3.BoolVal(False) if size is None else actual.size.z > size.z
        vc.prove(z3.Not(smaller), 'an index of a larger archive is rejected')
        vc.prove(z3.Implies(larger, z3.BoolVal(bool(g['marked']))), 'an index of a smaller archive is rejected unless members were appended')
        marked = z3.And(z3.BoolVal(bool(g['marked'])), z3.Not(readonly.z))
        vc.prove(z3.Implies(z3.And(verify.z, z3.Not(marked)), z3.Not(differ(time, actual.mtime))), 'an index of an archive of another time is rejected if requested')
        if end and not compressed:
            vc.prove(z3.Or(past.z == 0, z3.BoolVal(bool(g['past']) or bool(g['marked']))), 'an index not followed by the end of the archive is rejected unless members were appended')
    if not backend:
        vc.prove(g['rows'] is True, 'an index of an unknown backend is used only if its first files match')


def unit_mark(vc):
    rec, actual, size, time = stats(vc)
    readonly = vc.bool('readOnly')
    compressed = vc.choose('compressed')
    count = vc.nat('count')
    same = vc.choose('same index version')

    class Index(Model):
        def a_readOnly(self, vc):
            return readonly

        def m_file_count(self, vc):
            return count

        def m_get_index_version(self, vc):
            return SQLiteIndex.__version__ if same else '0.1.0'

    self = vc.new(Obj(T.SQLiteIndexedTar, {'compression': None if not compressed else T.FileFormatID.GZIP, 'index': Index(), 'hasBeenAppendedTo': False}, 'self'))
    interp = Interp(vc)
    kind, r = attempt(lambda: interp.run_function(T.SQLiteIndexedTar._try_to_mark_as_appended, [self, rec, actual]))
    if kind == 'exc':
        vc.prove(issubclass(r.cls, Exception) and not issubclass(r.cls, MismatchingIndexError), f'the index is rejected as invalid (got {r.cls.__name__} at {r.where})')
        vc.prove(self.fields['hasBeenAppendedTo'] is False, 'a rejected index is not extended')
        return
    vc.prove(size is not None and time is not None and not compressed, 'only an uncompressed archive of recorded size and time can have been appended to')
    if size is None or time is None:
        return
    vc.prove(z3.And(actual.size.z >= size.z, actual.mtime.z >= time.z), 'an archive that shrank or is older has not been appended to')
    marked = self.fields['hasBeenAppendedTo']
    vc.prove(z3.BoolVal(marked is True) == z3.Not(readonly.z), 'the archive is marked as appended to unless read-only')
    if marked is True:
        vc.prove(same, 'an index of another version is never extended')


def tree(ms):
    out = {}
    todo = ['/']
    while todo:
        f = todo.pop()
        for name, info in (ms.list(f) or {}).items():
            p = f.rstrip('/') + '/' + name
            out[p] = (info.size, info.mode, info.mtime, info.linkname, info.uid, info.gid, ms.versions(p))
            if stat.S_ISDIR(info.mode):
                todo.append(p)
            elif stat.S_ISREG(info.mode):
                with ms.open(ms.lookup(p)) as f2:
                    out[p] += (f2.read(),)
    return out


def write_archive(path, kind, members):
    if kind == 'zip':
        with zipfile.ZipFile(path, 'w') as z:
            for n, d in members:
                z.writestr(zipfile.ZipInfo(n, (2000, 1, 1, 0, 0, 0)), d)
    else:
        data = tarlib.build([tarlib.Member(n.encode(), d) for n, d in members])
        with open(path, 'wb') as f:
            f.write(gzip.compress(data) if kind == 'tar.gz' else data)


def open_archive(path, kind, index, **kw):
    cls = ZipMountSource if kind == 'zip' else T.SQLiteIndexedTar
    kw = {'writeIndex': True, 'indexFilePath': index, 'indexMinimumFileCount': 0} | kw
    return cls(path, **kw)


def random_members(rng, n=None):
    # at least one folder without header, so that folders have to be generated, and a repeated member
    names = ['d/a', 'd/b', 'c', 'd/e/f', 'g', 'c', 'h/i']
    return [(names[k % 7], rng.randbytes(rng.choice([0, 1, 5, 600]))) for k in range(n or rng.randrange(3, 8))]


def in_child(f):
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            f()
        except BaseException:  # pylint: disable=broad-except
            os._exit(3)
        os._exit(0)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


def interrupted(path, kind, index, kw, at):
    '''create the index in a child that is killed right before the at-th SQL statement; -> exit code (9: killed)'''
    def run():
        real = SQLiteIndex._open_sql_db
        left = [at]

        def trace(sql):
            left[0] -= 1
            if left[0] < 0:
                os._exit(9)

        def connect(p, **k):
            c = real(p, **k)
            if p == index:
                c.set_trace_callback(trace)
            return c

        SQLiteIndex._open_sql_db = staticmethod(connect)
        with open_archive(path, kind, index, **kw):
            pass

    return in_child(run)


def run_crash(ctx):
    quiet()
    for kind in ('tar', 'zip', 'tar.gz'):
        for kw in ({}, {'hashes': ['crc32', 'md5']}):
            for _ in range(ctx.budget(1, 6)):
                d = ctx.tmp()
                path, index = os.path.join(d, 'a.' + kind), os.path.join(d, 'i.sqlite')
                members = random_members(ctx.rng)
                write_archive(path, kind, members)
                with open_archive(path, kind, index, indexFilePath=':memory:', writeIndex=False) as ms:
                    want = tree(ms)
                at = 0
                while not ctx.out_of_time():
                    if os.path.exists(index):
                        os.remove(index)
                    code = interrupted(path, kind, index, kw, at)
                    with ctx.case({'archive': kind, 'members': members, 'options': kw, 'killed before statement': at}) as c:
                        c.check(all('/' + n in want for n, _d in members), 'all members are shown')
                        c.check(code in (0, 9), 'the index can be created', code=code)
                        with open_archive(path, kind, index, **kw) as ms:
                            c.equal(tree(ms), want, 'after an interrupted index creation the whole archive is shown')
                            if kw and kind == 'zip':  # a TAR does not resume computing checksums
                                for p, v in want.items():
                                    if len(v) == 8 and ms.versions(p) == 1:
                                        c.equal(ms.get_xattr(ms.lookup(p), 'user.hash.md5'), hashlib.md5(v[7]).hexdigest().encode(), 'and the checksums are complete')
                    if code == 0:
                        break
                    at += 1


def run_interrupt(ctx):
    '''index creation interrupted by an exception (e.g., Ctrl-C) after some reads'''
    quiet()
    for _ in range(ctx.budget(40, 400)):
        if ctx.out_of_time():
            return
        kind = ctx.rng.choice(['tar', 'zip', 'tar.gz'])
        d = ctx.tmp()
        path, index = os.path.join(d, 'a.' + kind), os.path.join(d, 'i.sqlite')
        members = random_members(ctx.rng)
        write_archive(path, kind, members)
        with open_archive(path, kind, index, indexFilePath=':memory:', writeIndex=False) as ms:
            want = tree(ms)
        fail_at = ctx.rng.randrange(0, 8)
        name = ctx.rng.choice(['set_file_info', 'set_file_infos', '_try_add_parent_folders', 'finalize'])
        count = [0]
        real = getattr(SQLiteIndex, name)

        def failing(self, *a, **k):
            count[0] += 1
            if count[0] > fail_at:
                raise KeyboardInterrupt
            return real(self, *a, **k)

        with ctx.case({'archive': kind, 'members': members, 'interrupted': [name, fail_at]}) as c:
            try:
                with mock.patch.object(SQLiteIndex, name, failing):
                    open_archive(path, kind, index).close()
            except KeyboardInterrupt:
                pass
            gc.collect()
            with open_archive(path, kind, index) as ms:
                c.equal(tree(ms), want, 'after an interrupted index creation the whole archive is shown')


def run_changed(ctx):
    quiet()
    for n in range(ctx.budget(130, 1500)):
        if ctx.out_of_time():
            return
        kind = ctx.rng.choice(['tar', 'zip', 'tar.gz'])
        d = ctx.tmp()
        path, index = os.path.join(d, 'a.' + kind), os.path.join(d, 'i.sqlite')
        old, new = random_members(ctx.rng), random_members(ctx.rng)
        change = ctx.rng.choice(['other size', 'other time', 'same', 'unfinished', 'other backend', 'no files', 'not an index', 'old bzip2', 'appended'])
        if change == 'appended':
            new = old + new
        write_archive(path, kind, old)
        os.utime(path, (1000, 1000))
        size = os.stat(path).st_size
        with ctx.case({'archive': kind, 'old': old, 'new': new, 'change': change}) as c:
            open_archive(path, kind, index).close()
            kw = {}
            if change in ('other size', 'appended'):
                write_archive(path, kind, new)
                if os.stat(path).st_size == size:
                    continue
                os.utime(path, (1000, 1000) if ctx.rng.random() < .5 else None)
            elif change == 'other time':
                # the same size, but other contents
                new = [(x.replace('d/', 'D/').replace('c', 'C'), b) for x, b in old]
                write_archive(path, kind, new)
                if os.stat(path).st_size != size:
                    continue
                os.utime(path, (ctx.rng.choice([999, 1001, 5000]),) * 2)
                kw = {'verifyModificationTime': True}
            else:
                new = old
                db = sqlite3.connect(index)
                if change == 'unfinished':
                    t = ctx.rng.choice(['filestmp', 'parentfolders'])
                    db.executescript(f'DELETE FROM files; CREATE TABLE {t} (a);')
                elif change == 'no files':
                    db.executescript('DROP TABLE files;')
                elif change == 'old bzip2':
                    db.executescript('DELETE FROM files; CREATE TABLE bzip2blocks (a); DROP TABLE versions;')
                elif change == 'other backend':
                    db.executescript("DELETE FROM files; UPDATE metadata SET value = 'Foreign' WHERE key = 'backendName';")
                db.commit()
                db.close()
                if change == 'not an index':
                    with open(index, 'wb') as f:
                        f.write(ctx.rng.choice([b'', b'x' * 5000, b'SQLite format 3\0' + b'x' * 5000]))
            before = os.stat(index)
            with open_archive(path, kind, index, indexFilePath=':memory:', writeIndex=False) as ms:
                want = tree(ms)
            try:
                with open_archive(path, kind, index, **kw) as ms:
                    got = tree(ms)
            except MismatchingIndexError:
                c.check(change == 'other backend', 'an index is foreign only if its backend differs')
                continue
            c.check(change != 'other backend', 'an index of another backend is rejected')
            c.equal(got, want, 'the current archive is shown')
            if change == 'same':
                c.check(os.stat(index).st_ino == before.st_ino, 'a valid index is kept')


def run_readonly(ctx):
    '''an index that may only be read is neither changed nor removed nor replaced'''
    quiet()
    for _ in range(ctx.budget(30, 200)):
        if ctx.out_of_time():
            return
        d = ctx.tmp()
        path, index = os.path.join(d, 'a.zip'), os.path.join(d, 'i.sqlite')
        old = random_members(ctx.rng)
        write_archive(path, 'zip', old)
        open_archive(path, 'zip', index).close()
        broken = ctx.rng.choice(['valid', 'unfinished', 'no files', 'garbage', 'smaller', 'direct unfinished', 'direct valid', 'direct garbage'])
        db = sqlite3.connect(index)
        if 'unfinished' in broken:
            db.executescript('CREATE TABLE filestmp (a);')
        elif broken == 'no files':
            db.executescript('DROP TABLE files;')
        db.commit()
        db.close()
        if 'garbage' in broken:
            with open(index, 'r+b') as f:
                f.seek(16)
                f.write(b'x' * 3000)
        if broken == 'smaller':
            write_archive(path, 'zip', old[:1])
        with open(index, 'rb') as f:
            data = f.read()
        with ctx.case({'index': broken, 'members': old}) as c:
            try:
                if broken.startswith('direct'):
                    with MS(index) as ms:
                        ms.list('/')
                    ok = True
                else:
                    with open_archive(path, 'zip', index, readOnlyIndex=True) as ms:
                        got = tree(ms)
                    ok = True
            except (RatarmountError, sqlite3.Error):
                ok = False
            c.check(ok == ('valid' in broken), 'a read-only index is used exactly if it is valid', used=ok)
            c.check(os.path.exists(index), 'a read-only index is not removed')
            with open(index, 'rb') as f:
                c.check(f.read() == data, 'a read-only index is not changed')


def run_candidates(ctx):
    '''several possible places for the index, with compressed or broken indexes in some'''
    quiet()
    for _ in range(ctx.budget(40, 300)):
        if ctx.out_of_time():
            return
        d = ctx.tmp()
        path = os.path.join(d, 'a.tar')
        members = random_members(ctx.rng)
        write_archive(path, 'tar', members)
        other = os.path.join(d, 'b.tar')
        write_archive(other, 'tar', random_members(ctx.rng, 60))
        folders = [os.path.join(d, f'f{k}') for k in range(3)]
        for f in folders:
            os.mkdir(f)
        good, bad = os.path.join(d, 'good'), os.path.join(d, 'bad')
        open_archive(path, 'tar', good).close()
        open_archive(other, 'tar', bad).close()
        probe = T.SQLiteIndexedTar(path, writeIndex=True, indexFolders=folders, indexMinimumFileCount=0)
        probe.close()
        name = [os.path.basename(x) for x in os.listdir(folders[0])][0]
        os.remove(os.path.join(folders[0], name))
        state = [ctx.rng.choice(['none', 'good', 'bad', 'good.gz', 'bad.gz', 'garbage', 'garbage.gz']) for _ in folders]
        for f, s in zip(folders, state):
            if s == 'none':
                continue
            data = b'x' * 4000
            if 'garbage' not in s:
                with open(good if 'good' in s else bad, 'rb') as g:
                    data = g.read()
            with open(os.path.join(f, name), 'wb') as g:
                g.write(gzip.compress(data) if s.endswith('.gz') else data)
        with ctx.case({'members': members, 'candidates': state}) as c:
            with T.SQLiteIndexedTar(path, writeIndex=True, indexFolders=folders, indexMinimumFileCount=0) as ms:
                got = tree(ms)
            with open_archive(path, 'tar', '', indexFilePath=':memory:', writeIndex=False) as ms:
                want = tree(ms)
            c.equal(got, want, 'the archive is shown')
            first = next((k for k, s in enumerate(state) if 'good' in s), None)
            for k, s in enumerate(state):
                if 'good' in s:
                    c.check(os.path.exists(os.path.join(folders[k], name)), 'a valid index is not removed', candidate=k, first=first)


ORACLES = [
    Oracle('interrupted index creation', run_crash, [SQLiteIndex.create_index_timed, SQLiteIndex._finalize_files_table, SQLiteIndex._load_index],
           'a TAR, ZIP and compressed TAR, with and without checksums, killed before every single SQL statement of creating the index', case_s=60, quick_s=60),
    Oracle('index creation stopped by an exception', run_interrupt, [SQLiteIndex.create_index_timed], '40 (400) creations interrupted in random calls'),
    Oracle('changed archives and indexes', run_changed, [SQLiteIndex.check_archive_stats, T.SQLiteIndexedTar._check_metadata2], '130 (1500) archives whose size, time, backend or index state changed'),
    Oracle('read-only indexes', run_readonly, [SQLiteIndex._try_load_index, MS.__init__], '30 (200) read-only indexes, valid and broken'),
    Oracle('several index candidates', run_candidates, [SQLiteIndex.open_existing, SQLiteIndex._load_index], '40 (300) combinations of 3 candidates in 7 states'),
]
TRUSTED = ['SQLite executes every statement atomically (a process killed inside a statement is not covered; the repository turns journaling off)',
           'os.stat reports the current size and modification time']
ASSUMPTIONS = ['an appended TAR may be completed instead of recreated', 'a read-only index of a TAR that was appended to is used as it is (documented)',
               'remote index locations are not downloaded']

UNITS = [
    Unit('SQLiteIndex.check_archive_stats', unit_stats, [SQLiteIndex.check_archive_stats], replay=replay_stats),
    Unit('SQLiteIndex.check_metadata_backend', unit_backend, [SQLiteIndex.check_metadata_backend]),
    Unit('SQLiteIndex._load_index', unit_load, [SQLiteIndex._load_index], max_paths=4000),
    Unit('SQLiteIndex._try_load_index', unit_try_load, [SQLiteIndex._try_load_index]),
    Unit('SQLiteIndex.create_index_timed', unit_create, [SQLiteIndex.create_index_timed]),
    Unit('SQLiteIndex.finalize_index', unit_finalize_index, [SQLiteIndex.finalize_index]),
    Unit('SQLiteIndexMountSource._check_metadata', unit_ms_check, [MS._check_metadata]),
    Unit('SQLiteIndexedTar._check_metadata2', unit_tar_check, [T.SQLiteIndexedTar._check_metadata2], max_paths=6000),
    Unit('SQLiteIndexedTar._try_to_mark_as_appended', unit_mark, [T.SQLiteIndexedTar._try_to_mark_as_appended]),
]
LEVEL = 'proof'
