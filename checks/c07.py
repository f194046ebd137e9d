"""Contracts for the queries of an index over a symbolic "files" table: lookup, list, list_mode, versions and the mount source
delegating to them."""
import dataclasses
import sqlite3

import z3

from checks.c06 import Q
from checks.common import quiet
from checks.sqlmodel import EMPTY, Conn, Normal, Table, Text, text
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp
from pyvc.ops import truth, zs
from pyvc.values import Model, Obj, PyRaise, SDict, SInt, SList, SStr, zb, zi
from ratarmountcore.mountsource import SQLiteIndexMountSource as SM
from ratarmountcore.mountsource import FileInfo
from ratarmountcore.SQLiteIndex import SQLiteIndex, SQLiteIndexedTarUserData

FIELDS = ['size', 'mtime', 'mode', 'linkname', 'uid', 'gid']
USER = ['offset', 'offsetheader', 'istar', 'issparse', 'isgenerated', 'recursiondepth']


class Root(Model):
    pass


def same(vc, a, b):
    """a value of the code equals a column"""
    if isinstance(b, Text):
        return text(a) == b.z
    za, zb_ = (zb(a) if b.z.sort() == z3.BoolSort() else zi(a)), b.z
    return za == zb_


def check_info(vc, info, t, p, n, k, what):
    ok = isinstance(info, Obj) and info.cls is FileInfo
    vc.prove(ok, f'{what} is described')
    if not ok:
        return
    for f in FIELDS:
        vc.prove(same(vc, info.fields[f], t.col(f, p, n, k)), f'{what} has the stored {f}')
    ud = info.fields['userdata']
    ok = isinstance(ud, SList) and ud.items is not None and len(ud.items) == 1 and isinstance(ud.items[0], Obj) and ud.items[0].cls is SQLiteIndexedTarUserData
    vc.prove(ok, f'{what} carries the data of the index')
    if not ok:
        return
    for f in USER:
        v = ud.items[0].fields[f]
        if f in t.columns:
            vc.prove(same(vc, v, t.col(f, p, n, k)), f'{what} has the stored {f}')
        else:
            vc.prove(z3.Not(zb(truth(vc, v))), f'{what} has no {f} in an old index')


class Failing(Conn):
    """a connection on which any statement may fail"""

    def __init__(self, vc, table, fails=True):
        super().__init__(vc, table)
        self.fails = fails

    def m_execute(self, vc, sql, params=()):
        if self.fails and params and vc.choose('the statement fails'):
            raise PyRaise(sqlite3.OperationalError, ('failed',))
        return super().m_execute(vc, sql, params)


def setup(vc, schema, fails=False):
    t = Table(vc, schema)
    conn = Failing(vc, t, fails)
    self = vc.new(Obj(SQLiteIndex, {'sqlConnection': conn}, 'self'))
    p = vc.watch('path', vc.str('path'))

    normal = Normal(vc, vc.val('whole').z, vc.bool('is_root').z, vc.val('folder').z, vc.val('name').z)

    def norm(i, vc, *a):
        vc.prove(z3.BoolVal(a[-1] is p), 'the given path is normalised')
        return normal

    roots = []

    def root(i, vc, userdata=None):
        roots.append(userdata)
        return Root()

    interp = Interp(vc, contracts={Q + '_query_normpath': norm, Q + 'get_connection': lambda i, vc, s: s.fields['sqlConnection'],
                                   'ratarmountcore.mountsource.MountSource:create_root_file_info': root})
    return t, conn, self, p, normal, interp


def unit_lookup(schema):
    def run(vc):
        t, conn, self, p, nf, interp = setup(vc, schema)
        v = vc.watch('version', vc.int('version'))
        f, n = nf.folder, nf.name
        kind, info = attempt(lambda: interp.run_function(SQLiteIndex.lookup, [self, p, v]))
        if kind == 'exc':
            vc.prove(False, f'a look-up raises nothing (got {info.cls.__name__} at {info.where})')
            return
        if isinstance(info, Root):
            vc.prove(nf.root, 'only the root is made up')
            return
        vc.prove(z3.Not(nf.root), 'the root always exists')
        c = t.cnt(f, n)
        vc.watch('versions stored', SInt(c))
        k = z3.If(v.z > 0, v.z - 1, c - 1 + v.z)
        exists = z3.And(k >= 0, k < c)
        if info is None:
            vc.prove(z3.Not(exists), 'nothing is found only if there is no such version')
            return
        vc.prove(exists, 'something is found only if there is such a version')
        check_info(vc, info, t, f, n, k, 'the version found')

    return Unit(f'SQLiteIndex.lookup[schema {schema}]', run, [SQLiteIndex.lookup, SQLiteIndex._row_to_file_info], timeout_ms=20000)


def unit_versions(schema):
    def run(vc):
        t, conn, self, p, nf, interp = setup(vc, schema)
        f, n = nf.folder, nf.name
        d = interp.run_function(SQLiteIndex.versions, [self, p])
        if d.items is not None:
            vc.prove(z3.And(nf.root, z3.BoolVal(len(d.items) == 1)), 'only the root is made up')
            return
        vc.prove(z3.Not(nf.root), 'the root always exists')
        c = t.cnt(f, n)
        vc.prove(zi(d.size) == c, 'there are as many versions as stored entries')
        k = vc.watch('version', vc.int('k')).z
        key = d.key(SStr(z3.IntToStr(k)))
        vc.prove(z3.Implies(z3.And(k >= 1, k <= c), d.has(key)), 'versions 1 to n exist')
        vc.assume(z3.And(k >= 1, k <= c))
        check_info(vc, d.get(key), t, f, n, k - 1, 'the k-th version')

    return Unit(f'SQLiteIndex.versions[schema {schema}]', run, [SQLiteIndex.versions, SQLiteIndex._row_to_file_info], timeout_ms=20000)


def unit_list(schema, mode):
    def run(vc):
        fn = SQLiteIndex.list_mode if mode else SQLiteIndex.list
        t, conn, self, p, nf, interp = setup(vc, schema)
        folder = z3.If(nf.root, EMPTY, nf.z)
        kind, d = attempt(lambda: interp.run_function(fn, [self, p]))
        if kind == 'exc':
            vc.prove(False, f'listing raises nothing (got {d.cls.__name__} at {d.where})')
            return
        if d is None:
            n = vc.val('n').z
            vc.prove(t.total(folder) == 0, 'nothing is listed only if the folder has no entries')
            vc.prove(t.cnt(folder, n) <= 0, 'nothing is listed only if no name has entries')
            return
        vc.prove(t.total(folder) > 0, 'something is listed only if the folder has entries')
        n = vc.watch('name', vc.val('n')).z
        c = t.cnt(folder, n)
        vc.watch('versions stored', SInt(c))
        vc.prove(z3.Implies(z3.And(c > 0, n != EMPTY), d.has(n)), 'every name with entries is listed')
        vc.prove(z3.Implies(d.has(n), c > 0), 'only names with entries are listed')
        vc.prove(z3.Not(d.has(EMPTY)), 'no empty name is listed')
        vc.assume(d.has(n))
        if mode:
            vc.prove(zi(d.get(n)) == t.fns['mode'](folder, n, c - 1), 'the mode listed is that of the newest version')
        else:
            check_info(vc, d.get(n), t, folder, n, c - 1, 'the newest version')

    fn = SQLiteIndex.list_mode if mode else SQLiteIndex.list
    return Unit(f'SQLiteIndex.{fn.__name__}[schema {schema}]', run, [fn], timeout_ms=20000, max_s=200)


def unit_failing(name):
    """whatever fails, the connection answers the next query as before"""
    fn = getattr(SQLiteIndex, name)

    def run(vc):
        t, conn, self, p, nf, interp = setup(vc, 0, True)
        kind, d = attempt(lambda: interp.run_function(fn, [self, p]))
        vc.prove(z3.BoolVal(conn.factory is conn.ROW), 'the row factory is that of before the query')

    return Unit(f'SQLiteIndex.{name}[failing statement]', run, [fn])


def unit_delegate(name):
    fn = getattr(SM.SQLiteIndexMountSource, name)

    def run(vc):
        calls = []

        class Index(Model):
            pass

        answer = Root()
        size = vc.nat('n')
        answers = {'versions': vc.new(SDict(lambda x: zs(x), lambda k: z3.BoolVal(True), lambda k: answer, size))}

        def method(n):
            def m(self, vc, *a, **k):
                calls.append((n, a, k))
                return answers.get(n, answer)
            return m

        for n in ('lookup', 'list', 'list_mode', 'versions', 'list_xattr', 'get_xattr'):
            setattr(Index, 'm_' + n, method(n))
        self = vc.new(Obj(SM.SQLiteIndexMountSource, {'index': Index()}, 'self'))
        interp = Interp(vc)
        p = vc.str('path')
        more = {'lookup': [vc.int('version')], 'get_xattr': [vc.str('key')]}.get(name, [])
        r = interp.run_function(fn, [self, p] + more)
        vc.prove(len(calls) == 1 and calls[0][0] == name, 'the index is asked once, and for the same thing')
        if len(calls) != 1:
            return
        _n, a, k = calls[0]
        given = list(a) + [k[x] for x in ('fileVersion', 'key') if x in k]
        vc.prove(len(given) == 1 + len(more) and given[0] is p and all(x is y for x, y in zip(given[1:], more)), 'the index is asked for the given path and version')
        if name == 'versions':
            vc.prove(zi(r) == size.z, 'the number of versions is returned')
        else:
            vc.prove(r is answer, 'the answer of the index is returned')

    return Unit(f'SQLiteIndexMountSource.{name}', run, [fn])


UNITS = [unit_lookup(0), unit_lookup(1), unit_versions(0), unit_versions(1), unit_list(0, False), unit_list(1, False), unit_list(0, True),
         unit_failing('list'), unit_failing('list_mode')] + [unit_delegate(n) for n in ('lookup', 'list', 'list_mode', 'versions', 'list_xattr', 'get_xattr')]


# ---- bounded: real indexes against a reference ---------------------------------------------------------------------

def row(rng, folder, name, header, kind):
    mode = {'d': 0o040755, 'f': 0o100644, 'l': 0o120777}[kind]
    return (folder, name, header, header + 512 if rng.random() < .7 else rng.randrange(9), rng.randrange(100), rng.randrange(10 ** 9), mode | rng.randrange(8), 0,
            'target' if kind == 'l' else '', rng.randrange(3), rng.randrange(3), rng.random() < .2, rng.random() < .2, False, rng.randrange(3))


def expect(row_):
    return FileInfo(size=row_[4], mtime=row_[5], mode=row_[6], linkname=row_[8], uid=row_[9], gid=row_[10], userdata=[
        SQLiteIndexedTarUserData(row_[3], row_[2], row_[11], row_[12], row_[13], row_[14])])


def run_index(ctx):
    quiet()
    names = ['a', 'b', 'c', 'A', 'a%', '_']
    for _ in range(ctx.budget(2500, 20000)):
        if ctx.out_of_time():
            return
        table = {}
        for header in range(0, ctx.rng.randrange(1, 14)):
            depth = ctx.rng.randrange(3)
            folder = ''.join('/' + ctx.rng.choice(names[:3]) for _ in range(depth))
            name = ctx.rng.choice(names)
            r = row(ctx.rng, folder, name, header * ctx.rng.choice([1, 1, 512, 10 ** 10]), ctx.rng.choice('dffl'))
            table[r[0], r[1], r[2]] = r
        stored = list(table.values())
        ctx.rng.shuffle(stored)
        old = ctx.rng.random() < .2
        index = SQLiteIndex(':memory:')
        index.open_writable()
        db = index.get_connection()
        if old:  # an index of before version 0.6.0
            db.execute('DROP TABLE "files"')
            db.execute('CREATE TABLE "files" ("path" VARCHAR(65535) NOT NULL,"name" VARCHAR(65535) NOT NULL,"offsetheader" INTEGER,"offset" INTEGER,'
                       '"size" INTEGER,"mtime" REAL,"mode" INTEGER,"type" INTEGER,"linkname" VARCHAR(65535),"uid" INTEGER,"gid" INTEGER,"istar" BOOL,'
                       '"issparse" BOOL,PRIMARY KEY ("path","name","offsetheader"))')
            stored = [r[:13] + (False, 0) for r in stored]
        db.executemany('INSERT INTO "files" VALUES (' + ','.join('?' * (13 if old else 15)) + ')', [r[:13] if old else r for r in stored])
        with ctx.case({'rows': [r[:3] for r in stored], 'old': old}) as c:
            byname = {}
            for r in sorted(stored, key=lambda r: r[2]):
                byname.setdefault((r[0], r[1]), []).append(r)
            folders = {''} | {r[0] for r in stored} | {r[0] + '/' + r[1] for r in stored} | {'/nope'}
            for folder in folders:
                want = {n: expect(rows[-1]) for (p, n), rows in byname.items() if p == folder}
                got = index.list(folder or '/')
                c.equal(got if want else (got or {}), want, f'listing of {folder!r}')
                c.check(want or got is None, 'a folder without entries does not exist', folder=folder)
                c.equal(index.list_mode(folder or '/') or {}, {n: i.mode for n, i in want.items()}, f'modes of {folder!r}')
                for n in set(want) | set(names[:2]):
                    path = folder + '/' + n
                    rows = byname.get((folder, n), [])
                    c.equal(list(index.versions(path)), [str(k + 1) for k in range(len(rows))], f'versions of {path!r}')
                    c.equal(list(index.versions(path).values()), [expect(r) for r in rows], f'versions of {path!r}')
                    for v in range(-len(rows) - 1, len(rows) + 3):
                        k = v - 1 if v > 0 else len(rows) - 1 + v
                        c.equal(index.lookup(path, v), expect(rows[k]) if 0 <= k < len(rows) else None, f'version {v} of {path!r}')
            if ctx.rng.random() < .3:
                for f in (index.list, index.list_mode):
                    try:
                        f('/\udcff')
                    except Exception:  # pylint: disable=broad-except
                        pass
                    for (p, n), rows in byname.items():
                        c.equal(index.lookup(p + '/' + n), expect(rows[-1]), 'look-up after a failed listing')
        index.close()


ORACLES = [Oracle('indexes with random rows', run_index, [SQLiteIndex.lookup, SQLiteIndex.list, SQLiteIndex.list_mode, SQLiteIndex.versions],
                  '2500 (20000) random tables of up to 13 rows in up to 2 folder levels, current and old schema, all versions from -n-1 to n+2')]
TRUSTED = ['SQLite executes the SELECT statements over "files" as their text says (parsed on every run)', 'posixpath.normpath as in C06']
ASSUMPTIONS = ['the primary key of "files" orders the versions of one path by offsetheader without ties (rows without an offsetheader excluded)']
