"""The "files" table of an index as a symbolic relation, and the meaning of the SELECT statements over it.

For every (path, name) there are cnt(path, name) rows, numbered from the one with the lowest offsetheader; all rows of a folder
are numbered by offsetheader too.  The text of a statement is parsed on every run; whatever is not understood is unsupported."""
import re
import sqlite3

import z3

from pyvc import ops
from pyvc.values import Host, Model, Obj, PyRaise, SBool, SInt, SList, SReal, SStr, Unsupported, Val, from_native, zi

S, I, B = Val, z3.IntSort(), z3.BoolSort()
EMPTY = z3.Const('text_empty', Val)
COLUMNS = ['path', 'name', 'offsetheader', 'offset', 'size', 'mtime', 'mode', 'type', 'linkname', 'uid', 'gid', 'istar', 'issparse',
           'isgenerated', 'recursiondepth']
SCHEMAS = [COLUMNS, COLUMNS[:13], [c for c in COLUMNS[:12] if c != 'offsetheader']]
SORTS = {'linkname': S, 'istar': B, 'issparse': B, 'isgenerated': B}


class Text(Model):
    """a string of which only equality matters (names, folders, link targets)"""
    pytype = str

    def __init__(self, z):
        self.z = z

    def map_terms(self, f):
        return Text(f(self.z))

    def ite(self, vc, c, o):
        return Text(z3.If(c, self.z, o.z))

    def eq(self, vc, o):
        return SBool(self.z == text(o))

    def truth(self, vc):
        return self.z != EMPTY

    @staticmethod
    def encode_key(x):
        return text(x)


def text(x):
    if isinstance(x, Text):
        return x.z
    if isinstance(x, str):
        return EMPTY if not x else z3.Const('text_' + x, Val)
    raise Unsupported(f'{type(x).__name__} as a parameter of a statement')


def named(vc, z, name):
    if z3.is_const(z):
        return z
    c = vc.val(name).z
    vc.assume(c == z)
    return c


class Normal(Text):
    """a path in normal form"""

    def __init__(self, vc, whole, root, folder, name):
        super().__init__(whole)
        self.root, self.folder, self.name = root, folder, name
        vc.assume(z3.Implies(root, whole != EMPTY))
        vc.assume(z3.Implies(z3.Not(root), z3.And(name != EMPTY)))

    def eq(self, vc, o):
        if o == '/' and isinstance(o, str):
            return SBool(self.root)
        return super().eq(vc, o)

    def m_rsplit(self, vc, sep=None, maxsplit=-1):
        if sep != '/' or maxsplit != 1:
            raise Unsupported('rsplit of a normal form')
        return vc.new(SList(items=[self.part('folder'), self.part('name')]))

    def m_rpartition(self, vc, sep):
        if sep != '/':
            raise Unsupported('rpartition of a normal form')
        return (self.part('folder'), '/', self.part('name'))

    def part(self, k):
        return Text(z3.If(self.root, EMPTY, getattr(self, k)))

    def m_rstrip(self, vc, chars=None):
        if chars != '/':
            raise Unsupported('rstrip of a normal form')
        return Text(z3.If(self.root, EMPTY, self.z))


class Table:
    def __init__(self, vc, schema=0):
        self.vc = vc
        self.columns = SCHEMAS[schema]
        self.cnt = z3.Function('cnt', S, S, I)
        self.total = z3.Function('total', S, I)
        self.name_of = z3.Function('name_of', S, I, S)  # the j-th row of a folder, ordered by offsetheader
        self.idx_of = z3.Function('idx_of', S, I, I)
        self.pos = z3.Function('pos', S, S, I, I)
        self.fns = {c: z3.Function('col_' + c, S, S, I, SORTS.get(c, I)) for c in COLUMNS[2:]}
        p, n = z3.Consts('p_ n_', S)
        j, k, k2 = z3.Ints('j_ k_ k2_')
        c = self.cnt(p, n)
        vc.assume(z3.ForAll([p, n], c >= 0, patterns=[c]))
        vc.assume(z3.ForAll([p], self.total(p) >= 0, patterns=[self.total(p)]))
        vc.assume(z3.ForAll([p, j], z3.Implies(z3.And(j >= 0, j < self.total(p)), z3.And(
            self.idx_of(p, j) >= 0, self.idx_of(p, j) < self.cnt(p, self.name_of(p, j)), self.pos(p, self.name_of(p, j), self.idx_of(p, j)) == j)),
            patterns=[self.name_of(p, j)]))
        vc.assume(z3.ForAll([p, n, k], z3.Implies(z3.And(k >= 0, k < c), z3.And(
            self.pos(p, n, k) >= 0, self.pos(p, n, k) < self.total(p), self.name_of(p, self.pos(p, n, k)) == n,
            self.idx_of(p, self.pos(p, n, k)) == k)), patterns=[self.pos(p, n, k)]))
        vc.assume(z3.ForAll([p, n], z3.Implies(c > 0, self.pos(p, n, c - 1) >= 0), patterns=[c]))
        vc.assume(z3.ForAll([p, n, k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < c), self.pos(p, n, k) < self.pos(p, n, k2)),
                            patterns=[z3.MultiPattern(self.pos(p, n, k), self.pos(p, n, k2))]))

    def col(self, c, p, n, k):
        if c == 'path':
            return Text(p)
        if c == 'name':
            return Text(n)
        z = self.fns[c](p, n, k)
        return Text(z) if z.sort() == S else SBool(z) if z.sort() == B else SInt(z)


class Row(Model):
    """a sqlite3.Row"""

    def __init__(self, table, p, n, k, columns):
        self.t, self.p, self.n, self.k, self.columns = table, p, n, k, columns

    def map_terms(self, f):
        return Row(self.t, f(self.p), f(self.n), f(self.k), self.columns)

    def truth(self, vc):
        return True

    def m_keys(self, vc):
        return vc.new(SList(items=list(self.columns)))

    def getitem(self, vc, key):
        if isinstance(key, int):
            key = self.columns[key]
        if key not in self.columns:
            raise PyRaise(IndexError, ('No item with that key',))
        return self.t.col(key, self.p, self.n, self.k)

    def values(self):
        return tuple(self.t.col(c, self.p, self.n, self.k) for c in self.columns)


class Cursor(Model):
    def __init__(self, conn, seq):
        self.conn, self.seq, self.used = conn, seq, False

    def _convert(self, vc, row):
        factory = self.conn.factory
        if factory is None:
            return row.values()
        if factory is sqlite3.Row or factory is self.conn.ROW:
            return row
        return vc.interp.call(factory, [self, row.values()])

    def iterate(self, vc):
        # the row factory that applies is the one of the time the cursor was made; see Conn.m_execute
        return SList(self.seq.length, lambda i: self.rows(vc, self.seq.elem(i)), False, 'rows')

    def rows(self, vc, row):
        f = self.factory
        if f is None:
            return row.values()
        if f is self.conn.ROW:
            return row
        return vc.interp.call(f, [self, row.values()])

    def m_fetchone(self, vc):
        if vc.branch(self.seq.length > 0):
            return self.rows(vc, self.seq.elem(z3.IntVal(0)))
        return None


SELECT = re.compile(
    r'select (?P<cols>\*|[\w", ]+?) from "files"(?: where "path" == \(\?\)(?P<name> and "name" == \(\?\))?)?'
    r'(?: order by "?(?P<by>\w+)"?(?P<dir> asc| desc)?)?(?P<limit> limit 1 offset \(\?\))? ?;?$', re.I)


class Conn(Model):
    ROW = Host('sqlite3.Row') if False else sqlite3.Row

    def __init__(self, vc, table):
        self.table, self.factory, self.log = table, self.ROW, []

    def a_row_factory(self, vc):
        return self.factory

    def s_row_factory(self, vc, v):
        self.factory = v

    def m_execute(self, vc, sql, params=()):
        if not isinstance(sql, str):
            raise Unsupported('symbolic SQL')
        sql = re.sub(r'\s+', ' ', sql.strip())
        self.log.append((sql, params))
        cur = Cursor(self, None)
        cur.factory = self.factory
        t = self.table
        if sql.lower() == "select name from pragma_table_info('files');":
            cur.seq = SList(items=[OneColumn(c) for c in t.columns])
            return Plain(vc, [(c,) for c in t.columns])
        m = SELECT.match(sql)
        if not m:
            raise Unsupported('SQL statement ' + sql)
        cols = list(t.columns) if m['cols'] == '*' else [c.strip().strip('"') for c in m['cols'].split(',')]
        if any(c not in t.columns for c in cols):
            raise PyRaise(sqlite3.OperationalError, ('no such column',))
        params = params if isinstance(params, tuple) else tuple(ops.to_list(vc, params))
        want = (0 if ' "path" ==' not in sql else 1) + bool(m['name']) + bool(m['limit'])
        if len(params) != want:
            raise PyRaise(sqlite3.ProgrammingError, ('Incorrect number of bindings supplied',))
        if ' "path" ==' not in sql:
            raise Unsupported('SELECT over all rows')
        ordered = ' order by ' in sql.lower()
        # without an offsetheader column the quoted name is a string literal: no particular order
        if ordered and (m['by'] != 'offsetheader' or 'offsetheader' not in t.columns):
            ordered = False
        down = bool(m['dir']) and m['dir'].strip().lower() == 'desc'
        p = named(vc, text(params[0]), 'asked_path')
        if m['name']:
            n = named(vc, text(params[1]), 'asked_name')
            count = t.cnt(p, n)

            def row(i):
                return Row(t, p, n, order(count, i), cols)
        else:
            count = t.total(p)

            def row(i):
                j = order(count, i)
                return Row(t, p, t.name_of(p, j), t.idx_of(p, j), cols)
        perm = vc.func('any_order', I, I)

        def order(count, i):
            if not ordered:
                return perm(i)
            return count - 1 - i if down else i
        if not ordered:
            i = z3.Int('i_any')
            vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < count), z3.And(perm(i) >= 0, perm(i) < count)), patterns=[perm(i)]))
        if m['limit']:
            off = zi(params[-1])
            off = z3.If(off < 0, 0, off)
            cur.seq = SList(z3.If(off < count, z3.IntVal(1), z3.IntVal(0)), lambda i: row(off), False)
        else:
            cur.seq = SList(count, row, False)
        return cur


class OneColumn(Model):
    def __init__(self, c):
        self.c = c


class Plain(Model):
    def __init__(self, vc, rows):
        self.rows_ = rows

    def iterate(self, vc):
        return SList(items=list(self.rows_), mutable=False)

    def m_fetchone(self, vc):
        return self.rows_[0] if self.rows_ else None
