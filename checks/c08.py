"""Contracts for the parent folders of an index: everything on the way to an entry is recorded, nothing else is, the cache of
recorded folders never claims more than was recorded, and finalising turns records into folders."""
import re
import sqlite3
import stat

import z3

from checks.c06 import Q
from checks.common import quiet
from checks.sqlmodel import Text, text
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.ops import zs
from pyvc.values import Host, Model, Obj, PyRaise, SBool, SInt, SList, Unsupported, Val, zi
from ratarmountcore import SQLiteIndex as M
from ratarmountcore.SQLiteIndex import SQLiteIndex

I, B = z3.IntSort(), z3.BoolSort()


class SplitPath(Text):
    """a folder path: its components and the paths made of the first ones"""

    def __init__(self, vc):
        super().__init__(vc.val('path').z)
        self.n = vc.nat('components').z
        self.part = vc.func('part', I, Val)
        self.prefix = vc.func('prefix', I, Val)
        vc.assume(self.n >= 1)

    def m_split(self, vc, sep=None):
        if sep != '/':
            raise Unsupported('split of a path')
        return vc.new(SList(self.n, lambda i: Text(self.part(i)), True, 'pathParts'))

    def join(self, vc, seq):
        k = z3.FreshConst(z3.IntSort(), 'join_k')
        e = seq.elem(k)
        if not isinstance(e, Text) or not z3.simplify(e.z).eq(self.part(k)):
            raise Unsupported('join of something else than the first components')
        return Text(self.prefix(seq.length))


def unit_parents(vc):
    p = SplitPath(vc)
    T0 = vc.func('recorded_before', Val, Val, B)
    state = {'T': T0}
    cp, cn = vc.func('cached_folder', I, Val), vc.func('cached_name', I, Val)
    m = vc.nat('cache_len')
    vc.watch('cache', m)
    cache = vc.new(SList(m.z, lambda i: (Text(cp(i)), Text(cn(i))), True, 'parentFolderCache'))
    j = z3.Int('j')
    vc.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m.z), T0(cp(j), cn(j))), patterns=[z3.MultiPattern(cp(j), cn(j))]))
    header, offset = vc.int('offsetheader'), vc.int('offset')

    class Conn(Model):
        def m_executemany(self, vc, sql, rows):
            t = re.sub(r'\s+', ' ', sql.strip()).lower()
            if t != 'insert or ignore into "parentfolders" values (?,?,?,?)':
                raise Unsupported('SQL statement ' + sql)
            if not isinstance(rows, SList) or rows.items is not None:
                raise Unsupported('parameters of the statement')
            k = vc.skolem('row')
            vc.assume(z3.And(k >= 0, k < rows.length))
            r = rows.elem(k)
            vc.prove(isinstance(r, tuple) and len(r) == 4, 'four columns are recorded')
            i = z3.Int('i_anc')
            vc.prove(z3.Exists([i], z3.And(i >= 1, i < p.n, text(r[0]) == p.prefix(i), text(r[1]) == p.part(i))),
                     'only folders on the way to the entry are recorded')
            vc.prove(z3.And(zi(r[2]) == header.z, zi(r[3]) == offset.z), 'they are recorded at the place of the entry')
            T, T1 = state['T'], vc.func('recorded', Val, Val, B)
            a, b = z3.Consts('a_ b_', Val)
            vc.assume(z3.ForAll([a, b], z3.Implies(T(a, b), T1(a, b)), patterns=[T(a, b)]))
            i = z3.Int('i_row')
            e = rows.elem(i)
            vc.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < rows.length), T1(text(e[0]), text(e[1])))))
            state['T'] = T1

    conn = Conn()
    self = vc.new(Obj(SQLiteIndex, {'parentFolderCache': cache}, 'self'))
    interp = Interp(vc, contracts={Q + 'get_connection': lambda i, vc, s: conn}, models={('join', '/'): lambda vc, seq: p.join(vc, seq)})
    kind, r = attempt(lambda: interp.run_function(SQLiteIndex._try_add_parent_folders, [self, p, header, offset]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    T = state['T']
    i = vc.skolem('ancestor')
    vc.assume(z3.And(i >= 1, i < p.n))
    vc.prove(T(p.prefix(i), p.part(i)), 'every folder on the way to the entry is recorded')
    c = self.fields['parentFolderCache']
    i = vc.skolem('cached')
    vc.assume(z3.And(i >= 0, i < c.length))
    e = c.elem(i)
    vc.prove(T(text(e[0]), text(e[1])), 'the cache only has folders that are recorded')


class Rows:
    """the rows of set_file_infos: 15 columns; the first is the folder"""

    def __init__(self, vc):
        self.n = vc.nat('rows')
        self.f = vc.func('row_folder', I, Val)
        self.h, self.o = vc.func('row_header', I, I), vc.func('row_offset', I, I)

    def row(self, k):
        return (Text(self.f(k)), Text(self.f(-k)), SInt(self.h(k)), SInt(self.o(k))) + tuple(SInt(self.h(k)) for _ in range(11))


def unit_set_file_infos(vc):
    rows = Rows(vc)
    lst = vc.new(SList(rows.n.z, rows.row, True, 'rows'))
    g = vc.new(Obj(None, {'done': SInt(z3.IntVal(0)), 'stored': False}, 'ghost'))
    conn_calls = []

    class Conn(Model):
        def m_executemany(self, vc, sql, given):
            if not re.match(r'insert or replace into "files" values \((\?,){14}\?\);?$', re.sub(r'\s+', ' ', sql.strip()).lower()):
                raise Unsupported('SQL statement ' + sql)
            vc.prove(z3.BoolVal(given is lst), 'all rows are stored')
            if vc.choose('a name cannot be encoded'):
                raise PyRaise(UnicodeEncodeError, ('utf-8', '', 0, 1, ''))
            g.fields['stored'] = True

    def parents(i, vc, self_, path, header, offset):
        k = zi(g.fields['done'])
        vc.prove(z3.And(text(path) == rows.f(k), zi(header) == rows.h(k), zi(offset) == rows.o(k)), 'the way to every row is recorded, at its place')
        interp.setattr(g, 'done', SInt(k + 1))

    def one(i, vc, self_, row):
        k = zi(g.fields['done'])
        vc.prove(z3.And(text(row[0]) == rows.f(k), zi(row[2]) == rows.h(k), len(row) == 15), 'every row is stored on its own')
        interp.setattr(g, 'done', SInt(k + 1))

    def inv(vc, L):
        return [('everything so far was handled', zi(g.fields['done']) == zi(L.k))]

    spec = LoopSpec(inv, heap=lambda vc, L: [(g, 'done', None)])
    count, limit = vc.nat('_insertedRowCount'), vc.nat('indexMinimumFileCount')
    reloaded = []
    self = vc.new(Obj(SQLiteIndex, {'_insertedRowCount': count, 'indexMinimumFileCount': limit, 'preferMemory': vc.bool('preferMemory'),
                                    'indexFilePath': ':memory:' if vc.choose('in memory') else '/index'}, 'self'))
    interp = Interp(vc, contracts={Q + 'get_connection': lambda i, vc, s: Conn(), Q + '_try_add_parent_folders': parents, Q + 'set_file_info': one,
                                   Q + '_reload_index_on_disk': lambda i, vc, s: reloaded.append(1)},
                    loops={(Q + 'set_file_infos', 0): spec, (Q + 'set_file_infos', 1): spec})
    kind, r = attempt(lambda: interp.run_function(SQLiteIndex.set_file_infos, [self, lst]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    vc.prove(zi(g.fields['done']) == rows.n.z, 'the way to every row is recorded')


def unit_set_file_info(vc):
    row = tuple([Text(vc.val('folder').z), Text(vc.val('name').z), vc.int('header'), vc.int('offset'), vc.int('size')])
    done, stored = [], []
    bad = vc.choose('a name cannot be encoded')
    ESC = vc.func('escaped', Val, Val)

    class Conn(Model):
        def m_execute(self, vc, sql, given):
            if not re.match(r'insert or replace into "files" values \((\?,)*\?\);?$', re.sub(r'\s+', ' ', sql.strip()).lower()):
                raise Unsupported('SQL statement ' + sql)
            vc.prove(sql.count('?') == len(given) == len(row), 'all columns are stored')
            if bad and given is row:
                raise PyRaise(UnicodeEncodeError, ('utf-8', '', 0, 1, ''))
            stored.append(given)

    def parents(i, vc, self_, path, header, offset):
        done.append((path, header, offset))

    self = vc.new(Obj(SQLiteIndex, {'encoding': 'utf-8'}, 'self'))
    interp = Interp(vc, contracts={Q + 'get_connection': lambda i, vc, s: Conn(), Q + '_try_add_parent_folders': parents,
                                   Q + '_escape_invalid_characters': lambda i, vc, *a: Text(ESC(text(a[-2])))})
    kind, r = attempt(lambda: interp.run_function(SQLiteIndex.set_file_info, [self, row]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    vc.prove(len(stored) == 1 and len(done) == 1, 'the row is stored and the way to it recorded')
    if len(stored) != 1 or len(done) != 1:
        return
    s, d = stored[0], done[0]
    for x, y in zip(s, row):
        if isinstance(y, Text):
            vc.prove(text(x) == (ESC(y.z) if bad else y.z), 'text is stored as it is, or escaped if it cannot be')
        else:
            vc.prove(zi(x) == y.z, 'numbers are stored as they are')
    vc.prove(z3.And(text(d[0]) == text(s[0]), zi(d[1]) == row[2].z, zi(d[2]) == row[3].z), 'the way to the stored folder is recorded')


# ---- finalising: the SQL text is read as a relational expression ----------------------------------------------------

def sql_condition(t, mode):
    """z3 form of a condition on mode (bit operations on 32 bits)"""
    tokens = re.findall(r'0x[0-9a-fA-F]+|\d+|mode|<<|==|!=|[()&=]', t)
    if ''.join(tokens).lower() != re.sub(r'\s+', '', t).lower():
        raise Unsupported('SQL condition ' + t)
    pos = 0

    def atom():
        nonlocal pos
        x = tokens[pos]
        pos += 1
        if x == '(':
            r = cmp_()
            if tokens[pos] != ')':
                raise Unsupported('SQL condition ' + t)
            pos += 1
            return r
        return mode if x == 'mode' else z3.BitVecVal(int(x, 0), 32)

    def bits():  # & and << have the same precedence in SQLite, above comparison
        nonlocal pos
        r = atom()
        while pos < len(tokens) and tokens[pos] in ('&', '<<'):
            op = tokens[pos]
            pos += 1
            o = atom()
            r = r & o if op == '&' else r << o
        return r

    def cmp_():
        nonlocal pos
        r = bits()
        while pos < len(tokens) and tokens[pos] in ('==', '=', '!='):
            op = tokens[pos]
            pos += 1
            o = bits()
            r = r != o if op == '!=' else r == o
        return r

    r = cmp_()
    if pos != len(tokens) or not z3.is_bool(r):
        raise Unsupported('SQL condition ' + t)
    return r


STATEMENTS = re.compile(r'^insert or replace into "files" select \* from "filestmp"(?: order by [^;]*)?; drop table "filestmp"; '
                        r'insert or ignore into "files" select path,name,offsetheader,offset,(?P<cols>[^;]*?) from "parentfolders" '
                        r'where (?P<key>\(path,name\)|path \|\| \'/\' \|\| name) not in \( ?select (?P<key2>path,name|path \|\| \'/\' \|\| name) '
                        r'from "files" where (?P<cond>[^;]*?) ?\) order by "path","name"; drop table "parentfolders"; vacuum; pragma optimize;?$')


def unit_finalize(vc):
    scripts = []

    class Conn(Model):
        def m_executescript(self, vc, sql):
            scripts.append(sql)

    old = vc.choose('old SQLite')
    have = vc.choose('unfinished')
    interp = Interp(vc, contracts={'ratarmountcore.SQLiteIndex:get_sqlite_tables': lambda i, vc, c: {'files', 'metadata'} | ({'filestmp', 'parentfolders'} if have else set()),
                                   'ratarmountcore.SQLiteIndex:_get_libsqlite_version': lambda i, vc: (3, 15, 2) if old else (3, 45, 1)})
    interp.run_function(SQLiteIndex._finalize_files_table, [Conn()])
    vc.prove(len(scripts) == (1 if have else 0), 'an unfinished table is finalised, a finished one left alone')
    if not have:
        return
    sql = re.sub(r'\s+', ' ', re.sub(r'/\*.*?\*/', '', scripts[0], flags=re.S)).strip().lower()
    m = STATEMENTS.match(sql)
    if not m:
        raise Unsupported('finalising statements: ' + sql)
    vc.prove(m['key'].strip('()') == m['key2'], 'paths and names are compared with paths and names')
    cols = [c.strip() for c in m['cols'].split(',')]
    vc.prove(len(cols) == 11, 'all columns are given')
    mode = int(cols[2])
    vc.prove(stat.S_ISDIR(mode) and mode & 0o555 == 0o555, 'generated entries are accessible folders')
    x = z3.BitVec('mode', 32)
    vc.watch('mode', SInt(z3.BV2Int(x)))
    isdir = (x & 0o170000) == stat.S_IFDIR
    vc.assume((x & 0xffff) == x)
    vc.prove(sql_condition(m['cond'], x) == isdir, 'a folder is generated exactly if the archive has none of that path')


UNITS = [Unit('SQLiteIndex._try_add_parent_folders', unit_parents, [SQLiteIndex._try_add_parent_folders]),
         Unit('SQLiteIndex.set_file_infos', unit_set_file_infos, [SQLiteIndex.set_file_infos]),
         Unit('SQLiteIndex.set_file_info', unit_set_file_info, [SQLiteIndex.set_file_info]),
         Unit('SQLiteIndex._finalize_files_table', unit_finalize, [SQLiteIndex._finalize_files_table])]


# ---- bounded -------------------------------------------------------------------------------------------------------

def check_tree(c, index, members, order=()):
    """members: path -> list of modes in archive order"""
    for path in members:
        comps = path.strip('/').split('/')
        for k in range(1, len(comps)):
            anc = '/' + '/'.join(comps[:k])
            own = members.get(anc, [])
            listing = index.list(anc.rsplit('/', 1)[0] or '/') or {}
            c.check(comps[k - 1] in listing, 'an ancestor is listed by its parent folder', ancestor=anc)
            info = index.lookup(anc)
            c.check(info is not None, 'an ancestor exists', ancestor=anc)
            if info is not None and all(stat.S_ISDIR(m) for m in own):
                c.check(stat.S_ISDIR(info.mode), 'an ancestor is a folder', ancestor=anc, mode=oct(info.mode))
                c.check(bool(own) != bool(info.mode == 0o555 | stat.S_IFDIR), 'a generated folder replaces no stored one, and is there if none is stored', ancestor=anc)
            below = [q for q, (p, _m) in enumerate(order) if p.startswith(anc + '/')]
            if own and below and not any(stat.S_ISDIR(m) for m in own) and all(q < below[0] for q, (p, _m) in enumerate(order) if p == anc):
                c.check(info is not None and stat.S_ISDIR(info.mode), 'a member below a replaced non-folder makes it a folder', ancestor=anc)
            c.check(comps[k] in (index.list(anc) or {}), 'an ancestor lists the next component', ancestor=anc)
            inner = index.list(anc) or {}
            if info is not None and own and stat.S_ISDIR(own[-1]) and all(stat.S_ISDIR(m) for m in own):
                c.equal(info.mode, own[-1], 'the stored folder is shown')
    reached = set()
    todo = ['']
    while todo:
        f = todo.pop()
        for n in index.list(f or '/') or {}:
            reached.add(f + '/' + n)
            todo.append(f + '/' + n)
    for path in members:
        c.check(path in reached, 'walking from the root reaches every stored path', path=path)


def run_index(ctx):
    quiet()
    modes = [0o100644, 0o100600, 0o040755, 0o040700, 0o120777, 0o060600, 0o020600, 0o010600]
    for _ in range(ctx.budget(900, 12000)):
        if ctx.out_of_time():
            return
        index = SQLiteIndex(':memory:') if ctx.rng.random() < .9 else SQLiteIndex(preferMemory=True, indexMinimumFileCount=ctx.rng.randrange(1, 30), archiveFilePath=None)
        index.open_writable()
        members = {}
        wide = ctx.rng.random() < .3
        header = 0
        batch, given = [], []
        for k in range(ctx.rng.randrange(1, 40 if wide else 9)):
            names = 'abcdefghij' if wide else 'ab'
            path = ''.join('/' + ctx.rng.choice(names) for _ in range(ctx.rng.choice([1, 2, 3, 4, 5, 12, 40] if wide else [1, 2, 2, 3, 4])))
            mode = ctx.rng.choice(modes)
            folder, name = path.rsplit('/', 1)
            header += ctx.rng.choice([1, 512, 1024])
            members.setdefault(path, []).append(mode)
            given.append((path, oct(mode)))
            batch.append((folder, name, header, header + 512, k, k, mode, 0, '', 0, 0, False, False, False, 0))
            if ctx.rng.random() < .4:
                if ctx.rng.random() < .5:
                    index.set_file_infos(batch)
                else:
                    for r in batch:
                        index.set_file_info(r)
                batch = []
        index.set_file_infos(batch)
        with ctx.case({'members': given}) as c:
            index.finalize()
            check_tree(c, index, members, given)
        index.close()


def run_archives(ctx):
    from checks import tarlib
    from ratarmountcore.mountsource.formats.tar import SQLiteIndexedTar
    import io
    import zipfile
    from ratarmountcore.mountsource.formats.zip import ZipMountSource
    quiet()
    for _ in range(ctx.budget(60, 800)):
        if ctx.out_of_time():
            return
        paths = ['/' + '/'.join(ctx.rng.choice(['a', 'b', 'ü', 'c d']) for _ in range(ctx.rng.randrange(1, 6))) for _ in range(ctx.rng.randrange(1, 8))]
        paths = list(dict.fromkeys(paths))
        paths = [p for p in paths if not any(q.startswith(p + '/') for q in paths)]
        with ctx.case({'paths': paths}) as c:
            t = tarlib.build([tarlib.Member(p.lstrip('/').encode(), b'x' * k) for k, p in enumerate(paths)])
            with SQLiteIndexedTar(fileObject=io.BytesIO(t), writeIndex=False) as ms:
                check_tree(c, ms.index, {p: [0o100644] for p in paths})
            b = io.BytesIO()
            with zipfile.ZipFile(b, 'w') as z:
                for p in paths:
                    z.writestr(p.lstrip('/'), 'x')
            b.seek(0)
            with ZipMountSource(b) as ms:
                check_tree(c, ms.index, {p: [0o100644] for p in paths})


ORACLES = [
    Oracle('indexes with random members', run_index, [SQLiteIndex._try_add_parent_folders, SQLiteIndex.set_file_infos, SQLiteIndex.set_file_info, SQLiteIndex._finalize_files_table],
           '900 (12000) random member lists: up to 40 members, up to 40 levels, 8 file types, batches and single rows'),
    Oracle('archives without folder headers', run_archives, [SQLiteIndex.set_file_infos], '60 (800) TAR and ZIP archives with up to 7 members of up to 5 levels'),
]
TRUSTED = ['SQLite executes the statements as their text says (parsed on every run); executemany inserts all rows or raises']
ASSUMPTIONS = ['an ancestor path that the archive also uses for a non-folder member may show that member (documented limitation)']
