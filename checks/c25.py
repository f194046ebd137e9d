"""C25 Data stored as database blobs is read back unchanged.

Contracts on the writer (the stored blobs followed by the unfinished blob are the stream written so far, for any sequence of chunks), on
the readers (a blob's range is asked for correctly, all blobs are joined in the order of their rows) and bounded runs through SQLite.
"""
import io
import sqlite3

import z3

from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.ops import mk_int
from pyvc.values import Model, Obj, SBytes, SInt, SList, Unsupported, sbytes_of, zi
from ratarmountcore import SQLiteBlobFile as M
from ratarmountcore import StenciledFile as F
from ratarmountcore.SQLiteIndex import SQLiteIndex
from ratarmountcore.mountsource.formats import sqlar

I = z3.IntSort()
Q = 'ratarmountcore.SQLiteBlobFile:'
W = M.WriteSQLiteBlobs


# ------------------------------------------------------------------------------------------------ the writer
class Stream:
    """the stream of everything that is written: byte i is G(i); the first `stored` bytes are in the database"""

    def __init__(self, vc):
        self.G = vc.func('stream', I, I)
        self.stored = vc.nat('stored').z
        self.limit = vc.nat('blob size').z
        vc.assume(self.limit >= 1)


class Blob(Model):
    """io.BytesIO: stream bytes [start, start + length)"""

    def __init__(self, stream, start, length):
        self.stream, self.start, self.length = stream, start, length

    def m_tell(self, vc):
        return mk_int(self.length)

    def m_write(self, vc, data):
        b = data.bytes() if isinstance(data, View) else sbytes_of(data)
        k = vc.skolem()
        vc.prove(z3.Implies(z3.And(0 <= k, k < b.length), b.at(k) == self.stream.G(self.start + self.length + k)), 'the stream is continued where it ended')
        vc.prove(b.length >= 0, 'something is written')
        self.length = self.length + b.length
        vc.log_write(self.stream, 'stored')  # the unfinished blob is havocked with it
        return mk_int(b.length)

    def m_getbuffer(self, vc):
        return Contents(self.stream, self.start, self.length)

    m_getvalue = m_getbuffer


class Contents(Model):
    pytype = bytes

    def __init__(self, stream, start, length):
        self.stream, self.start, self.length = stream, start, length

    def len(self, vc):
        return mk_int(self.length)


class View(Model):
    """memoryview of bytes"""

    def __init__(self, data):
        self.data = data

    def bytes(self):
        return self.data

    def enter(self, vc):
        return self

    def exit(self, vc, *a):
        pass

    def m_release(self, vc):
        pass

    def m_cast(self, vc, kind):
        vc.prove(kind == 'B', 'a view of bytes')
        return self

    def a_nbytes(self, vc):
        return mk_int(self.data.length)

    def len(self, vc):
        return mk_int(self.data.length)

    def getslice(self, vc, lo, hi, step=None):
        if step is not None:
            raise Unsupported('step')
        n = self.data.length

        def clamp(x):
            x = zi(x)
            return z3.If(x < 0, z3.If(x + n < 0, 0, x + n), z3.If(x > n, n, x))
        a = z3.IntVal(0) if lo is None else clamp(lo)
        b = n if hi is None else clamp(hi)
        data = self.data
        return View(SBytes(z3.simplify(z3.If(b > a, b - a, 0)), lambda k: data.at(a + k)))


class Database(Model):
    def __init__(self, stream):
        self.stream = stream

    def m_execute(self, vc, sql, parameters=()):
        s = self.stream
        vc.prove(isinstance(sql, str) and sql.split() == ['INSERT', 'INTO', 'blobs', 'VALUES', '(?)'], 'a row is added to the table')
        data, = parameters
        vc.prove(isinstance(data, (Contents, SBytes, bytes)), 'the blob is stored as it is')
        if isinstance(data, Contents):
            vc.prove(data.start == s.stored, 'blobs are stored in order without gaps')
            vc.prove(data.length <= s.limit, 'no blob exceeds the blob size')
            vc.prove(data.length > 0, 'no empty blobs are stored')
            s.stored = s.stored + data.length
            vc.log_write(s, 'stored')


def writer(vc):
    s = Stream(vc)
    inside = vc.nat('in the unfinished blob').z
    vc.assume(inside < s.limit)
    blob = Blob(s, s.stored, inside)
    me = vc.new(Obj(W, {'connection': Database(s), 'table': 'blobs', 'blob_size': mk_int(s.limit), 'blob': blob,
                        '_size': mk_int(s.stored + inside)}, 'writer'))
    models = {io.BytesIO: lambda vc, *a: Blob(s, s.stored, z3.IntVal(0)), memoryview: lambda vc, b: View(sbytes_of(b))}
    return s, me, models


def consistent(s, me, total, full=False):
    """-> facts: what is stored followed by the unfinished blob are the first `total` bytes"""
    b = me.fields['blob']
    return [('what is stored and the unfinished blob are everything written', z3.And(b.start == s.stored, b.start + b.length == total)),
            ('the unfinished blob stays below the blob size', z3.And(b.length >= 0, b.length <= s.limit if full else b.length < s.limit))]


def unit_write(vc):
    s, me, models = writer(vc)
    n = vc.watch('n', vc.nat('n')).z
    start = zi(me.fields['_size'])
    data = SBytes(n, lambda k: s.G(start + k))

    def inv(vc, L):
        done = zi(L.writtenCount)
        return [('progress', z3.And(0 <= done, done <= n))] + consistent(s, me, start + done)

    def fresh(vc):
        s.stored = vc.nat('stored').z
        return Blob(s, s.stored, vc.nat('length').z)

    loops = {(Q + 'WriteSQLiteBlobs.write', 0): LoopSpec(
        inv, havoc={'writtenCount': lambda vc, L: vc.nat('written')},
        heap=lambda vc, L: [(me, 'blob', lambda vc: fresh(vc)), (s, 'stored', lambda vc: s.stored)],
        decreases=lambda vc, L: n - zi(L.writtenCount))}
    interp = Interp(vc, loops=loops, models=models)
    kind, r = attempt(lambda: interp.run_function(W.write, [me, data]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    vc.prove(zi(r) == n, 'everything is reported as written')
    vc.prove(zi(me.fields['_size']) == start + n, 'the position is the number of bytes written')
    for name, fact in consistent(s, me, start + n):
        vc.prove(fact, name)


def unit_close(name):
    def run(vc):
        s, me, models = writer(vc)
        total = zi(me.fields['_size'])
        interp = Interp(vc, models=models)
        fn = getattr(W, name)
        kind, r = attempt(lambda: interp.run_function(fn, [me] + ([None] * 3 if name == '__exit__' else [])))
        vc.prove(kind == 'ok', 'nothing is raised')
        vc.prove(s.stored == total, 'everything written is stored')
        for what, fact in consistent(s, me, total):
            vc.prove(fact, what)
        before = s.stored
        attempt(lambda: interp.run_function(W.close, [me]))
        vc.prove(s.stored == before, 'closing again stores nothing more')
    return Unit('WriteSQLiteBlobs.' + name, run, [getattr(W, name), W._flush_blob, W.close])


def unit_new(vc):
    s = Stream(vc)
    vc.assume(s.stored == 0)
    interp = Interp(vc, models={io.BytesIO: lambda vc, *a: Blob(s, s.stored, z3.IntVal(0))})
    me = vc.new(Obj(W, {}, 'writer'))
    interp.run_function(W.__init__, [me, Database(s), 'blobs', mk_int(s.limit)])
    for what, fact in consistent(s, me, z3.IntVal(0)):
        vc.prove(fact, what)
    vc.prove(zi(interp.run_function(W.tell, [me])) == 0, 'the position is 0')
    vc.prove(me.fields.get('table') == 'blobs', 'the table')
    vc.prove(zi(me.fields['blob_size']) == s.limit, 'the blob size')


def unit_tell(vc):
    s, me, models = writer(vc)
    total = zi(me.fields['_size'])
    interp = Interp(vc, models=models)
    vc.prove(zi(interp.run_function(W.tell, [me])) == total, 'the position is the number of bytes written')
    offset, whence = vc.int('offset'), vc.pick(3)
    kind, r = attempt(lambda: interp.run_function(W.seek, [me, offset, whence]))
    stays = zi(offset) == (total if whence == 0 else 0)
    if kind == 'exc':
        vc.prove(issubclass(r.cls, io.UnsupportedOperation), 'seeks elsewhere are refused')
        vc.prove(z3.Not(stays), 'a seek to the current position is allowed')
    else:
        vc.prove(stays, 'seeks elsewhere are refused')
        vc.prove(zi(r) == total, 'the position')
    vc.prove(zi(me.fields['_size']) == total, 'nothing is changed')
    for what, fact in consistent(s, me, total):
        vc.prove(fact, what)


# ------------------------------------------------------------------------------------------------ the readers
class Row(Model):
    def __init__(self, value):
        self.value = value

    def m_fetchone(self, vc):
        return self.value


class OneBlob(Model):
    """a database in which the expression selects one blob"""

    def __init__(self, vc):
        self.data, self.size = vc.func('data', I, I), vc.nat('size').z

    def m_execute(self, vc, sql, parameters=()):
        words = sql.replace(' ', '')
        if words == 'SELECTLENGTH(data)FROMtWHEREROWID==7':
            return Row((mk_int(self.size),))
        vc.prove(words == 'SELECTsubstr(data,?,?)FROMtWHEREROWID==7', 'a part of the blob is selected')
        first, count = zi(parameters[0]), zi(parameters[1])
        # SQLite: the first byte is 1, negative numbers count from the end and backwards
        vc.prove(z3.And(first >= 1, count >= 0), 'the range is one of the blob')
        start = first - 1
        left = z3.If(self.size > start, self.size - start, 0)
        return Row((SBytes(z3.If(count < left, count, left), lambda k: self.data(start + k)),))


EXPRESSION = 'SELECT {}data{} FROM t WHERE ROWID == 7'


def unit_part(vc):
    db = OneBlob(vc)
    offset, n = vc.nat('offset').z, vc.nat('n').z
    r = sbytes_of(Interp(vc).run_function(M.SQLiteBlobFile.read_blob_part, [db, EXPRESSION, mk_int(offset), mk_int(n)]))
    left = z3.If(db.size > offset, db.size - offset, 0)
    vc.prove(r.length == z3.If(n < left, n, left), 'as much as there is')
    k = vc.skolem()
    vc.prove(z3.Implies(z3.And(0 <= k, k < r.length), r.at(k) == db.data(offset + k)), 'the bytes at the offset')


def unit_blob_file(vc):
    db = OneBlob(vc)
    me = vc.new(Obj(M.SQLiteBlobFile, {}, 'blob file'))
    given = vc.choose('the size is given')
    interp = Interp(vc)
    interp.run_function(M.SQLiteBlobFile.__init__, [me, db, EXPRESSION] + ([mk_int(db.size)] if given else []))
    vc.prove(zi(me.fields['size']) == db.size, 'the size is that of the blob')
    vc.prove(zi(me.fields['offset']) == 0, 'the position starts at 0')
    offset = vc.nat('offset').z
    me.fields['offset'] = mk_int(offset)
    n = vc.int('n')
    r = sbytes_of(interp.run_function(M.SQLiteBlobFile.read, [me, n]))
    left = z3.If(db.size > offset, db.size - offset, 0)
    vc.prove(r.length == z3.If(z3.Or(zi(n) < 0, zi(n) > left), left, zi(n)), 'a read returns as much as there is')
    k = vc.skolem()
    vc.prove(z3.Implies(z3.And(0 <= k, k < r.length), r.at(k) == db.data(offset + k)), 'the bytes at the position')
    vc.prove(zi(me.fields['offset']) == offset + r.length, 'the position advances')


def unit_sqlar_blob(vc):
    """sqlite3.Blob behind FixedSqliteBlob"""
    data, size = vc.func('data', I, I), vc.nat('size').z

    class Native(Model):
        def __init__(self):
            self.position = vc.nat('native position').z

        def len(self, vc):
            return mk_int(size)

        def m_seek(self, vc, o, whence=0):
            vc.prove(whence == 0, 'absolute positions')
            vc.prove(z3.And(zi(o) >= 0, zi(o) <= size), 'sqlite3.Blob refuses positions outside of the blob')
            self.position = zi(o)

        def m_read(self, vc, n=-1):
            start, left = self.position, size - self.position
            self.position = self.position + z3.If(z3.Or(zi(n) < 0, zi(n) > left), left, zi(n))
            return SBytes(z3.If(z3.Or(zi(n) < 0, zi(n) > left), left, zi(n)), lambda k: data(start + k))

    me = vc.new(Obj(sqlar.FixedSqliteBlob, {}, 'blob file'))
    interp = Interp(vc)
    interp.run_function(sqlar.FixedSqliteBlob.__init__, [me, Native()])
    vc.prove(zi(me.fields['size']) == size, 'the size is that of the blob')
    offset = vc.nat('offset').z
    me.fields['offset'] = mk_int(offset)
    n = vc.int('n')
    kind, r = attempt(lambda: interp.run_function(sqlar.FixedSqliteBlob.read, [me, n]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    r = sbytes_of(r)
    left = z3.If(size > offset, size - offset, 0)
    vc.prove(r.length == z3.If(z3.Or(zi(n) < 0, zi(n) > left), left, zi(n)), 'a read returns as much as there is')
    k = vc.skolem()
    vc.prove(z3.Implies(z3.And(0 <= k, k < r.length), r.at(k) == data(offset + k)), 'the bytes at the position')


class Part(Model):
    """what SQLiteBlobFile(...) makes: the blob of one row"""

    def __init__(self, row, size):
        self.row, self.size = row, size

    def map_terms(self, f):
        return Part(self.row.map_terms(f), SInt(f(zi(self.size))))


def unit_blobs_file(vc):
    """the blobs of all rows in the order of the rows, each with its own size"""
    n = vc.nat('rows').z
    rowid, size = vc.func('rowid', I, I), vc.func('size', I, I)
    i = z3.Int('i')
    vc.assume(z3.ForAll([i], size(i) >= 0))
    selected = []

    class Db(Model):
        def m_execute(self, vc, sql, parameters=()):
            selected.append(' '.join(sql.split()))
            return SList(n, lambda k: (SInt(rowid(k)), SInt(size(k))), mutable=False)

    db = Db()

    def blob_file(vc, connection, expression, size=None):
        vc.prove(connection is db, 'the given database')
        return Part(expression, size)

    captured = []

    def joined(i, vc, me, files, *a, **k):
        captured.append((files, a, k))

    interp = Interp(vc, contracts={'ratarmountcore.StenciledFile:JoinedFile.__init__': joined},
                    models={M.SQLiteBlobFile: blob_file, 'format': lambda vc, x, spec: Piece(x)})
    me = vc.new(Obj(M.SQLiteBlobsFile, {}, 'blobs file'))
    interp.run_function(M.SQLiteBlobsFile.__init__, [me, db, 'blobs', 'data', mk_int(vc.nat('buffer').z)])
    vc.prove([s.replace(', ', ',') for s in selected] == ['SELECT ROWID,LENGTH(data) FROM blobs ORDER BY ROWID'], 'all rows in their order, with sizes')
    vc.prove(len(captured) == 1, 'the blobs are joined once')
    files = captured[0][0]
    vc.prove(files.length == n, 'one part per row')
    k = vc.skolem()
    vc.assume(z3.And(0 <= k, k < n))
    part = files.elem(k)
    vc.prove(isinstance(part, Part), 'parts are blobs')
    vc.prove(zi(part.size) == size(k), 'the size of a part is that of its row')
    text = part.row
    vc.prove(isinstance(text, Text) and [p if isinstance(p, str) else None for p in text.parts] == ['SELECT {}data{} FROM blobs WHERE ROWID == ', None],
             'the part selects the data of one row')
    vc.prove(zi(text.parts[1].value) == rowid(k), 'the part selects the data of its own row')


class Piece(Model):
    """an integer as text"""
    pytype = str

    def __init__(self, value):
        self.value = value

    def map_terms(self, f):
        return Piece(SInt(f(zi(self.value))))

    def radd(self, vc, o):
        return Text([o, self])


class Text(Model):
    pytype = str

    def __init__(self, parts):
        self.parts = parts

    def map_terms(self, f):
        return Text([p if isinstance(p, str) else p.map_terms(f) for p in self.parts])

    def add(self, vc, o):
        return self if o == '' else Text(self.parts + [o])


UNITS = [
    Unit('WriteSQLiteBlobs.write', unit_write, [W.write, W._flush_blob]),
    unit_close('close'), unit_close('__exit__'), unit_close('_flush_blob'),
    Unit('WriteSQLiteBlobs.__init__', unit_new, [W.__init__, W.tell]),
    Unit('WriteSQLiteBlobs.seek', unit_tell, [W.seek, W.tell]),
    Unit('SQLiteBlobFile.read_blob_part', unit_part, [M.SQLiteBlobFile.read_blob_part]),
    Unit('SQLiteBlobFile', unit_blob_file, [M.SQLiteBlobFile.__init__, M.SQLiteBlobFile.read_blob_part, F.LambdaReaderFile.__init__, F.LambdaReaderFile.read]),
    Unit('SQLiteBlobsFile', unit_blobs_file, [M.SQLiteBlobsFile.__init__]),
    Unit('FixedSqliteBlob', unit_sqlar_blob, [sqlar.FixedSqliteBlob.__init__, F.LambdaReaderFile.read]),
]


# ------------------------------------------------------------------------------------------------ bounded runs
def run_roundtrip(ctx):
    rng = ctx.rng
    while not ctx.out_of_time():
        limit = rng.choice([1, 2, 3, 5, 8, 13, 64, 1000])
        chunks = [rng.choice([0, 1, 2, limit - 1, limit, limit + 1, 2 * limit, 2 * limit + 1, rng.randrange(0, 6 * limit + 2)]) for _ in range(rng.randrange(0, 9))]
        buffer = rng.choice([1, 7, 64, 8192])
        kind = rng.choice(['bytes', 'bytearray', 'memoryview', 'words'])
        ending = rng.choice(['with', 'close', 'close twice'])
        deleted = rng.random() < .3
        with ctx.case(dict(limit=limit, chunks=chunks, buffer=buffer, kind=kind, ending=ending, deleted=deleted)) as c:
            db = sqlite3.connect(':memory:')
            db.execute('CREATE TABLE blobs ( data BLOB )')
            if deleted:  # row identifiers need not start at 1
                db.execute('INSERT INTO blobs VALUES (?)', (b'x',))
                db.execute('INSERT INTO blobs VALUES (?)', (b'y',))
                db.execute('DELETE FROM blobs WHERE rowid == 1')
            before = b'y' if deleted else b''
            w = W(db, 'blobs', blob_size=limit)
            whole = bytearray()
            for n in chunks:
                if kind == 'words':
                    n -= n % 2
                x = rng.randbytes(n)
                y = {'bytes': bytes, 'bytearray': bytearray, 'memoryview': memoryview, 'words': lambda b: memoryview(b).cast('H')}[kind](x)
                if kind != 'words' or n:
                    c.equal(w.write(y), n, 'everything is reported as written')
                    whole += x
                c.equal(w.tell(), len(whole), 'the position while writing')
                c.equal(w.seek(0, io.SEEK_CUR), len(whole), 'the position while writing')
            if ending == 'with':
                with w:
                    pass
            else:
                w.close()
                if ending == 'close twice':
                    w.close()
            sizes = [r[0] for r in db.execute('SELECT LENGTH(data) FROM blobs ORDER BY rowid')][len(before):]
            c.check(all(0 < s <= limit for s in sizes), 'no blob is empty or exceeds the blob size', sizes=sizes)
            c.equal(sum(sizes), len(whole), 'the stored size')
            c.check(all(s == limit for s in sizes[:-1]), 'only the last blob is smaller', sizes=sizes)
            whole = before + bytes(whole)
            f = M.SQLiteBlobsFile(db, 'blobs', 'data', buffer_size=buffer)
            check_file(c, rng, f, whole)
            if sizes:
                row, = db.execute('SELECT MAX(rowid) FROM blobs').fetchone()
                blob, = db.execute('SELECT data FROM blobs WHERE rowid == ?', (row,)).fetchone()
                expression = f'SELECT {{}}data{{}} FROM blobs WHERE ROWID == {row}'
                check_file(c, rng, M.SQLiteBlobFile(db, expression), blob)
                check_file(c, rng, M.SQLiteBlobFile(db, expression, size=len(blob)), blob)
                check_file(c, rng, sqlar.FixedSqliteBlob(db.blobopen('blobs', 'data', row, readonly=True)), blob)


def check_file(c, rng, f, whole):
    reference = io.BytesIO(whole)
    for _ in range(rng.randrange(1, 12)):
        if rng.random() < .5:
            whence = rng.randrange(3)
            base = (0, reference.tell(), len(whole))[whence]
            to = rng.choice([0, len(whole), rng.randrange(0, len(whole) + 4)])
            c.equal(f.seek(to - base, whence), reference.seek(to), 'the position after a seek', whence=whence, to=to)
        n = rng.choice([0, 1, 2, 5, rng.randrange(0, len(whole) + 9), -1])
        x = reference.read(n)
        c.equal(f.read(n), x, 'a read', n=n)
        c.equal(f.tell(), reference.tell(), 'the position after a read')
    f.seek(0)
    c.equal(f.read(), whole, 'the contents')


def run_gzip_index(ctx):
    """gzip seek points: what was exported is what is imported, however it is split into blobs"""
    rng = ctx.rng

    class Source:
        def __init__(self, chunks):
            self.chunks, self.imported, self.reads = chunks, None, 2

        def read(self, n=-1):
            self.reads -= 1
            return b'x' if self.reads >= 0 else b''

        def export_index(self, fileobj):
            for x in self.chunks:
                fileobj.write(x)

        def import_index(self, fileobj):
            pieces = []
            while True:
                x = fileobj.read(rng.randrange(1, 50))
                if not x:
                    break
                pieces.append(x)
            self.imported = b''.join(pieces)

    while not ctx.out_of_time():
        limit = rng.choice([1, 10, 64, 1000])
        streams = [[rng.randbytes(rng.randrange(0, 3 * limit)) for _ in range(rng.randrange(1, 5))] for _ in range(rng.randrange(1, 4))]
        old = SQLiteIndex._MAX_BLOB_SIZE
        with ctx.case(dict(limit=limit, sizes=[[len(x) for x in s] for s in streams])) as c:
            SQLiteIndex._MAX_BLOB_SIZE = limit
            try:
                index = SQLiteIndex(':memory:')
                index.open_writable()
                for s in streams:  # a stored index is replaced
                    f = Source(s)
                    index._store_gzip_index(f)
                    g = Source([])
                    loaded = index._load_gzip_index(g)
                    if sum(map(len, s)):
                        c.check(loaded, 'the index is loaded')
                    c.equal(g.imported or b'', b''.join(s), 'the exported seek points')
                index.close()
            finally:
                SQLiteIndex._MAX_BLOB_SIZE = old


ORACLES = [
    Oracle('roundtrip', run_roundtrip, [W.write, W.close, M.SQLiteBlobFile.__init__, M.SQLiteBlobsFile.__init__, sqlar.FixedSqliteBlob.__init__],
           'random chunk sequences (at most 8 chunks of at most 6 blobs), blob sizes up to 1000, at most 12 seeks and reads', 6, 60),
    Oracle('gzip index', run_gzip_index, [SQLiteIndex._store_gzip_index, SQLiteIndex._load_gzip_index],
           'random seek point data of at most 12 blobs, stored up to 3 times', 3, 40),
]

ASSUMPTIONS = [
    'SQLite returns stored blobs unchanged, its substr counts from 1, and new rows get larger row identifiers than all others in a blob table',
    'io.BytesIO keeps what is written; joining the blobs is RawStenciledFile.read (proved under C01) behind io.BufferedReader',
    'table, column and expression of blob files come from the code, not from users',
]
