"""C19 Committing an overlay applies exactly its changes."""
import builtins
import contextlib
import io
import os
import shutil
import stat
import sys
import tarfile

import z3

import pyvc
from checks import c17, overlay
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.ops import mk_bool, zs
from pyvc.values import Model, SDict, SInt, SList, SStr, Unsupported, zi
from ratarmount import WriteOverlay
from ratarmount.FuseMount import FuseMount
from ratarmount.WriteOverlay import WritableFolderMountSource as W
from ratarmountcore.formats import is_tar
from ratarmountcore.utils import RatarmountError

V = z3.StringVal

SPECIAL = ['-x', '--null', 'a\nb', '\n', 'a\\nb', 'a\\', '*', '?', '[ab]', ' ', 'a ', '"', "'", '$(a)', ';', 'ä', '日', '~', '#', '-C', '.ratarmount.overlay.sqlite2', 'x.ratarmount.overlay.sqlite', '\t', '{}',
           '-T', '!', '\x7f', 'a' * 120, 'ä' * 80, '%', '\\', '\\\\', '\\012', '.x', '...', 'a|b']


@contextlib.contextmanager
def answering(text):
    old, out = builtins.input, sys.stdout
    builtins.input = lambda *a: text
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        builtins.input, sys.stdout = old, out


def shown(m):
    """what the property is about: names, types, contents and targets"""
    return {p: (s[0], s[2]) for p, s in overlay.walk_mount(m, types=False).items()}


def content_of(path):
    with open(path, 'rb') as f:
        return f.read()


def commit_and_compare(c, w, before, spelled=None):
    """w is unmounted"""
    archive = w.paths[0]
    keep = content_of(archive)
    for answer in ('', 'no', 'Commit', 'commit '):
        with answering(answer):
            WriteOverlay.commit_overlay(spelled or w.overlay, archive)
        c.check(content_of(archive) == keep, 'the archive is not changed without confirmation', answer=answer)
    overlay_before = c18_snapshot(w.overlay)
    with answering('commit'):
        WriteOverlay.commit_overlay(spelled or w.overlay, archive)
    c.equal(c18_snapshot(w.overlay), overlay_before, 'the overlay is not changed')
    with tarfile.open(archive) as t:
        names = [i.name for i in t.getmembers()]
    for n in names:
        c.check(n.strip('./').split('/')[0] not in overlay.HIDDEN and n not in overlay.HIDDEN, 'bookkeeping files are not in the archive', name=n)
    if names:
        with FuseMount([archive], w.point, indexFilePath=':memory:', **w.options) as m:
            after = shown(m)
    else:
        after = {'/': before['/']}  # archives without entries cannot be mounted
    c.equal(sorted(set(after) - set(before)), [], 'nothing but what the overlay mount showed', log=w.log, archive=names)
    c.equal(sorted(set(before) - set(after)), [], 'everything that the overlay mount showed', log=w.log, archive=names)
    for p in before:
        c.equal(after[p], before[p], 'the type, the contents or the target is that which the overlay mount showed', path=p, log=w.log, archive=names)


def c18_snapshot(root):
    from checks import c18
    return c18.snapshot(root)


def run_histories(ctx):
    c17.quiet()
    os.umask(0)
    rng = ctx.rng
    base = ctx.tmp()
    os.environ['TMPDIR'] = base
    import tempfile
    tempfile.tempdir = None
    old_names = overlay.NAMES
    for _ in range(ctx.budget(60, 2000)):
        if ctx.out_of_time():
            return
        tmp = ctx.tmp()
        overlay.NAMES = old_names if rng.random() < 0.5 else rng.sample(SPECIAL, 8) + ['a', 'b']
        try:
            w = overlay.World(tmp, rng, source='tar', versions=True, prefix=rng.choice(('', '', './', '/')), older=rng.random() < 0.4)
            with ctx.case({'start': {p: s[0] for p, s in w.start.items()}, 'log': w.log}) as c:
                for i in range(rng.choice((1, 5, 20, 60))):
                    w.step(c)
                before = shown(w.m)
                w.unmount()
                commit_and_compare(c, w, before, rng.choice((None, w.overlay + '/')))
        finally:
            overlay.NAMES = old_names
        shutil.rmtree(tmp)



# ------------------------------------------------------------------------------------------------ contracts
KINDS = ('a deleted entry', 'a file', 'a link to a folder', 'a folder')
CONTROL_NAMES = [V(n) for n in overlay.HIDDEN]


class Content(Model):
    """One of the two lists.  Whether an arbitrary but fixed entry has been written to it is followed through all loops."""

    pytype = io.TextIOBase

    def __init__(self, w, name):
        self.w, self.name = w, name
        self.seen = [z3.BoolVal(False) for _ in w.wanted[name]]
        self.nonempty = z3.BoolVal(False)

    def enter(self, vc):
        return self

    def exit(self, vc, *a):
        return None

    def m_write(self, vc, text):
        z = zs(text)
        w = self.w
        if self.name == 'deletions.lst':
            ok = z3.Or(*[z3.And(w_ok, z == z3.Concat(V(p), c, V('\0'))) for c, w_ok in w.deletable for p in ('', '/', './')], z3.BoolVal(False))
            vc.prove(ok, 'only entries deleted or replaced in the overlay get deleted from the archive, and never by a part of their path')
        else:
            ok = z3.Or(*[z3.And(w_ok, z == z3.Concat(c, V('\0'))) for c, w_ok in w.appendable], z3.BoolVal(False))
            vc.prove(ok, 'only what is in the overlay gets appended to the archive, bookkeeping files excluded')
        self.seen = [z3.simplify(z3.Or(s, z == t)) for s, t in zip(self.seen, w.wanted[self.name])]
        self.nonempty = z3.BoolVal(True)
        return SInt(z3.Length(z))

    def havoc(self, vc):
        self.seen, self.nonempty = [z3.Bool(vc.name('got')) for _ in self.seen], z3.Bool(vc.name('nonempty'))
        vc.assume(z3.Implies(z3.Or(*self.seen), self.nonempty))

    @property
    def got(self):
        return z3.And(*self.seen)


class Stat(Model):
    def __init__(self, size):
        self.size = size

    def a_st_size(self, vc):
        return self.size


class Pipe(Model):
    def __init__(self, text):
        self.text = text

    def enter(self, vc):
        return self

    def exit(self, vc, *a):
        return None

    def m_read(self, vc, *a):
        return self.text


class Rows(Model):
    def __init__(self, seq):
        self.seq = seq

    def iterate(self, vc):
        return self.seq

    def m_fetchall(self, vc):
        return self.seq


class Connection(Model):
    def __init__(self, w):
        self.w = w

    def m_execute(self, vc, sql, *a):
        """the columns and rows a query selects are found out with SQLite for a table with all kinds of rows"""
        if not isinstance(sql, str) or a:
            raise Unsupported('query')
        import sqlite3
        db = sqlite3.connect(':memory:')
        c17_schema(db)
        got = set(db.execute(sql).fetchall())
        want = set(db.execute('SELECT path,name FROM files WHERE deleted IS TRUE').fetchall())
        vc.prove(z3.BoolVal(got == want), 'exactly the rows of deleted entries are selected')
        w = self.w

        def elem(i):
            path, name, rel = w.PATH(i), w.NAME(i), w.DEL(i)
            vc.assume(z3.And(z3.Concat(path, V('/'), name) == z3.Concat(V('/'), rel), good_path(rel)))
            w.deletable.append((rel, z3.BoolVal(True)))
            return (SStr(path), SStr(name))

        return Rows(SList(w.ndeleted, elem, False, 'rows'))

    def m_close(self, vc):
        return None


def c17_schema(db):
    from checks import c17 as _c17  # noqa: F401
    w = object.__new__(W)
    db.execute('CREATE TABLE "files" ("path" VARCHAR(65535) NOT NULL, "name" VARCHAR(65535) NOT NULL, "mtime" INTEGER, "mode" INTEGER, "uid" INTEGER, "gid" INTEGER, "deleted" BOOL, PRIMARY KEY (path,name))')
    del w
    n = 0
    for path in ('', '/a', '/a/b'):
        for deleted in (0, 1, None):
            for mode in (None, 0o100644, 0o40755):
                n += 1
                db.execute('INSERT INTO files VALUES (?,?,?,?,?,?,?)', (path, f'n{n}', 0, mode, 0, 0, deleted))


def good_path(p):
    return z3.And(z3.Length(p) > 0, z3.Not(z3.PrefixOf(V('/'), p)), z3.Not(z3.SuffixOf(V('/'), p)), z3.Not(z3.Contains(p, V('\0'))), z3.Not(z3.Contains(p, V('//'))))


class Finished(Model):
    def __init__(self, stderr, code):
        self.stderr, self.code = stderr, code

    def a_stderr(self, vc):
        return self.stderr

    def a_returncode(self, vc):
        return self.code

    def m_check_returncode(self, vc):
        return None


class Output(Model):
    def __init__(self, text):
        self.text = text

    def m_decode(self, vc, *a, **k):
        return self.text


class Text(Model):
    def __init__(self, lines):
        self.lines = lines

    def m_split(self, vc, sep=None, *a):
        return vc.new(SList(items=list(self.lines)))

    def m_splitlines(self, vc):
        return vc.new(SList(items=[x for x in self.lines[:-1]]))

    def m_strip(self, vc, *a):
        return self


class Commit:
    """the overlay, the archive and the commands that get run"""

    def __init__(self, vc, kind):
        S, I = z3.StringSort(), z3.IntSort()
        self.vc, self.files, self.runs, self.asked, self.removed = vc, {}, [], None, []
        self.ov = z3.String('overlay')
        slash = z3.SuffixOf(V('/'), self.ov)
        self.base = self.ov if vc.branch(slash) else z3.Concat(self.ov, V('/'))
        vc.assume(z3.And(z3.Length(self.ov) > 0, self.ov != V('/')))
        self.tar = '/archive.tar'
        self.deletable, self.appendable = [], []
        self.PATH, self.NAME, self.DEL = (z3.Function(n, I, S) for n in ('row_path', 'row_name', 'deleted_path'))
        self.ndeleted, self.nwalk = z3.Int('deleted_rows'), z3.Int('overlay_folders')
        vc.assume(z3.And(self.ndeleted >= 0, self.nwalk >= 1))
        self.FOLDER = z3.Function('folder_path', I, S)
        self.count = {'file': z3.Function('files_in', I, I), 'dir': z3.Function('folders_in', I, I)}
        self.name = {'file': z3.Function('file_name', I, I, S), 'dir': z3.Function('dir_name', I, I, S)}
        self.ISDIR, self.ISLINK = z3.Function('isdir', S, z3.BoolSort()), z3.Function('islink', S, z3.BoolSort())
        # what is followed through the loops
        self.kind = kind
        self.row, self.at, self.entry = z3.Int('which_row'), z3.Int('which_folder'), z3.Int('which_entry')
        self.k = None
        if self.kind == 'a deleted entry':
            vc.assume(z3.And(self.row >= 0, self.row < self.ndeleted))
            self.target = self.DEL(self.row)
            self.in_database = z3.BoolVal(True)
        else:
            vc.assume(z3.And(self.at >= 0, self.at < self.nwalk))
            rel = self.FOLDER(self.at)
            if self.kind == 'a folder':
                self.target = rel
                vc.assume(z3.And(z3.Length(rel) > 0, self.count['file'](self.at) == 0))
            else:
                which = 'file' if self.kind == 'a file' else 'dir'
                vc.assume(z3.And(self.entry >= 0, self.entry < self.count[which](self.at)))
                self.target = self.path_of(rel, self.name[which](self.at, self.entry))
                vc.assume(z3.And(*[self.target != n for n in CONTROL_NAMES]))
                if which == 'dir':
                    vc.assume(self.ISLINK(z3.Concat(self.base, self.target)))
                self.entry_facts(which, self.at, self.entry)
        self.wanted = {'deletions.lst': [z3.Concat(V(p), self.target, V('\0')) for p in ('', '/', './')], 'append.lst': [z3.Concat(self.target, V('\0'))]}
        self.confirmed = z3.Bool('confirmed')

    @staticmethod
    def path_of(rel, name):
        return z3.If(z3.Length(rel) == 0, name, z3.Concat(rel, V('/'), name))

    def entry_facts(self, which, k, i):
        """-> (path below the overlay, not a folder)"""
        vc, rel, name = self.vc, self.FOLDER(k), self.name[which](k, i)
        vc.assume(z3.And(good_path(name), z3.Not(z3.Contains(name, V('/'))), z3.Or(z3.Length(rel) == 0, good_path(rel))))
        path = self.path_of(rel, name)
        vc.assume(good_path(path))
        absolute = z3.Concat(self.base, path)
        vc.assume(self.ISDIR(absolute) == z3.BoolVal(which == 'dir'))
        return path, z3.Or(z3.BoolVal(which == 'file'), self.ISLINK(absolute))

    # the file system

    def walk(self, vc, top, *a, **k):
        vc.prove(zs(top) == self.ov, 'the overlay is walked')
        if k.get('followlinks') not in (None, False):
            raise Unsupported('walk follows links')

        def elem(i):
            self.k = i
            rel = self.FOLDER(i)
            vc.assume(z3.And(self.count['file'](i) >= 0, self.count['dir'](i) >= 0, z3.Or(z3.Length(rel) == 0, good_path(rel))))
            self.appendable.append((rel, z3.Length(rel) > 0))
            return (SStr(self.ov if vc.branch(z3.Length(rel) == 0) else z3.Concat(self.base, rel)), self.entries(vc, 'dir', i), self.entries(vc, 'file', i))

        return Rows(SList(self.nwalk, elem, False, 'walk'))

    def entries(self, vc, which, k):
        def elem(i):
            path, plain = self.entry_facts(which, k, i)
            allowed = z3.And(plain, *[path != n for n in CONTROL_NAMES])
            self.deletable.append((path, allowed))
            self.appendable.append((path, allowed))
            return SStr(self.name[which](k, i))

        return vc.new(SList(self.count[which](k), elem, True, which))

    def join(self, vc, *parts):
        if all(isinstance(p, str) for p in parts):
            return os.path.join(*parts)
        z = zs(parts[0])
        for p in parts[1:]:
            if isinstance(p, str):
                if p.startswith('/'):
                    raise Unsupported('join of an absolute path')
            elif vc.branch(z3.PrefixOf(V('/'), zs(p))):
                z = zs(p)
                continue
            z = z3.Concat(self.base if z.eq(self.ov) else z3.If(z3.SuffixOf(V('/'), z), z, z3.Concat(z, V('/'))), zs(p))
        return SStr(z)

    def lstrip(self, vc, s):
        z = zs(s)
        if vc.branch(z3.PrefixOf(V('//'), z)):
            if os.environ.get('DBG'): print(z3.simplify(z), *vc.solver.assertions()[-14:], sep='\n==')
            raise Unsupported('lstrip of something with several slashes')
        r = vc.str('lstripped').z
        vc.assume(z3.If(z3.PrefixOf(V('/'), z), z == z3.Concat(V('/'), r), z == r))
        return SStr(r)

    def on_overlay(self, f):
        def g(vc, p):
            if isinstance(p, str):
                raise Unsupported('question about another path')
            return mk_bool(f(zs(p)))
        return g

    def isdir(self, vc, p):
        if isinstance(p, str):
            raise Unsupported('isdir')
        if zs(p).eq(self.ov):
            return vc.bool('overlay_exists')
        return mk_bool(self.ISDIR(zs(p)))

    def open(self, vc, path, mode='r', **k):
        if path == self.tar:
            vc.prove(z3.BoolVal(mode == 'rb'), 'the archive is only opened for reading')
            return Pipe(None)
        if not isinstance(path, str) or os.path.basename(path) not in self.wanted or not path.startswith('/scratch/') or mode not in ('a', 'w'):
            raise Unsupported(f'open of {path!r}')
        name = os.path.basename(path)
        if name in self.files and mode == 'w':
            raise Unsupported('a list is written twice')
        if k.get('newline') not in (None, '', '\n') or not set(k) <= {'encoding', 'newline', 'errors'}:
            raise Unsupported('open arguments')
        return self.files.setdefault(name, Content(self, name))

    def stat(self, vc, path):
        name = os.path.basename(path) if isinstance(path, str) else None
        if name not in self.files:
            raise Unsupported('stat')
        n = vc.int('size')
        vc.assume(z3.And(n.z >= 0, (n.z > 0) == self.files[name].nonempty))
        return Stat(n)

    def ask(self, vc, *a):
        text = vc.str('answer')
        self.asked = text.z == V('commit')
        return text

    def rmtree(self, vc, path, *a, **k):
        vc.prove(z3.BoolVal(path == '/scratch/dir'), 'only temporary files are removed')

    def run(self, vc, args, **k):
        args = [a for a in args.items]
        texts = [a if isinstance(a, str) else a for a in args]
        vc.prove(z3.BoolVal(False) if self.asked is None else self.asked, 'the archive is only touched after confirmation')
        if not texts or texts[0] != 'tar' or k.get('shell'):
            raise Unsupported('another command')
        o, i = {}, 1
        WITH = {'-C': 'C', '--directory': 'C', '--file': 'file', '-f': 'file', '--files-from': 'from', '-T': 'from'}
        while i < len(texts):
            t = texts[i]
            if isinstance(t, str) and t in WITH:
                o[WITH[t]] = texts[i + 1]
                i += 1
            elif isinstance(t, str) and '=' in t and t.split('=', 1)[0] in WITH:
                a, b = t.split('=', 1)
                o[WITH[a]] = b
            elif isinstance(t, str) and t in ('--delete', '--append', '--null', '--no-wildcards', '--no-recursion', '--verbatim-files-from'):
                o[t] = True
            else:
                raise Unsupported(f'argument {t!r}')
            i += 1
        if ('--delete' in o) == ('--append' in o):
            raise Unsupported('another operation')
        delete = '--delete' in o
        vc.prove(z3.BoolVal(o.get('file') == self.tar), 'the archive is changed, nothing else')
        vc.prove(z3.BoolVal('--null' in o), 'the list is read as separated by null characters')
        name = 'deletions.lst' if delete else 'append.lst'
        vc.prove(z3.BoolVal(o.get('from') == '/scratch/dir/' + name and name in self.files), 'the list of entries is used')
        if delete:
            vc.prove(z3.BoolVal('--no-wildcards' in o), 'names with pattern characters are names')
            vc.prove(z3.BoolVal('append.lst' not in [n for n, _ in self.runs]), 'entries are deleted before others are appended')
        else:
            c = o.get('C')
            vc.prove(z3.BoolVal(False) if c is None or isinstance(c, str) else z3.Or(zs(c) == self.ov, zs(c) == self.base), 'entries are taken from the overlay')
            vc.prove(z3.BoolVal('--no-recursion' in o), 'the contents of folders are not added again')
            done = self.files.get('deletions.lst')
            vc.prove(z3.Or(z3.BoolVal('deletions.lst' in [n for n, _ in self.runs]), z3.Not(done.nonempty)), 'old entries are deleted before new ones are appended')
        vc.prove(self.files[name].nonempty, 'nothing is run without a list')
        self.runs.append((name, self.files[name].got))
        x = vc.str('name_not_found')
        lines = ['', 'tar: Exiting with failure status due to previous errors', SStr(z3.Concat(V('tar: '), x.z, V(': Not found in archive'))), '']
        return Finished(Output(Text(lines)), vc.int('returncode'))

    def models(self):
        import shutil as sh
        import sqlite3
        import subprocess
        import tempfile
        import urllib.parse
        quote = z3.Function('quote', z3.StringSort(), z3.StringSort())

        def connect(vc, location, *_a, **k):
            db = z3.Concat(self.base, V(overlay.HIDDEN[0]))
            z = zs(location)
            vc.prove(z3.Or(z == db, z3.PrefixOf(z3.Concat(V('file:'), quote(db), V('?')), z)) if k.get('uri') is not True else
                     z3.Or(z == z3.Concat(V('file:'), quote(db)), z3.PrefixOf(z3.Concat(V('file:'), quote(db), V('?')), z)), 'the bookkeeping of the overlay is read')
            return Connection(self)

        def exists(vc, p):
            vc.prove(zs(p) == z3.Concat(self.base, V(overlay.HIDDEN[0])), 'the bookkeeping is looked for in the overlay')
            e = vc.bool('database_exists')
            vc.assume(z3.Implies(z3.Not(e.z), self.ndeleted == 0))
            return e

        return {os.path.isdir: self.isdir, os.path.islink: self.on_overlay(self.ISLINK), os.path.isfile: lambda vc, p: vc.bool('isfile'), os.path.exists: exists, os.path.join: self.join,
                os.walk: self.walk, os.stat: self.stat, os.path.getsize: lambda vc, p: self.stat(vc, p).size, os.popen: lambda vc, c, *a: Pipe(vc.str('tar_version')),
                tempfile.mkdtemp: lambda vc, *a, **k: '/scratch/dir', open: self.open, input: self.ask, print: lambda vc, *a, **k: None, sh.rmtree: self.rmtree,
                subprocess.run: self.run, sqlite3.connect: connect, urllib.parse.quote: lambda vc, p, *a: SStr(quote(zs(p))), ('lstrip', '/'): self.lstrip,
                os.environ.copy: lambda vc: SDict(items=[['LC_ALL', 'de'], ['PATH', '/bin']])}


def unit_commit(vc, kind, debug):
    w = Commit(vc, kind)
    tar_contract = {f'{is_tar.__module__}:{is_tar.__qualname__}': lambda interp, vc, *a, **k: vc.bool('is_tar')}
    Q = WriteOverlay.commit_overlay.__module__ + ':commit_overlay'

    def lists():
        return [f for f in w.files.values()]

    def rows_inv(vc, L):
        f = w.files['deletions.lst']
        out = []
        if w.kind == 'a deleted entry':
            out.append(('deleted entries are in the list', z3.Implies(zi(L.k) > w.row, f.got)))
        return out

    def got_all():
        names = {'a folder': ['append.lst']}.get(w.kind, ['deletions.lst', 'append.lst'])
        return z3.And(*[w.files[n].got for n in names])

    def walk_inv(vc, L):
        if w.kind == 'a deleted entry':
            return [('deleted entries are in the list', w.files['deletions.lst'].got)]
        return [('entries of the overlay are in the lists', z3.Implies(zi(L.k) > w.at, got_all()))]

    def position(L):
        """the names of files and folders may be visited in any order"""
        which = 'file' if w.kind == 'a file' else 'dir'
        before = w.count['dir' if which == 'file' else 'file'](w.at)
        for other in (0, before) if which == 'file' else (before, 0):
            i = w.entry + other
            if not vc.feasible(z3.And(w.k == w.at, zs(L.seq.elem(i)) != w.name[which](w.at, w.entry))):
                return other
        raise Unsupported('the names of files or folders are not visited')

    def names_inv(vc, L):
        if w.kind == 'a deleted entry':
            return [('deleted entries are in the list', w.files['deletions.lst'].got)]
        out = [('entries of folders before are in the lists', z3.Implies(w.k > w.at, got_all()))]
        if w.kind != 'a folder':
            offset = position(L)
            if z3.is_add(zi(L.k)):  # after the body: was it the followed entry?
                if vc.branch(w.k == w.at) and vc.branch(zi(L.k) - 1 == w.entry + offset):
                    pass
            out.append(('entries are in the lists', z3.Implies(z3.And(w.k == w.at, zi(L.k) > w.entry + offset), got_all())))
        return out

    def heap(vc, L):
        return [(f, None, f.havoc) for f in lists()]

    loops = {(Q, 0): LoopSpec(rows_inv, heap=heap), (Q, 1): LoopSpec(walk_inv, heap=heap), (Q, 2): LoopSpec(names_inv, heap=heap)}
    interp = Interp(vc, contracts=tar_contract, loops=loops, models=w.models())
    out = attempt(lambda: interp.call(WriteOverlay.commit_overlay, [SStr(w.ov), w.tar], {'printDebug': debug}))
    if out[0] == 'exc':
        vc.prove(z3.BoolVal(issubclass(out[1].cls, RatarmountError)), 'fails only with an error for the user')
        vc.prove(z3.BoolVal(not w.runs), 'problems are found before the archive is changed')
        return
    if w.asked is None:
        vc.prove(z3.BoolVal(False), 'something to commit is noticed')
        return
    if w.kind != 'a folder':
        ran = [g for n, g in w.runs if n == 'deletions.lst']
        vc.prove(z3.Implies(w.asked, z3.Or(*ran, z3.BoolVal(False))), 'every deleted or replaced entry is deleted from the archive, however it is spelled')
    if w.kind != 'a deleted entry':
        ran = [g for n, g in w.runs if n == 'append.lst']
        vc.prove(z3.Implies(w.asked, z3.Or(*ran, z3.BoolVal(False))), 'everything in the overlay is appended')


def run_known(ctx):
    """hard links of an archive whose target is deleted"""
    c17.quiet()
    os.umask(0)
    for op in ('unlink', 'rename', 'write'):
        tmp = ctx.tmp()
        archive, o, point = (os.path.join(tmp, n) for n in ('a.tar', 'overlay', 'point'))
        with tarfile.open(archive, 'w') as t:
            i = tarfile.TarInfo('a')
            i.size = 3
            t.addfile(i, io.BytesIO(b'abc'))
            i = tarfile.TarInfo('b')
            i.type, i.linkname = tarfile.LNKTYPE, 'a'
            t.addfile(i)
        os.mkdir(point)
        m = FuseMount([archive], point, writeOverlay=o, indexFilePath=':memory:')
        if op == 'unlink':
            m.unlink('/a')
        elif op == 'rename':
            m.rename('/a', '/c')
        else:
            fh = m.open('/a', os.O_RDWR)
            m.write('/a', b'xyz', 0, fh)
            m.release('/a', fh)
        with ctx.case('a hard link b to the file a in the archive; ' + op + ' of a', sig='hard-link-target ' + op) as c:
            before = shown(m)
            m.writeOverlay.sqlConnection.close()
            m.__exit__(None, None, None)
            with answering('commit'):
                WriteOverlay.commit_overlay(o, archive)
            with FuseMount([archive], point, indexFilePath=':memory:') as m2:
                c.equal(shown(m2), before, 'the committed archive shows what the overlay mount showed')


ORACLES = [
    Oracle('histories', run_histories, [WriteOverlay.commit_overlay], '60 (2000) random histories on a mounted TAR, committed with GNU tar and mounted again; special characters in names, older versions, '
           'entries stored as name, ./name and /name', unprivileged=True, quick_s=25),
    Oracle('recorded findings', run_known, [WriteOverlay.commit_overlay], 'the scenarios of the recorded findings and one next to them', unprivileged=True),
]
UNITS = [
    Unit(f'commit_overlay: {kind}' + (' verbose' if debug else ''), lambda vc, k=kind, d=debug: unit_commit(vc, k, d), [WriteOverlay.commit_overlay], z3_ms=20000)
    for kind in KINDS for debug in ((0, 1) if kind in ('a folder', 'a deleted entry') else (0,))]
TRUSTED = ['GNU tar (append and delete by exact member names)', 'SQLite: the query for deleted and created entries is checked on a sample table']
ASSUMPTIONS = ['names that are not valid text abort the commit before anything is changed', 'an archive all of whose entries were deleted is out of scope']
