"""Contracts for path normalisation of the index: normal form, idempotence, and that every query uses nothing but the normal form."""
import itertools

import z3

from checks import paths
from checks.common import quiet
from checks.paths import REL, V, rel_facts, rel_py
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp
from pyvc.ops import zs
from pyvc.values import Model, Obj, SBool, SInt, SList, SStr, zi
from ratarmountcore.SQLiteIndex import SQLiteIndex

Q = 'ratarmountcore.SQLiteIndex:SQLiteIndex.'


def prove_normal(vc, z):
    vc.prove(z3.PrefixOf(V('/'), z), 'the normal form starts with a slash')
    vc.prove(z3.Not(z3.Contains(z, V('//'))), 'the normal form has no empty component')
    vc.prove(z3.Or(z == V('/'), z3.Not(z3.SuffixOf(V('/'), z))), 'the normal form has no trailing slash')


def unit_normpath(fn_name):
    def run(vc):
        fn = getattr(SQLiteIndex, fn_name)
        p = vc.watch('path', vc.str('path'))
        query = fn_name == '_query_normpath'
        if query:
            vc.assume(z3.Not(z3.PrefixOf(V('../'), p.z)))
        interp = Interp(vc, models=paths.MODELS)
        r = zs(interp.run_function(fn, [p]))
        vc.prove(r == z3.Concat(V('/'), REL(p.z)), 'the normal form is a slash and the resolved components')
        prove_normal(vc, r)
        r2 = zs(interp.run_function(fn, [SStr(z3.Concat(V('/'), REL(p.z)))]))
        vc.prove(r2 == z3.Concat(V('/'), REL(p.z)), 'normalising twice changes nothing')

    return Unit(f'SQLiteIndex.{fn_name}', run, [getattr(SQLiteIndex, fn_name)])


def unit_climb(vc):
    """a query that climbs above the root is not turned into one that finds something below it"""
    p = vc.str('path')
    vc.assume(z3.PrefixOf(V('../'), p.z))
    interp = Interp(vc, models=paths.MODELS)
    r = zs(interp.run_function(SQLiteIndex._query_normpath, [p]))
    vc.prove(z3.Or(r == V('/..'), z3.PrefixOf(V('/../'), r)), 'a climbing query keeps its ".." component')


def query_contract(seen):
    def contract(i, vc, *a):
        p = a[-1]
        r = rel_facts(vc, zs(p))
        seen.append(p)
        vc.assume(z3.Not(z3.PrefixOf(V('../'), zs(p))))
        return SStr(z3.Concat(V('/'), r))

    return contract


class Recorder(Model):
    """a database connection that records the statements and their parameters"""

    def __init__(self, vc, rows=None):
        self.log, self.rows = [], rows

    def a_row_factory(self, vc):
        return None

    def s_row_factory(self, vc, v):
        pass

    def m_execute(self, vc, sql, params=()):
        self.log.append((sql, params))
        return Nothing()


class Nothing(Model):
    def iterate(self, vc):
        return SList(items=[], mutable=False)

    def m_fetchone(self, vc):
        return None


def unit_query(name):
    def run(vc):
        """the statements only get the folder and name of the normal form, so that all spellings ask the same"""
        fn = getattr(SQLiteIndex, name)
        p = vc.watch('path', vc.str('path'))
        conn = Recorder(vc)
        self = vc.new(Obj(SQLiteIndex, {'sqlConnection': conn}, 'self'))
        seen = []
        interp = Interp(vc, contracts={Q + '_query_normpath': query_contract(seen), Q + 'get_connection': lambda i, vc, s: s.fields['sqlConnection'],
                                       'ratarmountcore.mountsource:create_root_file_info': lambda i, vc, userdata=None: Nothing(),
                                       'ratarmountcore.mountsource.MountSource:create_root_file_info': lambda i, vc, userdata=None: Nothing()})
        extra = [vc.watch('version', vc.int('version'))] if name == 'lookup' else []
        interp.run_function(fn, [self, p] + extra)
        vc.prove(z3.BoolVal(all(s is p for s in seen) and len(seen) >= 1), 'the query normalises the path it was given')
        log = [l for l in conn.log if 'pragma' not in l[0].lower()]
        r = z3.Concat(V('/'), REL(p.z))
        if name in ('lookup', 'versions') and vc.branch(r == V('/')):
            return  # the root is made up
        vc.prove(len(log) == 1, 'one statement is issued')
        for _sql, params in log:
            strings = [zs(x) for x in params if isinstance(x, (str, SStr))]
            for x in params:
                if not isinstance(x, (str, SStr)):
                    vc.prove(z3.BoolVal(not mentions(zi(x), p.z)), 'the other parameters do not depend on the path')
            if len(strings) == 2:
                vc.prove(z3.Concat(strings[0], V('/'), strings[1]) == r, 'folder and name together are the normal form')
                vc.prove(z3.Not(z3.Contains(strings[1], V('/'))), 'the name is a single component')
            else:
                vc.prove(strings[0] == z3.If(r == V('/'), V(''), r), 'the folder asked for is the normal form')

    return Unit(f'SQLiteIndex.{name}[spelling]', run, [getattr(SQLiteIndex, name)])


def mentions(term, var):
    todo = [term]
    while todo:
        t = todo.pop()
        if t.eq(var):
            return True
        todo += t.children()
    return False


UNITS = [unit_normpath('normpath'), unit_normpath('_query_normpath'), Unit('SQLiteIndex._query_normpath[climb]', unit_climb, [SQLiteIndex._query_normpath])] + [
    unit_query(n) for n in ('lookup', 'list', 'list_mode', 'versions')]


# ---- bounded: the real functions and the real database ---------------------------------------------------------------

def run_strings(ctx):
    for k in range(ctx.budget(8, 10) + 1):
        for t in itertools.product('/.a' if k > 5 else '/.ab ', repeat=k):
            if ctx.out_of_time():
                return
            s = ''.join(t)
            with ctx.case({'path': s}) as c:
                want = '/' + rel_py(s)
                c.equal(SQLiteIndex.normpath(s), want, 'normal form')
                if not s.startswith('../'):
                    c.equal(SQLiteIndex._query_normpath(s), want, 'normal form of a query')
    for _ in range(ctx.budget(30000, 300000)):
        s = ''.join(ctx.rng.choice(['/', '//', '.', '..', '/./', '/../', 'a', 'é', '\n', '\\', ' ', '...', '.a', 'b.', '\x00'])
                    for _ in range(ctx.rng.randrange(12)))
        with ctx.case({'path': s}) as c:
            want = '/' + rel_py(s)
            c.equal(SQLiteIndex.normpath(s), want, 'normal form')
            c.equal(SQLiteIndex.normpath(want), want, 'idempotent')


def spellings(rng, path):
    """spellings of a path that differ only in slashes and '.' components"""
    comps = [x for x in path.split('/') if x]

    def gap():
        return rng.choice(['/', '//', '/./', '///', '/././', '/.//', '//./'])

    s = rng.choice(['', '/', '//', '///', './', '/./', '//./', './/', './/./']) + ''.join(
        c + (gap() if i + 1 < len(comps) else '') for i, c in enumerate(comps)) + rng.choice(['', '/', '//', '/.', '/./', '///', '//.'])
    return s


def run_index(ctx):
    quiet()
    names = ['a', 'b', '.a', 'a.', '...', 'a b', 'ü', '-']
    for _ in range(ctx.budget(150, 3000)):
        if ctx.out_of_time():
            return
        index = SQLiteIndex(':memory:')
        index.open_writable()
        wanted = {}
        for k in range(ctx.rng.randrange(1, 6)):
            comps = [ctx.rng.choice(names) for _ in range(ctx.rng.randrange(1, 4))]
            path = '/' + '/'.join(comps)
            stored = spellings(ctx.rng, path)
            folder, name = SQLiteIndex.normpath(stored).rsplit('/', 1)
            index.set_file_infos([(folder, name, k * 10, k * 10 + 1, k, k, 0o100644, 0, '', 0, 0, False, False, False, 0)])
            wanted.setdefault(path, []).append(k)
        index.finalize()
        for path in list(wanted) + ['/', '/a', '/zz', '/a/zz']:
            asked = [path] + [spellings(ctx.rng, path) for _ in range(4)] + [path.lstrip('/'), path + '/']
            with ctx.case({'stored': {k: v for k, v in wanted.items()}, 'path': path, 'spellings': asked}) as c:
                for s in asked:
                    if path == '/':  # the root is made up with the current time
                        c.equal(index.list(s), index.list(path), f'listing of {s!r}')
                        c.equal(index.list_mode(s), index.list_mode(path), f'list_mode of {s!r}')
                        c.equal(list(index.versions(s)), list(index.versions(path)), f'versions of {s!r}')
                        c.check(index.lookup(s) is not None, f'lookup of {s!r}')
                        continue
                    c.equal(index.lookup(s), index.lookup(path), f'lookup of {s!r}')
                    c.equal(index.lookup(s, 1), index.lookup(path, 1), f'lookup of version 1 of {s!r}')
                    c.equal(index.list(s), index.list(path), f'listing of {s!r}')
                    c.equal(index.list_mode(s), index.list_mode(path), f'list_mode of {s!r}')
                    c.equal(index.versions(s), index.versions(path), f'versions of {s!r}')
                if path in wanted and not any(w.startswith(path + '/') for w in wanted):
                    info = index.lookup(path)
                    c.check(info is not None and info.size == wanted[path][-1], 'the stored entry is found', got=str(info))
        index.close()


ORACLES = [
    Oracle('spellings of stored and queried paths', run_index,
           [SQLiteIndex.normpath, SQLiteIndex.lookup, SQLiteIndex.list, SQLiteIndex.list_mode, SQLiteIndex.versions],
           '150 (3000) random indexes with up to 5 entries of up to 3 components, 7 spellings of every path', quick_s=25, thorough_s=120),
    Oracle('all short strings', run_strings, [SQLiteIndex.normpath, SQLiteIndex._query_normpath],
           'all strings of up to 8 (10) characters over "/.a", random longer ones', quick_s=30, thorough_s=200),
    Oracle('posixpath.normpath against its trusted contract', paths.validate, [], 'all strings of up to 7 (9) characters over "/.a"', quick_s=30, thorough_s=100),
]
TRUSTED = ['posixpath.normpath resolves empty, "." and ".." components (compared with the real function for all short strings)']
ASSUMPTIONS = ['queries that start with "../" are excluded: they find nothing by design']
