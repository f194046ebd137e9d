"""C10 TAR headers are mapped faithfully to file metadata."""
import io
import os
import re
import stat
import subprocess
import tarfile
import time

import z3

import pyvc
from checks import c17, paths, tarlib
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.ops import mk_bool, zs
from pyvc.values import Host, Model, Obj, PyRaise, SDict, SInt, SList, SReal, SStr, Unsupported, zb, zi
from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
from ratarmountcore.mountsource.formats import tar as TAR

V = z3.StringVal
R = TAR._TarFileMetadataReader
T = TAR.SQLiteIndexedTar
LETTERS = {'utf-8': ('a', 'b', 'ä', '日', ' ', '.', '-', '_', '\n', '\\', '%', "'", '"', '*', 'o'), 'latin-1': ('a', 'ä', 'ÿ', '\x80', 'o')}


# ------------------------------------------------------------------------------------------------ oracles
def expected_type(t):
    return {b'1': None, b'2': stat.S_IFLNK, b'3': stat.S_IFCHR, b'4': stat.S_IFBLK, b'5': stat.S_IFDIR, b'6': stat.S_IFIFO}.get(t, stat.S_IFREG)


def random_name(rng, enc, number):
    parts = [''.join(rng.choice(LETTERS[enc]) for _ in range(rng.choice((1, 2, 5, 30)))) for _ in range(rng.choice((0, 0, 1, 2, 6)))]
    parts = [p for p in parts if p not in ('.', '..')]
    leaf = rng.choice(LETTERS[enc]) * rng.choice((1, 3, 20)) + str(number)
    if rng.random() < 0.2:
        leaf += 'z' * rng.choice((70, 97, 98, 99, 100, 101, 140))
    name = '/'.join(parts + [leaf])
    return rng.choice(('', '', '', './', '/', '//', './/', 'x/../')) + (name if rng.random() < 0.8 else name.replace('/', '//', 1))


def random_member(rng, enc, number, earlier):
    t = rng.choice((b'0', b'0', b'\0', b'7', b'1', b'2', b'2', b'3', b'4', b'5', b'5', b'6', b'S', b'Z', b'P'))
    style = rng.choice(('gnu', 'ustar', 'pax'))
    name = random_name(rng, enc, number)
    raw = name.encode('utf-8' if style == 'pax' else enc)
    if t == b'5' and rng.random() < 0.7:
        raw += b'/'
    common = dict(mode=rng.choice((0o644, 0o755, 0o7777, 0, 0o4711, 0o1777, rng.randrange(0o10000))), mtime=rng.choice((0, 1, 2 ** 31, 2 ** 33 - 1, 2 ** 33, 2 ** 36, -1, -10 ** 6)),
                  uid=rng.choice((0, 1000, 0o7777777, 0o10000000, 2 ** 31 - 1)), gid=rng.choice((0, 5, 0o7777777, 2 ** 30)))
    if rng.random() < 0.2:  # other implementations store everything that stat returns
        common['mode'] |= {b'1': stat.S_IFREG}.get(t) or expected_type(t)
    if t == b'S':
        m = tarlib.sparse_member(rng, raw)
        for k, v in common.items():
            setattr(m, k, v)
        m.text_encoding = 'utf-8' if m.style.startswith('pax') else enc
        m.name = name.encode(m.text_encoding)
        return m
    if style == 'ustar' and (len(raw) > 100 or any(c > 127 for c in raw)):
        style = 'gnu'
    link = b''
    if t == b'2':
        link = (rng.choice(('..', '/', 'a', 'ä', '../b/ä', '.', 'x y')) + 'k' * rng.choice((0, 0, 50, 99, 100, 101, 200))).encode('utf-8' if style == 'pax' else enc)
    if t == b'1':
        targets = [m for m in earlier if m.type in (b'0', b'\0', b'7') and style == m.style]
        if not targets:
            t = b'0'
        else:
            link = rng.choice(targets).name
    content = rng.randbytes(rng.choice((0, 1, 511, 512, 513, 2000))) if t in (b'0', b'\0', b'7', b'Z', b'P') else b''
    if style == 'ustar':
        link = link[:100]
    m = tarlib.Member(raw, content, type_=t, linkname=link, style=style, **common)
    if t in (b'Z', b'P'):
        m.type = b'0'
        m.build_type = t
    m.text_encoding = 'utf-8' if style == 'pax' else enc
    if m.style == 'pax' and rng.random() < 0.4:
        m.fmtime = b'%d.%d' % (abs(m.mtime), rng.randrange(1, 1000))
        m.mtime = abs(m.mtime)
    return m


def expected_path(m, enc, transform, prefix=''):
    name = m.name.decode(getattr(m, 'text_encoding', 'utf-8')).rstrip('/')
    full = prefix + '/' + name + ('/' if m.type == b'5' else '')
    if transform:
        full = re.sub(transform[0], transform[1], full)
    return '/' + paths.rel_py(full)


def versions_of(ms, path):
    out = []
    for v in range(ms.versions(path)):
        info = ms.lookup(path, v)
        if info is not None:
            out.append(info)
    return out


def check_entry(c, ms, m, path, enc, base, depth):
    """some version of the path is the entry of exactly this member"""
    found = [i for i in versions_of(ms, path) if i.userdata[-1].offsetheader == base + m.offsetheader]
    c.equal(len(found), 1, 'every member has an entry at its path', path=path, header=m.offsetheader, member=m.describe(), versions=[str(i) for i in versions_of(ms, path)])
    if not found:
        return
    i, u = found[0], found[0].userdata[-1]
    data = {'path': path, 'member': m.describe()}
    c.equal(i.size, len(m.content), 'the size is that of the header', **data)
    mtime = float(m.fmtime) if m.fmtime else m.mtime
    c.check(abs(i.mtime - mtime) < 1e-4, 'the modification time is that of the header', expected=mtime, mtime=i.mtime, **data)
    c.equal((i.uid, i.gid), (m.uid, m.gid), 'the owner is that of the header', **data)
    c.equal(stat.S_IMODE(i.mode), stat.S_IMODE(m.mode), 'the permissions are those of the header', **data)
    want = expected_type(m.type)
    if want is None:
        c.check(not stat.S_ISREG(i.mode) and not stat.S_ISLNK(i.mode), 'hard links are recognisable', **data)
    else:
        c.equal(stat.S_IFMT(i.mode), want, 'the type is that of the header', **data)
    c.equal(i.linkname, m.linkname.decode(getattr(m, 'text_encoding', 'utf-8')), 'the target is that of the header', **data)
    c.equal(u.offset, base + m.offset if m.chunks is None else u.offset, 'the data offset points to the data', **data)
    c.equal((bool(u.issparse), bool(u.isgenerated), u.recursiondepth), (m.chunks is not None, False, depth), 'flags', **data)


def run_headers(ctx):
    c17.quiet()
    rng = ctx.rng
    for number in range(ctx.budget(250, 12000)):
        if ctx.out_of_time():
            return
        enc = rng.choice(('utf-8', 'utf-8', 'utf-8', 'latin-1'))
        members = []
        for k in range(rng.choice((1, 3, 10, 30))):
            members.append(random_member(rng, enc, k, members))
        if rng.random() < 0.3:
            m = rng.choice(members)
            if m.type == b'0':
                members.append(tarlib.Member(m.name, b'new', style='pax' if m.style.startswith('pax') else m.style, mode=0o600))
                members[-1].text_encoding = m.text_encoding
        transform = rng.choice((None, None, ('o', '0'), ('^/', '/sub/'), ('a', ''), ('/$', ''), ('(.*)', r'/t\1')))
        nested = rng.random() < 0.25
        if nested and transform and transform[0] == '(.*)':
            transform = None
        with ctx.case({'members': [m.describe() for m in members], 'encoding': enc, 'transform': transform, 'nested': nested, 'case': number}) as c:
            for m in members:
                if getattr(m, 'build_type', None):
                    m.type = m.build_type
            data = build_all(members)
            for m in members:
                if getattr(m, 'build_type', None):
                    m.type = b'0'
            base, prefix, options = 0, '', {}
            if nested:
                outer = [tarlib.Member(b'before', b'y' * 600), tarlib.Member(b'in.tar', data, mode=0o640)]
                full = build_all(outer)
                base, prefix, options = outer[1].offset, '/in.tar', {'recursive': True}
                if transform:
                    prefix = expected_path(outer[1], enc, transform)
                data = full
            ms = T(fileObject=io.BytesIO(data), writeIndex=False, indexFilePath=':memory:', encoding=enc, transform=transform, **options)
            layer = FileVersionLayer(ms)
            try:
                seen = {}
                for m in members:
                    path = expected_path(m, enc, transform, prefix)
                    if path == '/':
                        continue
                    seen.setdefault(path, []).append(m)
                    check_entry(c, ms, m, path, enc, base, 1 if nested else 0)
                if not nested and not transform:
                    for m in members:
                        if m.type == b'1':
                            path = expected_path(m, enc, None)
                            target = '/' + paths.rel_py(m.linkname.decode(m.text_encoding))
                            if len(seen.get(path, [])) == 1 and len(seen.get(target, [])) == 1 and '..' not in m.linkname.decode(enc, 'replace'):
                                i = layer.lookup(path)
                                t = seen[target][0]
                                c.equal((i.size, i.mode), (len(t.content), stat.S_IMODE(t.mode) | stat.S_IFREG), 'hard links have the size and type of their target', path=path, target=target)
                                with layer.open(i) as f:
                                    c.equal(f.read(), t.content, 'hard links have the contents of their target', path=path, target=target)
            finally:
                ms.close()


def build_all(members):
    out = b''
    for m in members:
        t = m.type
        if t in (b'Z', b'P'):  # like a regular file
            m.type = b'0'
            head = len(out)
            part = bytearray(m.build(head))
            at = m.offset - head - 512
            part[at + 156:at + 157] = t
            part[at + 148:at + 156] = b' ' * 8
            part[at + 148:at + 156] = b'%06o\0 ' % sum(part[at:at + 512])
            m.type = t
            out += bytes(part)
        else:
            out += m.build(len(out))
    return out + b'\0' * 1024


def run_gnu_tar(ctx):
    """archives made by GNU tar in all formats, incremental ones included, from a real folder"""
    c17.quiet()
    os.umask(0)
    rng = ctx.rng
    for number in range(ctx.budget(40, 1500)):
        if ctx.out_of_time():
            return
        tmp = ctx.tmp()
        src = os.path.join(tmp, 'src')
        os.mkdir(src)
        folders = [src]
        files = []
        for k in range(rng.choice((3, 10, 25))):
            where = rng.choice(folders)
            n = rng.choice(('a', 'ä ', 'f\n', 'long' * 20, '12345670123', '0')) + str(k)
            p = os.path.join(where, n)
            r = rng.random()
            if r < 0.3 and len(os.path.relpath(p, src)) < 400:
                os.mkdir(p)
                folders.append(p)
            elif r < 0.4:
                os.symlink(rng.choice(('a', '/x/y', 'l' * 120, '../ä')), p)
            elif r < 0.5 and files:
                os.link(rng.choice(files), p)
            elif r < 0.55:
                os.mkfifo(p)
            else:
                with open(p, 'wb') as f:
                    f.write(rng.randbytes(rng.choice((0, 1, 600, 3000))))
                    if rng.random() < 0.2:
                        f.seek(100000)
                        f.write(b'end')
                files.append(p)
            if not os.path.islink(p):
                os.chmod(p, rng.choice((0o644, 0o755, 0o700) if not os.path.isdir(p) else (0o755, 0o700)))
            os.utime(p, (1, rng.randrange(2 ** 31)), follow_symlinks=False)
        kind = rng.choice(('gnu', 'pax', 'oldgnu', 'incremental', 'incremental'))
        archive = os.path.join(tmp, 'a.tar')
        args = ['--listed-incremental=' + os.path.join(tmp, 'snapshot')] if kind == 'incremental' else ['--format=' + kind]
        if rng.random() < 0.3:
            args.append('--sparse')
        subprocess.run(['tar', *args, '-C', src, '-cf', archive, '.'], check=True, stderr=subprocess.DEVNULL)
        want = {}
        for at, dirs, names in os.walk(src):
            for n in dirs + names:
                p = os.path.join(at, n)
                want['/' + os.path.relpath(p, src)] = p
        with ctx.case({'kind': kind, 'args': args, 'entries': sorted(want), 'case': number}) as c:
            ms = T(archive, writeIndex=False, indexFilePath=':memory:')
            layer = FileVersionLayer(ms)
            got = {}

            def walk(at):
                for n, i in (layer.list(at) or {}).items():
                    got[at.rstrip('/') + '/' + n] = i
                    if stat.S_ISDIR(i.mode):
                        walk(at.rstrip('/') + '/' + n)
            walk('/')
            c.equal((sorted(set(want) - set(got)), sorted(set(got) - set(want))), ([], []), 'exactly the entries')
            for path, p in want.items():
                i, st = layer.lookup(path), os.lstat(p)
                c.equal(oct(i.mode), oct(st.st_mode if not stat.S_ISLNK(st.st_mode) else stat.S_IFLNK | 0o777), 'type and permissions', path=path)
                c.check(abs(i.mtime - (st.st_mtime if kind == 'pax' else st.st_mtime_ns // 10 ** 9)) < 1e-6, 'modification time', path=path, mtime=i.mtime, expected=st.st_mtime)
                if stat.S_ISLNK(st.st_mode):
                    c.equal(i.linkname, os.readlink(p), 'target', path=path)
                if stat.S_ISREG(st.st_mode):
                    with open(p, 'rb') as f:
                        data = f.read()
                    with layer.open(i) as f:
                        c.equal((i.size, f.read()), (len(data), data), 'size and contents', path=path)
            ms.close()


ORACLES = [
    Oracle('headers', run_headers, [R._process_tar_info, R._process_serial, R._tar_info_full_mode], '250 (12000) archives of up to 30 members of all types in three formats with extreme fields, '
           'two encodings, transformations and nesting', quick_s=25),
    Oracle('GNU tar', run_gnu_tar, [R._fix_incremental_backup_name_prefixes, R._get_tar_prefix, T._detect_gnu_incremental, R.find_tar_file_offsets],
           '40 (1500) archives made by GNU tar from random folders in four formats, incremental ones included', unprivileged=True, quick_s=15),
]


# ------------------------------------------------------------------------------------------------ units
Q = 'ratarmountcore.mountsource.formats.tar:_TarFileMetadataReader.'


class Member_(Model):
    """an arbitrary member as tarfile parsed it, apart from its type"""

    pytype = tarfile.TarInfo

    def __init__(self, vc, t):
        self.type = t
        self.fields = {k: vc.int(k) for k in ('size', 'mtime', 'uid', 'gid', 'offset', 'offset_data')}
        self.fields.update(mode=vc.nat('mode'), name=vc.str('name'), linkname=vc.str('linkname'), pax_headers=vc.new(SDict(items=[])), type=t)
        self.sparse = vc.bool('sparse')
        self.name0 = self.fields['name']
        for k in self.fields:
            setattr(self, 'a_' + k, (lambda k: lambda vc: self.fields[k])(k))
            setattr(self, 's_' + k, (lambda k: lambda vc, v: self.fields.__setitem__(k, v))(k))

    def m_issparse(self, vc):
        return self.sparse


for _n in ('isdir', 'isreg', 'isfile', 'issym', 'islnk', 'ischr', 'isblk', 'isfifo', 'isdev'):
    def _make(n):
        def f(self, vc):
            i = tarfile.TarInfo()
            i.type = self.type
            return getattr(i, n)()
        return f
    setattr(Member_, 'm_' + _n, _make(_n))


def unit_full_mode(vc):
    t = bytes([vc.pick(256)])
    m = Member_(vc, t)
    mode = m.fields['mode']
    vc.assume(mode.z < 2 ** 21)
    interp = Interp(vc)
    kind, r = attempt(lambda: interp.run_function(R._tar_info_full_mode, [m]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    # L and K never reach the caller
    want = {b'1': 0, b'L': 0, b'K': 0}.get(t, expected_type(t))
    vc.prove(zi(r) == want + mode.z % 4096, 'the mode is the permission bits of the header and the type of the member')


def unit_process_tar_info(vc):
    t = (b'0', b'\0', b'7', b'S', b'1', b'2', b'3', b'4', b'5', b'6', b'D', b'Z')[vc.pick(12)]
    m = Member_(vc, t)
    prefix, shift, depth = vc.str('pathPrefix'), vc.nat('streamOffset'), vc.nat('depth')
    incremental = (None, False, True)[vc.pick(3)]
    recursive = vc.choose('archives inside are mounted')
    transformed, normal, asked = vc.str('transformed'), vc.str('normalised'), []
    vc.assume(z3.And(z3.Not(z3.PrefixOf(V('/'), normal.z)), z3.Not(z3.SuffixOf(V('/'), normal.z))))
    full_mode = vc.nat('full_mode')
    vc.assume(full_mode.z < 2 ** 16)
    stripped, calls = vc.str('stripped'), []

    def fix(i, vc, file, info):
        vc.prove(file == 'archive' and info is m, 'the prefix of incremental archives is removed from the name of this member')
        calls.append(1)
        m.fields['name'] = stripped

    def transform(vc, p):
        asked.append(p)
        return transformed

    def normpath(i, vc, p):
        vc.prove(zs(p) == transformed.z, 'the transformed path is normalised')
        return SStr(z3.Concat(V('/'), normal.z))

    lower = z3.Function('str_lower', z3.StringSort(), z3.StringSort())
    interp = Interp(vc, contracts={Q + '_tar_info_full_mode': lambda i, vc, info: full_mode, Q + '_fix_incremental_backup_name_prefixes': fix},
                    models=paths.MODELS)
    interp.contracts['ratarmountcore.SQLiteIndex:SQLiteIndex.normpath'] = normpath
    kind, r = attempt(lambda: interp.run_function(R._process_tar_info, [], dict(
        tarInfo=m, fileObject='archive', pathPrefix=prefix, streamOffset=shift, isGnuIncremental=incremental, mountRecursively=recursive,
        transform=Host(transform), recursionDepth=depth)))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    rows, xattrs, archive, inc = r
    rows = interp.iterate_list(rows) if hasattr(interp, 'iterate_list') else list(rows.items)
    vc.prove(inc == (True if t == b'D' else incremental) and len(calls) == (1 if t == b'D' or incremental else 0),
             'the prefix is removed exactly for incremental archives, and one is recognised by its folder records')
    name = stripped if calls else m.name0
    f = m.fields
    vc.prove(len(rows) == (2 if t == b'D' and archive is False else 1) and all(isinstance(x, tuple) and len(x) == 15 for x in rows), 'one entry for every member')
    full = z3.Concat(prefix.z, V('/'), name.z, V('/' if t == b'5' else ''))
    vc.prove(len(asked) == 1 and zs(asked[0]) == full, 'the whole path is transformed')
    for k, x in enumerate(rows):
        folder = t == b'D' and k == 1
        vc.prove(z3.Concat(zs(x[0]), V('/'), zs(x[1])) == z3.Concat(V('/'), normal.z), 'the path is that of the header, transformed')
        vc.prove(z3.Not(z3.Contains(zs(x[1]), V('/'))), 'the name is the last component of the path')
        vc.prove(z3.And(zi(x[2]) == shift.z + f['offset'].z + (1 if folder else 0), zi(x[3]) == shift.z + f['offset_data'].z), 'the offsets are those of the header and of the data')
        vc.prove(z3.And(zi(x[4]) == (0 if folder else f['size'].z), zi(x[5]) == f['mtime'].z), 'size and time are those of the header')
        vc.prove(z3.And(zi(x[9]) == f['uid'].z, zi(x[10]) == f['gid'].z, zs(x[8]) == f['linkname'].z), 'owner and link target are those of the header')
        vc.prove(zi(x[6]) == (stat.S_IFDIR + f['mode'].z % 4096 if folder else full_mode.z), 'the mode is that of the header')
        vc.prove(zb(x[12]) == m.sparse.z, 'sparse members are marked')
        vc.prove(zb(x[13]) == z3.BoolVal(False), 'it is no generated folder')
        vc.prove(zi(x[14]) == depth.z, 'the recursion depth is that of the archive')
    vc.prove(not xattrs.items, 'there are no extended attributes but those of the header')
    regular = t in (b'0', b'\0', b'7', b'S')
    vc.prove(zb(archive) == z3.And(recursive, regular, z3.SuffixOf(V('.tar'), lower(name.z))), 'exactly files with the extension of TAR archives are tried to be mounted')


def unit_process_serial(vc):
    """every row of every member is stored once and in order, also when the archive ends unexpectedly"""
    n = vc.nat('members')
    count = {w: vc.func(w + '_before', z3.IntSort(), z3.IntSort()) for w in ('rows', 'xattrs', 'archives')}
    flushed = vc.new(Obj(None, {'rows': SInt(z3.IntVal(0)), 'xattrs': SInt(z3.IntVal(0)), 'seen': SInt(z3.IntVal(0))}, 'ghost'))
    is_archive = vc.func('is_archive', z3.IntSort(), z3.BoolSort())
    for w in count:
        vc.assume(count[w](0) == 0)

    def segment(what, length, start):
        return vc.new(SList(length, lambda k: SInt(z3.simplify(start + k)), True, what))

    class Info(Model):
        def __init__(self, k):
            self.k, self.name = k, None

        def a_pax_headers(self, vc):
            return self.headers

        def s_name(self, vc, v):
            self.name = v

        def s_size(self, vc, v):
            raise Unsupported('size')

    members = {}

    def member(k):
        m = Info(k)
        m.headers = vc.new(SDict(items=[['GNU.sparse.name', 'real']])) if vc.choose('sparse file with a placeholder name') else vc.new(SDict(items=[]))
        return m

    class Tar(Model):
        def iterate(self, vc):
            return SList(n.z, member, False, 'members')

        def s_members(self, vc, v):
            pass

    max_depth, own = vc.nat('maxRecursionDepth'), vc.nat('depth')
    parent = vc.new(Obj(None, {'maxRecursionDepth': max_depth, '_isGnuIncremental': 'state 0', 'transform': 'transform'}, 'parent'))
    broken = []

    def process(i, vc, tarInfo=None, fileObject=None, pathPrefix=None, streamOffset=None, isGnuIncremental=None, mountRecursively=None, transform=None, recursionDepth=None):
        k = zi(flushed.fields['seen'])
        vc.prove(z3.And(zi(tarInfo.k) == k, k < n.z) if isinstance(tarInfo, Info) else False, 'the members are processed in order')
        vc.prove(z3.BoolVal((fileObject, pathPrefix, streamOffset, transform) == ('archive', 'prefix', 'shift', 'transform')), 'with the settings of the mount')
        vc.prove(tarInfo.name == ('real' if tarInfo.headers.items else None), 'sparse files have their real name')
        vc.prove(z3.And(zi(recursionDepth) == own.z, zb(mountRecursively) == (own.z < max_depth.z)), 'with the depth of the archive')
        if vc.choose('the archive is damaged'):
            broken.append(1)
            raise PyRaise(tarfile.ReadError, ('unexpected end of data',))
        interp.setattr(flushed, 'seen', SInt(k + 1))
        out = []
        for w in ('rows', 'xattrs'):
            c = vc.nat('new_' + w).z
            vc.assume(z3.And(c >= (1 if w == 'rows' else 0), count[w](k + 1) == count[w](k) + c))
            out.append(segment(w, c, count[w](k)))
        vc.assume(count['archives'](k + 1) == count['archives'](k) + z3.If(is_archive(k), count['rows'](k + 1) - count['rows'](k), 0))
        return (out[0], out[1], mk_bool(is_archive(k)), 'state 1')

    def store(what):
        def f(vc, rows):
            s, j, length = zi(flushed.fields[what]), vc.skolem('j'), slen(rows)
            vc.assume(z3.And(0 <= j, j < length))
            vc.prove(z3.Implies(length > 0, zi(rows.elem(j)) == s + j), 'exactly the next ' + what + ' are stored')
            interp.setattr(flushed, what, SInt(s + length))
        return Host(f)

    def slen(x):
        return z3.IntVal(len(x.items)) if x.items is not None else x.length

    def collected(vc, lst, what):
        t = z3.Int(vc.name('t'))
        s = zi(flushed.fields[what])
        facts = [(what + ' that were collected', z3.And(s >= 0, s + slen(lst) == count[what](zi(flushed.fields['seen']))))]
        if lst.items is None:
            facts.append(('no ' + what + ' were lost', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < lst.length), zi(lst.elem(t)) == s + t))))
        return facts

    def inv(vc, L):
        return [('members that were processed', zi(flushed.fields['seen']) == zi(L.k))] + collected(vc, L.fileInfos, 'rows') + collected(vc, L.xattrs, 'xattrs') + [
            ('archives inside', slen(L.filesToMountRecursively) == count['archives'](zi(L.k)))]

    def fresh(what):
        def f(vc, L):
            e = vc.func('kept_' + what, z3.IntSort(), z3.IntSort())
            return vc.new(SList(vc.nat('kept').z, lambda k: SInt(e(k)), True, what))
        return f

    self = vc.new(Obj(R, {'_parent': parent, '_recursionDepth': own, '_set_file_infos': store('rows'), '_setxattrs': store('xattrs'), '_lastUpdateTime': SReal(z3.RealVal(0)),
                          '_update_progress_bar': Host(lambda vc: None)}, 'self'))
    loops = {(Q + '_process_serial', 0): LoopSpec(inv, havoc={'fileInfos': fresh('rows'), 'xattrs': fresh('xattrs'), 'filesToMountRecursively': fresh('archives')},
                                                  heap=lambda vc, L: [(flushed, 'rows', None), (flushed, 'xattrs', None), (flushed, 'seen', None), (self, '_lastUpdateTime', None),
                                                                      (parent, '_isGnuIncremental', lambda vc: 'state k')])}
    interp = Interp(vc, contracts={Q + '_process_tar_info': process, Q + '_open_tar': lambda i, vc, s, f: Tar()}, loops=loops, models={time.time: lambda vc: SReal(z3.Real(vc.name('now')))})
    kind, r = attempt(lambda: interp.run_function(R._process_serial, [self, 'archive', 'prefix', 'shift']))
    if kind == 'exc' and not broken:
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    if kind == 'ok' and zi_is_empty(r):
        vc.prove(z3.Or(own.z > max_depth.z, z3.BoolVal(False)), 'only archives that are nested too deep are ignored')
        return
    done = zi(flushed.fields['seen'])
    vc.prove(z3.And([zi(flushed.fields[w]) == count[w](done) for w in ('rows', 'xattrs')]), 'everything that was read is stored')
    if kind == 'ok':
        vc.prove(z3.And(done == n.z, slen(r) == count['archives'](n.z)), 'all members are processed, and all archives inside are returned')


def zi_is_empty(r):
    return isinstance(r, SList) and r.items == []


UNITS = [
    Unit('_tar_info_full_mode', unit_full_mode, [R._tar_info_full_mode]),
    Unit('_process_serial', unit_process_serial, [R._process_serial]),
    Unit('_process_tar_info', unit_process_tar_info, [R._process_tar_info]),
]
TRUSTED = ['tarfile.TarInfo parsing of single headers', 'SQLite statements as their text says']
ASSUMPTIONS = ['_fix_incremental_backup_name_prefixes and _detect_gnu_incremental are only covered by runs', 'hard links are only resolved together with the version layer', 'listing an empty folder may return None']
