"""Builds TAR archives byte by byte, independently of tarfile, and knows what every member has to look like."""
import random
import stat

BLOCK = 512


def octal(n, width):
    """a TAR number field: octal with terminator, base-256 when it does not fit"""
    if 0 <= n < 8 ** (width - 1):
        return b'%0*o\0' % (width - 1, n)
    return bytes([0x80 if n >= 0 else 0xFF]) + n.to_bytes(width - 1, 'big', signed=n < 0)


def pad(data):
    return data + b'\0' * (-len(data) % BLOCK)


def header(name, size=0, mtime=0, mode=0o644, uid=0, gid=0, type_=b'0', linkname=b'', prefix=b'', gnu=True, extra=None,
           devmajor=0, devminor=0, uname=b'', gname=b''):
    h = bytearray(512)

    def put(at, data, width):
        assert len(data) <= width, (data, width)
        h[at:at + len(data)] = data

    put(0, name, 100)
    put(100, octal(mode, 8), 8)
    put(108, octal(uid, 8), 8)
    put(116, octal(gid, 8), 8)
    put(124, octal(size, 12), 12)
    put(136, octal(mtime, 12), 12)
    put(148, b' ' * 8, 8)
    put(156, type_, 1)
    put(157, linkname, 100)
    put(257, b'ustar  \0' if gnu else b'ustar\00000', 8)
    put(265, uname, 32)
    put(297, gname, 32)
    if type_ in (b'3', b'4') or not gnu:
        put(329, octal(devmajor, 8), 8)
        put(337, octal(devminor, 8), 8)
    put(345, prefix, 155)
    for at, data in (extra or {}).items():
        put(at, data, len(data))
    put(148, b'%06o\0 ' % sum(h), 8)
    return bytes(h)


def pax_record(key, value):
    body = b' ' + key + b'=' + value + b'\n'
    n = len(body)
    while True:
        total = n + len(str(total)) if 'total' in locals() else n + len(str(n))
        if len(str(total)) + n == total:
            break
    return str(total).encode() + body


def pax(records, type_=b'x', name=b'pax'):
    data = b''.join(pax_record(k, v) for k, v in records)
    return header(name, len(data), type_=type_, gnu=False) + pad(data)


class Member:
    """one entry; name and linkname are bytes as stored; chunks: [(offset, bytes)] for sparse members"""

    def __init__(self, name, content=b'', type_=b'0', mode=0o644, mtime=0, uid=0, gid=0, linkname=b'', style='gnu',
                 chunks=None, size=None, xattrs=(), terminal=True, pax_extra=(), prefix=b''):
        self.name, self.content, self.type, self.mode, self.mtime = name, content, type_, mode, mtime
        self.uid, self.gid, self.linkname, self.style, self.chunks = uid, gid, linkname, style, chunks
        self.xattrs, self.terminal, self.pax_extra, self.prefix = list(xattrs), terminal, list(pax_extra), prefix
        self.fmtime = None  # fractional mtime text for pax
        if chunks is not None:
            data = bytearray(size)
            for o, d in chunks:
                data[o:o + len(d)] = d
            self.content = bytes(data)
        self.offsetheader = self.offset = None

    def describe(self):
        r = {'name': self.name, 'size': len(self.content), 'type': self.type, 'style': self.style}
        if self.chunks is not None:
            r['chunks'] = [(o, len(d)) for o, d in self.chunks]
        if self.linkname:
            r['linkname'] = self.linkname
        return r

    def file_type(self):
        return {b'0': stat.S_IFREG, b'\0': stat.S_IFREG, b'1': stat.S_IFREG, b'2': stat.S_IFLNK, b'3': stat.S_IFCHR,
                b'4': stat.S_IFBLK, b'5': stat.S_IFDIR, b'6': stat.S_IFIFO, b'7': stat.S_IFREG, b'S': stat.S_IFREG}[self.type]

    def build(self, at):
        """-> bytes of the member when it starts at offset `at`; sets offsetheader and offset"""
        self.offsetheader = at
        out = b''
        h = dict(mtime=int(self.mtime), mode=self.mode, uid=self.uid, gid=self.gid)
        if self.style == 'gnu' and self.chunks is None:
            if len(self.linkname) > 100:
                out += header(b'././@LongLink', len(self.linkname) + 1, type_=b'K') + pad(self.linkname + b'\0')
            if len(self.name) > 100:
                out += header(b'././@LongLink', len(self.name) + 1, type_=b'L') + pad(self.name + b'\0')
            size = len(self.content) if self.type in (b'0', b'\0', b'7', b'D') else 0
            out += header(self.name[:100], size, type_=self.type, linkname=self.linkname[:100], prefix=self.prefix, **h)
            self.offset = at + len(out)
            return out + (pad(self.content) if size else b'')
        if self.style == 'gnu':  # old GNU sparse
            maps = [(o, len(d)) for o, d in self.chunks]
            if self.terminal:
                maps.append((len(self.content), 0))
            data = b''.join(d for _o, d in self.chunks)
            if len(self.name) > 100:
                out += header(b'././@LongLink', len(self.name) + 1, type_=b'L') + pad(self.name + b'\0')

            def entries(ms, n):
                return b''.join(octal(o, 12) + octal(s, 12) for o, s in ms[:n])

            extra = {386: entries(maps, 4), 482: b'\1' if len(maps) > 4 else b'\0', 483: octal(len(self.content), 12)}
            out += header(self.name[:100], len(data), type_=b'S', extra=extra, **h)
            rest = maps[4:]
            while rest:
                block = bytearray(512)
                e = entries(rest, 21)
                block[:len(e)] = e
                rest = rest[21:]
                block[504] = 1 if rest else 0
                out += bytes(block)
            self.offset = at + len(out)
            return out + pad(data)
        records = list(self.pax_extra)
        name, data, type_ = self.name, self.content, self.type
        size = len(data) if type_ in (b'0', b'\0', b'7') else 0
        if self.fmtime:
            records.append((b'mtime', self.fmtime))
        if self.chunks is not None:
            data = b''.join(d for _o, d in self.chunks)
            maps = [(o, len(d)) for o, d in self.chunks]
            if self.terminal:
                maps.append((len(self.content), 0))
            real = b'%d' % len(self.content)
            if self.style == 'pax0.0':
                records += [(b'GNU.sparse.size', real), (b'GNU.sparse.numblocks', b'%d' % len(maps))]
                for o, s in maps:
                    records += [(b'GNU.sparse.offset', b'%d' % o), (b'GNU.sparse.numbytes', b'%d' % s)]
            elif self.style == 'pax0.1':
                records += [(b'GNU.sparse.size', real), (b'GNU.sparse.numblocks', b'%d' % len(maps)),
                            (b'GNU.sparse.name', self.name), (b'GNU.sparse.map', b','.join(b'%d,%d' % m for m in maps))]
                name = b'GNUSparseFile.0/x'
            else:
                records += [(b'GNU.sparse.major', b'1'), (b'GNU.sparse.minor', b'0'), (b'GNU.sparse.name', self.name),
                            (b'GNU.sparse.realsize', real)]
                name = b'GNUSparseFile.0/x'
                data = pad(b'%d\n' % len(maps) + b''.join(b'%d\n%d\n' % m for m in maps)) + data
            size = len(data)
        if self.style in ('pax', 'pax0.0'):
            if len(name) > 100 or any(c > 127 for c in name):
                records.append((b'path', name))
                name = b'truncated'
            if len(self.linkname) > 100 or any(c > 127 for c in self.linkname):
                records.append((b'linkpath', self.linkname))
        for k, v in self.xattrs:
            records.append((b'SCHILY.xattr.' + k, v))
        prefix = self.prefix
        if self.style == 'ustar' and len(name) > 100:
            cut = name[:-1].rfind(b'/', 0, 156)
            prefix, name = name[:cut], name[cut + 1:]
        if records:
            out += pax(records)
        out += header(name[:100], size, type_=type_, linkname=self.linkname[:100], gnu=False, prefix=prefix, **h)
        self.offset = at + len(out)
        if self.style == 'pax1.0' and self.chunks is not None:
            self.offset += len(pad(b'%d\n' % len(maps) + b''.join(b'%d\n%d\n' % m for m in maps)))
        return out + (pad(data) if size else b'')


def build(members, end=True, start=0):
    out = b''
    for m in members:
        out += m.build(start + len(out))
    return out + (b'\0' * 1024 if end else b'')


def chunks(rng, n, hole_max=3):
    """data ranges of a sparse member: sorted, apart or adjacent, 512 byte aligned in the archive"""
    out, at = [], 0
    for i in range(n):
        at += rng.choice((0, 1, 512, 700, 512 * hole_max))
        size = 512 * rng.choice((0, 1, 1, 2, 3)) if i + 1 < n else rng.choice((0, 1, 511, 512, 513, 1024))
        out.append((at, rng.randbytes(size)))
        at += size
    return out, at


def sparse_member(rng, name):
    n = rng.choice((0, 1, 1, 2, 3, 4, 5, 6, 27, 60))
    cs, end = chunks(rng, n)
    cs = [c for i, c in enumerate(cs) if c[1] or rng.random() < 0.3]
    size = end + rng.choice((0, 0, 1, 512, 5000))
    style = rng.choice(('gnu', 'pax0.0', 'pax0.1', 'pax1.0'))
    terminal = rng.random() < 0.6 or not cs
    return Member(name, chunks=cs, size=size, style=style, terminal=terminal, mtime=rng.randrange(2 ** 31))


def random_bytes(rng, n):
    return rng.randbytes(n)


if __name__ == '__main__':
    import io
    import tarfile

    r = random.Random(1)
    ms = [Member(b'a', b'hello'), Member(b'd/', type_=b'5'), Member(b'x' * 150, b'long'), Member(b'l', linkname=b'y' * 120, type_=b'2')]
    ms += [sparse_member(r, b's%d' % i) for i in range(20)]
    ms.append(Member(b'p' * 120, b'pax', style='pax', xattrs=[(b'user.a', b'1')]))
    t = tarfile.open(fileobj=io.BytesIO(build(ms)))
    for ti, m in zip(t, ms):
        print(ti.name[:20], ti.size, len(m.content), ti.offset == m.offsetheader, ti.offset_data == m.offset, ti.issparse())
