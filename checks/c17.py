"""Contracts on every operation of the write overlay (what the user sees at the path it is for changes as asked, nothing else does,
and nothing at all if it fails), and histories on real mounts next to a real folder."""
import contextlib
import errno
import inspect
import os
import shutil
import stat

import z3

from checks import overlay
from checks.common import quiet
from checks.overlaymodel import (ATTRS, CONTRACTS, DEVICE, FILE, FOLDER, FS, CONTROL, INSIDE, K, LINK, OTHER, PARENT, TIME, TRUNCATED, WM, Folder, Info, ModeOf, Mount, Name, Path, Real, has_content,
                                 interp_for, overlay as overlay_object, parents_created)
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc.ops import mk_bool, mk_int
from pyvc.values import Host, Model, Obj, PyRaise, SBool, SDict, SInt, SList, SStr, Unsupported, zi
from ratarmount import FuseMount as fuse_mount
from ratarmount import WriteOverlay
from ratarmount.FuseMount import FuseMount
from ratarmount.WriteOverlay import WritableFolderMountSource as W
from ratarmount.fuse import fuse
from ratarmountcore.mountsource import FileInfo


def raw(name, cls=W):
    return inspect.unwrap(getattr(cls, name))


# ------------------------------------------------------------------------------------------------ proofs
class Setting:
    def __init__(self, vc, more=None, failing=True):
        self.vc = vc
        self.st = FS(vc, failing=failing)
        self.p, self.q = self.st.path('p'), self.st.path('q')
        vc.assume(self.p.z != self.q.z)
        vc.assume(z3.Not(CONTROL(self.p.z)))  # check_ignored_prefixes
        self.more = more

    def run(self, name, *args):
        vc, st = self.vc, self.st
        st.args = args
        self.before = st.snapshot()
        interp = interp_for(vc, st, self.more)
        self.kind, self.result = attempt(lambda: interp.run_function(raw(name), [overlay_object(vc, st), *args]))
        for k in st.tracked:
            vc.prove(st.invariant(k.z), 'what is marked as deleted is not in the overlay and exists elsewhere')
        if self.kind == 'exc':
            vc.prove(isinstance(self.result.cls, type) and issubclass(self.result.cls, OSError), 'only operating system errors are raised')
        return self.kind == 'ok'

    def untouched(self, *paths, but=()):
        for k in paths:
            self.vc.prove(self.st.same(self.before, k.z, but), 'nothing changes for other paths' if k is self.q else 'nothing else changes')

    def failed(self):
        """nothing the user sees has changed"""
        for k in self.st.tracked:
            self.vc.prove(self.st.same(self.before, k.z), 'a failed operation changes nothing')

    def refused_only_if(self, cond, what):
        """without a failing system call, the operation succeeds unless cond"""
        if not self.st.failed:
            self.vc.prove(cond, what)


def created(name, type_, args, mode=None, more=None):
    def unit(vc):
        s = Setting(vc, more)
        st, p, q = s.st, s.p, s.q
        vc.assume(z3.Not(st.visible(p.z)))  # the kernel does not ask for it otherwise
        vc.assume(z3.Implies(st.deleted(p.z), z3.Not(st.O[p.z])))
        a = args(vc)
        if s.run(name, p, *a):
            k = p.z
            vc.prove(st.visible(k), 'what was created is visible')
            vc.prove(st.type(k) == type_, 'it is what was asked for')
            if mode is not None:
                vc.prove(st.shown(k, 'mode') == zi(a[mode]) if name != 'mkdir' else st.R[k], 'it has the permissions that were asked for')
            for x in ('mtime', 'uid', 'gid'):
                vc.prove(st.shown(k, x) == st.oattr[x][k], f'it does not get the {x} of something deleted')
            if type_ == LINK:
                vc.prove(st.content(k) == zi(a[0]), 'the link leads where it was asked to')
                vc.prove(st.shown(k, 'mode') == st.oattr['mode'][k], 'it does not get the mode of something deleted')
            if name == 'create':
                vc.prove(st.content(k) == 0, 'it is empty')
                vc.prove(st.opened[0].eq(k), 'the handle is for the file')
            s.untouched(q)
        else:
            s.refused_only_if(False, 'it can be created')
            s.failed()
    return unit


class Children(Model):
    """list_mode after mkdir: what other sources have in a folder of that name"""

    def __init__(self, name):
        self.name = name


def unit_mkdir(vc):
    """the children that other mount sources have in the folder are hidden: for one arbitrary child, and for the loop by its invariant"""
    s = Setting(vc)
    st, p, q = s.st, s.p, s.q
    child = st.path('child')  # an arbitrary child
    mode = vc.int('mode')
    vc.assume(z3.And(INSIDE(child.z, p.z), child.z != q.z, z3.Not(INSIDE(q.z, p.z)), z3.Not(st.O[child.z])))
    vc.assume(z3.Not(st.visible(p.z)))
    listed = []

    def list_mode(vc, path):
        listed.append(path.z.eq(p.z))
        vc.prove(path.z.eq(p.z) and vc.feasible(st.O[p.z]), 'the created folder is listed')
        # either the child exists elsewhere and is listed, or not
        return SList(items=[Name(child)] if vc.branch(st.A[child.z]) else [])
    Mount.m_list_mode, old = (lambda self, vc, path: list_mode(vc, path)), Mount.m_list_mode
    Path.m_rstrip, old2 = (lambda self, vc, chars: self), Path.m_rstrip

    def child_of(x):
        # folder + '/' + name of the child
        if isinstance(x, Path):
            return x
        if len(x.parts) == 3 and x.parts[0] is p and x.parts[1] == '/' and isinstance(x.parts[2], Name):
            return x.parts[2].p
        raise Unsupported('path')

    def mark(interp, vc, self, path):
        return interp.run_function(W._mark_as_deleted, [self, child_of(path)])
    try:
        s.more = {WM + '_mark_as_deleted': mark}
        ok = s.run('mkdir', p, mode)
    finally:
        Mount.m_list_mode, Path.m_rstrip = old, old2
    if ok:
        k = p.z
        vc.prove(st.visible(k), 'what was created is visible')
        vc.prove(st.type(k) == FOLDER, 'it is what was asked for')
        vc.prove(z3.And(st.R[k], st.has['mode'][k]), 'it has the permissions that were asked for')
        for x in ('mtime', 'uid', 'gid'):
            vc.prove(st.shown(k, x) == st.oattr[x][k], f'it does not get the {x} of something deleted')
        vc.prove(z3.Not(st.visible(child.z)), 'the new folder is empty')
        s.untouched(q)
    else:
        s.refused_only_if(False, 'it can be created')
        for x in (p, q):
            vc.prove(st.same(s.before, x.z), 'a failed operation changes nothing')


def removed(name, types):
    def unit(vc):
        s = Setting(vc)
        st, p, q = s.st, s.p, s.q
        empty = True
        if name == 'rmdir':
            vc.assume(z3.Implies(st.visible(p.z), st.type(p.z) == FOLDER))
            empty = vc.choose('empty')
            Mount.m_list_mode, old = (lambda self, vc, path: SList(items=['deleted', *([] if empty else ['other'])])), Mount.m_list_mode
        else:
            vc.assume(z3.Implies(st.visible(p.z), st.type(p.z) != FOLDER))
        s.more = {WM + 'list_deleted': lambda interp, vc, self, path: SList(items=['deleted', 'something else'])}
        try:
            ok = s.run(name, p)
        finally:
            if name == 'rmdir':
                Mount.m_list_mode = old
        if ok:
            vc.prove(s.before.visible(p.z), 'only what exists can be removed')
            vc.prove(empty, 'only empty folders can be removed')
            vc.prove(z3.Not(st.visible(p.z)), 'what was removed is not visible any more')
            vc.prove(z3.Not(st.O[p.z]), 'nothing is left in the overlay')
            s.untouched(q)
        else:
            s.refused_only_if(z3.Or(z3.Not(s.before.visible(p.z)), not empty), 'what exists can be removed')
            s.failed()
    return unit


def attributes(name, args, effect, link=None):
    def unit(vc):
        s = Setting(vc)
        st, p, q = s.st, s.p, s.q
        a = args(vc)
        ok = s.run(name, p, *a)
        if ok:
            want = effect(vc, a, st)
            if want:
                vc.prove(s.before.visible(p.z), 'only what exists can be changed')
            s.untouched(p, but=tuple(want))
            for x, v in want.items():
                if v is not None:
                    vc.prove(st.shown(p.z, x) == v, f'the {x} is the one asked for')
            vc.prove(st.O[p.z] == s.before.O[p.z], 'only the metadata database decides')
            s.untouched(q)
        else:
            s.refused_only_if(z3.Not(s.before.visible(p.z)), 'what exists can be changed')
            s.failed()
    return unit


def chown_effect(vc, a, st):
    return {x: zi(v) for x, v in (('uid', a[0]), ('gid', a[1])) if not vc.branch(zi(v) == -1)}


def new_times(vc):
    return [None if vc.choose('now') else (vc.int('access'), vc.int('modification'))]


def times_effect(vc, a, st):
    return {'mtime': TIME(st.now if a[0] is None else z3.ToReal(a[0][1].z) / z3.RealVal('1000000000.0'))}


def unit_truncate(vc):
    s = Setting(vc)
    st, p, q = s.st, s.p, s.q
    vc.assume(z3.Implies(st.visible(p.z), st.type(p.z) == FILE))
    n = vc.nat('length')
    if s.run('truncate', p, n):
        vc.prove(s.before.visible(p.z), 'only what exists can be changed')
        vc.prove(st.content(p.z) == TRUNCATED(s.before.content(p.z), n.z), 'the contents are those from before, with the new length')
        s.untouched(p, but=('content', 'mtime'))
        vc.prove(st.shown(p.z, 'mtime') == st.oattr['mtime'][p.z], 'the modification time is that of the change')
        s.untouched(q)
    else:
        s.refused_only_if(z3.Or(z3.Not(s.before.visible(p.z)), z3.Not(s.before.type(p.z) == FILE)), 'what exists can be changed')
        for x in st.tracked:
            vc.prove(st.same(s.before, x.z, ('mtime',) if x is p else ()), 'a failed operation changes nothing but a modification time')


def unit_open(vc):
    s = Setting(vc)
    st, p, q = s.st, s.p, s.q
    vc.assume(z3.Implies(st.visible(p.z), st.type(p.z) == FILE))
    flags = (os.O_WRONLY, os.O_RDWR, os.O_RDONLY)[vc.pick(3, 'flags')]
    ok = s.run('open', p, flags)
    if ok:
        vc.prove(s.before.visible(p.z), 'only what exists can be opened')
        vc.prove(st.opened[0].eq(p.z) and st.opened[1] == flags, 'the handle is for the file and as asked for')
        s.untouched(p, but=('mtime',))
        if flags != os.O_RDONLY:
            vc.prove(st.shown(p.z, 'mtime') == st.oattr['mtime'][p.z], 'the modification time will be that of the change')
        s.untouched(q)
    else:
        if flags != os.O_RDONLY:
            s.refused_only_if(z3.Not(s.before.visible(p.z)), 'what exists can be opened')
        for x in st.tracked:
            vc.prove(st.same(s.before, x.z, ('mtime',) if x is p else ()), 'a failed operation changes nothing but a modification time')


def unit_write(vc):
    s = Setting(vc)
    st, p, q = s.st, s.p, s.q
    vc.assume(z3.And(st.visible(p.z), st.O[p.z], st.OT[p.z] == FILE))
    st.handle_path = p.z
    fd, data, offset = vc.int('fd'), vc.int('data'), vc.nat('offset')
    if s.run('write', p, data, offset, fd):
        vc.prove(len(st.written) == 1 and st.written[0][0] is fd and st.written[0][2] is data, 'the data is written once to the handle')
        vc.prove(st.written[0][1] is not None and zi(st.written[0][1]) == offset.z, 'the data is written to the position that was asked for')
        vc.prove(isinstance(s.result, SInt), 'the number of bytes written is returned')
        s.untouched(p, but=('mtime',))
        vc.prove(st.shown(p.z, 'mtime') == st.oattr['mtime'][p.z], 'the modification time is that of the change')
        s.untouched(q)
    else:
        s.refused_only_if(False, 'open files can be written')
        vc.prove(not st.written, 'nothing was written')
        for x in st.tracked:
            vc.prove(st.same(s.before, x.z, ('mtime',) if x is p else ()), 'a failed operation changes nothing but a modification time')


def unit_sync(vc):
    s = Setting(vc)
    st, p = s.st, s.p
    fd = vc.int('fd')
    st.handle_path = p.z
    name = ('flush', 'fsync')[vc.pick(2, 'operation')]
    if s.run(name, p, *([vc.pick(2, 'datasync')] if name == 'fsync' else []), fd):
        vc.prove(len(st.synced) == 1 and st.synced[0] is fd, 'the handle is written to disk')
    else:
        s.refused_only_if(False, 'open files can be synchronised')
    s.failed()


def unit_modifiable(vc):
    """_ensure_file_is_modifiable: afterwards it is in the overlay, with the same contents and attributes"""
    s = Setting(vc)
    st, p, q = s.st, s.p, s.q
    vc.assume(z3.Implies(z3.And(st.visible(p.z), z3.Not(st.O[p.z])), st.type(p.z) != FOLDER))
    if s.run('_ensure_file_is_modifiable', p):
        vc.prove(z3.And(st.O[p.z], z3.Or(s.before.O[p.z], s.before.visible(p.z))), 'what exists is in the overlay afterwards')
        s.untouched(p)
        s.untouched(q)
    else:
        s.refused_only_if(z3.Or(z3.Not(s.before.visible(p.z)), s.before.type(p.z) == DEVICE), 'what exists can be copied')
        s.failed()


def unit_link(vc):
    s = Setting(vc)
    st, p, q = s.st, s.p, s.q
    source = st.path('source')
    vc.assume(z3.And(source.z != p.z, z3.Not(st.visible(p.z)), z3.Implies(st.visible(source.z), z3.And(st.type(source.z) != FOLDER))))
    if s.run('link', p, source):
        vc.prove(s.before.visible(source.z), 'only what exists can get another name')
        vc.prove(st.visible(p.z), 'the new name is visible')
        vc.prove(z3.And(st.type(p.z) == s.before.type(source.z), st.content(p.z) == s.before.content(source.z)), 'both names are for the same file')
        for a in ATTRS:
            vc.prove(st.shown(p.z, a) == s.before.shown(source.z, a), f'both names have the same {a}')
        s.untouched(q, source)
    else:
        s.refused_only_if(z3.Not(z3.And(s.before.visible(source.z), s.before.O[source.z])), 'what is in the overlay can get another name')
        s.failed()


def rename_setting(vc, folder):
    s = Setting(vc)
    st = s.st
    old, new, q = s.p, st.path('new'), s.q
    k, n = old.z, new.z
    vc.assume(z3.And(q.z != n, z3.Not(INSIDE(n, k)), z3.Not(CONTROL(n))))
    vc.assume(z3.Implies(st.visible(k), (st.type(k) == FOLDER) == folder))
    vc.assume(z3.Implies(st.visible(n), z3.And((st.type(k) == FOLDER) == (st.type(n) == FOLDER), z3.Not(INSIDE(k, n)))))
    return s, st, old, new, q


def unit_rename_file(vc):
    s, st, old, new, q = rename_setting(vc, False)
    same = vc.branch(old.z == new.z)
    if s.run('rename', old, new):
        vc.prove(s.before.visible(old.z), 'only what exists can be renamed')
        if same:
            s.untouched(old)
        else:
            vc.prove(z3.Not(st.visible(old.z)), 'the old name is not visible any more')
            vc.prove(st.visible(new.z), 'the new name is visible')
            kind = s.before.type(old.z)
            vc.prove(z3.And(st.type(new.z) == kind, z3.Implies(has_content(kind), st.content(new.z) == s.before.content(old.z))), 'the new name shows what the old name showed')
            for a in ATTRS:
                vc.prove(st.shown(new.z, a) == s.before.shown(old.z, a), f'the {a} stays the same')
        s.untouched(q)
    else:
        s.refused_only_if(z3.Or(z3.Not(s.before.visible(old.z)), s.before.type(old.z) == DEVICE), 'what exists can be renamed')
        s.failed()


def unit_rename_folder(vc):
    """q: any path inside of the new folder and q0 its counterpart in the old one; r: any other path"""
    s, st, old, new, r = rename_setting(vc, True)
    q, q0 = st.path('inside_new'), st.path('inside_old')
    k, n = old.z, new.z
    b = st
    vc.assume(z3.And(INSIDE(q.z, n), INSIDE(q0.z, k), q.z != q0.z, q.z != k, q.z != n, q0.z != n, q0.z != k, r.z != q.z, r.z != q0.z,
                     z3.Not(INSIDE(r.z, k)), z3.Not(INSIDE(r.z, n)), z3.Not(INSIDE(q.z, k)), k != n))
    # the sources are trees
    vc.assume(z3.And(z3.Not(CONTROL(q.z)), z3.Not(CONTROL(q0.z))))  # those are in the root folder
    for x, f in ((q, n), (q0, k)):
        vc.assume(z3.And(z3.Implies(b.O[x.z], b.O[f]), z3.Implies(b.A[x.z], z3.And(b.A[f], b.AT[f] == FOLDER))))
    st.zone = (q0, q)
    if s.run('rename', old, new):
        vc.prove(s.before.visible(k), 'only what exists can be renamed')
        vc.prove(z3.Not(st.visible(k)), 'the old name is not visible any more')
        vc.prove(z3.And(st.visible(n), st.type(n) == FOLDER), 'the new name is visible')
        for a in ATTRS:
            vc.prove(st.shown(n, a) == s.before.shown(k, a), f'the {a} stays the same')
        vc.prove(z3.Not(st.exists(q0.z)), 'nothing is left at the old name')
        x, y = q.z, q0.z
        vc.prove(st.visible(x) == s.before.visible(y), 'the same entries are in the folder')
        vc.prove(z3.Implies(st.visible(x), z3.And(st.type(x) == s.before.type(y), z3.Implies(has_content(st.type(x)), st.content(x) == s.before.content(y)),
                                                  *[st.shown(x, a) == s.before.shown(y, a) for a in ATTRS])), 'the entries in the folder stay the same')
        s.untouched(r)
    else:
        s.failed()


def unit_parents(vc):
    """_ensure_parent_exists: the parent gets created like it is shown; parents of it by the contract itself"""
    st = FS(vc)
    p, parent, q = st.path('p'), st.path('parent'), st.path('q')
    vc.assume(z3.And(INSIDE(p.z, parent.z), parent.z != p.z))
    # the kernel has made sure that the parent is a visible folder
    vc.assume(z3.Implies(st.exists(parent.z), st.visible(parent.z)))
    vc.assume(z3.Implies(z3.And(st.exists(parent.z), st.type(parent.z) != FOLDER), st.type(parent.z) == LINK))
    vc.assume(z3.Implies(z3.And(INSIDE(parent.z, q.z)), INSIDE(p.z, q.z)))
    before = st.snapshot()
    first = []
    recursive = interp_for(vc, st).contracts[WM + '_ensure_parent_exists']

    def rec(interp, vc, self, path):
        vc.prove(path.z.eq(parent.z), 'the parents of the parent are created first')
        first.append(True)
        return recursive(interp, vc, self, path)

    def split(interp, vc, path):
        return (parent, Name(path)) if path.z.eq(p.z) else (Folder(path), Name(path))
    interp = interp_for(vc, st, {WM + '_ensure_parent_exists': rec, WM + '_split_path': split})
    kind, r = attempt(lambda: interp.run_function(W._ensure_parent_exists, [overlay_object(vc, st), p]))
    for k in (p, parent, q):
        vc.prove(parents_created(before, st, k.z, p.z), 'parents are created like they are shown and nothing else changes')
    if kind == 'ok':
        vc.prove(z3.Or(st.O[parent.z], z3.Not(before.exists(parent.z)), before.type(parent.z) != FOLDER), 'the parent exists in the overlay')
    else:
        vc.prove(bool(st.failed) and issubclass(r.cls, OSError), 'it only fails if creating fails')


def unit_update(vc):
    """what is shown is what the row says, and otherwise what the source says"""
    st = FS(vc)
    p = st.path('p')
    before = st.snapshot()
    info = Mount(st).info(vc, p)
    r = interp_for(vc, st).run_function(W.update_file_info, [overlay_object(vc, st), p, info])
    for a in ATTRS:
        vc.prove(zi(r.fields[a]) == st.shown(p.z, a), f'the {a} of the row is shown')
    for f in ('size', 'linkname', 'userdata'):
        vc.prove(r.fields[f] is info.fields[f], f'the {f} is kept')


def unit_is_deleted(vc):
    st = FS(vc)
    p = st.path('p')
    control = vc.choose('control file')
    r = interp_for(vc, st, {WM + 'is_control_file': lambda interp, vc, cls, path: control}).run_function(W.is_deleted, [overlay_object(vc, st), p])
    vc.prove(r is True if control else mk_is(r, st.deleted(p.z)), 'deleted entries and the metadata database are hidden')


def mk_is(r, cond):
    if isinstance(r, bool):
        return cond == z3.BoolVal(r)
    if isinstance(r, SBool):
        return r.z == cond
    return (zi(r) != 0) == cond


class Overlay(Model):
    """contract of the overlay for FuseMount"""

    def __init__(self, deleted, names=None, hidden=None):
        self.deleted, self.names, self.hidden, self.calls = deleted, names, hidden, []

    def m_is_deleted(self, vc, path):
        self.calls.append(('is_deleted', path))
        return self.deleted

    def m_update_file_info(self, vc, path, info):
        self.calls.append(('update', path, info))
        return ('updated', info)

    def m_list_deleted(self, vc, path):
        self.calls.append(('list_deleted', path))
        return self.names


class Below(Model):
    def __init__(self, found=None, listing=None):
        self.found, self.listing, self.asked = found, listing, []

    def m_lookup(self, vc, path, fileVersion=0):
        self.asked.append((path, fileVersion))
        return self.found

    def m_list_mode(self, vc, path):
        self.asked.append(path)
        return self.listing


class Entry(Model):
    def truth(self, vc):
        return True


def unit_lookup(vc):
    """FuseMount._lookup: hidden entries do not exist, others are shown with the metadata of the overlay"""
    path = vc.str('path')
    found = Entry() if vc.choose('found') else None
    deleted = vc.choose('deleted')
    o = Overlay(deleted) if vc.choose('overlay') else None
    m = Below(found)
    self = vc.new(Obj(FuseMount, {'writeOverlay': o, 'mountSource': m}, 'mount'))
    kind, r = attempt(lambda: Interp(vc).run_function(FuseMount._lookup, [self, path]))
    visible = found is not None and not (o and deleted)
    vc.prove((kind == 'ok') == visible, 'exactly what is visible is found')
    if kind == 'exc':
        vc.prove(r.cls is fuse.FuseOSError and tuple(r.exc_args) == (errno.ENOENT,), 'what does not exist is reported as such')
    else:
        vc.prove(r == ('updated', found) if o else r is found, 'the metadata of the overlay is shown')
        vc.prove(all(a[0] is path and a[1] == 0 for a in m.asked) and m.asked != [], 'the entry is that of the path')
    if o:
        vc.prove(all(c[1] is path for c in o.calls), 'the overlay is asked for the path')


def unit_readdir(vc):
    """FuseMount.readdir: the names of the folder without the deleted ones, for a listing with one arbitrary name"""
    name, gone = vc.str('name'), vc.str('deleted')
    mode = vc.int('mode')
    with_modes = vc.choose('modes')
    empty = vc.choose('empty')
    listing = SDict(items=[] if empty else [[name, mode]]) if with_modes else SList(items=[] if empty else [name])
    o = Overlay(False, names=SList(items=[gone])) if vc.choose('overlay') else None
    root = vc.choose('root')
    path = '/' if root else '/f/g'
    self = vc.new(Obj(FuseMount, {'writeOverlay': o, 'mountSource': Below(None, listing), 'mountPointInfo': SDict(items=[['st_mode', vc.int('pm')]])}, 'mount'))
    asked = []

    def getattr_(interp, vc, self, p, fh=None):
        asked.append(p)
        return SDict(items=[['st_mode', vc.int('m')]])
    r = Interp(vc, contracts={'ratarmount.FuseMount:FuseMount.getattr': getattr_}).run_function(raw('readdir', FuseMount), [self, path, 0])
    items = list(r.items) if isinstance(r, SList) else list(r)
    got = [i if not isinstance(i, tuple) else i[0] for i in items]
    vc.prove([x for x in got[:2] if isinstance(x, str)] == ['.', '..'], 'a folder lists itself and its parent')
    shown = not empty and not (o is not None and vc.branch(name.z == gone.z))
    vc.prove(len(got) == 2 + shown and (not shown or got[2] is name), 'exactly the names that are not deleted are listed')
    if shown and with_modes:
        vc.prove(items[2][1] is mode, 'with their modes')


# ------------------------------------------------------------------------------------------------ runs
def run_histories(ctx):
    quiet()
    os.umask(0)
    for _ in range(ctx.budget(60, 2000)):
        if ctx.out_of_time():
            return
        tmp = ctx.tmp()
        w = overlay.World(tmp, ctx.rng)
        with ctx.case({'source': w.source, 'options': w.options, 'start': {p: s[0] for p, s in w.start.items()}, 'log': w.log}) as c:
            w.compare(c)
            for i in range(ctx.rng.choice((5, 20, 60))):
                w.step(c)
                if i % 6 == 5:
                    w.compare(c)
            w.compare(c)
            w.unmount()
            w.mount()
            w.compare(c)
            w.unmount()
        shutil.rmtree(tmp)


FAULTS = ('mkdir', 'symlink', 'link', 'rename', 'unlink', 'rmdir', 'truncate', 'open', 'mknod', 'chmod', 'utime')


@contextlib.contextmanager
def fault(number, message):
    """the number-th system call below fails, before or (copying) in the middle"""
    count = [0]
    old = {n: getattr(os, n) for n in FAULTS}
    copy = shutil.copyfileobj

    def failing(n, f):
        def g(*args, **kwargs):
            if n == 'open' and not (args[1] & (os.O_CREAT | os.O_WRONLY | os.O_RDWR)):
                return f(*args, **kwargs)
            count[0] += 1
            if count[0] == number:
                message.append(n)
                raise OSError(errno.EIO, 'fault', args[0])
            return f(*args, **kwargs)
        return g

    def partly(source, target, length=0):
        count[0] += 1
        if count[0] == number:
            target.write(source.read(3))
            message.append('copy')
            raise OSError(errno.ENOSPC, 'fault')
        return copy(source, target)
    try:
        for n in FAULTS:
            setattr(os, n, failing(n, old[n]))
        shutil.copyfileobj = partly
        yield
    finally:
        for n, f in old.items():
            setattr(os, n, f)
        shutil.copyfileobj = copy


def run_faults(ctx):
    quiet()
    os.umask(0)
    rng = ctx.rng
    for _ in range(ctx.budget(40, 1500)):
        if ctx.out_of_time():
            return
        tmp = ctx.tmp()
        w = overlay.World(tmp, rng)
        with ctx.case({'source': w.source, 'options': w.options, 'start': {p: s[0] for p, s in w.start.items()}, 'log': w.log}) as c:
            for _i in range(25):
                for _j in range(rng.randrange(3)):
                    w.step(c)
                for h in list(w.handles):
                    w.close(h)
                one_fault(c, w, rng)
            w.compare(c)
            w.unmount()
        shutil.rmtree(tmp)


def one_fault(c, w, rng):
    m, new, f, any_ = w.m, w.new(), w.some('file'), w.some()
    folder = w.some('folder')
    op = rng.choice([x for x in (
        new and ('create', new, stat.S_IFREG | 0o600), new and ('mkdir', new, 0o700), new and ('symlink', new, 'a'), new and f and ('link', new, f),
        f and ('truncate', f, 1), f and ('unlink', f), folder and ('rmdir', folder), new and any_ and not new.startswith(any_ + '/') and ('rename', any_, new),
        f and ('unlink', f), f and new and ('rename', f, new), f and w.some('file') and ('rename', f, w.some('file'))) if x])
    before = overlay.walk_mount(m, c, log=w.log)
    message = []
    number = rng.randrange(1, 5)
    with fault(number, message):
        try:
            getattr(m, op[0])(*op[1:])
            done = True
        except OSError:
            done = False
    w.log.append((*op, 'fault', number, message, done))
    if done:
        # It was not needed, or could be made up for: do the same to the reference.
        try:
            reference(w, op)
        except OSError as e:
            c.check(False, 'an operation succeeds that does not for a real folder', operation=op, error=e, log=w.log)
        w.compare(c)
        for fh in list(m.openedFiles):
            m.release(op[1], fh)
    else:
        after = overlay.walk_mount(m, c, log=w.log)
        for p in (op[1],) if op[0] == 'truncate' else ():  # its modification time may have changed
            before[p], after[p] = before[p][:4], after[p][:4]
            w.mtime.pop(p, None)
        for t in (before, after):  # those of folders do with what is in them
            for p, e in t.items():
                if e[0] == 'folder':
                    t[p] = e[:4]
        c.equal(after, before, 'a failed operation changes nothing', operation=op, fault=message, log=w.log,
                difference={p: (before.get(p), after.get(p)) for p in set(before) | set(after) if before.get(p) != after.get(p)})


def reference(w, op):
    name, a, rest = op[0], w.real(op[1]), op[2:]
    me = (os.getuid(), os.getgid())
    if name == 'create':
        os.close(os.open(a, os.O_CREAT | os.O_EXCL | os.O_RDWR, rest[0] & 0o7777))
    elif name == 'mkdir':
        os.mkdir(a, rest[0])
    elif name == 'symlink':
        os.symlink(rest[0], a)
    elif name == 'link':
        os.link(w.real(rest[0]), a)
        w.shared |= {op[1], rest[0]}
    elif name == 'truncate':
        os.truncate(a, rest[0])
        w.mtime.pop(op[1], None)
    elif name == 'unlink':
        os.unlink(a)
    elif name == 'rmdir':
        os.rmdir(a)
    elif name == 'rename':
        if op[1] != op[2] and os.path.lexists(w.real(op[2])) and os.path.samestat(os.lstat(a), os.lstat(w.real(op[2]))):
            os.unlink(a)  # ours need not keep both names of a file
        else:
            os.rename(a, w.real(op[2]))
        if op[1] != op[2]:
            w.moved(op[1], op[2])
    if name in ('create', 'mkdir', 'symlink'):
        w.forget(op[1])
        w.owner[op[1]] = me
    if name in ('unlink', 'rmdir', 'link'):
        w.forget(op[1])
        if name == 'link' and rest[0] in w.owner:
            w.owner[op[1]] = w.owner[rest[0]]


def run_known(ctx):
    """scenarios of the recorded findings"""
    import io
    import tarfile
    quiet()
    os.umask(0)
    tmp = ctx.tmp()
    inner = io.BytesIO()
    with tarfile.open(fileobj=inner, mode='w') as t:
        i = tarfile.TarInfo('x')
        i.size = 3
        t.addfile(i, io.BytesIO(b'old'))
    os.mkdir(os.path.join(tmp, 'a'))
    for n, data in (('n.tar', inner.getvalue()), ('plain', b'old')):
        with open(os.path.join(tmp, 'a', n), 'wb') as f:
            f.write(data)
    os.mkdir(os.path.join(tmp, 'p'))
    m = FuseMount([os.path.join(tmp, 'a')], os.path.join(tmp, 'p'), writeOverlay=os.path.join(tmp, 'o'), indexFilePath=':memory:', recursive=True)
    with ctx.case('write to a file of a recursively mounted archive and read it', sig='nested-archive') as c:
        fh = m.open('/n.tar/x', os.O_RDWR)
        m.write('/n.tar/x', b'new', 0, fh)
        m.release('/n.tar/x', fh)
        c.equal(overlay.read_all(m, '/n.tar/x'), b'new', 'reads return the latest written contents')
    with ctx.case('read by a handle opened before another one wrote', sig='handle-opened-before') as c:
        old = m.open('/plain', os.O_RDONLY)
        fh = m.open('/plain', os.O_RDWR)
        m.write('/plain', b'new', 0, fh)
        c.equal(bytes(m.read('/plain', 3, 0, old)), b'new', 'reads return the latest written contents')


OPS = ('chmod', 'chown', 'utimens', 'rename', 'symlink', 'link', 'mkdir', 'rmdir', 'open', 'create', 'unlink', 'mknod', 'truncate', 'write')
ORACLES = [
    Oracle('histories next to a real folder', run_histories, [getattr(W, o) for o in OPS] + [FuseMount.open, FuseMount.write, FuseMount.read, FuseMount.readdir, FuseMount.getattr],
           '60 (2000) random histories of up to 60 operations with remounts over archives, folders and unions of both', unprivileged=True, quick_s=30),
    Oracle('failing system calls', run_faults, [getattr(W, o) for o in OPS],
           '40 (1500) random histories with a failing system call in every third operation', unprivileged=True, quick_s=25),
    Oracle('recorded findings', run_known, [FuseMount.read], 'the two scenarios of the recorded findings', unprivileged=True),
]
MODE = [lambda vc: [vc.int('mode')]]
UNITS = [
    Unit('create', created('create', FILE, lambda vc: [vc.int('mode')], mode=0), [raw('create'), W._set_created]),
    Unit('mkdir', unit_mkdir, [raw('mkdir')]),
    Unit('symlink', created('symlink', LINK, lambda vc: [vc.int('target')]), [raw('symlink')]),
    Unit('mknod', created('mknod', OTHER, lambda vc: [vc.int('mode'), vc.int('dev')], mode=0), [raw('mknod')]),
    Unit('unlink', removed('unlink', None), [raw('unlink'), W._mark_as_deleted]),
    Unit('rmdir', removed('rmdir', None), [raw('rmdir')]),
    Unit('chmod', attributes('chmod', lambda vc: [vc.int('mode')], lambda vc, a, st: {'mode': zi(a[0])}), [raw('chmod'), W._set_file_metadata, W._set_metadata]),
    Unit('chown', attributes('chown', lambda vc: [vc.int('uid'), vc.int('gid')], chown_effect), [raw('chown')]),
    Unit('utimens', attributes('utimens', new_times, times_effect), [raw('utimens')]),
    Unit('truncate', unit_truncate, [raw('truncate')]),
    Unit('open for writing', unit_open, [raw('open'), W._reset_modification_time]),
    Unit('write', unit_write, [raw('write'), W._reset_modification_time]),
    Unit('flush and fsync', unit_sync, [raw('flush'), raw('fsync')]),
    Unit('copies', unit_modifiable, [W._ensure_file_is_modifiable, W._keep_metadata, W._init_file_metadata, W._has_metadata]),
    Unit('link', unit_link, [raw('link')]),
    Unit('rename of files and links', unit_rename_file, [raw('rename')]),
    Unit('rename of folders', unit_rename_folder, [raw('rename')]),
    Unit('parent folders', unit_parents, [W._ensure_parent_exists]),
    Unit('metadata of the overlay', unit_update, [W.update_file_info]),
    Unit('deleted entries', unit_is_deleted, [W.is_deleted]),
    Unit('look-up', unit_lookup, [FuseMount._lookup]),
    Unit('listing', unit_readdir, [FuseMount.readdir]),
]
TRUSTED = ['the kernel resolves paths and links and only asks for what it has checked', 'SQLite executes the statements as written and does not fail',
           'the union shows the overlay folder with the highest priority (C14)', 'failing system calls have no effect, copying excepted']
LEVEL = 'proof'
