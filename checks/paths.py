"""Trusted contract of posixpath.normpath for symbolic strings, and its bounded validation against the real function.

rel(s) is the '/'-joined list of the components of '/' + s with empty and "." components dropped and ".." resolved (dropped at
the root).  normpath(q) = ('//' if q starts with exactly two slashes else '/') + rel(q) if q starts with a slash."""
import itertools
import posixpath

import z3

from pyvc.ops import is_str, mk_str, zs
from pyvc.values import SStr

S = z3.StringSort()
V = z3.StringVal
REL = z3.Function('rel', S, S)


def rel_py(s):
    """the reference for rel, written from its definition"""
    out = []
    for c in s.split('/'):
        if c in ('', '.'):
            continue
        if c == '..':
            if out:
                out.pop()
        else:
            out.append(c)
    return '/'.join(out)


def rel_facts(vc, z):
    r = REL(z)
    vc.assume(z3.And(z3.Not(z3.PrefixOf(V('/'), r)), z3.Not(z3.SuffixOf(V('/'), r)), z3.Not(z3.Contains(r, V('//'))),
                     REL(r) == r, REL(z3.Concat(V('/'), r)) == r, REL(z3.Concat(V('/'), z)) == r, r != V('.'), r != V('..'),
                     REL(z3.Concat(V('//'), r)) == r, z3.Not(z3.PrefixOf(V('../'), r))))
    return r


def normpath(vc, p):
    if not is_str(p) or isinstance(p, str):
        return posixpath.normpath(p)
    z = zs(p)
    r = rel_facts(vc, z)
    if vc.branch(z3.PrefixOf(V('/'), z)):
        tail = z3.SubString(z, 1, z3.Length(z) - 1)
        vc.assume(REL(tail) == r)
        two = z3.And(z3.PrefixOf(V('//'), z), z3.Not(z3.PrefixOf(V('///'), z)))
        if vc.branch(two):
            return SStr(z3.Concat(V('//'), r))
        return SStr(z3.Concat(V('/'), r))
    f = z3.Function('normpath_relative', S, S)
    vc.assume(z3.And(z3.Not(z3.PrefixOf(V('/'), f(z))), z3.Length(f(z)) > 0))
    if vc.branch(z3.PrefixOf(V('../'), z)):
        vc.assume(z3.Or(f(z) == V('..'), z3.PrefixOf(V('../'), f(z))))
    return SStr(f(z))


MODELS = {posixpath.normpath: normpath}


def validate(ctx, length=7):
    """every claim above, for all strings up to a length over '/', '.', 'a' """
    n = ctx.budget(length, length + 2)
    for k in range(n + 1):
        for t in itertools.product('/.a', repeat=k):
            s = ''.join(t)
            with ctx.case({'path': s}) as c:
                r = rel_py(s)
                c.check(not r.startswith('/') and not r.endswith('/') and '//' not in r and r not in ('.', '..')
                        and not r.startswith('../'), 'trusted facts on rel')
                c.check(rel_py(r) == r and rel_py('/' + r) == r and rel_py('/' + s) == r and rel_py('//' + r) == r, 'trusted facts on rel')
                q = posixpath.normpath(s)
                if s.startswith('/'):
                    two = s.startswith('//') and not s.startswith('///')
                    c.check(q == ('//' if two else '/') + r and rel_py(s[1:]) == r, 'trusted contract of posixpath.normpath')
                else:
                    c.check(bool(q) and not q.startswith('/'), 'trusted contract of posixpath.normpath')
                    if s.startswith('../'):
                        c.check(q == '..' or q.startswith('../'), 'trusted contract of posixpath.normpath')
