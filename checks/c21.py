"""C21 Split archives are joined completely and in numeric order.

Contracts on format_number (positional notation, for all numbers and widths) and check_for_sequence (the longest run of consecutive
numbers, for all sets of files); check_for_split_file_in and the way from a file name to the joined contents are compared with an
independent reference on enumerated and random folders.
"""
import io
import itertools
import os
import string

import z3

from checks import c17, tarlib
from pyvc.concrete import Oracle
from pyvc.harness import Unit, attempt
from pyvc.interp import Interp, LoopSpec
from pyvc import ops
from pyvc.ops import mk_bool
from pyvc.values import Host, Model, PyRaise, SBool, SInt, SList, SStr, Unsupported, zb, zi, zs
from ratarmountcore import compressions, utils
from ratarmountcore.compressions import check_for_sequence, check_for_split_file_in, check_for_split_file_in_folder
from ratarmountcore.mountsource.factory import open_mount_source
from ratarmountcore.utils import format_number, is_latin_alpha, is_latin_digit, is_latin_hex_alpha

I = z3.IntSort()
KINDS = {string.ascii_lowercase: 'a', string.digits: '0', '0123456789abcdef': 'x'}


# ------------------------------------------------------------------------------------------------ format_number
class Digits(Model):
    """a string of digits, most significant last unless reversed: its value, its length and its weight base ** length"""

    pytype = str

    def __init__(self, value, length, reversed_=False):
        self.value, self.length, self.reversed = value, length, reversed_

    def len(self, vc):
        return SInt(self.length)

    def truth(self, vc):
        return self.length > 0

    def add(self, vc, other):
        if not isinstance(other, Digit) or self.reversed:
            raise Unsupported('digits + ' + repr(other))
        return Digits(self.value + other.alphabet.weight(self.length) * other.value, self.length + 1)

    def radd(self, vc, other):
        raise Unsupported('digits in front of digits')

    def getslice(self, vc, lo, hi, step):
        if (lo, hi, step) != (None, None, -1) or self.reversed:
            raise Unsupported('slice of digits')
        return Digits(self.value, self.length, True)


class Digit(Model):
    pytype = str

    def __init__(self, alphabet, value):
        self.alphabet, self.value = alphabet, value

    def radd(self, vc, other):
        if isinstance(other, Digits):
            return other.add(vc, self)
        if other != '':
            raise Unsupported('digit behind ' + repr(other))
        return Digits(self.value, z3.IntVal(1))


class Alphabet(Model):
    pytype = str

    def __init__(self, vc, base):
        self.base, self.weight = base, vc.func('weight', I, I)

    def len(self, vc):
        return self.base

    def getitem(self, vc, k):
        vc.prove(z3.And(0 <= zi(k), zi(k) < self.base), 'the digit exists')
        return Digit(self, zi(k))


def unit_format_number(base):
    def run(vc):
        number, width = vc.int('number'), vc.int('width')
        vc.assume(number.z >= 0)
        a = Alphabet(vc, base)
        W = a.weight
        vc.assume(W(0) == 1)

        def digits(x):
            return Digits(z3.IntVal(0), z3.IntVal(0)) if isinstance(x, str) and x == '' else x

        def inv(vc, L):
            d = digits(L.result)
            # the definition of the weights, where it is needed
            for k in (d.length, d.length + 1):
                vc.assume(z3.And(z3.Implies(k >= 0, z3.And(W(k + 1) == base * W(k), W(k) >= 1)), z3.Implies(k >= 1, W(k) == base * W(k - 1))))
            return [('the rest and the digits make the number', number.z == zi(L.i) * W(d.length) + d.value),
                    ('range of the digits', z3.And(d.length >= 0, 0 <= d.value, d.value < W(d.length), zi(L.i) >= 0)),
                    ('the width that is left', zi(L.length) == width.z - d.length),
                    ('no superfluous digits', z3.Or(d.length <= width.z, d.length <= 1, number.z >= W(d.length - 1)))]

        interp = Interp(vc, loops={('ratarmountcore.utils:format_number', 0): LoopSpec(
            inv, havoc={'result': lambda vc, L: Digits(vc.nat('value').z, vc.nat('digits').z)}, decreases=None)})
        kind, r = attempt(lambda: interp.run_function(format_number, [number, a, width]))
        if kind == 'exc':
            vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
            return
        if not isinstance(r, Digits):
            vc.prove(False, 'digits are returned')
            return
        vc.prove(r.reversed, 'the most significant digit is first')
        vc.prove(r.value == number.z, 'the digits stand for the number')
        vc.prove(z3.And(r.length >= width.z, r.length >= 1), 'it is padded to the width')
        vc.prove(z3.Or(r.length == width.z, r.length == 1, number.z >= W(r.length - 1)), 'there are no other leading zeros')
    return run


# ------------------------------------------------------------------------------------------------ check_for_sequence
class Suffix(Model):
    pytype = str

    def __init__(self, k, length):
        self.k, self.length = k, length

    def len(self, vc):
        return SInt(self.length(self.k))

    def eq(self, vc, o):
        if isinstance(o, Suffix):
            return mk_bool(self.k == o.k)  # different numbers have different digits
        raise Unsupported('comparison of suffixes')

    def ite(self, vc, c, o):
        if isinstance(o, Suffix):
            return Suffix(z3.If(c, self.k, o.k), self.length)
        raise Unsupported('ite of suffixes')


class Extensions(Model):
    def __init__(self, vc):
        self.there = vc.func('there', I, z3.BoolSort())

    def contains(self, vc, s):
        return mk_bool(self.there(s.k))


def unit_sequence(vc):
    ext = Extensions(vc)
    length = vc.func('width_of', I, I)
    k_ = z3.Int('k_')
    vc.assume(z3.ForAll([k_], z3.Implies(k_ >= 0, z3.And(length(k_) >= 1, length(k_ + 1) >= length(k_)))))
    vc.assume(length(0) == length(1))

    def first():
        return z3.If(ext.there(0), 0, 1)

    def inv(vc, L):
        t = z3.Int(vc.name('t'))
        i, lst = zi(L.i), L.suffixSequence
        n = z3.IntVal(len(lst.items)) if lst.items is not None else lst.length
        facts = [('numbers that were tried', z3.And(i >= 0, n == z3.If(i == 0, 0, i - first())))]
        if lst.items is None:
            facts.append(('the numbers so far', z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < n), z3.And(lst.elem(t).k == first() + t, ext.there(first() + t))))))
        return facts

    def fresh(vc, L):
        f = vc.func('kept', I, I)
        return vc.new(SList(vc.nat('kept').z, lambda t: Suffix(f(t), length), True, 'sequence'))

    interp = Interp(vc, loops={('ratarmountcore.compressions:check_for_sequence', 0): LoopSpec(inv, havoc={'suffixSequence': fresh})})
    kind, r = attempt(lambda: interp.run_function(check_for_sequence, [ext, Host(lambda vc, k: Suffix(zi(k), length))]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    n = z3.IntVal(len(r.items)) if r.items is not None else r.length
    t = vc.skolem('t')
    vc.prove(z3.Implies(z3.And(0 <= t, t < n), z3.And(r.elem(t).k == first() + t, ext.there(first() + t))) if r.items is None else n == 0, 'consecutive numbers beginning with 0 or 1')
    vc.prove(z3.Not(ext.there(first() + n)), 'the first number that is missing ends the sequence')


# ------------------------------------------------------------------------------------------------ check_for_split_file_in
S, B = z3.StringSort(), z3.BoolSort()
DOT = z3.StringVal('.')


class Digits10(Model):
    """what format_number returns for an alphabet"""

    pytype = str

    def __init__(self, alphabet, number, width):
        self.alphabet, self.number, self.width = alphabet, number, width


class Found(Model):
    """what check_for_sequence returns: the parts with the numbers of an alphabet"""

    pytype = list

    def __init__(self, vc, kind, own, extensions):
        self.kind, self.own = kind, own
        self.n, self.part, self.has = vc.nat('parts').z, vc.func('part', I, S), vc.bool('own part').z
        vc.assume(z3.Implies(self.has, self.n >= 1))
        vc.assume(z3.Implies(self.has, zb(ops.contains(vc, extensions, SStr(own)))))

    def len(self, vc):
        return SInt(self.n)

    def truth(self, vc):
        return self.n > 0

    def contains(self, vc, e):
        vc.prove(zs(e) == self.own, 'the sequence is asked for the part that was given')
        return mk_bool(self.has)

    def iterate(self, vc):
        return SList(self.n, lambda i: SStr(self.part(i)), True, 'parts')


def unit_split(vc):
    folder, base, own = vc.str('folder').z, vc.str('base').z, vc.str('extension').z
    filename = z3.Concat(base, DOT, own)
    path = z3.Concat(folder, filename)
    vc.assume(z3.And(z3.Not(z3.Contains(filename, z3.StringVal('/'))), z3.Not(z3.Contains(own, DOT))))
    name, same = vc.func('name', I, S), vc.func('same_alphabet', S, S, B)
    count = vc.nat('names').z
    candidates = vc.new(SList(count, lambda i: SStr(name(i)), True, 'names'))
    found, seen = [], []

    def split(vc, p):
        vc.prove(zs(p) == path, 'the given path is taken apart')
        return (SStr(folder), SStr(filename))

    def rsplit(vc, z):
        # the definition: what is behind the last dot has no dots
        if z.eq(filename):
            return [SStr(base), SStr(own)]
        if z.eq(path):
            return [SStr(z3.Concat(folder, base)), SStr(own)]
        return None

    def sequence(interp_, vc, extensions, formatter):
        e, k = z3.String('some'), z3.Int('candidate')
        t = z3.Int('index')
        n = ops._len(vc, extensions)
        one = zs(extensions.elem(t))
        j = z3.Int('j_candidate')
        same_list = found and zi(n).eq(seen[0]) and one.eq(seen[1])
        seen[:] = zi(n), one
        if not same_list:
            considered(n, one, t, j, e, k, extensions)
        i = vc.nat('number')
        d = interp_.call(formatter, [i])
        if not isinstance(d, Digits10):
            vc.prove(False, 'the number is formatted')
            raise Unsupported('formatter')
        vc.prove(zi(d.number) == i.z, 'the number is formatted')
        vc.prove(zi(d.width) == z3.Length(own), 'in the width of the given part')
        vc.prove(d.alphabet in KINDS and d.alphabet not in [f.kind for f in found], 'with the digits of one of the number systems, each once')
        found.append(Found(vc, d.alphabet, own, extensions))
        return found[-1]

    def considered(n, one, t, j, e, k, extensions):
        vc.prove(z3.Implies(z3.And(0 <= t, t < zi(n)), z3.Exists([j], z3.And(0 <= j, j < count, name(j) == z3.Concat(base, DOT, one)))),
                 'only the extensions of files in the folder are used')
        vc.prove(z3.Implies(z3.And(0 <= k, k < count, name(k) == z3.Concat(base, DOT, e), same(e, own)), zb(ops.contains(vc, extensions, SStr(e)))),
                 'all files in the folder that may belong to it are considered')

    interp = Interp(vc, contracts={
        'ratarmountcore.utils:has_matching_alphabets': lambda i_, vc, a, b: mk_bool(same(zs(a), zs(b))),
        'ratarmountcore.compressions:has_matching_alphabets': lambda i_, vc, a, b: mk_bool(same(zs(a), zs(b))),
        'ratarmountcore.compressions:check_for_sequence': sequence,
        'ratarmountcore.utils:format_number': lambda i_, vc, n, digits, width=0: Digits10(digits, n, width),
    }, models={os.path.split: split, ('rsplit', '.', 1): rsplit})
    kind, r = attempt(lambda: interp.run_function(check_for_split_file_in, [SStr(path), candidates]))
    if kind == 'exc':
        vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
        return
    if not found:
        k = vc.skolem('own name')
        vc.prove(r is None, 'nothing is found without a sequence')
        vc.prove(z3.Not(z3.And(0 <= k, k < count, name(k) == filename, same(own, own))), 'the sequences are looked for if the file exists')
        return
    vc.prove(len(found) == len(KINDS), 'all number systems are tried')
    if r is None:
        vc.prove(z3.And(*[z3.Or(z3.Not(f.has), f.n <= 1) for f in found]), 'a sequence of several parts that contains the file is not missed')
        return
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], SList)):
        vc.prove(False, 'the paths and the number system are returned')
        return
    best = [f for f in found if KINDS[f.kind] == r[1]]
    if len(best) != 1:
        vc.prove(False, 'the number system is named')
        return
    best = best[0]
    vc.prove(z3.And(best.has, best.n > 1), 'the sequence contains the given part and others')
    vc.prove(z3.And(*[z3.Implies(f.has, f.n <= best.n) for f in found]), 'no other sequence with the given part is longer')
    vc.prove(zi(ops._len(vc, r[0])) == best.n, 'all parts are returned')
    t = vc.skolem('t')
    vc.prove(z3.Implies(z3.And(0 <= t, t < best.n), zs(r[0].elem(t)) == z3.Concat(folder, base, DOT, best.part(t))), 'in the order of the sequence, in the folder of the given file')


def unit_alphabet(function, ranges):
    """is_latin_...: exactly the texts of at least one of these characters, for all texts"""
    def run(vc):
        text = vc.str('text')
        kind, r = attempt(lambda: Interp(vc).run_function(function, [text]))
        if kind == 'exc':
            vc.prove(False, f'nothing is raised (got {r.cls.__name__} at {r.where})')
            return
        i = z3.Int('i_text')

        def code(i):
            return z3.StrToCode(z3.SubString(text.z, i, 1))

        want = z3.And(z3.Length(text.z) > 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z3.Length(text.z)), z3.Or(*[z3.And(ord(a) <= code(i), code(i) <= ord(b)) for a, b in ranges]))))
        vc.prove(zb(ops.truth(vc, r)) == want, 'exactly the texts of these characters')
    return run


# ------------------------------------------------------------------------------------------------ oracles
ALPHABETS = {'a': string.ascii_lowercase, '0': string.digits, 'x': '0123456789abcdef'}


def number_of(ext, alphabet):
    n = 0
    for c in ext:
        if c not in alphabet:
            return None
        n = n * len(alphabet) + alphabet.index(c)
    return n


def digits_of(n, alphabet, width):
    out = ''
    while n:
        n, d = divmod(n, len(alphabet))
        out = alphabet[d] + out
    return out.rjust(width, alphabet[0])


def expected(name, names):
    """the longest sequence of consecutive files from 0 or 1 on, in the width of the given file, that contains the file"""
    if '.' not in name or name not in names:
        return None
    base, ext = name.rsplit('.', 1)
    best = None
    for kind, alphabet in ALPHABETS.items():
        n = number_of(ext, alphabet)
        if n is None or not ext:
            continue
        k = 0 if base + '.' + digits_of(0, alphabet, len(ext)) in names else 1
        run = []
        while base + '.' + digits_of(k, alphabet, len(ext)) in names:
            run.append(base + '.' + digits_of(k, alphabet, len(ext)))
            k += 1
        if name in run and len(run) > 1 and (best is None or len(run) > len(best[0])):
            best = (run, kind)
    return best


def run_names(ctx):
    rng = ctx.rng

    def one(name, names, number):
        with ctx.case({'name': name, 'names': names, 'case': number}) as c:
            want = expected(name, names)
            c.equal(check_for_split_file_in(name, names), want, 'the sequence of the file')
            if want:
                c.equal(check_for_split_file_in('/some.01/x/' + name, names), (['/some.01/x/' + n for n in want[0]], want[1]), 'with its folder')
    # all folders of few files
    universe = {1: ['f.0', 'f.1', 'f.2', 'f.3', 'f.a', 'f.b', 'g.1', 'f', 'f.', 'f.10', 'f.01', 'f-2'], 2: ['f.aa', 'f.ab', 'f.ac', 'f.go', 'f.00', 'f.01', 'f.0a', 'f.02', 'f.1', 'f.001', 'fx02', 'f-ad']}
    number = 0
    for names in universe.values():
        for k in range(len(names) + 1 if ctx.thorough else 5):
            for some in itertools.combinations(names, k):
                for name in some:
                    number += 1
                    if ctx.out_of_time():
                        return
                    one(name, list(some), number)
    for number in range(ctx.budget(1500, 60000)):
        if ctx.out_of_time():
            return
        base = rng.choice(('f', 'a.tar', 'x.01', '.hidden', 'ä.b', ''))
        alphabet = rng.choice(list(ALPHABETS.values()))
        width = rng.choice((1, 1, 2, 2, 3, 5))
        start = rng.choice((0, 0, 1, 1, 2))
        count = rng.choice((1, 2, 3, 10, 11, 17, 30, 101, 120, 700))
        names = [base + '.' + digits_of(k, alphabet, width) for k in range(start, start + count)]
        if rng.random() < 0.4 and len(names) > 1:
            names.pop(rng.randrange(len(names)))
        for _ in range(rng.choice((0, 0, 1, 5, 20))):
            names.append(rng.choice((base, 'other', base + base, '')) + rng.choice('....-_x') + ''.join(rng.choice('0019afbgzA٣') for _ in range(rng.choice((width, width, 1, 2, 3)))))
        if rng.random() < 0.3:  # what looks like the next part, or a missing one, but for the separator
            names += [base + rng.choice('-_x ') + digits_of(k, alphabet, width) for k in range(max(start - 1, 0), start + count + 2) if base + '.' + digits_of(k, alphabet, width) not in names]
        names = list(dict.fromkeys(names))
        rng.shuffle(names)
        for name in [names[0], min(names), rng.choice(names)]:
            one(name, names, number)


def run_mounts(ctx):
    """the parts of a TAR in a folder or inside of another TAR, mounted by any of their names"""
    c17.quiet()
    rng = ctx.rng
    for number in range(ctx.budget(250, 5000)):
        if ctx.out_of_time():
            return
        data = tarlib.build([tarlib.Member(b'first', rng.randbytes(rng.choice((1, 700, 5000)))), tarlib.Member(b'last', rng.randbytes(900))])
        plain = rng.random() < 0.2  # no archive
        if plain:
            data = (b'no archive\n' * 1000)[:rng.randrange(1500, 9000)]
        kind = rng.choice('a00x')
        width = rng.choice((1, 2, 3))
        start = rng.choice((0, 1)) if kind != 'a' else 0
        count = rng.choice((2, 3, 9, 12, 20))
        cuts = sorted(rng.randrange(len(data) + 1) for _ in range(count - 1))
        parts = [data[x:y] for x, y in zip([0] + cuts, cuts + [len(data)])]
        if len(parts[0]) < 1024:
            continue
        names = ['big.tar.' + digits_of(start + k, ALPHABETS[kind], width) for k in range(count)]
        if any(len(n) != len(names[0]) for n in names) and kind == 'a':
            continue
        decoys = rng.sample(['big.tar.' + digits_of(start + count + 1, ALPHABETS[kind], width), 'other.tar.' + names[0].rsplit('.', 1)[1], 'big.' + names[0].rsplit('.', 1)[1],
                             'big.tar.' + digits_of(start, ALPHABETS[kind], width + 1), 'big.tar-' + digits_of(start + count, ALPHABETS[kind], width)], 2)
        inside = not plain and rng.random() < 0.3
        with ctx.case({'archive': not plain, 'names': names, 'cuts': cuts, 'decoys': decoys, 'inside': inside, 'case': number}) as c:
            tmp = ctx.tmp()
            want = expected(names[0], names + decoys)
            if want is None or want[0] != names:
                continue
            files = dict(zip(names, parts))
            for d in decoys:
                files.setdefault(d, b'decoy' * 100)
            if inside:
                archive = tarlib.build([tarlib.Member(b'd/' + n.encode(), p) for n, p in rng.sample(list(files.items()), len(files))])
                path = os.path.join(tmp, 'outer.tar')
                with open(path, 'wb') as f:
                    f.write(archive)
                from ratarmountcore.mountsource.compositing.automount import AutoMountLayer

                ms = AutoMountLayer(open_mount_source(path, writeIndex=False, recursive=True), recursive=True)
                root = '/d/' + names[0]
                if len(names[0].rsplit('.', 1)[1].strip('0a1')) or not compressions.FIRST_SPLIT_EXTENSION_REGEX.fullmatch('.' + names[0].rsplit('.', 1)[1]):
                    continue
            else:
                for n, p in files.items():
                    with open(os.path.join(tmp, n), 'wb') as f:
                        f.write(p)
                asked = rng.choice(names)
                if len(asked) != len(names[0]):
                    asked = names[0]
                ms = open_mount_source(os.path.join(tmp, asked), writeIndex=False)
                root = ''
            try:
                if inside:
                    i = ms.lookup(root + '/' + names[0])
                    c.check(i is not None, 'the parts are mounted as one file')
                    if i is not None:
                        with ms.open(i) as f:
                            c.equal(f.read(), data, 'with all parts')
                    continue
                if plain:
                    c.equal(sorted(ms.list('/')), ['big.tar'], 'what is no archive is shown as one file')
                    i = ms.lookup('/big.tar')
                    c.equal((i.size, i.mode >> 12), (len(data), 8), 'a file of the joined size')
                    with ms.open(i) as f:
                        c.equal(f.read(), data, 'with all parts')
                    continue
                for name in ('first', 'last'):
                    i = ms.lookup(root + '/' + name)
                    c.check(i is not None, 'the members of the joined archive are there', member=name, there=str(ms.list(root or '/')))
                    if i is not None:
                        with ms.open(i) as f:
                            start_ = data.index(name.encode() + b'\0')
                            c.equal(f.read(), data[start_ + 512:start_ + 512 + i.size], 'with their contents', member=name)
            finally:
                ms.__exit__(None, None, None)


ORACLES = [
    Oracle('names', run_names, [check_for_split_file_in, check_for_split_file_in_folder, check_for_sequence, format_number],
           'all folders of at most 4 (11) of two dozen names and 1500 (60000) random folders with up to 700 parts', quick_s=20),
    Oracle('mounts', run_mounts, [check_for_split_file_in_folder, open_mount_source], '250 (5000) drawn archives in up to 20 parts in folders and archives, with unrelated files', quick_s=20),
]
UNITS = [Unit(f'format_number[{n}]', unit_format_number(n), [format_number]) for n in (10, 16, 26)] + [
    Unit('check_for_sequence', unit_sequence, [check_for_sequence]),
    Unit('check_for_split_file_in', unit_split, [check_for_split_file_in], z3_ms=400),
    Unit('is_latin_alpha', unit_alphabet(is_latin_alpha, [('a', 'z')]), [is_latin_alpha]),
    Unit('is_latin_digit', unit_alphabet(is_latin_digit, [('0', '9')]), [is_latin_digit]),
    Unit('is_latin_hex_alpha', unit_alphabet(is_latin_hex_alpha, [('0', '9'), ('a', 'f')]), [is_latin_hex_alpha]),
]
TRUSTED = ['os.listdir and os.path']
ASSUMPTIONS = ['uppercase letters are no sequence numbers', 'parts inside archives are shown as one joined file']
