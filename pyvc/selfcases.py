"""Small functions whose meaning in the verifier is compared with CPython's by selftest.py: on plain arguments, and on symbolic
ones that are assumed to equal them."""
# pylint: disable=all


def arithmetic(a, b):
    return (a + b, a - b, a * b, -a, abs(b), min(a, b), max(a, b, 3), a == b, a < b <= 7, a != b)


def division(a, b):
    return (a // b, a % b, divmod(a, b))


def bits(a, b):
    return (a & 0xFF, a >> 3, a << 2)


def truthiness(a, b):
    return (a and b, a or b, not a, bool(b), a if b else -1, 1 if a and not b else 0)


def swap(a, b):
    a, b = b, a
    c = d = a
    c += b
    d -= b
    return (a, b, c, d)


def clamp(a, b):
    if a > b:
        return 'more'
    elif a == b:
        return 'same'
    return 'less'


def chained(a, b):
    return -3 <= a < b < 100 or a > 1000


def raising(a, b):
    out = []
    try:
        out.append(a // b)
    except ZeroDivisionError:
        out.append(-1)
        if a == 7:
            raise ValueError('seven')
    else:
        out.append(2)
    finally:
        out.append(3)
    return out


def nested_finally(a, b):
    out = []
    try:
        try:
            if a > b:
                raise KeyError(a)
            out.append('no')
        finally:
            out.append('inner')
    except (KeyError, IndexError) as e:
        out.append(type(e).__name__)
    finally:
        out.append('outer')
    return out


def return_in_finally(a, b):
    for i in range(3):
        try:
            if i == a:
                continue
            if i == b:
                break
        finally:
            a += 1
    else:
        return ('exhausted', a)
    return ('left', a)


def loops(a, b):
    total, i = 0, 0
    while i < 5:
        i += 1
        if i == a:
            continue
        if i == b:
            break
        total += i
    else:
        total += 100
    return total


def for_else(a, b):
    for i in (1, 2, 3):
        if i == a:
            found = i
            break
    else:
        found = None
    return found


def closures(a, b):
    fs = [lambda x: x + i for i in range(3)]
    gs = [lambda x, i=i: x + i for i in range(3)]
    return ([f(a) for f in fs], [g(b) for g in gs])


def nonlocals(a, b):
    n = a

    def add(k):
        nonlocal n
        n += k
        return n

    return (add(b), add(b), n)


def arguments(a, b):
    def f(x, *rest, y=5, **more):
        return (x, rest, y, sorted(more.items()))

    return (f(a), f(a, b, 3), f(a, y=b), f(*[a, b], **{'y': 1, 'z': b}))


def generator(a, b):
    def g():
        for i in range(4):
            if i == a:
                continue
            yield i * b

    return list(g())


def comprehensions(a, b):
    return ([x * 2 for x in (a, b, 3) if x > 0], {x: x + 1 for x in (a, b)}.get(a), [(x, y) for x in (1, 2) for y in (a, b) if y != x])


def walrus(a, b):
    if (n := a - b) > 0:
        return n
    return -n


def lists(a, b):
    x = [a, b, 3]
    y = x
    y.append(a)
    x.insert(0, b)
    last = x.pop()
    z = x[:]
    z[0] = 99
    z += [1]
    return (x, y is x, last, z, len(z), a in x, x.index(3), x[-1], x[1:-1], x[::-1])


def dicts(a, b):
    d = {a: 'a', 'k': b}
    d[b] = 'b'
    d.setdefault('k', 0)
    d.setdefault('n', a)
    gone = d.pop('k', None)
    return (len(d), d.get(a), d.get('none', 7), gone, a in d, 'n' in d, d['n'])


def missing_key(a, b):
    return {1: 'x'}[a]


def missing_index(a, b):
    return [10, 20, 30][a]


def sets(a, b):
    s = {1, a}
    s.add(b)
    s.discard(1)
    return (a in s, b in s, 1 in s, len({a, b}))


def tuples(a, b):
    t = (a, b)
    x, *rest = (1, a, b)
    return (t < (b, a), t == (a, b), t + (1,), rest, t[0])


def unpack_error(a, b):
    x, y = [a, b, 3]
    return x


def isinstances(a, b):
    return (isinstance(a, int), isinstance(b, str), isinstance(None, type(None)), isinstance(a, (str, int)))


def conversions(a, b):
    return (int(a), bool(a), str(a), f'{a}')


def big_endian(a, b):
    return (abs(a).to_bytes(4, 'big'), int.from_bytes(abs(b).to_bytes(2, 'little'), 'little'))


# texts
def text_parts(s, t):
    return (s + t, len(s), s == t, s.startswith(t), s.endswith(t), t in s, s.find(t), bool(s), s and t)


def text_slices(s, t):
    return (s[1:], s[:1], s[-1:], s[:-1], s[1:3], s[len(t):], s[2:1])


def text_prefix(s, t):
    return (s.removeprefix(t), s.removesuffix(t))


def text_strip(s, t):
    return (s.strip('/'), s.lstrip('/'), s.rstrip('/'))


def text_split(s, t):
    return (s.split('/', 1), s.rsplit('/', 1), s.partition('/'), s.rpartition('/'))


def text_index(s, t):
    return s[0]


def text_order(s, t):
    return (s < t, s <= t, s != t)


def text_chars(s, t):
    return (all('a' <= c <= 'z' for c in s), any(c == '/' for c in s), [ord(c) for c in s[:2]])


def text_join(s, t):
    return '/'.join([s, t, 'x'])


# bytes
def bytes_parts(s, t):
    return (s + t, len(s), s == t, s[1:], s[:2], s[-1:], bool(s), s[1:2] == t[:1])


def bytes_index(s, t):
    return s[0]


def bytes_search(s, t):
    return s.startswith(b'ab')


# lists of numbers of any length
def total(xs, n):
    return (len(xs), bool(xs), n in xs)


def first_last(xs, n):
    return (xs[0], xs[-1])


def sliced(xs, n):
    return (xs[1:], xs[:2], xs[-2:])


def mapped(xs, n):
    return [x + n for x in xs]


def filtered(xs, n):
    return [x for x in xs if x > n]


def quantified(xs, n):
    return (any(x == n for x in xs), all(x < n for x in xs))


NUMBERS = [(0, 0), (1, 0), (0, 1), (7, 0), (7, 2), (-7, 2), (7, -2), (-7, -2), (2, 3), (3, 2), (1, 2), (5, 5), (255, 256), (1000, 1), (-1, 3), (-3, 1)]
TEXTS = [('', ''), ('a', ''), ('', 'a'), ('abc', 'ab'), ('abc', 'bc'), ('a/b/c', '/'), ('/', '/'), ('//a//', 'a'), ('abcabc', 'abc'), ('A', 'a'), ('b', 'a')]
BYTES = [(b'', b''), (b'a', b''), (b'', b'a'), (b'abc', b'b'), (b'ab', b'ab'), (b'\x00\xff', b'\xff'), (b'xyz' * 3, b'yz')]
LISTS = [([], 0), ([1], 1), ([1, 2], 2), ([3, 1, 2], 1), ([5, 5, 0, 5], 5), ([-1, -2], 0)]

CASES = [(f, NUMBERS) for f in (arithmetic, division, bits, truthiness, swap, clamp, chained, raising, nested_finally, return_in_finally, loops, for_else, closures,
                                nonlocals, arguments, generator, comprehensions, walrus, lists, dicts, missing_key, missing_index, sets, tuples, unpack_error,
                                isinstances, conversions, big_endian)] + [
    (f, TEXTS) for f in (text_parts, text_slices, text_prefix, text_strip, text_split, text_index, text_order, text_chars, text_join)] + [
    (f, BYTES) for f in (bytes_parts, bytes_index, bytes_search)] + [
    (f, LISTS) for f in (total, first_last, sliced, mapped, filtered, quantified)]
