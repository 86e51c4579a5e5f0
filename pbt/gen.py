"""Generators of raw values."""
import datetime
import decimal
import uuid

from . import engine

UNI = [u'\u00e9', u'\u0660', u'\u0663', u'\u00df', u'\U0001f600', u'\n', u'\t', u'\0', u' ', u'.',
       u'(', u')', u'[', u']', u'-', u'+', u'_', u'e', u'%', u'"', u'\\', u'{', u'}', u':', u'\u2028',
       u'\xa0', u'A', u'z', u'Z', u'0', u'9']

WORDS = ['true', 'false', 'TRUE', 'False', 't', 'f', 'T', 'F', '0', '1', 'yes', 'no', 'on', 'off',
         'null', 'None', 'nan', 'inf', '-inf', 'NaN', 'Infinity', '-0', '+5', ' 7 ', '1_000', '0x10',
         '1e3', '1.', '.5', '1.0', '-1.50', '1,5', '12abc', 'abc12', '00012', '--1', '1e400',
         '2.5e-3', u'\u0663', '2013-11-25', '12:30', 'keys', 'items', 'a.b', 'x()', '', ' ',
         'tRuE', 'falsE', 'tr', 'truetrue', '10', '01', '2', '-1']


def text(d):
    k = d.n(11)
    if k < 4:
        return ''.join(d.choice('ab1cx') for _ in range(d.size(0, 6)))
    if k < 6:
        return d.choice(WORDS)
    if k < 8:
        return ''.join(d.choice(UNI + list('abc12')) for _ in range(d.size(0, 8)))
    if k < 9:
        return engine.mined_str(d)
    if k < 10:
        return num_text(d)
    if k < 11:
        return d.choice('ab9') * engine.mined_size(d)
    return d.choice(['a', 'ab ']) * d.int(0, 40)


def integer(d):
    k = d.n(9)
    if k < 5:
        return d.int(0, 12) if d.bool() else -d.int(0, 4)
    if k < 7:
        return engine.mined_int(d)
    if k < 8:
        b = d.choice([7, 8, 15, 16, 31, 32, 53, 63, 64, 100])
        return d.choice([1, -1]) * (2 ** b + d.int(-1, 1))
    if k < 9:
        return d.int(-100000, 100000)
    return d.choice([1, -1]) * 10 ** d.int(10, 400)


FLOATS = [0.0, 1.0, -1.0, 0.5, 1.5, -2.5, 1e20, -1e20, 1e16, 1e300, 5e-324, 0.1, -0.0,
          float('inf'), float('-inf'), float('nan'), 2.0 ** 53, 2.0 ** 53 + 2, 1e22, 3.999999999999999]


def real(d, special=True):
    k = d.n(7)
    if k < 3:
        return d.int(-40, 100) / 4.0
    if k < 5:
        f = d.choice(FLOATS)
        if not special and (f != f or f in (float('inf'), float('-inf'))):
            return 2.25
        return f
    if k < 6:
        return float(d.int(-20, 20))
    if k < 7:
        return float(engine.mined_int(d)) + d.choice([0.0, 0.5, -0.25])
    return d.int(-10 ** 9, 10 ** 9) / 997.0


def num_text(d):
    v = d.choice([integer, real])(d)
    s = repr(v) if not isinstance(v, float) else d.choice([repr(v), '%.3f' % v, '%e' % v])
    return d.weighted((6, s), (1, ' ' + s), (1, s + ' '), (1, '+' + s), (1, '0' + s), (1, s + 'x'), (1, s.upper()),
                      (1, s[:1] + d.choice([' ', '_', ',', '\n', '.', '-']) + s[1:]))


def int_text(d):
    """Text that may be of an integer."""
    s = str(d.int(-120, 99999))
    i = d.int(0, len(s))
    return s[:i] + d.choice(['', ' ', '_', ',', '\n', '.', '-', '+', '0', '__', u'\u0663', u'\u00a0', 'e']) + s[i:]


def dec(d):
    k = d.n(4)
    if k < 3:
        return decimal.Decimal(d.int(-500, 1500)).scaleb(-d.int(0, 3))
    if k < 4:
        return decimal.Decimal(integer(d))
    return decimal.Decimal(d.choice(['NaN', 'Infinity', '-Infinity', '-0', '1E+20', '0.000', '1.10']))


def uid(d):
    k = d.n(3)
    if k == 0:
        return uuid.UUID(int=d.int(0, 40))
    if k == 1:
        return uuid.UUID(int=2 ** 128 - 1 - d.int(0, 10))
    return uuid.UUID(int=d.n(2 ** 128 - 1))


def uid_text(d):
    u = uid(d)
    s = str(u)
    return d.weighted(
        (4, s), (1, s.upper()), (1, u.hex), (1, '{' + s + '}'), (1, u.urn), (1, s[:-1]), (1, s + '0'),
        (1, 'g' + s[1:]), (1, ' ' + s))


def date(d):
    return datetime.date(d.weighted((6, d.int(1995, 2030)), (1, d.int(1000, 9999))), d.int(1, 12), d.int(1, 28)) \
        if not d.p(10) else d.choice([
            datetime.date(2000, 2, 29), datetime.date(1999, 12, 31), datetime.date(2024, 2, 29),
            datetime.date(2023, 1, 31), datetime.date(9999, 12, 31), datetime.date(1000, 1, 1)])


def clock(d):
    return datetime.time(d.int(0, 23), d.int(0, 59), d.int(0, 59), d.weighted((4, 0), (1, d.int(0, 999999))))


def moment(d):
    return datetime.datetime.combine(date(d), clock(d))


def json_scalar(d, null=True):
    k = d.n(11)
    if k < 4:
        return text(d)
    if k < 6:
        return integer(d)
    if k < 8:
        return real(d)
    if k < 10:
        return d.bool()
    if k < 11:
        return None if null else 0
    return num_text(d)


def native_scalar(d, null=True):
    if d.p(75):
        return json_scalar(d, null)
    return d.choice([dec, uid, date, clock, moment])(d)


KEYS = ['a', 'b', 'c', 'd', 'e', 'f', 'x', 'y', '0', '1', 'aa', 'A', '']
HOSTILE_KEYS = ['a.b', 'b.c', 'a.', '.a', '.', 'a()', 'keys()', 'keys', 'items', 'pop', 'clear', '__class__',
                'count', 'index', '()', 'a.keys()', '__len__', 'update', 'copy', 'a[0]', '0.a', ' ', u'\u00e9',
                'name', 'src', 'fields', 'value', 'parent', 'popitem()', 'clear()']


def key(d, hostile=False):
    if hostile and d.p(40):
        k = d.n(5)
        if k < 4:
            return d.choice(HOSTILE_KEYS)
        if k < 5:
            return text(d)
        return d.choice([0, 1, 2, -1, 7, True, None, 1.5, 2.0, 10 ** 20, (), (1, 'a'),
                         datetime.date(2020, 1, 2), decimal.Decimal('1.5'), b'a'])
    return d.choice(KEYS)


def tree(d, depth=3, scalar=native_scalar, hostile=False, tuples=True):
    k = d.n(9)
    if depth <= 0 or k < 4:
        return scalar(d)
    if k < 7:
        out = {}
        for _ in range(d.size(0, 6)):
            kk = key(d, hostile)
            out[kk] = tree(d, depth - 1, scalar, hostile, tuples)
        return out
    if k < 9 or not tuples:
        return [tree(d, depth - 1, scalar, hostile, tuples) for _ in range(d.size(0, 6))]
    return tuple(tree(d, depth - 1, scalar, hostile, tuples) for _ in range(d.size(0, 4)))


def json_tree(d, depth=3, null=True):
    return tree(d, depth, scalar=lambda d: json_scalar(d, null), tuples=False)


def json_finite(v):
    """Replaces the numbers that JSON text cannot carry."""
    if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
        return 2.25
    if isinstance(v, dict):
        return dict((k, json_finite(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [json_finite(x) for x in v]
    return v


def names(d, n):
    pool = ['a', 'b', 'c', 'd', 'e', 'g', 'h', 'amount', 'name', 'kind', 'v1', 'v2', 'data', 'zz', '_x', 'B']
    return d.sample(pool, n)
