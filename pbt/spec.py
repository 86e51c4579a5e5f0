"""
Abstract form schemas: each Spec can build the pilo field it stands for (in several spellings),
generate raw values for it, and - independently of pilo - say what mapping a raw value gives.
"""
import datetime
import decimal
import re
import time
import uuid

import pilo
from pilo import fields as pf

from . import engine, gen
from .engine import Discard, Violation


class _Mark(object):

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


ABSENT = _Mark('ABSENT')    # the source has no such value
NONE = _Mark('NONE')        # no value -> default
DROP = _Mark('DROP')        # in error, or missing: nothing is stored


class Bad(Exception):
    """The raw value is not one of the field's."""


class Unpinned(Discard):
    """The properties do not say what should happen."""


# -- model context


class Cx(object):

    def __init__(self, flavor='native', ignore_default=False, ignore_missing=False, prefix='', root=()):
        self.flavor = flavor
        self.ignore_default = ignore_default
        self.ignore_missing = ignore_missing
        self.prefix = prefix
        self.path = list(root)
        self.errors = []
        self.form = None
        self.log = []

    def at(self, key):
        return _At(self, key)

    def error(self, kind):
        self.errors.append((kind, self.prefix + path_text(self.path)))


class _At(object):

    def __init__(self, cx, key):
        self.cx, self.key = cx, key

    def __enter__(self):
        self.cx.path.append(self.key)

    def __exit__(self, *a):
        self.cx.path.pop()


def path_text(keys):
    out = ''
    for i, k in enumerate(keys):
        if i == 0:
            out += str(k)
        elif isinstance(k, int):
            out += '[{0}]'.format(k)
        else:
            out += '.{0}'.format(k)
    return out


# -- expected values


class FormVal(object):
    """What a mapped form should be."""

    def __init__(self, spec, values):
        self.spec, self.values = spec, values

    def __repr__(self):
        return 'FormVal({0!r})'.format(self.values)

    # the pipeline compares values like pilo compares forms (as dicts)
    def __eq__(self, other):
        return isinstance(other, (dict, FormVal)) and plain(self) == plain(other)

    def __ne__(self, other):
        return not self == other

    __hash__ = None


def plain(v):
    if isinstance(v, FormVal):
        return dict((k, plain(x)) for k, x in v.values.items())
    if isinstance(v, dict):
        return dict((k, plain(dict.__getitem__(v, k))) for k in dict.__iter__(v))
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return v


def differs(got, want, at='value', order=False):
    """None if `got` (from pilo) is exactly `want` (from the model), else what differs."""
    if isinstance(want, FormVal):
        cls = want.spec.cls
        if cls is not None and type(got) is not cls:
            return '{0}: is a {1}, not a {2}'.format(at, type(got).__name__, cls.__name__)
        if not isinstance(got, dict):
            return '{0}: {1!r} is not a form'.format(at, got)
        return _dict_differs(got, want.values, at, order)
    if isinstance(want, dict):
        if type(got) is not type(want):
            return '{0}: {1} instead of {2}'.format(at, type(got).__name__, type(want).__name__)
        return _dict_differs(got, want, at, order)
    if isinstance(want, (list, tuple)):
        if type(got) is not type(want):
            return '{0}: {1!r} instead of {2!r}'.format(at, got, want)
        if len(got) != len(want):
            return '{0}: {1} items instead of {2}: {3!r} / {4!r}'.format(at, len(got), len(want), got, want)
        for i, (g, w) in enumerate(zip(got, want)):
            r = differs(g, w, '{0}[{1}]'.format(at, i), order)
            if r:
                return r
        return None
    if type(got) is not type(want):
        return '{0}: {1!r} ({2}) instead of {3!r} ({4})'.format(
            at, got, type(got).__name__, want, type(want).__name__)
    if want is got:
        return None
    if isinstance(want, (float, decimal.Decimal)):
        same = repr(got) == repr(want)
    else:
        try:
            same = got == want
        except Exception:
            same = False
    if not same:
        return '{0}: {1!r} instead of {2!r}'.format(at, got, want)
    return None


def _dict_differs(got, want, at, order):
    gk = list(dict.__iter__(got))
    wk = list(want)
    if order and gk != wk:
        return '{0}: keys {1!r} instead of {2!r}'.format(at, gk, wk)
    if len(gk) != len(wk):
        return '{0}: keys {1!r} instead of {2!r}'.format(at, sorted(map(repr, gk)), sorted(map(repr, wk)))
    for k in wk:
        if not dict.__contains__(got, k):
            return '{0}: no key {1!r} among {2!r}'.format(at, k, gk)
        gkey = [x for x in gk if x == k]
        if gkey and type(gkey[0]) is not type(k):
            return '{0}: key {1!r} instead of {2!r}'.format(at, gkey[0], k)
        r = differs(dict.__getitem__(got, k), want[k], '{0}[{1!r}]'.format(at, k), order)
        if r:
            return r
    return None


def error_list(errors):
    """[(kind, path)] of pilo errors, checking each one's text and path."""
    out = []
    for e in errors:
        if type(e) is pf.Missing:
            kind = 'Missing'
        elif type(e) is pf.Invalid:
            kind = 'Invalid'
        else:
            raise Violation('error {0!r} is neither Missing nor Invalid'.format(e))
        path = str(e.path)
        text = str(e)
        if not text.startswith(path + ' - '):
            raise Violation('error text {0!r} does not start with its path {1!r}'.format(text, path))
        out.append((kind, path))
    return out


def compare_errors(errors, want):
    got = error_list(errors)
    if got != want:
        raise Violation('errors {0!r} instead of {1!r}  ({2})'.format(
            got, want, [str(e) for e in errors][:6]))


def compare_value(got, want, order=False, at='value'):
    r = differs(got, want, at, order)
    if r:
        raise Violation(r)


# -- fields


def default_hook(make):
    def default(self):
        return make()
    return default


def filter_hook(refused):
    def filter(self, value):
        return value not in refused
    return filter


REQUIRED = ('required',)
OPTIONAL = ('optional',)


class Spec(object):

    kind = None
    whole = False           # whether it sees the whole enclosing mapping

    def __init__(self):
        self.src = None
        self.default = REQUIRED
        self.nullable = None
        self.ignores = []
        self.translations = {}
        self.tags = []
        self.refused = []       # values a filter hook refuses
        self.style = 0

    # description

    def desc(self):
        out = [type(self).__name__]
        for k in sorted(self.__dict__):
            v = self.__dict__[k]
            if k in ('style', 'cls', 'fault') or v in (None, [], {}, REQUIRED) or v is False:
                continue
            out.append('{0}={1!r}'.format(k, v))
        return '({0})'.format(' '.join(out))

    __repr__ = desc

    # building

    def common(self):
        """(args, kwargs) and chained calls for the common options."""
        args, kw, chain = [], {}, []
        if self.src is not None:
            args.append(self.src)
        if self.nullable is not None:
            kw['nullable'] = self.nullable
        if self.default[0] == 'optional':
            if self.style & 1:
                kw['default'] = pilo.NONE
            else:
                kw['optional'] = True
        elif self.default[0] == 'lit':
            kw['default'] = self.default[1]
        elif self.default[0] == 'call':
            kw['default'] = self.default[1]
        if self.style & 512 and self.default[0] != 'optional':
            chain.append(lambda f: f.options(optional=False))
        if self.ignores:
            if self.style & 2:
                chain.append(lambda f: f.ignore(*self.ignores))
            else:
                chain.append(lambda f: f.options(ignore=self.ignores[0]))
                rest = self.ignores[1:]
                if rest:
                    chain.append(lambda f: f.ignore(*rest))
        if self.translations:
            if self.style & 4:
                kw['translate'] = dict(self.translations)
            else:
                chain.append(lambda f: f.translate(dict(self.translations)))
        if self.tags:
            way = (self.style >> 3) % 7
            if way < 2:
                kw['tags'] = list(self.tags)
            elif way == 2:
                kw['tags'] = self.tags[0] if len(self.tags) == 1 else tuple(self.tags)
            elif way == 3:
                kw['tags'] = dict((t, 1) for t in self.tags)
            elif way == 4:
                chain.append(lambda f: f.tag(**dict((t, i) for i, t in enumerate(self.tags))))
            elif way == 5:
                chain.append(lambda f: f.tag(self.tags[0]).tag(*self.tags[1:]))
            else:
                chain.append(lambda f: f.tag(*self.tags))
        if self.style & 16 and kw:
            # all through options()
            o = dict(kw)
            kw.clear()
            chain.append(lambda f: f.options(**o))
        return args, kw, chain

    def build(self):
        args, kw, chain = self.common()
        f = self.make(args, kw)
        for c in chain:
            f = c(f)
        if self.default[0] == 'hook':
            f = f.default(default_hook(self.default[1]))
        if self.refused:
            f = f.filter(filter_hook(list(self.refused)))
        return f

    def make(self, args, kw):
        raise NotImplementedError()

    # model

    def apply_default(self, cx):
        if self.default[0] == 'hook' and cx.ignore_default:
            raise Unpinned()
        if cx.ignore_default or self.default[0] == 'required':
            if not cx.ignore_missing:
                cx.error('Missing')
            return DROP
        if self.default[0] == 'optional':
            return NONE
        if self.default[0] == 'lit':
            return self.default[1]
        return self.default[2]()    # callable or hook

    def map(self, cx, raw):
        """raw (or ABSENT) -> value, NONE or DROP; errors go to cx."""
        if raw is ABSENT:
            return self.apply_default(cx)
        if raw is None:
            value = None
        else:
            try:
                value = self.parse(raw, cx)
            except Bad:
                cx.error('Invalid')
                return DROP
            if value is DROP:
                return DROP
            if value is NONE:
                return self.apply_default(cx)
        return self.finish(cx, value)

    def finish(self, cx, value):
        try:
            if self.translations and value in self.translations:
                value = self.translations[value]
        except TypeError:
            pass
        if value in self.ignores or value in self.refused:
            return self.apply_default(cx)
        if value is None:
            if self.nullable is False and not (self.default[0] == 'lit' and self.default[1] is None):
                cx.error('Invalid')
                return DROP
            return None
        if not self.check(value, cx):
            cx.error('Invalid')
            return DROP
        return value

    def parse(self, raw, cx):
        raise NotImplementedError()

    def check(self, value, cx):
        return True

    # generation

    def valid(self, d, flavor):
        """A raw value that is probably acceptable."""
        raise NotImplementedError()

    def edge(self, d, flavor):
        """A raw value on or near a bound."""
        return self.valid(d, flavor)

    def raw(self, d, fault=25, flavor='native'):
        if d.n(99) >= fault:
            if self.translations and d.p(25):
                return d.choice(list(self.translations))
            if self.ignores and d.p(15):
                v = d.choice(self.ignores)
                if flavor == 'native' or jsonable(v):
                    return v
            return d.weighted((5, self.valid), (3, self.edge))(d, flavor)
        k = d.n(9)
        if k < 3:
            return self.edge(d, flavor)
        if k < 5:
            return None
        if k < 8:
            return self.junk(d, flavor)
        return self.deep_junk(d, flavor)

    def junk(self, d, flavor):
        if flavor == 'native':
            return gen.native_scalar(d)
        return gen.json_finite(gen.json_scalar(d))

    def deep_junk(self, d, flavor):
        if flavor == 'native':
            return gen.tree(d, 2)
        return gen.json_finite(gen.json_tree(d, 2))

    def leaves(self):
        return 1


def jsonable(v):
    if isinstance(v, dict):
        return all(isinstance(k, str) and jsonable(x) for k, x in v.items())
    if isinstance(v, list):
        return all(map(jsonable, v))
    if isinstance(v, float):
        return v == v and v not in (float('inf'), float('-inf'))
    return v is None or isinstance(v, (str, int, bool))


def as_text(raw, flavor, container=Bad):
    if isinstance(raw, str):
        return raw
    if flavor == 'json' and raw is not None:
        if isinstance(raw, (bool, int, float)):
            return str(raw)
        raise container()
    raise Bad()


class Str(Spec):

    kind = 'str'

    PATTERNS = [
        (r'[a-z]+$', 'ab1cx'), (r'\d{2}', '0123a'), (r'a*b?$', 'aab'), (r'(?i)x', 'xXa'), (r'.', 'a\n '),
        (r'[^a]*$', 'ab1'), (r'$', 'a'), (r'\w+-\w+$', 'ab-1'),
    ]

    def __init__(self):
        super(Str, self).__init__()
        self.min_length = None
        self.max_length = None
        self.length = None      # exact or pair, through `length=`
        self.pattern = None
        self.alphabet = None
        self.choices = None

    @classmethod
    def draw(cls, d):
        s = cls()
        k = d.n(9)
        if k < 4:
            return s
        cls.constrain(s, d, k)
        if d.p(15):
            cls.constrain(s, d, d.int(4, 8))
        return s

    @classmethod
    def constrain(cls, s, d, k):
        s.min_length = s.max_length = s.length = None
        if k in (4, 5, 9):
            lo = d.int(0, 4)
            hi = lo + d.int(0, 4)
            m = d.n(5)
            if m == 0:
                s.min_length = lo
            elif m == 1:
                s.max_length = hi
            elif m == 2:
                s.min_length, s.max_length = lo, hi
            elif m == 3:
                s.length = hi + d.n(1)
            elif m == 4:
                s.length = (lo, hi)
            else:
                s.length = [None, hi] if d.bool() else [lo, None]
        if k in (6, 9):
            s.pattern = d.choice(cls.PATTERNS)
        if k == 7:
            s.alphabet = d.choice(['ab', 'abc1 ', '0123456789', u'\u00e9a', 'a'])
        if k == 8:
            pool = ['a', 'b', 'ab', 'A', '', '1', 'x y', u'\u00e9']
            s.choices = d.sample(pool, d.int(1, 4))

    def make(self, args, kw):
        if self.length is not None:
            kw['length'] = self.length
        if self.min_length is not None:
            kw['min_length'] = self.min_length
        if self.max_length is not None:
            kw['max_length'] = self.max_length
        if self.pattern is not None:
            kw['pattern'] = re.compile(self.pattern[0]) if self.style & 32 else self.pattern[0]
        if self.alphabet is not None:
            kw['alphabet'] = (set if self.style & 256 else list)(self.alphabet) if self.style & 32 else self.alphabet
        if self.choices is not None:
            kw['choices'] = ([frozenset, tuple][bool(self.style & 256)] if self.style & 64 else list)(self.choices)
        return pf.String(*args, **kw)

    def bounds(self):
        if self.length is not None:
            if isinstance(self.length, int):
                return self.length, self.length
            return tuple(self.length)
        return self.min_length, self.max_length

    def parse(self, raw, cx):
        return as_text(raw, cx.flavor, Unpinned)

    def check(self, value, cx):
        if not isinstance(value, str):      # e.g. translated
            if self.bounds() != (None, None) or self.pattern or self.alphabet:
                raise Unpinned()
        if self.alphabet is not None and any(c not in self.alphabet for c in value):
            return False
        lo, hi = self.bounds()
        if lo is not None and len(value) < lo:
            return False
        if hi is not None and len(value) > hi:
            return False
        if self.pattern is not None and not re.match(self.pattern[0], value):
            return False
        if self.choices is not None and value not in self.choices and \
                value not in list(self.translations.values()):
            return False
        return True

    def valid(self, d, flavor):
        if self.choices is not None:
            return d.choice(self.choices)
        alpha = self.alphabet or (self.pattern[1] if self.pattern else None)
        lo, hi = self.bounds()
        if alpha is None and lo is None and hi is None:
            return gen.text(d)
        lo = lo or 0
        hi = hi if hi is not None else lo + 4
        best = ''
        for _ in range(3):
            best = ''.join(d.choice(alpha or 'ab1') for _ in range(d.int(lo, max(lo, hi))))
            if self.check(best, None):
                return best
        return best

    def edge(self, d, flavor):
        lo, hi = self.bounds()
        marks = [x for x in (lo, hi) if x is not None]
        if self.alphabet is not None and d.p(60 if not marks else 30):
            t = ''.join(d.choice(self.alphabet) for _ in range(d.size(0, 4)))
            if d.p(30):
                t = (t or self.alphabet[0]) * d.int(4, 20)
            i = d.choice([len(t), d.int(0, len(t))])
            return t[:i] + d.choice(['z', self.alphabet[0].upper(), '\n', '']) + t[i:]
        if marks:
            n = max(0, d.choice(marks) + d.int(-1, 1))
            alpha = self.alphabet or (self.pattern[1] if self.pattern else d.choice(['ab', u'\u00e9', u'\U0001f600a', ' ']))
            return ''.join(d.choice(alpha) for _ in range(n))
        if self.choices is not None:
            c = d.choice(self.choices)
            return d.choice([c, c + 'a', c[:-1], c.upper(), ' ' + c])
        if self.pattern is not None and d.p(30):
            t = ''.join(d.choice(self.pattern[1]) for _ in range(d.int(1, 4))) * d.int(1, 12)
            return t + d.choice(['', '\n', 'Z', self.pattern[1][0]])
        return gen.text(d)


class _Num(Spec):

    def __init__(self):
        super(_Num, self).__init__()
        self.lo = None
        self.hi = None

    def draw_bounds(self, d, number):
        k = d.n(7)
        if k < 4:
            return
        a, b = number(d), number(d)
        if a != a or b != b:
            return
        if a > b and not d.p(5):
            a, b = b, a
        if k in (4, 6, 7):
            self.lo = a
        if k in (5, 6, 7):
            self.hi = b

    def klass(self):
        raise NotImplementedError()

    def make(self, args, kw):
        st = (self.style >> 5) & 3
        if self.lo is None and self.hi is None:
            return self.klass()(*args, **kw)
        if st == 0:
            f = self.klass()(*args, **kw)
            if self.lo is not None:
                f = f.min(self.lo)
            if self.hi is not None:
                f = f.max(self.hi)
            return f
        if st == 1:
            if self.lo is not None:
                kw['min_value'] = self.lo
            if self.hi is not None:
                kw['max_value'] = self.hi
            return self.klass()(*args, **kw)
        if st == 2:
            kw['range'] = (self.lo, self.hi)
            return self.klass()(*args, **kw)
        return self.klass()(*args, **kw).range(self.lo, self.hi)

    def check(self, value, cx):
        if self.lo is None and self.hi is None:
            return True
        if not isinstance(value, (int, float, decimal.Decimal)):
            raise Unpinned()
        if isinstance(value, decimal.Decimal) and value.is_nan() or value != value:
            return False
        if self.lo is not None and not value >= self.lo:
            return False
        if self.hi is not None and not value <= self.hi:
            return False
        return True


class Int(_Num):

    kind = 'int'

    @classmethod
    def draw(cls, d):
        s = cls()
        s.draw_bounds(d, gen.integer)
        return s

    def klass(self):
        return pf.Int if self.style & 128 else pf.Integer

    def parse(self, raw, cx):
        if isinstance(raw, bool):
            raise Bad()
        if isinstance(raw, int):
            return raw
        if cx.flavor == 'strict':
            raise Bad()
        if isinstance(raw, float):
            if raw != raw or raw in (float('inf'), float('-inf')) or raw % 1 != 0:
                raise Bad()
            return int(raw)
        if isinstance(raw, str):
            try:
                return int(raw)
            except ValueError:
                raise Bad()
        raise Bad()

    def _shape(self, d, n):
        k = d.n(9)
        if k < 6:
            return n
        if k < 8:
            return str(n)
        try:
            f = float(n)
        except OverflowError:
            return n
        return f if f == n else n

    def valid(self, d, flavor):
        lo, hi = self.lo, self.hi
        if lo is None and hi is None:
            n = gen.integer(d)
        elif lo is None:
            n = hi - d.int(0, 9)
        elif hi is None:
            n = lo + d.int(0, 9)
        else:
            n = d.int(lo, max(lo, hi))
        return n if flavor == 'strict' else self._shape(d, n)

    def edge(self, d, flavor):
        marks = [x for x in (self.lo, self.hi) if x is not None]
        if not marks:
            v = d.choice([gen.integer, gen.real, gen.num_text, gen.int_text])(d)
            return v if flavor == 'native' else gen.json_finite(v)
        n = d.choice(marks) + d.int(-1, 1)
        return n if flavor == 'strict' else self._shape(d, n)


class Flt(_Num):

    kind = 'flt'

    @classmethod
    def draw(cls, d):
        s = cls()
        s.draw_bounds(d, lambda d: d.choice([gen.real, lambda d: d.int(-5, 9)])(d))
        return s

    def klass(self):
        return pf.Float

    def parse(self, raw, cx):
        if isinstance(raw, bool):
            raise Unpinned()
        if isinstance(raw, float):
            return raw
        if isinstance(raw, int):
            try:
                return float(raw)
            except OverflowError:
                raise Bad()
        if isinstance(raw, str) and cx.flavor != 'strict':
            try:
                return float(raw)
            except ValueError:
                raise Bad()
        raise Bad()

    def junk(self, d, flavor):
        return _unbool(super(Flt, self).junk(d, flavor))

    def deep_junk(self, d, flavor):
        return _unbool(super(Flt, self).deep_junk(d, flavor))

    def valid(self, d, flavor):
        lo, hi = self.lo, self.hi
        k = d.n(5)
        if lo is None and hi is None:
            v = gen.real(d, special=flavor == 'native')
        elif lo is None:
            v = hi - d.int(0, 9) / 4.0
        elif hi is None:
            v = lo + d.int(0, 9) / 4.0
        else:
            v = lo + (hi - lo) * (d.int(0, 8) / 8.0)
        if flavor != 'native':
            v = gen.json_finite(v)
        if k < 4 or flavor == 'strict':
            return v
        if k < 5:
            return repr(v)
        return int(v) if v == v and abs(v) < 1e18 else v

    def edge(self, d, flavor):
        marks = [x for x in (self.lo, self.hi) if x is not None]
        if not marks:
            v = d.choice([gen.real, gen.integer, gen.num_text])(d)
        else:
            m = d.choice(marks)
            v = d.choice([m, m + 0.25, m - 0.25, m * (1 + 2.0 ** -52) if abs(m) < 1e300 else m,
                          m * (1 - 2.0 ** -52) if abs(m) < 1e300 else m, m + 1, m - 1, float('nan')])
        return v if flavor == 'native' else gen.json_finite(v)


def _unbool(v):
    return 1 if isinstance(v, bool) else v


class Dec(_Num):

    kind = 'dec'

    @classmethod
    def draw(cls, d):
        s = cls()
        s.draw_bounds(d, lambda d: d.choice([
            lambda d: decimal.Decimal(d.int(-50, 300)).scaleb(-d.int(0, 2)), lambda d: d.int(-5, 9)])(d))
        return s

    def klass(self):
        return pf.Decimal

    def parse(self, raw, cx):
        if isinstance(raw, bool):
            raise Unpinned()
        if isinstance(raw, decimal.Decimal):
            return raw
        if isinstance(raw, (int, float)):
            return decimal.Decimal(raw)
        if isinstance(raw, str):
            try:
                v = decimal.Decimal(raw)
            except decimal.InvalidOperation:
                raise Bad()
            if v.is_snan():
                raise Unpinned()
            return v
        raise Bad()

    def junk(self, d, flavor):
        return _unbool(super(Dec, self).junk(d, flavor))

    def deep_junk(self, d, flavor):
        return _unbool(super(Dec, self).deep_junk(d, flavor))

    def valid(self, d, flavor):
        lo, hi = self.lo, self.hi
        if lo is None and hi is None:
            v = gen.dec(d)
        elif lo is None:
            v = hi - decimal.Decimal(d.int(0, 30)) / 4
        elif hi is None:
            v = lo + decimal.Decimal(d.int(0, 30)) / 4
        else:
            v = lo + (hi - lo) * decimal.Decimal(d.int(0, 8)) / 8
        return self._shape(d, v, flavor)

    def _shape(self, d, v, flavor):
        k = d.n(5)
        if flavor == 'native' and k < 3:
            return decimal.Decimal(v)
        if k < 4:
            return str(v)
        v = decimal.Decimal(v)
        if v.is_nan() or v.is_infinite() or abs(v) > 10 ** 30:
            return str(v)
        return int(v) if k < 5 else float(v)

    def edge(self, d, flavor):
        marks = [x for x in (self.lo, self.hi) if x is not None]
        if not marks:
            v = d.choice([gen.real, gen.integer, gen.num_text])(d)
            return v if flavor == 'native' else gen.json_finite(v)
        m = decimal.Decimal(d.choice(marks))
        eps = decimal.Decimal(d.choice(['0', '0.001', '-0.001', '1', '-1', '1e-9', '-1e-9']))
        v = m + eps
        if d.p(8):
            v = decimal.Decimal('NaN')
        return self._shape(d, v, flavor)


class Bool(Spec):

    kind = 'bool'

    @classmethod
    def draw(cls, d):
        return cls()

    def make(self, args, kw):
        return (pf.Bool if self.style & 128 else pf.Boolean)(*args, **kw)

    def parse(self, raw, cx):
        if isinstance(raw, bool):
            return raw
        if cx.flavor == 'strict':
            raise Bad()
        if isinstance(raw, int):
            return raw != 0
        if isinstance(raw, str) and cx.flavor != 'json':
            if raw.lower() in ('0', 'f', 'false'):
                return False
            if raw.lower() in ('1', 't', 'true'):
                return True
        raise Bad()

    def valid(self, d, flavor):
        if flavor == 'strict':
            return d.bool()
        if flavor == 'json':
            return d.choice([True, False, 0, 1, 2, -1, 10 ** 20])
        return d.choice([True, False, 0, 1, 'true', 'false', 'T', 'F', '0', '1', 'True', 'FALSE', 'tRuE', 'fAlse',
                         2, -1, 10 ** 20, 't', 'f'])

    def edge(self, d, flavor):
        if flavor == 'native':
            return d.choice(['yes', 'no', '2', '', ' 1', '1 ', 'tr', 'truee', 0.0, 1.0, 'on', u'\u0661', 'fals', '00'])
        return d.choice([0.0, 1.0, 1.5, 'true', '0', '1', ''])


class Uuid(Spec):

    kind = 'uuid'

    @classmethod
    def draw(cls, d):
        return cls()

    def make(self, args, kw):
        return pf.UUID(*args, **kw)

    def parse(self, raw, cx):
        if isinstance(raw, uuid.UUID):
            return raw
        text = as_text(raw, cx.flavor)
        try:
            return uuid.UUID(text)
        except ValueError:
            raise Bad()

    def valid(self, d, flavor):
        if flavor == 'native' and d.bool():
            return gen.uid(d)
        return str(gen.uid(d))

    def edge(self, d, flavor):
        return gen.uid_text(d)


class Any(Spec):

    kind = 'any'

    @classmethod
    def draw(cls, d):
        return cls()

    def make(self, args, kw):
        return pf.Field(*args, **kw)

    def parse(self, raw, cx):
        return raw

    def valid(self, d, flavor):
        if flavor == 'native':
            return gen.tree(d, 2)
        return gen.json_finite(gen.json_tree(d, 2))


class _Temporal(Spec):

    def __init__(self):
        super(_Temporal, self).__init__()
        self.fmt = None
        self.after = None
        self.before = None

    def draw_bounds(self, d, value):
        k = d.n(7)
        if k < 4:
            return
        a, b = sorted([value(d), value(d)])
        if k in (4, 6, 7):
            self.after = a
        if k in (5, 6, 7):
            self.before = b

    def make(self, args, kw):
        st = (self.style >> 5) & 3
        chain = []
        if self.fmt is not None:
            if self.style & 128:
                chain.append(lambda f: f.format(self.fmt))
            else:
                kw['format'] = self.fmt
        if st == 0 or (st == 3 and (self.after is None or self.before is None)):
            if self.after is not None:
                kw['after'] = self.after
            if self.before is not None:
                kw['before'] = self.before
        elif st == 3:
            chain.append(lambda f: f.between(self.after, self.before))
        else:
            if self.after is not None:
                chain.append(lambda f: f.after(self.after))
            if self.before is not None:
                chain.append(lambda f: f.before(self.before))
        f = self.klass(*args, **kw)
        for c in chain:
            f = c(f)
        return f

    def check(self, value, cx):
        if self.after is not None and value < self.after:
            return False
        if self.before is not None and value > self.before:
            return False
        return True


def _strptime(text, fmt):
    try:
        return datetime.datetime.strptime(text, fmt)
    except ValueError:
        raise Bad()


class Date(_Temporal):

    kind = 'date'
    klass = pf.Date
    FORMATS = ['%Y-%m-%d', '%d/%m/%Y', '%m/%d/%Y', '%d %b %Y', '%Y%m%d']

    @classmethod
    def draw(cls, d):
        s = cls()
        s.draw_bounds(d, gen.date)
        if d.n(4):
            s.fmt = d.choice(cls.FORMATS)
            if d.bool():
                s.fmt = d.sample(cls.FORMATS, d.int(1, 3))
        return s

    def formats(self):
        return self.fmt if isinstance(self.fmt, list) else [self.fmt] if self.fmt else []

    def parse(self, raw, cx):
        if isinstance(raw, datetime.datetime):
            raise Unpinned()
        if isinstance(raw, datetime.date):
            return raw
        text = as_text(raw, cx.flavor)
        for f in self.formats():
            try:
                return _strptime(text, f).date()
            except Bad:
                pass
        raise Bad()

    def junk(self, d, flavor):
        v = super(Date, self).junk(d, flavor)
        return v.date() if isinstance(v, datetime.datetime) else v

    def _date(self, d):
        if self.after is not None and self.before is not None:
            return self.after + datetime.timedelta(d.int(0, max(0, (self.before - self.after).days)))
        if self.after is not None:
            return _shift(self.after, d.int(0, 9))
        if self.before is not None:
            return _shift(self.before, -d.int(0, 9))
        return gen.date(d)

    def _shape(self, d, v, flavor):
        if self.fmt and (flavor != 'native' or d.bool()):
            return v.strftime(d.choice(self.formats()))
        return v if flavor == 'native' else str(v)

    def valid(self, d, flavor):
        return self._shape(d, self._date(d), flavor)

    def edge(self, d, flavor):
        marks = [x for x in (self.after, self.before) if x is not None]
        if marks:
            return self._shape(d, _shift(d.choice(marks), d.int(-1, 1)), flavor)
        v = gen.date(d)
        return d.choice([v.strftime(d.choice(self.FORMATS)), str(v) + ' ', str(v)[:-1], '2023-02-29', ''])


def _plus(v, delta):
    try:
        w = v + delta
    except OverflowError:
        return v
    return w if w.year >= 1000 else v       # strftime pads no years


def _shift(v, days):
    return _plus(v, datetime.timedelta(days))


class Dt(_Temporal):

    kind = 'dt'
    klass = pf.Datetime
    FORMATS = ['%Y-%m-%d %H:%M:%S', '%d/%m/%Y %H:%M', '%Y%m%d%H%M%S', '%Y-%m-%dT%H:%M:%S.%f']

    @classmethod
    def draw(cls, d):
        s = cls()
        s.draw_bounds(d, gen.moment)
        if d.n(4):
            s.fmt = d.choice(cls.FORMATS)
        return s

    def parse(self, raw, cx):
        if isinstance(raw, datetime.datetime):
            return raw
        text = as_text(raw, cx.flavor)
        if not self.fmt:
            raise Bad()
        return _strptime(text, self.fmt)

    def _moment(self, d):
        if self.after is not None:
            return _plus(self.after, datetime.timedelta(seconds=d.int(0, 100)))
        if self.before is not None:
            return _plus(self.before, -datetime.timedelta(seconds=d.int(0, 100)))
        return gen.moment(d)

    def _shape(self, d, v, flavor):
        if self.fmt and (flavor != 'native' or d.bool()):
            return v.strftime(self.fmt)
        return v if flavor == 'native' else str(v)

    def valid(self, d, flavor):
        return self._shape(d, self._moment(d), flavor)

    def edge(self, d, flavor):
        marks = [x for x in (self.after, self.before) if x is not None]
        if marks:
            delta = d.choice([datetime.timedelta(0), datetime.timedelta(seconds=1), datetime.timedelta(microseconds=1),
                              datetime.timedelta(days=1)])
            m = d.choice(marks)
            return self._shape(d, _plus(m, delta if d.bool() else -delta), flavor)
        v = gen.moment(d)
        return d.choice([v.strftime(d.choice(self.FORMATS)), str(v), str(v)[:-1]])


class Clock(_Temporal):
    """Times; text is parsed to a struct_time."""

    kind = 'time'
    klass = pf.Time
    FORMATS = ['%H:%M:%S', '%H:%M', '%H%M%S', '%I:%M %p']

    @classmethod
    def draw(cls, d):
        s = cls()
        if d.bool():
            s.draw_bounds(d, gen.clock)
        if s.after is None and s.before is None and d.n(4):
            s.fmt = d.choice(cls.FORMATS)
        return s

    def parse(self, raw, cx):
        if isinstance(raw, (datetime.time, time.struct_time)):
            return raw
        text = as_text(raw, cx.flavor)
        if not self.fmt:
            raise Bad()
        try:
            return time.strptime(text, self.fmt)
        except ValueError:
            raise Bad()

    def valid(self, d, flavor):
        v = gen.clock(d)
        if self.after is not None and v < self.after:
            v = self.after
        if self.before is not None and v > self.before:
            v = self.before
        if self.fmt and (flavor != 'native' or d.bool()):
            return v.strftime(self.fmt)
        return v if flavor == 'native' else str(v)

    def edge(self, d, flavor):
        marks = [x for x in (self.after, self.before) if x is not None]
        if marks and flavor == 'native':
            m = d.choice(marks)
            return d.choice([m, m.replace(microsecond=(m.microsecond + 1) % 1000000),
                             m.replace(second=(m.second + 1) % 60), m.replace(hour=(m.hour + 1) % 24)])
        v = gen.clock(d)
        return d.choice([v.strftime(d.choice(self.FORMATS)), '24:00', '12:60:00', str(v)[:-1]])


class List(Spec):

    kind = 'list'

    def __init__(self, item=None):
        super(List, self).__init__()
        self.item = item
        self.min_length = None
        self.max_length = None
        self.allow_field = False

    def make(self, args, kw):
        st = (self.style >> 5) & 3
        item = self.item.build()
        if isinstance(self.item, Sub) and self.style & 128 and self.item.bare():
            item = self.item.form.build()
        if self.allow_field:
            kw['allow_field'] = True
        chain = []
        if self.min_length is not None or self.max_length is not None:
            if st == 0:
                if self.min_length is not None:
                    kw['min_length'] = self.min_length
                if self.max_length is not None:
                    kw['max_length'] = self.max_length
            elif st == 1:
                kw['length'] = (self.min_length, self.max_length)
            elif st == 2:
                chain.append(lambda f: f.range(self.min_length, self.max_length))
            else:
                if self.min_length is not None:
                    chain.append(lambda f: f.min(self.min_length))
                if self.max_length is not None:
                    chain.append(lambda f: f.max(self.max_length))
        if self.style & 256 and not isinstance(item, type):
            kw['field'] = item
            f = pf.List(*args, **kw)
        else:
            f = pf.List(*(args + [item]), **kw)
        for c in chain:
            f = c(f)
        return f

    def parse(self, raw, cx):
        if not isinstance(raw, (list, tuple)):
            if not self.allow_field:
                raise Bad()
            v = self.item.map(cx, raw)
            if v is DROP or v is NONE:
                return v
            return [v]
        out = []
        for i, r in enumerate(raw):
            with cx.at(i):
                v = self.item.map(cx, r)
            if v is not DROP and v is not NONE:
                out.append(v)
        return out

    def check(self, value, cx):
        if self.min_length is not None and len(value) < self.min_length:
            return False
        if self.max_length is not None and len(value) > self.max_length:
            return False
        return True

    def _fill(self, d, n, fault, flavor):
        out = [self.item.raw(d, fault, flavor) for _ in range(n)]
        return tuple(out) if flavor == 'native' and d.p(15) else out

    fault = 10

    def valid(self, d, flavor):
        lo = self.min_length or 0
        hi = self.max_length if self.max_length is not None else lo + 3
        if self.allow_field and d.p(25):
            return self.item.raw(d, 0, flavor)
        n = d.int(lo, max(lo, hi))
        if self.max_length is None and d.p(3) and self.item.leaves() == 1:
            n = engine.mined_size(d)
        return self._fill(d, n, self.fault, flavor)

    def edge(self, d, flavor):
        marks = [x for x in (self.min_length, self.max_length) if x is not None]
        n = max(0, d.choice(marks) + d.int(-1, 1)) if marks else d.size(0, 5)
        return self._fill(d, n, self.fault, flavor)

    def raw(self, d, fault=25, flavor='native'):
        self.fault = fault
        return super(List, self).raw(d, fault // 2, flavor)

    def junk(self, d, flavor):
        return 'text' if d.bool() else super(List, self).junk(d, flavor)

    def leaves(self):
        return 1 + self.item.leaves()


class Tup(Spec):

    kind = 'tuple'

    def __init__(self, items=()):
        super(Tup, self).__init__()
        self.items = list(items)

    def make(self, args, kw):
        fs = [i.build() for i in self.items]
        if self.style & 64 or len(fs) == 1:
            # a single field must be given in a sequence
            return pf.Tuple(*(args + [fs]), **kw)
        return pf.Tuple(*(args + fs), **kw)

    def parse(self, raw, cx):
        if not isinstance(raw, (list, tuple)):
            raise Bad()
        if len(raw) != len(self.items):
            raise Bad()
        out = []
        for i, (f, r) in enumerate(zip(self.items, raw)):
            with cx.at(i):
                v = f.map(cx, r)
            if v is not DROP and v is not NONE:
                out.append(v)
        return tuple(out)

    fault = 10

    def valid(self, d, flavor):
        out = [f.raw(d, self.fault, flavor) for f in self.items]
        return tuple(out) if flavor == 'native' and d.bool() else out

    def edge(self, d, flavor):
        out = [f.raw(d, self.fault, flavor) for f in self.items]
        k = d.n(2)
        if k == 0:
            return out
        if k == 1:
            return out[:-1]
        return out + [self.items[-1].raw(d, 0, flavor)]

    def raw(self, d, fault=25, flavor='native'):
        self.fault = fault
        return super(Tup, self).raw(d, fault // 2, flavor)

    def leaves(self):
        return 1 + sum(i.leaves() for i in self.items)


class Map(Spec):

    kind = 'dict'

    def __init__(self, key=None, value=None):
        super(Map, self).__init__()
        self.key = key
        self.value = value
        self.required_keys = None
        self.max_keys = None
        self.refuse = None          # key filter: refuse these keys

    def make(self, args, kw):
        if self.required_keys is not None:
            kw['required_keys'] = (set if self.style & 64 else list)(self.required_keys)
        if self.max_keys is not None:
            kw['max_keys'] = self.max_keys
        f = pf.Dict(*([self.key.build(), self.value.build()] + args), **kw)
        if self.refuse is not None:
            refuse = frozenset(self.refuse)
            f.key_filter.attach(f)(lambda self, key: key not in refuse)
        return f

    def parse(self, raw, cx):
        if not isinstance(raw, dict):
            raise Bad()
        out = {}
        for k, r in raw.items():
            if self.refuse is not None and k in self.refuse:
                continue
            with cx.at(k):
                v = self.value.map(cx, r)
            if v is DROP or v is NONE:
                continue
            k = self.key.map_key(cx, k)
            if k is DROP or k is NONE:
                continue
            out[k] = v
        return out

    def check(self, value, cx):
        if self.required_keys and any(k not in value for k in self.required_keys):
            return False
        if self.max_keys is not None and len(value) > self.max_keys:
            return False
        return True

    fault = 10
    KEYS = ['a', 'b', 'c', 'ab', 'x', 'dd', '1', 'k9', u'\u00e9', 'long_key', 'A B', 'items', 'keys', 'zz']

    def _keys(self, d, n):
        out = []
        for _ in range(n):
            k = d.n(9)
            if k < 2 and self.required_keys:
                out.append(d.choice(self.required_keys))
            elif k < 4 and self.refuse:
                out.append(d.choice(self.refuse))
            elif k < 8:
                out.append(d.choice(self.KEYS))
            else:
                v = self.key.valid(d, 'native')
                out.append(v)
        return out

    def valid(self, d, flavor):
        keys = list(self.required_keys or [])
        room = self.max_keys - len(keys) if self.max_keys is not None else 4
        keys += self._keys(d, d.size(0, max(0, room)))
        if self.max_keys is None and d.p(3) and self.value.leaves() == 1:
            keys += ['n{0}'.format(i) for i in range(engine.mined_size(d))]
        return dict((k, self.value.raw(d, self.fault, flavor)) for k in d.shuffled(keys))

    def edge(self, d, flavor):
        keys = list(self.required_keys or [])
        if keys and d.bool():
            keys.pop(d.n(len(keys) - 1))
        if self.max_keys is not None:
            keys += self._keys(d, max(0, self.max_keys - len(keys) + d.int(-1, 2)))
        else:
            keys += self._keys(d, d.size(0, 4))
        return dict((k, self.value.raw(d, self.fault, flavor)) for k in keys)

    def raw(self, d, fault=25, flavor='native'):
        self.fault = fault
        return super(Map, self).raw(d, fault // 2, flavor)

    def leaves(self):
        return 1 + self.value.leaves()


def _map_key(self, cx, k):
    return self.finish(cx, k)


Str.map_key = _map_key


class Sub(Spec):

    kind = 'sub'

    def __init__(self, form=None):
        super(Sub, self).__init__()
        self.form = form
        self.unmapped = None        # None, 'capture' or 'ignore'
        self.flat = False

    def bare(self):
        return (self.src is None and self.default == REQUIRED and self.nullable is None and
                not self.ignores and not self.translations and not self.tags and
                self.unmapped is None and not self.flat)

    def make(self, args, kw):
        if self.unmapped is not None:
            kw['unmapped'] = self.unmapped
        if self.flat:
            kw['flat'] = True
        cls = self.form.build()
        if self.style & 32:
            return pf.SubForm(*([cls] + args), **kw)
        return pf.SubForm(*(args + [cls]), **kw)

    def parse(self, raw, cx):
        if not isinstance(raw, dict):
            raise Bad()
        before = len(cx.errors)
        v = self.form.map(cx, raw, self.unmapped)
        return DROP if len(cx.errors) > before else v

    fault = 10

    def valid(self, d, flavor):
        return self.form.raw(d, self.fault, flavor)

    def raw(self, d, fault=25, flavor='native'):
        self.fault = fault
        return super(Sub, self).raw(d, fault // 3, flavor)

    def leaves(self):
        return 1 + self.form.leaves()


class Form(object):
    """A form schema: ordered (name, spec)."""

    def __init__(self, fields=()):
        self.fields = list(fields)
        self.cls = None

    def __repr__(self):
        return 'Form{{{0}}}'.format(', '.join('{0}: {1!r}'.format(n, s) for n, s in self.fields))

    def build(self):
        if self.cls is None:
            ns = {}
            for name, spec in self.fields:
                ns[name] = spec.build()
            self.cls = type('F', (pilo.Form,), ns)
        return self.cls

    def lookup(self, spec, name, raw):
        key = spec.src if spec.src is not None else name
        return raw.get(key, ABSENT)

    def map(self, cx, raw, unmapped=None):
        values = {}
        result = FormVal(self, values)
        outer, cx.form = cx.form, result
        for name, spec in self.fields:
            if spec.whole or isinstance(spec, Sub) and spec.flat:
                v = spec.map(cx, raw)
            else:
                key = spec.src if spec.src is not None else name
                with cx.at(key):
                    v = spec.map(cx, self.lookup(spec, name, raw))
            if v is not NONE and v is not DROP:
                values[name] = v
        cx.form = outer
        if unmapped == 'capture':
            for k in raw:
                if k not in values:
                    values[k] = raw[k]
        return result

    def raw(self, d, fault=25, flavor='native', absent=12, extra=True):
        out = {}
        for name, spec in self.fields:
            if spec.whole:
                for k, v in spec.contribute(d, fault, flavor).items():
                    out.setdefault(k, v)
                continue
            if isinstance(spec, Sub) and spec.flat:
                sub = spec.raw(d, 0, flavor)
                if isinstance(sub, dict):
                    for k, v in sub.items():
                        out.setdefault(k, v)
                continue
            if spec.default[0] != 'required':
                if d.p(30):
                    continue
            elif d.n(99) < min(absent, fault):
                continue
            key = spec.src if spec.src is not None else name
            out[key] = spec.raw(d, fault, flavor)
        if extra and d.p(30):
            for _ in range(d.int(1, 3)):
                k = d.choice(['extra', 'zzz', 'q', 'more', 'X'])
                if k not in out:
                    out[k] = gen.json_finite(gen.json_tree(d, 1))
        if len(out) > 1 and d.p(40):
            ks = d.shuffled(list(out))
            out = dict((k, out[k]) for k in ks)
        return out

    def leaves(self):
        return sum(s.leaves() for _, s in self.fields)

    def specs(self):
        for name, s in self.fields:
            for x in walk(s):
                yield x


def walk(s):
    yield s
    if isinstance(s, List):
        for x in walk(s.item):
            yield x
    elif isinstance(s, Tup):
        for i in s.items:
            for x in walk(i):
                yield x
    elif isinstance(s, Map):
        for x in walk(s.key):
            yield x
        for x in walk(s.value):
            yield x
    elif isinstance(s, Sub):
        for x in s.form.specs():
            yield x


# -- drawing schemas


SCALARS = [Str, Int, Flt, Bool, Dec, Uuid, Any, Date, Dt, Clock]
JSON_SCALARS = [Str, Int, Flt, Bool, Dec, Uuid, Any, Date]


class Gen(object):
    """How to draw schemas."""

    def __init__(self, flavor='native', depth=2, scalars=None, constraints=True, defaults=True, options=True,
                 containers=True, srcs=True, max_fields=4, flat=False, unmapped=False, callables=True,
                 kinds=None, wide=True, dup=False):
        self.flavor = flavor
        self.depth = depth
        self.scalars = scalars or (SCALARS if flavor == 'native' else JSON_SCALARS)
        self.constraints = constraints
        self.defaults = defaults
        self.options = options
        self.containers = containers
        self.srcs = srcs
        self.max_fields = max_fields
        self.flat = flat
        self.unmapped = unmapped
        self.callables = callables
        self.kinds = kinds
        self.wide = wide
        self.dup = dup              # fields that read the same key


def draw_scalar(d, g, position='field'):
    cls = d.choice(g.scalars)
    s = cls.draw(d) if g.constraints else cls()
    return finish_options(d, g, s, position)


def draw_default(d, g, s):
    k = d.n(9)
    if k < 4:
        return REQUIRED
    if k < 6:
        return OPTIONAL
    if k < 7:
        return ('lit', None)
    if k < 9 or not g.callables:
        return ('lit', d.choice(['dflt', 0, '', False, 7, -1.5, [], {}, (), ['x'], {'k': 1}, True]))
    return make_callable(d)


class Counter(object):

    def __init__(self, base):
        self.base = base
        self.n = 0

    def __repr__(self):
        return 'Counter({0!r})'.format(self.base)

    def __call__(self):
        self.n += 1
        return [self.base, self.n]


def make_callable(d):
    k = d.n(3)
    if k == 0:
        return ('call', list, list)
    if k == 1:
        return ('call', dict, dict)
    if k == 2:
        return ('call', lambda: 0, lambda: 0)
    base = d.int(0, 9)
    return ('call', Counter(base), Counter(base))


def finish_options(d, g, s, position):
    s.style = d.n(1023)
    if position == 'field':
        if g.defaults:
            s.default = draw_default(d, g, s)
        if g.srcs and d.p(20):
            s.src = d.choice(['s1', 's2', 's3', 's4', 's5', 'key', 'Name', 'x-y', u'\u00e9'])
    elif position == 'item' and g.defaults and d.p(20):
        s.default = draw_default(d, g, s)
    if g.options:
        if d.p(25):
            s.nullable = d.bool()
        if position != 'tuple' and d.p(12):
            s.ignores = [d.choice(['', 0, 'a', None, 1, 'n/a', 2.25, False, []]) for _ in range(d.int(1, 2))]
        if isinstance(s, Str) and s.bounds() == (None, None) and not s.pattern and not s.alphabet and d.p(15):
            keys = s.choices or ['a', 'b', 'ab', '', '1']
            s.translations = dict((k, d.choice(['one', 1, 'zz', 2.5, True, ('t',)])) for k in d.sample(keys, d.int(1, 2)))
        elif isinstance(s, Int) and s.lo is None and s.hi is None and d.p(12):
            s.translations = dict((k, d.choice([100, 'one', 0, None])) for k in d.sample([0, 1, 2, 3], d.int(1, 2)))
        elif isinstance(s, Any) and d.p(12):
            s.translations = {'a': 1, 1: 'one'}
    return s


def draw_field(d, g, depth=None, position='field'):
    depth = g.depth if depth is None else depth
    if depth <= 0 or not g.containers or d.n(9) < 5:
        return draw_scalar(d, g, position)
    kinds = g.kinds or ['list', 'tuple', 'dict', 'sub']
    k = d.choice(kinds)
    if k == 'list':
        s = List(draw_field(d, g, depth - 1, 'item'))
        if g.constraints and d.p(40):
            lo = d.int(0, 3)
            hi = lo + d.int(0, 3)
            m = d.n(2)
            if m in (0, 2):
                s.min_length = lo
            if m in (1, 2):
                s.max_length = hi
        if d.p(15) and not any(isinstance(x, (List, Tup)) for x in walk(s.item)):
            s.allow_field = True
    elif k == 'tuple':
        s = Tup([draw_field(d, g, depth - 1, 'tuple') for _ in range(d.int(1, 3))])
    elif k == 'dict':
        key = Str()
        if g.constraints and d.p(30):
            key = Str.draw(d)
        if d.p(10) and key.bounds() == (None, None) and not key.pattern and not key.alphabet:
            # keys that become equal
            key.translations = dict((k, d.choice(['a', 'b', 'new'])) for k in d.sample(Map.KEYS, d.int(1, 4)))
        s = Map(key, draw_field(d, g, depth - 1, 'item'))
        if g.constraints:
            if d.p(20):
                s.required_keys = d.sample(['a', 'b', 'c'], d.int(1, 2))
            if d.p(20):
                s.max_keys = d.int(0, 4)
        if d.p(15):
            s.refuse = d.sample(['a', 'b', 'x', 'dd'], d.int(1, 2))
    else:
        s = Sub(draw_form(d, g, depth - 1))
        if g.unmapped and d.p(30):
            s.unmapped = d.choice(['capture', 'ignore'])
    return finish_options(d, g, s, position)


def draw_form(d, g, depth=None, lo=1):
    depth = g.depth if depth is None else depth
    n = d.int(lo, g.max_fields)
    if g.wide and d.p(2):
        n = 16
    fields = []
    used = set()
    for name in gen.names(d, n):
        s = draw_field(d, g, depth)
        key = s.src if s.src is not None else name
        if g.dup and used and d.p(10):
            s.src = key = d.choice(sorted(used))
        elif key in used:
            s.src = None
            key = name
            if key in used:
                continue
        used.add(key)
        fields.append((name, s))
    if not fields:
        fields = [('a', Str())]
    elif depth < g.depth and d.p(4):
        fields = []
    f = Form(fields)
    # a literal source key of one field must not be the name another one falls back to
    return f


def outcome(form_cls, source, **kw):
    """Maps in collect mode: (form, errors)."""
    form = form_cls()
    errors = form.map(source, **kw)
    return form, errors
