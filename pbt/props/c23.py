"""C23: dates and times and their formats."""
import datetime
import json
import time

import iso8601
import pilo
from pilo import fields as pf

from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for

PROP = 'C23'
RULE = ('a case renders a date, time or datetime (by code of its own) in a generated format or an iso8601 form, sometimes '
        'damages the text or offers another, and maps it with a field of that format, of several formats or of none; and '
        'formats values and maps the text back; it counts when there is a format and the text is not empty; distinct by '
        '(field, text)')

MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November',
          'December']
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
SEPS = ['-', '/', '.', ' ', ', ', ':', 'T', ' at ', '|', '%%', '(', '+', '*', '?', '[', '\\', '$', '^']
DATES = [['%Y', '%m', '%d'], ['%d', '%m', '%Y'], ['%m', '%d', '%y'], ['%d', '%b', '%Y'], ['%B', '%d', '%Y'], ['%Y', '%j'],
         ['%A', '%d', '%B', '%Y'], ['%a', '%b', '%d', '%Y'], ['%Y', '%m'], ['%Y'], ['%m', '%d'], ['%y', '%m', '%d']]
CLOCKS = [['%H', '%M', '%S'], ['%H', '%M'], ['%I', '%M', '%p'], ['%I', '%p'], ['%H', '%M', '%S', '%f'], ['%H'],
          ['%I', '%M', '%S', '%p']]


def render(v, part, style=0):
    """One directive, by hand. `style` 1 drops padding, 2 changes case."""
    pad = '{0}' if style == 1 else '{0:02d}'
    if part == '%Y':
        return '{0:04d}'.format(v.year)
    if part == '%y':
        return '{0:02d}'.format(v.year % 100)
    if part == '%m':
        return pad.format(v.month)
    if part == '%d':
        return pad.format(v.day)
    if part == '%j':
        n = v.toordinal() - datetime.date(v.year, 1, 1).toordinal() + 1
        return str(n) if style == 1 else '{0:03d}'.format(n)
    if part in ('%b', '%B', '%a', '%A'):
        t = MONTHS[v.month - 1] if part in ('%b', '%B') else DAYS[v.weekday()]
        t = t[:3] if part in ('%b', '%a') else t
        return t.upper() if style == 2 else t
    if part == '%H':
        return pad.format(v.hour)
    if part == '%I':
        return pad.format(v.hour % 12 or 12)
    if part == '%M':
        return pad.format(v.minute)
    if part == '%S':
        return pad.format(v.second)
    if part == '%f':
        return '{0:06d}'.format(v.microsecond)
    if part == '%p':
        t = 'AM' if v.hour < 12 else 'PM'
        return t.lower() if style == 2 else t
    if part == '%z':
        off = v.utcoffset()
        m = int(off.total_seconds()) // 60
        return '{0}{1:02d}{2:02d}'.format('-' if m < 0 else '+', abs(m) // 60, abs(m) % 60)
    raise AssertionError(part)


def project(v, parts):
    """What is left of `v` in a text with these directives."""
    has = set(parts)
    y = v.year if has & set(['%Y', '%y']) else 1900
    if has & set(['%j']):
        m, day = v.month, v.day
    else:
        m = v.month if has & set(['%m', '%b', '%B']) else 1
        day = v.day if has & set(['%d']) else 1
    h = v.hour if has & set(['%H']) else 0
    if '%I' in has:
        h = v.hour if '%p' in has else v.hour % 12
    out = datetime.datetime(
        y, m, day, h, v.minute if '%M' in has else 0, v.second if '%S' in has else 0,
        v.microsecond if '%f' in has else 0)
    if '%z' in has:
        out = out.replace(tzinfo=v.tzinfo)
    return out


class Format(object):

    def __init__(self, parts, seps):
        self.parts, self.seps = parts, seps

    @property
    def text(self):
        out = self.parts[0]
        for s, p in zip(self.seps, self.parts[1:]):
            out += s + p
        return out

    def render(self, v, style=0):
        out = render(v, self.parts[0], style)
        for s, p in zip(self.seps, self.parts[1:]):
            out += s.replace('%%', '%') + render(v, p, style)
        return out

    def value(self, v):
        return project(v, self.parts)

    def __repr__(self):
        return 'Format({0!r})'.format(self.text)


class Iso(object):
    """The iso8601 forms."""

    text = 'iso8601'

    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return 'Iso()'


def draw_format(d, kind):
    parts = []
    if kind != 'time':
        parts += d.choice(DATES)
    if kind == 'time' or kind == 'datetime' and d.p(80) or kind == 'date' and d.p(10):
        parts = parts + d.choice(CLOCKS)
        if kind == 'datetime' and d.p(20):
            parts.append('%z')
    return Format(parts, [d.choice(SEPS) for _ in parts[1:]])


def draw_value(d):
    y = d.int(1969, 2060)
    if d.p(10):
        y = d.choice([1000, 1900, 9999, 1969, 1968, 2068, 2000])
    m = d.int(1, 12)
    day = d.int(1, 28)
    if d.p(20):
        nxt = datetime.date(y + (m == 12), m % 12 + 1, 1) if y < 9999 else datetime.date(y, 12, 31)
        day = (nxt - datetime.timedelta(1)).day if y < 9999 else 28
    return datetime.datetime(y, m, day, d.choice([0, 11, 12, 23]) if d.p(30) else d.int(0, 23), d.int(0, 59), d.int(0, 59),
                             d.choice([0, 0, 1, 500000, 999999, d.int(0, 999999)]))


def in_reach(v, fmt):
    """`v`, in the years that its format can say."""
    if '%y' in fmt.parts and not 1969 <= v.year <= 2068:
        v = v.replace(year=1972, day=min(v.day, 28))
    if '%m' in fmt.parts and not set(fmt.parts) & set(['%Y', '%y']) and (v.month, v.day) == (2, 29):
        v = v.replace(day=28)
    if '%z' in fmt.parts:
        v = v.replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=15 * (v.minute - 30))))
    return v


def iso(d, v, kind):
    """(text, value)"""
    dash = d.bool()
    day = '{0:04d}-{1:02d}-{2:02d}' if dash else '{0:04d}{1:02d}{2:02d}'
    out = day.format(v.year, v.month, v.day)
    want = datetime.datetime(v.year, v.month, v.day)
    off = datetime.timedelta(0)
    if kind == 'datetime' and d.p(85) or d.p(20):
        k = d.n(3)
        colon = ':' if d.p(80) else ''
        out += d.choice(['T', ' ']) + '{0:02d}{2}{1:02d}'.format(v.hour, v.minute, colon)
        want = want.replace(hour=v.hour, minute=v.minute)
        if k:
            out += colon + '{0:02d}'.format(v.second)
            want = want.replace(second=v.second)
            if k > 1:
                us = v.microsecond // 1000 * 1000 if k == 2 else v.microsecond
                out += '.' + ('{0:03d}'.format(us // 1000) if k == 2 else '{0:06d}'.format(us))
                want = want.replace(microsecond=us)
        z = d.n(4)
        if z == 1:
            out += 'Z'
        elif z > 1:
            m = 15 * d.int(-40, 48)
            off = datetime.timedelta(minutes=m)
            out += '{0}{1:02d}'.format('-' if m < 0 else '+', abs(m) // 60)
            if z == 2 or m % 60:
                out += (':' if d.bool() else '') + '{0:02d}'.format(abs(m) % 60)
    return out, want.replace(tzinfo=datetime.timezone(off))


def damage(d, text):
    k = d.n(7)
    i = d.n(len(text)) if text else 0
    if k == 0:
        return text[:i] + text[i + 1:]
    if k == 1:
        return text[:i] + d.choice(['0', 'x', '-', ' ', '9', u'\u0663']) + text[i:]
    if k == 2:
        return text + d.choice(['x', ' ', '0', 'Z', '+00:00', '\n', '.5'])
    if k == 3:
        return text.replace(d.choice('0123456789'), d.choice('0123456789'))
    if k == 4:
        return d.choice(['', ' ', 'today', 'None', '0', 'iso8601', '2013-13-01', '2013-02-30', '2013-02-29', '24:00', '12:60',
                         '2013-11-25', '23:59:60', '1900-02-29', '25/11/2013', '12:30'])
    if k == 5:
        return gen.text(d)
    return d.choice([' ', 'x']) + text


def by_library(text, fmt, kind):
    """The value, or None: for texts that were not rendered."""
    try:
        if fmt == 'iso8601':
            v = iso8601.parse_date(text)
        elif kind == 'time':
            return time.strptime(text, fmt)
        else:
            v = datetime.datetime.strptime(text, fmt)
    except (ValueError, iso8601.ParseError):
        return None
    return v


def as_kind(v, kind):
    if v is None or kind == 'datetime' or isinstance(v, time.struct_time):
        return v
    if kind == 'date':
        return v.date()
    return time.strptime('{0} {1} {2}'.format(v.hour, v.minute, v.second), '%H %M %S')


KLASS = dict(date=pf.Date, time=pf.Time, datetime=pf.Datetime)


def build(d, kind, formats):
    """The field, spelled in one of the ways."""
    args = ['there'] if d.p(15) else []
    if formats is None:
        return KLASS[kind](*args)
    texts = [f.text for f in formats]
    arg = texts[0] if len(texts) == 1 and d.bool() or kind != 'date' else (texts if d.bool() else tuple(texts))
    if d.bool():
        return KLASS[kind](*args, format=arg)
    return KLASS[kind](*args).format(arg)


def draw_formats(d, kind):
    if d.p(6):
        return None
    n = d.weighted((3, 1), (3, d.int(2, 4))) if kind == 'date' else 1
    out = []
    for _ in range(n):
        out.append(Iso(kind) if kind != 'time' and d.p(25) else draw_format(d, kind))
    return out


def same(got, want):
    if isinstance(want, time.struct_time):
        return isinstance(got, time.struct_time) and tuple(got)[:6] == tuple(want)[:6]
    if type(got) is not type(want) or got != want:
        return False
    if not isinstance(want, datetime.datetime):
        return True
    return got.utcoffset() == want.utcoffset()


def parse(d):
    kind = d.choice(['date', 'time', 'datetime'])
    formats = draw_formats(d, kind)
    flavor = d.choice(['native', 'json'])
    expected = []       # for each text: value or None
    texts = []
    for _ in range(d.int(1, 3)):
        v = draw_value(d)
        k = d.n(9)
        if k == 9 and flavor == 'native':
            raw = d.choice([v.date(), v.time(), v, 5, 2.5, True, [], {}, ('a',), v.timetuple()])
            if kind == 'date' and isinstance(raw, datetime.datetime):
                raw = raw.date()
            ok = dict(date=datetime.date, time=(datetime.time, time.struct_time), datetime=datetime.datetime)[kind]
            good = isinstance(raw, ok)
            texts.append(raw)
            expected.append(('native', raw) if good else None)
            continue
        fmt = d.choice(formats) if formats else draw_format(d, kind)
        first = formats is not None and fmt is formats[0]
        if isinstance(fmt, Iso):
            text, want = iso(d, v, kind)
        else:
            v = in_reach(v, fmt)
            text, want = fmt.render(v, d.choice([0, 0, 1, 2])), fmt.value(v)
        if k >= 7:
            text, first = damage(d, text), False
        if formats is None:
            want = None
        elif not first:
            want = None
            for f in formats:
                want = by_library(text, f.text, kind)
                if want is not None:
                    break
        elif not isinstance(fmt, Iso):
            # rendering is ambiguous only where the library says so too (digits without padding)
            lib = by_library(text, fmt.text, kind)
            if lib is None or not same(as_kind(lib, kind), as_kind(want, kind)):
                continue
        texts.append(text)
        expected.append(None if want is None else ('value', as_kind(want, kind)))
    if not texts:
        return
    field = build(d, kind, formats)
    d.note('field', (kind, formats))
    d.note('texts', texts)
    d.note('expected', expected)
    n = d.n(2)
    if n == 0 or len(texts) > 1:
        cls = type('F', (pilo.Form,), {'v': pf.List(field)})
        field.src = None
        raw, at = {'v': texts}, ['v[{0}]'.format(i) for i in range(len(texts))]
    else:
        cls = type('F', (pilo.Form,), {'v': field})
        key = cls.v.src
        raw, at = {key: texts[0]}, [key]
    form, errors = S.outcome(cls, source_for(d, flavor, raw))
    want_errors = [('Invalid', a) for a, e in zip(at, expected) if e is None]
    have = S.error_list(errors)
    if have != want_errors:
        raise Violation('errors {0!r} instead of {1!r}'.format(have, want_errors))
    good = [e for e in expected if e is not None]
    if n == 0 or len(texts) > 1:
        got = dict.get(form, 'v')
    else:
        got = [dict.get(form, 'v')] if good else []
        if not good and 'v' in form:
            raise Violation('an invalid text gave {0!r}'.format(form['v']))
    if not isinstance(got, list) or len(got) != len(good):
        raise Violation('{0!r} instead of {1!r}'.format(got, good))
    for g, (how, w) in zip(got, good):
        if how == 'native' and g is not w or how == 'value' and not same(g, w):
            raise Violation('{0!r} instead of {1!r}'.format(g, w))
    if formats and any(texts):
        d.nontrivial((kind, [f.text for f in formats], repr(texts)))
    d.label(kind + (' none' if formats is None else ' several' if len(formats) > 1 else ''))
    if want_errors:
        d.label('rejected')


def around(d):
    """Formatting and mapping back."""
    kind = d.choice(['date', 'time', 'datetime'])
    formats = draw_formats(d, kind)
    while formats is None:
        formats = draw_formats(d, kind)
    fmt = formats[0]
    v = draw_value(d)
    if isinstance(fmt, Iso):
        off = datetime.timezone(datetime.timedelta(minutes=15 * d.int(-40, 48)))
        value = v.replace(tzinfo=off)
        want = value
        if kind == 'date':
            value = v.date()
            want = v.date()
    else:
        v = in_reach(v, fmt)
        want = as_kind(fmt.value(v), kind)
        value = v
        if kind == 'date':
            value = v.date()
            want = as_kind(fmt.value(datetime.datetime(v.year, v.month, v.day)), kind)
        elif kind == 'time':
            value = v.time() if d.bool() else v.timetuple()
    field = build(d, kind, formats)
    cls = type('F', (pilo.Form,), {'v': field})
    d.note('field', (kind, formats))
    d.note('value', value)
    text = cls.v.format(value)
    if not isinstance(text, str):
        raise Violation('formatted to {0!r}'.format(text))
    if not isinstance(fmt, Iso):
        full = datetime.datetime(v.year, v.month, v.day) if kind == 'date' else v
        if isinstance(value, time.struct_time):
            full = full.replace(microsecond=0)
        if '%f' in fmt.parts and isinstance(value, time.struct_time):
            return      # struct_time has no fractions
        if text != fmt.render(full):
            raise Violation('formatted to {0!r} instead of {1!r}'.format(text, fmt.render(full)))
    d.note('text', text)
    if not isinstance(fmt, Iso):
        lib = by_library(text, fmt.text, kind)
        if lib is None or not same(as_kind(lib, kind), want):
            return      # not a format that reads what it writes
    form, errors = S.outcome(cls, source_for(d, d.choice(['native', 'json']), {cls.v.src: text}))
    if errors:
        raise Violation('{0!r} from {1!r}: {2!r}'.format(text, value, errors))
    if not same(form['v'], want):
        raise Violation('{0!r} -> {1!r} -> {2!r} instead of {3!r}'.format(value, text, form['v'], want))
    again = cls.v.format(value)
    if again != text:
        raise Violation('formatted again to {0!r}'.format(again))
    d.nontrivial((kind, fmt.text, repr(value)))


def whole_time(d):
    """Time fields whose format has a day: struct_times keep it."""
    formats = draw_formats(d, 'datetime')
    if formats is None or isinstance(formats[0], Iso) or {'%f', '%z'} & set(formats[0].parts):
        return
    fmt = formats[0]
    v = in_reach(draw_value(d), fmt).replace(microsecond=0)
    value = v.timetuple()
    how = d.choice(['argument', 'chained'])
    field = pilo.fields.Time(format=fmt.text) if how == 'argument' else pilo.fields.Time().format(fmt.text)
    cls = type('F', (pilo.Form,), {'v': field})
    d.note('format', fmt.text)
    d.note('value', value)
    text = cls.v.format(value)
    if text != fmt.render(v):
        raise Violation('formatted to {0!r} instead of {1!r}'.format(text, fmt.render(v)))
    try:
        want = time.strptime(text, fmt.text)
    except ValueError:
        return      # not a format that reads what it writes
    form, errors = S.outcome(cls, source_for(d, d.choice(['native', 'json']), {cls.v.src: text}))
    if errors:
        raise Violation('{0!r} from {1!r}: {2!r}'.format(text, value, errors))
    got = form['v']
    if isinstance(got, time.struct_time):
        if tuple(got)[:6] != tuple(want)[:6]:
            raise Violation('{0!r} -> {1!r} instead of {2!r}'.format(text, got, want))
    elif got != datetime.time(*want[3:6]):
        raise Violation('{0!r} -> {1!r} instead of {2!r}'.format(text, got, want))
    if cls.v.format(value) != text:
        raise Violation('formatted again to {0!r}'.format(cls.v.format(value)))
    d.nontrivial((fmt.text, repr(value)))


TESTS = [
    ('parse', parse, 8000, 150000),
    ('around', around, 4000, 60000),
    ('whole_time', whole_time, 1500, 20000),
]
