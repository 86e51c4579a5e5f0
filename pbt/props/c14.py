"""C14: the same data from every kind of source."""
import collections
import json

import pilo
from pilo import fields as pf
from pilo.source import DefaultSource, JsonSource, UnionSource

from .. import gen, spec as S
from ..engine import Violation
from ..sources import OwnSource

PROP = 'C14'
RULE = ('a case maps one generated JSON-compatible input from every kind of source that can carry it (dict, keyword '
        'arguments, native source, JSON text and bytes, positional list and tuple, union of one, form) and compares '
        'contents and errors with those of the dict; it counts when the outcome has a value or an error below the top '
        'level; distinct by (schema, data)')

G = S.Gen(flavor='json', depth=3, callables=False, max_fields=5, unmapped=True)
SHALLOW = S.Gen(flavor='json', depth=1, callables=False, max_fields=6)
SRCS = ['items', 'count', 'index', 'get', 'pop', 'values', '0', '1', 'src', '', 'data', u'\u00e9', 'x-y', 'copy']
TEXTUAL = (S.Str, S.Uuid, S.Date, S.Dt, S.Clock)


def sanitize(spec, raw):
    """Replaces what sources convert each in their own way."""
    if raw is None:
        return raw
    if isinstance(spec, TEXTUAL):
        return raw if isinstance(raw, str) else 'text'
    if isinstance(spec, S.Bool):
        return raw if not isinstance(raw, str) else True
    if isinstance(spec, S.List):
        if isinstance(raw, list):
            return [sanitize(spec.item, x) for x in raw]
        return sanitize(spec.item, raw) if spec.allow_field else raw
    if isinstance(spec, S.Tup):
        if isinstance(raw, list):
            return [sanitize(spec.items[i], x) if i < len(spec.items) else x for i, x in enumerate(raw)]
        return raw
    if isinstance(spec, S.Map):
        if isinstance(raw, dict):
            return dict((k, sanitize(spec.value, x)) for k, x in raw.items())
        return raw
    if isinstance(spec, S.Sub):
        return sanitize_form(spec.form, raw)
    return raw


def sanitize_form(form, raw):
    if not isinstance(raw, dict):
        return raw
    out = dict(raw)
    for n, s in form.fields:
        key = s.src if s.src is not None else n
        if key in out:
            out[key] = sanitize(s, out[key])
    return out


def outcome(fn):
    try:
        form, errors = fn()
    except pf.FormError as ex:
        return None, S.error_list(ex.field_errors)
    return form, S.error_list(errors)


def compare(kind, got, want, whole=True):
    form, errors = got
    if errors != want[1]:
        raise Violation('{0}: errors {1!r} instead of {2!r}'.format(kind, errors, want[1]))
    if form is not None:
        r = S.differs(S.plain(form), S.plain(want[0]), kind)
        if r:
            raise Violation(r)
        r = classes(form, want[0])
        if r:
            raise Violation('{0}: {1}'.format(kind, r))


def classes(a, b):
    if isinstance(a, pilo.Form) or isinstance(b, pilo.Form):
        if type(a) is not type(b):
            return 'is a {0!r} instead of {1!r}'.format(type(a), type(b))
    if isinstance(a, dict):
        for k in dict.__iter__(a):
            r = classes(dict.__getitem__(a, k), dict.__getitem__(b, k))
            if r:
                return r
    elif isinstance(a, (list, tuple)):
        for x, y in zip(a, b):
            r = classes(x, y)
            if r:
                return r
    return None


def text_of(d, raw):
    text = json.dumps(raw, ensure_ascii=d.bool(), indent=d.choice([None, 1]))
    if d.p(15):
        return text.encode('utf8'), d.choice([{}, {'encoding': 'utf8'}])
    if d.p(10):
        return json.dumps(raw, ensure_ascii=False).encode('utf-16-le'), {'encoding': 'utf-16-le'}
    return text, {}


def any_data(d):
    form = S.draw_form(d, G)
    if d.p(25):
        used = set(s.src if s.src is not None else n for n, s in form.fields)
        for n, s in form.fields:
            key = d.choice(SRCS)
            if key not in used and d.bool():
                used.add(key)
                s.src = key
    raw = sanitize_form(form, form.raw(d, d.choice([0, 10, 30, 50]), 'json'))
    dotted = d.p(20)
    if dotted:
        # values some steps below
        for n, s in form.fields:
            if d.p(60):
                below(d, form, s, s.src if s.src is not None else n, raw)
    assert S.jsonable(raw), raw
    cls = form.build()
    kw = {}
    if d.p(15):
        kw['unmapped'] = 'capture'
    d.note('form', form)
    d.note('data', (raw, kw))
    want = outcome(lambda: S.outcome(cls, raw, **kw))
    snapshot = repr(raw)

    def mapped(make):
        return outcome(lambda: S.outcome(cls, make(), **kw))

    compare('native source', mapped(lambda: DefaultSource(raw)), want)
    compare('ordered dict', mapped(lambda: collections.OrderedDict(raw)), want)
    if not dotted:
        own = OwnSource(raw)
        compare('own source', mapped(lambda: own), want)
        compare('union of own source', mapped(lambda: UnionSource([own], **merge(d))), want)
    text, tkw = text_of(d, raw)
    compare('json', mapped(lambda: JsonSource(text, **tkw)), want)
    if not dotted:
        compare_unions(d, mapped, raw, text, tkw, want)
    compare_rest(kw, cls, mapped, raw, text, tkw, want)
    if repr(raw) != snapshot:
        raise Violation('the data was modified')
    if any(isinstance(x, (dict, list, tuple)) and x for x in dict.values(want[0])) or \
            any('.' in p or '[' in p for _, p in want[1]):
        d.nontrivial((repr(form), repr(raw)))
    d.label('errors' if want[1] else 'clean')
    if dotted:
        d.label('dotted keys')


def below(d, form, s, key, raw):
    """Has `s` read its value below other keys."""
    steps = d.sample(['n1', 'n2', 'data', 'x-y', '0', 'k', 'n3'], d.int(1, 4))
    to = '.'.join(steps + [key])
    if not key or '.' in key or any((o.src if o.src is not None else n) in (to, steps[0]) for n, o in form.fields):
        return
    s.src = to
    v = raw.pop(key, S.ABSENT)
    at = raw
    for i, x in enumerate(steps):
        at = at.setdefault(x, {})
        if not isinstance(at, dict):
            return
        if v is S.ABSENT and d.p(30):
            return
    if v is not S.ABSENT:
        at[key] = v
    elif d.bool():
        at['other'] = 1


def compare_unions(d, mapped, raw, text, tkw, want):
    compare('union of dict', mapped(lambda: UnionSource([raw], **merge(d))), want)
    compare('union of json', mapped(lambda: UnionSource([JsonSource(text, **tkw)], **merge(d))), want)


def compare_rest(kw, cls, mapped, raw, text, tkw, want):
    if not kw:
        def construct(*a, **k):
            return lambda: (cls(*a, **k), [])
        compare('constructor', outcome(construct(raw)), want)
        compare('constructor with source', outcome(construct(JsonSource(text, **tkw))), want)
        if raw:
            compare('keywords', outcome(construct(**raw)), want)
        holder = pilo.Form()
        holder.update(raw)
        compare('form', mapped(lambda: holder), want)


def merge(d):
    out = {}
    for k in ('merge', 'mapping_merge', 'sequence_merge'):
        if d.p(30):
            out[k] = d.choice(['first', 'last', 'combine'])
    if d.p(20):
        out['merge_depth'] = d.int(0, 3)
    return out


def positional(d):
    """A sequence of the values of the fields, in declaration order."""
    form = S.draw_form(d, d.choice([G, SHALLOW]))
    used = set(s.src if s.src is not None else n for n, s in form.fields)
    for n, s in form.fields:
        key = d.choice(SRCS)
        if key not in used and d.p(25):
            used.add(key)
            s.src = key
    raw = sanitize_form(form, form.raw(d, d.choice([0, 25, 50]), 'json', extra=False))
    cls = form.build()
    # cut at the first absent field
    values = []
    for n, s in form.fields:
        key = s.src if s.src is not None else n
        if key not in raw:
            if d.p(50):
                break
            raw[key] = sanitize(s, s.raw(d, 20, 'json'))
        values.append(raw[key])
    for n, s in form.fields[len(values):]:
        raw.pop(s.src if s.src is not None else n, None)
    more = [d.choice(['extra', 1, None])] if len(values) == len(form.fields) and d.p(15) else []
    d.note('form', form)
    d.note('values', values + more)
    want = outcome(lambda: S.outcome(cls, raw))
    seq = d.choice([list, tuple])(values + more)
    if values or more:
        compare('positional', outcome(lambda: S.outcome(cls, seq)), want)
        compare('positional constructor', outcome(lambda: (cls(seq), [])), want)
    if len(values) > 1:
        d.nontrivial((repr(form), repr(values)))


TESTS = [
    ('any_data', any_data, 3500, 90000),
    ('positional', positional, 4000, 60000),
]
