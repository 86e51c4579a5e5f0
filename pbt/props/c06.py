"""C06: hostile input."""
import copy
import json
import re

import pilo
from pilo import fields as pf
from pilo.source import DefaultSource, JsonSource

from .. import engine, gen, spec as S
from ..engine import Violation

PROP = 'C06'
RULE = ('a case counts when the input is unrelated to or mutated from what the schema expects (at least one mutation, '
        'hostile key or random tree); distinct by (schema, data)')
ASSUMPTIONS = ['signaling decimal NaNs are outside the domain (any comparison with them traps by definition)']

G = S.Gen(flavor='native', depth=2, max_fields=4, unmapped=True, flat=True)


class Recorder(object):
    """A value that must not be called."""

    calls = 0

    def __call__(self, *a, **k):
        Recorder.calls += 1
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'Recorder()'


def snapshot(v):
    """Everything observable about a data tree, including types, order and identity of containers."""
    if isinstance(v, dict):
        return (type(v).__name__, id(v), [(snapshot(k), snapshot(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, id(v), [snapshot(x) for x in v])
    return (type(v).__name__, repr(v))


def value_of(v):
    if isinstance(v, dict):
        return (type(v).__name__, [(value_of(k), value_of(dict.__getitem__(v, k))) for k in dict.__iter__(v)])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [value_of(x) for x in v])
    if type(v).__repr__ is object.__repr__:
        return type(v).__name__
    return (type(v).__name__, repr(v))


def extra_fields(d, ns):
    """Groups, polymorphic forms and fields with explicit keys."""
    if d.p(35):
        alts = []
        for _ in range(d.int(1, 3)):
            f = d.choice([lambda: pf.Integer(), lambda: pf.String(), lambda: pf.Field(), lambda: pf.Field(default=None),
                          lambda: pf.List(pf.Integer()), lambda: pf.Float(optional=True)])()
            alts.append((d.choice(['a', 'b', 'x', re.compile('.*'), re.compile(r'[a-z]+$'), re.compile(r'(\w)(\w)?'),
                                   re.compile('k'), 'keys()', 'a.b']), f))
        ns['grp'] = pf.Group(*alts) if d.bool() else pf.Group(alts, default=None)
    if d.p(25):
        base = type('PBase', (pilo.Form,), dict(kind=pf.Type.abstract(d.choice(['kind', 'a', 'b']))))
        # classes are only known to their base as long as something refers to them
        base.keep = [type('P1', (base,), dict(kind=pf.Type.instance('a'), v=pf.Integer(default=0))),
                     type('P2', (base,), dict(kind=pf.Type.instance('b', 'x'), v=pf.String(optional=True)))]
        ns['poly'] = pf.PolymorphicSubForm(base.kind, d.choice(['x', 'y', 'a', 'poly']),
                                           **d.choice([{}, dict(optional=True)]))
        if d.bool():
            ns['polys'] = pf.List(pf.PolymorphicSubForm(base.kind), d.choice(['x', 'y', 'b']),
                                  **d.choice([{}, dict(optional=True)]))
    if d.p(20):
        ns['env'] = pf.SubForm(type('Env', (pilo.Form,), dict(a=pf.Integer(default=1), b=pf.Field(optional=True))), None)
    if d.p(20):
        # format of other fields
        ns['fmt'] = pf.String().format('{v}', v=d.choice(['v1', 'a', 'b', 'grp']))
        ns.setdefault('v1', pf.Field(optional=True))
        ns.setdefault('a', pf.Field(optional=True))
        ns.setdefault('b', d.choice([pf.Field(), pf.Field(default=None)]))
    return ns


def mutate(d, v, p=12):
    """A data tree with random parts replaced by something else."""
    if d.p(p):
        return gen.tree(d, 2, hostile=True)
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            if d.p(p // 2):
                continue
            if d.p(p // 2):
                k = gen.key(d, hostile=True)
            out[k] = mutate(d, x, p)
        if d.p(30):
            for _ in range(d.int(1, 3)):
                out[gen.key(d, hostile=True)] = gen.tree(d, 1, hostile=True)
        return out
    if isinstance(v, list):
        out = [mutate(d, x, p) for x in v]
        if d.p(10):
            out.insert(d.int(0, len(out)), gen.tree(d, 1, hostile=True))
        return out
    if isinstance(v, tuple):
        return tuple(mutate(d, x, p) for x in v)
    if d.p(4):
        return Recorder()
    return v


def nest(d, v):
    for _ in range(d.int(5, 60)):
        v = {d.choice(['a', 'x', 'b']): v} if d.bool() else [v]
    return v


def hostile(d):
    form = S.draw_form(d, G)
    ns = dict((name, s.build()) for name, s in form.fields)
    extra_fields(d, ns)
    cls = type('F', (pilo.Form,), ns)
    how = d.n(9)
    if how < 7:
        raw = mutate(d, form.raw(d, d.choice([0, 10, 30]), 'native'), d.choice([1, 4, 12]))
    else:
        raw = gen.tree(d, 3, hostile=True)
    if not isinstance(raw, dict):
        raw = {d.choice(['a', 'b', 'c']): raw}
    if d.p(4):
        raw[d.choice(['a', 'b', 'x'])] = nest(d, 1)
    unmapped = d.choice(['ignore', 'ignore', 'capture', 'field', 'pair'])
    if unmapped == 'field':
        unmapped = pf.Integer()
    elif unmapped == 'pair':
        unmapped = (pf.String(min_length=d.int(0, 2)), d.choice([pf.Field, pf.String, pf.Integer])())
    kind = d.n(5)
    if kind == 4:
        raw = json.loads(json.dumps(raw, default=str, skipkeys=True))
    d.note('form', form)
    d.note('fields', sorted(ns))
    d.note('unmapped', unmapped if isinstance(unmapped, str) else type(unmapped).__name__)
    d.note('input', raw)
    before = snapshot(raw)
    Recorder.calls = 0
    results = []
    for i in range(2):
        source = raw
        if kind == 4:
            source = JsonSource(json.dumps(raw))
        elif kind == 5:
            source = DefaultSource(raw)
        target = cls()
        errors = target.map(source, unmapped=unmapped)
        if not isinstance(errors, list):
            raise Violation('errors are {0!r}'.format(errors))
        errs = S.error_list(errors)
        messages = [str(e) for e in errors]
        if i == 0:
            for name in dict.__iter__(target):
                v = dict.__getitem__(target, name)
                for mark in (pilo.NONE, pilo.ERROR, pilo.NOT_SET):
                    if v is mark:
                        raise Violation('the form contains {0!r} as {1!r}'.format(mark, name))
        results.append((value_of(target), errs, messages))
        if snapshot(raw) != before:
            raise Violation('the input was modified: {0!r}'.format(raw))
        if Recorder.calls:
            raise Violation('something in the input was called')
    has_callable = any(s.default[0] == 'call' for s in form.specs())
    if not has_callable and results[0] != results[1]:
        raise Violation('the second mapping differs: {0!r} / {1!r}'.format(results[0], results[1]))
    d.label('errors' if results[0][1] else 'clean')
    d.nontrivial((repr(form), repr(raw)))


def any_key(d):
    """One field of each container kind over a mapping with arbitrary keys and values."""
    raw = {}
    for _ in range(d.size(1, 6)):
        raw[gen.key(d, hostile=True)] = gen.tree(d, 1, hostile=True)
    inner = d.choice([
        lambda: pf.Dict(pf.String(), pf.Field()),
        lambda: pf.Dict(pf.String(min_length=1), pf.Integer()),
        lambda: pf.Dict(pf.Integer().min(0), pf.Field()),
        lambda: pf.Dict(pf.String(choices=['a', 'b', 'a.b']), pf.String()),
        lambda: pf.Dict(pf.String(alphabet='abc'), pf.List(pf.Field())),
        lambda: pf.Dict(pf.String(pattern='a'), pf.Dict(pf.String(), pf.Field())),
        lambda: pf.SubForm(type('Sub', (pilo.Form,), {'a': pf.Integer(), 'b': pf.Field(optional=True)}), unmapped='capture'),
        lambda: pf.List(pf.Dict(pf.String(), pf.Field()), allow_field=True),
        lambda: pf.SubForm(type('Sub', (pilo.Form,), {
            'g': pf.Group((re.compile('.*'), pf.Field()), ('a', pf.Integer()))})),
    ])()
    src = d.choice(['v', 'a.b', 'a'])
    cls = type('F', (pilo.Form,), {'v': inner})
    data = {'v': raw}
    d.note('field', type(inner).__name__)
    d.note('input', data)
    before = snapshot(data)
    a = cls()
    ea = a.map(data)
    S.error_list(ea)
    if snapshot(data) != before:
        raise Violation('the input was modified: {0!r}'.format(data))
    b = cls()
    eb = b.map(data)
    if [str(e) for e in ea] != [str(e) for e in eb] or value_of(a) != value_of(b):
        raise Violation('the second mapping differs')
    # a plain Dict takes every key with the very value under it
    if type(inner) is pf.Dict and type(inner.value_field) is pf.Field and type(inner.key_field) is pf.String and \
            not inner.key_field.choices and inner.key_field.min_length is None and not inner.key_field.pattern_re and \
            not inner.key_field.alphabet:
        if ea or dict(a['v']) != raw and value_of(a['v']) != value_of(raw):
            raise Violation('plain mapping gave {0!r}, {1}'.format(dict(a), list(map(str, ea))))
        for k in raw:
            if a['v'][k] is not raw[k]:
                raise Violation('key {0!r} gave {1!r} instead of {2!r}'.format(k, a['v'][k], raw[k]))
    d.nontrivial((type(inner).__name__, repr(raw)))


TESTS = [
    ('hostile', hostile, 7000, 200000),
    ('any_key', any_key, 4000, 80000),
]
