"""C16: mounted sources."""
import copy
import json

import pilo
from pilo import fields as pf
from pilo.source import DefaultSource, JsonSource, MountSource, UnionSource

from .. import spec as S
from ..engine import Violation
from ..sources import OwnSource
from . import c15, c17
from .c14 import classes

PROP = 'C16'
RULE = ('a case mounts one to four generated sources (dicts, null, native, JSON, configuration, union) under random keys and maps a form '
        'with fields for mounted and for other keys; contents and errors are compared with mapping each source alone; it '
        'counts when at least two sources are mounted or an error lies below a mount; distinct by (schema, sources)')

NATIVE = S.Gen(depth=2, callables=False, srcs=False, wide=False)
JSON = S.Gen(flavor='json', depth=2, callables=False, srcs=False, wide=False)
KEYS = ['a', 'b', 'body', 'query', 'x', 'path', 'items', 'get', 'A', 'srcs']


def where(key, location, keys):
    """Text of a path within a mount."""
    if not keys:
        return '@' + key
    rest = S.path_text(keys)
    if location:
        rest = location + ':' + rest
    return '@{0}:{1}'.format(key, rest)


def relative(errors, n):
    return [(type(e).__name__, [p.key for p in e.path.parts][n:]) for e in errors]


def fill(d, spec, kind):
    """A raw value the spec may map."""
    raw = spec.raw(d, d.choice([0, 25, 60]), 'native' if kind == 'native' else 'json')
    if kind == 'dict' and not isinstance(raw, dict):
        raw = d.choice([None, {}, {'a': 1}])
    return raw


def mounts(d):
    keys = d.sample(KEYS, d.int(1, 5))
    ns, plan, srcs = {}, [], {}
    for key in keys:
        kind = d.choice(['dict', 'native', 'json', 'union', 'own'])
        g = NATIVE if kind in ('native', 'dict') else JSON
        if kind in ('dict', 'union') or d.bool():
            spec = S.finish_options(d, g, S.Sub(S.draw_form(d, g, 1)), 'field')
        else:
            spec = S.draw_field(d, g)
        location = None
        raw = S.ABSENT
        if d.p(85):
            if kind == 'union':
                raw = spec.form.raw(d, 25, 'json')
                srcs[key] = UnionSource([raw])
            else:
                raw = fill(d, spec, kind)
                if kind == 'json':
                    if not S.jsonable(raw):
                        raw = 'text'
                    location = d.choice([None, 'file.json'])
                    srcs[key] = JsonSource(json.dumps(raw), location=location)
                elif kind in ('native', 'own'):
                    location = d.choice([None, 'here'])
                    srcs[key] = (DefaultSource if kind == 'native' else OwnSource)(raw, location=location)
                else:
                    srcs[key] = raw
        name = 'f{0}'.format(len(plan))
        plan.append((name, key, spec, kind, raw, location))
    for name, key, spec, kind, raw, location in plan:
        spec.src = key
        ns[name] = spec.build()
    for i in range(d.int(0, 2)):
        k = d.choice(['other', 'more', 'unused'])
        srcs.setdefault(k, {'z': 1})
    # keys like those that are mounted
    near = []
    for i in range(d.choice([0, 0, 1, 2])):
        key = d.choice(sorted(srcs) or ['a'])
        k = d.choice([key + '.z', key + '.a', key + '()', key + ' ', key.swapcase(), '@' + key, key + ':', key[:-1], key + key, 0, '', '.', 'paths'])
        if k in srcs:
            continue
        near.append((k, d.choice([None, 'default', 0])))
        ns['near{0}'.format(i)] = d.choice([pf.Field, pf.Integer, pf.String, pf.UUID])(src=k, default=near[-1][1])
    cls = type('Root', (pilo.Form,), ns)
    d.note('fields', [(n, k, s, kind, raw) for n, k, s, kind, raw, _l in plan])
    d.note('mounted', sorted(srcs))
    d.note('keys that are not', near)
    source = MountSource(**srcs)
    want, werrors = {}, []
    for name, key, spec, kind, raw, location in plan:
        # alone: under the same key, in a source of the same kind
        one = type('One', (pilo.Form,), {name: getattr(cls, name).clone()})
        if raw is S.ABSENT:
            alone = {}
        elif kind == 'json':
            alone = JsonSource(json.dumps({key: raw}))
        elif kind == 'union':
            alone = UnionSource([{key: raw}])
        else:
            alone = {key: raw}
        form, errors = S.outcome(one, alone)
        want.update(form)
        for t, ks in relative(errors, 1):
            werrors.append((t, where(key, location, ks)))
        if isinstance(spec, S.Sub) and isinstance(raw, dict) and not spec.flat:
            # and as its own root
            src = srcs[key]
            direct, derrors = S.outcome(spec.form.build(), src, unmapped=spec.unmapped or 'ignore')
            mine = [(t, ks) for t, ks in relative(errors, 1)]
            if [(t, ks) for t, ks in relative(derrors, 0)] != mine:
                raise Violation('{0} alone: {1!r}, or {2!r}'.format(key, derrors, mine))
    got, errors = S.outcome(cls, source)
    have = S.error_list(errors)
    if have != werrors:
        raise Violation('errors {0!r} instead of {1!r}'.format(have, werrors))
    for name in [n for n in ns if n.startswith('near')]:
        value = got.pop(name, 'nothing')
        if value is not getattr(cls, name).default:
            raise Violation('{0} is {1!r}'.format(name, value))
    r = S.differs(S.plain(got), S.plain(want)) or classes(dict(got), want)
    if r:
        raise Violation(r)
    deep = any(':' in p for _, p in werrors)
    if len(srcs) > 1 or deep:
        d.nontrivial((repr(plan), sorted(srcs)))
    if deep:
        d.label('error below a mount')


def refused(d):
    """Only sources can be mounted."""
    bad = d.choice([1, 'text', [1], (1,), 2.5, True, object])
    try:
        MountSource(a={'x': 1}, b=bad)
    except TypeError:
        return
    raise Violation('mounted {0!r}'.format(bad))


def configs(d):
    """Configurations, and unions of them, mounted among others."""
    ns, plan, srcs = {}, [], {}
    for key in d.sample(KEYS, d.int(1, 3)):
        form, source, location, note = c15.draw_layers(d)
        spec = S.Sub(form)
        spec.src = key
        name = 'f{0}'.format(len(plan))
        ns[name] = spec.build()
        plan.append((name, key, source, location, note, form))
        srcs[key] = source
    if d.bool():
        srcs['plain'] = {'x': 5}
        ns['plain'] = pf.SubForm(type('P', (pilo.Form,), dict(x=pf.Integer())))
    cls = type('Root', (pilo.Form,), ns)
    d.note('mounted', [(p[1], p[4], p[5]) for p in plan])
    for again in range(2):
        got, errors = S.outcome(cls, MountSource(**srcs))
        werrors = []
        for name, key, source, location, note, form in plan:
            alone, ones = S.outcome(getattr(cls, name).form_type, source)
            for e in ones:
                keys = [p.key for p in e.path.parts]
                werrors.append((type(e).__name__, where(key, location, keys)))
            if ones:
                if name in got:
                    raise Violation('{0} is in the form with errors'.format(name))
                continue
            if name not in got:
                raise Violation('{0} is not in the form'.format(name))
            r = S.differs(S.plain(got[name]), S.plain(alone)) or classes(dict(got[name]), dict(alone))
            if r:
                raise Violation('{0}: {1}'.format(name, r))
        have = S.error_list(errors)
        if have != werrors:
            raise Violation('errors {0!r} instead of {1!r}'.format(have, werrors))
        if 'plain' in srcs and got['plain'] != {'x': 5}:
            raise Violation('plain is {0!r}'.format(got.get('plain')))
    if len(srcs) > 1 or werrors:
        d.nontrivial(repr([(p[1], p[4], p[5]) for p in plan]))
    if werrors:
        d.label('error below a mounted configuration')


def paths(d):
    """Paths into mounts and their copies, each walked on its own."""
    trees = dict((k, tree(d, 2)) for k in d.sample(KEYS, d.int(1, 3)))
    locations = dict((k, d.choice([None, None, 'here'])) for k in trees)
    source = MountSource(**dict((k, DefaultSource(t, location=locations[k])) for k, t in trees.items()))
    real, model = [source.path()], [[]]
    d.note('mounted', trees)
    done = []
    for i in range(d.int(2, 12)):
        j = d.n(len(real) - 1)
        path, keys = real[j], model[j]
        what = d.choice(['append', 'append', 'append', 'pop', 'copy'])
        if what == 'append':
            here = trees if not keys else lookup(trees, keys)
            known = sorted(here) if isinstance(here, dict) else list(range(len(here))) if isinstance(here, list) else []
            key = d.choice(known) if known and d.p(75) else d.choice(['none', 'q'])
            path.append(key)
            keys.append(key)
            done.append((j, key))
        elif what == 'pop' and keys:
            path.pop()
            keys.pop()
            done.append((j, 'pop'))
        elif what == 'copy':
            real.append(copy.copy(path))
            model.append(list(keys))
            done.append((j, 'copy'))
        d.note('done', done)
        for path, keys in zip(real, model):
            if [p.key for p in path] != keys or len(path) != len(keys):
                raise Violation('the keys {0!r} instead of {1!r}'.format([p.key for p in path], keys))
            if not keys:
                continue
            text = where(keys[0], locations.get(keys[0]), keys[1:])
            if str(path) != text:
                raise Violation('the path {0!r} instead of {1!r}'.format(str(path), text))
            want = lookup(trees, keys)
            if path.exists != (want is not S.ABSENT):
                raise Violation('{0} {1}'.format(path, 'exists' if path.exists else 'does not exist'))
            if want is not S.ABSENT and (path.is_null != (want is None) or path.primitive() != want):
                raise Violation('{0} is {1!r} instead of {2!r}'.format(path, path.primitive(), want))
    if len(real) > 1:
        d.nontrivial((repr(trees), repr(done)))


def tree(d, depth):
    out = {}
    for k in d.sample(['a', 'b', 'c'], d.int(0, 3)):
        kind = d.weighted((4, 0), (2, 1 if depth else 0), (1, 2))
        out[k] = [lambda: d.choice([1, 'x', None, False]), lambda: tree(d, depth - 1), lambda: [1, None, {'a': 2}]][kind]()
    return out


def lookup(value, keys):
    for key in keys:
        try:
            value = value[key]
        except (KeyError, IndexError, TypeError):
            return S.ABSENT
    return value


TESTS = [
    ('configs', configs, 1200, 30000),
    ('paths', paths, 1200, 30000),
    ('mounts', mounts, 5000, 120000),
    ('refused', refused, 40, 40),
]
