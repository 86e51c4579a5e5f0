"""C24: a mapped form maps to itself."""
import json

import pilo
from pilo import fields as pf
from pilo.source import DefaultSource, JsonSource, MountSource, UnionSource

from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for
from . import c18

PROP = 'C24'
RULE = ('a case maps a hook-free form that is valid for the data, then maps the result again - as form, dict, native source, '
        'copy, keywords, part of another form - and again that result, in between other mappings, comparing contents and '
        'types with the first result; it counts when the first mapping changed something (a text parsed, a default used, a '
        'form made); distinct by (schema, data)')

CALLS = [('call', list, list), ('call', dict, dict)]


def settle(d, s, flavor):
    """Options under which the field's own values are values of the field."""
    s.translations = {}
    if isinstance(s, S.Sub):
        s.flat = False
        settle_form(d, s.form, flavor)
    elif isinstance(s, S.List):
        settle(d, s.item, flavor)
    elif isinstance(s, S.Tup):
        for i in s.items:
            settle(d, i, flavor)
    elif isinstance(s, S.Map):
        settle(d, s.key, flavor)
        settle(d, s.value, flavor)
    if s.default[0] == 'lit':
        # one that meets the constraints
        cx = S.Cx('native')
        try:
            v = s.map(cx, s.default[1])
        except Exception:
            v = S.DROP
        if cx.errors or v is S.DROP or v is S.NONE or S.differs(v, s.default[1]):
            s.default = S.OPTIONAL
    elif s.default[0] in ('call', 'hook'):
        s.default = S.OPTIONAL
    return s


def settle_form(d, f, flavor):
    for _, s in f.fields:
        settle(d, s, flavor)
    return f


def tree(v):
    """Everything about a mapped value."""
    if isinstance(v, dict):
        return (type(v), sorted(((k, tree(dict.__getitem__(v, k))) for k in dict.__iter__(v)), key=repr))
    if isinstance(v, (list, tuple)):
        return (type(v), [tree(x) for x in v])
    return (type(v), repr(v))


def diff(a, b):
    if tree(a) != tree(b):
        raise Violation('{0!r} mapped again is {1!r}'.format(a, b))


def plain(v):
    if isinstance(v, dict):
        return dict((k, plain(dict.__getitem__(v, k))) for k in dict.__iter__(v))
    if isinstance(v, list):
        return [plain(x) for x in v]
    if type(v) is tuple:
        return tuple(plain(x) for x in v)
    return v


def forms(v):
    """The forms in a mapped value."""
    out = [v] if isinstance(v, pilo.Form) else []
    if isinstance(v, dict):
        v = [dict.__getitem__(v, k) for k in dict.__iter__(v)]
    if isinstance(v, (list, tuple)):
        for x in v:
            out += forms(x)
    return out


def ways(form):
    cls = type(form)
    yield 'form', form
    yield 'dict', dict(form)
    yield 'plain', plain(form)
    yield 'copy', form.copy()
    yield 'source', DefaultSource(form)
    yield 'plain source', DefaultSource(plain(form))


def again(d, cls, form, unmapped, depth):
    """Maps the result in each way."""
    want = form
    snapshot = tree(form)
    for how, src in ways(form):
        if how != 'form' and d.p(40):
            continue
        new = cls()
        kw = {'unmapped': unmapped} if unmapped else {}
        try:
            errors = new.map(src, **kw)
        except Exception as ex:
            raise Violation('as {0}: {1!r}'.format(how, ex))
        if errors:
            raise Violation('as {0}: {1!r}'.format(how, [str(e) for e in errors]))
        try:
            diff(want, new)
        except Violation as ex:
            raise Violation('as {0}: {1}'.format(how, ex))
        if tree(form) != snapshot:
            raise Violation('as {0}: the original became {1!r}'.format(how, form))
        if not (new == form):
            raise Violation('as {0}: {1!r} != {2!r}'.format(how, new, form))
        shared = set(map(id, forms(new))) & set(map(id, forms(form)))
        if shared:
            raise Violation('as {0}: {1} of the forms are those of the original'.format(how, len(shared)))
        if depth and d.p(20):
            again(d, cls, new, unmapped, depth - 1)
    if not unmapped:
        # building, and mapping into the same instance
        k = d.n(3)
        if k == 0:
            diff(want, cls(form))
        elif k == 1 and all(n.isidentifier() for n in form) and form:
            diff(want, cls(**dict(form)))
        elif k == 2:
            errors = form.map(dict(form))
            if errors or tree(form) != snapshot:
                raise Violation('into itself: {0!r} {1!r}'.format(form, errors))
        elif form:
            outer = type('Outer', (pilo.Form,), {'one': pf.SubForm(cls), 'many': pf.List(cls)})
            o, errors = S.outcome(outer, {'one': form, 'many': [form, dict(form)]})
            if errors:
                raise Violation('nested: {0!r}'.format(errors))
            diff(want, o['one'])
            diff(want, o['many'][0])
            diff(want, o['many'][1])


def remap(d):
    flavor = d.choice(['native', 'json'])
    g = S.Gen(flavor=flavor, depth=2, srcs=False, callables=False)
    form = settle_form(d, S.draw_form(d, g), flavor)
    unmapped = 'capture' if d.p(15) else None
    raws = []
    for _ in range(12):
        raw = form.raw(d, 0 if d.p(70) else 10, flavor)
        cx = S.Cx(flavor)
        want = form.map(cx, raw)
        if not cx.errors:
            break
    else:
        d.label('no valid data')
        return
    other = form.raw(d, 30, flavor)
    cls = form.build()
    d.note('form', form)
    d.note('data', raw)
    first = cls()
    kw = {'unmapped': unmapped} if unmapped else {}
    errors = first.map(source_for(d, flavor, raw), **kw)
    if errors:
        raise Violation('{0!r}'.format(errors))
    kept = tree(first)
    again(d, cls, first, unmapped, 1)
    # another instance, after other mappings
    if d.bool():
        S.outcome(cls, source_for(d, flavor, other))
    if d.bool():
        S.outcome(cls, {})
    second = cls()
    errors = second.map(source_for(d, flavor, raw), **kw)
    if errors:
        raise Violation('a second mapping: {0!r}'.format(errors))
    diff(first, second)
    if tree(first) != kept:
        raise Violation('the first form became {0!r}'.format(first))
    if tree(dict(first)) != tree(raw):
        d.nontrivial((repr(form), repr(raw)))
    if unmapped:
        d.label('captured')


def poly(d):
    """With polymorphic sub-forms."""
    flavor = d.choice(['native', 'json'])
    t = c18.Tree(d, c18.G if flavor == 'native' else c18.GJ, flavor)
    if t.src is not None or t.computed:
        return
    for n in t.root.below():
        for name, s in n.form.fields:
            if not isinstance(s, (c18.Kind, c18.Poly)):
                # built already: only those whose values are their own
                if s.translations or s.ignores or s.default[0] == 'lit' or isinstance(s, S.Sub) and s.flat:
                    return
                for x in S.walk(s):
                    if x.translations or x.default[0] == 'lit' or x.src:
                        return
    p = c18.Poly(t)
    form = S.Form([('p', p), ('many', S.List(p))])
    for _ in range(6):
        raw = form.raw(d, 0, flavor)
        cx = S.Cx(flavor)
        form.map(cx, raw)
        if not cx.errors:
            break
    else:
        return
    cls = form.build()
    d.note('hierarchy', t.shape())
    d.note('data', raw)
    first, errors = S.outcome(cls, source_for(d, flavor, raw))
    if errors:
        raise Violation('{0!r}'.format(errors))
    again(d, cls, first, None, 1)
    d.nontrivial((t.shape(), repr(raw)))


TESTS = [
    ('remap', remap, 3500, 80000),
    ('poly', poly, 600, 20000),
]
