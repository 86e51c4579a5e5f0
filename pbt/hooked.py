"""
Form classes with hooks on everything, whose hooks report to the current `World` of the thread.
A World may fail any hook invocation, schedule threads at hooks, or look at the context there.
"""
import re
import threading

import pilo
from pilo import ctx, fields as pf

from . import gen

_local = threading.local()


def world():
    return _local.world


def enter(w):
    _local.world = w


class Abort(BaseException):
    """An exception nothing handles."""


class Boom(Exception):
    pass


NAMES = ['src', 'src_path', 'form', 'errors', 'field', 'parent', 'ignore_default', 'ignore_missing', 'tags',
         'user1', 'user2']


class Gone(object):

    def __repr__(self):
        return 'not set'


GONE = Gone()


def look():
    """What the context shows: identities of variables, and the text and keys of the path."""
    out = {}
    for n in NAMES:
        out[n] = getattr(ctx, n, GONE)
    p = out['src_path']
    text = None if p is None else (str(p), tuple(str(part.key) for part in p), len(p))
    out['values'] = [tuple(ctx.values_for('user1')), tuple(ctx.values_for('user2'))]
    return out, text


def unlike(a, b):
    """What differs between two looks, or None."""
    for n in NAMES:
        if a[0][n] is not b[0][n]:
            return 'ctx.{0} was {1!r}, is {2!r}'.format(n, a[0][n], b[0][n])
    if a[1] != b[1]:
        return 'the source path was {0!r}, is {1!r}'.format(a[1], b[1])
    if a[0]['values'] != b[0]['values']:
        return 'variables were {0!r}, are {1!r}'.format(a[0]['values'], b[0]['values'])
    return None


class World(object):

    def __init__(self, fault=None, exc=None):
        self.n = 0
        self.fault, self.exc = fault, exc
        self.log = []
        self.problem = None
        self.vars = None

    def tick(self, form, where):
        self.n += 1
        self.log.append(where)
        if self.n == self.fault:
            raise self.exc()


class Inner(pilo.Form):
    """Mapped by hooks."""

    p = pf.Integer()
    q = pf.List(pf.Integer(), default=list)

    @q.munge
    def q(self, value):
        world().tick(self, 'Inner.q.munge')
        return value + [self.p]


class Failing(pilo.Form):

    p = pf.Integer()

    @p.validate
    def p(self, value):
        world().tick(self, 'Failing.p.validate')
        return True


def act(kind, form, other):
    """What a hook does besides; the context is as before afterwards, even if that raises."""
    before = look()
    try:
        _act(kind, form, other)
    finally:
        bad = unlike(before, look())
        if bad and world().problem is None:
            world().problem = 'after {0!r} within a hook: {1}'.format(kind, bad)


def _act(kind, form, other):
    if kind == 'inner':
        Inner(p=1, q=[2])
    elif kind == 'reset':
        with ctx.reset():
            Inner({'p': 3})
    elif kind == 'failing':
        try:
            Failing(p='x')
        except ValueError:
            pass
    elif kind == 'failing map':
        try:
            Inner().map({'p': 'x', 'q': [1, 'y']}, error='raise')
        except ValueError:
            pass
    elif kind == 'collect':
        Inner().map({'q': 5})
    elif kind == 'read' and other is not None:
        getattr(form, other)
    elif kind == 'try read' and other is not None:
        try:
            getattr(form, other)
        except (AttributeError, ValueError):
            pass
    elif kind == 'vars':
        with ctx(user1='inside', extra=1):
            pass
    elif kind == 'demand':
        try:
            Inner().p
        except (AttributeError, ValueError):
            pass
    elif kind == 'guarded':
        try:
            Inner({'p': 1, 'q': [2, 3]})
        except Exception:
            pass
    elif kind == 'guarded read' and other is not None:
        try:
            getattr(form, other)
        except Exception:
            pass


ACTS = ['none', 'none', 'none', 'read', 'read', 'try read', 'inner', 'failing', 'failing map', 'collect', 'reset',
        'vars', 'demand', 'guarded', 'guarded read']


def add_hooks(d, field, name, others, p=25, acts=ACTS, lossy=True, resolve=True):
    """Registers random hooks on a field that is not attached yet; returns their names."""
    made = []

    def plan(hook):
        if not d.p(p):
            return None
        made.append(hook)
        return d.choice(acts), (d.choice(others) if others else None), '{0}.{1}'.format(name, hook)

    a = plan('munge')
    if a:
        field.munge(_munge(a))
    a = plan('validate')
    if a:
        field.validate(_validate(a))
    a = plan('filter')
    if a:
        field.filter(_filter(a, lossy and d.p(20)))
    if isinstance(field.default, pf.Hook):
        a = plan('default')
        if a:
            field.default(_default(a))
    if not isinstance(field, (pf.List, pf.Dict, pf.Tuple, pf.SubForm, pf.Group)):
        a = plan('parse')
        if a:
            field.parse(_parse(a))
        elif d.p(p // 3):
            made.append('compute')
            field.compute(_compute(('none', None, name + '.compute')))
    if resolve and d.p(p // 3):
        made.append('resolve')
        field.resolve(_resolve(name + '.resolve', d.choice(['a', 'b', 'c'])))
    if isinstance(field, pf.Dict) and d.p(p):
        made.append('key_filter')
        field.key_filter(_key_filter(name + '.key_filter'))
    return made


def _run(form, a):
    world().tick(form, a[2])
    act(a[0], form, a[1])


def _munge(a):
    def munge(self, value):
        _run(self, a)
        return value
    return munge


def _validate(a):
    def validate(self, value):
        _run(self, a)
        return True
    return validate


def _filter(a, drop):
    def filter(self, value):
        _run(self, a)
        return not drop
    return filter


def _default(a):
    def default(self):
        _run(self, a)
        return 5
    return default


def _parse(a):
    def parse(self, path):
        _run(self, a)
        return path.primitive(int)
    return parse


def _compute(a):
    def compute(self):
        _run(self, a)
        return 3
    return compute


def _resolve(where, key):
    def resolve(self):
        world().tick(self, where)
        return ctx(src=key)
    return resolve


def _key_filter(where):
    def key_filter(self, key):
        world().tick(self, where)
        return key != 'b'
    return key_filter


def draw_class(d, depth=2, p=25, acts=ACTS, lossy=True):
    """(form class, number of hooks)."""
    names = gen.names(d, d.int(1, 4))
    rank = d.shuffled(names)
    ns, hooks = {}, []
    for name in names:
        others = rank[:rank.index(name)]
        f = draw_field(d, name, others, depth, p, acts, lossy, hooks)
        ns[name] = f
    return type('H', (pilo.Form,), ns), hooks


def draw_field(d, name, others, depth, p, acts, lossy, hooks, item=False):
    k = d.n(9 if item else 12)
    opts = {}
    if k == 10:
        items = [draw_field(d, name + '~' + x, others, 0, p, acts, lossy, hooks, True) for x in ('g', 'h')]
        f = pf.Group([(re.compile('g([a-z]+)$'), items[0]), ('hh', items[1])])
        hooks += add_hooks(d, f, name, others, p, acts, lossy, resolve=False)
        return f
    if not item and d.p(40):
        opts['default'] = d.choice([None, 4, pilo.NONE])
    if k < 5 or depth <= 0:
        f = d.choice([pf.Integer, pf.Integer, pf.Field])(**opts)
    elif k < 6:
        f = pf.List(draw_field(d, name + '[]', others, depth - 1, p, acts, lossy, hooks, True), **opts)
    elif k < 7:
        key = pf.String()
        hooks += add_hooks(d, key, name + '.key', others, p // 2, acts, lossy, resolve=False)
        f = pf.Dict(key, draw_field(d, name + '{}', others, depth - 1, p, acts, lossy, hooks, True), **opts)
    elif k < 8:
        f = pf.Tuple([draw_field(d, name + '()', others, depth - 1, p, acts, lossy, hooks, True)
                      for _ in range(d.int(1, 2))], **opts)
    elif k > 10:
        f = pf.PolymorphicSubForm(draw_kinds(d, name, p, acts, lossy, hooks), **opts)
    else:
        cls, hs = draw_class(d, depth - 1, p, acts, lossy)
        hooks += hs
        f = pf.SubForm(cls, **opts)
    hooks += add_hooks(d, f, name, others, p, acts, lossy, resolve=not item)
    return f


def draw_kinds(d, name, p, acts, lossy, hooks):
    """Type field of a small hierarchy."""
    def own(n):
        return draw_field(d, '{0}.{1}'.format(name, n), [], 0, p, acts, lossy, hooks, True)

    base = type('Base', (pilo.Form,), dict(code=pf.Integer(default=0), kind=pf.Type.abstract()))
    if d.p(p):
        hooks.append('kind.munge')
        base.kind.munge(_munge(('none', None, name + '.kind.munge')))
    # classes are only known to their base as long as something refers to them
    base.keep = [type('A', (base,), dict(kind=pf.Type.instance('a'), x=own('x'))),
                 type('B', (base,), dict(kind=pf.Type.instance('b', 'c'), y=own('y')))]
    return base.kind


def data_for(d, f, bad=10):
    """A raw value for a field built here."""
    if d.p(bad):
        return d.choice([None, 'x', {}, [], 1.5, {'a': 1}, [1, 'x']])
    if isinstance(f, pf.List):
        return [data_for(d, f.field, bad) for _ in range(d.size(0, 3))]
    if isinstance(f, pf.Dict):
        return dict((k, data_for(d, f.value_field, bad)) for k in d.sample(['a', 'b', 'c', 'k'], d.size(0, 3)))
    if isinstance(f, pf.Tuple):
        return [data_for(d, x, bad) for x in f.fields]
    if isinstance(f, pf.SubForm):
        return form_data(d, f.form_type, bad)
    if isinstance(f, pf.PolymorphicSubForm):
        out = {'kind': d.choice(['a', 'b', 'c', 'a', 'b', 'a', 'b', 'zz', None, 3]), 'x': d.int(0, 9), 'y': d.int(0, 9)}
        if d.p(bad):
            del out[d.choice(['kind', 'x', 'y'])]
        if d.p(bad):
            out['code'] = d.choice([1, '2', 'q', []])
        return out
    return d.int(0, 9)


def form_data(d, cls, bad=10):
    out = {}
    for f in cls.fields:
        if d.p(15):
            continue
        if isinstance(f, pf.Group):
            for key in d.sample(['ga', 'gbb', 'hh', 'g1'], d.size(0, 3)):
                out[key] = data_for(d, f.fields[0][1], bad)
            continue
        out[f.src if isinstance(f.src, str) else f.name] = data_for(d, f, bad)
    return out
