"""C26: what a source key finds in native data."""
import collections
import datetime

import pilo
from pilo import ctx, fields as pf
from pilo.source import DefaultSource

from .. import gen, spec as S
from ..engine import Violation

PROP = 'C26'
RULE = ('a case builds a tree of mappings, sequences, attribute objects and functions with plain, dotted, call-like and '
        'method-named keys, and looks up generated keys in it through fields (nested, in lists, as envelopes), through '
        'context paths and with aliases and ignored keys; what is found is compared by identity with an independent lookup; '
        'it counts when a key is dotted, a call, a method name, an attribute, an alias or ignored; distinct by (tree, keys)')

ATOMS = ['a', 'b', 'c', 'x', 'items', 'keys', 'count', 'index', 'pop', 'get', 'copy', 'real', 'f', '0', '', 'upper', 'year',
         'append', 'extra', 'values', 'x_', 'X', 'ab', 'a_', 'xs']
POINT = collections.namedtuple('Point', 'x count b')


class Bag(dict):
    """A mapping with attributes."""


class Frozen(collections.abc.Mapping):
    """A mapping that is not a dict."""

    def __init__(self, data):
        self._data = data

    def __getitem__(self, key):
        return self._data[key]

    def __iter__(self):
        return iter(self._data)

    def __len__(self):
        return len(self._data)

    def __repr__(self):
        return 'Frozen({0!r})'.format(self._data)


class Obj(object):

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Obj({0!r})'.format(self.__dict__)


class Slots(object):

    __slots__ = ('a', 'x', 'items')

    def __repr__(self):
        return 'Slots()'


class Fn(object):
    """A function, as value; counts its calls."""

    def __init__(self, result):
        self.result = result
        self.calls = 0

    def __call__(self):
        self.calls += 1
        return self.result

    def __repr__(self):
        return 'Fn({0!r})'.format(self.result)


class Made(list):
    """A class, as value."""

    def __init__(self):
        list.__init__(self, [71, 72])


def leaf(d):
    k = d.n(9)
    if d.p(4):
        return Made
    if k < 4:
        return d.int(1000, 9999)
    if k < 6:
        return d.choice(['text', 'abc', ''])
    if k < 7:
        return None
    if k < 8:
        return d.choice([2.5, True, 0, False])
    if k < 9:
        return datetime.date(2000 + d.n(20), 1, 2)
    return [d.int(1, 9)]


def key(d, deep=True):
    k = d.n(11)
    if k < 6 or not deep:
        return d.choice(ATOMS[:5] if d.bool() else ATOMS)
    if k < 9:
        return '.'.join(d.choice(ATOMS[:5] if d.p(70) else ATOMS) for _ in range(d.weighted((8, 2), (2, 3), (1, 4), (1, 5))))
    if k < 10:
        return d.choice(['a', 'b', 'f', 'x', 'keys', 'a.f', 'a.keys', 'x.a', 'f()']) + '()'
    return d.choice(['.', 'a.', '.a', 'a..b', '()', 'a.b()', 'a.0', 'a().b', '..'])


def attr_name(d):
    k = d.choice(ATOMS)
    return k if k.isidentifier() else 'a'


def tree(d, depth):
    k = d.n(11)
    if depth <= 0 or k == 0:
        return leaf(d)
    if k < 6:
        out = d.choice([dict, dict, Bag, collections.OrderedDict])()
        for _ in range(d.size(0, 5)):
            out[key(d)] = tree(d, depth - 1)
        if type(out) is Bag:
            for _ in range(d.int(1, 2)):
                n = attr_name(d)
                if n not in ('items', 'keys', 'values', 'get', 'pop', 'copy'):
                    setattr(out, n, tree(d, depth - 1))
        if d.p(10):
            return Frozen(dict(out))
        return out
    if k < 7:
        return [tree(d, depth - 1) for _ in range(d.size(0, 3))]
    if k < 8:
        return tuple(tree(d, depth - 1) for _ in range(d.size(0, 3)))
    if k < 9:
        o = Obj()
        for _ in range(d.int(1, 4)):
            setattr(o, attr_name(d), tree(d, depth - 1))
        return o
    if k < 10:
        if d.bool():
            return POINT(tree(d, depth - 1), tree(d, depth - 1), leaf(d))
        o = Slots()
        for n in d.sample(['a', 'x', 'items'], d.int(0, 3)):
            setattr(o, n, tree(d, depth - 1))
        return o
    return Fn(tree(d, depth - 1))


class Lookup(object):
    """The property's own reading of keys."""

    def __init__(self, aliases=None, ignores=()):
        self.aliases = aliases or {}
        self.ignores = [i.split('.') for i in ignores]
        self.used = set()
        self.calls = []

    def item(self, c, k):
        if isinstance(c, type):
            raise S.Unpinned()
        if isinstance(c, (dict, Frozen)):
            for x in (c if isinstance(c, dict) else c._data):
                if x == k and type(x) is type(k):
                    return (c if isinstance(c, dict) else c._data)[x]
        elif isinstance(c, (list, tuple)) and type(k) is int:
            if -len(c) <= k < len(c):
                return c[k]
        elif isinstance(c, str) and type(k) is int and -len(c) <= k < len(c):
            return c[k]
        return S.ABSENT

    def attr(self, c, k, call=False):
        if not isinstance(k, str):
            return S.ABSENT
        if isinstance(c, tuple) and hasattr(c, '_fields'):
            if k in c._fields:
                self.used.add('attribute')
                return tuple.__getitem__(c, c._fields.index(k))
            if not call:
                return S.ABSENT
        if isinstance(c, Slots) or isinstance(c, (Obj, Bag)) and k in c.__dict__:
            if hasattr(c, k):
                self.used.add('attribute')
                return getattr(c, k)
            return S.ABSENT
        if isinstance(c, Obj):
            return S.ABSENT
        if isinstance(c, Fn):
            if k in c.__dict__:
                raise S.Unpinned()
            return S.ABSENT
        if isinstance(c, (int, float, datetime.date)) and not isinstance(c, type):
            v = getattr(c, k, S.ABSENT)
            if v is S.ABSENT or not callable(v):
                return v
            raise S.Unpinned()
        if hasattr(c, k):
            self.used.add('method name')
            if call:
                return getattr(c, k)
        return S.ABSENT

    def step(self, c, k, top, call=False):
        v = self.item(c, k)
        if v is S.ABSENT and top and k in self.aliases:
            v = self.item(c, self.aliases[k])
            if v is not S.ABSENT:
                self.used.add('alias')
        if v is S.ABSENT:
            v = self.attr(c, k, call)
        return v

    def find(self, c, k, path):
        """The value that key `k` denotes in `c`, at `path` (which ends with `k`)."""
        if list(path) in self.ignores:
            self.used.add('ignored')
            return S.ABSENT
        return self._find(c, k, len(path) == 1)

    def _find(self, c, k, top, call=False):
        if isinstance(k, str) and k.endswith('()'):
            v = self.item(c, k)
            if v is not S.ABSENT:
                self.used.add('literal call')
                return v
            v = self._find(c, k[:-2], top, True)
            if v is S.ABSENT:
                return v
            self.used.add('call')
            if isinstance(v, Fn):
                self.calls.append(v)
                return v.result
            if v is Made:
                return ('called', v)
            if callable(v):
                # a method of a container
                if k[:-2].split('.')[-1] in ('keys', 'values', 'items', 'copy', 'upper'):
                    return ('called', v)
                raise S.Unpinned()
            return S.ABSENT
        v = self.step(c, k, top, call)
        if v is S.ABSENT and isinstance(k, str) and '.' in k:
            self.used.add('dotted')
            v = c
            for i, atom in enumerate(k.split('.')):
                if i and top and atom in self.aliases:
                    raise S.Unpinned()
                last = i == k.count('.')
                if call and not last and self.step(v, atom, top) is S.ABSENT:
                    if self.step(v, atom, top, True) is not S.ABSENT:
                        raise S.Unpinned()
                    return S.ABSENT
                v = self.step(v, atom, top, call and last)
                if v is S.ABSENT:
                    break
        elif v is not S.ABSENT and isinstance(k, str) and '.' in k:
            self.used.add('literal dotted')
        return v


def same(got, want):
    if isinstance(want, tuple) and len(want) == 2 and want[0] == 'called':
        v = want[1]()
        if type(got) is not type(v):
            return False
        return list(got) == list(v) if not isinstance(v, str) else got == v
    return got is want or type(got) is type(want) and isinstance(want, (int, float, str, bool)) and got == want


def calls_of(v, seen=None, out=None):
    out = [] if out is None else out
    if isinstance(v, Fn):
        out.append(v)
        calls_of(v.result, seen, out)
    elif isinstance(v, (dict, Frozen)):
        for x in dict(v).values():
            calls_of(x, seen, out)
        for x in getattr(v, '__dict__', {}).values():
            if not isinstance(v, Frozen):
                calls_of(x, seen, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            calls_of(x, seen, out)
    elif isinstance(v, Obj):
        for x in v.__dict__.values():
            calls_of(x, seen, out)
    elif isinstance(v, Slots):
        for n in v.__slots__:
            if hasattr(v, n):
                calls_of(getattr(v, n), seen, out)
    return out


def chain(d):
    """A narrow, deep tree."""
    t = tree(d, 1)
    for _ in range(d.int(2, 6)):
        k = d.choice(ATOMS[:5])
        t = {k: t} if d.p(70) else Obj(**{k: t})
        if isinstance(t, dict) and d.p(30):
            t[key(d)] = leaf(d)
    return t


def root(d):
    while True:
        t = chain(d) if d.p(15) else tree(d, 3)
        if isinstance(t, (dict, Frozen)):
            return t
        t = {d.choice(ATOMS[:5]): t}
        t[key(d)] = tree(d, 2)
        return t


def draw_source(d, data):
    """(source, lookup)"""
    aliases, ignores = {}, []
    if d.p(30):
        keys = [k for k in dict(data)]
        for _ in range(d.int(1, 2)):
            aliases[d.choice(['al', 'other', 'a', 'b', 'al.x', 'al()', 'k'])] = \
                d.choice(keys) if keys and d.p(80) else d.choice(['a', 'nothing', 'b'])
    if d.p(30):
        for _ in range(d.int(1, 2)):
            found = walk(d, data) if d.p(30) else None
            ignores.append(found if found else d.choice(['a', 'b', 'x', 'a.b', 'a.a', 'a.x', 'x.b', 'al', 'items', 'a.b.c', 'f', 'c.a']))
    if not aliases and not ignores and isinstance(data, dict) and d.bool():
        return data, Lookup()
    src = DefaultSource(data, aliases=aliases or None, ignores=ignores or None)
    return src, Lookup(aliases, ignores)


def walk(d, data):
    """A dotted key that leads somewhere, unless a step is changed."""
    atoms = []
    while len(atoms) < 6:
        if isinstance(data, (dict, Frozen)):
            ks = [k for k in dict(data) if isinstance(k, str) and '.' not in k and not k.endswith('()')]
            if isinstance(data, Bag):
                ks += sorted(data.__dict__)
        elif isinstance(data, (Obj, Slots)):
            ks = [k for k in ATOMS if k.isidentifier() and hasattr(data, k)]
        else:
            ks = []
        if not ks or atoms and d.p(5):
            break
        k = d.choice(ks)
        atoms.append(k)
        if isinstance(data, (dict, Frozen)) and k in dict(data):
            data = data[k]
        else:
            data = getattr(data, k)
    if atoms and d.p(10):
        atoms[-1] = d.choice(ATOMS)
    return '.'.join(atoms) or 'a'


def field_key(d, lookup, data):
    if d.p(20):
        return walk(d, data)
    if lookup.aliases and d.p(40):
        return d.choice(sorted(lookup.aliases))
    if d.p(30) and isinstance(data, (dict, Frozen)):
        ks = [k for k in dict(data) if isinstance(k, str)]
        if ks:
            k = d.choice(ks)
            return k + ('()' if d.p(15) else '') + ('.' + d.choice(ATOMS) if d.p(20) else '')
    return key(d)


def pinned(lookup, k):
    """Whether the ignored keys say what to do with `k`."""
    for i in lookup.ignores:
        if '.'.join(i) == k and len(i) > 1 or k.split('.')[0] in i and k not in i or k.endswith('()') and k[:-2] in i:
            return False
    return True


class Plan(object):
    """Fields over a container."""

    def __init__(self, d, lookup, data, depth, path=()):
        self.d, self.lookup = d, lookup
        self.fields = []
        self.ns = {}
        used = set()
        for i in range(d.int(1, 4)):
            towards = [i for i in lookup.ignores if len(i) > len(path) and i[:len(path)] == list(path)]
            on = d.choice(towards) if towards and d.p(50) else None
            k = on[len(path)] if on else field_key(d, lookup, data)
            if k in used or not pinned(lookup, k):
                continue
            used.add(k)
            name = 'f%d' % i
            kind = 'any'
            sub = None
            on = on and len(on) > len(path) + 1
            if depth > 0 and (on or d.p(45)):
                n = 1 if on else d.n(3)
                kind = 'list' if n == 0 else 'sub'
                inner = {}
                try:
                    inner = lookup.find(data, k, path + (k,))
                except S.Unpinned:
                    pass
                if kind == 'list' and isinstance(inner, (list, tuple)) and inner:
                    inner = inner[0]
                sub = Plan(d, lookup, inner, depth - 1, path + (k,) + ((0,) if kind == 'list' else ()))
            elif d.p(8):
                kind = 'envelope'
            self.fields.append((name, k, kind, sub))
            self.ns[name] = self.make(k, kind, sub)
        if depth > 0 and d.p(20):
            sub = Plan(d, lookup, data, 0, path)
            self.fields.append(('env', None, 'flat', sub))
            self.ns['env'] = pf.SubForm(sub.cls(), flat=True) if d.bool() else pf.SubForm(sub.cls(), src=None)
        self._cls = None

    def make(self, k, kind, sub):
        if kind == 'any':
            return pf.Field(k)
        if kind == 'envelope':
            return pf.Field(src=None)
        f = pf.SubForm(sub.cls())
        if kind == 'list':
            return pf.List(k, f)
        return pf.SubForm(k, sub.cls())

    _cls = None

    def cls(self):
        if self._cls is None:
            self._cls = type('F', (pilo.Form,), self.ns)
        return self._cls

    def __repr__(self):
        return 'Plan({0!r})'.format([f for f in self.fields])

    def expect(self, data, path, errors, text):
        """{name: expected}; adds to errors."""
        out = {}
        for name, k, kind, sub in self.fields:
            if kind == 'envelope':
                out[name] = data
                continue
            if kind == 'flat':
                before = len(errors)
                v = sub.expect(data, path, errors, text)
                if len(errors) == before:
                    out[name] = v
                continue
            here = path + (k,)
            v = self.lookup.find(data, k, here)
            if v is S.ABSENT:
                errors.append(('Missing', S.path_text(here)))
                continue
            if v is None or kind == 'any':
                out[name] = v
                continue
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'called':
                raise S.Unpinned()
            if kind == 'sub':
                if not isinstance(v, (dict, Frozen)):
                    errors.append(('Invalid', S.path_text(here)))
                    continue
                before = len(errors)
                w = sub.expect(v, here, errors, text)
                if len(errors) == before:
                    out[name] = w
            else:
                if not isinstance(v, (list, tuple)):
                    errors.append(('Invalid', S.path_text(here)))
                    continue
                items = []
                for i, x in enumerate(v):
                    at = here + (i,)
                    if list(at) in self.lookup.ignores:
                        raise S.Unpinned()
                    if x is None:
                        items.append(None)
                        continue
                    if not isinstance(x, (dict, Frozen)):
                        errors.append(('Invalid', S.path_text(at)))
                        continue
                    before = len(errors)
                    w = sub.expect(x, at, errors, text)
                    if len(errors) == before:
                        items.append(w)
                out[name] = items
        return out

    def compare(self, form, want, at=''):
        if type(form) is not self.cls():
            raise Violation('{0}: {1!r} is not a form'.format(at, form))
        if sorted(form) != sorted(want):
            raise Violation('{0}: found {1!r} instead of {2!r}'.format(at, sorted(form), sorted(want)))
        for name, k, kind, sub in self.fields:
            if name not in want:
                continue
            v, w = dict.__getitem__(form, name), want[name]
            here = '{0}/{1}({2!r})'.format(at, name, k)
            if kind in ('any', 'envelope') or w is None:
                if not same(v, w):
                    raise Violation('{0}: {1!r} instead of {2!r}'.format(here, v, w))
            elif kind in ('sub', 'flat'):
                sub.compare(v, w, here)
            else:
                if type(v) is not list or len(v) != len(w):
                    raise Violation('{0}: {1!r} instead of {2!r}'.format(here, v, w))
                for a, b in zip(v, w):
                    if b is None:
                        if a is not None:
                            raise Violation('{0}: {1!r} instead of None'.format(here, a))
                    else:
                        sub.compare(a, b, here)


def fields(d):
    data = root(d)
    src, lookup = draw_source(d, data)
    plan = Plan(d, lookup, data, d.int(2, 3))
    d.note('data', data)
    d.note('aliases, ignores', (lookup.aliases, lookup.ignores))
    d.note('fields', plan)
    lookup.used, lookup.calls = set(), []
    errors = []
    fns = calls_of(data)
    want = plan.expect(data, (), errors, '')
    for f in fns:
        f.calls = 0
    form, got = S.outcome(plan.cls(), src)
    S.compare_errors(got, errors)
    plan.compare(form, want)
    for f in fns:
        n = sum(1 for c in lookup.calls if c is f)
        if f.calls != n:
            raise Violation('{0!r} was called {1} times instead of {2}'.format(f, f.calls, n))
    if lookup.used:
        d.nontrivial((repr(data), repr(plan), repr(lookup.aliases), repr(lookup.ignores)))
    for u in sorted(lookup.used):
        d.label(u)


def paths(d):
    """Through the context, resolving sooner or later."""
    data = root(d)
    src, lookup = draw_source(d, data)
    if not isinstance(src, pilo.Source):
        src = DefaultSource(src)
    keys = []
    at, path = data, ()
    log = []
    for _ in range(d.int(1, 4)):
        k = field_key(d, lookup, at)
        if isinstance(at, (list, tuple, str)) and d.bool():
            k = d.int(-1, 3)
        if isinstance(k, str) and not pinned(lookup, k):
            return
        path += (k,)
        at = S.ABSENT if at is S.ABSENT else lookup.find(at, k, path)
        if isinstance(at, tuple) and len(at) == 2 and at[0] == 'called':
            return
        log.append((k, at))
        if at is S.ABSENT and d.p(60):
            break
    looks = [d.bool() for _ in log]
    d.note('data', data)
    d.note('aliases, ignores', (lookup.aliases, lookup.ignores))
    d.note('steps', log)
    d.note('resolved at once', looks)

    def check(want):
        p = ctx.src_path
        if p.exists != (want is not S.ABSENT):
            raise Violation('{0}: exists {1!r}, not {2!r}'.format(p, p.exists, want))
        if want is not S.ABSENT and not same(p.value, want):
            raise Violation('{0}: {1!r} instead of {2!r}'.format(p, p.value, want))
        if p.is_null != (want is None):
            raise Violation('{0}: null {1!r}, not {2!r}'.format(p, p.is_null, want))

    def go(i):
        if i == len(log):
            return
        with ctx(src=log[i][0]):
            if looks[i]:
                check(log[i][1])
            go(i + 1)
            check(log[i][1])

    with ctx(src=src):
        go(0)
    if lookup.used:
        d.nontrivial((repr(data), repr(log), repr(lookup.aliases), repr(lookup.ignores)))
    for u in sorted(lookup.used):
        d.label(u)


def context(d):
    """Fields that take their value from the context."""
    names = d.sample(['user', 'place', 'x', 'limit', 'a'], 4)
    frames = []
    for _ in range(d.int(0, 3)):
        frames.append(dict((n, d.choice([1, 'v', None, {'x': 5, 'a.b': 6}, Obj(x=7, a=Obj(b=8)), [1, 2], 0]))
                           for n in d.sample(names, d.int(1, 3))))
    now = {}
    for f in frames:
        now.update(f)
    fs, ns, want, missing = [], {}, {}, []
    for i in range(d.int(1, 4)):
        base = d.choice(names)
        k = base + d.choice(['', '', '', '.x', '.a.b', '.nothing'])
        name = 'f%d' % i
        opt = d.n(2)
        fs.append((name, k, opt))
        f = pf.Field(k, default='dflt') if opt == 1 else pf.Field(k)
        ns[name] = f.from_context()
        v = S.ABSENT
        if base in now:
            lookup = Lookup()
            v = now[base]
            if k != base:
                rest = k[len(base) + 1:]
                # step by step below the variable
                v = lookup.find(v, rest, ('p', rest)) if rest.count('.') == 0 else _steps(lookup, v, rest)
        if v is not S.ABSENT:
            want[name] = v
        elif opt == 1:
            want[name] = 'dflt'
        else:
            missing.append(name)
    ns['own'] = pf.Field()
    want['own'] = 3
    cls = type('F', (pilo.Form,), ns)
    raw = {'own': 3}
    for n in names:
        if d.bool():
            raw[n] = 'not this'
    d.note('frames', frames)
    d.note('fields', fs)

    def go(i):
        if i == len(frames):
            form = cls()
            return form, form.map(raw)
        with ctx(**frames[i]):
            return go(i + 1)

    depth = len(ctx.stack)
    form, errors = go(0)
    if len(ctx.stack) != depth:
        raise Violation('frames were left')
    kinds = [type(e).__name__ for e in errors]
    if kinds != ['Missing'] * len(missing):
        raise Violation('errors {0!r}; missing {1!r}'.format(errors, missing))
    if sorted(form) != sorted(want) or not all(same(dict.__getitem__(form, k), v) for k, v in want.items()):
        raise Violation('{0!r} instead of {1!r}'.format(dict(form), want))
    d.nontrivial((repr(frames), repr(fs)))
    d.label('context')


def _steps(lookup, v, rest):
    for atom in rest.split('.'):
        v = lookup.step(v, atom, False)
        if v is S.ABSENT:
            break
    return v


TESTS = [
    ('fields', fields, 8000, 120000),
    ('paths', paths, 6000, 100000),
    ('context', context, 1200, 30000),
]
