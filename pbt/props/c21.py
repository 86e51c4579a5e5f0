"""C21: groups."""
import json
import re

import pilo
from pilo import fields as pf

from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for

PROP = 'C21'
RULE = ('a case maps forms (and forms nested in them) with one or two groups of literal and pattern alternatives, given as '
        'pairs, bare fields and lists, over mappings with matching and other keys; entries, captures and errors are compared '
        'with a model; it counts when some key matches; distinct by (schema, data)')

PATTERNS = [
    r'^a\[(?P<op>in|\!in)\]$', r'^a\[(?P<op>\<|\>)]$', r'a\.(?P<op>between)$', r'a', r'.', r'(?P<k>[a-z])(?P<n>\d)?$',
    r'x-(.*)', r'$', r'(?i)A+$', r'\d+', r'b|c', r'.*z$', r'(?:q(u)?)',
]
KEYS = ['a', 'b', 'c', 'aa', 'a[in]', 'a[!in]', 'a[<]', 'a[>]', 'a.between', 'x-y', 'x-', 'z', 'zz', 'a1', 'b2', '', '12',
        'A', 'q', 'qu', u'\u00e9', 'bz', 'keys', 'items', 'a()', 'a\n', ' a', '0']
G = dict(depth=1, callables=False, wide=False)


class Trap(object):
    """A value that is not to be looked at."""

    touched = 0

    def __getattribute__(self, name):
        Trap.touched += 1
        return object.__getattribute__(self, name)

    def __repr__(self):
        return 'Trap()'


class Entries(object):
    """The expected value of a group."""

    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return 'Entries({0!r})'.format(self.items)


class Alt(object):

    def __init__(self, src, pattern, spec, form):
        self.src, self.pattern, self.spec, self.form = src, pattern, spec, form

    def __repr__(self):
        return 'Alt({0} {1!r} {2!r} {3})'.format(
            'pattern' if self.pattern else 'name', self.src, self.spec, self.form)

    def match(self, key):
        """(whether, captures)"""
        if not self.pattern:
            return isinstance(key, str) and key == self.src, None
        if not isinstance(key, str):
            return False, None
        m = re.match(self.src, key)
        return m is not None, m

    def map(self, cx, raw):
        inner = self.spec.src
        if inner is None or self.form == 'bare':
            return self.spec.map(cx, raw)
        with cx.at(inner):
            return self.spec.map(cx, raw.get(inner, S.ABSENT) if isinstance(raw, dict) else S.ABSENT)

    def raw(self, d, fault, flavor):
        v = self.spec.raw(d, fault, flavor)
        if self.spec.src is not None and self.form != 'bare' and not d.p(10):
            return {self.spec.src: v}
        return v


class Grp(S.Spec):

    kind = 'group'
    whole = True

    def __init__(self, alts):
        super(Grp, self).__init__()
        self.alts = alts
        self.default = ('none given',)
        self.cut = None

    def desc(self):
        return '(Grp {0!r} default={1!r})'.format(self.alts, self.default)

    __repr__ = desc

    def build(self):
        items = []
        for a in self.alts:
            f = a.spec.build()
            if a.form == 'bare':
                items.append(f)
            else:
                items.append((re.compile(a.src) if a.pattern else a.src, f))
        if self.cut:
            # some of them in lists
            i, j = self.cut
            part = items[i:j]
            if self.style & 1 and len(part) > 1:
                part = [part[0], part[1:]]
            items[i:j] = [part]
        kw = {}
        if self.default[0] in ('lit', 'call') and not self.style & 2:
            kw['default'] = self.default[1]
        f = pf.Group(*items, **kw)
        if self.default[0] in ('lit', 'call') and self.style & 2:
            f = f.options(default=self.default[1])
        return f

    def map(self, cx, raw):
        out, hit = [], False
        for key, r in raw.items():
            for a in self.alts:
                ok, m = a.match(key)
                if ok:
                    break
            else:
                continue
            hit = cx.hit = True
            with cx.at(key):
                v = a.map(cx, r)
            if v is not S.DROP and v is not S.NONE:
                out.append((key, m, v))
        if hit:
            return Entries(out)
        if self.default[0] == 'none given':
            return []
        if self.default[0] == 'lit':
            return self.default[1]
        return self.default[2]()

    def contribute(self, d, fault, flavor):
        out = {}
        for _ in range(d.size(0, 6)):
            k = d.choice([a.src for a in self.alts if not a.pattern] or KEYS) if d.p(30) else d.choice(KEYS)
            if d.p(8):
                k += d.choice(['1', 'a', 'z', ' ']) * d.choice([1, 9, 40, 300])
            if k in out:
                continue
            for a in self.alts:
                if a.match(k)[0]:
                    out[k] = a.raw(d, fault, flavor)
                    break
        return out


def draw_group(d, g):
    alts = []
    for _ in range(d.int(1, 4)):
        s = S.draw_field(d, g, position='item')
        pattern = d.bool()
        src = d.choice(PATTERNS) if pattern else d.choice(KEYS)
        form = 'pair'
        if not pattern and src and d.p(30):
            form = 'bare'
            s.src = src
        elif d.p(15):
            s.src = 'y'
        if d.p(10):
            s.default = ('lit', 'dflt')
        alts.append(Alt(src, pattern, s, form))
    out = Grp(alts)
    out.style = d.n(3)
    if d.p(40):
        i = d.n(len(alts) - 1)
        out.cut = (i, d.int(i + 1, len(alts)))
    if d.p(50):
        out.default = d.choice([('lit', None), ('lit', 'nothing'), ('lit', 0), ('call', dict, dict), ('call', list, list),
                                ('call', lambda: 5, lambda: 5)])
    return out


def draw_form(d, g):
    f = S.draw_form(d, g)
    f.fields.insert(d.n(len(f.fields)), ('g1', draw_group(d, g)))
    if d.p(35):
        f.fields.insert(d.n(len(f.fields)), ('g2', draw_group(d, g)))
    return f


def compare(got, want, at='value'):
    """Like compare_value, with the entries of groups."""
    if isinstance(want, S.FormVal):
        if type(got) is not want.spec.cls:
            raise Violation('{0}: {1!r} is not a {2}'.format(at, got, want.spec.cls))
        if sorted(got) != sorted(want.values):
            raise Violation('{0}: keys {1!r} instead of {2!r}'.format(at, sorted(got), sorted(want.values)))
        for k, w in want.values.items():
            compare(dict.__getitem__(got, k), w, '{0}[{1!r}]'.format(at, k))
        return
    if isinstance(want, Entries):
        if type(got) is not list or len(got) != len(want.items):
            raise Violation('{0}: {1!r} instead of {2!r}'.format(at, got, want))
        for i, (g, w) in enumerate(zip(got, want.items)):
            here = '{0}[{1}]'.format(at, i)
            if type(g) is not tuple or len(g) != 3 or g[0] != w[0] or type(g[0]) is not type(w[0]):
                raise Violation('{0}: {1!r} instead of {2!r}'.format(here, g, w))
            if (g[1] is None) != (w[1] is None):
                raise Violation('{0}: captures {1!r} instead of {2!r}'.format(here, g[1], w[1]))
            if w[1] is not None:
                for what in ('span', 'group', 'groups', 'groupdict'):
                    a, b = getattr(g[1], what)(), getattr(w[1], what)()
                    if a != b:
                        raise Violation('{0}: {1} {2!r} instead of {3!r}'.format(here, what, a, b))
            compare(g[2], w[2], here)
        return
    if isinstance(want, (list, tuple)) and type(got) is type(want) and len(got) == len(want):
        for i, (g, w) in enumerate(zip(got, want)):
            compare(g, w, '{0}[{1}]'.format(at, i))
        return
    if isinstance(want, dict) and type(got) is dict and list(got) == list(want):
        for k in want:
            compare(got[k], want[k], '{0}[{1!r}]'.format(at, k))
        return
    S.compare_value(got, want, at=at)


def spoil(got, want):
    for n, s in want.spec.fields:
        if isinstance(s, Grp) and s.default == ('none given',):
            dict.__getitem__(got, n).append('more')
        elif isinstance(s, S.Sub) and n in got and isinstance(want.values[n], S.FormVal):
            spoil(dict.__getitem__(got, n), want.values[n])


def group(d):
    flavor = d.choice(['native', 'json'])
    g = S.Gen(flavor=flavor, **G)
    form = draw_form(d, g)
    if d.p(35):
        inner = S.Sub(draw_form(d, g))
        k = d.n(2)
        form.fields.append(('sub', [inner, S.List(inner), S.Map(S.Str(), inner)][k]))
    fault = d.choice([0, 0, 25])
    for _ in range(1 if d.p(30) else 4):
        raw = form.raw(d, fault, flavor)
        cx = S.Cx(flavor)
        cx.hit = False
        want = form.map(cx, raw)
        if not cx.errors:
            break
    groups = [s for _, s in form.fields if isinstance(s, Grp)]
    if flavor == 'native' and d.p(50):
        # other keys, of any type, whose values are never looked at
        for k in d.sample(['other', 'w', 5, None, ('a',), 'hh', 1.5], d.int(1, 3)):
            mine = [n for n, s in form.fields if (s.src or n) == k]
            if k not in raw and not mine and not any(a.match(k)[0] for s in groups for a in s.alts):
                raw[k] = Trap()
        raw = dict((k, raw[k]) for k in d.shuffled(list(raw)))
    d.note('form', form)
    d.note('data', raw)
    cx = S.Cx(flavor)
    cx.hit = False
    want = form.map(cx, raw)
    src = source_for(d, flavor, raw)
    cls = form.build()
    Trap.touched = 0
    got, errors = S.outcome(cls, src)
    if Trap.touched:
        raise Violation('a key that no alternative matches was looked at')
    S.compare_errors(errors, cx.errors)
    compare(got, want)
    if not cx.errors and d.p(40):
        # what a form was given is its own: changing it changes nothing of the next one
        spoil(got, want)
        again, errors = S.outcome(cls, source_for(d, flavor, raw))
        S.compare_errors(errors, cx.errors)
        compare(again, form.map(S.Cx(flavor), raw), 'mapped again')
    if cx.hit:
        d.nontrivial((repr(form), repr(raw)))
    if cx.errors:
        d.label('errors')


def wrong(d):
    """Alternatives that name no key are refused."""
    bad = d.choice([pf.Integer(), ('a',), ('a', pf.Integer(), 1), 'a', 5, [pf.Integer()], [[('a',)]], None, {'a': 1}])
    args = [('x', pf.Integer())] * d.n(1) + [bad]
    try:
        pf.Group(*args)
    except ValueError:
        d.nontrivial(repr(type(bad)))
        return
    raise Violation('a group took {0!r}'.format(bad))


TESTS = [
    ('group', group, 3500, 90000),
    ('wrong', wrong, 60, 60),
]
