"""C22: copy, munge, filter and flatten."""
import pilo
from pilo import fields as pf

from .. import gen, spec as S
from ..engine import Violation

PROP = 'C22'
RULE = ('a case maps a generated form with nested forms (directly, in lists and tuples), edits it, then copies, rewrites, '
        'filters and flattens it, comparing results, visits and the original with recursive models over the values; it '
        'counts when the form has a nested form or a field is dropped; distinct by (schema, values, operation)')

G = dict(depth=1, callables=False, wide=False)
TAGS = ['t', 'u', 'v', 'w', 'secret']


def draw_form(d, depth):
    g = S.Gen(kinds=['list', 'tuple', 'dict'], **G)
    f = S.draw_form(d, g)
    if depth > 0:
        for i in range(d.weighted((2, 1), (1, 0), (1, 2))):
            sub = S.Sub(draw_form(d, depth - 1))
            k = d.n(5)
            if k < 2:
                s = sub
            elif k < 4:
                s = S.List(sub)
            elif k < 5:
                s = S.Tup([sub, S.Int(), S.Sub(sub.form)][:d.int(1, 3)])
            else:
                s = S.Tup(d.choice([[S.Int(), sub], [S.List(S.Int()), sub], [sub, S.List(S.Int()), S.Int()]]))
            if d.p(20):
                s.default = S.OPTIONAL
            f.fields.insert(d.n(len(f.fields)), ('n{0}{1}'.format(depth, i), s))
    if d.p(30):
        # names of other things (but not what dicts have, which a form is free to use)
        used = set(n for n, _ in f.fields)
        for i, (n, s) in enumerate(f.fields):
            name = d.choice(['src', 'parent', 'tags', 'name', 'func', 'form', 'path', 'field'])
            if name not in used and d.bool():
                used.add(name)
                f.fields[i] = (name, s)
    for _, s in f.fields:
        if d.p(60):
            s.tags = d.sample(TAGS, d.int(1, 2))
    return f


def forms_of(f, out=None):
    out = [] if out is None else out
    if f not in out:
        out.append(f)
        for s in f.specs():
            if isinstance(s, S.Sub):
                forms_of(s.form, out)
    return out


def snapshot(v):
    """All of a value, by identity."""
    if isinstance(v, dict):
        return (id(v), type(v), [(k, snapshot(dict.__getitem__(v, k))) for k in dict.__iter__(v)])
    if isinstance(v, (list, tuple)):
        return (id(v), type(v), [snapshot(x) for x in v])
    return (id(v), type(v), repr(v))


def same(got, want, at='form'):
    """`want`: ('form', class, [(key, want)]), ('seq', type, [want]) or ('is', value)."""
    if want[0] == 'form':
        if type(got) is not want[1]:
            raise Violation('{0}: is {1!r}, not a {2!r}'.format(at, type(got), want[1]))
        have = list(dict.__iter__(got))
        keys = [k for k, _ in want[2]]
        if sorted(map(repr, have)) != sorted(map(repr, keys)):
            raise Violation('{0}: has {1!r} instead of {2!r}'.format(at, have, keys))
        for k, w in want[2]:
            same(dict.__getitem__(got, k), w, '{0}.{1}'.format(at, k))
    elif want[0] == 'seq':
        if type(got) is not want[1] or len(got) != len(want[2]):
            raise Violation('{0}: {1!r} instead of {2!r}'.format(at, got, want))
        for i, (g, w) in enumerate(zip(got, want[2])):
            same(g, w, '{0}[{1}]'.format(at, i))
    elif got is not want[1] and not (type(got) is type(want[1]) and repr(got) == repr(want[1])):
        raise Violation('{0}: {1!r} instead of {2!r}'.format(at, got, want[1]))


class World(object):

    def __init__(self, d):
        self.d = d
        self.form = draw_form(d, 2)
        self.cls = self.form.build()
        self.names = {}
        self.tags = {}
        for f in forms_of(self.form):
            self.names[f.cls] = [n for n, _ in f.fields]
            for n, s in f.fields:
                self.tags[f.cls, n] = set(s.tags)
        self.value = None

    def populate(self):
        d = self.d
        fault = d.choice([0, 0, 10])
        for _ in range(4):
            raw = self.form.raw(d, fault)
            form = self.cls()
            errors = form.map(raw, unmapped='capture' if d.p(20) else 'ignore')
            if not errors:
                break
        # edits
        for _ in range(d.size(0, 3)):
            at = self.pick(form)
            names = self.names[type(at)]
            k = d.n(5)
            n = d.choice(names)
            if k == 5:
                row = [self.fresh(), d.choice([[1, 2], (), [[]], None, {'a': 1}]), self.fresh()][:d.int(2, 3)]
                at[n] = d.choice([list, tuple])(row)
            elif k == 0:
                dict.pop(at, n, None)
            elif k == 1:
                at[n] = d.choice([None, 0, [], (), {}, 'edited', [1, 2], (1, [2]), {'a': 1}])
            elif k == 2:
                at[n] = self.fresh()
            elif k == 3:
                at[n] = [self.fresh(), 5, self.fresh()]
            else:
                at['extra'] = 5
        self.value = form
        return form

    def fresh(self):
        d = self.d
        f = d.choice(forms_of(self.form))
        form = f.cls()
        for n in self.names[f.cls]:
            if d.bool():
                form[n] = d.choice([1, 'x', None, (2,), [3]])
        return form

    def pick(self, form):
        found = []

        def walk(v):
            if isinstance(v, pilo.Form):
                found.append(v)
                for n in self.names[type(v)]:
                    if n in v:
                        walk(dict.__getitem__(v, n))
            elif isinstance(v, (list, tuple)):
                for x in v:
                    walk(x)
        walk(form)
        return self.d.choice(found)

    def nested(self):
        def has(v):
            return isinstance(v, pilo.Form) or isinstance(v, (list, tuple)) and any(map(has, v))
        return any(has(v) for v in dict.values(self.value))

    # models

    def munge(self, form, act, visits):
        out = []
        for n in self.names[type(form)]:
            v = dict.get(form, n, pilo.NONE)
            visits.append((type(form), n, id(v)))
            v = act(type(form), n, v)
            if v is pilo.NONE:
                continue
            if isinstance(v, pilo.Form):
                w = self.munge(v, act, visits)
            elif isinstance(v, (list, tuple)):
                w = ('seq', type(v), [self.munge(x, act, visits) if isinstance(x, pilo.Form) else ('is', x) for x in v])
            else:
                w = ('is', v)
            out.append((n, w))
        return ('form', type(form), out)

    def flatten(self, form, path=()):
        out = []
        for n in self.names[type(form)]:
            if n not in form:
                continue
            v = dict.__getitem__(form, n)
            here = path + (getattr(type(form), n),)
            if isinstance(v, pilo.Form):
                out.extend(self.flatten(v, here))
            else:
                out.append((here, v))
        return out


def start(d, op):
    w = World(d)
    form = w.populate()
    d.note('form', w.form)
    d.note('values', form)
    d.note('operation', op)
    return w, form, snapshot(form)


def untouched(form, before):
    if snapshot(form) != before:
        raise Violation('the original changed: {0!r}'.format(form))


def forms_in(v):
    if isinstance(v, pilo.Form):
        return [v] + [x for y in v.values() for x in forms_in(y)]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in forms_in(y)]
    return []


def munge(d):
    w, form, before = start(d, 'munge')
    table = {}
    other = w.fresh()
    for cls, names in w.names.items():
        for n in names:
            k = d.n(9)
            table[cls, n] = 'keep' if k < 5 else ['drop', 'const', 'none', 'list', 'form'][k - 5]
    # a form among its own fields would not end
    const = d.choice([5, None, 'c', [], (1, 2)])

    def act(cls, n, v):
        k = table[cls, n]
        if k == 'keep':
            return v
        if k == 'drop':
            return pilo.NONE
        if k == 'none':
            return None
        if k == 'list':
            return [v, 1] if v is not pilo.NONE else []
        if k == 'form' and cls is w.cls:
            return flat
        return const
    flat = w.names and type('Flat', (pilo.Form,), {'p': pf.Integer(), 'q': pf.Integer()})()
    w.names[type(flat)] = ['p', 'q']
    table[type(flat), 'p'], table[type(flat), 'q'] = 'keep', d.choice(['keep', 'drop'])
    flat['p'], flat['q'] = 1, 2
    d.note('rewrites', sorted(((c.__name__, n), k) for (c, n), k in table.items()))
    visits, got_visits = [], []
    originals = forms_in(form)
    want = w.munge(form, act, visits)

    def func(new, field, value):
        if not isinstance(new, pilo.Form):
            raise Violation('called with {0!r}'.format(new))
        if any(new is x for x in originals):
            raise Violation('called with an original form in place of that which is made')
        if getattr(type(new), field.name) is not field:
            raise Violation('called with {0} of another form than {1!r}'.format(field, type(new)))
        got_visits.append((type(new), field.name, id(value)))
        return act(type(new), field.name, value)

    got = form.munge(func)
    order = lambda vs: sorted((c.__name__, id(c), n, i) for c, n, i in vs)
    if order(got_visits) != order(visits):
        raise Violation('visited {0!r} instead of {1!r}'.format(
            [(c.__name__, n) for c, n, _ in got_visits], [(c.__name__, n) for c, n, _ in visits]))
    same(got, want)
    if got is form:
        raise Violation('it is the original')
    untouched(form, before)
    if w.nested() or 'drop' in table.values():
        d.nontrivial((repr(w.form), repr(form), repr(sorted(table.values()))))


def filter(d):
    tags = d.sample(TAGS + ['nobody'], d.int(0, 3))
    inv = d.choice([None, False, True])
    w, form, before = start(d, ('filter', tags, inv))

    def act(cls, n, v):
        hit = bool(w.tags[cls, n] & set(tags))
        return v if hit is not bool(inv) else pilo.NONE

    want = w.munge(form, act, [])
    got = form.filter(*tags) if inv is None else form.filter(*tags, inv=inv)
    same(got, want)
    untouched(form, before)
    d.nontrivial((repr(w.form), repr(form), tags, inv))


def flatten(d):
    w, form, before = start(d, 'flatten')
    want = w.flatten(form)

    def check(got):
        if len(got) != len(want):
            raise Violation('{0} leaves instead of {1}: {2!r}'.format(
                len(got), len(want), [([f.name for f in p], v) for p, v in got]))
        for (p, v), (q, x) in zip(got, want):
            if [id(f) for f in p] != [id(f) for f in q] or v is not x and \
                    (type(v) is not type(x) or repr(v) != repr(x)):
                raise Violation('{0!r} {1!r} instead of {2!r} {3!r}'.format(
                    [f.name for f in p], v, [f.name for f in q], x))

    check(list(form.flatten()))
    # two at a time
    a, b, one, two = form.flatten(), form.flatten(), [], []
    while True:
        x = next(a, None)
        y = next(b, None) if d.bool() or x is None else None
        if x is not None:
            one.append(x)
        if y is not None:
            two.append(y)
        if x is None and y is None:
            break
    check(one)
    check(two)
    untouched(form, before)
    if w.nested():
        d.nontrivial((repr(w.form), repr(form)))


def copy(d):
    w, form, before = start(d, 'copy')
    got = form.copy()
    if type(got) is not type(form):
        raise Violation('the copy is a {0!r}'.format(type(got)))
    if got is form:
        raise Violation('the copy is the original')
    same(got, ('form', type(form), [(k, ('is', dict.__getitem__(form, k))) for k in dict.__iter__(form)]))
    if not (got == form):
        raise Violation('the copy differs from the original')
    untouched(form, before)
    # independent of each other
    a, b = (got, form) if d.bool() else (form, got)
    keep = snapshot(b)
    for _ in range(d.int(1, 4)):
        n = d.choice(w.names[w.cls])
        k = d.n(3)
        if k == 0:
            setattr(a, n, 99)
        elif k == 1:
            delattr(a, n)
        elif k == 2:
            a['new'] = 1
        else:
            a.clear()
    if snapshot(b) != keep:
        raise Violation('changing one changed the other: {0!r}'.format(b))
    d.nontrivial((repr(w.form), repr(form)))


TESTS = [
    ('munge', munge, 1200, 40000),
    ('filter', filter, 1200, 40000),
    ('flatten', flatten, 800, 30000),
    ('copy', copy, 800, 30000),
]
