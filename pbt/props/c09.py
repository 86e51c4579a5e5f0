"""C09: defaults and absence."""
from pilo import ctx, fields as pf

from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for

PROP = 'C09'
RULE = ('a case draws a schema in which every field has some kind of default (literal, callable, hook, optional, none), '
        'data in which values are absent, ignored, refused by a filter, null, invalid or good, and the two absence '
        'flags; it counts when at least one field had to fall back on its default or be reported missing; distinct by '
        '(schema, data, flags)')

G = S.Gen(flavor='native', depth=2, max_fields=5)
GJ = S.Gen(flavor='json', depth=2, max_fields=5)
LITERALS = [None, 0, '', False, [], {}, (), 'dflt', 7, -1.5, True, 'not an int', ['x'], {'k': 1}, 0.0]


def draw_default(d, flags):
    k = d.n(7)
    if k < 2:
        return S.REQUIRED
    if k < 3:
        return S.OPTIONAL
    if k < 5:
        return ('lit', d.choice(LITERALS))
    if k < 7 or flags[0]:
        return S.make_callable(d)
    base = d.int(0, 5)
    return ('hook', S.Counter(base), S.Counter(base))


def redo(d, form, flags):
    """New defaults, ignores and filters everywhere."""
    for _, s in form.fields:
        if isinstance(s, S.Sub) and s.flat:
            continue
        s.default = draw_default(d, flags)
        if d.p(35):
            s.ignores = [d.choice(['', 0, 'a', None, 1, 'n/a', False, 'ab', [], 2.25]) for _ in range(d.int(1, 2))]
        if d.p(20):
            s.refused = [d.choice(['', 0, 'a', 'b', 1, True, None, 'ab'])]
        for x in S.walk(s):
            if isinstance(x, S.Sub):
                redo(d, x.form, flags)
            elif isinstance(x, S.List) and d.p(40):
                x.item.default = draw_default(d, flags)
                x.item.ignores = [d.choice(['', 0, 'a', None])]


class Watch(S.Cx):

    fallbacks = 0


def absent(d):
    flavor = d.choice(['native', 'json'])
    flags = d.choice([(False, False), (False, False), (True, False), (False, True), (True, True), (True, True)])
    form = S.draw_form(d, G if flavor == 'native' else GJ)
    redo(d, form, flags)
    raws = [form.raw(d, d.choice([0, 20, 50]), flavor, absent=30) for _ in range(d.int(1, 2))]
    for raw in raws:
        for k in list(raw):
            if d.p(15):
                del raw[k]
    cls = form.build()
    d.note('form', form)
    d.note('flags (ignore default, ignore missing)', flags)
    d.note('inputs', raws)
    made = []
    for raw in raws:
        cx = S.Cx(flavor, ignore_default=flags[0], ignore_missing=flags[1])
        fell = []
        orig = S.Spec.apply_default
        want = form.map(cx, raw)
        kw = {}
        if flags[0] or d.bool():
            kw['ignore_default'] = flags[0]
        if flags[1] or d.bool():
            kw['ignore_missing'] = flags[1]
        source = source_for(d, flavor, raw)
        if d.bool():
            with ctx(**kw):
                got, errors = S.outcome(cls, source)
        else:
            with ctx(ignore_default=not flags[0], ignore_missing=not flags[1]):
                with ctx(ignore_default=flags[0], ignore_missing=flags[1]):
                    got, errors = S.outcome(cls, source)
        S.compare_errors(errors, cx.errors)
        S.compare_value(got, want)
        for name, s in form.fields:
            key = s.src if s.src is not None else name
            if key not in raw and not isinstance(s, S.Sub):
                fell.append(name)
            if key not in raw and s.default[0] == 'lit' and name in want.values and \
                    dict.__getitem__(got, name) is not s.default[1] and not (isinstance(s, S.Sub) and s.flat):
                raise Violation('the default of {0} is {1!r}, not the literal {2!r} itself'.format(
                    name, dict.__getitem__(got, name), s.default[1]))
        made.append(got)
        if fell or cx.errors:
            d.label('fell back')
            d.nontrivial((repr(form), repr(raw), flags))
    # callables and hooks are evaluated afresh
    if len(made) == 2:
        for name, s in form.fields:
            if s.default[0] in ('call', 'hook'):
                key = s.src if s.src is not None else name
                if all(key not in raw for raw in raws) and all(dict.__contains__(m, name) for m in made):
                    a, b = [dict.__getitem__(m, name) for m in made]
                    if isinstance(a, (list, dict)) and a is b:
                        raise Violation('the default of {0} is shared by two mappings'.format(name))
    d.label('flags {0}{1}'.format(int(flags[0]), int(flags[1])))


def provided_only(d):
    """With both flags set, nothing but what the source provides appears, at any depth, and nothing is missing."""
    form = S.draw_form(d, S.Gen(flavor='native', depth=2, options=False, constraints=False, scalars=[S.Any],
                                kinds=['sub', 'list', 'sub']))
    redo_plain(d, form)
    raw = form.raw(d, 0, 'native', extra=False)
    prune(d, raw)
    cls = form.build()
    d.note('form', form)
    d.note('input', raw)
    with ctx(ignore_default=True, ignore_missing=True):
        got, errors = S.outcome(cls, raw)
    S.compare_errors(errors, [])
    provided(form, raw, got, '')
    d.nontrivial((repr(form), repr(raw)))


def redo_plain(d, form):
    for _, s in form.fields:
        s.default = d.choice([S.REQUIRED, S.OPTIONAL, ('lit', 0), ('lit', None), ('call', list, list), ('lit', {})])
        for x in S.walk(s):
            if isinstance(x, S.Sub):
                redo_plain(d, x.form)


def prune(d, raw):
    for k in list(raw):
        if d.p(30):
            del raw[k]
        elif isinstance(raw[k], dict):
            prune(d, raw[k])


def provided(form, raw, got, at):
    names = dict((n, s.src if s.src is not None else n) for n, s in form.fields)
    for n, key in names.items():
        here = dict.__contains__(got, n)
        if here != (key in raw):
            raise Violation('{0}{1} is {2} the source but {3} the form'.format(
                at, n, 'in' if key in raw else 'not in', 'in' if here else 'not in'))
        if here and isinstance(raw[key], dict):
            s = dict(form.fields)[n]
            if isinstance(s, S.Sub):
                provided(s.form, raw[key], dict.__getitem__(got, n), at + n + '.')


TESTS = [
    ('absent', absent, 6500, 150000),
    ('provided_only', provided_only, 2500, 40000),
]
