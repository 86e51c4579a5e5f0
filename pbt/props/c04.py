"""C04: collected errors."""
import pilo
from pilo import fields as pf

from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for
from . import c03, c18

PROP = 'C04'
RULE = ('a case counts when the mapping should report at least one error; distinct by (schema, data); the number of '
        'cases with two or more errors is reported as a class')

G_NATIVE = S.Gen(flavor='native', depth=3, callables=False, max_fields=5, dup=True)
G_JSON = S.Gen(flavor='json', depth=3, callables=False, max_fields=5, dup=True)
LOCATIONS = [None, None, 'file.json', 'line 3', 'a.b', u'\u00e9']


def run(d, form, raw, flavor):
    location = d.choice(LOCATIONS)
    d.note('form', form)
    d.note('source', (flavor, raw, location))
    cx = S.Cx(flavor, prefix=location + ':' if location else '')
    want = form.map(cx, raw)
    source = source_for(d, flavor, raw, location)
    cls = form.build()
    own = own_classes(d) if d.p(20) else {}
    if own:
        with pilo.ctx(**own):
            got, errors = S.outcome(cls, source)
        errors = of_own(errors, own)
        d.label('error classes of the context')
    else:
        got, errors = S.outcome(cls, source)
    S.compare_errors(errors, cx.errors)
    S.compare_value(got, want)
    check_fields(form, cls, errors, cx.prefix)
    # still so after the next mapping
    before = [(str(e), str(e.path)) for e in errors]
    before_ = S.outcome(cls, {})[1]
    if own and any(type(e) in own.values() for e in before_):
        raise Violation('the error classes of the context are used without it')
    if [(str(e), str(e.path)) for e in errors] != before or S.error_list(errors) != cx.errors:
        raise Violation('errors changed afterwards: {0} / {1}'.format(before, [(str(e), str(e.path)) for e in errors]))
    n = len(cx.errors)
    d.label('errors: {0}'.format(n if n < 4 else '4 or more'))
    for kind, path in cx.errors:
        if '[' in path:
            d.label('error in a sequence')
        if '.' in path:
            d.label('error below the top level')
            break
    if n:
        d.nontrivial((repr(form), repr(raw)))


def own_classes(d):
    class Absent(pf.Missing):
        pass

    class Wrong(pf.Invalid):
        pass

    both = {'Missing': Absent, 'Invalid': Wrong}
    return dict((k, both[k]) for k in d.choice([['Missing'], ['Invalid'], ['Missing', 'Invalid']]))


def of_own(errors, own):
    for e in errors:
        for kind, plain in [('Missing', pf.Missing), ('Invalid', pf.Invalid)]:
            if kind in own and isinstance(e, plain):
                if type(e) is not own[kind]:
                    raise Violation('{0!r} is not of the {1} class of the context'.format(e, kind))
                e.__class__ = plain
    return errors


def check_fields(form, cls, errors, prefix):
    """The errors of fields of the form itself name them."""
    at = {}
    for name, s in form.fields:
        if s.whole:
            return
        key = s.src if s.src is not None else name
        at.setdefault(prefix + str(key), []).append(name)
    for e in errors:
        names = at.get(str(e.path))
        field = e.field
        while isinstance(field.parent, pf.Field):
            field = field.parent        # that of keys, or of an item given in place of a list
        if names and field.parent is not None and all(field is not getattr(cls, n) for n in names):
            raise Violation('the error {0} has field {1}, not one of {2}'.format(e, e.field, names))
        if isinstance(e, pf.Invalid) and str(e) != '{0} - {1}'.format(e.path, e.violation):
            raise Violation('the error {0} has violation {1}'.format(e, e.violation))


def any_schema(d):
    flavor = d.choice(['native', 'native', 'json'])
    form = S.draw_form(d, G_NATIVE if flavor == 'native' else G_JSON)
    if d.p(12):
        t = c18.Tree(d, c18.G if flavor == 'native' else c18.GJ, flavor)
        p = c18.Poly(t)
        form.fields.insert(d.int(0, len(form.fields)), ('polymorphic', d.choice([p, p, S.List(p), S.Map(S.Str(), p)])))
        d.label('polymorphic')
    raw = form.raw(d, d.choice([0, 25, 50, 80]), flavor, absent=d.choice([0, 12, 40]))
    run(d, form, raw, flavor)


def planted(d):
    """Good data in which known faults are planted; exactly these are reported, in field order."""
    flavor = d.choice(['native', 'json'])
    want = []

    def leaf(path):
        """(spec, raw or ABSENT)"""
        s = d.choice([S.Int, S.Bool, S.Uuid])()
        k = d.n(5)
        if k == 4:
            want.append(('Invalid', path))
            return s, 'not one'
        if k == 5 and not path.endswith(']'):
            want.append(('Missing', path))
            return s, S.ABSENT
        return s, {'int': 3, 'bool': True, 'uuid': str(gen.uid(d))}[s.kind]

    def form_at(path, depth):
        fields, raw = [], {}
        for name in gen.names(d, d.int(1, 4)):
            p = path + '.' + name if path else name
            s, v = value_at(p, depth)
            fields.append((name, s))
            if v is not S.ABSENT:
                raw[name] = v
        return S.Form(fields), raw

    def value_at(p, depth):
        k = d.n(7) if depth > 0 else 0
        if k < 4:
            return leaf(p)
        if k < 5:
            form, raw = form_at(p, depth - 1)
            return S.Sub(form), raw
        if k < 6:
            items = [value_at('{0}[{1}]'.format(p, i), depth - 1) for i in range(d.int(1, 3))]
            return S.Tup([s for s, _ in items]), [v for _, v in items]
        if k < 7:
            # all items share a field
            n = d.int(0, 4)
            out = []
            for i in range(n):
                if d.p(25):
                    want.append(('Invalid', '{0}[{1}]'.format(p, i)))
                    out.append('zz')
                else:
                    out.append(i)
            return S.List(S.Int()), out
        out = {}
        for key in d.sample(['k', 'x y', '1', 'a-b', 'long'], d.int(0, 4)):
            if d.p(25):
                want.append(('Invalid', '{0}.{1}'.format(p, key)))
                out[key] = 'zz'
            else:
                out[key] = 5
        return S.Map(S.Str(), S.Int()), out

    form, raw = form_at('', 2)
    d.note('form', form)
    d.note('source', (flavor, raw))
    got, errors = S.outcome(form.build(), source_for(d, flavor, raw))
    S.compare_errors(errors, want)
    d.label('planted: {0}'.format(min(len(want), 4)))
    if want:
        d.nontrivial((repr(form), repr(raw)))


def deep(d):
    """Errors far down."""
    flavor = d.choice(['native', 'json'])
    form, raw = c03.chain(d, flavor, c03.depth(d))
    run(d, form, raw, flavor)


TESTS = [
    ('any_schema', any_schema, 6000, 150000),
    ('planted', planted, 7000, 150000),
    ('deep', deep, 1500, 40000),
]
