"""C05: collect, raise and construct agree."""
import pilo
from pilo import ctx, fields as pf

from .. import spec as S
from ..engine import Violation

PROP = 'C05'
RULE = ('every case compares the modes on one (schema, input); it counts when the schema has a container, a '
        'constraint or an error; distinct by (schema, data)')

G = S.Gen(flavor='native', depth=2, callables=False, max_fields=5)


def build(fn):
    """(form, form error or None)"""
    try:
        return fn(), None
    except pf.FormError as ex:
        return None, ex


def modes(d):
    form = S.draw_form(d, G)
    raw = form.raw(d, d.choice([0, 15, 40]), 'native', absent=d.choice([0, 12, 40]))
    cls = form.build()
    d.note('form', form)
    d.note('input', raw)
    cx = S.Cx()
    want = form.map(cx, raw)
    collected = cls()
    errors = collected.map(raw, error=d.choice(['collect', 'collect']))
    S.compare_errors(errors, cx.errors)
    S.compare_value(collected, want)
    if not isinstance(errors, list):
        raise Violation('collect mode returned {0!r}'.format(errors))

    ways = [('positional', lambda: cls(raw)),
            ('source', lambda: cls(pf.DefaultSource(raw)))]
    if raw and all(k != 'self' for k in raw):
        ways.append(('keywords', lambda: cls(**raw)))
    for how, fn in ways:
        made, ex = build(fn)
        if ex is None:
            if errors:
                raise Violation('{0} construction succeeded in spite of {1}'.format(how, list(map(str, errors))))
            S.compare_value(made, want, at=how)
        else:
            if not errors:
                raise Violation('{0} construction raised {1}'.format(how, ex))
            if S.error_list(ex.field_errors) != cx.errors:
                raise Violation('{0} construction carries {1!r}, collect mode has {2!r}'.format(
                    how, S.error_list(ex.field_errors), cx.errors))
            if [str(e) for e in ex.field_errors] != [str(e) for e in errors]:
                raise Violation('{0} construction has other messages'.format(how))
            at = 0
            for e in ex.field_errors:
                at = str(ex).find(str(e), at)
                if at < 0:
                    raise Violation('the message {0!r} lacks {1!r}'.format(str(ex), str(e)))
            if str(ex).count('\n* ') < len(errors) or not isinstance(ex, ValueError):
                raise Violation('message {0!r}'.format(str(ex)))

    raising = cls()
    got, ex = build(lambda: raising.map(raw, error='raise'))
    if ex is None:
        if errors:
            raise Violation('raise mode succeeded in spite of {0}'.format(list(map(str, errors))))
        if got is not raising:
            raise Violation('raise mode returned {0!r} instead of the form'.format(got))
        S.compare_value(raising, want, at='raise mode')
    else:
        if not errors:
            raise Violation('raise mode raised {0}'.format(ex))
        first = S.error_list(ex.field_errors)[0]
        if first != cx.errors[0]:
            raise Violation('raise mode raised {0!r} first, collect mode has {1!r}'.format(first, cx.errors[0]))
    # the modes leave no trace
    again = cls()
    errors2 = again.map(raw)
    S.compare_errors(errors2, cx.errors)
    S.compare_value(again, want, at='again')
    d.label('errors' if errors else 'clean')
    if errors or form.leaves() > len(form.fields) or len(raw) > 2:
        d.nontrivial((repr(form), repr(raw)))


class Odd(Exception):
    """What is no field error."""


def reported(d):
    """Hooks that report errors of their own, also ones that are no field errors."""
    count = [0]
    told = []           # what the last mapping reported, in order
    plan = {}

    def hook(key):
        def validate(self, value):
            excs = []
            for kind in plan[key][0]:
                text = '{0} of {1}'.format(kind, key)
                excs.append(pf.Invalid(ctx.field, text) if kind == 'invalid' else pf.Missing(ctx.field) if kind == 'missing' else
                            Odd(text) if kind == 'odd' else ValueError(text))
            told.append((key, excs))
            if excs:
                if len(excs) == 1 and plan[key][0] == ['invalid'] and plan[key][2]:
                    del excs[:]
                    ctx.errors.invalid('invalid of {0}'.format(key))
                else:
                    ctx.errors(*excs)
            return plan[key][1]
        return validate

    def draw(depth, at):
        ns, rows = {}, []
        for i in range(d.int(1, 4)):
            name = 'f{0}'.format(i)
            if depth and d.p(35):
                cls, inner, data = draw(depth - 1, at + name)
                if d.p(30):
                    n = d.int(0, 3)
                    ns[name] = pf.List(pf.SubForm(cls))
                    rows.append((name, None, [inner] * n, [data] * n))
                else:
                    ns[name] = pf.SubForm(cls)
                    rows.append((name, None, inner, data))
                continue
            key = at + name
            count[0] += 1
            plan[key] = ([d.choice(['invalid', 'missing', 'odd', 'value']) for _ in range(d.weighted((5, 0), (3, 1), (2, 2)))],
                         d.p(70), d.bool())
            field = pf.Integer()
            field.validate.attach(field)(hook(key))
            ns[name] = field
            rows.append((name, key, None, i))
        order = [r[0] for r in rows]
        cls = type('F', (pilo.Form,), ns)
        assert [f.name for f in cls.fields] == order
        return cls, rows, dict((r[0], r[3]) for r in rows)

    cls, rows, data = draw(2, '')
    d.note('input', data)
    d.note('reports', plan)

    def shown(errors):
        return [(type(e).__name__, str(e)) for e in errors]

    def texts(rows, path):
        """(reports in order, whether each is made at the top)"""
        out = []
        for name, key, inner, raw in rows:
            here = path + [name]
            if key is not None:
                out.append((not path, [expected(kind, key, here) for kind in plan[key][0]]))
            elif isinstance(raw, list):
                for i, r in enumerate(inner):
                    out += texts(r, here + [i])
            else:
                out += texts(inner, here)
        return out

    def expected(kind, key, path):
        at = S.path_text(path)
        if kind == 'invalid':
            return 'Invalid', '{0} - invalid of {1}'.format(at, key)
        if kind == 'missing':
            return 'Missing', '{0} - missing'.format(at)
        return 'Odd' if kind == 'odd' else 'ValueError', '{0} of {1}'.format(kind, key)

    reports = texts(rows, [])
    every = [e for _, es in reports for e in es]
    form = cls()
    errors = form.map(data)
    if shown(errors) != every:
        raise Violation('collected {0!r} instead of {1!r}'.format(shown(errors), every))

    def raised(fn, errors, how):
        fields = [e for e in errors if e[0] in ('Invalid', 'Missing')]
        try:
            got = fn()
        except pf.FormError as ex:
            if shown(ex.field_errors) != fields or not fields:
                raise Violation('{0} carries {1!r} instead of {2!r}'.format(how, shown(ex.field_errors), fields))
        except (Odd, ValueError) as ex:
            if fields or not errors or shown([ex]) != errors[:1]:
                raise Violation('{0} raised {1!r} instead of {2!r}'.format(how, ex, errors))
        else:
            if errors:
                raise Violation('{0} succeeded in spite of {1!r}'.format(how, errors))
            return got

    raised(lambda: cls(data), every, 'construction')
    # the first report at the top raises what there is
    some = []
    for top, es in reports:
        some += es
        if top and es:
            break
    got = raised(lambda: cls().map(data, error='raise'), some, 'raise mode')
    if not every and got != form:
        raise Violation('raise mode returned {0!r}'.format(got))
    if len(every) > 1 or count[0] > 3:
        d.nontrivial((repr(data), repr(plan)))
    if any(e[0] in ('Odd', 'ValueError') for e in every):
        d.label('no field errors')


TESTS = [('modes', modes, 7000, 160000),
         ('reported', reported, 3000, 80000)]

