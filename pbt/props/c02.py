"""C02: constraints hold exactly."""
from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for

PROP = 'C02'
RULE = ('a case counts when a constrained field saw a value of its own kind (so that the constraint, not the type, '
        'decides); distinct by (schema, data)')

BOUNDED = [S.Str, S.Int, S.Flt, S.Dec, S.Date, S.Dt, S.Clock]


def constrained(s):
    for k in ('min_length', 'max_length', 'length', 'pattern', 'alphabet', 'choices', 'lo', 'hi', 'after', 'before',
              'required_keys', 'max_keys'):
        if getattr(s, k, None) is not None:
            return True
    return s.nullable is False


def draw(d, flavor):
    k = d.n(9)
    if k < 7:
        cls = d.choice(BOUNDED if flavor == 'native' else BOUNDED[:-2])
        for _ in range(5):
            s = cls.draw(d)
            if constrained(s):
                break
    elif k < 8:
        s = S.List(d.choice([S.Int, S.Str, S.Any, S.Bool]).draw(d))
        lo = d.int(0, 4)
        m = d.int(0, 3)
        if m != 2:
            s.min_length = lo
        if m != 1:
            s.max_length = lo + d.int(0, 3)
    else:
        s = S.Map(S.Str.draw(d) if d.p(30) else S.Str(), d.choice([S.Int, S.Str, S.Any]).draw(d))
        if d.bool():
            s.required_keys = d.sample(['a', 'b', 'c', 'items', 'keys'], d.int(1, 3))
        if s.required_keys is None or d.bool():
            s.max_keys = d.int(0, 5)
    s.style = d.n(1023)
    if d.p(15):
        # the constraints hold for what values are translated to
        if isinstance(s, S.Str):
            keys = s.choices or [s.valid(d, flavor), s.valid(d, flavor), 'a']
            to = ['one', '', 'a', 'x y z', 'ab', '00'] + (s.choices or [])
            s.translations = dict((k, d.choice(to)) for k in d.sample(keys, d.int(1, min(2, len(keys)))))
        elif isinstance(s, S.Int):
            s.translations = dict((s.valid(d, flavor), d.choice([0, -3, 1000, s.valid(d, flavor)])) for _ in range(d.int(1, 2)))
    if d.p(30):
        s.nullable = d.bool()
    k = d.n(9)
    if k == 7:
        s.default = S.OPTIONAL
    elif k == 8:
        s.default = ('lit', None)
    elif k == 9:
        s.default = ('lit', 'dflt')
    return s


def raw_for(d, s, flavor):
    k = d.n(19)
    if k < 8:
        v = s.edge(d, flavor)
    elif k < 17:
        v = s.valid(d, flavor)
    elif k < 18:
        v = None
    else:
        v = s.junk(d, flavor)
    return v if flavor == 'native' else gen.json_finite(v)


def run(d, form, raw, flavor):
    d.note('form', form)
    d.note('source', (flavor, raw))
    cx = S.Cx(flavor)
    want = form.map(cx, raw)
    got, errors = S.outcome(form.build(), source_for(d, flavor, raw))
    S.compare_errors(errors, cx.errors)
    S.compare_value(got, want)
    return want, cx.errors


def alone(d):
    flavor = d.choice(['native', 'native', 'json'])
    s = draw(d, flavor)
    v = raw_for(d, s, flavor)
    form = S.Form([('a', s)])
    want, errors = run(d, form, {'a': v}, flavor)
    if constrained(s) and v is not None:
        try:
            s.parse(v, S.Cx(flavor))
        except S.Bad:
            d.label('{0}/type'.format(s.kind))
        else:
            d.label('{0}/{1}'.format(s.kind, 'rejected' if errors else 'accepted'))
            d.nontrivial((flavor, repr(s), repr(v)))
    elif v is None:
        d.label('null/{0}'.format('rejected' if errors else 'accepted'))


def many(d):
    """Several constrained fields in nested positions; each is judged on its own."""
    flavor = d.choice(['native', 'native', 'json'])
    fields, raw, hit = [], {}, False
    for name in gen.names(d, d.int(2, 4)):
        pos = d.n(4)
        s = draw(d, flavor)
        hit = hit or constrained(s)
        if pos < 2:
            fields.append((name, s))
            raw[name] = raw_for(d, s, flavor)
        elif pos == 2:
            lst = S.List(s)
            if d.bool():
                lst.min_length = d.int(0, 3)
            fields.append((name, lst))
            raw[name] = [raw_for(d, s, flavor) for _ in range(d.size(0, 5))]
        elif pos == 3:
            m = S.Map(S.Str.draw(d), s)
            if d.bool():
                m.max_keys = d.int(0, 3)
            fields.append((name, m))
            raw[name] = dict((k, raw_for(d, s, flavor)) for k in m._keys(d, d.size(0, 4)))
        else:
            fields.append((name, S.Sub(S.Form([('p', s), ('q', S.Any())]))))
            raw[name] = {'p': raw_for(d, s, flavor), 'q': 1}
    run(d, S.Form(fields), raw, flavor)
    if hit:
        d.nontrivial((flavor, repr(fields), repr(raw)))


def bounds(d):
    """The bounds themselves are inside, one step beyond is outside, in every spelling."""
    cls = d.choice([S.Int, S.Flt, S.Dec, S.Date, S.Dt, S.Clock, S.Str, S.List])
    s = cls() if cls is not S.List else S.List(S.Any())
    s.style = d.n(1023)
    if cls is S.Int:
        lo = gen.integer(d)
        hi = lo + d.int(0, 5)
        s.lo, s.hi, step = lo, hi, 1
    elif cls is S.Flt:
        lo = d.int(-9, 40) / 4.0
        hi = lo + d.int(0, 9) / 4.0
        s.lo, s.hi, step = lo, hi, d.choice([0.25, 1.0, 2.0 ** -40])
    elif cls is S.Dec:
        lo = S.decimal.Decimal(d.int(-40, 400)) / 4
        hi = lo + S.decimal.Decimal(d.int(0, 9)) / 4
        s.lo, s.hi, step = lo, hi, S.decimal.Decimal(d.choice(['1', '0.25', '1E-12']))
    elif cls is S.Date:
        lo = S.datetime.date(d.int(1990, 2030), d.int(1, 12), d.int(1, 28))
        hi = lo + S.datetime.timedelta(d.int(0, 40))
        s.after, s.before, step = lo, hi, S.datetime.timedelta(1)
    elif cls is S.Dt:
        lo = S.datetime.datetime(d.int(1990, 2030), d.int(1, 12), d.int(1, 28), d.int(0, 23), d.int(0, 59))
        hi = lo + S.datetime.timedelta(seconds=d.int(0, 100000))
        s.after, s.before = lo, hi
        step = d.choice([S.datetime.timedelta(0, 0, 1), S.datetime.timedelta(0, 1), S.datetime.timedelta(1)])
    elif cls is S.Clock:
        a = d.int(1, 86000)
        b = d.int(a, 86000)
        mk = lambda x: S.datetime.time(x // 3600, x // 60 % 60, x % 60)
        s.after, s.before = mk(a), mk(b)
        pts = [(mk(a), True), (mk(b), True), (mk(a - 1), False), (mk(b + 1), False), (mk((a + b) // 2), True)]
    elif cls is S.Str:
        lo = d.int(1, 9)
        hi = lo + d.int(0, 9)
        if s.style & 3 == 0 and lo == hi:
            s.length = lo
        elif s.style & 1:
            s.length = (lo, hi)
        else:
            s.min_length, s.max_length = lo, hi
        pts = [('x' * n, lo <= n <= hi) for n in (lo, hi, lo - 1, hi + 1, 0)]
    else:
        lo = d.int(1, 9)
        hi = lo + d.int(0, 9)
        s.min_length, s.max_length = lo, hi
        pts = [([1] * n, lo <= n <= hi) for n in (lo, hi, lo - 1, hi + 1, 0)]
    if cls in (S.Int, S.Flt, S.Dec, S.Date, S.Dt):
        pts = [(lo, True), (hi, True), (lo - step, False), (hi + step, False)]
    form = S.Form([('a', s)])
    d.note('field', s)
    kls = form.build()
    for v, ok in pts:
        got, errors = S.outcome(kls, {'a': v})
        if ok and (errors or 'a' not in got):
            raise Violation('{0!r} meets the bounds of {1!r} but was rejected: {2}'.format(v, s, list(map(str, errors))))
        if not ok and (len(errors) != 1 or 'a' in got):
            raise Violation('{0!r} breaks the bounds of {1!r} but gave {2!r}, {3}'.format(
                v, s, dict(got), list(map(str, errors))))
        if not ok:
            S.compare_errors(errors, [('Invalid', 'a')])
    d.nontrivial(repr(s))


TESTS = [
    ('alone', alone, 18000, 400000),
    ('many', many, 5000, 120000),
    ('bounds', bounds, 4000, 60000),
]
