"""C01: scalar coercion."""
from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for, ini_text

from pilo.source import ConfigSource

PROP = 'C01'
RULE = ('a case counts when at least one raw value is not already of its field\'s own Python type, so that a '
        'conversion or a rejection is at stake; distinct by (source kind, position, field types, raw values)')

KINDS = [S.Str, S.Int, S.Flt, S.Dec, S.Bool, S.Uuid, S.Any]
OWN = {'str': str, 'int': int, 'flt': float, 'dec': S.decimal.Decimal, 'bool': bool, 'uuid': S.uuid.UUID}
FLAVORS = ['native', 'native', 'json', 'strict']


def raw_for(d, s, flavor):
    k = d.n(9)
    if k < 3:
        return s.valid(d, flavor)
    if k < 6:
        return s.edge(d, flavor)
    if k < 9:
        v = s.junk(d, flavor)
    else:
        v = s.deep_junk(d, flavor)
    if flavor != 'native':
        v = gen.json_finite(v)
    return v


def clean(s, v, flavor):
    """Null is not a scalar; the rest of the domain is pinned."""
    if v is None:
        return 0
    if flavor == 'json' and s.kind == 'str' and isinstance(v, (dict, list)):
        return 'x'
    if flavor != 'native' and not S.jsonable(v):
        return '0.5'
    return v


def interesting(pairs):
    return any(OWN.get(s.kind) is None or type(v) is not OWN[s.kind] for s, v in pairs)


def check(d, form, raw, flavor):
    d.note('form', form)
    d.note('source', (flavor, raw))
    cx = S.Cx(flavor)
    want = form.map(cx, raw)
    got, errors = S.outcome(form.build(), source_for(d, flavor, raw))
    S.compare_errors(errors, cx.errors)
    S.compare_value(got, want)
    for k, _ in cx.errors:
        d.label('rejected')
    return want


def alone(d):
    flavor = d.choice(FLAVORS)
    s = d.choice(KINDS)()
    s.style = d.n(1023)
    v = clean(s, raw_for(d, s, flavor), flavor)
    form = S.Form([('a', s)])
    want = check(d, form, {'a': v}, flavor)
    d.label('{0}/{1}/{2}/{3}'.format(flavor, s.kind, type(v).__name__, 'ok' if want.values else 'bad'))
    if interesting([(s, v)]):
        d.nontrivial((flavor, s.kind, repr(v)))


def positions(d):
    """Several scalars as list items, tuple positions, mapping values and nested fields."""
    flavor = d.choice(FLAVORS)
    fields, raw, pairs = [], {}, []

    def pick():
        s = d.choice(KINDS)()
        s.style = d.n(1023)
        return s

    def value(s):
        v = clean(s, raw_for(d, s, flavor), flavor)
        pairs.append((s, v))
        return v

    for name in gen.names(d, d.int(1, 3)):
        pos = d.n(5)
        if pos == 0:
            s = pick()
            fields.append((name, s))
            raw[name] = value(s)
        elif pos == 1:
            s = pick()
            fields.append((name, S.List(s)))
            raw[name] = d.list(lambda: value(s), 0, 5)
        elif pos == 2:
            ss = [pick() for _ in range(d.int(1, 3))]
            fields.append((name, S.Tup(ss)))
            raw[name] = [value(s) for s in ss]
        elif pos == 3:
            s = pick()
            fields.append((name, S.Map(S.Str(), s)))
            raw[name] = dict((k, value(s)) for k in d.sample(S.Map.KEYS, d.size(0, 4)))
        else:
            subs = [(n, pick()) for n in gen.names(d, d.int(1, 3))]
            sub = S.Sub(S.Form(subs))
            if pos == 4:
                fields.append((name, sub))
                raw[name] = dict((n, value(s)) for n, s in subs)
            else:
                fields.append((name, S.List(sub)))
                raw[name] = [dict((n, value(s)) for n, s in subs) for _ in range(d.size(0, 3))]
    check(d, S.Form(fields), raw, flavor)
    if interesting(pairs):
        d.nontrivial((flavor, repr(fields), repr(raw)))


def config(d):
    """Options of a configuration are text; every field converts it like other text."""
    fields, lines, raw = [], ['[s]'], {}
    for name in ['a', 'b', 'c'][:d.int(1, 3)]:
        s = d.choice(KINDS)()
        for _ in range(4):
            v = raw_for(d, s, 'native')
            if isinstance(v, str) and ini_text(v):
                break
        else:
            v = d.choice(gen.WORDS).strip()
        fields.append((name, s))
        raw[name] = v
        lines.append('{0} = {1}'.format(name, v))
    form = S.Form(fields)
    d.note('form', form)
    d.note('config', lines)
    cx = S.Cx('native', prefix='[s]:')
    want = form.map(cx, raw)
    got, errors = S.outcome(form.build(), ConfigSource('\n'.join(lines) + '\n', section='s'))
    S.compare_errors(errors, cx.errors)
    S.compare_value(got, want)
    d.nontrivial((repr(fields), repr(raw)))


def text_shapes(d):
    """Integral, fractional and boolean text, and numbers, through their defining relations."""
    n = gen.integer(d)
    form = S.Form([('i', S.Int()), ('f', S.Flt()), ('d', S.Dec()), ('b', S.Bool())])
    cls = form.build()
    shape = d.choice([str, lambda x: ' %d ' % x, lambda x: '%+d' % x, lambda x: ('-' if x < 0 else '') + '00%d' % abs(x)])
    t = shape(n)
    d.note('number', n)
    d.note('text', t)
    got, errors = S.outcome(cls, {'i': t, 'f': t, 'd': t, 'b': n})
    if 'i' not in got or type(got['i']) is not int or got['i'] != n:
        raise Violation('integer text {0!r} gave {1!r}'.format(t, dict(got).get('i')))
    if 'd' not in got or int(got['d']) != n:
        raise Violation('decimal text {0!r} gave {1!r}'.format(t, dict(got).get('d')))
    if got.get('b') is not (n != 0):
        raise Violation('boolean {0!r} gave {1!r}'.format(n, dict(got).get('b')))
    try:
        f = float(n)
    except OverflowError:
        f = None
    if f is not None and (got.get('f') != f or type(got.get('f')) is not float):
        raise Violation('float text {0!r} gave {1!r}'.format(t, dict(got).get('f')))
    want = [('Invalid', 'i')] if False else []
    S.compare_errors(errors, want)
    word = d.choice(['0', 'f', 'false', '1', 't', 'true'])
    mixed = ''.join(c.upper() if d.bool() else c for c in word)
    got, errors = S.outcome(cls, {'i': 1, 'f': 1, 'd': 1, 'b': mixed})
    S.compare_errors(errors, [])
    if got['b'] is not (word in ('1', 't', 'true')):
        raise Violation('boolean text {0!r} gave {1!r}'.format(mixed, got['b']))
    d.nontrivial((t, mixed))


class _Pattern(object):

    PATTERNS = [r'\d+', r'-?\d{1,3}$', r'(\d)\d*', r'[+-]?\d+(?=px)', r'\s*\d+\s*$', r'\d*', r'[a-f0-9]+', r'(?i)\d+E?']

    def __init__(self, pattern):
        super(_Pattern, self).__init__()
        self.pattern = pattern

    def make(self, args, kw):
        f = super(_Pattern, self).make(args, kw)
        return f.pattern(S.re.compile(self.pattern) if self.style & 64 else self.pattern)

    def parse(self, raw, cx):
        m = S.re.match(self.pattern, S.as_text(raw, cx.flavor))
        if not m:
            raise S.Bad()
        try:
            return self.KLASS(m.group(0))
        except ValueError:
            raise S.Bad()

    def text(self, d):
        atoms = ['1', '23', '007', '-', '+', ' ', '.', '5', 'e', 'px', 'a', '.5', '1e3', '\n']
        return ''.join(d.choice(atoms) for _ in range(d.size(1, 5)))


class IntPattern(_Pattern, S.Int):

    KLASS = int


class FltPattern(_Pattern, S.Flt):

    PATTERNS = _Pattern.PATTERNS + [r'\d+\.\d*', r'[-+\d.e]+', r'-?\d+(\.\d+)?', r'\d+(?=%)', r'nan|inf']
    KLASS = float


def patterns(d):
    """A number field with a pattern takes the text that matches it, as a number."""
    cls = d.choice([IntPattern, FltPattern])
    flavor = d.choice(['native', 'native', 'json'])
    s = cls(d.choice(cls.PATTERNS))
    s.style = d.n(1023)
    if d.p(20):
        s.lo = d.int(0, 9)
    k = d.n(9)
    v = s.text(d) if k < 8 else clean(s, S.Any().valid(d, flavor), flavor)
    if flavor == 'json' and isinstance(v, (dict, list)):
        v = 7
    pos = d.n(2)
    form = S.Form([('a', s if pos == 0 else S.List(s) if pos == 1 else S.Map(S.Str(), s))])
    want = check(d, form, {'a': v if pos == 0 else [v, '12'] if pos == 1 else {'k': v}}, flavor)
    d.label('pattern/{0}'.format('ok' if want.values else 'bad'))
    d.nontrivial((flavor, repr(form), repr(v)))


TESTS = [
    ('patterns', patterns, 2500, 40000),
    ('alone', alone, 16000, 400000),
    ('positions', positions, 6000, 150000),
    ('config', config, 2500, 60000),
    ('text_shapes', text_shapes, 2500, 60000),
]
