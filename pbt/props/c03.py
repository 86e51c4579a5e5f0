"""C03: containers and nested forms."""
import pilo
from pilo.source import DefaultSource

from .. import engine, gen, spec as S
from ..sources import exotic_form, source_for

PROP = 'C03'
RULE = ('a case counts when the schema has a container or nested form whose source value is a container with at least '
        'one element; distinct by (schema, data)')

G_NATIVE = S.Gen(flavor='native', depth=3, callables=False, unmapped=True, dup=True)
G_JSON = S.Gen(flavor='json', depth=3, callables=False, unmapped=True, dup=True)


def run(d, form, raw, flavor, order=False):
    d.note('form', form)
    d.note('source', (flavor, raw))
    cx = S.Cx(flavor)
    want = form.map(cx, raw)
    source = None
    if flavor == 'native' and d.p(25):
        source = exotic_form(d, form, raw)
        if not isinstance(source, dict):
            source = DefaultSource(source)
        d.note('as', source)
        d.label('other types of containers')
    if source is None:
        source = source_for(d, flavor, raw)
    got, errors = S.outcome(form.build(), source)
    S.compare_errors(errors, cx.errors)
    S.compare_value(got, want, order)
    return want, cx.errors


def containerish(v):
    return isinstance(v, (list, tuple, dict)) and len(v) > 0


def note_nontrivial(d, form, raw):
    hit = False
    for name, s in form.fields:
        v = raw.get(s.src if s.src is not None else name)
        if s.kind in ('list', 'tuple', 'dict', 'sub') and containerish(v):
            hit = True
            d.label(s.kind)
    if hit:
        d.nontrivial((repr(form), repr(raw)))


def any_schema(d):
    flavor = d.choice(['native', 'native', 'json'])
    g = G_NATIVE if flavor == 'native' else G_JSON
    form = S.draw_form(d, g)
    if form.leaves() > 60:
        d.label('large schema')
    raw = form.raw(d, d.choice([0, 10, 30, 60]), flavor)
    want, errors = run(d, form, raw, flavor)
    d.label('errors' if errors else 'clean')
    note_nontrivial(d, form, raw)


def containers(d):
    """Containers of simple items with invalid, absent and filtered elements among good ones."""
    flavor = d.choice(['native', 'json'])
    fields, raw = [], {}
    for name in gen.names(d, d.int(1, 3)):
        item = d.choice([S.Int, S.Str, S.Bool, S.Any]).draw(d)
        if d.bool():
            item.default = S.OPTIONAL
            item.ignores = [d.choice([0, 'a', '', 1, 'ab', None])]
        elif d.bool():
            item.default = ('lit', d.choice([0, 'x', None]))
            item.ignores = [d.choice([0, 'a', '', 1])]
        k = d.n(4)
        if k < 2:
            s = S.List(item)
            n = engine.mined_size(d) if d.p(5) else d.size(0, 9)
            v = [item.raw(d, 35, flavor) for _ in range(n)]
            if flavor == 'native' and d.bool():
                v = tuple(v)
            s.allow_field = d.p(20)
            if s.allow_field and d.bool():
                v = item.raw(d, 35, flavor)
        elif k == 2:
            s = S.Map(S.Str(), item)
            s.refuse = d.sample(S.Map.KEYS, d.int(0, 3)) or None
            if d.p(25):
                s.key.translations = dict((k, d.choice(['a', 'b', 'new'])) for k in d.sample(S.Map.KEYS, d.int(1, 6)))
            n = engine.mined_size(d) if d.p(5) else d.size(0, 7)
            v = {}
            for i in range(n):
                v[d.choice(S.Map.KEYS) if n < 12 else 'k{0}'.format(i)] = item.raw(d, 35, flavor)
        elif k == 3:
            item.ignores = []
            items = [d.choice([S.Int, S.Str, S.Bool, S.Any]).draw(d) for _ in range(d.int(1, 4))]
            s = S.Tup(items)
            v = [x.raw(d, 15, flavor) for x in items]
            m = d.n(9)
            if m == 8:
                v = v[1:]
            elif m == 9:
                v = v + [1]
        else:
            sub = S.Form([(n, d.choice([S.Int, S.Str, S.Bool]).draw(d)) for n in gen.names(d, d.int(1, 3))])
            s = S.List(S.Sub(sub))
            v = [sub.raw(d, 15, flavor) if not d.p(10) else gen.json_finite(gen.json_scalar(d)) for _ in range(d.size(0, 5))]
        s.style = d.n(1023)
        if d.p(6):
            v = d.choice(['text', 'ab', '', 3, True, {}, {'a': 1}, [], None, 1.5] +
                         ([b'ab', b'', frozenset([1]), set()] if flavor == 'native' else []))
        fields.append((name, s))
        raw[name] = v
    form = S.Form(fields)
    run(d, form, raw, flavor)
    note_nontrivial(d, form, raw)


def chain(d, flavor, n):
    """A form and data with one field in a chain of `n` containers."""
    s = d.choice([S.Int, S.Str, S.Any]).draw(d)
    v = s.raw(d, 20, flavor)
    pads = {}
    for i in range(n):
        k = d.n(3)
        if k == 0:
            s = S.List(s)
            v = [v] * d.int(1, 2) if n < 6 else [v]
        elif k == 1:
            s = S.Map(S.Str(), s)
            v = {d.choice(S.Map.KEYS): v}
        elif k == 2:
            pad = S.Int()
            pad.default = ('lit', 0)
            form = S.Form([('p', pad), ('c', s)] if d.bool() else [('c', s), ('p', pad)])
            s = S.Sub(form)
            v = {'c': v, 'p': d.choice([1, '2', 'x', 3.0]) if d.p(60) else 4}
            if d.p(10):
                del v['p']
        else:
            other = S.Bool()
            s = S.Tup([s, other] if d.bool() else [other, s])
            v = [v, True] if s.items[1] is other else [True, v]
    form = S.Form([('root', s), ('after', S.Int())])
    return form, {'root': v, 'after': d.int(0, 3)}


def depth(d):
    return d.weighted((7, d.int(1, 14)), (1, d.int(15, 40)))


def deep(d):
    """A chain of containers, up to 40 levels, around one field."""
    flavor = d.choice(['native', 'json'])
    n = depth(d)
    form, raw = chain(d, flavor, n)
    run(d, form, raw, flavor)
    d.label('depth {0}'.format(n if n < 15 else '15 or more'))
    d.nontrivial((repr(form), repr(raw)))


def long(d):
    """Thousands of elements."""
    flavor = d.choice(['native', 'json'])
    n = d.int(300, 5000)
    bad = d.choice([0, 0, 1, 20])
    item = d.choice([S.Int, S.Str, S.Bool])()
    if d.bool():
        item.default = S.OPTIONAL
        item.ignores = [d.choice([0, 'a', 1])]
    sub = d.p(20)
    if sub:
        inner = item
        item = S.Sub(S.Form([('x', inner)]))
        pool = [{'x': inner.raw(d, 0, flavor)} for _ in range(7)]
        junk = [{'x': []}, {}, 3]
    else:
        pool = [item.raw(d, 0, flavor) for _ in range(7)]
        junk = [[], {'a': 1}, None]
    a, b = d.int(1, 97), d.int(0, 96)
    values = [pool[(i * a + b + i // 7) % 7] for i in range(n)]
    for _ in range(bad):
        values[d.n(n - 1)] = d.choice(junk)
    k = d.n(3)
    if k < 2:
        s, v = S.List(item), values
    elif k == 2:
        s, v = S.Map(S.Str(), item), dict(('k%d' % i, x) for i, x in enumerate(values))
    else:
        n = min(n, 1500)
        per = d.int(2, 40)
        s, v = S.List(S.List(item)), [values[i:i + per] for i in range(0, n, per)]
    form = S.Form([('root', s), ('after', S.Int())])
    raw = {'root': v, 'after': 3}
    run(d, form, raw, flavor, True)
    d.label('{0} elements'.format('1000 or more' if n >= 1000 else 'hundreds of'))
    d.nontrivial((repr(form), n, a, b, bad))


def scramble(d, v):
    """Changes the containers of a result in place."""
    if isinstance(v, list):
        for x in v:
            scramble(d, x)
        v.append('added')
        if d.bool():
            v.reverse()
    elif isinstance(v, tuple):
        for x in v:
            scramble(d, x)
    elif isinstance(v, dict):
        for x in list(v.values()):
            scramble(d, x)
        if isinstance(v, pilo.Form):
            for name in list(v):
                if d.bool():
                    del v[name]
        else:
            v['added'] = 1
            if d.bool():
                v.clear()


def structure(d, depth):
    k = d.n(4) if depth else 4
    if k == 0:
        return S.List(structure(d, depth - 1))
    if k == 1:
        return S.Map(S.Str(), structure(d, depth - 1))
    if k == 2:
        return S.Tup([structure(d, depth - 1) for _ in range(d.int(1, 2))])
    if k == 3:
        return S.Sub(S.Form([(n, structure(d, depth - 1)) for n in gen.names(d, d.int(1, 2))]))
    return d.choice([S.Int, S.Str, S.Bool])()


def apart(d):
    """What is done to the containers of one result shows in no other, whether of the same data or of other data."""
    flavor = d.choice(['native', 'json'])
    form = S.Form([(n, structure(d, 3)) for n in gen.names(d, d.int(1, 3))])
    raws = [form.raw(d, d.choice([0, 10, 30]), flavor) for _ in range(d.int(1, 3))]
    order = [d.n(len(raws) - 1) for _ in range(d.int(2, 4))]
    d.note('form', form)
    d.note('sources', [flavor] + raws)
    wants = []
    for raw in raws:
        cx = S.Cx(flavor)
        wants.append((form.map(cx, raw), cx.errors))
    cls = form.build()
    sources = [source_for(d, flavor, raw) for raw in raws]
    results = []
    for at in order:
        got, errors = S.outcome(cls, sources[at])
        S.compare_errors(errors, wants[at][1])
        results.append((at, got))
        for i, form_got in results:
            S.compare_value(form_got, wants[i][0])
        if d.p(70):
            i = d.n(len(results) - 1)
            scramble(d, results.pop(i)[1])
            d.label('changed with {0} others'.format(len(results)))
            for i, form_got in results:
                S.compare_value(form_got, wants[i][0])
    if any(len(w) for w in (want.values for want, _ in wants)):
        d.nontrivial((repr(form), repr(raws), order))


TESTS = [
    ('any_schema', any_schema, 5000, 120000),
    ('containers', containers, 7000, 120000),
    ('deep', deep, 3500, 60000),
    ('long', long, 48, 1500),
    ('apart', apart, 2500, 60000),
]
