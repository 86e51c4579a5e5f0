"""C10: the hook pipeline."""
import pilo
from pilo import ctx, fields as pf

from .. import gen, spec as S
from ..engine import Violation

PROP = 'C10'
RULE = ('a case draws forms whose fields (also items of lists, mappings and tuples, and fields of nested forms) have '
        'random sets of hooks (and overridden methods) with drawn outcomes (pass, change, drop, error), maps an input, and compares the recorded '
        'hook calls - which, in what order, with which form and value - and the result with a model of the documented '
        'pipeline; it counts when at least two hook calls are expected; distinct by (schema, hooks, data)')


class Recorder(object):

    def __init__(self):
        self.calls = []
        self.keep = []      # so that no id is used twice

    def __call__(self, form, field, hook, *value):
        self.keep.append(form)
        self.calls.append((id(form), type(form), field, hook, repr([S.plain(v) for v in value])))


def first_seen(calls):
    """Calls with forms numbered in order of appearance."""
    seen, out = {}, []
    for form, cls, field, hook, value in calls:
        out.append((seen.setdefault(form, len(seen)), cls, field, hook, value))
    return out


CHANGED = ['changed', 99, 0, '', None, [], 5, 'a', False]


class Hooked(S.Spec):
    """A field with hooks around the field `inner`."""

    count = 0

    def __init__(self, inner, ident, hooks, key):
        self.__dict__.update(inner.__dict__)
        self.inner = inner
        self.kind = inner.kind
        self.ident = ident
        self.hooks = hooks      # name -> (outcome, value)
        self.key = key          # resolve hook pushes this
        self.own = {}           # methods of a field class of one's own: stage -> (outcome, value)

    def __repr__(self):
        return 'Hooked({0!r} {1})'.format(self.inner, ' '.join(
            '{0}:{1}'.format(k, v[0] + ('=' + repr(v[1]) if v[0] == 'change' else ''))
            for k, v in sorted(self.hooks.items()) + sorted(('_' + k, v) for k, v in self.own.items())))

    def leaves(self):
        return self.inner.leaves()

    def raw(self, d, fault=25, flavor='native'):
        return self.inner.raw(d, fault, flavor)

    # real

    def build(self):
        f = self.inner.build()
        for name in HOOKS:
            if name in self.hooks:
                getattr(f, name)(make_hook(self, name))
        if self.own:
            f.__class__ = type('Own', (type(f),), make_methods(self))
        return f

    # model

    def call(self, cx, hook, *value):
        cx.log.append((id(cx.form), cx.form.spec.cls, self.ident, hook, repr([S.plain(v) for v in value])))
        cx.keep.append(cx.form)
        return self.own[hook[1:]] if hook.startswith('_') else self.hooks[hook]

    def method(self, cx, stage, *value):
        """The outcome of an overridden method."""
        if stage not in self.own:
            return 'pass', None
        return self.call(cx, '_' + stage, *value)

    def fallback(self, cx):
        if 'default' in self.hooks:
            out, v = self.call(cx, 'default')
            return S.NONE if out == 'none' else v
        out, v = self.method(cx, 'default')
        return v if out == 'change' else self.apply_default(cx)

    def map(self, cx, raw):
        if 'compute' in self.hooks:
            out, v = self.call(cx, 'compute')
            if out == 'none':
                return self.fallback(cx)
            if out == 'error':
                cx.error('Invalid')
                return S.DROP
        elif self.method(cx, 'compute')[0] == 'change':
            v = self.own['compute'][1]
        elif raw is S.ABSENT:
            return self.fallback(cx)
        elif raw is None:
            v = None
        elif 'parse' in self.hooks:
            out, v = self.call(cx, 'parse', raw)
            if out == 'error':
                cx.error('Invalid')
                return S.DROP
            if out == 'none':
                return self.fallback(cx)
            if out == 'pass':
                v = raw
        else:
            try:
                v = self.inner.parse(raw, cx)
                out, x = self.method(cx, 'parse')
            except S.Bad:
                self.method(cx, 'parse')
                cx.error('Invalid')
                return S.DROP
            if out == 'error' and v is not S.DROP and v is not S.NONE:
                cx.error('Invalid')
                return S.DROP
            if v is S.DROP:
                return v
            if v is S.NONE or out == 'none':
                return self.fallback(cx)
            if out == 'change':
                v = x
        return self.finish(cx, v)

    def finish(self, cx, v):
        """The stages after compute."""
        # munge
        try:
            if self.translations and v in self.translations:
                v = self.translations[v]
        except TypeError:
            pass
        out, x = self.method(cx, 'munge', v)
        if out == 'none':
            return self.fallback(cx)
        if out == 'error':
            cx.error('Invalid')
            return S.DROP
        if out == 'change':
            v = x
        if 'munge' in self.hooks:
            out, x = self.call(cx, 'munge', v)
            if out == 'none':
                return self.fallback(cx)
            if out == 'error':
                cx.error('Invalid')
                return S.DROP
            if out == 'change':
                v = x
        # filter
        out, x = self.method(cx, 'filter', v)
        if v in self.ignores or out == 'none':
            return self.fallback(cx)
        if 'filter' in self.hooks:
            out, x = self.call(cx, 'filter', v)
            if out == 'none':
                return self.fallback(cx)
        # validate
        if self.method(cx, 'validate', v)[0] == 'error':
            cx.error('Invalid')
            return S.DROP
        if v is None:
            if self.nullable is False and self.default != ('lit', None):
                cx.error('Invalid')
                return S.DROP
        else:
            try:
                ok = self.inner.check(v, cx)
            except TypeError:
                raise S.Unpinned()
            if not ok:
                cx.error('Invalid')
                return S.DROP
        if 'validate' in self.hooks:
            out, x = self.call(cx, 'validate', v)
            if out == 'error':
                cx.error('Invalid')
                return S.DROP
        return v


HOOKS = ['compute', 'resolve', 'parse', 'default', 'munge', 'filter', 'validate']


def make_hook(s, name):
    ident = s.ident
    if name == 'resolve':
        key = s.key

        def resolve(self):
            REC[0](self, ident, 'resolve')
            return ctx(src=key)
        return resolve
    out, v = s.hooks[name]
    if name in ('compute', 'default'):
        def compute(self):
            REC[0](self, ident, name)
            return result(self, out, v, None)
        return compute
    if name == 'parse':
        def parse(self, path):
            REC[0](self, ident, 'parse', path.value)
            if out == 'error':
                raise ValueError('parse failed')
            return result(self, out, v, path.value)
        return parse
    if name == 'munge':
        def munge(self, value):
            REC[0](self, ident, 'munge', value)
            return result(self, out, v, value)
        return munge

    def check(self, value):
        REC[0](self, ident, name, value)
        if out == 'error':
            ctx.errors.invalid('refused')
        # any true or false value will do
        return v[0] if out == 'pass' else v[1]
    return check


def make_methods(s):
    """What a field class of one's own overrides."""
    ident, own, ns = s.ident, s.own, {}

    def took(self, stage, *value):
        REC[0](ctx.form, ident, '_' + stage, *value)
        return own[stage]

    if 'compute' in own:
        def _compute(self):
            out, v = took(self, 'compute')
            return v if out == 'change' else super(type(self), self)._compute()
        ns['_compute'] = _compute
    if 'parse' in own:
        def _parse(self, path):
            try:
                value = super(type(self), self)._parse(path)
            finally:
                out, v = took(self, 'parse')
            if value in pilo.IGNORE:
                return value
            if out == 'error':
                raise ValueError('parse failed')
            return result(ctx.form, out, v, value)
        ns['_parse'] = _parse
    if 'munge' in own:
        def _munge(self, value):
            value = super(type(self), self)._munge(value)
            out, v = took(self, 'munge', value)
            return result(ctx.form, out, v, value)
        ns['_munge'] = _munge
    if 'filter' in own:
        def _filter(self, value):
            out, v = took(self, 'filter', value)
            return out == 'pass' and super(type(self), self)._filter(value)
        ns['_filter'] = _filter
    if 'validate' in own:
        def _validate(self, value):
            out, v = took(self, 'validate', value)
            if out == 'error':
                ctx.errors.invalid('refused')
                return False
            return super(type(self), self)._validate(value)
        ns['_validate'] = _validate
    if 'default' in own:
        def _default(self):
            out, v = took(self, 'default')
            return v if out == 'change' else super(type(self), self)._default()
        ns['_default'] = _default
    return ns


def draw_methods(d, s):
    own = {}
    inner = s.inner
    for stage in ['compute', 'parse', 'munge', 'filter', 'validate', 'default']:
        if not d.p(35) or stage == 'default' and 'default' in s.hooks or not hasattr(pf.Field, '_' + stage):
            continue
        if stage == 'compute':
            own[stage] = (d.choice(['pass', 'change']), compat(d, inner))
        elif stage == 'parse':
            own[stage] = (d.choice(['pass', 'change', 'error', 'none', 'pass', 'change']), compat(d, inner))
        elif stage == 'munge':
            own[stage] = (d.choice(['pass', 'change', 'none', 'error', 'pass', 'change']), compat(d, inner))
        elif stage == 'filter':
            own[stage] = (d.choice(['pass', 'pass', 'none']), None)
        elif stage == 'validate':
            own[stage] = (d.choice(['pass', 'pass', 'error']), None)
        else:
            own[stage] = (d.choice(['pass', 'change']), d.choice(CHANGED))
    return own


def result(form, out, v, passed):
    if out == 'none':
        return pilo.NONE
    if out == 'error':
        ctx.errors.invalid('hook failed')
        return pilo.ERROR
    return v if out == 'change' else passed


REC = [None]


def draw_hooks(d, inner, item):
    hooks = {}
    for name in HOOKS:
        if not d.p(40):
            continue
        if name == 'compute':
            if d.p(60):
                continue
            hooks[name] = (d.choice(['change', 'change', 'none', 'error']), compat(d, inner))
        elif name == 'resolve':
            if item or d.p(50):
                continue
            hooks[name] = ('pass', None)
        elif name == 'parse':
            hooks[name] = (d.choice(['change', 'pass', 'error', 'none', 'change']), compat(d, inner))
        elif name == 'default':
            if inner.default != S.REQUIRED:
                continue
            hooks[name] = (d.choice(['change', 'change', 'none']), d.choice(CHANGED))
        elif name == 'munge':
            hooks[name] = (d.choice(['pass', 'change', 'none', 'error', 'pass', 'change']), compat(d, inner))
        elif name == 'filter':
            hooks[name] = (d.choice(['pass', 'pass', 'none']), truths(d))
        else:
            hooks[name] = (d.choice(['pass', 'pass', 'error']), truths(d))
    return hooks


def truths(d):
    return d.choice([True, True, 1, 'yes', [0]]), d.choice([False, False, None, 0, ''])


def compat(d, inner):
    """A value hooks may put in; of a type the constraints can judge."""
    if inner.kind == 'int':
        return d.choice([0, 1, 5, 99, -3, None])
    if inner.kind == 'str':
        return d.choice(['', 'a', 'changed', 'ab', None])
    if inner.kind in ('list', 'tuple', 'dict', 'sub'):
        return None
    return d.choice(CHANGED)


class Drawer(object):

    def __init__(self, d, own=False):
        self.d, self.own = d, own
        self.n = 0

    def field(self, depth, item=False):
        d = self.d
        k = d.n(9)
        if k < 6 or depth <= 0:
            s = d.choice([S.Int, S.Int, S.Str, S.Any]).draw(d)
            if s.kind == 'str' and (s.pattern or s.alphabet or s.length or s.min_length or s.max_length):
                pass
            elif d.p(30):
                s.translations = dict((k, d.choice([7, 'seven', None, 1])) for k in d.sample(
                    [0, 1, 2, 3] if s.kind == 'int' else ['a', 'b', '', 'ab'], d.int(1, 2)))
                if s.kind == 'int':
                    s.lo = s.hi = None
        elif k < 7:
            s = S.List(self.field(depth - 1, True))
        elif k < 8:
            s = S.Map(S.Str(), self.field(depth - 1, True))
        elif k < 9:
            s = S.Tup([self.field(depth - 1, True) for _ in range(d.int(1, 2))])
        else:
            s = S.Sub(self.form(depth - 1))
        s.style = d.n(31)
        if d.p(35):
            s.default = d.choice([S.OPTIONAL, ('lit', 0), ('lit', None), ('lit', 'dflt')])
        if d.p(20):
            s.ignores = [d.choice([0, 'a', None, 99, ''])]
        if d.p(20):
            s.nullable = d.bool()
        hooks = draw_hooks(d, s, item)
        self.n += 1
        out = Hooked(s, 'f{0}'.format(self.n), hooks, d.choice(['a', 'b', 'other']))
        if self.own and d.p(60):
            out.own = draw_methods(d, out)
        return out

    def form(self, depth):
        d = self.d
        return HookForm([(name, self.field(depth)) for name in gen.names(d, d.int(1, 3))])


class HookForm(S.Form):

    def map(self, cx, raw, unmapped=None):
        values = {}
        result_ = S.FormVal(self, values)
        outer, cx.form = cx.form, result_
        for name, s in self.fields:
            key = name
            if 'resolve' in s.hooks:
                s.call(cx, 'resolve')
                key = s.key
            with cx.at(key):
                v = s.map(cx, raw.get(key, S.ABSENT))
            if v is not S.NONE and v is not S.DROP:
                values[name] = v
        cx.form = outer
        return result_


def methods(d):
    """Field classes of one's own that override stages."""
    pipeline(d, True)


def pipeline(d, own=False):
    form = Drawer(d, own).form(2)
    raw = form.raw(d, 25, 'native', absent=25)
    if d.p(40):
        raw['other'] = d.choice([1, 'a', None, 99])
    cls = form.build()
    d.note('form', form)
    d.note('input', raw)
    cx = S.Cx('native')
    cx.keep = []
    want = form.map(cx, raw)
    for _ in range(d.int(1, 2)):
        REC[0] = Recorder()
        got, errors = S.outcome(cls, raw)
        a, b = first_seen(REC[0].calls), first_seen(cx.log)
        if a != b:
            for x, y in zip(a, b):
                if x != y:
                    raise Violation('hook call {0!r} where {1!r} was due'.format(x, y))
            raise Violation('hook calls {0!r} instead of {1!r}'.format(a[len(b):], b[len(a):]))
        S.compare_errors(errors, cx.errors)
        S.compare_value(got, want)
    for c in b:
        d.label(c[3])
    if len(b) > 1:
        d.nontrivial((repr(form), repr(raw)))


def given(d):
    """A field that is given a value by a hook of another field runs the stages after compute on it."""
    drawer = Drawer(d)
    drawer.own = d.p(30)
    x = drawer.field(1)
    values = []
    for _ in range(d.int(1, 3)):
        k = d.n(3)
        v = x.raw(d, 20) if k == 0 else compat(d, x.inner)
        values.append(v if x.kind not in ('list', 'tuple', 'dict', 'sub') else None)
    others = [('y{0}'.format(i), v) for i, v in enumerate(values)]
    form = HookForm([('x', x)])
    raw = form.raw(d, 25, 'native', absent=30)
    d.note('field', x)
    d.note('given', values)
    d.note('input', raw)

    def compute(v):
        def compute(self):
            return type(self).x.map(v)
        return compute

    order = d.shuffled(['x'] + [n for n, _ in others])
    ns = {}
    for n in order:
        if n == 'x':
            ns['x'] = x.build()
        else:
            ns[n] = pf.Field(optional=True)
            ns[n].compute(compute(dict(others)[n]))
    cls = form.cls = type('F', (pilo.Form,), ns)
    cx = S.Cx('native')
    cx.keep = []
    vals = {}
    cx.form = S.FormVal(form, vals)
    for n in order:
        if n == 'x':
            key = n
            if 'resolve' in x.hooks:
                x.call(cx, 'resolve')
                key = x.key
            with cx.at(key):
                v = x.map(cx, raw.get(key, S.ABSENT))
        else:
            with cx.at(n):
                v = x.finish(cx, dict(others)[n])
        if v is not S.NONE and v is not S.DROP:
            vals[n] = v
    REC[0] = Recorder()
    got, errors = S.outcome(cls, raw)
    a, b = first_seen(REC[0].calls), first_seen(cx.log)
    if a != b:
        raise Violation('hook calls {0!r} instead of {1!r}'.format(a, b))
    S.compare_errors(errors, cx.errors)
    if sorted(got) != sorted(vals):
        raise Violation('fields {0!r} instead of {1!r}'.format(sorted(got), sorted(vals)))
    for k in vals:
        S.compare_value(got[k], vals[k], at=k)
    if len(b) > 1:
        d.nontrivial((repr(x), repr(values), repr(raw), order))


CAPTURES = [
    (r'(\w+)-(\d+)', None), (r'(?P<a>\d+)x(?P<b>\w*)', 'b'), (r'(?P<cap>\d+)x(?P<b>\w*)', None), (r'x(y)?', None),
    (r'(?P<b>\d+)x(?P<cap>\w*)', 'b'), (r'(?P<cap>[a-z]*)-?(?P<b>\d)', 'b'), (r'(\w)(?P<cap>\w)(?P<b>\w?)', None),
    (r'abc', None), (r'(?P<z>a)|(b)', 'z'), (r'(?P<b>\d+)x(?P<cap>\w*)', None), (r'(\d)(\d)', 'nope'),
]


def captured(pattern, name, field_name, text):
    """What capturing is documented to yield: the named group, else the group of the field's name, else the first."""
    import re
    m = re.match(pattern, text)
    if not m:
        return S.ABSENT
    if name is not None:
        wanted = [name]
    else:
        wanted = [field_name]
    groups = m.groupdict()
    for w in wanted:
        if w in groups:
            return m.group(w)
    return m.group(1) if m.re.groups >= 1 else S.ABSENT


def capture(d):
    """Munging by String.capture."""
    pattern, name = d.choice(CAPTURES)
    text = d.choice([
        lambda: ''.join(d.choice('ab1xy-z2') for _ in range(d.size(0, 7))), lambda: '12x' + gen.text(d), lambda: 'ab-12',
        lambda: 'x' + d.choice(['y', 'z', '']), lambda: d.choice(['a', 'b', 'abc', 'abcd', 'cab'])])()
    s = S.Str()
    default = d.choice([S.REQUIRED, S.OPTIONAL, ('lit', 'dflt'), ('lit', None)])
    s.default = default
    raw = d.choice([text, text, text, text, None, 5, S.ABSENT])
    f = s.build()
    cls = type('F', (pilo.Form,), {'cap': f.capture(pattern, name) if name else f.capture(pattern)})
    d.note('pattern', (pattern, name))
    d.note('raw', raw)
    want, errs = {}, []
    v = raw
    if isinstance(raw, str):
        v = captured(pattern, name, 'cap', raw)
    if v is S.ABSENT:
        if default == S.REQUIRED:
            errs = [('Missing', 'cap')]
        elif default[0] == 'lit':
            want['cap'] = default[1]
    elif isinstance(v, int):
        errs = [('Invalid', 'cap')]
    else:
        want['cap'] = v
    form = S.Form([('cap', s)])
    got, errors = S.outcome(cls, {} if raw is S.ABSENT else {'cap': raw})
    S.compare_errors(errors, errs)
    S.compare_value(got, S.FormVal(form, want))
    d.nontrivial((pattern, name, repr(raw), repr(default)))


def signatures(d):
    """Functions that do not fit the stage are refused; the field stays as it is."""
    s = d.choice([S.Int, S.Str, S.Bool, S.Any]).draw(d)
    f = s.build()
    tried = []
    for _ in range(d.int(1, 3)):
        hook = d.choice(HOOKS)
        n = {'compute': 1, 'resolve': 1, 'default': 1}.get(hook, 2)
        funcs = [x for i, x in enumerate([lambda: 1, lambda self: 1, lambda self, value: True, lambda self, value, more: True])
                 if i != n] + [lambda self, value, *more: True, lambda self, **kw: 1]
        func = d.choice(funcs)
        tried.append(hook)
        try:
            getattr(f, hook)(func)
        except TypeError:
            continue
        raise Violation('a {0} hook with the parameters {1!r} was taken'.format(hook, func.__code__.co_varnames))
    form = S.Form([('f', s), ('z', S.Int())])
    cls = type('F', (pilo.Form,), dict(f=f, z=pf.Integer()))
    form.cls = cls
    raw = form.raw(d, 30, 'native', absent=20)
    d.note('field', s)
    d.note('hooks', tried)
    d.note('input', raw)
    cx = S.Cx('native')
    want = form.map(cx, raw)
    got, errors = S.outcome(cls, raw)
    S.compare_errors(errors, cx.errors)
    S.compare_value(got, want)
    d.nontrivial((tried, repr(s), repr(raw)))


def functions(d):
    """Values that are functions, some like the hooks themselves."""
    calls = []

    def shape(i):
        kind = d.choice(['same', 'lambda', 'path', 'none', 'class', 'builtin', 'plain'])
        if kind == 'same':
            def munge(self, value):
                raise Violation('the value was called')
            return munge
        if kind == 'lambda':
            return lambda self, value: True
        if kind == 'path':
            return lambda self, path: None
        if kind == 'none':
            return lambda self: None
        return {'class': Recorder, 'builtin': len, 'plain': i}[kind]

    values = [shape(i) for i in range(d.int(1, 5))]
    hooks = [h for h in ('munge', 'filter', 'validate') if d.p(60)] or ['munge']
    field = pf.Field()

    def make(hook):
        if hook == 'munge':
            def munge(self, value):
                calls.append((hook, value))
                return value
        else:
            def munge(self, value):
                calls.append((hook, value))
                return True
        return munge

    for hook in hooks:
        getattr(field, hook)(make(hook))
    where = d.choice(['field', 'list', 'dict'])
    a = dict(field=lambda: field, list=lambda: pf.List(field), dict=lambda: pf.Dict(pf.Field(), field))[where]()
    cls = type('F', (pilo.Form,), {'a': a})
    d.note('hooks', (where, hooks))
    d.note('values', values)
    inputs = ([[v] for v in values] if where == 'field' else [values, values])
    for given_values in inputs:
        del calls[:]
        raw = given_values[0] if where == 'field' else given_values if where == 'list' else dict(enumerate(given_values))
        form, errors = S.outcome(cls, {'a': raw})
        if errors:
            raise Violation('{0!r} from {1!r}'.format(errors, raw))
        if calls != [(h, v) for v in given_values for h in hooks]:
            raise Violation('called {0!r} for {1!r}'.format(calls, raw))
        if form['a'] != raw:
            raise Violation('{0!r} instead of {1!r}'.format(form['a'], raw))
    if any(callable(v) for v in values):
        d.nontrivial((where, tuple(hooks), tuple(repr(type(v)) for v in values)))


TESTS = [('methods', methods, 3500, 80000),
    ('functions', functions, 800, 10000),
    ('given', given, 2500, 50000),
    ('pipeline', pipeline, 11000, 250000), ('capture', capture, 2500, 30000),
         ('signatures', signatures, 800, 8000)]
