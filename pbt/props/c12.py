"""C12: a form instance over its history."""
import pilo
from pilo import ctx, fields as pf

from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for

PROP = 'C12'
RULE = ('a case drives instances of one form class through a random history of mappings (all fields or by tags, with and '
        'without reset, collecting or raising), reads, writes, deletes and queries against a dict model, comparing after '
        'every step; it counts when some mapping or read changed a form that already had values; distinct by (schema, '
        'history)')

G = S.Gen(depth=1, max_fields=4, callables=False)
NAMES = ['src', 'name', 'parent', 'value', 'tags', 'field', 'errors', 'form']
TAGS = ['t', 'u', 'v', 'w', 'x']


class Seen(S.Spec):
    """A field computed from what another one has at the moment."""

    kind = 'seen'

    def __init__(self, other):
        super(Seen, self).__init__()
        self.other = other

    def desc(self):
        return 'Seen({0})'.format(self.other)

    __repr__ = desc

    def build(self):
        other = self.other

        def compute(self):
            return ('seen', dict.get(self, other, 'nothing'))
        f = pf.Field(tags=self.tags) if self.tags else pf.Field()
        return f.compute(compute)


class Raised(object):

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Raised({0})'.format(self.what)


class Machine(object):

    def __init__(self, form):
        self.form = form
        self.cls = form.build()
        self.real = []
        self.state = []

    def spec(self, name):
        return dict(self.form.fields)[name]

    def selected(self, tags):
        return [(n, s) for n, s in self.form.fields if not tags or set(tags) & set(s.tags or ())]

    def apply(self, state, raw, tags, cx):
        """Maps in the model; gives what each field would store, in order."""
        done = []
        for name, s in self.selected(tags):
            if isinstance(s, Seen):
                v = ('seen', state.get(s.other, 'nothing'))
            else:
                key = s.src if s.src is not None else name
                with cx.at(key):
                    v = s.map(cx, self.form.lookup(s, name, raw))
            if v is not S.NONE and v is not S.DROP:
                state[name] = v
                done.append((name, v))
        return done

    def read(self, i, name):
        """What reading gives in the model."""
        state = self.state[i]
        if name in state:
            return state[name]
        s = self.spec(name)
        if isinstance(s, Seen):
            v = ('seen', state.get(s.other, 'nothing'))
        else:
            cx = S.Cx()
            v = s.map(cx, S.ABSENT)
            if cx.errors:
                return Raised('form error')
        if v is S.NONE or v is S.DROP:
            return Raised('attribute error')
        state[name] = v
        return v


def attempt(fn):
    try:
        return fn()
    except pf.FormError:
        return Raised('form error')
    except AttributeError:
        return Raised('attribute error')
    except KeyError:
        return Raised('key error')


def same(got, want, what):
    if isinstance(got, Raised) or isinstance(want, Raised):
        if not (isinstance(got, Raised) and isinstance(want, Raised) and got.what == want.what):
            raise Violation('{0}: {1!r} instead of {2!r}'.format(what, got, want))
        return
    r = S.differs(got, want, what)
    if r:
        raise Violation(r)


def history(d):
    form = S.draw_form(d, G, 1, lo=2)
    if d.p(30):
        used = set(n for n, _ in form.fields)
        for i, (n, s) in enumerate(form.fields):
            if d.bool():
                name = d.choice(NAMES)
                if name not in used:
                    used.add(name)
                    form.fields[i] = (name, s)
    if d.p(40):
        form.fields.insert(d.int(0, len(form.fields)), ('seen', Seen(d.choice([n for n, _ in form.fields]))))
    for n, s in form.fields:
        if d.bool():
            s.tags = d.sample(TAGS, d.int(1, 2))
    names = [n for n, _ in form.fields]
    m = Machine(form)
    d.note('form', form)
    steps = []
    d.note('history', steps)
    used = False

    def new():
        m.real.append(m.cls())
        m.state.append({})

    new()
    for _ in range(d.size(2, 14)):
        i = d.n(len(m.real) - 1)
        real, state = m.real[i], m.state[i]
        before = S.plain(state)
        k = d.n(14)
        if k < 6:
            raw = form_raw(d, form)
            tags = d.sample(TAGS, d.choice([1, 1, 2, 2, 3, 5])) if d.p(40) else None
            reset = d.p(30)
            mode = d.choice(['collect', 'collect', 'raise'])
            kw = {}
            if tags:
                kw['tags'] = d.choice([list, set, frozenset])(tags)
            if reset:
                kw['reset'] = True
            if mode == 'raise':
                kw['error'] = 'raise'
            around = tags and not any(isinstance(x, S.Sub) for x in form.specs()) and d.p(30)
            flavor = d.choice(['native', 'json']) if jsonable(raw) else 'native'
            if d.p(12):
                # without a source
                raw, flavor = {}, 'none'
            steps.append(('map', i, raw, flavor, kw, 'around' if around else ''))
            if reset:
                for n, _s in m.selected(tags):
                    state.pop(n, None)
            kept = dict(state)
            cx = S.Cx('native' if flavor == 'none' else flavor)
            m.apply(state, raw, tags, cx)
            source = None if flavor == 'none' else source_for(d, flavor, raw)
            if around:
                # as context variable
                variable = kw.pop('tags')
                with ctx(tags=variable):
                    out = attempt(lambda: real.map(source, **kw))
            else:
                out = attempt(lambda: real.map(source, **kw))
            if mode == 'raise':
                if cx.errors:
                    if not isinstance(out, Raised) or out.what != 'form error':
                        raise Violation('no form error but {0!r}; errors are {1}'.format(out, cx.errors))
                    # it stops at the first error: each field is as before, or mapped
                    stopped(m, i, kept, state, cx.errors)
                elif out is not real:
                    raise Violation('raise mode gives {0!r}'.format(out))
            else:
                if isinstance(out, Raised):
                    raise Violation('mapping raised a {0}'.format(out.what))
                S.compare_errors(out, cx.errors)
        elif k < 8:
            n = d.choice(names)
            steps.append(('read', i, n))
            same(attempt(lambda: getattr(real, n)), m.read(i, n), 'reading ' + n)
        elif k < 9:
            n = d.choice(names)
            v = d.choice([None, 0, 'w', [1], {'k': 1}, 7.5])
            steps.append(('write', i, n, v))
            if d.bool():
                setattr(real, n, v)
            else:
                real[n] = v
            state[n] = v
        elif k < 11:
            n = d.choice(names)
            steps.append(('delete', i, n))
            if d.p(80):
                delattr(real, n)
                state.pop(n, None)
            else:
                same(attempt(lambda: real.__delitem__(n)), None if n in state else Raised('key error'), 'del item')
                state.pop(n, None)
        elif k < 12:
            n = d.choice(names)
            steps.append(('has', i, n))
            v = m.read(i, n)
            want = not isinstance(v, Raised) and (v is not None or n in before)
            arg = n if d.bool() else getattr(m.cls, n)
            got = real.has(arg)
            if isinstance(arg, str) and n in before:
                want = True
            elif not isinstance(arg, str):
                want = not isinstance(v, Raised) and v is not None
            if got is not want:
                raise Violation('has({0}) is {1!r}'.format(n, got))
        elif k < 13:
            steps.append(('query', i))
            for n in names:
                if (n in real) is not (n in state):
                    raise Violation('{0} in form is {1}'.format(n, n in real))
                same(dict.get(real, n, 'none'), state.get(n, 'none'), 'get ' + n)
            if len(real) != len(state) or sorted(dict.keys(real)) != sorted(state):
                raise Violation('keys are {0!r} not {1!r}'.format(sorted(real), sorted(state)))
        elif len(m.real) < 3:
            steps.append(('new',))
            new()
        for j in range(len(m.real)):
            if type(m.real[j]) is not m.cls:
                raise Violation('is a {0!r}'.format(type(m.real[j])))
            r = S.differs(dict(m.real[j]), m.state[j], 'form {0} after {1}'.format(j, len(steps)))
            if r:
                raise Violation(r)
        if before and k < 8 and S.plain(state) != before:
            used = True
    if used:
        d.nontrivial((repr(form), repr(steps)))
    d.label('steps: {0}'.format(min(len(steps) // 4 * 4, 12)))


def stopped(m, i, kept, state, errors):
    real = m.real[i]
    for n, s in m.form.fields:
        if n in real:
            v = dict.__getitem__(real, n)
            if n in kept and S.differs(v, kept[n]) is None:
                state[n] = kept[n]
            elif n not in state or S.differs(v, state[n]):
                raise Violation('{0} is {1!r} after a failed mapping'.format(n, v))
        else:
            if n in kept:
                raise Violation('{0} is gone after a failed mapping'.format(n))
            state.pop(n, None)


def jsonable(raw):
    return not any(isinstance(x, (S._Mark,)) for x in [raw]) and S.jsonable(raw)


def form_raw(d, form):
    inner = S.Form([(n, s) for n, s in form.fields if not isinstance(s, Seen)])
    return inner.raw(d, d.choice([0, 25, 50]), 'native', absent=d.choice([12, 50]))


TESTS = [
    ('history', history, 6000, 150000),
]
