"""C07: the context is restored, whatever happens."""
from pilo import ctx, fields as pf, SourceError
from pilo.source import DefaultSource

from .. import hooked as H, spec as S
from ..engine import Violation

PROP = 'C07'
RULE = ('a case draws a form class with random hooks, an input, a surrounding context and a way of mapping, counts the '
        'hook invocations of a fault-free run, and then fails each one of them in turn with a drawn exception; it '
        'counts when there was at least one hook invocation to fail; distinct by (input, hook log)')

EXCS = [H.Boom, H.Abort, ValueError, KeyError, AttributeError, TypeError,
        lambda: SourceError(None, 'source'), lambda: pf.FormError(), StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit]


def outcome(fn):
    try:
        r = fn()
    except BaseException as ex:
        return ('raised', type(ex).__name__, str(ex))
    return ('gave', r)


def result_of(form, errors):
    return (repr(S.plain(form)), [str(e) for e in errors])


def collect(cls, raw):
    form = cls()
    errors = form.map(raw)
    return result_of(form, errors)


def raising(cls, raw):
    return repr(S.plain(cls().map(raw, error='raise')))


def construct(cls, raw):
    return repr(S.plain(cls(raw)))


def nested(cls, raw):
    """Mapping from the source of the surrounding context."""
    with ctx(src=DefaultSource({'in': raw}), errors=pf.CollectErrors()):
        with ctx(src='in'):
            form = cls()
            errors = form.map()
            if str(ctx.src_path) != 'in':
                raise Violation('source path is {0!r} after a nested mapping'.format(str(ctx.src_path)))
            return result_of(form, errors)


def on_demand(cls, raw):
    form = cls()
    out = []
    for f in cls.fields:
        try:
            out.append(repr(S.plain(getattr(form, f.name))))
        except (AttributeError, ValueError) as ex:
            out.append(type(ex).__name__)
    return out


def has(cls, raw):
    form = cls()
    return [form.has(f.name) for f in cls.fields]


WAYS = [collect, collect, construct, raising, nested, on_demand, has]


class Source_(object):

    def __init__(self):
        self.tree = {'a': {'b': [1, 2]}}


def surrounded(d, fn):
    """Runs fn within a drawn surrounding context."""
    k = d.n(4)
    if k == 0:
        return fn()
    if k == 1:
        with ctx(user1=1, user2='two'):
            return fn()
    if k == 2:
        with ctx(user1=1):
            with ctx(user1=2, ignore_missing=True):
                return fn()
    if k == 3:
        with ctx(src=DefaultSource({'a': {'b': [1, 2]}}), user2=3):
            with ctx(src='a'):
                with ctx(src='b'):
                    return fn()
    with ctx.reset():
        with ctx(user2=9):
            return fn()


def from_context(d, cls):
    """Along with fields whose source is the context."""
    ns = {}
    for name, key in (('fc1', 'user1'), ('fc2', 'user2'), ('fc3', 'nobody')):
        if d.bool():
            f = d.choice([pf.Field, pf.Integer])(key, **d.choice([{}, dict(default=None), dict(default=4)]))
            if d.bool():
                f.munge(H._munge(('none', None, name + '.munge')))
            ns[name] = f.from_context()
    return type('FromContext', (cls,), ns)


def faults(d):
    cls, hooks = H.draw_class(d)
    if d.p(30):
        cls = from_context(d, cls)
    raw = H.form_data(d, cls)
    way = d.choice(WAYS)
    excs = [d.choice(EXCS) for _ in range(3)]
    d.note('fields', [(f.name, type(f).__name__) for f in cls.fields])
    d.note('hooks', hooks)
    d.note('input', raw)
    d.note('way', way.__name__)

    def body():
        before = H.look()

        def check(what):
            bad = H.unlike(before, H.look())
            if bad:
                raise Violation('{0}: {1}'.format(what, bad))

        w = H.World()
        H.enter(w)
        reference = outcome(lambda: way(cls, raw))
        check('after a mapping without faults')
        if w.problem:
            raise Violation(w.problem)
        n = w.n
        log = w.log
        stride = 1 if n <= 40 else n // 40 + 1
        for i in range(1, n + 1, stride):
            exc = excs[i % 3]
            w = H.World(i, exc)
            H.enter(w)
            r = outcome(lambda: way(cls, raw))
            where = '{0} at invocation {1} ({2})'.format(getattr(exc, '__name__', 'SourceError'), i, log[i - 1])
            check('after ' + where)
            if w.problem:
                raise Violation('with {0}: {1}'.format(where, w.problem))
            d.label('fault ' + r[0])
        # behaves as if no fault had ever happened
        w = H.World()
        H.enter(w)
        again = outcome(lambda: way(cls, raw))
        if again != reference:
            raise Violation('after the faults the mapping gives {0!r}, before them {1!r}'.format(again, reference))
        if w.log != log:
            raise Violation('after the faults the hooks called are {0!r}, before them {1!r}'.format(w.log, log))
        return n, log

    n, log = surrounded(d, body)
    d.label('{0} fault points'.format(n if n < 5 else '5-19' if n < 20 else '20 or more'))
    d.label(way.__name__)
    if n:
        d.nontrivial((repr(raw), way.__name__, repr(log)))


def failures(d):
    """Mappings that fail through their input alone, without hooks, in all modes."""
    g = S.Gen(flavor='native', depth=2, callables=False)
    form = S.draw_form(d, g)
    raw = form.raw(d, 60, 'native', absent=40)
    cls = form.build()
    if d.p(20):
        cls = type('More', (cls,), dict(fc=pf.Integer('user2', default=1).from_context(),
                                        fd=pf.Integer('nobody').from_context()))
    d.note('form', form)
    d.note('input', raw)

    def body():
        before = H.look()
        for way in (collect, construct, raising, nested, on_demand, has):
            r = outcome(lambda: way(cls, raw))
            bad = H.unlike(before, H.look())
            if bad:
                raise Violation('after {0}, which {1}: {2}'.format(way.__name__, r[0], bad))
        for junk in (3, 'text', [1, 2], None):
            r = outcome(lambda: cls().map(junk))
            bad = H.unlike(before, H.look())
            if bad:
                raise Violation('after mapping {0!r}: {1}'.format(junk, bad))

    surrounded(d, body)
    d.nontrivial((repr(form), repr(raw)))


TESTS = [
    ('faults', faults, 2200, 60000),
    ('failures', failures, 1500, 40000),
]
