"""C28: declarations and calls that cannot work."""
import collections
import re

import pilo
from pilo import ctx, fields as pf
from pilo.source import DefaultSource

from .. import gen, hooked as H, spec as S
from ..engine import Violation

PROP = 'C28'
RULE = ('a case draws a declaration (tuple, list, group) or a call (map, has) that is well-formed or damaged in a drawn '
        'way; the damaged ones have to be refused with the documented kind of error and leave everything as it was, the '
        'others have to be taken and to work; it counts when something was refused, or a form that was declared so was '
        'mapped; distinct by what was declared or called and the data')


class Plain(object):

    def __repr__(self):
        return 'Plain()'


def junk(d, text=True):
    """What no field is."""
    out = [3, 0, None, True, 2.5, {'a': 1}, set(), Plain(), int, pilo.Form, b'ab', re.compile('a'), lambda: pf.Field(),
           pf.Field, pf.Integer]
    if text:
        out += ['a', '']
    return d.choice(out)


def refused(fn, kind, what):
    before = H.look()
    try:
        r = fn()
    except kind as ex:
        if type(ex) is not kind and kind is not Exception:
            raise Violation('{0} was refused with {1!r}'.format(what, ex))
        bad = H.unlike(before, H.look())
        if bad:
            raise Violation('{0} was refused, but {1}'.format(what, bad))
        return ex
    except Exception as ex:
        raise Violation('{0} was refused with {1!r} instead of a {2}'.format(what, ex, kind.__name__))
    raise Violation('{0} was taken: {1!r}'.format(what, r))


def items(d, lo=1):
    out = []
    for _ in range(d.int(lo, 4)):
        s = d.choice([S.Int, S.Str, S.Bool, S.Any])()
        k = d.n(6)
        if k == 6:
            s.default = ('hook', lambda: 9, lambda: 9)
        elif k == 0:
            s.default = S.OPTIONAL
        elif k < 3:
            s.default = ('lit', d.choice([None, 0, '', 'x', False, [], 5]))
        elif k == 3:
            s.default = ('call', list, list)
        out.append(s)
    return out


def tuples(d):
    first = pf.Integer()
    specs = items(d)
    fields = [s.build() for s in specs]
    kw = {}
    src = d.choice([None, None, 'key'])
    error = None
    if d.p(50):
        kw['allow_field'] = d.p(80)
        if kw['allow_field'] and any(s.default == S.REQUIRED for s in specs[1:]):
            error = ValueError
    spread = len(fields) > 1 and d.bool()
    how = d.n(5)
    if how == 0:
        # something else among them
        at = d.n(len(fields) - 1)
        if spread or d.bool():
            first = at == 0 and spread and src is None
            fields[at] = junk(d, text=not first)
        else:
            fields.insert(at, junk(d))
        error = TypeError
    args = list(fields) if spread else [d.choice([list, tuple])(fields)]
    if how == 1:
        # no sequence at all
        args = [d.choice([3, None, {'a': fields[0]}, set(), Plain(), fields[0], iter(fields), pilo.Form, 1.5])]
        error = TypeError
    if src:
        args.insert(0, src)
    d.note('tuple', (args, kw))
    if error:
        refused(lambda: pf.Tuple(*args, **kw), error, 'the tuple')
        d.label('tuple refused')
        d.nontrivial(('tuple', repr(specs), how, repr(kw), src, spread))
        return
    spec = S.Tup(specs)
    spec.src = src
    form = S.Form([('a', S.Int()), ('t', spec), ('z', S.Str())])
    cls = type('F', (pilo.Form,), dict(a=first, t=pf.Tuple(*args, **kw), z=pf.String()))
    form.cls = cls
    works(d, form)


def works(d, form):
    raw = form.raw(d, 20, 'native')
    d.note('data', raw)
    cx = S.Cx('native')
    want = form.map(cx, raw)
    got, errors = S.outcome(form.cls, raw)
    S.compare_errors(errors, cx.errors)
    S.compare_value(got, want)
    d.label('taken')
    d.nontrivial((repr(form), repr(raw)))


def lists(d):
    item = d.choice([S.Int, S.Str, S.Bool, S.Any])()
    sub = d.p(30)
    if sub:
        item = S.Sub(S.Form([('x', item)]))
    src = d.choice([None, 'key'])
    kw = {}
    if d.p(30):
        kw['min_length'] = d.int(0, 2)
    if d.p(30):
        kw['nullable'] = d.bool()
    if d.p(30):
        kw['default'] = None
    args = [src] if src else []
    if d.p(40):
        d.note('list', (args, kw))
        refused(lambda: pf.List(*args, **kw), Exception, 'the list without items')
        d.label('list refused')
        d.nontrivial(('list', src, repr(kw)))
        return
    field = item.form.build() if sub and d.bool() else item.build()
    if not isinstance(field, type) and d.p(40):
        kw['field'] = field
    else:
        args.insert(d.int(0, len(args)), field)
    d.note('list', (args, kw))
    spec = S.List(item)
    spec.src, spec.min_length, spec.nullable = src, kw.get('min_length'), kw.get('nullable')
    if 'default' in kw:
        spec.default = ('lit', None)
    form = S.Form([('a', S.Int()), ('t', spec)])
    form.cls = type('F', (pilo.Form,), dict(a=pf.Integer(), t=pf.List(*args, **kw)))
    works(d, form)


def subforms(d):
    """Sub-forms of classes, of fields, and of nothing."""
    specs = [(n, d.choice([S.Int, S.Str, S.Bool, S.Any])()) for n in gen.names(d, d.int(0, 4))]
    inner = S.Form(specs)
    src = d.choice([None, 'key'])
    kw = {}
    first = pf.Integer()
    if d.p(30):
        kw['nullable'] = d.bool()
    if d.p(30):
        kw['default'] = None
    if d.p(30):
        kw['unmapped'] = 'capture'
    args = [src] if src else []
    how = d.n(3)
    if how == 0:
        if d.bool():
            args.insert(0, d.choice([inner.build()(), dict, int, pf.Form.__bases__[0], 5, None]))
        d.note('sub-form', (args, kw))
        refused(lambda: pf.SubForm(*args, **kw), Exception, 'the sub-form of no form')
        d.label('sub-form refused')
        d.nontrivial(('sub-form', repr(args), repr(kw)))
        return
    spec = S.Sub(inner)
    if how == 1:
        field = pf.SubForm.from_fields(**dict((n, s.build()) for n, s in specs))
        src = None
        kw = {}
    elif how == 2:
        cls = pilo.Form.from_fields(**dict((n, s.build()) for n, s in specs))
        args.insert(d.int(0, len(args)), cls)
        field = pf.SubForm(*args, **kw)
    else:
        args.insert(d.int(0, len(args)), inner.build())
        field = pf.SubForm(*args, **kw)
    if how < 3:
        # in the order in which the fields were made
        if [f.name for f in field.form_type.fields] != [n for n, _ in specs]:
            raise Violation('fields {0!r}'.format([f.name for f in field.form_type.fields]))
    d.note('sub-form', (how, args, kw))
    spec.src, spec.nullable, spec.unmapped = src, kw.get('nullable'), kw.get('unmapped')
    if 'default' in kw:
        spec.default = ('lit', None)
    form = S.Form([('a', S.Int()), ('t', spec)])
    form.cls = type('F', (pilo.Form,), dict(a=first, t=field))
    works(d, form)


def groups(d):
    good = True

    def alternative(depth, damaged):
        k = d.n(5)
        if damaged:
            return d.choice([
                lambda: pf.Integer(), lambda: ('a',), lambda: ('a', pf.Integer(), 1), lambda: (), lambda: 'a', lambda: 5,
                lambda: None, lambda: {'a': 1}, lambda: pilo.Form, lambda: Plain(), lambda: pf.Field, lambda: {'a'},
                lambda: pf.List(pf.Integer()), lambda: re.compile('a')])()
        if k < 2:
            return d.choice([pf.Integer, pf.String, pf.Field])(d.choice(['a', 'b', 'x-y']))
        if k < 5 or depth <= 0:
            return (d.choice(['a', 'b', 'c', re.compile('k.*')]), d.choice([pf.Integer, pf.Field])())
        return [alternative(depth - 1, False) for _ in range(d.int(0, 3))]

    args = [alternative(2, False) for _ in range(d.int(0, 3))]
    if d.p(70):
        bad = alternative(2, True)
        for _ in range(d.size(0, 3)):
            # some lists around it
            around = [alternative(0, False) for _ in range(d.int(0, 2))]
            around.insert(d.int(0, len(around)), bad)
            bad = around
        args.insert(d.int(0, len(args)), bad)
        good = False
    d.note('group', args)
    if not good:
        refused(lambda: pf.Group(*args), ValueError, 'the group')
        d.label('group refused')
        d.nontrivial(('group', repr(args)))
        return
    cls = type('F', (pilo.Form,), dict(a=pf.Integer('n'), g=pf.Group(*args)))
    form, errors = S.outcome(cls, {'n': 3})
    if errors or form['g'] != [] or form['a'] != 3:
        raise Violation('{0!r}, {1!r}'.format(dict(form), errors))
    d.label('taken')
    d.nontrivial(('group', repr(args)))


def sources(d):
    """What is no source."""
    return d.choice([5, 0, 1.5, 'text', '', b'{}', u'\u00e9', set(), frozenset(), Plain(), True, False, object, int, pf.Field(),
                     pilo.Form, iter([]), iter([1]), range(3), collections.deque(), (x for x in 'ab'), 3j])


def calls(d):
    """Of a form that has some values, maybe within another mapping."""
    g = S.Gen(flavor='native', depth=1, callables=False, max_fields=4, srcs=False)
    form = S.draw_form(d, g)
    cls = form.build()
    target, _errors = S.outcome(cls, form.raw(d, 20, 'native'))
    if d.p(40):
        dict.__setitem__(target, 'more', 1)
    what = d.n(5)
    around = d.choice(['none', 'none', 'variables', 'source', 'hook'])
    d.note('form', form)
    d.note('values', dict(target))
    d.note('around', around)

    def act():
        if what < 3:
            src = sources(d)
            kw = {}
            if d.p(20):
                kw['error'] = d.choice(['collect', 'raise'])
            if d.p(20):
                kw['unmapped'] = d.choice(['capture', 'ignore'])
            if d.p(20):
                kw['tags'] = ['t']
            d.note('map', (src, kw))
            refused(lambda: target.map(src, **kw), ValueError, 'mapping {0!r}'.format(src))
            key = ('map', type(src).__name__, repr(kw))
        elif what < 5:
            x = d.choice([3, None, b'a', Plain(), (), ('a',), int, pilo.Form, pf.Integer, {}, [], {'a'}, 1.5, True,
                          re.compile('a')])
            d.note('has', x)
            refused(lambda: target.has(x), TypeError, 'asking for {0!r}'.format(x))
            key = ('has', repr(x))
        else:
            name = d.choice(['nothing', 'map', 'keys', '', 'a b', 'has', 'fields', '0', u'\u00e9', 'items', 'a.b'])
            if name in dict(form.fields) or name in dict(target):
                return
            d.note('has', name)
            if target.has(name) is not False:
                raise Violation('it has {0!r}'.format(name))
            key = ('has', name)
        d.nontrivial((repr(form), around, key))
        d.label(key[0])

    values = S.plain(target)
    count = len(H.look()[0]['values'])
    if around == 'none':
        act()
    elif around == 'variables':
        with ctx(user1=3, form=target):
            act()
    elif around == 'source':
        with ctx(src=DefaultSource({'a': {'b': 1}})):
            with ctx(src='a'):
                act()
                if not ctx.src_path.exists or str(ctx.src_path) != 'a':
                    raise Violation('the source path is {0}'.format(ctx.src_path))
    else:
        done = []
        class Outer(pilo.Form):
            a = pf.Integer()
            z = pf.Integer()
            @a.munge
            def a(self, value):
                done.append(1)
                act()
                return value + 1
        outer, errors = S.outcome(Outer, {'a': 1, 'z': 2})
        if dict(outer) != {'a': 2, 'z': 2} or errors or done != [1]:
            raise Violation('around it: {0!r}, {1!r}'.format(dict(outer), errors))
    r = S.differs(S.plain(target), values)
    if r:
        raise Violation('the form changed: {0}'.format(r))
    if len(H.look()[0]['values']) != count:
        raise Violation('the context changed')
    # a later mapping is as usual
    raw = form.raw(d, 20, 'native')
    cx = S.Cx('native')
    want = form.map(cx, raw)
    got, errors = S.outcome(cls, raw)
    S.compare_errors(errors, cx.errors)
    S.compare_value(got, want)


TESTS = [
    ('tuples', tuples, 2500, 40000),
    ('lists', lists, 1200, 20000),
    ('subforms', subforms, 1500, 20000),
    ('groups', groups, 2500, 40000),
    ('calls', calls, 3000, 50000),
]
