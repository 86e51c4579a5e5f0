"""C20: what unmapped capture keeps."""
import json

import pilo
from pilo import ctx, fields as pf
from pilo.source import DefaultSource, JsonSource

from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for
from . import c18

PROP = 'C20'
RULE = ('a case maps a generated form, with nested and polymorphic sub-forms, some of which (or the root) capture unmapped '
        'keys by keyword, value field or field pair, over data with extra keys at every level; contents and errors are '
        'compared with a model, and the declared fields with the mapping without capture; it counts when something was '
        'captured; distinct by (schema, directives, data)')

G = dict(depth=2, callables=False, wide=False, flat=True)
EXTRA = ['extra', 'zzz', 'q', 'more', 'X', 'items', 'keys', 'copy', 'map', u'\u00e9', 'a b', 'a.b', '', '0', 's1', 's2', 'src']


class Directive(object):
    """What to do with unmapped keys."""

    def __init__(self, kind, key=None, value=None, style=0):
        self.kind, self.key, self.value, self.style = kind, key, value, style

    def __repr__(self):
        return 'Directive({0} {1} {2})'.format(self.kind, self.key or '', self.value or '')

    def arg(self):
        if self.kind == 'value':
            return self.value.build()
        if self.kind == 'pair':
            pair = (self.key.build(), self.value.build())
            return list(pair) if self.style else pair
        return self.kind

    def capture(self, cx, raw, values):
        if self.kind in (None, False, '', 'ignore'):
            return
        key = self.key or S.Str()
        value = self.value or S.Any()
        out = {}
        for k, r in raw.items():
            if k in values:
                continue
            with cx.at(k):
                v = value.map(cx, r)
            if v is S.DROP or v is S.NONE:
                continue
            k = key.map_key(cx, k)
            if k is S.DROP or k is S.NONE:
                continue
            out[k] = v
        if out:
            cx.captured = True
        values.update(out)


OFF = Directive('ignore')


def draw_directive(d, g, off=30):
    if d.p(off):
        return d.choice([OFF, OFF, Directive(None), Directive(False), Directive('')])
    k = d.n(3)
    if k < 2:
        return Directive('capture')
    value = S.draw_field(d, g, 1, 'item')
    value.src = None
    if k == 2:
        return Directive('value', None, value)
    key = S.Str.draw(d) if d.p(60) else S.Str()
    return Directive('pair', key, value, d.n(1))


class CapForm(S.Form):

    def map(self, cx, raw, unmapped=OFF):
        result = super(CapForm, self).map(cx, raw)
        unmapped.capture(cx, raw, result.values)
        return result

    def fill(self, d, raw, directive, flavor):
        """Adds keys that no field asks for."""
        for _ in range(d.weighted((2, 1), (2, 2), (2, 0), (1, 5))):
            k = d.choice(EXTRA)
            if d.p(8) and flavor == 'native':
                k = d.choice([0, 1, 7, -1])
            if k in raw:
                continue
            if directive.value is not None:
                v = directive.value.raw(d, 20, flavor)
            else:
                v = gen.json_finite(gen.json_tree(d, 2)) if flavor != 'native' else gen.tree(d, 2)
            raw[k] = v
        if d.bool():
            raw = dict((k, raw[k]) for k in d.shuffled(list(raw)))
        return raw


class CapSub(S.Sub):

    directive = OFF

    def desc(self):
        return '(CapSub {0!r} {1!r} src={2!r} flat={3!r})'.format(self.form, self.directive, self.src, self.flat)

    __repr__ = desc

    def bare(self):
        return self.directive is OFF and super(CapSub, self).bare()

    def make(self, args, kw):
        if self.directive is not OFF:
            kw['unmapped'] = self.directive.arg()
        return super(CapSub, self).make(args, kw)

    def parse(self, raw, cx):
        if not isinstance(raw, dict):
            raise S.Bad()
        before = len(cx.errors)
        v = self.form.map(cx, raw, self.directive)
        return S.DROP if len(cx.errors) > before else v

    def valid(self, d, flavor):
        return self.form.fill(d, self.form.raw(d, self.fault, flavor, extra=False), self.directive, flavor)


class CapPoly(c18.Poly):

    directive = OFF

    def desc(self):
        return '(CapPoly {0!r} {1!r})'.format(self.src, self.directive)

    __repr__ = desc

    def make(self, args, kw):
        if self.directive is not OFF:
            kw['unmapped'] = self.directive.arg()
        return super(CapPoly, self).make(args, kw)

    def parse(self, raw, cx):
        if not isinstance(raw, dict):
            raise S.Bad()
        node = self.tree.find(raw, cx.flavor, self.under)
        if node is None:
            return S.NONE
        before = len(cx.errors)
        v = node.form.map(cx, raw)
        self.directive.capture(cx, raw, v.values)
        return S.DROP if len(cx.errors) > before else v


def convert(d, g, form, tree, depth):
    """The form with its nested forms capturing, and sometimes a polymorphic one."""

    def field(s):
        if isinstance(s, S.Sub):
            c = CapSub(convert(d, g, s.form, tree, depth - 1))
            for k, v in s.__dict__.items():
                if k not in ('form', 'unmapped'):
                    setattr(c, k, v)
            c.directive = draw_directive(d, g)
            return c
        if isinstance(s, S.List):
            s.item = field(s.item)
        elif isinstance(s, S.Tup):
            s.items = [field(i) for i in s.items]
        elif isinstance(s, S.Map):
            s.value = field(s.value)
        return s

    out = CapForm([(n, field(s)) for n, s in form.fields])
    if depth > 0:
        k = d.n(5)
        if k == 0 and tree is not None:
            p = CapPoly(tree)
            p.directive = draw_directive(d, g)
            out.fields.append(('poly', p if d.bool() else S.List(p)))
        elif k < 3:
            c = CapSub(convert(d, g, S.draw_form(d, g, 1) if d.p(85) else S.Form([]), tree, depth - 1))
            c.directive = draw_directive(d, g)
            if d.p(15):
                c.flat = True
                out.fields.append(('flat', c))
            else:
                out.fields.append(('sub', d.choice([c, S.List(c), S.Map(S.Str(), c), S.Tup([c])])))
    return out


def draw(d, flavor):
    g = S.Gen(flavor=flavor, **G)
    tree = None
    if d.p(25):
        tree = c18.Tree(d, c18.G if flavor == 'native' else c18.GJ, flavor)
    return g, convert(d, g, S.draw_form(d, g), tree, 2)


def capture(d):
    flavor = d.choice(['native', 'json'])
    g, form = draw(d, flavor)
    directive = draw_directive(d, g, 15)
    fault = d.choice([0, 0, 15, 40])
    tries = 1 if d.p(30) else 5
    for _ in range(tries):
        raw = form.fill(d, form.raw(d, fault, flavor, extra=False), directive, flavor)
        if flavor == 'json' and not S.jsonable(raw):
            raw = dict((k, v) for k, v in raw.items() if isinstance(k, str) and S.jsonable(v))
        cx = S.Cx(flavor)
        form.map(cx, raw, directive)
        if not cx.errors:
            break
    tags = None
    if d.p(10):
        tags = ['t']
        for n, s in form.fields:
            if d.bool():
                s.tags = ['t']
    d.note('form', form)
    d.note('directive', directive)
    d.note('data', raw)
    model = form
    if tags:
        model = CapForm([(n, s) for n, s in form.fields if s.tags])
    cls = form.build()
    model.cls = cls
    cx = S.Cx(flavor)
    cx.captured = False
    # nested forms see the tags of none
    want = model.map(cx, raw, directive)
    kw = {}
    if directive is not OFF or d.bool():
        kw['unmapped'] = directive.arg()
    if tags:
        kw['tags'] = tags
    form_, errors = S.outcome(cls, source_for(d, flavor, raw), **kw)
    S.compare_errors(errors, cx.errors)
    S.compare_value(form_, want)
    # the declared fields are as without capture
    kw.pop('unmapped', None)
    plain, perrors = S.outcome(cls, source_for(d, flavor, raw), **kw)
    names = [n for n, _ in model.fields]
    extra = [k for k in plain if k not in names]
    if extra:
        raise Violation('without capture there is {0!r}'.format(extra))
    for n in names:
        if (n in plain) and ((n not in form_) or repr(S.plain(plain[n])) != repr(S.plain(form_[n]))):
            raise Violation('{0}: {1!r} with capture, {2!r} without'.format(n, form_.get(n), plain[n]))
    both = S.error_list(errors)
    if S.error_list(perrors) != both[:len(perrors)]:
        raise Violation('errors {0!r} with capture, {1!r} without'.format(both, perrors))
    # raising agrees
    try:
        kw2 = dict(kw)
        if directive is not OFF:
            kw2['unmapped'] = directive.arg()
        again = cls().map(source_for(d, flavor, raw), error='raise', **kw2)
        ok = True
    except ValueError:
        ok = False
    if ok != (not errors):
        raise Violation('raising: {0}, collecting: {1!r}'.format(ok, errors))
    if ok:
        S.compare_value(again, want)
    if cx.captured:
        d.nontrivial((repr(form), repr(directive), repr(raw)))
    if cx.errors:
        d.label('errors')


def wrong(d):
    """Other words are refused."""
    word = d.choice(['captured', 'Capture', 'ignored', 'all', 'x'])
    cls = type('F', (pilo.Form,), {'a': pf.Integer()})
    form = cls()
    try:
        form.map({'a': 1}, unmapped=word)
    except ValueError:
        pass
    else:
        raise Violation('unmapped={0!r} was taken'.format(word))
    d.nontrivial(word)


def hooked(d):
    """Fields that capture, with hooks that read the form that captures."""
    stage = d.choice(['munge', 'filter', 'validate', 'parse', 'key'])
    names = d.sample(['a', 'b', 'c'], d.int(1, 3))
    src = dict((n, d.choice([n, 's' + n])) for n in names)
    wrong_form = []

    def total(form):
        if not isinstance(form, pilo.Form) or type(form).fields is not inner.fields:
            wrong_form.append(repr(form))
            return 0
        return sum(getattr(form, n) for n in names)

    key, value = pf.String(), pf.Integer()
    if stage == 'munge':
        value.munge(lambda self, value: value + total(self))
    elif stage == 'parse':
        value.parse(lambda self, path: path.primitive(int) + total(self))
    elif stage == 'filter':
        value = pf.Integer(optional=True).filter(lambda self, value: (value + total(self)) % 2 == 0)
    elif stage == 'validate':
        def validate(self, value):
            if (value + total(self)) % 3 == 0:
                ctx.errors.invalid('a multiple of three')
                return False
            return True
        value.validate(validate)
    else:
        key.munge(lambda self, value: value + str(total(self)))
    directive = (key, value) if stage == 'key' or d.bool() else value
    inner = type('F', (pilo.Form,), dict(
        (n, pf.Integer(*([src[n]] if src[n] != n else []))) for n in names))
    if d.p(30):
        # declared, but in between
        inner = type('F', (inner,), {'z': pf.Integer(default=0)})

    def draw():
        raw = dict((src[n], d.int(0, 9)) for n in names)
        raw.update((k, d.int(0, 9)) for k in d.sample(['x', 'y', 'zz', 'w'], d.int(0, 3)))
        return dict((k, raw[k]) for k in d.shuffled(list(raw)))

    def model(raw, path):
        out = dict((n, raw[src[n]]) for n in names)
        if 'z' in [f.name for f in inner.fields]:
            out['z'] = 0
        t = sum(out[n] for n in names)
        for k, v in raw.items():
            if k in out:
                continue
            if stage in ('munge', 'parse'):
                v += t
            elif stage == 'filter' and (v + t) % 2:
                continue
            elif stage == 'validate' and (v + t) % 3 == 0:
                errs.append(('Invalid', path + k))
                continue
            out[k + str(t) if stage == 'key' else k] = v
        return out

    errs = []
    where = d.n(3)
    outer = type('O', (pilo.Form,), {
        'one': pf.SubForm(inner, unmapped=directive, default=None),
        'many': pf.List(pf.SubForm(inner, unmapped=directive), default=None),
        'table': pf.Dict(pf.String(), pf.SubForm(inner, unmapped=directive), default=None),
    })
    if where == 0:
        raw = draw()
        want = model(raw, '')
        got, errors = S.outcome(inner, raw, unmapped=directive)
    else:
        raw, want = {}, {'one': None, 'many': None, 'table': None}
        for k, n in (('one', 1), ('many', 2), ('table', 2)):
            # in the order of the classes' fields, which is that of declaration
            if where == 2 and k == 'many' or d.p(30):
                continue
            items = [draw() for _ in range(n)]
            if k == 'one':
                raw[k], paths = items[0], ['one.']
            elif k == 'many':
                raw[k], paths = items, ['many[0].', 'many[1].']
            else:
                raw[k], paths = dict(zip('pq', items)), ['table.p.', 'table.q.']
            got = []
            for r, p in zip(items, paths):
                before = len(errs)
                x = model(r, p)
                got.append(x if len(errs) == before else None)
            if k == 'one':
                want[k] = got[0]
                if got[0] is None:
                    del want[k]
            elif k == 'many':
                want[k] = [x for x in got if x is not None]
            else:
                want[k] = dict((a, x) for a, x in zip('pq', got) if x is not None)
        got, errors = S.outcome(outer, raw)
    d.note('data', raw)
    d.note('hook', stage)
    if wrong_form:
        raise Violation('a hook was called with {0}'.format(wrong_form[0]))
    if S.error_list(errors) != errs:
        raise Violation('errors {0!r} instead of {1!r}'.format(S.error_list(errors), errs))
    r = S.differs(S.plain(got), S.plain(want))
    if r:
        raise Violation(r)
    d.nontrivial((stage, repr(raw), repr(src)))


TESTS = [
    ('capture', capture, 3000, 80000),
    ('hooked', hooked, 800, 20000),
    ('wrong', wrong, 20, 20),
]
