"""C19: form classes, their fields and their bases."""
import json

import pilo
from pilo import fields as pf
from pilo.source import JsonSource

from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for

PROP = 'C19'
RULE = ('a case runs a history of defining form classes (with bases, plain mixins, overrides, removals, derived constants, '
        'from_fields), mapping, casting and reading through any of them; after the history every class is checked again, its '
        'field order against a shadow hierarchy of plain classes; it counts when some class has an overridden, removed or '
        'multiply inherited field; distinct by (hierarchy, history)')

G = S.Gen(depth=1, max_fields=3, callables=False, wide=False)
NAMES = ['b', 'a', 'z', 'c', 'x', 'kind', 'B', '_p', 'name2', 'data', 'e', 'm']


class Const(S.Spec):
    """A constant derived from an inherited field."""

    kind = 'const'

    def __init__(self, base, value):
        super(Const, self).__init__()
        self.base, self.value = base, value
        self.src = base.src

    def map(self, cx, raw):
        # the field's own checks apply
        return self.base.finish(cx, self.value)

    def raw(self, d, fault=25, flavor='native'):
        return gen.json_scalar(d)


class Mark(object):
    """Stands for a field in the shadow classes."""

    def __init__(self, spec, count, mixin=False):
        self.spec, self.count, self.mixin = spec, count, mixin


class FormShadow(object):
    pass


class Entry(object):

    def __init__(self, cls, shadow, is_form):
        self.cls, self.shadow, self.is_form = cls, shadow, is_form
        self.spec = None

    def marks(self):
        out = []
        for name in dir(self.shadow):
            m = getattr(self.shadow, name)
            if isinstance(m, Mark):
                out.append((m.count, name, m.spec))
        out.sort(key=lambda x: x[0])
        return out

    def form(self):
        f = S.Form([(n, s) for _, n, s in self.marks()])
        f.cls = self.cls
        return f


class Machine(object):

    def __init__(self, d):
        self.d = d
        self.count = 0
        self.entries = []
        self.log = []
        self.busy = False

    def forms(self):
        return [e for e in self.entries if e.is_form]

    def mixins(self):
        return [e for e in self.entries if not e.is_form]

    def draw(self):
        d = self.d
        s = S.draw_field(d, G)
        if s.default == S.REQUIRED and d.p(30):
            s.default = ('lit', 'd%d' % self.count)
        return s

    def body(self, bases, probe, is_form):
        """What the body of a class with these bases may hold: (pilo namespace, shadow namespace)."""
        d = self.d
        real, shadow = {}, {}
        used = set()
        inherited = [n for n in NAMES if isinstance(getattr(probe, n, None), Mark)]
        for _ in range(d.int(0 if bases else 1, 4)):
            name = d.choice(inherited) if inherited and d.p(45) else d.choice(NAMES)
            if name in used:
                continue
            old = getattr(probe, name, None)
            used.add(name)
            before = [m for m in (getattr(b, name, None) for b in probe.__mro__[1:]) if isinstance(m, Mark)]
            if old is not None and not isinstance(old, Mark) and not (is_form and before and old == 'not a field'):
                continue            # taken by something else
            k = d.n(9)
            if isinstance(old, Mark):
                self.busy = True
                if k == 0:
                    v = d.choice([0, None, 'text', len])
                    real[name], shadow[name] = v, 'not a field'
                    self.log.append(('hide', name))
                    continue
                if k == 1 and d.bool():
                    real[name] = property(lambda self: 5)
                    shadow[name] = 'not a field'
                    self.log.append(('hide', name))
                    continue
                owner = [b for b in bases if isinstance(getattr(b.shadow, name, None), Mark)]
                if k in (2, 3, 4) and is_form and owner and owner[0].is_form and \
                        isinstance(old.spec, (S.Str, S.Int, S.Any, S.Bool)) and not isinstance(old.spec, Const):
                    value = d.choice([1, 'x', 0, '', True, 'abc', 7])
                    mark = getattr(owner[0].shadow, name)
                    if mark is old:
                        try:
                            c = Const(old.spec, value)
                            c.map(S.Cx(), None)
                        except Exception:
                            continue
                        real[name] = getattr(owner[0].cls, name).constant(value)
                        shadow[name] = Mark(c, old.count)
                        self.log.append(('constant', name, value))
                        self.count += 1
                        continue
            elif k == 0:
                real[name] = d.choice([5, 'helper', None, lambda self: 1])
                shadow[name] = 'not a field'
                self.log.append(('other', name))
                continue
            s = self.draw()
            real[name] = s.build()
            self.count += 1
            shadow[name] = Mark(s, before[0].count if is_form and before else self.count,
                                not is_form)
            self.log.append(('field', name, s))
        return real, shadow

    def define(self):
        d = self.d
        k = d.n(9)
        if k < 2:
            bases, is_form = d.sample(self.mixins(), d.int(0, 1)), False
        else:
            is_form = True
            bases = d.sample(self.forms(), d.weighted((3, 1), (2, 0), (1, 2)))
            bases = d.shuffled(bases + d.sample(self.mixins(), d.weighted((3, 0), (3, 1), (1, 2))))
            if len(bases) > 1:
                self.busy = True
        at = 0
        sb = tuple(b.shadow for b in bases)
        rb = tuple(b.cls for b in bases)
        if is_form and not any(b.is_form for b in bases):
            at = d.choice([0, len(rb)])
            sb = sb[:at] + (FormShadow,) + sb[at:]
            rb = rb[:at] + (pilo.Form,) + rb[at:]
        try:
            probe = type('P', sb or (object,), {})
        except TypeError:
            return      # no such class in python either
        for name in NAMES:
            # where a mixin's field would hide that of a form, its position is not said
            seen = [getattr(b.shadow, name, None) for b in bases] + [getattr(probe, name, None)]
            seen = set(m for m in seen if m is not None)
            if len(seen) > 1 and any(isinstance(m, Mark) and m.mixin for m in seen):
                return
        self.log.append(('class', len(self.entries), [self.entries.index(b) for b in bases], is_form))
        real, shadow = self.body(bases, probe, is_form)
        shadow_cls = type('S', sb or (object,), shadow)
        if is_form and len(rb) == 1 and d.p(30):
            cls = rb[0].from_fields(**real)
        else:
            cls = type('C', rb or (object,), real)
        e = Entry(cls, shadow_cls, is_form)
        self.entries.append(e)
        if is_form:
            self.check_fields(e)

    def check_fields(self, e):
        want = [n for _, n, _ in e.marks()]
        got = [f.name for f in e.cls.fields]
        if got != want:
            raise Violation('class {0} has fields {1!r}, not {2!r}'.format(self.entries.index(e), got, want))
        for f in e.cls.fields:
            if getattr(e.cls, f.name) is not f:
                raise Violation('class {0}: field {1} is not its attribute'.format(self.entries.index(e), f.name))

    def raw(self, e, fault):
        return e.form().raw(self.d, fault)

    def map(self, e, raw):
        form = e.form()
        cx = S.Cx()
        want = form.map(cx, raw)
        got, errors = S.outcome(e.cls, raw)
        try:
            S.compare_errors(errors, cx.errors)
            S.compare_value(got, want, order=True)
        except Violation as ex:
            raise Violation('class {0}: {1}'.format(self.entries.index(e), ex))

    def step(self):
        d = self.d
        k = d.n(9)
        forms = self.forms()
        if k < 5 or not forms:
            self.define()
            return
        e = d.choice(forms)
        if k < 8:
            raw = self.raw(e, d.choice([0, 25, 60]))
            self.log.append(('map', self.entries.index(e), raw))
            self.map(e, raw)
        else:
            # reads the class and an instance without mapping
            form = e.cls()
            self.log.append(('read', self.entries.index(e)))
            for f in e.cls.fields:
                try:
                    getattr(form, f.name)
                except Exception:
                    pass
                f.has_tag('x'), str(f)
                if d.p(40):
                    f.constant(d.choice([1, 'x', None]))
                if d.p(20):
                    f.clone()


def classes(d):
    m = Machine(d)
    d.note('history', m.log)
    for _ in range(d.int(2, 12)):
        m.step()
    for e in m.forms():
        m.check_fields(e)
        for fault in (0, 40):
            raw = m.raw(e, fault)
            m.log.append(('map', m.entries.index(e), raw))
            m.map(e, raw)
    if m.busy:
        d.nontrivial(repr(m.log))


def hooks(d):
    """Hooks and options a subclass puts on its own field stay with it."""
    fields, n = [], d.int(1, 4)
    names = gen.names(d, n)
    base = type('Base', (pilo.Form,), dict((x, pf.Integer(default=None)) for x in names))
    raw = dict((x, d.int(-3, 9)) for x in names)
    log = []
    kids = []
    for i in range(d.int(1, 4)):
        ns, want = {}, dict(raw)
        for x in d.sample(names, d.int(1, n)):
            k = d.n(3)
            f = pf.Integer(default=None)
            add = d.int(1, 9)
            log.append((i, x, k, add))
            if k == 0:
                f = f.munge(_adder(add))
                want[x] = raw[x] + add
            elif k == 1:
                f.min(add)
                if raw[x] < add:
                    want[x] = None
            elif k == 2:
                f.ignore(raw[x])
                f.options(default=-add)
                want[x] = -add
            else:
                f.translate({raw[x]: add})
                want[x] = add
            ns[x] = f
        kids.append((type('Kid', (base,), ns), want, sorted(ns)))
    d.note('base', raw)
    d.note('kids', log)
    for cls, want, _ in [(base, raw, None)] + kids + [(base, raw, None)]:
        form, errors = S.outcome(cls, raw)
        expect = dict((k, v) for k, v in want.items() if v is not None)
        bad = sorted(k for k, v in want.items() if v is None)
        if dict(form) != expect or sorted(str(e.path) for e in errors) != bad:
            raise Violation('{0!r} {1!r} instead of {2!r} {3!r}'.format(dict(form), errors, expect, bad))
        if [f.name for f in cls.fields] != names:
            raise Violation('fields {0!r} instead of {1!r}'.format([f.name for f in cls.fields], names))
    d.nontrivial((raw, log))


def _adder(add):
    def munge(self, value):
        return value + add
    return munge


def cast(d):
    """Casting and probing change no class."""
    n = d.int(1, 4)
    pool = d.sample(['a', 'b', 'c', 'd', 'e'], 5)
    g = S.Gen(depth=0, max_fields=2, callables=False, srcs=False, wide=False)
    pre = [('p%d' % i, S.Int()) for i in range(d.int(0, 2))]
    post = [('q%d' % i, S.draw_field(d, g)) for i in range(d.int(0, 2))]
    ns = dict((k, s.build()) for k, s in pre)
    ns['kind'] = pf.Type.abstract()
    ns.update((k, s.build()) for k, s in post)
    root = type('Root', (pilo.Form,), ns)
    leaves = [type('Leaf', (root,), {'kind': pf.Type.instance(pool[i])}) for i in range(n)]
    names = [k for k, _ in pre] + ['kind'] + [k for k, _ in post]

    def text(spec):
        return [spec.raw(d, 0) if not isinstance(spec, S.Int) else 3]

    raws = []
    for i in range(n):
        raw = dict((k, 3) for k, _ in pre)
        raw['kind'] = pool[i]
        raw.update((k, s.raw(d, 25)) for k, s in post)
        raws.append(raw)
    d.note('forms', (pre, post, pool[:n]))
    d.note('data', raws)

    def state():
        out = []
        for c in [root] + leaves:
            if [f.name for f in c.fields] != names:
                raise Violation('fields {0!r} instead of {1!r}'.format([f.name for f in c.fields], names))
            out.append([id(f) for f in c.fields] + [f.name for f in c.fields] + [f.src for f in c.fields] +
                       [id(f.parent) for f in c.fields])
            for raw in raws:
                form, errors = S.outcome(c, raw)
                out.append((type(form), S.plain(dict(form)), S.error_list(errors)))
        return out

    before = state()
    for _ in range(d.int(1, 4)):
        i = d.n(n - 1)
        if d.bool():
            root.kind.cast(raws[i])
        else:
            root.kind.probe(raws[i])
    after = state()
    for a, b in zip(before, after):
        if repr(a) != repr(b):
            raise Violation('after casting {0!r}, before {1!r}'.format(b, a))
    for i, c in enumerate(leaves):
        own = S.outcome(c, raws[i])
        if dict.get(own[0], 'kind') != pool[i]:
            raise Violation('{0!r} has not kind {1!r}'.format(own[0], pool[i]))
    d.nontrivial((names, pool[:n], repr(raws)))


TESTS = [
    ('classes', classes, 2600, 60000),
    ('hooks', hooks, 1200, 20000),
    ('cast', cast, 800, 15000),
]
