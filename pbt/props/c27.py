"""C27: sub-forms attached to their parents."""
import pilo
from pilo import fields as pf

from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for

PROP = 'C27'
RULE = ('a case maps a generated form whose sub-form fields (plain or polymorphic, some with attach_parent, some null, '
        'absent or defaulted) nest up to three levels, possibly read on demand by hooks of other fields, and walks the '
        'result; it counts when some mapped sub-form had to be attached; distinct by (schema, data, ways)')

G = S.Gen(depth=1, max_fields=2, callables=False, wide=False)


def mark(cls):
    """Forms of the class, and proxies to them, tell which one they are."""
    cls.marker = property(lambda self: id(self))
    return cls


class Linked(S.Sub):
    """A sub-form that may be attached to its parent."""

    def __init__(self, form, attach):
        super(Linked, self).__init__(form)
        self.attach = attach
        self.preset = S.NONE

    def give(self):
        # forms of the class have some `parent` to begin with
        if self.preset is not S.NONE:
            self.form.cls.parent = self.preset

    def make(self, args, kw):
        if self.attach is not None and self.style & 128:
            kw['attach_parent'] = self.attach
        f = super(Linked, self).make(args, kw)
        mark(self.form.cls)
        self.give()
        if self.attach is not None and not self.style & 128:
            f = f.options(attach_parent=self.attach)
        return f


class Chosen(Linked):
    """A polymorphic sub-form; its identity is always given."""

    def __init__(self, form, attach, name):
        super(Chosen, self).__init__(form, attach)
        self.name = name

    def make(self, args, kw):
        root = type('Root' + self.name, (pilo.Form,), dict(kind=pf.Type.abstract()))
        fields = dict((n, s.build()) for n, s in self.form.fields if n != 'kind')
        fields['kind'] = pf.Type.instance('it')
        self.form.cls = type('Leaf' + self.name, (root,), fields)
        mark(self.form.cls)
        self.give()
        if self.attach is not None:
            kw['attach_parent'] = self.attach
        return pf.PolymorphicSubForm(root.kind, *args, **kw)


def draw(d, depth, prefix='f'):
    f = S.draw_form(d, G, 0)
    f.fields = [(prefix + n, s) for n, s in f.fields if n not in ('parent', 'kind')]
    for i in range(d.int(1, 2) if depth else 0):
        sub = draw(d, depth - 1, prefix + str(i))
        attach = d.choice([True, True, True, None, False])
        k = d.n(9)
        if k < 6:
            s = Linked(sub, attach)
        elif k < 8:
            sub.fields.append(('kind', S.Str()))
            s = Chosen(sub, attach, prefix + str(i))
        else:
            s = S.List(Linked(sub, attach))
        s.style = d.n(1023)
        if d.p(15):
            (s.item if isinstance(s, S.List) else s).preset = d.choice([None, 'mine'])
        s.default = d.choice([S.REQUIRED, S.OPTIONAL, ('lit', None)])
        f.fields.insert(d.n(len(f.fields)), (prefix + 'sub{0}'.format(i), s))
    if not f.fields:
        f.fields.append((prefix + 'x', S.Int()))
    return f


def fill(d, f):
    raw = {}
    for n, s in f.fields:
        if n == 'kind':
            raw[n] = 'it'
            continue
        k = d.n(19)
        if k == 19:
            continue
        if k == 18:
            raw[n] = None
        elif isinstance(s, Linked):
            raw[n] = fill(d, s.form)
        elif isinstance(s, S.List) and isinstance(s.item, Linked):
            raw[n] = [fill(d, s.item.form) for _ in range(d.size(0, 3))]
        else:
            raw[n] = s.raw(d, 5)
    return raw


def attach(d):
    form = draw(d, 3 if d.p(30) else 2)
    subs = [n for n, s in form.fields if isinstance(s, Linked)]
    early = d.choice(subs) if subs and d.p(30) else None
    d.note('form', form)
    d.note('read early', early)
    cls = mark(form.build())
    if early:
        def compute(self):
            try:
                v = getattr(self, early)
            except (AttributeError, pf.FormError):
                v = None
            check(v, form_spec, self)
            return 1
        form_spec = dict(form.fields)[early]
        count = [0]

        def check(v, s, parent):
            count[0] += 1
            walk(v, s, parent, 'read early')
        cls = type('Early', (cls,), {'first': pf.Field().compute(compute)})
        # ahead of the others
        cls.fields.sort(key=lambda f: f.name != 'first')
    attached = [0]
    keep = []

    def walk(v, s, parent, where):
        if v is None or not isinstance(v, pilo.Form):
            if isinstance(v, list) and isinstance(s, S.List):
                for i, x in enumerate(v):
                    if isinstance(x, pilo.Form):
                        inside(x, s.item, '{0}[{1}]'.format(where, i))
            return
        given = getattr(v, 'parent', S.NONE)
        if s.attach:
            if given is S.NONE or given is None or given == 'mine':
                raise Violation('{0}: has parent {1!r}'.format(where, given))
            if getattr(given, 'marker', None) != parent.marker:
                raise Violation('{0}: attached to {1!r} instead of {2!r}'.format(where, given, parent))
            attached[0] += 1
        elif given is not s.preset:
            raise Violation('{0}: has a parent: {1!r}'.format(where, given))
        inside(v, s, where)

    def inside(v, s, where):
        for n, x in s.form.fields:
            if isinstance(x, (Linked, S.List)) and dict.__contains__(v, n):
                walk(dict.__getitem__(v, n), x, v, where + '.' + n)

    raws = []
    d.note('data', raws)
    target = cls()
    for _ in range(d.int(1, 2)):
        raw = fill(d, form)
        raws.append(raw)
        flavor = 'json' if S.jsonable(raw) and d.bool() else 'native'
        cx = S.Cx(flavor)
        want = form.map(cx, raw)
        errors = target.map(source_for(d, flavor, raw), reset=True)
        if not early or not cx.errors:
            # (reading what is in error reports it again)
            S.compare_errors(errors, cx.errors)
        got = dict((k, dict.__getitem__(target, k)) for k in dict.__iter__(target) if k != 'first')
        S.compare_value(got, dict(want.values))
        for n, s in form.fields:
            if n in got:
                walk(got[n], s, target, n)
        keep.append(target)
        if d.bool():
            target = cls()
            # reading from outside of a mapping gives defaults, which are null
    fresh = cls()
    for n, s in form.fields:
        if isinstance(s, Linked) and s.default == ('lit', None):
            if getattr(fresh, n) is not None:
                raise Violation('{0} is {1!r}'.format(n, getattr(fresh, n)))
    if attached[0]:
        d.nontrivial((repr(form), repr(raws), early))
    d.label('attached: {0}'.format(min(attached[0], 4)))


TESTS = [
    ('attach', attach, 3000, 60000),
]
