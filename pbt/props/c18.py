"""C18: polymorphic forms."""
import json

import pilo
from pilo import fields as pf
from pilo.source import DefaultSource, JsonSource, MountSource, UnionSource

from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for

PROP = 'C18'
RULE = ('a case builds a hierarchy of form classes (abstract root, intermediate classes, leaves declaring one or more '
        'identities, found in the data or computed from earlier fields) and casts data with it, or maps forms with '
        'polymorphic sub-forms anywhere in them, or defines further classes in between; it counts when a class is selected among at least two, or an identity is '
        'refused; distinct by (hierarchy, data)')

G = S.Gen(depth=1, max_fields=3, callables=False, srcs=False, wide=False)
GJ = S.Gen(flavor='json', depth=1, max_fields=3, callables=False, srcs=False, wide=False)
IDS = ['dog', 'cat', 'cow', 'a', 'b', 'ab', 'A', '1', '2', 'True', u'\u00e9', 'x y', 'kind', 'Dog', '', 'dog ', ' a', u'e\u0301']
CODES = list(range(8))


class Kind(S.Spec):
    """The type field as one class of the hierarchy declares it."""

    kind = 'type'

    def __init__(self, name, how, choices=(), table=None):
        super(Kind, self).__init__()
        self.name, self.how, self.choices, self.table = name, how, list(choices), table
        if how == 'instance' and len(self.choices) == 1:
            self.default = ('lit', self.choices[0])

    def build(self):
        if self.how == 'abstract':
            kw = dict(optional=True) if self.default == S.OPTIONAL else {}
            f = pf.Type.abstract(self.src, **kw) if self.src else pf.Type.abstract(**kw)
            if self.table is not None:
                table = self.table

                def compute(self):
                    return table.get(dict.get(self, 'code'), 'nothing')
                f = f.compute(compute)
            return f
        if self.how == 'instance':
            kw = {}
            if self.src:
                kw['src'] = self.src
            return pf.Type.instance(*self.choices, **kw)
        return pf.Type.constant(self.choices[0])

    def map(self, cx, raw):
        if self.how == 'constant':
            return self.choices[0]
        return super(Kind, self).map(cx, raw)

    def parse(self, raw, cx):
        return S.as_text(raw, cx.flavor)

    def check(self, value, cx):
        return not self.choices or value in self.choices

    def raw(self, d, fault=25, flavor='native'):
        return 'dog'


class Node(object):

    def __init__(self, parent=None):
        self.parent = parent
        self.kids = []
        self.own = []           # (name, spec) it declares
        self.form = None        # the whole of it, in order
        self.cls = None
        self.ids = []

    def below(self):
        yield self
        for k in self.kids:
            for n in k.below():
                yield n


class Tree(object):
    """A hierarchy."""

    def __init__(self, d, g, flavor, inner=None, prefix=''):
        self.d, self.g, self.flavor = d, g, flavor
        self.src = d.choice([None, None, 't', 'type'])
        self.name = d.choice(['kind', 'type_', 'items_'])
        self.computed = d.p(30)
        self.constant = self.computed or d.bool()
        self.optional = not self.computed and d.p(20)
        self.pool = d.shuffled(IDS)
        self.root = Node()
        self.keep = []
        self.abstract = [self.root]
        pre = []
        if self.computed or d.p(25):
            pre.append(('code', S.Int()))
        if d.p(30):
            s = S.Bool()
            s.default = d.choice([S.OPTIONAL, ('lit', False), ('lit', None)])
            pre.insert(d.n(len(pre)), ('early', s))
        self.pre = pre
        self.table = {} if self.computed else None
        post = self.some_fields('r', 2, inner)
        kind = self.kind('abstract')
        self.root.own = pre + [(self.name, kind)] + post
        self.define(self.root, (pilo.Form,))
        count = d.int(2, 5)
        self.leaves = []
        for i in range(count):
            at = d.choice(self.abstract)
            if self.leaves and d.p(25):
                # below a class that declares identities of its own
                at = d.choice(self.leaves)
            elif d.p(30):
                mid = Node(at)
                mid.own = self.some_fields('m%d' % i, 2, inner)
                if d.p(50):
                    mid.own.insert(d.n(len(mid.own)), (self.name, self.kind('abstract')))
                at.kids.append(mid)
                self.define(mid, (at.cls,))
                self.abstract.append(mid)
                at = mid
            leaf = Node(at)
            leaf.ids = [self.pool.pop() for _ in range(d.weighted((4, 1), (1, 2), (1, 3)))]
            if self.constant and (self.computed or d.bool()):
                leaf.ids = leaf.ids[:1]
                k = self.kind('constant', leaf.ids)
            else:
                k = self.kind('instance', leaf.ids)
            leaf.own = self.some_fields('l%d' % i, 3, inner)
            leaf.own.insert(d.n(len(leaf.own)), (self.name, k))
            if d.p(20):
                # children of the same hierarchy
                p = Poly(self)
                p.default = ('lit', None)
                leaf.own.append(('kid', d.choice([p, _optional(S.List(Poly(self)))])))
            at.kids.append(leaf)
            self.define(leaf, (at.cls,))
            self.leaves.append(leaf)
        if self.computed:
            ids = [x for leaf in self.leaves for x in leaf.ids]
            for c, x in zip(d.shuffled(CODES), ids + ids[:1]):
                self.table[c] = x

    def kind(self, how, ids=()):
        k = Kind(self.name, how, ids, self.table if how == 'abstract' else None)
        k.src = self.src
        if self.optional and how == 'abstract':
            k.default = S.OPTIONAL
        return k

    def some_fields(self, prefix, hi, inner):
        d = self.d
        out = []
        for i in range(d.int(0, hi)):
            if inner is not None and d.p(30):
                p = Poly(inner)
                out.append(('%s%d' % (prefix, i), p if d.bool() else S.List(p)))
            else:
                out.append(('%s%d' % (prefix, i), S.draw_field(d, self.g)))
        return out

    def define(self, node, bases):
        """The class, and what its fields are."""
        ns = dict((n, s.build()) for n, s in node.own)
        node.cls = type('N', bases, ns)
        self.keep.append(node.cls)
        fields = list(node.parent.form.fields) if node.parent else []
        for n, s in node.own:
            at = [i for i, (m, _) in enumerate(fields) if m == n]
            if at:
                fields[at[0]] = (n, s)
            else:
                fields.append((n, s))
        node.form = S.Form(fields)
        node.form.cls = node.cls

    def key(self):
        return self.src or self.name

    def shape(self):
        def text(n):
            return (repr(n.own), [text(k) for k in n.kids])
        return repr((text(self.root), self.src, self.table))

    def identity(self, raw, flavor, under=None):
        """What the data says it is; Bad if it is malformed or missing."""
        if self.computed:
            code = raw.get('code')
            if isinstance(code, bool) or not isinstance(code, int):
                raise S.Bad()
            return self.table.get(code, 'nothing')
        if self.pre and 'code' in dict(self.pre) and 'code' not in raw:
            # which is read first
            raise S.Bad()
        v = raw.get(self.key(), S.ABSENT)
        if v is None or v is S.ABSENT and self.optional:
            return None
        if v is S.ABSENT:
            raise S.Bad()
        return S.as_text(v, flavor)

    def find(self, raw, flavor, under=None):
        x = self.identity(raw, flavor)
        if x is None:
            return None
        for n in (under or self.root).below():
            if x in n.ids:
                return n
        raise S.Bad()

    def raw(self, d, fault, flavor, depth=2):
        leaf = d.choice(self.leaves)
        out = {}
        for name, s in leaf.form.fields:
            if isinstance(s, Kind):
                continue
            if name == 'code':
                out[name] = d.int(0, 7)
                continue
            if name == 'kid' and (depth <= 0 or d.p(40)):
                continue
            if name == 'early' and d.bool():
                continue
            if s.default[0] != 'required' and d.p(30) or d.n(99) < min(fault, 8):
                continue
            if name == 'kid':
                s = s.item if isinstance(s, S.List) else s
                v = s.tree.raw(d, fault, flavor, depth - 1)
                out[name] = [v] if isinstance(dict(leaf.form.fields)['kid'], S.List) else v
                continue
            f = 0 if name == 'early' else fault
            v = s.raw(d, f, flavor)
            if name == 'early' and not isinstance(v, bool):
                v = False
            out[name] = v
        if not self.computed:
            k = d.n(19)
            if k < 15:
                out[self.key()] = d.choice(leaf.ids)
            elif k < 16:
                out[self.key()] = d.choice(['nobody', 'do', 'dogs', 'DOG', ' dog', 'None', 'kind'])
            elif k < 17:
                out[self.key()] = d.choice([1, True, 2.0, ['dog'], {'a': 1}, 0])
            elif k < 18:
                out[self.key()] = d.choice([x for n in self.leaves for x in n.ids] + [None])
            # else missing
        else:
            if self.table and d.p(80):
                out['code'] = d.choice(sorted(self.table))
            if d.p(20):
                out[self.key()] = d.choice(IDS)      # plays no part
        if d.p(30):
            out[d.choice(['zzz', 'q'])] = gen.json_finite(gen.json_scalar(d))
        if d.p(30):
            out = dict((k, out[k]) for k in d.shuffled(list(out)))
        return out


def _optional(s):
    s.default = S.OPTIONAL
    return s


class Poly(S.Spec):

    kind = 'poly'

    def __init__(self, tree, under=None):
        super(Poly, self).__init__()
        self.tree, self.under = tree, under
        self.seen = []

    def desc(self):
        return 'Poly({0})'.format(self.src)

    __repr__ = desc

    def make(self, args, kw):
        node = self.under or self.tree.root
        return pf.PolymorphicSubForm(getattr(node.cls, self.tree.name), *args, **kw)

    def parse(self, raw, cx):
        if not isinstance(raw, dict):
            raise S.Bad()
        node = self.tree.find(raw, cx.flavor, self.under)
        if node is None:
            return S.NONE
        before = len(cx.errors)
        v = node.form.map(cx, raw)
        return S.DROP if len(cx.errors) > before else v

    fault = 10

    def valid(self, d, flavor):
        return self.tree.raw(d, self.fault, flavor)

    def raw(self, d, fault=25, flavor='native'):
        self.fault = fault
        k = d.n(24)
        if k == 23:
            return None
        if k == 24:
            return d.choice([1, 'dog', [], {}, True, ['dog'], [{'kind': 'dog'}]])
        return self.tree.raw(d, fault, flavor)


def cast(d):
    flavor = d.choice(['native', 'json'])
    t = Tree(d, G if flavor == 'native' else GJ, flavor)
    d.note('hierarchy', t.shape())
    base = d.choice([n for n in t.abstract if n is t.root or any(isinstance(s, Kind) for _, s in n.own)])
    field = getattr(base.cls, t.name)
    shape = t.shape()
    for n in t.leaves + t.abstract:
        # the identity of a class that has one
        if not any(isinstance(s, Kind) for _, s in n.own):
            continue
        try:
            v = getattr(n.cls, t.name).value
        except TypeError:
            v = None
        want = n.ids[0] if len(n.ids) == 1 else None
        if v != want:
            raise Violation('the type field of the class of {0!r} has the value {1!r}'.format(n.ids, v))
    for _ in range(d.int(1, 6)):
        raw = t.raw(d, d.choice([0, 40, 90]), flavor)
        d.note('data', raw)
        how = d.n(3)
        src = raw
        if flavor == 'json':
            src = JsonSource(json.dumps(raw))
        elif how == 1:
            src = DefaultSource(raw)
        elif how == 2:
            src = MountSource(**dict((k, v if isinstance(v, dict) else DefaultSource(v)) for k, v in raw.items())) \
                if all(k.isidentifier() for k in raw) else raw
        try:
            want = t.find(raw, flavor, base)
        except S.Bad:
            want = None
        try:
            got = field.cast(src)
        except ValueError as ex:
            if want is not None:
                raise Violation('casting failed: {0!r}'.format(ex))
            d.nontrivial((shape, repr(raw), 'refused'))
            d.label('refused')
            continue
        if want is None:
            raise Violation('cast to {0!r}'.format(got))
        if got is not want.cls:
            raise Violation('cast to {0!r} (identities {1!r}), not to that of {2!r}'.format(
                got, [n.ids for n in t.root.below() if n.cls is got], want.ids))
        d.nontrivial((shape, repr(raw)))


def rooted(d):
    """As cast() does, then maps with the class."""
    flavor = d.choice(['native', 'json'])
    t = Tree(d, G if flavor == 'native' else GJ, flavor)
    raw = t.raw(d, d.choice([0, 15]), flavor)
    d.note('hierarchy', t.shape())
    d.note('data', raw)
    try:
        node = t.find(raw, flavor)
    except S.Bad:
        return
    if node is None:
        return
    cx = S.Cx(flavor)
    want = node.form.map(cx, raw)
    src = raw if flavor == 'native' else JsonSource(json.dumps(raw))
    cls = getattr(t.root.cls, t.name).cast(src)
    src = raw if flavor == 'native' else JsonSource(json.dumps(raw))
    form, errors = S.outcome(cls, src)
    S.compare_errors(errors, cx.errors)
    S.compare_value(form, want)
    d.nontrivial((t.shape(), repr(raw)))


def sub(d):
    flavor = d.choice(['native', 'json', 'union', 'mount'])
    g = G if flavor == 'native' or flavor == 'mount' else GJ
    inner = Tree(d, g, flavor) if d.p(40) else None
    t = Tree(d, g, flavor, inner)
    p = Poly(t)
    if d.p(25):
        p.under = d.choice([n for n in t.abstract if n is t.root or any(isinstance(s, Kind) for _, s in n.own)])
    k = d.n(5)
    field = p
    if k == 1:
        field = S.List(p)
    elif k == 2:
        field = S.Map(S.Str(), p)
    elif k == 3:
        field = S.Tup([p, S.Int()])
    elif k == 4:
        field = S.Sub(S.Form([('before', S.Int()), ('p', p)]))
    elif k == 5:
        field = S.List(S.Map(S.Str(), p))
    if d.p(30):
        field.default = d.choice([S.OPTIONAL, ('lit', None), ('lit', 'dflt')])
    if d.p(20):
        field.nullable = d.bool()
    if d.p(25):
        field.src = 'here'
    form = S.Form([('a', S.draw_field(d, g)), ('p', field), ('z', S.draw_field(d, g))])
    raw = form.raw(d, d.choice([0, 15, 40]), 'native' if flavor in ('native', 'mount') else 'json')
    d.note('hierarchy', t.shape())
    d.note('form', form)
    d.note('data', raw)
    model = 'json' if flavor == 'json' else 'native'
    cx = S.Cx(model)
    if flavor == 'mount':
        raw = {'body': raw}
        form = S.Form([('body', S.Sub(form))])
        cx_raw = raw
        src = MountSource(body=raw['body'])
        prefix = '@'
    elif flavor == 'union':
        src = UnionSource([raw])
        prefix = ''
    else:
        src = source_for(d, flavor, raw)
        prefix = ''
    want = form.map(cx, raw)
    got, errors = S.outcome(form.build(), src)
    if prefix:
        have = [(k, p) for k, p in S.error_list(errors)]
        mine = [(k, _mounted(p)) for k, p in cx.errors]
        if have != mine:
            raise Violation('errors {0!r} instead of {1!r}'.format(have, mine))
    else:
        S.compare_errors(errors, cx.errors)
    S.compare_value(got, want)
    if any(k in repr(raw) for k in (t.key(), 'code')):
        d.nontrivial((t.shape(), repr(form), repr(raw), flavor))
    d.label(flavor)


def late(d):
    """Classes defined between casts."""
    src = d.choice([None, 'type', 't'])
    name = d.choice(['kind', 'type_'])
    key = src or name
    kw = dict(src=src) if src else {}
    base = type('Base', (pilo.Form,), {name: pf.Type.abstract(*([src] if src else []))})
    field = getattr(base, name)
    holder = type('Holder', (pilo.Form,), {
        'one': pf.PolymorphicSubForm(field, default=None), 'many': pf.List(pf.PolymorphicSubForm(field), default=None)})
    pool = d.shuffled(IDS)
    known, classes, log = {}, [base], []
    d.note('history', log)
    between = False
    for _ in range(d.int(2, 10)):
        if len(pool) > 2 and d.p(45):
            ids = [pool.pop() for _ in range(d.int(1, 2))]
            own = {name: pf.Type.instance(*ids, **kw)}
            own['x'] = pf.Integer(default=len(classes))
            cls = type('C', (d.choice(classes),), own)
            classes.append(cls)
            known.update((i, cls) for i in ids)
            log.append(('define', ids))
            continue
        x = d.choice(sorted(known)) if known and d.p(75) else d.choice(IDS)
        want = known.get(x)
        how = d.n(2)
        log.append((('cast', 'one', 'many')[how], x))
        if how == 0:
            try:
                got = field.cast({key: x})
            except ValueError:
                got = None
        else:
            data = {'one': {key: x}} if how == 1 else {'many': [{key: x}, {key: x}]}
            form = holder()
            errors = form.map(data)
            inner = form.get('one') if how == 1 else form.get('many')
            if how == 2 and inner is not None:
                if len(inner) == 2 and inner[0] == inner[1]:
                    inner = inner[0]
                elif errors:
                    inner = None
            got = type(inner) if inner is not None else None
            if bool(errors) != (want is None):
                raise Violation('errors {0!r}'.format([str(e) for e in errors]))
            if got is not None and inner[name] != x:
                raise Violation('identity {0!r}'.format(inner[name]))
        if got is not want:
            raise Violation('{0!r} selected {1!r} instead of {2!r}'.format(x, got, want))
        if want and [e[0] for e in log[:-1]].count('define') and any(
                e[0] != 'define' for e in log[:[i for i, e in enumerate(log) if e[0] == 'define' and x in e[1]][0]]):
            between = True
    if between:
        d.nontrivial(repr((name, src, log)))
        d.label('class defined after a cast')


def _mounted(path):
    head, _, rest = path.partition('.')
    return '@' + head + (':' + rest if rest else '')


TESTS = [
    ('cast', cast, 1100, 30000),
    ('rooted', rooted, 700, 20000),
    ('sub', sub, 1400, 40000),
    ('late', late, 1200, 20000),
]
