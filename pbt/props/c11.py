"""C11: fields that read other fields."""
import pilo
from pilo import ctx, fields as pf
from pilo.source import DefaultSource, MountSource, UnionSource

from .. import gen, spec as S
from ..engine import Violation
from ..sources import source_for

PROP = 'C11'
RULE = ('a case draws an acyclic graph of references between the fields of a form (by munge, filter, validate, default '
        'and compute hooks, item hooks of containers, and formats, also into nested forms), an input, and several '
        'declaration orders, and compares each mapping with the values the graph defines; it counts when some order '
        'declares a field before one it reads; distinct by (graph, data, orders)')


class Plan(object):
    """A form: nodes in rank order; a node reads only lower ranks."""

    def __init__(self, nodes):
        self.nodes = nodes

    def __repr__(self):
        return '<{0}>'.format(', '.join(repr(n) for n in self.nodes))

    def build(self, d, outer=False):
        order = d.shuffled(self.nodes)
        ns = {}
        for n in order:
            ns[n.name] = n.build(d)
        self.orders = getattr(self, 'orders', [])
        self.orders.append([n.name for n in order])
        return type('F', (pilo.Form,), ns)

    def raw(self):
        out = {}
        for n in self.nodes:
            if n.raw is not S.ABSENT:
                out[n.key()] = n.raw_value()
        return out

    def values(self, outer=None):
        vals = {}
        for n in self.nodes:
            n.value(vals, outer)
        return dict((k, v) for k, v in vals.items() if v is not S.NONE)

    def errors(self, path):
        out = []
        for n in self.nodes:
            out += n.errors(path)
        return out


class Node(object):

    def __init__(self, name, mode, reads, raw, const=0, sub=None, src=None, outer=None):
        self.name, self.mode, self.reads, self.raw, self.const, self.sub, self.src = \
            name, mode, reads, raw, const, sub, src
        self.outer = outer      # a field of the outermost form to read as well

    def __repr__(self):
        return '{0}:{1}{2}{3}'.format(self.name, self.mode, self.reads or '', self.sub or '')

    def key(self):
        return self.src or self.name

    def raw_value(self):
        if self.mode == 'sub':
            return self.sub.raw()
        if self.mode == 'subs':
            return [self.sub.raw() for _ in range(self.raw)]
        if self.mode == 'submap':
            return dict(('k{0}'.format(i), self.sub.raw()) for i in range(self.raw))
        return self.raw

    # what it is

    def total(self, vals, outer):
        t = self.const + sum(number(vals.get(r, S.NONE)) for r in self.reads)
        if self.outer:
            t += number(outer[self.outer])
        return t

    def value(self, vals, outer):
        m = self.mode
        out = outer if outer is not None else vals
        t = self.total(vals, outer) if m not in ('sub', 'subs', 'submap', 'format', 'plain', 'gone', 'bad') else 0
        if m == 'plain':
            v = int(self.raw)
        elif m == 'gone' or m == 'bad':
            v = S.NONE
        elif m == 'munge':
            v = int(self.raw) + t
        elif m == 'compute' or m == 'default':
            v = t
        elif m == 'validate':
            v = int(self.raw)
        elif m == 'filter':
            v = int(self.raw) if t % 2 == 0 else -1
        elif m == 'items':
            v = [int(x) + t for x in self.raw]
        elif m == 'entries':
            v = dict((k, int(x) + t) for k, x in self.raw.items())
        elif m == 'pair':
            v = (int(self.raw[0]) + t, int(self.raw[1]))
        elif m == 'format':
            v = self.formatted(vals)
        elif m == 'sub':
            v = self.sub.values(out)
        elif m == 'subs':
            v = [self.sub.values(out) for _ in range(self.raw)]
        elif m == 'submap':
            v = dict(('k{0}'.format(i), self.sub.values(out)) for i in range(self.raw))
        vals[self.name] = v

    def formatted(self, vals):
        parts = []
        for r in self.reads:
            v = vals
            for a in r.split('.'):
                v = v.get(a, S.NONE)
                if v is S.NONE:
                    return S.NONE
            parts.append(str(v))
        return '/'.join(parts)

    def errors(self, path):
        here = path + self.key()
        if self.mode == 'bad':
            return [('Invalid', here)]
        if self.mode == 'format' and self.broken:
            return [('Invalid', here)]
        if self.mode == 'sub':
            return self.sub.errors(here + '.')
        return []

    broken = False
    whole = False       # the hook is that of the container, not of its items
    expect = None

    # how it is declared

    def build(self, d):
        m = self.mode
        args = [self.src] if self.src else []
        reads, const, outer = self.reads, self.const, self.outer

        def total(form):
            t = const + sum(number(getattr(form, r)) for r in reads)
            if outer:
                t += number(getattr(ctx.values_for('form')[0], outer))
            return t

        def munge(self, value):
            return value + total(self)

        if m == 'plain' or m == 'bad':
            return pf.Integer(*args)
        if m == 'gone':
            return pf.Integer(*args, optional=True)
        if m == 'munge':
            return pf.Integer(*args).munge(munge)
        if m == 'compute':
            def compute(self):
                return total(self)
            return pf.Integer(*args).compute(compute)
        if m == 'default':
            def default(self):
                return total(self)
            return pf.Integer(*args).default(default)
        if m == 'validate':
            want = self.expect

            def validate(self, value):
                if total(self) != want():
                    ctx.errors.invalid('read {0}'.format(total(self)))
                    return False
                return True
            return pf.Integer(*args).validate(validate)
        if m == 'filter':
            def filter(self, value):
                return total(self) % 2 == 0
            return pf.Integer(*args, default=-1).filter(filter)
        if m == 'items' and self.whole:
            return pf.List(pf.Integer(), *args).munge(lambda self, value: [x + total(self) for x in value])
        if m == 'items':
            return pf.List(pf.Integer().munge(munge), *args)
        if m == 'entries' and self.whole:
            return pf.Dict(pf.String(), pf.Integer(), *args).munge(
                lambda self, value: dict((k, x + total(self)) for k, x in value.items()))
        if m == 'entries':
            return pf.Dict(pf.String(), pf.Integer().munge(munge), *args)
        if m == 'pair' and self.whole:
            return pf.Tuple(*(args + [pf.Integer(), pf.Integer()])).munge(
                lambda self, value: (value[0] + total(self), value[1]))
        if m == 'pair':
            return pf.Tuple(*(args + [pf.Integer().munge(munge), pf.Integer()]))
        if m == 'format':
            return pf.String(*args).format(
                '/'.join('{p%d}' % i for i in range(len(reads))), **dict(('p%d' % i, r) for i, r in enumerate(reads)))
        sub = pf.SubForm(self.sub.build(d), *(args if m == 'sub' else []))
        want = self.expect

        def unchanged(self, value):
            if want is not None and total(self) != want():
                ctx.errors.invalid('read {0}'.format(total(self)))
                return False
            return True

        if m == 'sub':
            return sub.validate(unchanged) if self.whole else sub
        if not self.whole:
            sub.validate(unchanged)
        out = pf.List(sub, *args) if m == 'subs' else pf.Dict(pf.String(), sub, *args)
        return out.validate(unchanged) if self.whole else out


def number(v):
    """Any value as a number, so that it matters."""
    if v is S.NONE or v is None:
        return 1000
    if isinstance(v, dict):
        return 7 + sum(number(dict.__getitem__(v, k)) for k in dict.__iter__(v))
    if isinstance(v, (list, tuple)):
        return 11 + sum(number(x) for x in v)
    if isinstance(v, str):
        return 3 + len(v)
    return v


def inside(plan):
    """What a format can read in a form, at any depth."""
    out = []
    for n in plan.nodes:
        if n.mode == 'sub':
            out += [n.name + '.' + x for x in inside(n.sub)]
        elif n.sub is None and n.mode != 'entries':
            out.append(n.name)
    return out


def draw(d, depth, size, outer_reads, faulty):
    names = gen.names(d, size)
    nodes = []
    for name in names:
        # hooks do not read what may be without a value
        lower = [n.name for n in nodes if n.mode not in ('gone', 'bad') and not (faulty and n.mode == 'format')]
        reads = d.sample(lower, d.int(0, min(3, len(lower))))
        if nodes and lower and d.bool():
            # chains
            reads = [lower[-1]] + [r for r in reads if r != lower[-1]][:1]
        src = d.choice(['s1', 's2', 's3', 's4', 's5', 's6']) if d.p(15) else None
        if src in [n.src for n in nodes]:
            src = None
        outer = d.choice(outer_reads) if outer_reads and d.p(30) else None
        const = d.int(0, 3)
        number_ = lambda: d.choice([d.int(0, 9), str(d.int(0, 9)), float(d.int(0, 9))])
        k = d.n(13) if depth > 0 else d.n(9)
        if faulty and d.p(15):
            n = Node(name, d.choice(['gone', 'bad']), [], S.ABSENT, src=src)
            if n.mode == 'bad':
                n.raw = 'x'
        elif k < 2:
            n = Node(name, 'plain', [], number_(), src=src)
        elif k < 4:
            n = Node(name, 'munge', reads, number_(), const, src=src, outer=outer)
        elif k < 5:
            n = Node(name, d.choice(['compute', 'default']), reads, S.ABSENT, const, src=src, outer=outer)
        elif k < 6:
            n = Node(name, d.choice(['validate', 'filter']), reads, number_(), const, src=src, outer=outer)
        elif k < 7:
            n = Node(name, 'items', reads, [number_() for _ in range(d.size(0, 3))], const, src=src, outer=outer)
        elif k < 8:
            n = Node(name, d.choice(['entries', 'pair']), reads, None, const, src=src, outer=outer)
            n.raw = {'k': number_(), 'l': 2} if n.mode == 'entries' else [number_(), number_()]
        elif k < 10:
            targets = []
            for o in nodes:
                if o.sub is None and o.mode != 'entries':   # those have no one text
                    targets.append(o.name)
                elif o.mode == 'sub':
                    targets += [o.name + '.' + x for x in inside(o.sub)]
            if not faulty:
                bad = [o.name for o in nodes if o.mode in ('gone', 'bad') or o.broken]
                targets = [t for t in targets if t.split('.')[0] not in bad]
            if not targets:
                n = Node(name, 'plain', [], number_(), src=src)
            else:
                n = Node(name, 'format', d.sample(targets, d.int(1, 3)), S.ABSENT, src=src)
        else:
            sub = draw(d, depth - 1, d.int(1, 3), outer_reads if outer_reads is not None else lower, False)
            n = Node(name, d.choice(['sub', 'subs', 'submap']), reads, d.int(0, 2), const, sub=sub, src=src)
        n.whole = d.p(40)
        nodes.append(n)
    return Plan(nodes)


def settle(plan, outer=None):
    """Validate hooks know what they should read; formats of what has no value are broken."""
    vals = {}
    for n in plan.nodes:
        if n.mode == 'validate':
            n.expect = (lambda t: lambda: t)(n.total(vals, outer))
        elif n.sub is not None:
            n.expect = (lambda t: lambda: t)(n.total(vals, outer))
            settle(n.sub, outer if outer is not None else vals)
        n.value(vals, outer)
        if n.mode == 'format':
            n.broken = vals[n.name] is S.NONE


def strip(v):
    return S.plain(v)


def check(d, plan, faulty):
    settle(plan)
    raw = plan.raw()
    want = plan.values()
    errs = plan.errors('')
    d.note('graph', plan)
    d.note('input', raw)
    seen = False
    for i in range(d.int(2, 3)):
        cls = plan.build(d)
        flavor = d.choice(['native', 'json', 'union'] + ([] if faulty else ['mount']))
        data = raw
        if d.bool():
            data = dict((k, raw[k]) for k in d.shuffled(list(raw)))
        if flavor == 'union':
            at = d.int(0, len(data))
            parts = [dict(list(data.items())[:at]), dict(list(data.items())[at:])]
            source = UnionSource(parts, merge=d.choice(['first', 'last', 'combine']))
        elif flavor == 'mount':
            source = MountSource(**dict((k, DefaultSource(v)) for k, v in data.items()))
        else:
            source = source_for(d, flavor, data)
        got, errors = S.outcome(cls, source)
        order = [f.name for f in cls.fields]
        d.note('order', order)
        found = S.error_list(errors)
        if faulty:
            # an invalid field may be reported again by whoever reads it
            read = set(r.split('.')[0] for n in plan.nodes for r in n.reads)
            for n in plan.nodes:
                if n.mode == 'format' and n.name not in read \
                        and found.count(('Invalid', n.key())) != (1 if n.broken else 0):
                    raise Violation('{0} is reported {1} times: {2!r}'.format(
                        n.name, found.count(('Invalid', n.key())), [str(e) for e in errors]))
            if set(found) != set(errs):
                raise Violation('errors {0!r} instead of {1!r}'.format(found, errs))
        elif found != []:
            raise Violation('errors {0!r}'.format([str(e) for e in errors]))
        r = S.differs(strip(got), want)
        if r:
            raise Violation('declared as {0!r}: {1}'.format(order, r))
        pos = dict((n, i) for i, n in enumerate(order))
        for n in plan.nodes:
            for r in n.reads:
                if pos[r.split('.')[0]] > pos[n.name]:
                    seen = True
    if seen:
        d.nontrivial((repr(plan), repr(raw)))
        d.label('reads ahead')


def graph(d):
    check(d, draw(d, 2, d.int(2, 6), None, False), False)


def chain(d):
    """One long chain, declared in any order."""
    n = d.int(3, 14)
    names = ['f{0}'.format(i) for i in range(n)]
    nodes = []
    for i, name in enumerate(names):
        reads = [names[i - 1]] if i else []
        m = d.choice(['munge', 'compute', 'items', 'munge', 'validate'])
        raw = S.ABSENT if m == 'compute' else [1, '2'] if m == 'items' else d.int(0, 9)
        nodes.append(Node(name, m, reads, raw, d.int(0, 2)))
    plan = Plan(nodes)
    if d.bool():
        # somewhere deep
        for _ in range(d.int(1, 2)):
            plan = Plan([Node('w', d.choice(['sub', 'subs', 'submap']), [], d.int(1, 2), sub=plan)])
    check(d, plan, False)


def deep(d):
    """A format of what is some forms down."""
    plan = draw(d, 0, d.int(1, 2), None, False)
    for _ in range(d.int(2, 4)):
        names = gen.names(d, d.int(1, 2))
        nodes = [Node(n, 'plain', [], d.int(0, 9)) for n in names[1:]]
        nodes.append(Node(names[0], 'sub', [], None, sub=plan))
        plan = Plan(nodes)
    name = [n for n in ('a', 'b', 'c', 'd', 'e', 'f') if n not in [x.name for x in plan.nodes]][0]
    plan.nodes.append(Node(name, 'format', d.sample(inside(plan), d.int(1, 3)), S.ABSENT))
    return plan


def formats(d):
    if d.p(20):
        return check(d, deep(d), True)
    check(d, draw(d, d.int(1, 3), d.int(2, 5), None, True), True)


TESTS = [
    ('graph', graph, 3500, 90000),
    ('chain', chain, 900, 20000),
    ('formats', formats, 2500, 50000),
]
