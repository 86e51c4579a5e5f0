"""C15: union sources."""
import copy
import json

from pilo.source import ConfigSource, DefaultSource, JsonSource, SourceError, UnionSource

from .. import spec as S
from ..engine import Violation
from ..sources import OwnSource
from . import c17
from .c14 import classes, sanitize, sanitize_form

PROP = 'C15'
RULE = ('a case draws a form and one to four partial inputs for it, merges them by the rules of the configuration in a '
        'model, and compares mapping the union (of dicts, native, JSON and configuration sources) with mapping the merged data; it counts '
        'when a key is present in at least two of the sources; distinct by (schema, inputs, configuration)')

G = S.Gen(flavor='json', depth=3, callables=False, max_fields=4)
MODES = ['first', 'last', 'combine']
MIXED = 'mixed'     # a value no container field accepts


class Config(object):

    def __init__(self, d):
        self.kw = {}
        merge = 'first'
        if d.p(60):
            merge = self.kw['merge'] = d.choice(MODES)
        self.mapping = self.sequence = merge
        if d.p(40):
            self.mapping = self.kw['mapping_merge'] = d.choice(MODES)
        if d.p(40):
            self.sequence = self.kw['sequence_merge'] = d.choice(MODES)
        self.depth = None
        if d.p(35):
            self.depth = self.kw['merge_depth'] = d.int(0, 4)

    def mode(self, mapping, depth):
        if self.depth is not None and self.depth <= depth:
            return 'first'
        return self.mapping if mapping else self.sequence


class Draw(object):

    def __init__(self, d, n, fault):
        self.d, self.n, self.fault = d, n, fault
        self.shared = 0
        self.mixed = False

    def form(self, form, have):
        """A mapping for each source in `have` ({index: mapping})."""
        d = self.d
        for name, s in form.fields:
            key = s.src if s.src is not None else name
            self.key(s, key, have)
        if d.p(20):
            for i in have:
                if d.bool():
                    have[i].setdefault('extra', d.choice([1, 'x', {'k': 1}]))

    def key(self, s, key, have):
        d = self.d
        who = [i for i in have if d.p(70)]
        if not who and have and d.p(90):
            who = [d.choice(sorted(have))]
        if len(who) > 1:
            self.shared += 1
        for i, v in self.values(s, who).items():
            have[i][key] = v

    def values(self, s, who):
        d = self.d
        if not who:
            return {}
        if d.p(4):
            return dict((i, None) for i in who)
        if isinstance(s, (S.List, S.Tup, S.Map, S.Sub)):
            if d.p(self.fault // 2):
                # something else, in all of them
                return dict((i, sanitize(s, d.choice([0, 'text', 2.5]))) for i in who)
            if len(who) > 1 and d.p(self.fault) and not getattr(s, 'allow_field', False):
                self.mixed = True
                out = self.containers(s, who)
                # what is wrong is where any way of merging meets it: see merge()
                bad = d.choice([who[0], who[-1]])
                other = {'k': 1} if isinstance(s, (S.List, S.Tup)) else [1]
                out[bad] = d.choice(['mixed', 3, other])
                return out
            return self.containers(s, who)
        out = {}
        for i in who:
            v = sanitize(s, s.raw(d, self.fault, 'json'))
            if v is None or isinstance(v, (dict, list)):
                v = sanitize(s, 'zz')
            out[i] = v
        if len(who) > 1 and d.p(15):
            for i in d.sample(who, d.int(1, len(who) - 1)):
                out[i] = None
        return out

    def containers(self, s, who):
        d = self.d
        out = {}
        if isinstance(s, (S.Map, S.Sub)):
            out = dict((i, {}) for i in who)
            if isinstance(s, S.Sub):
                self.form(s.form, out)
            else:
                keys = d.sample(['a', 'b', 'c', 'ab', 'dd', '1', 'a.b', 'zz z'], d.int(0, 5))
                for k in keys:
                    self.key(s.value, k, out)
            return out
        for i in who:
            n = len(s.items) if isinstance(s, S.Tup) and d.p(70) else d.size(0, 9)
            if isinstance(s, S.Tup) and len(who) > 1 and d.p(30):
                n = d.int(0, len(s.items))
            items = []
            for j in range(n):
                item = s.item if isinstance(s, S.List) else s.items[j % len(s.items)]
                items.append(sanitize(item, item.raw(d, self.fault, 'json')))
            out[i] = items
        return out


def merge(values, depth, cfg):
    """What the union should look like at a key that has these values."""
    if len(values) == 1:
        return values[0]
    if all(isinstance(v, dict) for v in values):
        return merge_mappings(values, depth, cfg, cfg.mode(True, depth))
    if all(isinstance(v, list) for v in values):
        mode = cfg.mode(False, depth)
        if mode == 'first':
            return values[0]
        if mode == 'last':
            return values[-1]
        return [x for v in values for x in v]
    if any(isinstance(v, (dict, list)) for v in values):
        # mixed kinds
        return MIXED
    return ([v for v in values if v is not None] or [None])[0]


def merge_mappings(values, depth, cfg, mode):
    if mode == 'first':
        values = values[:1]
    elif mode == 'last':
        values = values[-1:]
    keys = []
    for v in values:
        keys += [k for k in v if k not in keys]
    return dict((k, merge([v[k] for v in values if k in v], depth + 1, cfg)) for k in keys)


def clear(values, depth, cfg):
    """Whether the rules say what these values give, where kinds are mixed."""
    if len(values) == 1:
        return True
    containers = [isinstance(v, (dict, list)) for v in values]
    if all(isinstance(v, dict) for v in values):
        mode = cfg.mode(True, depth)
        return clear_mappings(values, depth, cfg, mode)
    if not any(containers) or all(isinstance(v, list) for v in values):
        return True
    # mixed: all of it has to be merged only if it is combined
    return cfg.mode(True, depth) == cfg.mode(False, depth) == 'combine'


def clear_mappings(values, depth, cfg, mode):
    if mode == 'first':
        values = values[:1]
    elif mode == 'last':
        values = values[-1:]
    keys = set(k for v in values for k in v)
    return all(clear([v[k] for v in values if k in v], depth + 1, cfg) for k in keys)


def draw_form(d, g):
    form = S.draw_form(d, g)
    for s in form.specs():
        if isinstance(s, S.Map):
            # keys of unions have no order: none may collide
            first = [k for k in s.key.translations if s.key.translations[k] == 'new'][:1]
            s.key.translations = dict((k, 'new') for k in first)
    return form


def union(d):
    form = draw_form(d, d.choice([G, G, SMALL]))
    n = d.weighted((1, 1), (6, 2), (4, 3), (1, 4))
    draw = Draw(d, n, d.choice([0, 0, 10, 30]))
    have = dict((i, {}) for i in range(n))
    draw.form(form, have)
    raws = [have[i] for i in range(n)]
    cfg = Config(d)
    d.note('form', form)
    d.note('sources', raws)
    d.note('configuration', cfg.kw)
    if draw.mixed and not clear_mappings(raws, 0, cfg, 'combine'):
        d.label('mixed kinds, unclear')
        return
    merged = merge_mappings(raws, 0, cfg, 'combine')
    d.note('merged', merged)
    check(d, form, raws, cfg, merged)
    if draw.shared:
        d.nontrivial((repr(form), repr(raws), repr(cfg.kw)))
    if draw.mixed:
        d.label('mixed kinds')


def sources(d, raws, json_too=True, own=True):
    out = []
    for raw in raws:
        k = d.n(3)
        if own and d.p(20):
            out.append(OwnSource(raw, location=d.choice([None, 'mine'])))
        elif k < 2:
            out.append(raw)
        elif k < 3 or not json_too:
            out.append(DefaultSource(raw, location=d.choice([None, 'here'])))
        else:
            out.append(JsonSource(json.dumps(raw), location=d.choice([None, 'there'])))
    return out


def check(d, form, raws, cfg, merged):
    cls = form.build()
    want, werrors = S.outcome(cls, merged)
    snapshot = copy.deepcopy(raws)
    # combined lists move the items of tuples, and JSON reads numbers and lists as texts
    given = sources(d, raws, repr(sanitize_form(form, merged)) == repr(merged))
    source = UnionSource(d.choice([list, tuple])(given), **cfg.kw)
    ordered = not any(isinstance(s, S.Map) for s in form.specs())
    for again in range(2):
        got, errors = S.outcome(cls, source)
        a, b = S.error_list(errors), S.error_list(werrors)
        if a != b if ordered else sorted(a) != sorted(b):
            raise Violation('errors {0!r} instead of {1!r}'.format(a, b))
        r = S.differs(S.plain(got), S.plain(want)) or classes(got, want)
        if r:
            raise Violation(r)
    if repr(raws) != repr(snapshot):
        raise Violation('the sources were modified')


def fits(s, v):
    """Whether `v` is of the kind (mapping, sequence, scalar) that `s` reads."""
    if isinstance(s, S.Map):
        return isinstance(v, dict) and all(fits(s.value, x) for x in v.values())
    if isinstance(s, S.Sub):
        specs = dict((s2.src if s2.src is not None else n, s2) for n, s2 in s.form.fields)
        return isinstance(v, dict) and all(k in specs and fits(specs[k], x) for k, x in v.items())
    if isinstance(s, (S.List, S.Tup)):
        return isinstance(v, list)
    return v is not None and not isinstance(v, (dict, list))


def draw_layers(d):
    """A form and a source for it: one configuration or a union of some (location text, note)."""
    form, given, texts, trees, at = configurations(d, d.int(1, 2), True)
    if len(given) == 1:
        return form, given[0], at, texts
    cfg = Config(d)
    return form, UnionSource(given, **cfg.kw), None, (texts, cfg.kw)


def configurations(d, n, configs_only=False):
    """(form, sources, their texts, what they hold, location of the first one)"""
    every = d.p(40)
    title = d.choice(c17.SECTIONS)
    if every:
        fields = []
        for i, key in enumerate(d.sample(c17.SECTIONS, d.int(1, 3))):
            s = S.Sub(c17.draw_form(d, False))
            s.src = key
            if d.p(40):
                s.default = S.OPTIONAL
            fields.append(('s{0}'.format(i), s))
        form = S.Form(fields)
    else:
        form = c17.draw_form(d, False)
    trees, given, texts = [], [], []
    often = d.choice([65, 96])
    for i in range(n):
        writer = c17.Writer(d, 0, False)
        tree, defaults, sections, kw = {}, {}, [], {}

        def section(name, form, tree, defaults):
            # some of the options only
            part = S.Form([f for f in form.fields if d.p(often)])
            options, _ = writer.section(part, [], tree, defaults)
            for n, s in part.fields:
                if s.src in defaults and not (s.src in tree and fits(s, tree[s.src])):
                    del defaults[s.src]
                    tree.pop(s.src, None)
            sections.append((name, options))

        if every:
            for n, s in form.fields:
                if d.p(often):
                    tree[s.src] = {}
                    more = {}
                    section(s.src, s.form, tree[s.src], more)
                    if more:
                        defaults[s.src] = more
        else:
            kw['section'] = title
            section(title, form, tree, defaults)
        text = c17.ini(d, sections, False)
        if defaults:
            kw['defaults'] = defaults
        trees.append(tree)
        if d.p(40):
            kw['location'] = d.choice(['conf.ini', 'a/b.cfg'])
        texts.append((text, kw))
        k = 0 if configs_only else d.n(5)
        if not i:
            at = ':'.join([kw[k] if k == 'location' else '[{0}]'.format(title) for k in ('location', 'section') if k in kw])
        given.append(ConfigSource(text, **kw) if k < 4 else tree)
    return form, given, texts, trees, at


def layers(d):
    """Configurations over configurations, with or without other sources."""
    form, given, texts, trees, _ = configurations(d, d.int(2, 3))
    cfg = Config(d)
    merged = merge_mappings(trees, 0, cfg, 'combine')
    d.note('form', form)
    d.note('configurations', texts)
    d.note('configuration', cfg.kw)
    if not clear_mappings(trees, 0, cfg, 'combine'):
        d.label('mixed kinds, unclear')
        return
    d.note('merged', merged)
    cls = form.build()
    cx = S.Cx('native')
    want = form.map(cx, merged)
    source = UnionSource(given, **cfg.kw)
    ordered = not any(isinstance(s, S.Map) for s in form.specs())
    for again in range(2):
        got, errors = S.outcome(cls, source)
        if ordered:
            S.compare_errors(errors, cx.errors)
        else:
            a, b = sorted(S.error_list(errors)), sorted(cx.errors)
            if a != b:
                raise Violation('errors {0!r} instead of {1!r}'.format(a, b))
        S.compare_value(got, want)
    if any(sum(k in t for t in trees) > 1 for k in merged):
        d.nontrivial((repr(form), repr(texts), repr(cfg.kw)))
    d.label('layers')


def deep(d):
    """The same few keys at every level, several levels deep."""

    def nested(depth):
        fields = [('i', opt(S.Int())), ('l', opt(S.List(S.Int())))]
        if depth:
            fields.append(('s', opt(S.Sub(nested(depth - 1)))))
            if d.p(30):
                fields.append(('m', opt(S.Map(S.Str(), S.Map(S.Str(), S.Int())))))
        return S.Form(d.shuffled(fields))

    def opt(s):
        s.default = S.OPTIONAL
        return s

    form = nested(d.int(1, 4))
    n = d.int(2, 4)
    draw = Draw(d, n, 0)
    have = dict((i, {}) for i in range(n))
    draw.form(form, have)
    raws = [have[i] for i in range(n)]
    cfg = Config(d)
    merged = merge_mappings(raws, 0, cfg, 'combine')
    d.note('form', form)
    d.note('sources', raws)
    d.note('configuration', cfg.kw)
    d.note('merged', merged)
    check(d, form, raws, cfg, merged)
    if draw.shared:
        d.nontrivial((repr(form), repr(raws), repr(cfg.kw)))


def tree(d, depth, kind):
    """The same key has the same kind in all sources."""
    if kind == 'a' or depth <= 0:
        return d.choice([0, 1, 2, 'x', 'y', True, 2.5])
    if kind in 'bl':
        return [d.choice([0, 1, 2, 'x']) for _ in range(d.size(0, 8))]
    return dict((k, tree(d, depth - 1, k)) for k in d.sample(['a', 'b', 'l', 'c', 'm'], d.int(0, 5)))


def walk(d):
    """Path operations, as what maps forms would do them."""
    n = d.weighted((1, 1), (6, 2), (4, 3), (1, 4))
    raws = [tree(d, 3, 'root') for _ in range(n)]
    cfg = Config(d)
    d.note('sources', raws)
    d.note('configuration', cfg.kw)
    merged = merge_mappings(raws, 0, cfg, 'combine')
    source = UnionSource(sources(d, raws), **cfg.kw)
    wander(d, source.path(), merged)
    if n > 1:
        d.nontrivial((repr(raws), repr(cfg.kw)))


def wander(d, path, merged, also=None):
    """Asks a path everything on the way through what it should lead to."""
    log = []
    d.note('walk', log)

    def ask(value):
        if also is not None:
            also(path, log)
        where = 'at {0!r}'.format(log)
        if not path.exists or path.is_null:
            raise Violation('{0}: exists {1!r}, is null {2!r}'.format(where, path.exists, path.is_null))
        for what in d.shuffled(['mapping', 'sequence']):
            # these also resolve what is below
            try:
                got = sorted(path.mapping()) if what == 'mapping' else path.sequence()
            except SourceError:
                got = 'error'
            want = 'error'
            if what == 'mapping' and isinstance(value, dict):
                want = sorted(value)
            elif what == 'sequence' and isinstance(value, list):
                want = len(value)
            if got != want:
                raise Violation('{0}: {1} is {2!r} instead of {3!r}'.format(where, what, got, want))
        if not isinstance(value, (dict, list)):
            got = path.primitive(None)
            if got != value or type(got) is not type(value):
                raise Violation('{0}: {1!r} instead of {2!r}'.format(where, got, value))

    def visit(value):
        ask(value)
        keys = []
        if isinstance(value, dict):
            keys = d.shuffled(sorted(value))
            other = [k for k in 'ablcmz' if k not in value]
        elif isinstance(value, list):
            m = len(value)
            keys = d.shuffled(list(range(-m, m)))
            other = [m, m + 1, -m - 1, -m - 2]
        else:
            return
        for k in keys:
            path.append(k)
            log.append(k)
            visit(value[k])
            path.pop()
            log.pop()
        for k in other:
            path.append(k)
            if path.exists:
                raise Violation('{0!r} exists'.format(log + [k]))
            below = log + [k]
            if d.p(20):
                below.append(d.choice(['a', 0, 'zz']))
                path.append(below[-1])
                if path.exists:
                    raise Violation('{0!r} exists'.format(below))
            if [p.key for p in path.parts] != below or len(path) != len(below):
                raise Violation('{0!r} is {1!r}'.format(below, [p.key for p in path.parts]))
            if also is not None:
                also(path, below)
            while len(path) > len(log):
                path.pop()
        if len(path) != len(log):
            raise Violation('length {0} instead of {1}'.format(len(path), len(log)))

    visit(merged)


def wrong(d):
    """Configurations that are not."""
    which = d.choice(['merge', 'mapping_merge', 'sequence_merge'])
    raws = [{'m': {'x': [1]}, 'l': [1, 2]}, {'m': {'x': [2]}, 'l': [3]}]
    source = UnionSource(raws, **{which: d.choice(['all', 'First', 'combined', 1, 'las'])})
    d.note('configuration', which)
    path = source.path()
    path.mapping()
    for k, read in d.shuffled([('m', path.mapping), ('l', path.sequence)]):
        path.append(k)
        refused = which == 'merge' or which == 'mapping_merge' and k == 'm' or which == 'sequence_merge' and k == 'l'
        try:
            read()
        except ValueError:
            if not refused:
                raise
        else:
            if refused:
                raise Violation('merged {0} with it'.format(k))
        path.pop()
    # and what no source is
    bad = d.choice([1, 'text', None, [1], ['x']])
    try:
        UnionSource(d.shuffled([{}, bad]))
    except TypeError:
        pass
    else:
        raise Violation('{0!r} became a source'.format(bad))
    d.nontrivial((which, k, repr(bad)))


SMALL = S.Gen(flavor='json', depth=2, callables=False, max_fields=2, constraints=False, options=False, wide=False)


TESTS = [
    ('union', union, 6500, 150000),
    ('layers', layers, 1500, 40000),
    ('deep', deep, 2500, 80000),
    ('walk', walk, 1500, 40000),
    ('wrong', wrong, 200, 1000),
]
