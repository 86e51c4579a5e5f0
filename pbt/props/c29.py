"""C29: sources made of sources."""
import copy
import json

from pilo.source import DefaultSource, JsonSource, MountSource, SourceError, UnionSource

from .. import spec as S
from ..engine import Violation
from ..sources import OwnSource
from . import c15
from .c14 import classes, sanitize_form

PROP = 'C29'
RULE = ('a case draws a form and partial inputs for it, and puts them in a random tree of unions (each with its own merge rules), '
        'mounts and leaves (dicts, native, JSON and own sources); mapping the tree is compared with mapping the data it stands for by '
        'the model of merging, including error texts, and walks of its paths with the data; it counts when there are at least two levels of '
        'unions or mounts; distinct by (schema, tree)')

G = S.Gen(flavor='json', depth=3, callables=False, max_fields=3)


class Node(object):
    """A source: what it stands for, how it describes its paths, how deep it is."""

    def __init__(self, source, data, text, height, note):
        self.source, self.data, self.text, self.height, self.note = source, data, text, height, note


def leaf(d, raw, json_too, own):
    k = d.n(4)
    location = d.choice([None, 'here'])
    if k == 0 and isinstance(raw, dict):
        return Node(raw, raw, S.path_text, 0, raw)

    def text(keys):
        return '{0}:{1}'.format(location, S.path_text(keys)) if location else S.path_text(keys)

    if k == 4 and json_too:
        return Node(JsonSource(json.dumps(raw), location=location), raw, text, 0, ('json', raw))
    if k == 3 and own:
        return Node(OwnSource(raw, location=location), raw, text, 0, ('own', raw))
    return Node(DefaultSource(raw, location=location), raw, text, 0, ('native', raw))


def single(d, raw, json_too, levels, own=True):
    """A node for data that is given."""
    k = d.n(9) if levels else 9
    if k < 3 and isinstance(raw, dict) and raw:
        below, srcs = {}, {}
        for key in sorted(raw):
            if raw[key] is None:
                srcs[key] = None
                below[key] = Node(None, None, S.path_text, 0, None)
            else:
                below[key] = single(d, raw[key], json_too, levels - 1, own)
                srcs[key] = below[key].source

        def text(keys):
            if len(keys) == 1:
                return '@{0}'.format(keys[0])
            rest = below[keys[0]].text if keys[0] in below else S.path_text
            return '@{0}:{1}'.format(keys[0], rest(keys[1:]))

        return Node(MountSource(**srcs), raw, text, 1 + max(n.height for n in below.values()),
                    ('mount', dict((key, n.note) for key, n in below.items())))
    if k == 3 and isinstance(raw, dict) and d.bool():
        return union([single(d, raw, json_too, levels - 1, own)], c15.Config(d))
    if k < 5 and isinstance(raw, dict):
        # what is in the first is not looked for in the second
        parts = [{}, {}]
        for key in sorted(raw):
            parts[d.n(1)][key] = raw[key]
        return union([single(d, p, json_too, levels - 1, own) for p in parts], c15.Config(d))
    return leaf(d, raw, json_too, own)


def union(nodes, cfg):
    data = c15.merge_mappings([n.data for n in nodes], 0, cfg, 'combine')
    return Node(UnionSource([n.source for n in nodes], **cfg.kw), data, S.path_text, 1 + max(n.height for n in nodes),
                ('union', [n.note for n in nodes], cfg.kw))


def compose(d, nodes):
    """One node of these, in groups next to each other."""
    while len(nodes) > 1:
        n = d.int(2, min(3, len(nodes)))
        i = d.n(len(nodes) - n)
        nodes[i:i + n] = [union(nodes[i:i + n], c15.Config(d))]
    return nodes[0]


def composed(d):
    form = c15.draw_form(d, d.choice([G, G, c15.SMALL]))
    n = d.weighted((2, 1), (4, 2), (6, 3), (3, 4), (1, 6))
    draw = c15.Draw(d, n, d.choice([0, 0, 8]))
    have = dict((i, {}) for i in range(n))
    draw.form(form, have)
    raws = [have[i] for i in range(n)]
    d.note('form', form)
    d.note('inputs', raws)
    if draw.mixed:
        d.label('mixed kinds')
        return
    # JSON reads numbers and lists as texts
    json_too = all(repr(sanitize_form(form, r)) == repr(r) for r in raws)
    snapshot = copy.deepcopy(raws)
    top = compose(d, [single(d, r, json_too, 2) for r in raws])
    d.note('tree', top.note)
    d.note('data', top.data)
    if json_too and repr(sanitize_form(form, top.data)) != repr(top.data):
        d.label('other meaning')
        return
    cls = form.build()
    want, werrors = S.outcome(cls, top.data)
    werrors = [(k, top.text([p.key for p in e.path.parts])) for e, (k, _) in zip(werrors, S.error_list(werrors))]
    ordered = not any(isinstance(s, S.Map) for s in form.specs())
    for again in range(2):
        got, errors = S.outcome(cls, top.source)
        a = S.error_list(errors)
        if a != werrors if ordered else sorted(a) != sorted(werrors):
            raise Violation('errors {0!r} instead of {1!r}'.format(a, werrors))
        r = S.differs(S.plain(got), S.plain(want)) or classes(got, want)
        if r:
            raise Violation(r)
    if repr(raws) != repr(snapshot):
        raise Violation('the sources were modified')
    if top.height > 1:
        d.nontrivial((repr(form), repr(top.note)))


def walk(d):
    """Path operations on composed sources."""
    n = d.weighted((2, 1), (4, 2), (6, 3), (3, 4))
    raws = [c15.tree(d, 3, 'root') for _ in range(n)]
    top = compose(d, [single(d, r, True, 3, False) for r in raws])
    if isinstance(top.source, dict):
        top.source = DefaultSource(top.source)
    d.note('tree', top.note)
    d.note('data', top.data)
    path = top.source.path()
    c15.wander(d, path, top.data, lambda p, log: check_text(p, top.text, log))
    if top.height > 1:
        d.nontrivial(repr(top.note))


def check_text(path, text, log):
    if log and str(path) != text(log):
        raise Violation('text {0!r} instead of {1!r}'.format(str(path), text(log)))


TESTS = [
    ('composed', composed, 4000, 100000),
    ('walk', walk, 2500, 60000),
]
